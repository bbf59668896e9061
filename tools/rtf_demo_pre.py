import os, subprocess, re
CACHE = os.environ['XDG_CACHE_HOME'] + '/rtforth/history.txt'
ENTER, EOF, UP, DOWN = '\n', '\4', '\x11', '\x12'
def run(keys, *args):
    """What the application writes; its keys: see stub/src/lib.rs."""
    p = subprocess.run([os.environ['RTF'], *args], env=dict(os.environ, STUB_KEYS=keys), stdout=subprocess.PIPE, timeout=20)
    assert p.returncode == 0, p
    return p.stdout.decode()
def answers(keys, *args):
    """The same without the drawings of the line editor."""
    out = ''
    for p in re.split('\x1b\\[2K', run(keys, *args)):
        out += re.sub('.*\x1b\\[[0-9;]*H', '', p, flags=re.S)
    return out.split('exit.\r\n')[-1]
def history():
    return open(CACHE).read().split('\n')[:-1]
