#!/usr/bin/env python3
"""mutate.py LANES SEED MAX [FILE...]: mutate /repo's sources one place at a time in scratch copies, and run the
stable tests and then every quick check on each mutant; the survivors are what the checks may miss.
A development tool only: no check uses it.  Results: /tmp/mut/results.txt"""
import os, re, sys, json, subprocess, random, threading, time, collections
B = '/tmp/mut'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
ENV['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + ENV['PATH']
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
FILES = ['src/core.rs', 'src/parser.rs', 'src/memory.rs', 'src/output.rs', 'src/tools.rs', 'src/loader.rs', 'src/float.rs',
         'src/file_access.rs', 'src/facility.rs', 'src/units.rs', 'src/env.rs', 'rtf/src/main.rs', 'rtf/src/term.rs', 'core.fth', 'rtf/rtf.fth']
CHECKS = ['C%02d' % k for k in range(1, 32) if k not in (12, 22, 28, 29, 30)] + ['C12', 'C22', 'C30', 'C29', 'C28']

def sites(f):
    t = open('/repo/' + f).read()
    lines = t.split('\n')
    out = []
    if f.endswith('.fth'):
        for n, l in enumerate(lines):
            code = re.sub(r'\( .*?\)|\\ .*', lambda m: ' ' * len(m.group()), l)
            for m in re.finditer(r'(?<=\s)\S+(?=\s|$)', code):
                w = m.group()
                if w in (':', ';', ')', '(') or code[:m.start()].rstrip().endswith(':'): continue
                reps = {'<': ['>', '<='], '>': ['<'], '+': ['-'], '-': ['+'], '0': ['1'], '1': ['0', '2'], '0=': ['0<'], 'dup': [''], 'swap': [''], 'rot': ['-rot'],
                        'if': [], 'else': [], 'then': [], 'begin': [], 'while': [], 'repeat': [], 'again': [], 'until': [], 'do': [], 'loop': []}.get(w, [''])
                for r in reps: out.append((f, n, m.start(), m.end(), r))
        return out
    depth_test = False
    for n, l in enumerate(lines):
        if 'mod tests' in l: break
        s = l.strip()
        if s.startswith('//') or s.startswith('#') or s.startswith('use ') or 'add_primitive' in l or 'add_immediate' in l or 'add_compile' in l: continue
        code = re.sub(r'//.*', '', l)
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' * len(m.group()), code)
        for pat, reps in [(r' < ', [' <= ', ' >= ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' <= ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
                          (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' \* ', [' / ']), (r' % ', [' / ']),
                          (r'wrapping_add', ['wrapping_sub']), (r'wrapping_sub', ['wrapping_add']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
                          (r'(?<=abort_with\()[A-Z_]+', ['UNSUPPORTED_OPERATION']), (r'\b\d+\b', ['+1'])]:
            if 'fn ' in code and pat in (r' < ', r' > '): continue
            for m in re.finditer(pat, code):
                for r in reps:
                    if r == '+1': r = str(int(m.group()) + 1)
                    out.append((f, n, m.start(), m.end(), r))
        if re.match(r'\s*(self|vm|\*?\w+(\.\w+)*)[.\w()]*\(.*\);$', code) and 'let ' not in code:
            i = len(l) - len(l.lstrip()); out.append((f, n, i, len(l), ''))
        m = re.search(r'\bif (?!let)(.*) \{$', code)
        if m: out.append((f, n, m.start(1), m.end(1), '!(' + l[m.start(1):m.end(1)] + ')'))
    return out

def sh(c, cwd, t=900, **k):
    try: return subprocess.run(c, shell=True, cwd=cwd, env=dict(ENV, **k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
    except subprocess.TimeoutExpired: return None

kills = collections.defaultdict(collections.Counter)
for f, cs in {'src/file_access.rs': ['C21', 'C22'], 'src/facility.rs': ['C20', 'C19'], 'src/float.rs': ['C23', 'C14'], 'src/parser.rs': ['C13', 'C14'], 'src/output.rs': ['C15', 'C25', 'C26'],
              'src/tools.rs': ['C26', 'C20'], 'src/memory.rs': ['C04', 'C24'], 'src/loader.rs': ['C22', 'C12'], 'src/units.rs': ['C24', 'C26'], 'core.fth': ['C26', 'C22', 'C17', 'C15', 'C25'],
              'src/core.rs': ['C05', 'C16', 'C27', 'C09', 'C01', 'C02', 'C03', 'C04', 'C11', 'C10']}.items():
    for n, c in enumerate(cs): kills[f][c] = 3 if n == 0 else 2
lock = threading.Lock()
def log(s):
    with lock:
        print(s, flush=True); open(B + '/results.txt', 'a').write(s + '\n')

def lane(k, todo):
    d = f'{B}/L{k}'
    if not os.path.isdir(d):
        os.makedirs(d)
        sh(f'cp -a /repo {d}/repo; mkdir {d}/verif; cp -a /verif/mc /verif/mcterm /verif/check.sh /verif/known_findings.txt {d}/verif/', '/')
        sh(f"grep -rlE '/repo|/verif' {d}/verif --include=*.rs --include=*.toml --include=check.sh | xargs sed -i 's#/verif#{d}/VV#g; s#/repo#{d}/repo#g; s#/VV#/verif#g'", '/')
    while True:
        with lock:
            if not todo: return
            f, n, a, b, r = todo.pop()
        sh('git checkout -q -- .', d + '/repo')
        p = f'{d}/repo/{f}'
        lines = open(p).read().split('\n'); old = lines[n]
        lines[n] = old[:a] + r + old[b:]
        open(p, 'w').write('\n'.join(lines))
        tag = f'{f}:{n+1}: {old.strip()[:100]}  =>  {lines[n].strip()[:110]}'
        x = sh('timeout 200 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > ../test.log 2>&1; python3 /opt/vp/results.py ../out.json cargo:../test.log', d + '/repo')
        t = open(d + '/test.log', errors='replace').read()
        if re.search(r'^error', t, re.M) and 'could not compile' in t: log('COMPILE ' + tag); continue
        try: o = json.load(open(d + '/out.json'))['passed']
        except Exception: o = []
        if any(s not in o for s in STABLE): log('TESTS   ' + tag); continue
        order = sorted(CHECKS, key=lambda c: -kills[f][c] - 0.01 * sum(kills[g][c] for g in kills) + (1 if c in CHECKS[25:] else 0))
        if f.startswith('rtf/'): order = ['C29', 'C28']
        rel = {'src/file_access.rs': 'C21 C22 C16 C30 C29', 'src/loader.rs': 'C22 C12 C16 C30 C29', 'src/tools.rs': 'C26 C20 C10 C30 C29', 'src/facility.rs': 'C20 C19 C17 C18',
               'src/float.rs': 'C23 C14 C03 C27 C30', 'src/parser.rs': 'C13 C14 C27 C12 C30', 'src/output.rs': 'C15 C25 C26 C12 C30 C29', 'src/memory.rs': 'C04 C24 C25 C10 C30'}.get(f)
        if rel: order = rel.split()
        res = None
        t0 = time.time()
        for c in order:
            y = sh(f'./check.sh {c}', d + '/verif', VERIF_TIER='quick')
            if y is None or y.returncode not in (0, 1): res = f'{c} rc {y and y.returncode}'; break
            if y.returncode == 1:
                res = c; kills[f][c] += 1; break
        log((f'{res:7s} ' if res else 'SURVIVED ') + tag + f'   [{time.time()-t0:.0f} s]')

if __name__ == '__main__':
    lanes, seed, mx = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    seen = open(B + '/results.txt').read() if os.path.exists(B + '/results.txt') else ''
    todo = []
    for f in sys.argv[4:] or FILES: todo += sites(f)
    print(len(todo), 'sites')
    random.Random(seed).shuffle(todo)
    def tag(x):
        f, n, a, b, r = x
        old = open('/repo/' + f).read().split('\n')[n]
        return f'{f}:{n+1}: {old.strip()[:100]}  =>  {(old[:a] + r + old[b:]).strip()[:110]}'
    todo = [x for x in todo if tag(x) not in seen][:mx]
    ts = [threading.Thread(target=lane, args=(k, todo)) for k in range(lanes)]
    [t.start() for t in ts]; [t.join() for t in ts]
