#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, technique=technique, note=note))

exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                'observe_at': list(p['observe']),
                'hook_needed': None,
            }}, ensure_ascii=False) + '\n')

json.dump({
    'version': 1,
    'setup_cmd': './check.sh build',
    'hooks': {'guard': 'none', 'enable': 'no hooks: the harness uses the public interface of the crate only', 'source_commits': []},
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'VERIF_TIER=quick ./check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    } for p in P],
    'not_applicable': [],
    'notes': 'The checks rebuild the harness in /verif/mc against /repo with every run; see DESIGN.md.',
}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
