#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE
out, checks = [], []
ids = set()
for p in PROPS:
    assert p['id'] not in ids; ids.add(p['id'])
    assert len(p['title']) <= 80, p['title']
    n = sum(p['statement'].count(x) for x in ('. ',)) + 1
    assert n <= 3, (p['id'], n)
    d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
         'quantifier': {'over': p['over'], 'text': p['quant']},
         'why_tests_cant': p['why'],
         'anchors': {'files': p['files'], 'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mech']]}}
    if p.get('observe'): d['anchors']['observe_at'] = p['observe']
    d['anchors']['hook_needed'] = None
    out.append(d)
    if p.get('claimed', True):
        checks.append({'property': p['id'], 'quick_cmd': f"bash check.sh {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough bash check.sh {p['id']}",
                       'technique': p['tech'], 'level': 'exploration',
                       'level_note': p.get('note') or 'Held on the executions this run drove, with the race detector on; the oracle is in the harness, independent of the code. Nothing is claimed for executions not driven.'})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in out: f.write(json.dumps(d, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
     'notes': 'Black-box harness (mon/) built with -race against /repo; no hooks in /repo are needed. Known findings: KNOWN_FINDINGS.txt.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
print(len(out), 'properties,', len(checks), 'checks')
