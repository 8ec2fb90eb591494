#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the oracle of each property, its workload as the harness describes it, and the planted bugs."""
import json, os, re, glob, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS
from design_text import HEAD, ORACLE, TAIL, MISSED
regs = {}
for f in glob.glob(os.path.join(HERE, 'mon', '*.go')):
    for m in re.finditer(r'reg\("(C\d\d)", "((?:[^"\\]|\\.)*)"', open(f).read()):
        regs[m[1]] = json.loads('"' + m[2] + '"')
seeded = {}
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeded.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
out = [HEAD.strip(), '', '## The properties, one by one', '']
for p in PROPS:
    i = p['id']
    out.append(f"### {i} {p['title']}")
    out.append('')
    out.append(f"- **Ranges over**: {p['quant']}.")
    out.append(f"- **Oracle**: {ORACLE[i]}")
    out.append(f"- **Workload**: {regs[i]}.")
    out.append(f"- **Why the tests cannot settle it**: {p['why']}")
    s = seeded.get(i)
    if s:
        out.append('- **Planted bugs caught**: ' + '; '.join(f"`{n}` ({m['what_it_breaks']})" for n, m in s) + '.')
    else:
        out.append('- **Planted bugs**: none kept for this property.')
    out.append('')
out += ['## Planted bugs and the checks that catch them', '', 'Each lies in `seeded/<name>/` and is caught (exit 1 and the VIOLATION line) by the quick check of the property it was written against.', '', '| planted bug | property | what it needs to show | missed at first? |', '|---|---|---|---|']
n = 0
for i in sorted(seeded):
    for name, m in seeded[i]:
        n += 1
        out.append(f"| `{name}` | {i} | {m['needs']} | {MISSED.get(name, 'no')} |")
out += ['', f'{n} planted bugs in all.', '', TAIL.strip(), '']
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
missing = [p['id'] for p in PROPS if p['id'] not in seeded]
print('without a planted bug:', missing)
