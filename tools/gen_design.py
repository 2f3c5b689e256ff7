#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the intro, the property table, the Prop records of the harness, the findings and the seeds."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NOT_APPLICABLE
src = '\n'.join(open(f).read() for f in sorted(glob.glob(V + '/harness/src/props/*.rs')))
rec = {}
for m in re.finditer(r'Prop \{ id: "(P\d+)", quick: ([\d_]+), thorough: ([\d_]+),.*?rule: "((?:[^"\\]|\\.)*)",\s*assumptions: &\[((?:[^\]"]|"(?:[^"\\]|\\.)*")*)\]', src, re.S):
    rec[m[1]] = (m[2], m[3], m[4].replace('\\"', '"'), re.findall(r'"((?:[^"\\]|\\.)*)"', m[5]))
fixed, known = {}, {}
for l in open(V + '/known_findings.txt'):
    m = re.match(r'(fixed|known): property=(P\d+) (.*)', l)
    if m: (fixed if m[1] == 'fixed' else known).setdefault(m[2], []).append(m[3])
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks']))
o = [open(V + '/tools/design_intro.md').read(), '## 3. The properties\n']
for p in PROPS:
    i = p['id']; q, t, rule, ass = rec[i]
    o.append(f"### {i} {p['title']}\n")
    o.append(f"*Statement.* {p['statement']}\n")
    o.append(f"*Must hold for* {p['text']} ({', '.join(p['over'])}). *Anchored in* {', '.join(p['files'])}.\n")
    o.append(f"*Method.* {p['tech']}. *Observed:* {'; '.join(p['observe'])}.\n")
    o.append(f"*Workload.* {rule[0].upper() + rule[1:]}. Quick {q.replace('_', ' ')} cases, thorough {t.replace('_', ' ')}.\n")
    if ass: o.append('*Assumptions and freedoms.* ' + '; '.join(ass) + '.\n')
    o.append(f"*Why tests cannot settle it.* {p['why'][0].upper() + p['why'][1:]}.\n")
    for d in fixed.get(i, []): o.append(f"* repaired: {d.split(' ', 1)[1]} ({d.split(' ', 1)[0]})")
    for d in known.get(i, []): o.append(f"* KNOWN FINDING: {d}")
    for s, n, b in seeds.get(i, []): o.append(f"* planted bug `{s}`: {b} (needs {n}); caught by {i}")
    o.append('')
if NOT_APPLICABLE:
    o.append('### Not applicable\n')
    for n in NOT_APPLICABLE: o.append(f"* {n}")
o.append(open(V + '/tools/design_outro.md').read())
o.append('## 5. Planted bugs and what catches them\n')
o.append('Every planted bug compiles, passes the 887 stable tests, has a demonstration, and is caught by the quick check of its property (`tools/seedtest.sh <id>` applies it, runs the check and reverts it).\n')
o.append('| bug | property (check that catches it) | what it breaks |\n|---|---|---|')
for p, l in sorted(seeds.items()):
    for s, n, b in l: o.append(f'| {s} | {p} | {b} |')
open(V + '/DESIGN.md', 'w').write('\n'.join(o).rstrip() + '\n')
miss = [p['id'] for p in PROPS if not seeds.get(p['id'])]
print('DESIGN.md written; properties without a planted bug:', miss)
