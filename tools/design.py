#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property + tools/design_tail.md."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import P, NOTES  # noqa: E402

out = [open(f'{HERE}/tools/design_head.md').read()]
for p in sorted(P, key=lambda p: p['id']):
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*How.* {p['rule']}\n{p['level_note']}\n"
               f"{' '.join(NOTES.get(p['id'], '').split())}\n\n*Why the tests cannot.* {p['why_tests_cant']}\n")
out.append(open(f'{HERE}/tools/design_tail.md').read())
k = json.load(open(f'{HERE}/known-findings.json'))
out.append('## Genuine defects repaired\n\n' + '\n'.join('* ' + f for f in k['fixed']) + '\n')
out.append('## Known findings (recorded, not repaired)\n\n' + ('\n'.join(
    f"* property={f['property']} ({f['key']}): {f['what']} {f.get('why', '')}" for f in k['findings']) or 'None.') + '\n')
rows = []
cp = f'{HERE}/tools/caught.json'
caught = json.load(open(cp)) if os.path.exists(cp) else {}
for d in sorted(os.listdir(f'{HERE}/seeded')):
    m = json.load(open(f'{HERE}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d, 'not run')} |")
out.append('## Planted bugs and what catches them\n\n| bug | breaks | needs | checks (quick) that report it |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
open(f'{HERE}/DESIGN.md', 'w').write('\n'.join(out))
