#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json and checks/meta.json from tools/props.py."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import P  # noqa: E402

NOT_APPLICABLE = []


def main():
    lines, checks, meta = [], [], {}
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        n = len(re.findall(r'[.](?:\s|$)', p['statement']))
        assert n <= 3, (p['id'], n, p['statement'])
        lines.append(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}))
        for f in p['anchors']['files']:
            assert os.path.exists('/repo/' + f), f
        checks.append(dict(
            property=p['id'], quick_cmd=f'python3 run.py {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py {p["id"]}',
            technique=p['technique'], level='exploration', level_note=p['level_note']))
        meta[p['id']] = dict(module=p['module'], shards=p['shards'], rule=p['rule'], assumptions=p['assumptions'])
        if p['mpi']:
            meta[p['id']]['mpi'] = p['mpi']
    open(f'{HERE}/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
    man = dict(
        version=1, setup_cmd='python3 tools/setup.py',
        checks=checks, not_applicable=NOT_APPLICABLE)
    json.dump(man, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
    json.dump(meta, open(f'{HERE}/checks/meta.json', 'w'), indent=1)
    print(len(P), 'properties')


main()
