#!/usr/bin/env python3
"""Write known-findings.json: findings declared here, fixed entries from the fix: commits of /repo."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from findings import FINDINGS, PROPERTY_OF  # noqa: E402

log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
fixed = []
missing = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    what = s[5:]
    prop = PROPERTY_OF.get(what)
    if prop is None:
        missing.append(what)
        continue
    fixed.append(f'fixed: property={prop} {h} {what}')
assert not missing, missing
json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(HERE, 'known-findings.json'), 'w'), indent=1)
print(len(FINDINGS), 'findings,', len(fixed), 'fixed')
