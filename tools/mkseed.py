"""mk(id, prop, [(path, old, new[, count])], demo python source, needs, breaks): write seeded/<id>."""
import json, os, subprocess

R = '/repo'


def mk(id, prop, edits, demo, needs, breaks, sh=None):
    assert not subprocess.run(['git', '-C', R, 'diff', '--quiet']).returncode, 'dirty'
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    try:
        for e in edits:
            p, old, new = e[:3]
            s = open(f'{R}/{p}').read()
            n = e[3] if len(e) > 3 else 1
            assert s.count(old) == n, (id, p, s.count(old), old)
            open(f'{R}/{p}', 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', R, 'diff'])
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(f'{d}/patch.diff', 'wb').write(diff)
    open(f'{d}/demo.py', 'w').write(demo.strip() + '\n')
    open(f'{d}/demo.sh', 'w').write(sh or '. /opt/vp/env.sh\nexport OMP_NUM_THREADS=4 MPLBACKEND=Agg\nexec python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
