#!/usr/bin/env python3
"""./run.py C01 [--replay FILE [N]]   -- one check; tier and seed from VERIF_TIER/VERIF_SEED."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if sys.executable != '/opt/venv/bin/python' and not os.environ.get('VP_REEXEC'):
    os.environ['VP_REEXEC'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', *sys.argv])

from harness import build, driver  # noqa: E402


def main():
    prop = sys.argv[1]
    META = json.load(open(os.path.join(HERE, "checks", "meta.json")))
    mod_name = META[prop]["module"]
    plan = importlib.import_module(f'plans.{mod_name}') if os.path.exists(
        os.path.join(HERE, 'plans', mod_name + '.py')) else None
    only = None
    if '--replay' in sys.argv:
        i = sys.argv.index('--replay')
        recs = json.load(open(sys.argv[i + 1]))
        rec = recs[int(sys.argv[i + 2]) if len(sys.argv) > i + 2 else 0]
        only = f'{rec["group"]}:{rec["index"]}'
        os.environ['VERIF_SEED'] = str(rec['seed'])
        print('replaying', only)
    run = driver.Run(prop)
    try:
        try:
            if plan is not None:
                return plan.main(run, only)
            pkg = run.package('release')
        except build.BuildError as e:
            print(f'BUILD FAILED: {e}')
            return 3
        # what the check declares about itself, without importing the package
        meta = META[prop]
        scale = float(os.environ.get('VP_SCALE', 4)) if run.tier == 'quick' else 1
        if not (only or '').startswith('mpi'):
            res = run.workers(mod_name, pkg, nshards=1 if only else meta.get('shards', 6), only=only, scale=scale)
            run.standard(res)
        if meta.get('mpi'):
            run.mpi(mod_name, pkg, only)
        return run.finish(meta['rule'], assumptions=meta.get('assumptions', ()))
    finally:
        run.close()


if __name__ == '__main__':
    sys.exit(main())
