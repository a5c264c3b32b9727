"""C06: the compiled code on perturbed teams of threads, under ThreadSanitizer."""
import glob
import json
import subprocess

from harness import build as B
from harness import driver


def environment(run, log):
    return dict(LD_PRELOAD=B.runtime_lib('libtsan.so') + ':' + str(B.build_gomp_shim()), VP_SANLOG=log,
                TSAN_OPTIONS=f'log_path={log}:exitcode=0:halt_on_error=0:history_size=4')


def canary(run, prefix):
    """The detector must see a deliberate race between two members of a team."""
    log = f'{run.scratch}/canary{len(prefix)}'
    env = driver.worker_env(**environment(run, log))
    code = 'import ctypes\nlib = ctypes.CDLL(None)\nlib.vp_omp_set(2, 0, 0, ctypes.c_uint64(1))\nlib.vp_omp_canary()\n'
    r = subprocess.run([*prefix, driver.PY, '-c', code], env=env, capture_output=True, text=True, cwd=run.scratch)
    seen = any('data race' in open(f).read() for f in glob.glob(log + '.*'))
    return seen, f'status {r.returncode}: {r.stderr[-500:]}'


def main(run, only):
    pkg = run.package('tsan')
    for prefix in ((), ('setarch', '-R')):
        alive, why = canary(run, prefix)
        if alive:
            break
    else:
        run.errors.append(f'the race detector did not see the deliberate race: {why}')
    meta = json.load(open(driver.VERIF / 'checks/meta.json'))[run.prop]
    log = f'{run.scratch}/tsan'
    res = run.workers('c06', pkg, nshards=1 if only else 7, env=environment(run, log), only=only, prefix=prefix)
    run.standard(res)
    traces = {t for r in run.results for t in r['extra'].pop('interleavings', [])}
    regions = sum(r['extra'].pop('parallel_regions', 0) for r in run.results)
    return run.finish(meta['rule'], assumptions=meta.get('assumptions', ()), extra=dict(
        distinct_interleavings=len(traces), parallel_regions=regions, canary_race_seen=alive))
