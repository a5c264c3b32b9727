"""C07: the workloads of the other checks, and hostile ones, under AddressSanitizer,
UndefinedBehaviorSanitizer and gfortran's array-bound checks."""
import glob
import json
import os
import re
from concurrent.futures import ThreadPoolExecutor

from harness import build as B
from harness import driver

# module -> fraction of its own number of cases, per tier
WORKLOADS = {
    'quick': {'c07': 1, 'c01': .35, 'c02': .15, 'c03': .35, 'c04': .35, 'c05': .35, 'c15': .2, 'c16': .3,
              'c11': .3, 'c10': .3},
    'thorough': {'c07': 1, 'c01': .3, 'c02': .2, 'c03': .3, 'c04': .3, 'c05': .3, 'c15': .3, 'c16': .3,
                 'c11': .5, 'c10': .3, 'c13': .2, 'c20': .2, 'c22': .2, 'c18': .2},
}
SHARDS = {'c07': 6}
FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ (?:in )?(\S+) (\S+)')


def environment(log):
    return dict(
        VP_NATIVE='1', PYTHONMALLOC='malloc', OMP_NUM_THREADS='3',
        LD_PRELOAD=B.runtime_lib('libasan.so') + ':' + B.runtime_lib('libubsan.so'),
        ASAN_OPTIONS=f'detect_leaks=0:exitcode=66:allocator_may_return_null=1:detect_odr_violation=0:log_path={log}',
        UBSAN_OPTIONS=f'print_stacktrace=1:log_path={log}')


def ours(text):
    """The first frame of the compiled extension in a report."""
    for name, where in FRAME.findall(text):
        if 'repo/src' in where or 'src/flib' in where or '_flib' in where or '_MOD_' in name:
            return re.sub(r'\._omp_fn\.\d+|\.part\.\d+|\.constprop\.\d+', '', name)
    return None


def reports(log, stderr):
    """(kind, function, text) of every report about the compiled extension."""
    out = []
    m = re.search(r'Fortran runtime error: [^\n]*', stderr)
    if m:
        line = re.search(r'At line (\d+) of file (\S+)', stderr)
        where = os.path.basename(line.group(2)) if line else 'unknown'
        what = re.sub(r"Index '-?\d+'|bound of -?\d+|\(-?\d+\)|-?\d+", 'N', m.group(0))
        return [(f'fortran:{what[23:70]}', where, (line.group(0) + ' ' if line else '') + m.group(0))]
    for f in sorted(glob.glob(log + '.*')):
        text = open(f, errors='replace').read()
        m = re.search(r'ERROR: AddressSanitizer: (?:attempting )?([\w-]+)', text)
        if m:
            # whatever the library at fault, the process touched memory that is not its own
            out.append((m.group(1), ours(text) or 'python', text[:1500]))
        for line in re.findall(r'[^\n]*runtime error:[^\n]*(?:\n +#[^\n]*)*', text):
            if 'src/flib' in line or '_flib' in line:
                k = re.search(r'runtime error: ([^\n]*)', line).group(1)
                out.append(('undefined:' + re.sub(r'-?\d+(\.\d+)?', 'N', k)[:60], ours(line) or 'unknown', line[:1500]))
    return out


def canary(run, pkg):
    """The sanitizer must see a read past the end of an array."""
    import subprocess

    log = f'{run.scratch}/canary'
    env = driver.worker_env(**environment(log))
    code = 'import ctypes, numpy as np\na = np.zeros(5000, np.int8)\nctypes.string_at(a.ctypes.data, 5001)\n'
    r = subprocess.run([driver.PY, '-c', code], env=env, capture_output=True, cwd=run.scratch)
    ok = r.returncode == 66 and any('heap-buffer-overflow' in open(f).read() for f in glob.glob(log + '.*'))
    if not ok:
        run.errors.append(f'the sanitizer did not see the deliberate overrun (status {r.returncode})')
    return ok


def main(run, only):
    pkg = run.package('asan')
    alive = canary(run, pkg)
    natives, per_module, restarts = [], {}, 0
    jobs = []
    if only:
        module, case = only.split('/', 1)
        jobs.append((module, 0, 1, 1.0, case))
    else:
        for module, scale in WORKLOADS[run.tier].items():
            n = SHARDS.get(module, 2)
            jobs += [(module, i, n, scale, None) for i in range(n)]

    def shard(job):
        module, i, n, scale, case = job
        resume, found, done = None, [], []
        for attempt in range(25):
            log = f'{run.scratch}/log-{module}-{i}-{attempt}'
            env = environment(log)
            if resume:
                env['VP_RESUME'] = resume
            r = run.workers(module, pkg, nshards=n, env=env, scale=scale, only=case, tag=f'{i}-{attempt}',
                            shards=[i], timeout=800 if run.tier == 'quick' else 6000)[0]
            reps = reports(log, r['stderr'])
            pr = r['progress']
            where = dict(group=f'{module}/{pr.get("group")}', index=pr.get('index'), desc=pr.get('desc'), seed=run.seed)
            if r['result'] is not None:
                # undefined behaviour is reported without ending the process
                found += [(k, f, t, where) for k, f, t in reps]
                done.append(r['result'])
                break
            if r['rc'] == 'timeout':
                run.errors.append(f'{module}: timed out at {pr}')
                break
            died = reps or isinstance(r['rc'], int) and r['rc'] in (-4, -6, -7, -8, -11)
            if not died:
                run.errors.append(f'{module}: worker ended with {r["rc"]} at {pr}: {r["stderr"][-1500:]}')
                break
            if not reps:
                reps = [(f'signal{-r["rc"]}', 'unknown', r['stderr'][-800:])]
            found += [(k, f, t, where) for k, f, t in reps[:1]]
            if case:
                break
            resume = f'{pr["group"]}:{pr["index"]}'
        return module, found, done, attempt

    with ThreadPoolExecutor(8) as ex:
        for module, found, done, attempt in ex.map(shard, jobs):
            restarts += attempt
            for kind, func, text, where in found:
                run.violations.append(dict(property=run.prop, key=f'{kind}:{func}', message=text, **where))
            for r in done:
                natives.append(r['native'])
                per_module[module] = per_module.get(module, 0) + sum(r['native']['calls'].values())
                # what the other checks say about values is their own business
                r['violations'] = []
                run.errors += r['errors']
    calls = {}
    sigs = set()
    for n in natives:
        sigs.update(n['signatures'])
        for k, v in n['calls'].items():
            calls[k] = calls.get(k, 0) + v
    samples = [s for r in run.results for s in r['samples'][:1]][:6]
    run.results = [dict(evaluations=sum(calls.values()), signatures=sorted(sigs), by_key=calls, by_group=per_module,
                        extra=dict(bytes_guarded=sum(n['bytes'] for n in natives), workers_replaced=restarts,
                                   canary_overrun_seen=alive), samples=samples)]
    meta = json.load(open(driver.VERIF / 'checks/meta.json'))[run.prop]
    return run.finish(meta['rule'], assumptions=meta.get('assumptions', ()))
