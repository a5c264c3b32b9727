"""Run the workers of one check, merge what they observed, write the verdict."""
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import shutil
from pathlib import Path

from . import build as B

VERIF = Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'


MPI_ENV = dict(
    OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm='isolated',
    OMPI_MCA_rmaps_base_oversubscribe='1', PYTHONPATH='/opt/mpi4py', OMP_NUM_THREADS='1',
    OMPI_MCA_mpi_yield_when_idle='1')


def worker_env(**extra):
    env = B.base_env()
    env.update(
        OMP_NUM_THREADS='4', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
        NUMEXPR_NUM_THREADS='1', MPLBACKEND='Agg', HOME=env.get('HOME', '/root'),
        OMP_WAIT_POLICY='passive',
    )
    # the scratch directory is the only place the workloads write to
    env.update(extra)
    return env


def load_known():
    p = VERIF / 'known-findings.json'
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text())['findings']]


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'vp-{prop}-')
        self.violations = []
        self.errors = []
        self.results = []

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def package(self, flavour):
        so = B.build(flavour)
        where = Path(self.scratch) / f'pkg-{flavour}'
        if where.exists():
            return str(where)
        return B.make_package(so, where)

    def workers(self, module, pkg, nshards=4, env=None, scale=1.0, only=None,
                timeout=None, prefix=(), tag='', timeout_is='inconclusive', seed=None,
                on_exit=None, mpi=None, shards=None):
        """Launch nshards workers; returns the list of their results."""
        if timeout is None:
            timeout = 700 if self.tier == 'quick' else 7200
        procs = []
        for shard in range(nshards) if shards is None else shards:
            out = f'{self.scratch}/{module}-{tag}-{shard}.json'
            tmp = f'{self.scratch}/tmp-{module}-{tag}-{shard}'
            os.makedirs(tmp, exist_ok=True)
            e = worker_env(TMPDIR=tmp)
            e.update(env or {})
            cmd = [*prefix, PY, str(VERIF / 'harness/worker.py'), module, '--pkg', pkg,
                   '--seed', str(self.seed if seed is None else seed), '--tier', self.tier,
                   '--shard', str(shard), '--nshards', str(nshards), '--out', out,
                   '--scale', str(scale)]
            if only:
                cmd += ['--only', only]
            if mpi:
                cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(mpi), *cmd, '--mpi']
                e.update(MPI_ENV)
            err = open(out + '.err', 'w')
            p = subprocess.Popen(cmd, env=e, cwd=tmp, stdout=err, stderr=err,
                                 start_new_session=True)
            procs.append((p, out, err))
        end = time.time() + timeout
        res = []
        for p, out, err in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                if mpi:
                    # let mpirun end its processes
                    p.terminate()
                    try:
                        p.wait(20)
                    except subprocess.TimeoutExpired:
                        pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                rc = 'timeout'
            err.close()
            text = open(out + '.err', errors='replace').read()
            progress = {}
            try:
                progress = json.load(open(out + '.progress'))
            except Exception:
                pass
            r = dict(rc=rc, out=out, stderr=text, progress=progress, result=None)
            if os.path.exists(out):
                r['result'] = json.load(open(out))
                self.results.append(r['result'])
            res.append(r)
        return res

    def mpi(self, module, pkg, only=None):
        """The groups of a check that run on several MPI processes."""
        meta = json.load(open(VERIF / 'checks' / 'meta.json'))[self.prop]
        sizes = meta.get('mpi', {}).get(self.tier, [])
        if only:
            m = re.match(r'mpi(\d+)/', only)
            sizes = [int(m.group(1))] if m else []
        for size in sizes:
            res = self.workers(module, pkg, nshards=1, only=only, mpi=size, tag=f'mpi{size}',
                               timeout=250 if self.tier == 'quick' else 1500)
            for r in res:
                if r['rc'] == 'timeout':
                    # one try more, on the only case that did not end
                    pr = r['progress']
                    case = f'{pr.get("group")}:{pr.get("index")}'
                    again = self.workers(module, pkg, nshards=1, only=case, mpi=size, tag='again', timeout=90)[0]
                    if again['rc'] == 'timeout':
                        self.violations.append(dict(
                            property=self.prop, key=f'hang:{pr.get("group")}', group=pr.get('group'),
                            index=pr.get('index'), seed=self.seed, desc=pr.get('desc'),
                            message=f'the {size} MPI processes never completed this case'))
                        r['result'] = again['result'] = dict(violations=[], errors=[])
            self.standard(res)

    def standard(self, res, crash_is_violation=True):
        """Default interpretation of worker endings."""
        for r in res:
            if r['result'] is not None:
                self.violations += r['result']['violations']
                self.errors += r['result']['errors']
                continue
            rc = r['rc']
            pr = r['progress']
            if rc == 'timeout':
                self.errors.append(f'worker timed out at {pr} (inconclusive)')
            elif isinstance(rc, int) and (rc in (-4, -6, -7, -8, -11) or 'Fortran runtime error' in r['stderr']) and crash_is_violation:
                self.violations.append(dict(
                    property=self.prop, key=f'crash:{pr.get("group")}', group=pr.get('group'),
                    index=pr.get('index'), seed=self.seed, desc=pr.get('desc'),
                    message=f'the process died (status {rc}) while running this case: '
                    + r['stderr'][-600:]))
            else:
                self.errors.append(f'worker ended with {rc} at {pr}: {r["stderr"][-1500:]}')

    def finish(self, rule, level='exploration', min_nontrivial=2, assumptions=(), extra=None):
        known = load_known()
        kn = {k['key']: k for k in known if k['property'] == self.prop}
        new, seen = [], {}
        for v in self.violations:
            if v['key'] in kn:
                seen.setdefault(v['key'], v)
            else:
                new.append(v)
        ev = sum(r['evaluations'] for r in self.results)
        sigs = set()
        by_key, by_group, ext = {}, {}, {}
        for r in self.results:
            sigs.update(r['signatures'])
            for k, v in r['by_key'].items():
                by_key[k] = by_key.get(k, 0) + v
            for k, v in r['by_group'].items():
                by_group[k] = by_group.get(k, 0) + v
            for k, v in r['extra'].items():
                if isinstance(v, (int, float)):
                    ext[k] = ext.get(k, 0) + v
                elif isinstance(v, list):
                    ext[k] = sorted(set(ext.get(k, [])) | set(map(str, v)))
                else:
                    ext[k] = v
        ext.update(extra or {})
        samples = []
        if self.results:
            samples = self.results[0]['samples'][:6]
        cov = dict(
            evaluations=ev, distinct_nontrivial=len(sigs), rule=rule, samples=samples,
            oracle_evaluations_by_monitor=by_key, cases_by_group=by_group,
        )
        cov.update(ext)
        evid = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                    coverage=cov, assumptions=list(assumptions),
                    wall_s=round(time.time() - self.t0, 2), violations=len(new))
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{self.prop}.json').write_text(json.dumps(evid, indent=1))
        for k, v in seen.items():
            print(f'KNOWN-FINDING: property={self.prop} {kn[k]["what"]}')
        status = 0
        if new:
            rdir = VERIF / 'evidence' / 'replay'
            rdir.mkdir(exist_ok=True)
            path = rdir / f'{self.prop}-seed{self.seed}-{self.tier}.json'
            path.write_text(json.dumps(new[:50], indent=1))
            byk = {}
            for v in new:
                byk.setdefault(v['key'], []).append(v)
            for k, vs in list(byk.items())[:12]:
                print(f'  {k}: {len(vs)} case(s), first {vs[0]["group"]}[{vs[0]["index"]}] '
                      f'{json.dumps(vs[0]["desc"])[:300]}: {vs[0]["message"][:600]}')
            print(f'VIOLATION property={self.prop} replay={path}')
            status = 1
        else:
            for k in kn:
                if k not in seen and not kn[k].get('probabilistic'):
                    print(f'note: listed finding {k} was not observed in this run')
            if self.errors:
                print(f'INCONCLUSIVE property={self.prop}: ' + '\n'.join(self.errors)[:4000])
                status = 2
            elif ev == 0 or len(sigs) < min_nontrivial:
                print(f'INCONCLUSIVE property={self.prop}: only {ev} oracle evaluations, '
                      f'{len(sigs)} distinct non-trivial cases')
                status = 2
            else:
                print(f'held property={self.prop} tier={self.tier} seed={self.seed}: {ev} oracle '
                      f'evaluations over {len(sigs)} distinct cases in {evid["wall_s"]} s')
        return status
