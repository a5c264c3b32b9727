"""Case runner shared by every check.

A check module defines PROPERTY, RULE, and run(ctx).  run() drives groups of
generated cases through ctx.each(); every case observes the real code and hands
what it saw to an oracle through c.check / c.close / ...  The verdict is made
from what was observed: `violations` (with the seed that replays them), the
number of oracle evaluations, and the number of distinct non-trivial cases.
"""
import hashlib
import json
import os
import sys
import traceback
import zlib

import numpy as np


class Skip(Exception):
    """The generated case is not a valid one; nothing was observed."""


class Failed(Exception):
    """A violation was recorded, the case cannot go on."""


class HarnessError(Exception):
    pass


class Violation(Exception):
    pass


def describe(x, n=6):
    if isinstance(x, np.ndarray):
        flat = np.asarray(x).ravel()
        return f'{type(x).__name__}{x.shape}{x.dtype}:{np.array2string(flat[:n], threshold=n)}'
    return repr(x)[:300]


class Case:
    def __init__(self, ctx, group, index):
        self.ctx = ctx
        self.group = group
        self.index = index
        self.rng = np.random.default_rng(
            [ctx.seed, zlib.crc32(group.encode()), index]
        )
        self.desc = {}
        self.nobs = 0
        self.trivial = False

    # ---- generation helpers
    def choice(self, seq, p=None):
        seq = list(seq)
        return seq[int(self.rng.choice(len(seq), p=p))]

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def int(self, lo, hi):
        """Uniform integer in [lo, hi]."""
        return int(self.rng.integers(lo, hi + 1))

    def collect(self, func, what=None):
        """
        Call func on every MPI process and gather what was observed on all of them. Every
        process then evaluates the same oracles; those of the first one are recorded.
        """
        try:
            obs = True, func()
        except Exception as e:
            obs = False, f'{type(e).__name__}: {e}'
        obs = self.ctx.comm.allgather(obs)
        bad = [(i, _[1]) for i, _ in enumerate(obs) if not _[0]]
        if not self.check(not bad, f'raises:{what or self.group.split("/")[-1]}',
                          lambda: f'on rank {bad[0][0]} of {len(obs)}: {bad[0][1]}'):
            raise Failed
        return [_[1] for _ in obs]

    def note(self, **kw):
        self.desc.update(kw)
        self.ctx.progress(self)

    # ---- oracles
    def check(self, ok, key, message=''):
        self.nobs += 1
        self.ctx.evaluations += 1
        self.ctx.by_key[key] = self.ctx.by_key.get(key, 0) + 1
        if not ok:
            self.ctx.violation(self, key, message() if callable(message) else message)
        return bool(ok)

    def close(self, got, want, key, rtol=1e-9, atol=0.0, scale=None, message=''):
        """Elementwise |got-want| <= atol + rtol * max(|want|, scale); nan == nan."""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            return self.check(
                False, key, f'{message} shape {got.shape} instead of {want.shape}'
            )
        if got.size == 0:
            return self.check(True, key)
        with np.errstate(all='ignore'):
            g = got.astype(complex if (got.dtype.kind == 'c' or want.dtype.kind == 'c') else float)
            w = want.astype(g.dtype)
            ref = np.abs(w)
            if scale is not None:
                ref = np.maximum(ref, scale)
            bad = ~(np.abs(g - w) <= atol + rtol * ref)
            bad &= ~((g == w) | (np.isnan(g) & np.isnan(w)))
        if not bad.any():
            return self.check(True, key)
        i = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
        return self.check(
            False,
            key,
            f'{message} {int(bad.sum())}/{bad.size} elements differ; at {tuple(int(_) for _ in i)}: '
            f'got {got[i]!r}, expected {want[i]!r}',
        )

    def equal(self, got, want, key, message=''):
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            return self.check(
                False, key, f'{message} shape {got.shape} instead of {want.shape}'
            )
        try:
            same = bool(np.array_equal(got, want, equal_nan=True))
        except TypeError:
            same = bool(np.array_equal(got, want))
        return self.check(
            same, key,
            lambda: f'{message} got {describe(got, 20)}, expected {describe(want, 20)}',
        )

    def raises(self, exc, func, key, message=''):
        try:
            r = func()
        except exc:
            return self.check(True, key)
        except Exception as e:
            return self.check(
                False, key,
                f'{message}: {type(e).__name__}: {e} instead of {exc}')
        return self.check(False, key, f'{message}: no exception; returned {describe(r)}')


def from_package(tb):
    """True if the exception went through the package under test."""
    for frame, _ in traceback.walk_tb(tb):
        fn = frame.f_code.co_filename
        if '/pysimulators/' in fn and '/checks/' not in fn and '/harness/' not in fn:
            return True
    return False


class Context:
    def __init__(self, prop, seed, tier, shard=0, nshards=1, out=None, scale=1.0,
                 only=None, known=()):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.shard = shard
        self.nshards = nshards
        self.out = out
        self.scale = scale
        self.only = only  # (group, index) replay
        self.evaluations = 0
        self.ncases = 0
        self.nskipped = 0
        self.signatures = set()
        self.by_key = {}
        self.by_group = {}
        self.samples = []
        self.violations = []
        self.errors = []
        self.known = set(known)
        self.extra = {}
        self.comm = None
        self.resume = None
        if only is None and os.environ.get('VP_RESUME'):
            g, i = os.environ['VP_RESUME'].rsplit(':', 1)
            self.resume = g, int(i)
        self._progress = None
        if out:
            self._progress = out + '.progress'

    def n(self, quick, thorough):
        return max(1, int((thorough if self.tier == 'thorough' else quick) * self.scale))

    def progress(self, case):
        if self._progress:
            with open(self._progress, 'w') as f:
                json.dump(
                    dict(group=case.group, index=case.index, desc=_js(case.desc)), f
                )

    def violation(self, case, key, message):
        self.violations.append(
            dict(
                property=self.prop,
                key=key,
                group=case.group,
                index=case.index,
                seed=self.seed,
                desc=_js(case.desc),
                message=str(message)[:1500],
            )
        )

    def each(self, group, quick, thorough, fn, every_shard=False):
        n = self.n(quick, thorough)
        for i in range(n):
            if self.only is not None:
                if self.only != (group, i):
                    continue
            elif i % self.nshards != self.shard:
                continue
            if self.resume is not None:
                # this worker replaces one that died: go on after the case that killed it
                if self.resume == (group, i):
                    self.resume = None
                continue
            self.one(group, i, fn)
        # a replay may name a case beyond this tier's count
        if self.only is not None and self.only[0] == group and self.only[1] >= n:
            self.one(group, self.only[1], fn)

    def one(self, group, i, fn):
        c = Case(self, group, i)
        self.progress(c)
        nviol = len(self.violations)
        try:
            with np.errstate(all='ignore'):
                fn(c)
        except Skip:
            self.nskipped += 1
            return
        except Failed:
            return
        except Exception as e:
            tb = sys.exc_info()[2]
            text = ''.join(traceback.format_exception(e))[-3000:]
            if isinstance(e, (ImportError, MemoryError, HarnessError, KeyboardInterrupt)):
                self.errors.append(f'{group}[{i}] {_js(c.desc)}: {text}')
            elif len(self.violations) == nviol:
                # either the code under test raised on a valid input, or what it
                # returned could not even be compared with the expected value
                kind = 'exception' if from_package(tb) else 'incomparable'
                c.check(False, f'{kind}:{group}', f'unexpected {type(e).__name__}: {e}\n{text[-1200:]}')
            return
        finally:
            self.ncases += 1
        self.by_group[group] = self.by_group.get(group, 0) + 1
        if c.nobs and not c.trivial:
            self.signatures.add(
                hashlib.md5(
                    (group + json.dumps(_js(c.desc), sort_keys=True)).encode()
                ).hexdigest()[:12]
            )
        if len(self.samples) < 40 and c.nobs and self.by_group[group] <= 2:
            self.samples.append(dict(group=group, index=i, case=_js(c.desc), oracle_evaluations=c.nobs))

    def result(self):
        return dict(
            property=self.prop,
            evaluations=self.evaluations,
            cases=self.ncases,
            skipped=self.nskipped,
            signatures=sorted(self.signatures),
            by_key=self.by_key,
            by_group=self.by_group,
            samples=self.samples,
            violations=self.violations[:200],
            nviolations=len(self.violations),
            errors=self.errors[:10],
            extra=self.extra,
        )


def _js(x):
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_js(v) for v in x]
    if isinstance(x, np.ndarray):
        return describe(x)
    if isinstance(x, np.generic):
        return _js(x.item())
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    return str(x)


def load_package(path):
    """Import pysimulators from `path` (never through the editable loader)."""
    sys.meta_path[:] = [
        f for f in sys.meta_path if 'esonpy' not in type(f).__name__
        and 'esonpy' not in getattr(type(f), '__module__', '')
        and 'editable' not in getattr(type(f), '__module__', '')
    ]
    sys.path.insert(0, path)
    import warnings

    warnings.simplefilter('ignore')
    import pysimulators
    import pysimulators._flib as flib

    assert pysimulators.__file__.startswith(path), pysimulators.__file__
    assert flib.__file__.startswith(path), flib.__file__
    return pysimulators


def worker_main(argv):
    import argparse
    import importlib

    p = argparse.ArgumentParser()
    p.add_argument('module')
    p.add_argument('--pkg', required=True)
    p.add_argument('--seed', type=int, required=True)
    p.add_argument('--tier', required=True)
    p.add_argument('--shard', type=int, default=0)
    p.add_argument('--nshards', type=int, default=1)
    p.add_argument('--out', required=True)
    p.add_argument('--scale', type=float, default=1.0)
    p.add_argument('--only', default=None)
    p.add_argument('--mpi', action='store_true')
    a = p.parse_args(argv)
    comm = None
    if a.mpi:
        from mpi4py import MPI

        comm = MPI.COMM_WORLD
        if comm.rank > 0:
            a.out += f'.rank{comm.rank}'
    load_package(a.pkg)
    mod = importlib.import_module(f'checks.{a.module}')
    native = None
    if os.environ.get('VP_NATIVE'):
        from . import native
        native.install()
    only = None
    if a.only:
        g, i = a.only.rsplit(':', 1)
        only = (g, int(i))
    ctx = Context(mod.PROPERTY, a.seed, a.tier, a.shard, a.nshards, a.out, a.scale, only)
    ctx.comm = comm
    try:
        mod.run(ctx)
    except Exception as e:
        ctx.errors.append('run(): ' + ''.join(traceback.format_exception(e))[-3000:])
    res = ctx.result()
    if native is not None:
        res['native'] = dict(
            calls=native.calls, bytes=native.nbytes,
            signatures=[hashlib.md5(_.encode()).hexdigest()[:12] for _ in native.signatures])
    tmp = a.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    if comm is not None:
        comm.Barrier()
    os.rename(tmp, a.out)
    if comm is not None:
        MPI.Finalize()
    sys.stdout.flush()
    # skip interpreter teardown: nothing of the verdict is decided there
    os._exit(0)
