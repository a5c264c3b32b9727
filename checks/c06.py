"""C06: results do not depend on the number of threads, nor on how they interleave.

The extension runs on an OpenMP runtime of our own (native/gomp_shim.c) that
chooses the size of the teams, serialises or delays their members at random, and
is transparent to ThreadSanitizer.  Two monitors: the race detector (accesses not
ordered by the synchronisation of the code), and the comparison of what the same
call returns on one thread and on perturbed teams.
"""
import ctypes
import glob
import operator
import os
import re

import numpy as np

from . import gen_ops as go
from . import gen_sparse as g

PROPERTY = 'C06'
TEAMS = [2, 3, 3, 4, 5, 7, 8, 16]
FRAME = re.compile(r'#\d+ (\S+) (\S+)')


class Shim:
    def __init__(self, ctx):
        self.lib = ctypes.CDLL(None)
        self.log = os.environ.get('VP_SANLOG')
        self.size = 0
        self.traces = set()
        self.races = set()
        self.ctx = ctx
        ctx.extra['parallel_regions'] = 0

    def set(self, n, mode=0, delay=0, seed=1):
        self.lib.vp_omp_set(n, mode, delay, ctypes.c_uint64(seed))
        self.lib.vp_omp_reset_trace()

    def stats(self):
        out = (ctypes.c_int64 * 5)()
        self.lib.vp_omp_stats(out)
        return list(out)

    def new_races(self):
        """The races that were reported since the last call."""
        text = ''
        for f in glob.glob(f'{self.log}.{os.getpid()}'):
            with open(f, errors='replace') as h:
                h.seek(self.size)
                text += h.read()
                self.size = h.tell()
        out = []
        for rep in re.findall(r'WARNING: ThreadSanitizer:.*?={18}', text, re.S):
            names = [re.sub(r'\._omp_fn\.\d+|\.(part|constprop|isra)\.\d+', '', n) for n, w in FRAME.findall(rep)
                     if '_MOD_' in n or 'flib' in w]
            kind = re.search(r'ThreadSanitizer: ([\w ]+)', rep).group(1).strip()
            if names:
                out.append((kind, names[0], rep))
        return out


SHIM = None


def same(c, func, key, exact=False, scale=1.0, runs=None, dtype=float):
    """Call func on one thread, then on perturbed teams."""
    s = SHIM
    s.set(1)
    before = s.stats()[0]
    ref = [np.array(_, copy=True) for _ in func()]
    if s.stats()[0] == before:
        c.trivial = True
    for _ in range(runs or c.int(2, 3)):
        n, mode, delay, seed = c.choice(TEAMS), c.choice([0, 0, 0, 1]), c.choice([0, 0, 30, 200]), c.int(1, 2**40)
        s.set(n, mode, delay, seed)
        got = func()
        c.ctx.extra['parallel_regions'] = s.stats()[0]
        s.traces.add(s.stats()[4])
        what = f'{n} threads, mode {mode}, delay {delay}:'
        for r, x in zip(ref, got, strict=True):
            x = np.asarray(x)
            if exact or r.dtype.kind not in 'fc':
                c.equal(x, r, f'same:{key}', what)
            else:
                e = max(float(np.finfo(r.dtype).eps), float(np.finfo(dtype).eps)) * 300
                with np.errstate(all='ignore'):
                    m = np.nanmax(np.abs(r[np.isfinite(r)])) if np.isfinite(r).any() else 0
                c.close(x, r, f'same:{key}', rtol=e, atol=e * max(float(m), scale), message=what)
    s.set(1)
    races = s.new_races()
    c.check(not races, f'race:{races[0][1]}' if races else 'race',
            lambda: f'{races[0][0]}:\n{races[0][2][:1300]}')
    for kind, name, rep in races[1:]:
        c.check(False, f'race:{name}', f'{kind}:\n{rep[:1300]}')


def big(c):
    return c.choice([(c.int(1, 40), c.int(1, 6)), (c.int(50, 300), c.int(1, 4)), (c.int(50, 300), c.int(20, 90))])


def matrix(c, fmt=None, multidim=True):
    return g.draw(c, fmt=fmt, native=True, size=big(c), nmaxes=(1, 2, 3), multidim=multidim)


def products(c):
    s = matrix(c)
    m = s.matrix
    dt = c.choice([np.float64, np.float64, np.float32]) if s.vtype == np.float32 else np.float64
    what = c.choice(['mv', 'vm', 'out', 'extra'])
    x = g.vector(c, s.shape[1], dt)
    y = g.vector(c, s.shape[0], dt)
    c.note(what=what, x=str(x.dtype))
    scale = 100.0
    if what == 'mv':
        return same(c, lambda: [m * x], f'matvec:{s.fmt}', scale=scale, dtype=s.vtype)
    if what == 'vm':
        return same(c, lambda: [y * m], f'vecmat:{s.fmt}', scale=scale, dtype=s.vtype)
    from pysimulators.sparse import SparseOperator

    kw = {}
    extra = ()
    if s.fmt in ('fsr', 'fsc'):
        extra = (c.int(2, 5),) if what == 'extra' else ()
        kw = dict(shapein=(s.shape[1],) + extra, shapeout=(s.shape[0],) + extra)
    op = SparseOperator(m, **kw)
    xx = g.vector(c, int(np.prod(op.shapein or s.shape[1])), dt).reshape(op.shapein or (s.shape[1],))
    base = g.vector(c, int(np.prod(op.shapeout or s.shape[0])), np.result_type(dt, s.vtype)).reshape(
        op.shapeout or (s.shape[0],))

    def func():
        out = base.copy()
        if op.flags.update_output:
            op(xx, out, operation=operator.iadd)
        else:
            op(xx, out)
        return [out, op(xx), op.T(base)]

    same(c, func, f'operator:{s.fmt}', scale=scale, dtype=s.vtype)


def projections(c):
    from pysimulators import ProjectionOperator

    s = matrix(c, fmt=c.choice(['fsr', 'fsr', 'fsr_block', 'fsr_rot2d', 'fsr_rot3d']), multidim=c.coin(.3))
    kw = dict(shapein=(s.shape[1],), shapeout=(s.shape[0],)) if s.fmt == 'fsr' else {}
    if s.fmt != 'fsr':
        b = s.block
        kw = dict(shapein=(s.nother, b[1]) if b[1] > 1 else (s.nother,), shapeout=(s.nkept, b[0]) if b[0] > 1 else (s.nkept,))
    op = ProjectionOperator(s.matrix, **kw)
    what = c.choice(['kernel', 'pT1', 'pTxpT1', 'pTp', 'restrict'] + ['corestrict'] * (s.fmt == 'fsr' and s.matrix.data.ndim == 2))
    c.note(what=what)
    if what == 'kernel':
        return same(c, lambda: [op.canonical_basis_in_kernel()], f'kernel:{s.fmt}', exact=True)
    if what == 'pT1':
        return same(c, lambda: [op.pT1()], f'pT1:{s.fmt}', scale=100, dtype=s.vtype)
    if what == 'pTxpT1':
        if s.fmt == 'fsr_rot2d':
            what = 'pT1'
            return same(c, lambda: [op.pT1()], f'pT1:{s.fmt}', scale=100, dtype=s.vtype)
        x = g.vector(c, int(np.prod(op.shapeout)), np.float64).reshape(op.shapeout)
        return same(c, lambda: list(op.pTx_pT1(x)), f'pTxpT1:{s.fmt}', scale=400, dtype=s.vtype)
    if what == 'pTp':
        x = g.vector(c, int(np.prod(op.shapein)), np.float64).reshape(op.shapein)
        return same(c, lambda: [(op.T * op)(x)], f'pTp:{s.fmt}', scale=1000, dtype=s.vtype)
    mask = c.rng.random(s.nother if what == 'restrict' else s.nkept) < 0.6
    if not mask.any():
        mask[0] = True

    def func():
        r = op.restrict(mask) if what == 'restrict' else op.corestrict(mask)
        d = r.matrix.data
        return [np.where(d.index >= 0, d.index, -1)] + [
            np.where((d.index >= 0).reshape(d.shape + (1,) * (d[n].ndim - d.ndim)), d[n], 0) for n in d.dtype.names[1:]]

    same(c, func, f'{what}:{s.fmt}', exact=True)


def pointings(c):
    from pysimulators import PointingMatrix, ProjectionInMemoryOperator

    nd, ns, npps = c.int(1, 5), c.choice([c.int(1, 20), c.int(50, 200)]), c.choice([1, 1, 2, 3])
    shin = c.choice([(c.int(1, 9),), (c.int(2, 12), c.int(2, 12))])
    npix = int(np.prod(shin))
    pm = PointingMatrix.zeros((nd, ns, npps), shin, verbose=False)
    idx = c.rng.integers(0, npix, pm.shape)
    idx[np.arange(npps) >= c.rng.integers(0, npps + 1, (nd, ns, 1))] = -1
    pm.index[...] = idx
    pm.value[...] = np.where(idx < 0, 0, c.rng.uniform(-2, 2, pm.shape))
    op = ProjectionInMemoryOperator(pm)
    what = c.choice(['direct', 'transpose', 'ptp', 'ptpone', 'bpw', 'bpwm', 'mask', 'pack', 'isvalid', 'intersects'])
    c.note(what=what, shape=pm.shape, shin=shin)
    x, y = c.rng.uniform(-4, 4, shin), c.rng.uniform(-4, 4, (nd, ns))
    if what == 'direct':
        return same(c, lambda: [op(x)], 'pmatrix:direct', scale=50)
    if what == 'transpose':
        return same(c, lambda: [op.T(y)], 'pmatrix:transpose', scale=500)
    if what == 'ptp':
        return same(c, lambda: [op.get_pTp()], 'pmatrix:ptp', scale=500)
    if what == 'ptpone':
        return same(c, lambda: [(op.T * op)(x)], 'pmatrix:ptpone', scale=500)
    if what in ('bpw', 'bpwm'):
        mask = c.rng.random((nd, ns)) < 0.3 if what == 'bpwm' else None
        return same(c, lambda: list(op.get_pTx_pT1(y, mask=mask)), f'pmatrix:{what}', scale=1000)
    if what == 'mask':
        return same(c, lambda: [pm.get_mask()], 'pmatrix:mask', exact=True)
    if what == 'isvalid':
        if c.coin():
            pm.index.ravel()[c.int(0, pm.size - 1)] = npix + c.int(0, 3)
        return same(c, lambda: [pm.isvalid()], 'pmatrix:isvalid', exact=True)
    if what == 'pack':
        mask = pm.get_mask()

        def func():
            p = pm.copy()
            p.pack(mask)
            return [p.index, p.value]
        return same(c, func, 'pmatrix:pack', exact=True)
    fc = [c.int(1, n) for n in shin[::-1]]
    axis = c.choice([None, 0, 1])
    same(c, lambda: [op.intersects(fc, axis=axis)], 'pmatrix:intersects', exact=True)


def geometry(c):
    from pysimulators import geometry as ge

    what = c.choice(['grid', 'squares', 'rotate', 'inplace', 'surface'])
    sh = (c.int(1, 40), c.int(1, 20))
    c.note(what=what, sh=sh)
    ang, ctr, sp = c.rng.uniform(-360, 360), tuple(c.rng.uniform(-3, 3, 2)), c.rng.uniform(0.1, 3)
    refl = dict(xreflection=c.coin(), yreflection=c.coin())
    if what == 'grid':
        return same(c, lambda: [ge.create_grid(sh, sp, angle=ang, center=ctr, **refl)], 'grid', exact=True)
    if what == 'squares':
        return same(c, lambda: [ge.create_grid_squares(sh, sp, angle=ang, center=ctr, filling_factor=.7, **refl)], 'squares', exact=True)
    a = c.rng.uniform(-4, 4, sh + (2,))
    if what == 'rotate':
        return same(c, lambda: [ge.rotate(a, ang)], 'rotate', exact=True)
    if what == 'inplace':
        def func():
            b = a.copy()
            return [ge.rotate(b, ang, out=b)]
        return same(c, func, 'rotate-inplace', exact=True)
    p = c.rng.uniform(-4, 4, sh[:1] + (c.int(3, 7), 2))
    same(c, lambda: [ge.surface_simple_polygon(p)], 'surface', exact=True)


def images(c):
    from pysimulators import datautils as du

    what = c.choice(['distance', 'distance2', 'gaussian', 'profile', 'iprofile', 'airy', 'aperture'])
    sh = (c.int(1, 40), c.int(1, 40)) if what not in ('distance', 'distance2') or c.coin(.7) else (c.int(1, 300),)
    dt = c.choice([np.float32, np.float64])
    ctr = None if c.coin() else list(c.rng.uniform(-3, 40, len(sh)))
    c.note(what=what, sh=sh, dt=str(dt))
    if what in ('distance', 'distance2'):
        sc = c.rng.uniform(0.1, 3)
        return same(c, lambda: [getattr(du, what)(sh, center=ctr, scale=sc, dtype=dt)], what, exact=True)
    if what == 'gaussian':
        return same(c, lambda: [du.gaussian(sh, sigma=3., center=ctr, dtype=dt)], what, exact=False)
    if what == 'airy':
        return same(c, lambda: [du.airy_disk(sh, fwhm=4., center=ctr, dtype=dt)], what)
    if what == 'aperture':
        return same(c, lambda: [du.aperture_circular(sh, 7., center=ctr, dtype=dt)], what, exact=True)
    a = c.rng.uniform(-4, 4, sh).astype(dt)
    if c.coin(.3):
        a[c.rng.random(sh) < .1] = np.nan
    b = c.choice([1, 2, 0.7])
    f = du.profile if what == 'profile' else du.integrated_profile
    kw = dict(histogram=True) if what == 'profile' else {}
    same(c, lambda: list(f(a, bin=b, center=ctr, **kw)), what, scale=1e3)


def scenes(c):
    from pysimulators import SceneGrid

    ny, nx = c.int(2, 20), c.int(2, 20)
    n = c.int(1, 40)
    dt = c.choice([np.float64, np.float32])
    center = c.rng.uniform(-1, max(nx, ny) + 1, (n, 1, 2))
    ang = np.sort(c.rng.uniform(0, 2 * np.pi, (n, c.int(3, 6))), axis=-1)[..., None]
    poly = center + c.rng.uniform(0.2, 3) * np.concatenate([np.cos(ang), np.sin(ang)], -1)
    nc = c.choice([0, 1, 4, 60])
    it = c.choice([np.int32, np.int64])
    c.note(n=n, nx=nx, ny=ny, dt=str(dt), ncolmax=nc)

    def func():
        op = SceneGrid((ny, nx)).get_integration_operator(poly, ncolmax=nc, dtype=dt, dtype_index=it)
        d = op.matrix.data
        return [np.where(d.index >= 0, d.index, -1), np.where(d.index >= 0, d.value, 0), np.array(op.outside),
                np.array(op.min_ncolmax)]

    same(c, func, 'integration', exact=True)


def angles(c):
    from pysimulators import wcsutils as w

    n = c.int(1, 200)
    lon, lat = c.rng.uniform(0, 360, n), c.rng.uniform(-90, 90, n)
    what = c.choice(['angle', 'bary', 'mean', 'minmax', 'minmaxwide'])
    c.note(what=what, n=n)
    if what == 'angle':
        l2, b2 = c.rng.uniform(0, 360, n), c.rng.uniform(-90, 90, n)
        if c.coin(.3):
            l2, b2 = l2[:1], b2[:1]
        elif c.coin(.3):
            lon, lat = lon[:1], lat[:1]
        return same(c, lambda: [w.angle_lonlat(lon, lat, l2, b2)], 'angle', exact=True)
    if what == 'bary':
        lon, lat = 50 + lon / 4, lat / 3
        return same(c, lambda: list(w.barycenter_lonlat(lon, lat)), 'barycenter', scale=1e3)
    lon = (c.rng.uniform(0, 360) + c.rng.uniform(-60, 60, n)) % 360 if what != 'minmaxwide' else lon
    if c.coin(.3):
        lon[c.rng.random(n) < .1] = np.nan
    if what == 'mean':
        return same(c, lambda: [w.mean_degrees(lon)], 'mean', scale=1e3)
    same(c, lambda: list(w.minmax_degrees(lon)), 'minmax', scale=1e3)


def filters(c):
    op, shin, shout, dt = go.cases()['trexp'](c)
    x = c.rng.uniform(-4, 4, shin).astype(dt)
    same(c, lambda: [op(x), op.T(x)], 'trexp', exact=True)


def areas(c):
    import pysimulators as ps

    h = ps.create_fitsheader((c.int(1, 30), c.int(1, 30)), cdelt=c.rng.uniform(.01, 1), crval=tuple(c.rng.uniform(0, 80, 2)),
                             crpix=(3, 4), pa=c.rng.uniform(0, 90))
    m = ps.Map.ones((h['NAXIS2'], h['NAXIS1']))
    m.header = h
    c.note(shape=m.shape)
    same(c, lambda: [ps.quantities.pixel_to_pixel_reference(m)], 'areas')


def cores(c):
    """What is computed by FFTs does not depend on the number of cores of the machine."""
    import multiprocessing
    from unittest import mock

    from pysimulators import Instrument, PackedTable, Sampling, noises

    nd, ns = c.int(1, 4), c.choice([c.int(4, 60), 128, 1000])
    smp = Sampling(ns, period=c.choice([1, 0.1, 2.5]))
    ins = Instrument(PackedTable((nd,)))
    kw = dict(sigma=c.rng.uniform(.5, 2), fknee=c.choice([0.1, 1.0]), fslope=c.choice([1, 2]))
    what = c.choice(['noise', 'invntt', 'invntt-threads'])
    seed = c.int(0, 2**31)
    x = c.rng.uniform(-4, 4, (nd, ns))
    c.note(what=what, nd=nd, ns=ns, **kw)

    def func(n):
        with mock.patch.object(multiprocessing, 'cpu_count', lambda: n):
            if what == 'noise':
                np.random.seed(seed)
                return [ins.get_noise(smp, **kw)]
            if what == 'invntt':
                return [ins.get_invntt_operator(smp, fftw_flag='FFTW_ESTIMATE', **kw)(x)]
        return [ins.get_invntt_operator(smp, fftw_flag='FFTW_ESTIMATE', nthreads=n, **kw)(x)]

    ref = func(1)
    m = max(1e-3, np.abs(ref[0]).max())
    for n in c.rng.permutation([2, 3, 4, 8])[:2]:
        c.close(func(int(n))[0], ref[0], f'same:{what}', rtol=1e-9, atol=1e-10 * m, message=f'{n} cores')


def run(ctx):
    global SHIM
    SHIM = Shim(ctx)
    ctx.each('products', 1500, 6000, products)
    ctx.each('projections', 1200, 4000, projections)
    ctx.each('pointings', 1200, 5000, pointings)
    ctx.each('geometry', 300, 1200, geometry)
    ctx.each('images', 400, 1500, images)
    ctx.each('scenes', 300, 1000, scenes)
    ctx.each('angles', 400, 1500, angles)
    ctx.each('filters', 150, 500, filters)
    ctx.each('cores', 60, 500, cores)
    ctx.each('areas', 100, 300, areas)
    ctx.extra['interleavings'] = [f'{_ & (2**64 - 1):016x}' for _ in SHIM.traces]
