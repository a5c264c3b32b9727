"""C07: hostile calls into the compiled code, run under the sanitizers.

The values returned are not judged here (the other checks do): a call may return
or raise; what is observed is that the process neither dies nor touches memory
that is not its own.
"""
import numpy as np

from . import gen_ops as go
from . import gen_sparse as g

PROPERTY = 'C07'

ODD = [0.0, -0.0, 1e-300, -1e300, 1e300, np.nan, np.inf, -np.inf, 0.5, -0.5, 2**31 + 0.5, -2.0**40]
ACCEPTED = (ValueError, TypeError, IndexError, NotImplementedError, AttributeError, RuntimeError,
            ZeroDivisionError, OverflowError, KeyError, np.exceptions.AxisError, AssertionError)


def attempt(c, func, what):
    """Any ordinary exception is an acceptable answer to a hostile call."""
    try:
        func()
    except ACCEPTED as e:
        # f2py reports the mismatches it detects with its own exception type
        c.check(True, f'refused:{what}')
    except Exception as e:
        c.check(type(e).__name__ == 'error' or isinstance(e, Exception), f'refused:{what}')
    else:
        c.check(True, f'done:{what}')
    fences(c, what)


def fences(c, what):
    """Nothing is written around the arrays that are handed, or in those that are read only."""
    for view, big, before, lay in getattr(c, 'fenced', ()):
        if lay == 4:
            c.check(view.tobytes() == before, 'read-only', f'{what}: a read-only array {view.shape} {view.dtype} is modified')
            continue
        after = big.copy()
        where = np.zeros(big.shape, bool)
        where[_inside(view, lay)] = True
        same = (after.view(np.uint8).reshape(*big.shape, -1) == before.view(np.uint8).reshape(*big.shape, -1)).all(-1)
        c.check(bool(np.all(same | where)), 'surroundings', lambda: f'{what}: elements {np.argwhere(~same & ~where)[:4].tolist()} '
                f'of the {big.shape} array are modified around its part given')


def _inside(view, lay):
    if lay == 2:
        return (slice(1, 1 + view.shape[0]),) + (Ellipsis,) * (view.ndim > 1) + (slice(2, 2 + view.shape[-1]),) * (view.ndim > 1)
    return (Ellipsis, slice(0, 2 * view.shape[-1], 2))


def near(c, shape):
    """A shape that may or may not be the right one."""
    shape = tuple(shape)
    k = c.int(0, 7)
    if k < 3 or not shape:
        return shape
    i = c.int(0, len(shape) - 1)
    s = list(shape)
    if k == 3:
        s[i] = 0
    elif k == 4:
        s[i] += c.int(1, 3)
    elif k == 5:
        s[i] = max(s[i] - c.int(1, 2), 0)
    elif k == 6:
        s = [int(np.prod(s))]
    else:
        s = s[:-1] if c.coin() else s + [c.int(1, 2)]
    return tuple(s)


def array(c, shape, kinds='ffffdddib?c'):
    k = c.choice(list(kinds))
    dt = {'f': np.float32, 'd': np.float64, 'i': np.int64, 'b': np.int8, '?': np.bool_, 'c': np.complex128}[k]
    a = c.rng.uniform(-3, 3, shape)
    if c.coin(0.3) and a.size:
        m = c.rng.random(a.shape) < 0.3
        a = np.where(m, np.array(ODD)[c.rng.integers(0, len(ODD), a.shape)], a)
    a = a.astype(dt)
    lay = c.int(0, 6)
    if lay == 1 and a.ndim:
        a = np.asfortranarray(a)
    elif lay in (2, 6) and a.ndim:
        # a part of a larger array, whose other elements should not change
        if lay == 2:
            shape = (a.shape[0] + 2, *a.shape[1:-1], *(a.shape[-1:] if a.ndim > 1 else ()))
            if a.ndim > 1:
                shape = shape[:-1] + (shape[-1] + 5,)
        else:
            shape = (*a.shape[:-1], a.shape[-1] * 2 + 1)
        big = (c.rng.integers(0, 2, shape) if dt is np.bool_ else c.rng.integers(1, 100, shape)).astype(dt)
        big[_inside(a, lay)] = a
        a = big[_inside(a, lay)]
        c.fenced = getattr(c, 'fenced', ()) + ((a, big, big.copy(), lay),)
    elif lay == 3 and a.ndim:
        a = a[::-1]
    elif lay == 4:
        a.setflags(write=False)
        c.fenced = getattr(c, 'fenced', ()) + ((a, None, a.tobytes(), lay),)
    elif lay == 5 and a.ndim > 1 and a.shape[0] > 0:
        a = np.broadcast_to(a[0], a.shape)
    c.note(arrays=c.desc.get('arrays', ()) + ((a.shape, a.dtype.str, lay),))
    return a


def sparse(c):
    s = g.draw(c, nmaxes=(0, 1, 2, 3))
    m = s.matrix
    extra = c.choice([(), (), (2,), (3,), (5,)])
    oextra = extra if c.coin() else c.choice([(), (2,), (3,), (5,), (7,)])
    out = array(c, near(c, (s.shape[0],) + oextra))
    x = array(c, near(c, (s.shape[1],) + extra))
    what = c.choice(['mv', 'vm', 'out', 'op', 'opT', 'opout', 'pTp', 'pT1', 'pTxpT1', 'kernel', 'restrict', 'corestrict', 'toarray'])
    c.note(what=what)

    def act():
        from pysimulators import ProjectionOperator
        from pysimulators.sparse import SparseOperator

        if what == 'mv':
            return m * x
        if what == 'vm':
            return x * m
        if what == 'out':
            return m._matvec(x, out)
        if what == 'toarray':
            return m.toarray()
        plain = s.fmt in ('fsr', 'fsc')
        kw = {}
        if plain:
            kw = dict(shapein=(s.shape[1],), shapeout=(s.shape[0],))
        if s.fmt[:3] == 'fsr' and what not in ('op', 'opT', 'opout'):
            op = ProjectionOperator(m, **kw)
        else:
            op = SparseOperator(m, **kw)
        if what == 'op':
            return op(x)
        if what == 'opT':
            return op.T(out)
        if what == 'opout':
            return op(x, out)
        if what == 'pTp':
            return op.T(op)
        sin = op.shapein or (s.shape[1],)
        sin = sin[:-1] if op.matrix.block_shape[1] > 1 else sin
        o = array(c, near(c, sin), '?fd')
        if what == 'pT1':
            return op.pT1(out=o if c.coin() else None)
        if what == 'pTxpT1':
            y = array(c, near(c, op.shapeout or (s.shape[0],)), 'fd')
            o2 = array(c, near(c, sin), 'fd')
            return op.pTx_pT1(y, out=(o, o2) if c.coin() else None)
        if what == 'kernel':
            return op.canonical_basis_in_kernel(out=o if c.coin() else None)
        mask = array(c, near(c, sin if what == 'restrict' else (op.shapeout or (s.shape[0],))[:1]), '???d')
        return op.restrict(mask, inplace=c.coin()) if what == 'restrict' else op.corestrict(mask, inplace=c.coin())

    attempt(c, act, what)


def pmatrix(c):
    from pysimulators import ProjectionInMemoryOperator

    pm, idx, val, npix = go.pointing_matrix(c, npps=c.choice([0, 1, 2, 3]))
    k = c.int(0, 7)
    if k == 0:
        pm = pm[:, ::2]
    elif k == 1:
        pm = pm[0]
    elif k == 2:
        pm = pm[1:]
    elif k == 3:
        pm = pm[0, 0]
    elif k == 4:
        pm = pm[None]
    shin, shout = pm.shape_input, pm.shape[:-1]
    what = c.choice(['direct', 'transpose', 'pack', 'mask', 'isvalid', 'ptp', 'ptxpt1', 'intersects', 'ptpone'])
    c.note(what=what, shin=shin, shape=pm.shape)

    def act():
        if what == 'isvalid':
            return pm.isvalid()
        if what == 'pack':
            mask = array(c, near(c, shin), '???b')
            return pm.pack(mask)
        if what == 'mask':
            out = array(c, near(c, shin), '???b') if c.coin() else None
            return pm.get_mask(out=out)
        op = ProjectionInMemoryOperator(pm)
        if what == 'direct':
            x = array(c, near(c, shin))
            return op(x, array(c, near(c, shout))) if c.coin() else op(x)
        if what == 'transpose':
            x = array(c, near(c, shout))
            return op.T(x, array(c, near(c, shin))) if c.coin() else op.T(x)
        if what == 'ptp':
            n = int(np.prod(shin))
            return op.get_pTp(out=array(c, near(c, (n, n)), 'ddd?') if c.coin() else None)
        if what == 'ptpone':
            return op.T(op)
        if what == 'ptxpt1':
            x = array(c, near(c, shout), 'dddf')
            out = (array(c, near(c, shin), 'dddf'), array(c, near(c, shin), 'dddf')) if c.coin() else None
            mask = array(c, near(c, shout), '??d') if c.coin() else None
            return op.get_pTx_pT1(x, out=out, mask=mask)
        k = len(shin)
        fc = [c.int(-1, n + 1) for n in shin[::-1]] if c.coin(0.9) else [1]
        return op.intersects(fc, axis=c.choice([None, 0, 1, -2, -3, 2]))

    attempt(c, act, what)


def geometry(c):
    from pysimulators import geometry as ge

    what = c.choice(['grid', 'squares', 'rotate', 'surface', 'hull', 'rect', 'circle', 'polygon', 'segment', 'regular'])
    c.note(what=what)
    ctr = tuple(c.choice(ODD) for _ in range(c.choice([2, 2, 2, 1])))
    sh = (c.int(0, 4), c.int(0, 4))

    def act():
        if what == 'grid':
            out = array(c, near(c, sh + (2,)), 'dddf') if c.coin() else None
            return ge.create_grid(sh, c.choice(ODD), out=out, center=ctr, angle=c.choice(ODD), xreflection=c.coin())
        if what == 'squares':
            out = array(c, near(c, sh + (4, 2)), 'dddf') if c.coin() else None
            return ge.create_grid_squares(sh, c.choice(ODD), out=out, center=ctr, filling_factor=c.choice(ODD))
        if what == 'rotate':
            a = array(c, near(c, sh + (2,)))
            out = array(c, near(c, a.shape)) if c.coin() else None
            if c.coin(0.2):
                out = a
            return ge.rotate(a, c.choice(ODD), out=out)
        if what == 'surface':
            a = array(c, near(c, sh + (3, 2)))
            out = array(c, near(c, sh)) if c.coin() else None
            return ge.surface_simple_polygon(a, out=out)
        if what == 'hull':
            return ge.convex_hull(array(c, near(c, (c.int(0, 6), 2)), 'df'))
        if what == 'rect':
            return ge.create_rectangle(array(c, near(c, sh + (2,)), 'df'), angle=c.choice(ODD), center=ctr)
        if what == 'circle':
            return ge.create_circle(array(c, sh, 'df'), n=c.int(0, 5))
        if what == 'polygon' or what == 'regular':
            return ge.create_regular_polygon(c.int(0, 5), array(c, sh, 'df'), center=ctr)
        return ge.segment_mesh if not hasattr(ge, 'split_line') else None

    attempt(c, act, what)


def images(c):
    from pysimulators import datautils as du

    what = c.choice(['distance', 'distance2', 'gaussian', 'airy', 'aperture', 'profile', 'iprofile', 'psd2', 'ppsd2'])
    sh = tuple(c.int(0, 5) for _ in range(c.choice([1, 2, 2, 2, 3])))
    c.note(what=what, shape=sh)
    ctr = None if c.coin() else [c.choice(ODD) for _ in range(c.choice([1, 2, len(sh)]))]
    sc = c.choice([1, 1, 0.3, -1, 0, np.nan, (1, 2), (1,), np.inf])
    dt = c.choice([np.float32, np.float64, np.int32, np.longdouble, np.complex128])

    def act():
        if what in ('distance', 'distance2'):
            out = array(c, near(c, sh), 'ddffib') if c.coin() else None
            return getattr(du, what)(sh, center=ctr, scale=sc, dtype=dt, out=out)
        if what == 'gaussian':
            return du.gaussian(sh, sigma=c.choice(ODD), center=ctr, dtype=dt)
        if what == 'airy':
            return du.airy_disk(sh, fwhm=c.choice(ODD), center=ctr, scale=sc)
        if what == 'aperture':
            return du.aperture_circular(sh, c.choice(ODD), center=ctr, scale=sc)
        a = array(c, near(c, sh[:2]))
        kw = dict(bin=c.choice([1, 2, 0.5, 0, -1, 1e-3, np.nan, np.inf]), center=ctr,
                  nbins=c.choice([None, 0, 1, 3, 50, -1]))
        if what == 'profile':
            return du.profile(a, histogram=c.coin(), scale=c.choice([1, 0.5, 2]), **kw)
        if what == 'iprofile':
            return du.integrated_profile(a, scale=c.choice([1, 0.5, 2]), **kw)
        if what == 'psd2':
            return du.psd2(a, fftw_flag='FFTW_ESTIMATE')
        return du.profile_psd2(a, fftw_flag='FFTW_ESTIMATE')

    attempt(c, act, what)


def scenes(c):
    from pysimulators import SceneGrid

    sh = (c.int(0, 5), c.int(0, 5))
    nv = c.choice([0, 1, 2, 3, 4, 5, 9])
    n = near(c, (c.int(0, 3),))
    poly = array(c, n + (nv, 2), 'dddf')
    scale = c.choice([1, 1, 3, 1e4, 1e9])
    if poly.dtype.kind == 'f':
        poly = poly * poly.dtype.type(scale) if scale < 1e9 or c.coin() else poly
    if nv and poly.size:
        # ten thousand pixels at most: bound the size of the search, not its place
        with np.errstate(all='ignore'):
            span = np.ptp(np.where(np.isfinite(poly), poly, 0), axis=-2)
        c.note(span=float(np.max(span)) if span.size else 0.)
    ncolmax = c.choice([0, 0, 1, 2, 5, 40])
    c.note(shape=sh, nv=nv, n=n, ncolmax=ncolmax)

    def act():
        op = SceneGrid(sh).get_integration_operator(
            poly, ncolmax=ncolmax, dtype=c.choice([np.float32, np.float64]),
            dtype_index=c.choice([np.int32, np.int64, None]))
        op(np.ones(sh))
        op.T(op(np.ones(sh)))

    attempt(c, act, 'integration')


def angles(c):
    from pysimulators import wcsutils as w

    what = c.choice(['angle', 'bary', 'mean', 'minmax', 'fitsheader'])
    c.note(what=what)
    n = c.int(0, 4)

    def act():
        if what == 'angle':
            return w.angle_lonlat(*[array(c, near(c, (n,)), 'df') for _ in range(4)])
        if what == 'bary':
            return w.barycenter_lonlat(*[array(c, near(c, (n,)), 'df') for _ in range(2)])
        if what == 'mean':
            return w.mean_degrees(array(c, near(c, (n, 2)), 'df'))
        if what == 'minmax':
            return w.minmax_degrees(array(c, near(c, (n, 2)), 'df'))
        return w.fitsheader2shape(w.create_fitsheader((c.int(-1, 3), c.int(-1, 3)), cdelt=c.choice(ODD), crval=(c.choice(ODD), 0), crpix=(1, 1)))

    attempt(c, act, what)


def trexp(c):
    from pysimulators import ConvolutionTruncatedExponentialOperator as T

    nd, nt = c.int(0, 4), c.int(0, 9)
    tau = array(c, near(c, (nd,)), 'df') if c.coin(0.7) else c.choice(ODD)
    x = array(c, near(c, (nd, nt)), 'ddff')
    c.note(nd=nd, nt=nt)

    def act():
        op = T(tau)
        y = op(x)
        op.T(y)
        out = array(c, near(c, x.shape), 'df')
        op(x, out)
        op(y, y)

    attempt(c, act, 'trexp')


def areas(c):
    """Pixel areas from FITS headers that are not quite right."""
    import pysimulators as ps

    h = ps.create_fitsheader((c.int(1, 4), c.int(1, 4)), cdelt=c.choice([1, 0.1, 30, 1e-5]), crval=(c.choice([0, 10, 359]), c.choice([0, 80, -90, 90])),
                             crpix=(c.choice([1, 1.5, -100, 1e6]), c.choice([1, 1.5, 1e3])), pa=c.choice([0, 45, 1e4]))
    k = c.int(0, 7)
    if k == 1:
        h['CTYPE1'] = 'RA---SIN'
    elif k == 2:
        h['CTYPE1'], h['CTYPE2'] = 'GLON-TAN', 'GLAT-TAN'
    elif k == 3:
        for i in range(c.int(1, 300)):
            h[f'K{i}'] = (float(i), 'x' * c.int(0, 40))
    elif k == 4:
        h['CRVAL1'] = 'abc'
    elif k == 5:
        del h[c.choice(['CD1_1', 'CRPIX1', 'CTYPE2', 'CRVAL2'])]
    elif k == 6:
        h['CRPIX1'] = 1e300
    elif k == 7:
        h['NAXIS1'] = c.choice([0, 1, 50])
    c.note(kind=k)
    m = ps.Map.ones((h['NAXIS2'], h['NAXIS1']))
    m.header = h
    attempt(c, lambda: ps.quantities.pixel_to_pixel_reference(m), 'areas')


def run(ctx):
    ctx.each('sparse', 2500, 20000, sparse)
    ctx.each('pmatrix', 2500, 20000, pmatrix)
    ctx.each('geometry', 700, 8000, geometry)
    ctx.each('images', 900, 9000, images)
    ctx.each('scenes', 400, 6000, scenes)
    ctx.each('angles', 400, 4000, angles)
    ctx.each('trexp', 400, 5000, trexp)
    ctx.each('areas', 150, 2000, areas)
