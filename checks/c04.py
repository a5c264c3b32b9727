"""C04: pointing-matrix projections against the dense matrix of their elements."""
import operator

import numpy as np

from . import gen_sparse as g
from .gen_ops import pm_dense

PROPERTY = 'C04'
LD = np.longdouble
E4 = LD(np.finfo(np.float32).eps)


def matrix(c, big=False, npps=None, shape_input=None):
    from pysimulators import PointingMatrix

    nd, ns = (c.int(3, 6), c.int(800, 3000)) if big else (c.int(1, 4), c.int(1, 12))
    npps = c.choice([1, 1, 2, 3, 5]) if npps is None else npps
    shape_input = shape_input or c.choice([(c.int(1, 9),), (c.int(1, 5), c.int(1, 6))])
    npix = int(np.prod(shape_input))
    how = c.choice(['zeros', 'ones', 'empty', 'array'])
    idx = c.rng.integers(0, npix, (nd, ns, npps)).astype(np.int32)
    if c.coin(0.3):
        idx = np.minimum(idx, max(0, npix // 2))
    val = c.rng.uniform(-2, 2, (nd, ns, npps)).astype(np.float32)
    k = c.rng.integers(0, npps + 1, (nd, ns, 1))
    if c.coin(0.3):
        k[...] = npps
    pad = np.arange(npps) >= k
    idx[pad] = -1
    val[pad] = 0
    if c.coin(0.4):
        val[c.rng.random(val.shape) < 0.3] = 0
    if how == 'array':
        a = np.zeros((nd, ns, npps), PointingMatrix.default_dtype)
        a['index'], a['value'] = idx, val
        pm = PointingMatrix(a, shape_input)
    else:
        kw = dict(verbose=False)
        pm = getattr(PointingMatrix, how)((nd, ns, npps), shape_input, **kw)
        if how != 'empty':
            c.check(bool(np.all(pm.index == -1)) and bool(np.all(pm.value == (how == 'ones'))), 'init:' + how)
        pm.index[...] = idx
        pm.value[...] = val
    c.note(shape=idx.shape, shape_input=shape_input, how=how)
    return pm, idx, val, npix


def dense2(idx, val, npix):
    n = int(np.prod(idx.shape[:-1]))
    out = np.zeros((n, npix), LD)
    i2, v2 = idx.reshape(n, -1), val.reshape(n, -1)
    for j in range(i2.shape[1]):
        i = np.flatnonzero(i2[:, j] >= 0)
        out[i, i2[i, j]] += v2[i, j].astype(LD)
    return out


def _strided(c, a):
    big = np.full(tuple(2 * n for n in a.shape), np.nan)
    v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def project(c):
    from pysimulators import ProjectionInMemoryOperator

    pm, idx, val, npix = matrix(c, big=c.coin(0.15))
    op = ProjectionInMemoryOperator(pm)
    A, B = dense2(idx, val, npix), dense2(idx, np.abs(val), npix)
    sh, so = pm.shape_input, idx.shape[:-1]
    keep = pm.tobytes()
    x = c.rng.uniform(-3, 3, sh).astype(c.choice([np.float64, np.float64, np.float32]))
    y = c.rng.uniform(-3, 3, so).astype(c.choice([np.float64, np.float64, np.float32]))
    if c.coin(0.2):
        y.ravel()[0] = 0
    wx = (A @ x.ravel().astype(LD)).reshape(so)
    bx = 8 * E4 / 1000 * (B @ np.abs(x.ravel().astype(LD))).reshape(so) + LD(1e-300)
    wy = (A.T @ y.ravel().astype(LD)).reshape(sh)
    by = 8 * E4 / 1000 * (B.T @ np.abs(y.ravel().astype(LD))).reshape(sh) + LD(1e-300)
    mode = c.choice(['call', 'out', 'strided', 'stridedout', 'iadd', 'fortran'])
    c.note(mode=mode)
    xs, ys = (_strided(c, x), _strided(c, y)) if mode == 'strided' else (x, y)
    if mode == 'out':
        ox, oy = np.full(so, np.nan), np.full(sh, np.nan)
        op(xs, ox)
        op.T(ys, oy)
    elif mode == 'stridedout':
        ox, oy = _strided(c, np.zeros(so)), _strided(c, np.zeros(sh))
        op(xs, ox)
        op.T(ys, oy)
    elif mode == 'fortran':
        ox, oy = np.zeros(so, order='F'), np.zeros(sh, order='F')
        op(np.asfortranarray(x), ox)
        op.T(np.asfortranarray(y), oy)
    elif mode == 'iadd':
        ox = op(xs)
        base = c.rng.uniform(-3, 3, sh)
        oy = base.copy()
        op.transpose(np.ascontiguousarray(ys, float), oy, operation=operator.iadd)
        wy, by = wy + base, by + LD(1e-14)
    else:
        ox, oy = op(xs), op.T(ys)
    g.bounded(c, np.asarray(ox), wx, bx, 'direct:' + mode, 'projection')
    g.bounded(c, np.asarray(oy), wy, by, 'transpose:' + mode, 'transpose')
    # transpose times projection (a diagonal when each sample sees one pixel)
    tt = (op.T * op)(x.astype(float))
    w = A.T @ (A @ x.ravel().astype(LD))
    b = 16 * E4 * (B.T @ (B @ np.abs(x.ravel().astype(LD)))) + LD(1e-300)
    g.bounded(c, np.asarray(tt).ravel(), w, b, 'PtP', 'transpose times projection')
    d = c.rng.uniform(-2, 2, so)
    from pyoperators import DiagonalOperator
    dd = (DiagonalOperator(d) * op)(x.astype(float))
    g.bounded(c, np.asarray(dd), d * wx, (16 * E4 * (B @ np.abs(x.ravel().astype(LD))).reshape(so)) * np.abs(d) + LD(1e-300), 'DP', 'diagonal times projection')
    c.check(pm.tobytes() == keep, 'project:matrix', 'the pointing matrix was modified')


def masks(c):
    from pysimulators import ProjectionInMemoryOperator

    pm, idx, val, npix = matrix(c, big=c.coin(0.1))
    op = ProjectionInMemoryOperator(pm)
    seen = np.zeros(npix, bool)
    ok = (idx >= 0) & (val != 0)
    seen[idx[ok]] = True
    want = ~seen.reshape(pm.shape_input)
    c.equal(np.asarray(op.get_mask()), want, 'mask', 'mask of the unobserved pixels')
    base = c.rng.random(pm.shape_input) < 0.5
    out = base.copy()
    r = op.get_mask(out=out)
    c.equal(out, base & want, 'mask:out', 'accumulated mask')
    c.check(r is out or np.array_equal(r, out), 'mask:return')
    c.check(op.matrix.isvalid(), 'isvalid', 'a valid matrix is declared invalid')
    # mask samples
    m = c.rng.random(idx.shape[:-1]) < 0.4
    sel = c.choice(['pack', 'apply', 'packall', 'invalid', 'intersects'])
    c.note(sel=sel)
    A = dense2(idx, val, npix)
    if sel == 'apply':
        for bad in m[..., None], m[:0] if len(m) else m[None], m.ravel()[: m.size // 2]:
            if bad.shape != m.shape:
                c.raises(ValueError, lambda: op.apply_mask(bad), 'apply_mask:refused')
        c.equal(np.asarray(op.matrix.value), val, 'apply_mask:refused')
        op.apply_mask(m)
        A2 = A.copy()
        A2[m.ravel()] = 0
        x = c.rng.uniform(-2, 2, pm.shape_input)
        g.bounded(c, np.asarray(op(x)).ravel(), A2 @ x.ravel().astype(LD), LD(1e-12) + 0 * A2[:, 0], 'apply_mask', 'masked projection')
        c.equal(np.asarray(op.matrix.index), idx, 'apply_mask:index')
    elif sel in ('pack', 'packall'):
        mask = want.copy()
        if sel == 'pack':
            mask |= c.rng.random(mask.shape) < 0.3
        x = c.rng.uniform(-2, 2, pm.shape_input)
        pm.pack(mask)
        c.check(tuple(pm.shape_input) == (int((~mask).sum()),), 'pack:shape', lambda: str(pm.shape_input))
        if not (~mask).any():
            c.check(bool(np.all(np.asarray(pm.index) == -1)), 'pack:empty')
            return
        c.check(pm.isvalid(), 'pack:valid')
        A2 = A.copy()
        A2[:, mask.ravel()] = 0
        op2 = ProjectionInMemoryOperator(pm)
        g.bounded(c, np.asarray(op2(x[~mask])).ravel(), A2 @ x.ravel().astype(LD), LD(1e-12) + 0 * A2[:, 0], 'pack:projection', 'packed projection')
        i2, v2 = np.asarray(pm.index), np.asarray(pm.value)
        first = np.cumsum(i2 == -1, axis=-1) > 0
        c.check(bool(np.all(i2[first] == -1)) and bool(np.all(v2[i2 == -1] == 0)), 'pack:padding', 'padding is not at the end of the rows')
        if sel == 'packall':
            new = np.cumsum(~mask.ravel()) - 1
            dd = dense2(i2, v2, int((~mask).sum()))
            c.equal(dd.astype(float), A[:, ~mask.ravel()].astype(float), 'pack:elements')
    elif sel == 'invalid':
        i = tuple(c.int(0, n - 1) for n in idx.shape)
        pm.index[i] = c.choice([npix, npix + 5, -2, -100])
        c.check(not pm.isvalid(), 'isvalid:invalid', 'an invalid matrix is declared valid')
    else:
        p = tuple(c.int(0, n - 1) for n in pm.shape_input)
        flat = int(np.ravel_multi_index(p, pm.shape_input))
        fits = [q + 1 for q in p[::-1]]
        hit = idx == flat
        c.equal(bool(op.intersects(fits)), bool(hit.any()), 'intersects', 'pixel seen')
        c.equal(np.asarray(op.intersects(fits, axis=0)), hit.any((0, 2)), 'intersects:axis0')
        c.equal(np.asarray(op.intersects(fits, axis=1)), hit.any((1, 2)), 'intersects:axis1')
        c.equal(np.asarray(op.intersects(fits, axis=-3)), hit.any((0, 2)), 'intersects:axis0')
        c.equal(np.asarray(op.intersects(fits, axis=-2)), hit.any((1, 2)), 'intersects:axis1')
        c.raises(ValueError, lambda: op.intersects(fits, axis=2), 'intersects:refused')


def products(c):
    from pysimulators import ProjectionInMemoryOperator, Tod

    pm, idx, val, npix = matrix(c, big=c.coin(0.1))
    op = ProjectionInMemoryOperator(pm)
    A, B = dense2(idx, val, npix), dense2(idx, np.abs(val), npix)
    e = 16 * E4
    g.bounded(c, np.asarray(op.get_pTp()), A.T @ A, e * (B.T @ B) + LD(1e-300), 'pTp', 'pTp')
    base = c.rng.uniform(-2, 2, (npix, npix))
    out = base.copy()
    op.get_pTp(out=out)
    g.bounded(c, out, A.T @ A + base, e * (B.T @ B) + LD(1e-12), 'pTp:out', 'accumulated pTp')
    y = c.rng.uniform(-3, 3, idx.shape[:-1])
    m = c.rng.random(y.shape) < 0.4
    how = c.choice(['plain', 'mask', 'todmask', 'out', 'outmask'])
    c.note(how=how)
    good = ~m if 'mask' in how else np.ones(y.shape, bool)
    Ag, Bg = A[good.ravel()], B[good.ravel()]
    wx = (Ag.T @ y[good].astype(LD)).reshape(pm.shape_input)
    w1 = Ag.sum(0).reshape(pm.shape_input)
    bx = LD(1e-6) / 1000 * (Bg.T @ np.abs(y[good])).reshape(pm.shape_input) + LD(1e-300)
    b1 = LD(1e-6) / 1000 * Bg.sum(0).reshape(pm.shape_input) + LD(1e-300)
    kw = {}
    yy = y
    if how in ('mask', 'outmask'):
        kw['mask'] = m
    if how == 'todmask':
        yy = Tod(y, mask=m)
    if how.startswith('out'):
        a0, b0 = c.rng.uniform(-2, 2, pm.shape_input), c.rng.uniform(-2, 2, pm.shape_input)
        o = a0.copy(), b0.copy()
        op.get_pTx_pT1(yy, out=o, **kw)
        g.bounded(c, o[0], wx + a0, bx + LD(1e-13), 'pTx:' + how, 'backprojection')
        g.bounded(c, o[1], w1 + b0, b1 + LD(1e-13), 'pT1:' + how, 'coverage')
    else:
        a, b = op.get_pTx_pT1(yy, **kw)
        g.bounded(c, np.asarray(a), wx, bx, 'pTx:' + how, 'backprojection')
        g.bounded(c, np.asarray(b), w1, b1, 'pT1:' + how, 'coverage')
    two, bad = np.zeros(pm.shape_input), np.zeros(pm.shape_input + (2,))
    for out in (two, bad), (bad, two), (two, bad[..., 0]) if npix > 1 else (bad, bad):
        c.raises(ValueError, lambda: op.get_pTx_pT1(yy, out=out), 'pTx:refused')
    c.check(not two.any() and not bad.any(), 'pTx:refused', 'written')
    c.raises(ValueError, lambda: op.get_pTp(out=np.zeros((npix, npix + 1))), 'pTp:refused')
    c.raises(TypeError, lambda: op.get_pTp(out=np.zeros((npix, npix), np.float32)), 'pTp:refused')


def onfly(c):
    """A history of calls to operators that share a place holder."""
    from pysimulators import ProjectionOnFlyOperator

    n = c.int(2, 4)
    shape_input = (c.int(1, 9),)
    ms = [matrix(c, shape_input=shape_input) for _ in range(n)]
    calls = []

    failing = []

    class Fault(Exception):
        pass

    def func(i):
        calls.append(i)
        if failing:
            raise Fault
        return ms[i][0]

    holder = {}
    ids = list(range(n))
    ops = [ProjectionOnFlyOperator(holder, i, func, shapein=shape_input, shapeout=ms[i][1].shape[:-1]) for i in ids]
    last = None
    hist = []
    for _ in range(c.int(3, 12)):
        k = c.int(0, n - 1)
        what = c.choice(['direct', 'transpose', 'mask', 'pTx', 'matrix', 'fault'])
        hist.append((k, what))
        pm, idx, val, npix = ms[k]
        A = dense2(idx, val, npix)
        if what == 'fault':
            # the computation of the matrix fails: later calls must not be affected
            failing.append(k)
            try:
                ops[k].matrix
            except Fault:
                last = None
            failing.clear()
            continue
        ncalls = len(calls)
        tol = LD(1e-12)
        if what == 'direct':
            x = c.rng.uniform(-2, 2, npix)
            g.bounded(c, np.asarray(ops[k](x)).ravel(), A @ x.astype(LD), tol, 'onfly:direct', str(hist))
        elif what == 'transpose':
            y = c.rng.uniform(-2, 2, idx.shape[:-1])
            g.bounded(c, np.asarray(ops[k].T(y)), A.T @ y.ravel().astype(LD), tol, 'onfly:transpose', str(hist))
        elif what == 'mask':
            seen = np.zeros(npix, bool)
            seen[idx[(idx >= 0) & (val != 0)]] = True
            c.equal(np.asarray(ops[k].get_mask()), ~seen, 'onfly:mask', str(hist))
        elif what == 'pTx':
            y = c.rng.uniform(-2, 2, idx.shape[:-1])
            a, b = ops[k].get_pTx_pT1(y)
            g.bounded(c, np.asarray(a), A.T @ y.ravel().astype(LD), tol, 'onfly:pTx', str(hist))
            g.bounded(c, np.asarray(b), A.sum(0), tol, 'onfly:pT1', str(hist))
        else:
            c.check(ops[k].matrix is pm, 'onfly:matrix', str(hist))
        if last == k:
            c.check(len(calls) == ncalls, 'onfly:reuse', lambda: f'the matrix of the last used operator was computed again: {hist} {calls}')
        last = k
        c.check(all(i in ids for i in calls), 'onfly:ids')
    c.note(history=hist)


def attributes(c):
    """Units, derived units and attributes of the outputs."""
    from pyoperators import DiagonalOperator
    from pysimulators import Map, ProjectionInMemoryOperator, ProjectionOnFlyOperator, Quantity, Tod

    pm, idx, val, npix = matrix(c)
    sin, sout = pm.shape_input, idx.shape[:-1]
    A = dense2(idx, val, npix)
    kw = {}
    unit = {}
    if c.coin(0.7):
        kw['units'], unit = c.choice([(('sr', 'pixel'), {'sr': 1, 'pixel': -1}), (('V', 'W'), {'V': 1, 'W': -1}), (('', 'sr'), {'sr': -1}), (('K', ''), {'K': 1}),
                                      (('V^2', 'V'), {'V': 1})])
    dout = din = None
    if c.coin(0.5):
        dout, din = {'detector': Quantity(c.int(1, 9), 'sr')}, {'pixel': Quantity(c.int(1, 9), 'sr')}
        kw['derived_units'] = (dout, din)
    if c.coin(0.5):
        kw['attrin'] = {'mapname': 'a map'}
    if c.coin(0.5):
        kw['attrout'] = {'todname': 'a tod'}
    if c.coin(0.8):
        kw['classin'], kw['classout'] = Map, Tod
    kind = c.choice(['memory', 'onfly'])
    if kind == 'memory':
        P = ProjectionInMemoryOperator(pm, **kw)
    else:
        P = ProjectionOnFlyOperator({}, 3, lambda i: pm, shapein=sin, shapeout=sout, **kw)
    d = c.rng.uniform(1, 2, sout)
    how = c.choice(['direct', 'direct', 'transpose', 'transpose', 'diagonal', 'diagonal transpose', 'transpose diagonal', 'scaled', 'ptp'])
    U = c.choice([{}, {'Jy': 1}, {'Jy': 1, 'sr': -1}, {'K': 2}])
    string = ' '.join(f'{k}^{v}' for k, v in U.items())
    back = 'transpose' in how
    x = c.rng.uniform(-2, 2, sout if back else sin)
    cls_in = c.choice([Tod if back else Map, Tod if back else Map, Quantity])
    own = {c.choice(['myunit', 'detector', 'pixel']): Quantity(c.int(11, 19), 'sr')} if c.coin(0.4) else None
    arg = cls_in(x, unit=string, derived_units=own)
    if cls_in is not Quantity:
        arg.header = arg.header.copy()
        arg.header['FOO'] = 'bar'
    c.note(kind=kind, how=how, kw={k: str(v)[:40] for k, v in kw.items()}, U=U, cls_in=cls_in.__name__)
    D = DiagonalOperator(d)
    op, M = {
        'direct': lambda: (P, A), 'transpose': lambda: (P.T, A.T), 'diagonal': lambda: (D(P), d.ravel()[:, None] * A),
        'diagonal transpose': lambda: (D(P).T, A.T * d.ravel()), 'transpose diagonal': lambda: (P.T(D), A.T * d.ravel()), 'scaled': lambda: (2 * P, 2 * A),
        'ptp': lambda: (P.T(P), A.T @ A)}[how]()
    got = op(arg)
    g.bounded(c, np.asarray(got).ravel(), M @ x.ravel().astype(LD), LD(1e-12) if 'diagonal' not in how and how != 'ptp' else 16 * E4 * float(np.abs(M).sum()), 'attributes:values')
    c.equal(np.asarray(arg), x, 'attributes:operand')
    power = 0 if how == 'ptp' else -1 if back else 1
    want = dict(U)
    if U:
        for k, v in unit.items():
            want[k] = want.get(k, 0) + power * v
    want = {k: v for k, v in want.items() if v}
    is_map = back or how == 'ptp'
    cls = kw.get('classin' if is_map else 'classout', cls_in)
    c.check(type(got) is cls, 'attributes:class', f'{type(got).__name__} instead of {cls.__name__}')
    c.check(getattr(got, '_unit', {}) == want, 'attributes:unit', f"{getattr(got, 'unit', None)!r} instead of {want}")
    c.check(arg._unit == U and dict(arg.derived_units) == (own or {}), 'attributes:operand', f'{arg.unit} {arg.derived_units}')
    du = din if is_map else dout
    if du is not None:
        (k, v), = du.items()
        c.check(dict(got.derived_units) == du, 'attributes:derived units', f'{got.derived_units} instead of {du}')
    for name, key, value in ('attrin', 'mapname', 'a map'), ('attrout', 'todname', 'a tod'):
        if name in kw and (name == 'attrin') == is_map:
            c.check(getattr(got, key, None) == value, 'attributes:' + name, f'{getattr(got, key, None)}')
    h = getattr(got, 'header', None)
    c.check(h is None or 'FOO' not in h, 'attributes:header', 'the header of the operand is that of the result')


def empty(c):
    from pysimulators import PointingMatrix, ProjectionInMemoryOperator

    sh = c.choice([(2, 3, 0), (1, 1, 0), (0, 3, 2), (2, 0, 1)])
    npix = c.int(1, 6)
    pm = PointingMatrix.zeros(sh, (npix,), verbose=False)
    c.note(sh=sh, npix=npix)
    op = ProjectionInMemoryOperator(pm)
    out = np.full(sh[:-1], 5.)
    op(np.ones(npix), out)
    c.equal(out, np.zeros(sh[:-1]), 'empty:direct')
    out = np.full(npix, 5.)
    op.T(np.ones(sh[:-1]), out)
    c.equal(out, np.zeros(npix), 'empty:transpose')
    c.check(pm.isvalid(), 'empty:isvalid')
    c.equal(np.asarray(op.get_mask()), np.ones(npix, bool), 'empty:mask')
    c.equal(np.asarray(op.get_pTp()), np.zeros((npix, npix)), 'empty:pTp')
    a, b = op.get_pTx_pT1(np.ones(sh[:-1]))
    c.equal(np.asarray(a), np.zeros(npix), 'empty:pTx')


def run(ctx):
    ctx.each('project', 700, 15000, project)
    ctx.each('masks', 700, 15000, masks)
    ctx.each('products', 500, 10000, products)
    ctx.each('onfly', 250, 5000, onfly)
    ctx.each('attributes', 150, 3000, attributes)
    ctx.each('empty', 20, 100, empty)
