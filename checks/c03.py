"""C03: restriction, corestriction, kernel and coverage of projections."""
import operator

import numpy as np

from . import gen_sparse as g

PROPERTY = 'C03'
LD = np.longdouble
FMTS = ['fsr', 'fsr', 'fsr_rot2d', 'fsr_rot3d', 'fsr_block']


def project(c, fmts=FMTS, native=None, multidim=False, extra=True, **kw):
    """A projection operator, its dense matrix and the shape of its pixels."""
    from pysimulators import ProjectionOperator

    fmt = c.choice(fmts)
    if native is None:
        native = c.coin(0.6)
    s = g.draw(c, fmt=fmt, native=native, multidim=multidim and fmt == 'fsr',
               itypes=kw.pop('itypes', None) or (None if native else [np.int8, np.int16, np.int32, np.int64]), **kw)
    keys = {}
    s.extra = ()
    s.pixshape = (s.nother,)
    if fmt == 'fsr':
        if c.coin(0.3):
            a = c.choice([d for d in range(1, s.nother + 1) if s.nother % d == 0])
            s.pixshape = (a, s.nother // a)
        if extra and c.coin(0.3):
            s.extra = (c.int(2, 3),)
        lead = s.data.shape[:-1]
        if s.extra or c.coin():
            keys = dict(shapein=s.pixshape + s.extra, shapeout=lead + s.extra)
        else:
            keys = dict(broadcastable_shapein=s.pixshape, broadcastable_shapeout=lead)
            if c.coin(0.3) and len(lead) == 1:
                s.pixshape = (s.nother,)
                keys = {}
    op = ProjectionOperator(s.matrix, **keys)
    c.note(keys=str(keys))
    return op, s


def dense_op(op, s, ncol, nrow):
    """Observed matrix (one trailing component is enough when it broadcasts)."""
    b0, b1 = s.block
    e = int(np.prod(s.extra)) if s.extra else 1
    out = np.zeros((nrow * b0, e, ncol * b1, e), LD)
    for j in range(ncol * b1):
        for k in range(e):
            x = np.zeros((ncol * b1, e))
            x[j, k] = 1
            if op.shapein is not None:
                xs = x.reshape(op.shapein)
            else:
                xs = x.reshape(getattr(op, 'broadcastable_shapein', (ncol * b1,)) + s.extra)
            out[:, :, j, k] = np.asarray(op(xs)).reshape(nrow * b0, e)
    return out


def expected(s, rows=None, cols=None):
    b0, b1 = s.block
    d = s.dense.reshape(s.nkept, b0, s.nother, b1)
    if rows is not None:
        d = d[rows.ravel()]
    if cols is not None:
        d = d[:, :, cols.ravel()]
    n, m = d.shape[0], d.shape[2]
    d = d.reshape(n * b0, m * b1)
    e = int(np.prod(s.extra)) if s.extra else 1
    out = np.zeros((n * b0, e, m * b1, e), LD)
    for k in range(e):
        out[:, k, :, k] = d
    return out


def mask_of(c, shape):
    p = c.choice([0.2, 0.5, 0.9, 1.0])
    m = c.rng.random(shape) < p
    if not m.any():
        m.ravel()[c.int(0, m.size - 1)] = True
    return m


def restricted(c):
    op, s = project(c, multidim=True)
    kind = c.choice(['restrict', 'restrict', 'corestrict', 'both', 'both-reversed', 'twice'])
    if s.fmt == 'fsr_block' and kind != 'restrict':
        kind = 'restrict'
    inplace = c.coin(0.4)
    keep = s.matrix.data.tobytes()
    e = 16 * g.eps(s.vtype) * (1 + np.abs(s.absdense).sum()) * 4
    cm, rm = mask_of(c, s.pixshape), mask_of(c, s.data.shape[:-1])
    c.note(kind=kind, inplace=inplace, kept=int(cm.sum()), keptrows=int(rm.sum()))
    key = f'{kind}:{s.fmt}'
    before = None
    if not inplace:
        before = dense_op(op, s, s.nother, s.nkept)
    cols = rows = None
    if kind == 'restrict':
        r, cols = op.restrict(cm, inplace=inplace), cm
    elif kind == 'corestrict':
        r, rows = op.corestrict(rm, inplace=inplace), rm
    elif kind == 'both':
        r, cols, rows = op.restrict(cm, inplace=inplace).corestrict(rm, inplace=inplace), cm, rm
    elif kind == 'both-reversed':
        r, cols, rows = op.corestrict(rm, inplace=inplace).restrict(cm, inplace=inplace), cm, rm
    else:
        r = op.restrict(cm, inplace=inplace)
        cm2 = mask_of(c, (int(cm.sum()),))
        r = r.restrict(cm2, inplace=inplace or c.coin())
        cols = cm.copy()
        cols[cm] = cm2
    want = expected(s, rows, cols)
    nrow, _, ncol, _ = want.shape
    nrow //= s.block[0]
    ncol //= s.block[1]
    got = dense_op(r, s, ncol, nrow)
    g.bounded(c, got, want, e, key, 'matrix of the restricted operator')
    c.check(r.matrix.shape == (nrow * s.block[0], ncol * s.block[1]), 'restricted:shape', lambda: str(r.matrix.shape))
    idx = np.asarray(r.matrix.data['index'])
    c.check(bool(np.all(idx.astype(int) < ncol)), 'restricted:index-range')
    # the transpose of the restricted operator
    y = g.vector(c, nrow * s.block[0] * int(np.prod(s.extra or (1,))), np.float64)
    ys = y.reshape(r.shapeout) if r.shapeout is not None else y.reshape((nrow,) + s.extra)
    if r.shapeout is None and kind in ('restrict', 'twice'):
        ys = y.reshape(s.data.shape[:-1] + s.extra)
    wt = want.reshape(len(y), -1).T @ y.astype(LD)
    g.bounded(c, np.asarray(r.T(ys)).ravel(), wt, e * 10, key + ':T', 'transpose of the restricted operator')
    if not inplace:
        if c.coin():
            # an in-place restriction of the result does not reach the original
            r.restrict(mask_of(c, s.pixshape if kind == 'corestrict' else (ncol,)), inplace=True)
        c.check(s.matrix.data.tobytes() == keep, 'restricted:original-matrix', 'the original matrix was modified')
        g.bounded(c, dense_op(op, s, s.nother, s.nkept), before, 0 * e, 'restricted:original', 'the original operator changed')


def kernel(c):
    op, s = project(c, itypes=None if c.coin(0.6) else [np.int8, np.int16, np.int32, np.int64])
    d = s.data.reshape(int(np.prod(s.data.shape[:-1])), s.nmax)
    want = np.ones(s.nother, bool)
    for name in d.dtype.names[1:]:
        nz = (np.atleast_1d(d[name]).reshape(d.shape + (int(np.prod(d.dtype[name].shape)),)) != 0).any(-1)
        want[d['index'][nz & (d['index'] >= 0)].astype(int)] = False
    want = want.reshape(s.pixshape if s.fmt == 'fsr' else (s.nother,))
    if (d['index'] < 0).any() and np.issubdtype(s.itype, np.unsignedinteger):
        return
    key = f'kernel:{s.fmt}'
    c.equal(np.asarray(op.canonical_basis_in_kernel()), want, key, 'kernel')
    for name, oper in (('iand', operator.iand), ('imul', operator.imul), ('ior', operator.ior), ('ixor', operator.ixor), ('assign', None)):
        base = c.rng.random(want.shape) < 0.5
        out = base.copy()
        if c.coin(0.3):
            big = np.zeros(want.shape + (2,), bool)
            out = big[..., 0]
            out[...] = base
        if oper is None:
            op.canonical_basis_in_kernel(out=out)
            w = want
        else:
            op.canonical_basis_in_kernel(out=out, operation=oper)
            w = oper(base.copy(), want)
        c.note(layout=out.strides)
        c.equal(out, w, key + ':' + name, f'kernel with operation {name}')
    c.raises(TypeError, lambda: op.canonical_basis_in_kernel(out=np.ones(want.shape)), 'kernel:refused')
    c.raises(ValueError, lambda: op.canonical_basis_in_kernel(out=np.ones(want.shape + (1,), bool)), 'kernel:refused')
    c.raises(ValueError, lambda: op.canonical_basis_in_kernel(operation=operator.iand), 'kernel:refused')
    c.check(s.matrix.data.tobytes() == s.data.tobytes(), 'kernel:matrix')


def coverage(c):
    op, s = project(c, extra=False, vtypes=[np.float32, np.float64] if c.coin(0.8) else None)
    b0, b1 = s.block
    d = s.data.reshape(int(np.prod(s.data.shape[:-1])), s.nmax)
    idx = d['index'].astype(int)
    want = np.zeros(s.nother, LD)
    if s.fmt == 'fsr_rot2d':
        v = np.sqrt(d['r11'].astype(LD) ** 2 + d['r21'].astype(LD) ** 2)
    elif s.fmt == 'fsr_rot3d':
        v = d['r11'].astype(LD)
    elif s.fmt == 'fsr':
        v = d['value'].astype(LD)
    else:
        v = d['value'].astype(LD)[..., 0].sum(-1)
    ok = idx >= 0
    np.add.at(want, idx[ok], v[ok])
    absw = np.zeros(s.nother, LD)
    np.add.at(absw, idx[ok], np.abs(v[ok]))
    if s.fmt == 'fsr_block':
        absw += np.abs(d['value'].astype(LD)).sum()
    e = g.eps(s.vtype) * 60
    pix = s.pixshape
    want, absw = want.reshape(pix), absw.reshape(pix)
    key = f'pT1:{s.fmt}'
    g.bounded(c, op.pT1(), want, e * absw, key, 'coverage')
    odt = np.float64 if c.coin() else op.dtype
    base = g.vector(c, s.nother, np.float64).astype(odt).reshape(pix)
    out = base.copy()
    if c.coin(0.3):
        big = np.zeros(pix + (2,), odt)
        out = big[..., 0]
        out[...] = base
    if c.coin():
        op.pT1(out=out, operation=operator.iadd)
        g.bounded(c, out, want + base, (e + 60 * g.eps(odt)) * (absw + np.abs(base) + 1e-30), key + ':iadd', 'accumulated coverage')
    else:
        op.pT1(out=out)
        g.bounded(c, out, want, (e + 60 * g.eps(odt)) * (absw + 1e-30), key + ':out', 'coverage to output')
    c.raises(ValueError, lambda: op.pT1(out=np.ones(pix + (1,), odt)), key + ':refused')
    c.raises(ValueError, lambda: op.pT1(out=np.ones(pix, odt), operation=operator.imul), key + ':refused')
    c.raises(ValueError, lambda: op.pT1(operation=operator.iadd), key + ':refused')
    c.raises(TypeError, lambda: op.pT1(out=np.ones(pix, odt).tolist()), key + ':refused')
    if s.fmt == 'fsr_rot2d':
        c.raises(NotImplementedError, lambda: op.pTx_pT1(np.ones((s.nkept, 2))), 'pTx_pT1:rot2d')
        return
    xdt = c.choice([np.float64, np.float32])
    shx = op.shapeout if op.shapeout is not None else op.broadcastable_shapeout
    x = g.vector(c, s.shape[0], xdt).reshape(shx)
    wx = (s.dense.T @ x.ravel().astype(LD)).reshape(s.nother, b1)[:, 0].reshape(pix)
    ax = (s.absdense.T @ np.abs(x.ravel().astype(LD))).reshape(s.nother, b1)[:, 0].reshape(pix)
    dto = max(op.dtype, x.dtype)
    e = 60 * max(g.eps(s.vtype), g.eps(xdt))
    two = np.ones(pix, dto), np.ones(pix, dto)
    bad = np.ones(pix, np.float32 if dto == np.float64 else np.float64), np.ones(pix + (1,), dto)
    c.raises(ValueError, lambda: op.pTx_pT1(x, out=two, operation=operator.imul), 'pTx_pT1:refused')
    c.raises(ValueError, lambda: op.pTx_pT1(x[None]), 'pTx_pT1:refused')
    c.raises(ValueError, lambda: op.pTx_pT1(x, operation=operator.iadd), 'pTx_pT1:refused')
    c.raises(TypeError, lambda: op.pTx_pT1(x, out=two[0]), 'pTx_pT1:refused')
    for i, exc in enumerate((TypeError, ValueError)):
        c.raises(exc, lambda: op.pTx_pT1(x, out=(two[0], bad[i])), 'pTx_pT1:refused')
        c.raises(exc, lambda: op.pTx_pT1(x, out=(bad[i], two[0])), 'pTx_pT1:refused')
    if c.coin():
        a, b = op.pTx_pT1(x)
        g.bounded(c, a, wx, e * ax, f'pTx:{s.fmt}', 'backprojection')
        g.bounded(c, b, want, e * absw, f'pTx_pT1:{s.fmt}', 'coverage')
    else:
        oa, ob = np.full(pix, 3, dto), np.full(pix, 2, dto)
        if c.coin(0.3):
            big = np.zeros(pix + (2,), dto)
            big[...] = 3, 2
            oa, ob = big[..., 0], big[..., 1]
        acc = c.coin()
        op.pTx_pT1(x, out=(oa, ob), **(dict(operation=operator.iadd) if acc else {}))
        g.bounded(c, oa, wx + 3 * acc, e * (ax + 6), f'pTx:{s.fmt}:out', 'backprojection')
        g.bounded(c, ob, want + 2 * acc, e * (absw + 4), f'pTx_pT1:{s.fmt}:out', 'coverage')


def run(ctx):
    ctx.each('restricted', 900, 20000, restricted)
    ctx.each('kernel', 700, 12000, kernel)
    ctx.each('coverage', 700, 12000, coverage)
