"""C01: sparse matrix-vector products."""
import operator

import numpy as np

from . import gen_sparse as g

PROPERTY = 'C01'
LD = g.LD


def reference(s, x, transpose=False):
    a = s.dense.T if transpose else s.dense
    b = s.absdense.T if transpose else s.absdense
    xx = x.astype(np.clongdouble if x.dtype.kind == 'c' else LD)
    return a @ xx, b @ np.abs(xx)


def bound(s, x, absref, *others):
    nterms = s.nmax * max(s.nkept, 1) + 6
    return g.work_eps(s, x.dtype, *others) * nterms * absref + LD(1e-300)


def frozen(a):
    return a.tobytes()


def matvec(c):
    s = g.draw(c)
    m = s.matrix
    transpose = c.coin()
    n = s.shape[0] if transpose else s.shape[1]
    cplx = c.coin(0.06)
    x = g.vector(c, n, np.complex128 if cplx else None)
    c.note(op='M*v' if not transpose else 'v*M', xdtype=str(x.dtype))
    keep, keepx = frozen(m.data), frozen(x)
    got = x * m if transpose else m * x
    want, absref = reference(s, x, transpose)
    key = f'matvec:{s.fmt}'
    g.bounded(c, got, want, bound(s, x, absref), key, 'product')
    c.check(got.dtype == np.result_type(s.vtype, x.dtype), 'matvec:dtype',
            lambda: f'{got.dtype} from {s.vtype} and {x.dtype}')
    c.check(frozen(m.data) == keep and frozen(x) == keepx, 'matvec:operands-untouched')
    # scaling and copies
    k = c.choice([0, -2, -1, 4])  # exact scalings
    mk = m * k if c.coin() else k * m
    gotk = mk * x if not transpose else x * mk
    g.bounded(c, gotk, k * want, 3 * bound(s, x, absref) * max(abs(k), 1) , 'matvec:scaled', f'scaled by {k}')
    mc = m.copy()
    c.check(frozen(m.data) == keep, 'matvec:scaling-untouched')
    mc.data[mc.data.dtype.names[1]] = 0
    mc.data['index'] = 0
    c.check(frozen(m.data) == keep, 'matvec:copy-independent')


def opcall(c):
    """SparseOperator: plain call, out=, accumulation, broadcasting over trailing dimensions,
    multi-dimensional domains, non-contiguous operands."""
    from pysimulators import sparse

    s = g.draw(c)
    transpose = c.coin()
    nin, nout = (s.shape if transpose else s.shape[::-1])
    plain = s.fmt in ('fsr', 'fsc')
    extra = ()
    if plain and c.coin(0.5):
        extra = c.choice([(1,), (2,), (3,), (4,), (2, 3), (1, 2), (7,)])
    kw = {}
    bs = s.block if not transpose else s.block[::-1]
    if plain:
        shin, shout = (nin,), (nout,)
    else:
        shin = (nin // bs[1],) + ((bs[1],) if bs[1] > 1 else ())
        shout = (nout // bs[0],) + ((bs[0],) if bs[0] > 1 else ())
    if c.coin(0.4) and plain:
        # multi-dimensional domain of the same size, explicit or broadcastable
        a = c.choice([d for d in range(1, nin + 1) if nin % d == 0])
        b = c.choice([d for d in range(1, nout + 1) if nout % d == 0])
        shin, shout = (a, nin // a), (b, nout // b)
        if c.coin():
            shin_, shout_ = (shout, shin) if transpose else (shin, shout)
            kw = {'broadcastable_shapein': shin_, 'broadcastable_shapeout': shout_}
        else:
            fullin, fullout = shin + extra, shout + extra
            if transpose:
                fullin, fullout = fullout, fullin
            kw = {'shapein': fullin, 'shapeout': fullout}
    elif plain and c.coin(0.3):
        fullin, fullout = shin + extra, shout + extra
        if transpose:
            fullin, fullout = fullout, fullin
        kw = {'shapein': fullin, 'shapeout': fullout}
    ne = int(np.prod(extra)) if extra else 1
    op = sparse.SparseOperator(s.matrix, **kw)
    c.check(op.shape[0] in (None, s.shape[0] * ne) or not op.shape[0], 'op:shape', lambda: str(op.shape))
    if transpose:
        op = op.T
    x = g.vector(c, nin * ne, dtypes=[np.float64, np.float64, np.float32, np.int64, np.float16]).reshape(shin + extra)
    mode = c.choice(['call', 'call', 'out', 'iadd', 'direct', 'strided-in', 'strided-out', 'fortran-in'])
    c.note(op='T' if transpose else 'N', mode=mode, extra=extra, kw=str(kw), xdtype=str(x.dtype))
    xx = x
    if mode == 'strided-in':
        big = np.full(tuple(2 * d for d in x.shape), 1e30).astype(x.dtype)
        if x.dtype.kind == 'i':
            big[...] = 99
        big[tuple(slice(None, None, 2) for _ in x.shape)] = x
        xx = big[tuple(slice(None, None, 2) for _ in x.shape)]
    elif mode == 'fortran-in':
        xx = np.asfortranarray(x)
    keepx = frozen(np.ascontiguousarray(xx))
    keep = frozen(s.matrix.data)
    a = s.dense.T if transpose else s.dense
    b = s.absdense.T if transpose else s.absdense
    xf = x.astype(LD).reshape(nin, ne)
    want = (a @ xf).reshape(shout + extra)
    absref = (b @ np.abs(xf)).reshape(shout + extra)
    odtype = np.result_type(op.dtype, x.dtype)
    key = f'op:{s.fmt}:{"T" if transpose else "N"}'
    if mode in ('out', 'strided-out'):
        if mode == 'out':
            out = np.full(shout + extra, np.nan, odtype)
        else:
            bigo = np.full(tuple(2 * d for d in shout + extra), 77.0, odtype)
            out = bigo[tuple(slice(None, None, 2) for _ in shout + extra)]
        op(xx, out)
        got = out
        if mode == 'strided-out':
            o = np.ones(bigo.shape, bool)
            o[tuple(slice(None, None, 2) for _ in shout + extra)] = False
            c.check(np.all(bigo[o] == 77), 'op:strided-out-clobber', 'elements outside the output view were modified')
    elif mode in ('iadd', 'direct'):
        odtype = np.dtype(c.choice([np.float64, s.vtype, np.float32]))
        x2 = np.ascontiguousarray(x).astype(c.choice([x.dtype if x.dtype.kind == 'f' else np.float64, np.float64]))
        base = g.vector(c, nout * ne, odtype).reshape(shout + extra)
        out = base.copy()
        if mode == 'iadd':
            op.direct(x2, out, operation=operator.iadd)
            want = want + base
            absref = absref + np.abs(base.astype(LD))
        else:
            op.direct(x2, out)
        got = out
        xx_ = x2
        bnd = bound(s, x2, absref, odtype)
        g.bounded(c, got, want, bnd, key + ':' + mode, mode)
        c.check(frozen(s.matrix.data) == keep, 'op:matrix-untouched')
        return
    else:
        got = op(xx)
    bnd = bound(s, x, absref, *([got.dtype] if got.dtype.kind == 'f' else []), op.dtype)
    g.bounded(c, got, want, bnd, key, mode)
    c.check(frozen(np.ascontiguousarray(xx)) == keepx and frozen(s.matrix.data) == keep,
            'op:operands-untouched')


def outtype(c):
    """Native products written to or accumulated in an output of another type."""
    from pysimulators import sparse

    s = g.draw(c, native=True)
    op = sparse.SparseOperator(s.matrix)
    transpose = c.coin()
    if transpose:
        op = op.T
    nin, nout = (s.shape if transpose else s.shape[::-1])
    x = g.vector(c, nin, c.choice([np.float32, np.float64])).reshape(op.shapein or (nin,))
    odtype = np.dtype(c.choice([np.int64, np.int32, np.float32, np.float64, np.complex128, np.complex64, np.int16]))
    acc = c.coin()
    c.note(odtype=str(odtype), acc=acc, transpose=transpose, xdtype=str(x.dtype))
    base = c.rng.integers(-50, 50, op.shapeout or (nout,)).astype(odtype)
    out = base.copy()
    op.direct(x, out, **(dict(operation=operator.iadd) if acc else {}))
    want, absref = reference(s, x.ravel(), transpose)
    if acc:
        want = want + base.ravel()
        absref = absref + np.abs(base.ravel())
    if np.max(absref, initial=0) > 30000:
        from harness.core import Skip
        raise Skip
    bnd = bound(s, x, absref, np.float32 if odtype.itemsize <= 8 and odtype.kind != 'i' else np.float64)
    if odtype.kind == 'i':
        bnd = bnd + 1
    g.bounded(c, out.ravel(), want, bnd, f'outtype:{s.fmt}:{odtype.kind}', 'direct into another type')


def todense(c):
    from pysimulators import sparse

    s = g.draw(c, size=(c.int(1, 6), c.int(1, 5)), vtypes=[np.float32, np.float64],
               itypes=[np.int32, np.int64, np.int16])
    op = sparse.SparseOperator(s.matrix)
    plain = s.fmt in ('fsr', 'fsc')
    extra = 1
    if plain and c.coin():
        extra = c.int(1, 3)
    kw = {}
    if plain:
        kw = {'shapein': (s.shape[1],) + ((extra,) if extra > 1 else ())}
    c.note(extra=extra)
    want = np.kron(s.dense, np.eye(extra)) if extra > 1 else s.dense
    got = op.todense(**kw)
    bnd = 64 * g.eps(s.vtype) * np.kron(s.absdense, np.ones((extra, extra))) + 1e-300
    g.bounded(c, got, want, bnd, f'todense:{s.fmt}', 'todense')
    kwt = {}
    if plain:
        kwt = {'shapein': (s.shape[0],) + ((extra,) if extra > 1 else ())}
    gotT = op.T.todense(**kwt)
    g.bounded(c, gotT, want.T, bnd.T, f'todense:{s.fmt}:T', 'todense of the transpose')
    # inplace=True evaluation must not change the values
    if s.shape[0] == s.shape[1]:
        g.bounded(c, op.todense(inplace=False, **kw), want, bnd, f'todense:{s.fmt}', 'todense')


def large(c):
    """Sizes at which the parallel loops really run on several threads."""
    from pysimulators import sparse

    fmt = c.choice(g.FORMATS)
    s = g.draw(c, fmt=fmt, native=True, size=(c.int(3000, 20000), c.choice([1, 3, 50, 4000])),
               multidim=False)
    transpose = c.coin()
    nin, nout = (s.shape if transpose else s.shape[::-1])
    extra = c.choice([1, 1, 3]) if fmt in ('fsr', 'fsc') else 1
    x = g.vector(c, nin * extra, c.choice([np.float64, np.float32]))
    op = sparse.SparseOperator(s.matrix)
    if transpose:
        op = op.T
    c.note(transpose=transpose, extra=extra, xdtype=str(x.dtype))
    xs = x.reshape(op.shapein) if fmt not in ('fsr', 'fsc') else x.reshape((nin,) + ((extra,) if extra > 1 else ()))
    f2 = fmt if not transpose else {'fsr': 'fsc', 'fsc': 'fsr'}[fmt[:3]] + fmt[3:]
    blk = s.block if not transpose else s.block[::-1]
    want = g.sparse_apply(f2, s.data, blk, s.nother, x, extra)
    absref = g.sparse_apply(f2, s.data, blk, s.nother, x, extra, absolute=True)
    got = np.asarray(op(xs)).ravel()
    e = g.work_eps(s, x.dtype, op.dtype if op.dtype.kind == 'f' else np.float64)
    g.bounded(c, got, want, e * (s.nmax * s.nkept + 6) * absref + LD(1e-300), f'large:{fmt}', 'product')


def fallback(c):
    """Native kernels and the pure-Python evaluation agree on the same stored matrix."""
    from pysimulators import sparse

    s = g.draw(c, native=True)
    n = s.shape[1]
    x = g.vector(c, n, c.choice([np.float32, np.float64]))
    other = c.choice([np.int8, np.int16])
    d2 = np.zeros(s.data.shape, dtype=g.fields(s.fmt, s.vtype, other, s.block))
    for name in d2.dtype.names:
        d2[name] = s.data[name] if name != 'index' else np.maximum(s.data[name], -100)
    m2 = g.names()[s.fmt](s.shape, data=d2)
    a, b = s.matrix * x, m2 * x
    _, absref = reference(s, x)
    g.bounded(c, a, b.astype(LD), 2 * bound(s, x, absref), f'fallback:{s.fmt}', 'native versus python')
    t1 = sparse.SparseOperator(s.matrix).T
    t2 = sparse.SparseOperator(m2).T
    y = g.vector(c, s.shape[0], x.dtype)
    if s.fmt not in ('fsr', 'fsc'):
        y = y.reshape(t1.shapein)
    _, absref = reference(s, y.ravel(), True)
    g.bounded(c, t1(y).ravel(), t2(y).ravel().astype(LD), 2 * bound(s, y, absref, t1.dtype), f'fallback:{s.fmt}:T',
              'native versus python, transpose')


def reject(c):
    """Incompatible sizes are refused, never silently truncated."""
    from pysimulators import sparse

    s = g.draw(c)
    m = s.matrix
    bad = s.shape[1] + c.int(1, 3)
    if s.fmt in ('fsr', 'fsc') and bad % s.shape[1] == 0:
        bad += 1
        if bad % s.shape[1] == 0:
            from harness.core import Skip
            raise Skip
    c.note(bad=bad)
    x = np.ones(bad, s.vtype if s.vtype.kind == 'f' else float)
    c.raises(ValueError, lambda: m * x, 'reject:input-size', 'wrong input size')
    op = sparse.SparseOperator(m)
    c.raises(ValueError, lambda: op(x), 'reject:op-input-size', 'wrong operator input size')
    b0, b1 = s.block
    if b0 * b1 > 1:
        wrong = (s.shape[0] + 1, s.shape[1]) if b0 > 1 else (s.shape[0], s.shape[1] + 1)
    else:
        wrong = (s.shape[0] + 1, s.shape[1]) if s.fmt == 'fsr' else (s.shape[0], s.shape[1] + 1)
    c.raises(ValueError, lambda: type(m)(wrong, data=s.data), 'reject:constructor', 'inconsistent shape')


def bigblock(c):
    """Block shapes beyond the native kernels: refused, or multiplied correctly."""
    from pysimulators import sparse

    fmt = c.choice(['fsr_block', 'fsc_block'])
    block = (1, 1)
    while max(block) < 4:
        block = (c.int(1, 5), c.int(1, 5))
    n, nother, nmax = c.int(1, 5), c.int(1, 4), c.int(1, 3)
    data = np.zeros((n, nmax), g.fields(fmt, c.choice([np.float32, np.float64]), c.choice([np.int32, np.int64]), block))
    data['index'] = c.rng.integers(-1, nother, data.shape)
    data['value'] = c.rng.uniform(-2, 2, data['value'].shape)
    shape = (n * block[0], nother * block[1]) if fmt == 'fsr_block' else (nother * block[0], n * block[1])
    c.note(fmt=fmt, block=block, n=n, nother=nother, nmax=nmax)
    try:
        m = g.names()[fmt](shape, data=data.copy())
    except NotImplementedError:
        c.check(True, 'bigblock:refused')
        return
    x = g.vector(c, shape[1], np.float64)
    d = g.dense_of(fmt, data, nother, block)
    g.bounded(c, m * x, d @ x.astype(LD), 1e-5 * (1 + np.abs(d) @ np.abs(x)), f'bigblock:{fmt}', 'product')


def run(ctx):
    ctx.each('matvec', 900, 20000, matvec)
    ctx.each('opcall', 1500, 30000, opcall)
    ctx.each('outtype', 400, 8000, outtype)
    ctx.each('todense', 250, 4000, todense)
    ctx.each('large', 60, 600, large)
    ctx.each('fallback', 200, 4000, fallback)
    ctx.each('reject', 120, 1500, reject)
    ctx.each('bigblock', 60, 600, bigblock)
