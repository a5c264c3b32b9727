"""C02: the transpose of every linear operator is its adjoint, and algebra preserves values."""
import operator

import numpy as np

from . import gen_ops
from . import gen_sparse as g

PROPERTY = 'C02'
LD = np.longdouble


def dense(c, op, shin, shout, dt):
    """Matrix of `op` observed by applying it to the canonical basis."""
    n = int(np.prod(shin))
    m = int(np.prod(shout))
    out = np.empty((m, n), LD)
    for j in range(n):
        e = np.zeros(n, dt)
        e[j] = 1
        out[:, j] = np.asarray(op(e.reshape(shin))).ravel()
    return out


def tol(*dts):
    return max(float(np.finfo(d).eps) for d in dts if np.dtype(d).kind == 'f') * 200


def adjoint(c):
    name = c.choice(list(gen_ops.cases()))
    op, shin, shout, vt = gen_ops.cases()[name](c)
    c.note(op=name, shin=shin, shout=shout)
    dt = np.dtype(np.float32) if vt == np.float32 and c.coin(0.4) else np.dtype(np.float64)
    e = tol(vt if vt.kind == 'f' else float, dt)
    if vt == np.float16:
        e = tol(np.float16)
    x = g.vector(c, int(np.prod(shin)), dt).reshape(shin)
    y = g.vector(c, int(np.prod(shout)), dt).reshape(shout)
    keep = x.tobytes(), y.tobytes()
    opT = op.T
    Ax, Aty = np.asarray(op(x)), np.asarray(opT(y))
    c.check(Ax.shape == tuple(shout), f'shape:{name}', f'{Ax.shape} instead of {shout}')
    c.check(Aty.shape == tuple(shin), f'shape:{name}', f'{Aty.shape} instead of {shin}')
    if Ax.shape != tuple(shout) or Aty.shape != tuple(shin):
        return
    a = (Ax.astype(LD) * y.astype(LD))
    b = (x.astype(LD) * Aty.astype(LD))
    n = max(x.size, y.size, 1)
    # a bound on what rounding can do: sum |A||x||y| is bounded through observed absolute sums
    M = None
    if x.size * y.size <= 900:
        M = dense(c, op, shin, shout, np.float64)
        MT = dense(c, opT, shout, shin, np.float64)
        sc = np.abs(M).max() if M.size else 0
        g.bounded(c, MT, M.T, LD(e) * max(sc, 1e-30) * 8, f'adjoint-matrix:{name}', 'transpose versus columns')
        absref = np.abs(M) @ np.abs(x.ravel().astype(LD))
        g.bounded(c, Ax.ravel(), M @ x.ravel().astype(LD), LD(e) * 4 * (absref + sc), f'linear:{name}', 'A x versus columns')
        absref = np.abs(M.T) @ np.abs(y.ravel().astype(LD))
        g.bounded(c, Aty.ravel(), M.T @ y.ravel().astype(LD), LD(e) * 4 * (absref + sc), f'linear-T:{name}', 'A.T y versus columns')
        bound = LD(e) * (np.abs(y.ravel().astype(LD)) @ np.abs(M) @ np.abs(x.ravel().astype(LD)) + sc)
    else:
        bound = LD(e) * n * (np.abs(a).sum() + np.abs(b).sum() + 1)
    c.check(abs(a.sum() - b.sum()) <= bound, f'adjoint:{name}',
            lambda: f'<Ax,y>={a.sum()} but <x,A^Ty>={b.sum()} (bound {bound})')
    c.check((x.tobytes(), y.tobytes()) == keep, f'operands:{name}', 'an operand was modified')
    # transposing twice is the operator itself
    g.bounded(c, np.asarray(opT.T(x)), Ax.astype(LD), LD(e) * (np.abs(Ax).max() if Ax.size else 0) * 4 + LD(1e-30),
              f'TT:{name}', 'A.T.T x')


def algebra(c):
    """Simplified expressions act as the sequence of their factors."""
    from pyoperators import DiagonalOperator, HomothetyOperator, IdentityOperator

    name = c.choice(list(gen_ops.cases()))
    op, shin, shout, vt = gen_ops.cases()[name](c)
    kind = c.choice(['PtP', 'PPt', 'DP', 'PD', 'sP', 'P+P', 'PtDP', 'sPtP', 'P-P', 'I', 'PtPPt'])
    c.note(op=name, kind=kind)
    e = tol(vt if vt.kind == 'f' else float, np.float64)
    if vt == np.float16:
        e = tol(np.float16)
    if name in ('pmatrix', 'onfly'):
        e = tol(np.float32)
    x = g.vector(c, int(np.prod(shin)), np.float64).reshape(shin)
    y = g.vector(c, int(np.prod(shout)), np.float64).reshape(shout)
    Ax = np.asarray(op(x), LD)
    T = op.T
    sc = np.abs(dense(c, op, shin, shout, np.float64)).sum() if x.size * y.size <= 2000 else None
    if sc is None:
        from harness.core import Skip
        raise Skip
    do = c.rng.uniform(-2, 2, shout)
    di = c.rng.uniform(-2, 2, shin)
    s = c.choice([2.0, -3.0, 0.5])
    f8 = lambda v: np.asarray(v, np.float64)  # noqa: E731
    if kind == 'PtP':
        got, want = (T * op)(x), T(f8(Ax))
    elif kind == 'PPt':
        got, want = (op * T)(y), op(f8(T(y)))
    elif kind == 'DP':
        got, want = (DiagonalOperator(do) * op)(x), do * Ax
    elif kind == 'PD':
        got, want = (op * DiagonalOperator(di))(x), op(di * x)
    elif kind == 'sP':
        got, want = (s * op)(x), s * Ax
    elif kind == 'P+P':
        got, want = (op + op)(x), 2 * Ax
    elif kind == 'P-P':
        got, want = (op - s * op)(x), (1 - s) * Ax
    elif kind == 'PtDP':
        got, want = (T * DiagonalOperator(do) * op)(x), T(f8(do * Ax))
    elif kind == 'sPtP':
        got, want = (s * (T * op))(x), s * np.asarray(T(f8(Ax)), LD)
    elif kind == 'PtPPt':
        got, want = (T * op * T)(y), T(f8(op(f8(T(y)))))
    else:
        got, want = (IdentityOperator() * op * IdentityOperator())(x), Ax
    big = (1 + sc) ** {'PtP': 2, 'PPt': 2, 'PtDP': 2, 'sPtP': 2, 'PtPPt': 3}.get(kind, 1)
    g.bounded(c, np.asarray(got), np.asarray(want, LD), LD(e) * 60 * big, f'algebra:{name}:{kind}', kind)


def inplace(c):
    """Evaluation into the input buffer, into a given output, and accumulation give the same values."""
    name = c.choice(['trexp', 'roll', 'gal2equ', 'horizontal', 'sparse', 'pmatrix', 'integration'])
    op, shin, shout, vt = gen_ops.cases()[name](c)
    if c.coin():
        op = op.T
        shin, shout = shout, shin
    dt = vt if vt in (np.float32, np.float64) else np.dtype(float)
    c.note(op=name, dt=str(dt))
    e = LD(tol(dt) * 10)
    x = g.vector(c, int(np.prod(shin)), np.float64).astype(dt).reshape(shin)
    ref = np.asarray(op(x), LD)
    sc = np.abs(ref).max() if ref.size else 0
    odt = np.asarray(op(x)).dtype
    out = np.full(shout, np.nan, odt)
    op(x, out)
    g.bounded(c, out, ref, e * sc + LD(1e-30), f'out:{name}', 'result written to the output')
    if op.flags.update_output:
        base = g.vector(c, int(np.prod(shout)), np.float64).astype(odt).reshape(shout)
        acc = base.copy()
        op(x, acc, operation=operator.iadd)
        g.bounded(c, acc, ref + base, e * (sc + 5), f'iadd:{name}', 'accumulated result')
    # an input and an output that are parts of larger arrays
    big = np.full(tuple(shin[:-1]) + (2 * shin[-1] + 1,), 1e3, x.dtype)
    k = c.int(0, 1)
    xs = big[..., k:k + shin[-1]] if c.coin() or name in ('trexp',) else big[..., 1::2]
    xs[...] = x
    g.bounded(c, np.asarray(op(xs)), ref, e * sc + LD(1e-30), f'strided-in:{name}', 'strided input')
    if name not in ('gal2equ', 'horizontal'):     # pyoperators' dense operators refuse such outputs
        strided_out(c, op, name, xs, shout, odt, k, ref, e, sc)
    if tuple(shin) == tuple(shout) and name in ('trexp', 'roll', 'gal2equ', 'horizontal'):
        buf = x.astype(odt).copy()
        op(buf, buf)
        g.bounded(c, buf, ref, e * sc + LD(1e-30), f'inplace:{name}', 'in-place evaluation')


def strided_out(c, op, name, xs, shout, odt, k, ref, e, sc):
    bigo = np.full(tuple(shout[:-1]) + (2 * shout[-1] + 1,), 77, odt)
    os_ = bigo[..., k:k + shout[-1]] if c.coin() or name in ('trexp',) else bigo[..., 1::2]
    op(xs, os_)
    g.bounded(c, os_, ref, e * sc + LD(1e-30), f'strided-out:{name}', 'strided output')
    os_[...] = 77
    c.check(np.all(bigo == 77), f'strided-clobber:{name}', 'elements outside the output view were modified')


def flags(c):
    """Declared properties are true ones."""
    name = c.choice(list(gen_ops.cases()))
    op, shin, shout, vt = gen_ops.cases()[name](c)
    n = int(np.prod(shin))
    if n * int(np.prod(shout)) > 900:
        from harness.core import Skip
        raise Skip
    if c.coin(0.3):
        op, shin, shout = op.T, shout, shin
        n = int(np.prod(shin))
    M = dense(c, op, shin, shout, np.float64)
    fl = op.flags
    e = LD(tol(vt if vt.kind == 'f' else float)) * (1 + (np.abs(M).sum() if M.size else 0))
    c.note(op=name)
    if not fl.linear:
        c.check(False, f'flag-linear:{name}', 'not declared linear')
    if fl.square:
        c.check(M.shape[0] == M.shape[1], f'flag-square:{name}')
    if fl.orthogonal and not (name == 'trexp'):
        g.bounded(c, M.T @ M, np.eye(n).astype(LD), e, f'flag-orthogonal:{name}', 'A^T A')
        x = g.vector(c, n, np.float64).reshape(shin)
        g.bounded(c, np.asarray(op.I(np.asarray(op(x), float))), x.astype(LD), e * 10, f'flag-inverse:{name}', 'inverse')
    if fl.symmetric:
        g.bounded(c, M, M.T, e, f'flag-symmetric:{name}', 'A versus A^T')
    if fl.involutary and not fl.idempotent:
        g.bounded(c, M @ M, np.eye(n).astype(LD), e, f'flag-involutary:{name}')
    if fl.idempotent:
        g.bounded(c, M @ M, M, e, f'flag-idempotent:{name}')
    c.check(np.isfinite(M.astype(float)).all(), f'finite:{name}')


def run(ctx):
    ctx.each('adjoint', 1200, 30000, adjoint)
    ctx.each('algebra', 1200, 30000, algebra)
    ctx.each('inplace', 500, 10000, inplace)
    ctx.each('flags', 300, 6000, flags)
