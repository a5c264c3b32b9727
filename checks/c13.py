"""C13: operators of signals and spectra follow their definitions."""
import numpy as np
import scipy.constants

PROPERTY = 'C13'
RULE = 'outputs compared with the definitions evaluated in extended precision'
LD = np.longdouble


def spread(c, x):
    """An array in some layout whose last dimension is contiguous."""
    kind = c.choice(['c', 'c', 'wide'])
    if kind == 'wide' and x.ndim == 2:
        big = np.full((x.shape[0], x.shape[1] + 5), 7, x.dtype)
        k = c.int(0, 5)
        big[:, k:k + x.shape[1]] = x
        return big[:, k:k + x.shape[1]], big
    return x.copy(), None


def expo(x, tau):
    """Response: the past is forgotten exponentially, the signal was constant before its first sample."""
    x = x.astype(LD)
    out = x.copy()
    for i, t in enumerate(np.broadcast_to(tau, x.shape[0])):
        if t == 0:
            continue
        w = np.exp(-1 / LD(t))
        for j in range(1, x.shape[1]):
            out[i, j] = w * out[i, j - 1] + (1 - w) * x[i, j]
    return out


def expo_matrix(n, tau):
    m = np.zeros((n, n), LD)
    if tau == 0:
        return np.eye(n, dtype=LD)
    w = np.exp(-1 / LD(tau))
    for i in range(n):
        m[i, 0] = w ** i
        for j in range(1, i + 1):
            m[i, j] = (1 - w) * w ** (i - j)
    return m


def response(c):
    from pysimulators import ConvolutionTruncatedExponentialOperator as T
    from pysimulators import Quantity

    nd, nt = c.int(1, 6), c.choice([1, 2, 3, c.int(4, 80)])
    dt = np.dtype(c.choice(['f8', 'f8', 'f4']))
    single = c.coin(0.4)
    tau = np.round(c.rng.choice([0.05, 0.5, 1, 3, 20, 500], () if single else nd) * c.rng.uniform(0.5, 2, () if single else nd), 3)
    if c.coin(0.3):
        tau = np.where(c.rng.random(tau.shape) < 0.5, 0, tau)
    ints = c.coin(0.15)
    if ints:
        tau = np.ceil(tau)
    tau = tau.astype('i4' if ints else dt)
    form = c.choice(['array', 'list', 'quantity', 'ratio'])
    if ints or dt == 'f4':
        form = 'array'
    if form == 'array':
        arg = tau if tau.ndim else tau[()]
    elif form == 'list':
        arg = tau.tolist()
    elif form == 'quantity':
        arg = Quantity(tau)
    else:
        arg = Quantity(tau * 1000, 'ms') / Quantity(1, 's')
    xdt = dt if not ints else np.dtype('f8')
    one = single and c.coin(0.3)
    x = np.round(c.rng.uniform(-10, 10, (nd, nt)), 2).astype(xdt)
    if c.coin(0.2):
        x[...] = x[0, 0]
    if one:
        x = x[:1]
    c.note(nd=nd, nt=nt, dtype=xdt.str, tau=np.ravel(tau).tolist(), form=form, one=one)
    op = T(arg)
    want = expo(x, tau)
    eps = (2e-6 if xdt == 'f4' else 1e-13) * 60
    a, big = spread(c, x[0] if one else x)
    got = np.asarray(op(a))
    c.close(got, (want[0] if one else want).astype(float), 'response', rtol=0, atol=10 * eps, message='')
    c.equal(a, x[0] if one else x, 'response:operand')
    if big is not None:
        o, obig = spread(c, np.full(x.shape, 3, xdt))
        if not np.all(np.asarray(tau) == 0):
            op(a, o)
            c.close(o, want.astype(float), 'response:out', rtol=0, atol=10 * eps)
            if obig is not None:
                c.check((obig == 7).sum() >= obig.size - o.size, 'response:around', 'other elements have changed')
    y = np.round(c.rng.uniform(-10, 10, x.shape), 2).astype(xdt)
    b, _ = spread(c, y[0] if one else y)
    t = np.asarray(op.T(b))
    wt = np.array([expo_matrix(nt, v).T @ y[i].astype(LD) for i, v in enumerate(np.broadcast_to(tau, x.shape[0]))])
    c.close(t, (wt[0] if one else wt).astype(float), 'response:transpose', rtol=0, atol=10 * eps * (1 + float(np.max(tau))))
    c.equal(b, y[0] if one else y, 'response:transpose:operand')
    # a constant signal is not changed
    k = np.full(x.shape, 2.5, xdt)
    c.close(np.asarray(op(k[0] if one else k)), k[0] if one else k, 'response:constant', rtol=10 * eps)
    z = x.copy()[0] if one else x.copy()
    r = op(z, z)
    c.close(z, (want[0] if one else want).astype(float), 'response:inplace', rtol=0, atol=10 * eps)
    c.raises(ValueError, lambda: T(Quantity(1., 's')), 'response:unit')
    if np.ndim(tau) and nd > 1 and np.any(tau):
        c.raises(ValueError, lambda: op(np.zeros((nd + 1, nt), xdt)), 'response:number')


# ------------------------------------------------------------- black bodies
def planck(nu, t):
    x = scipy.constants.h * LD(nu) / (scipy.constants.k * np.asarray(t, LD))
    return LD(nu) ** 3 / np.expm1(x)


def blackbody(c):
    from pysimulators import BlackBodyOperator

    shape = c.choice([(), (), (1,), (c.int(1, 6),), (c.int(1, 3), c.int(1, 4))])
    t = np.round(np.exp(c.rng.uniform(np.log(3), np.log(6000), shape)), 2)
    cc = scipy.constants.c
    nu, nu0 = (float(f'{_:.4g}') for _ in np.exp(c.rng.uniform(np.log(1e9), np.log(1e13), 2)))
    if c.coin(0.15):
        nu0 = nu
    kw = {}
    if c.coin():
        kw['frequency'] = nu
    else:
        kw['wavelength'] = float(f'{cc / nu:.6g}')
        nu = cc / kw['wavelength']
    if c.coin():
        kw['frequency0'] = nu0
    else:
        kw['wavelength0'] = float(f'{cc / nu0:.6g}')
        nu0 = cc / kw['wavelength0']
    beta = 0
    if c.coin(0.6):
        beta = np.round(c.rng.uniform(-2, 3, shape if c.coin(0.3) else ()), 2)
        beta = beta if beta.ndim else c.choice([float, np.float64])(beta)
        kw['beta'] = beta.tolist() if np.ndim(beta) and c.coin() else beta
    arg = t if t.ndim else c.choice([float, np.float64, np.array])(t)
    if t.ndim and c.coin(0.3):
        arg = t.tolist()
    c.note(shape=shape, temperature=np.ravel(t).tolist(), **{k: np.ravel(v).tolist() for k, v in kw.items()})
    keep = np.array(arg)
    op = BlackBodyOperator(arg, **kw)
    c.equal(np.asarray(arg), keep, 'blackbody:operand')
    want = planck(nu, t) / planck(nu0, t) * (LD(nu) / LD(nu0)) ** np.asarray(beta, LD)
    xs = shape if shape else c.choice([(), (3,)])
    x = np.round(c.rng.uniform(-10, 10, xs), 3)
    got = np.asarray(op(x))
    c.close(got, np.asarray(want * x, float), 'blackbody', rtol=1e-10)
    c.close(np.asarray(op.T(x)), np.asarray(want * x, float), 'blackbody:transpose', rtol=1e-10)
    c.close(np.asarray(op.I(op(x))), x, 'blackbody:inverse', rtol=1e-10)
    c.close(np.asarray((2 * op)(x)), np.asarray(2 * want * x, float), 'blackbody:scaled', rtol=1e-10)
    # from one frequency to another one through a third one
    nu1 = float(f'{np.exp(c.rng.uniform(np.log(1e9), np.log(1e13))):.4g}')
    a = BlackBodyOperator(arg, frequency=nu, frequency0=nu1, beta=beta)
    b = BlackBodyOperator(arg, frequency=nu1, frequency0=nu0, beta=beta)
    c.close(np.asarray((a * b)(x)), np.asarray(want * x, float), 'blackbody:chain', rtol=1e-9)
    if nu == nu0:
        c.close(got, x, 'blackbody:reference', rtol=1e-12)
    B = BlackBodyOperator
    for bad in dict(frequency=1), dict(wavelength=1), dict(frequency0=1), dict(frequency=1, wavelength=1, frequency0=1), dict(frequency=1, frequency0=1, wavelength0=2), {}:
        c.raises(ValueError, lambda: B(10., **bad), 'blackbody:refused')
    for bad in dict(frequency=[1, 2], frequency0=1), dict(frequency=1, frequency0=[1, 2]), dict(wavelength=1, wavelength0=[1., 2.]):
        c.raises(TypeError, lambda: B(10., **bad), 'blackbody:scalar')


def powerlaw(c):
    from pyoperators import BlockColumnOperator, BlockDiagonalOperator, CompositionOperator, MultiplicationOperator
    from pysimulators import PowerLawOperator

    shape = c.choice([(), (), (1,), (c.int(1, 6),), (c.int(1, 3), c.int(1, 4))])
    alpha = np.round(c.rng.uniform(-3, 3, shape), 2)
    x, x0 = (float(f'{_:.4g}') for _ in np.exp(c.rng.uniform(-5, 5, 2)))
    if c.coin(0.1):
        x0 = x
    s = round(float(c.rng.uniform(-3, 3)), 2)
    kw = {'scalar': s} if c.coin() else {}
    s = kw.get('scalar', 1)
    arg = alpha.tolist() if c.coin(0.4) else alpha
    c.note(shape=shape, alpha=np.ravel(alpha).tolist(), x=x, x0=x0, scalar=s)
    op = PowerLawOperator(arg, x, x0, **kw)
    want = s * (LD(x) / LD(x0)) ** alpha.astype(LD)
    v = np.round(c.rng.uniform(-10, 10, shape if shape else c.choice([(), (4,)])), 3)
    res = np.asarray(want * v, float)
    keep = v.copy()
    c.close(np.asarray(op(v)), res, 'powerlaw', rtol=1e-11)
    c.equal(v, keep, 'powerlaw:operand')
    c.close(np.asarray(op.T(v)), res, 'powerlaw:transpose', rtol=1e-11)
    out = np.full(v.shape, np.nan)
    if v.ndim:
        op(v, out)
        c.close(out, res, 'powerlaw:out', rtol=1e-11)
        z = v.copy()
        op(z, z)
        c.close(z, res, 'powerlaw:inplace', rtol=1e-11)
    k = round(float(c.rng.uniform(-4, 4)), 2)
    for o in k * op, op * k, CompositionOperator([k, op]), CompositionOperator([op, k]), MultiplicationOperator([k, op]):
        c.close(np.asarray(o(v)), k * res, 'powerlaw:scaled', rtol=1e-11)
    c.close(np.asarray((k * (2 * op))(v)), 2 * k * res, 'powerlaw:scaled', rtol=1e-11)
    c.close(np.asarray(op(v)), res, 'powerlaw:again', rtol=1e-11)
    if len(shape) == 1 and shape[0] > 1:
        # blocks
        n = shape[0]
        cut = c.int(1, n - 1)
        d = np.round(c.rng.uniform(-2, 2, n), 2)
        from pyoperators import DiagonalOperator

        b = BlockDiagonalOperator([DiagonalOperator(d[:cut]), DiagonalOperator(d[cut:])], axisin=0)
        c.close(np.asarray((op * b)(v)), d * res, 'powerlaw:block', rtol=1e-10)
        c.close(np.asarray((b * op)(v)), d * res, 'powerlaw:block', rtol=1e-10)
    for bad in (1, [1, 2], 1), (1, 1, [1, 2]):
        c.raises(TypeError, lambda: PowerLawOperator(*bad), 'powerlaw:scalar')
    c.raises(TypeError, lambda: PowerLawOperator(1, 2, 3, scalar=[1, 2]), 'powerlaw:scalar')


def roll(c):
    from pysimulators import RollOperator

    nd = c.int(1, 4)
    shape = tuple(c.int(1, 5) for _ in range(nd))
    kind = c.choice(['one', 'axis', 'axes', 'several', 'defaults'])
    dt = c.choice(['f8', 'f4', 'i4', 'c16'])
    x = c.rng.integers(-9, 9, shape).astype(dt)
    if kind == 'one':
        args, want = (c.int(-7, 7),), None
        want = np.roll(x, args[0], axis=-1)
        back = np.roll(x, -args[0], axis=-1)
    elif kind == 'axis':
        n, a = c.int(-7, 7), c.int(-nd, nd - 1)
        args, want, back = (n, a), np.roll(x, n, axis=a), np.roll(x, -n, axis=a)
    elif kind == 'axes':
        n = c.int(-7, 7)
        a = tuple(int(_) for _ in c.rng.permutation(nd)[:c.int(1, nd)])
        args = n, c.choice([tuple, list])(a)
        want, back = np.roll(x, (n,) * len(a), axis=a), np.roll(x, (-n,) * len(a), axis=a)
    elif kind == 'several':
        a = tuple(int(_) - (nd if c.coin() else 0) for _ in c.rng.permutation(nd)[:c.int(1, nd)])
        n = tuple(c.int(-7, 7) for _ in a)
        args = c.choice([tuple, list])(n), a
        want, back = np.roll(x, n, axis=a), np.roll(x, tuple(-_ for _ in n), axis=a)
    else:
        k = c.int(1, nd)
        n = tuple(c.int(-7, 7) for _ in range(k))
        a = tuple(range(-k, 0))
        args = (n,)
        want, back = np.roll(x, n, axis=a), np.roll(x, tuple(-_ for _ in n), axis=a)
    c.note(shape=shape, args=[repr(_) for _ in args], dtype=dt)
    op = RollOperator(*args, dtype=np.dtype(dt))
    keep = x.copy()
    c.equal(np.asarray(op(x)), want, 'roll')
    c.equal(np.asarray(op.T(x)), back, 'roll:transpose')
    c.equal(x, keep, 'roll:operand')
    c.equal(np.asarray(op.T(op(x))), x, 'roll:back')
    c.equal(np.asarray((op.T * op)(x)), x, 'roll:product')
    out = np.zeros(shape[::-1], dt).T
    op(x, out)
    c.equal(out, want, 'roll:out')
    z = x.copy()
    op(z, z)
    c.equal(z, want, 'roll:inplace')
    c.raises(ValueError, lambda: RollOperator((1, 2), axis=(0,)), 'roll:refused')
    c.raises(ValueError, lambda: RollOperator((1,), axis=(0, 1)), 'roll:refused')


def partition(c):
    """Operators partitioned by the block_diagonal decorator."""
    from pyoperators import BlockDiagonalOperator, Operator, flags
    from pysimulators.operators import block_diagonal

    stack = c.coin()
    axis = c.int(0, 1)

    @block_diagonal('value', 'other', **({'new_axisin': axis} if stack else {'axisin': axis}))
    @flags.linear
    @flags.square
    @flags.separable
    class Op(Operator):
        def __init__(self, name, value, other=1., **keywords):
            Operator.__init__(self, dtype=float, **keywords)
            self.name, self.value, self.other = name, value, other

        def direct(self, input, output):
            np.multiply(input, self.value * self.other, output)

        def transpose(self, input, output):
            np.multiply(input, self.value * self.other, output)

    n = c.int(1, 4)
    value = np.round(c.rng.uniform(1, 5, n), 2)
    other = np.round(c.rng.uniform(1, 5, n), 2)
    which = c.choice(['value', 'other', 'both', 'partition'])
    args = ['x', value.tolist() if which in ('value', 'both') else 2.]
    kw = {'other': c.choice([list, tuple, np.array])(other.tolist())} if which in ('other', 'both') else {}
    f = (value if which in ('value', 'both') else 2.) * (other if which in ('other', 'both') else 1.) * np.ones(n)
    sizes = tuple(c.int(1, 3) for _ in range(n))
    explicit = which == 'partition' or c.coin()
    if explicit:
        kw['partitionin'] = n * (1,) if stack else sizes
    third = c.int(1, 3)
    if stack:
        shape = [third, c.int(1, 3)]
        shape.insert(axis, n)
    else:
        shape = [third, third]
        shape[axis] = sum(sizes)
    shape = tuple(shape)
    given = explicit and c.coin()
    if given:
        kw[c.choice(['shapein', 'shapeout'])] = shape
    c.note(stack=stack, axis=axis, n=n, which=which, sizes=sizes, explicit=explicit, shape=shape, given=given)
    op = Op(*args, **kw)
    c.check(all(_.name == 'x' for _ in op.operands) and [_.value * _.other for _ in op.operands] == (f.tolist()) if n > 1 else
            (op.name == 'x' and op.value * op.other == f[0]) if type(op) is not BlockDiagonalOperator else True,
            'partition:arguments', lambda: f'{op}')
    if n > 1 and not explicit and not stack:
        return
    if n == 1 and stack:
        # a single operator does not have the new dimension
        return
    x = np.round(c.rng.uniform(-5, 5, shape), 2)
    sh = [1, 1, 1] if stack else [1, 1]
    sh[axis] = n if stack else sum(sizes)
    d = (f if stack else np.repeat(f, sizes)).reshape(sh)
    c.close(np.asarray(op(x)), d * x, 'partition', rtol=1e-12)
    c.close(np.asarray(op.T(x)), d * x, 'partition:transpose', rtol=1e-12)
    if given and n > 1:
        c.check(op.shapein == shape, 'partition:shape', f'{op.shapein}')
    c.raises(ValueError, lambda: Op('x', [1, 2], other=[1, 2, 3]), 'partition:refused')
    c.raises(ValueError, lambda: Op('x', [1, 2], partitionin=(1, 1, 1)), 'partition:refused')
    c.raises(TypeError, lambda: block_diagonal('value'), 'partition:axis')
    c.raises(TypeError, lambda: block_diagonal('value', axisin=0, axis=1), 'partition:keyword')


def run(ctx):
    ctx.each('response', 200, 3000, response)
    ctx.each('blackbody', 120, 2000, blackbody)
    ctx.each('powerlaw', 120, 2000, powerlaw)
    ctx.each('roll', 120, 2000, roll)
    ctx.each('partition', 150, 2000, partition)
