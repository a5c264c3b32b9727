"""C17: quantities against a model made of a plain array and a dictionary of exponents."""
import copy
import pickle

import numpy as np

PROPERTY = 'C17'
RULE = 'magnitudes and units compared with those of a plain array and an independent unit table'
LD = np.longdouble

BASE = ('A', 'cd', 'K', 'kg', 'm', 'mol', 'rad', 's', 'sr')
DEG = LD(np.pi) / 180
JY = ({'kg': 1, 's': -2}, LD(1e-26))
TABLE = {
    **{b: ({b: 1}, LD(1)) for b in BASE},
    "'": ({'rad': 1}, DEG / 60), 'arcmin': ({'rad': 1}, DEG / 60),
    '"': ({'rad': 1}, DEG / 3600), 'arcsec': ({'rad': 1}, DEG / 3600), 'deg': ({'rad': 1}, DEG),
    'uJy': (JY[0], LD(1e-32)), 'mJy': (JY[0], LD(1e-29)), 'Jy': JY, 'MJy': (JY[0], LD(1e-20)),
    'N': ({'kg': 1, 'm': 1, 's': -2}, LD(1)), 'Hz': ({'s': -1}, LD(1)),
    'J': ({'kg': 1, 'm': 2, 's': -2}, LD(1)), 'W': ({'kg': 1, 'm': 2, 's': -3}, LD(1)),
    'AU': ({'m': 1}, LD(149597870700)), 'km': ({'m': 1}, LD(1000)), 'mm': ({'m': 1}, LD(1e-3)),
    'um': ({'m': 1}, LD(1e-6)), 'pc': ({'m': 1}, LD(30.857e15)),
    'Pa': ({'kg': 1, 'm': -1, 's': -2}, LD(1)), 'atm': ({'kg': 1, 'm': -1, 's': -2}, LD(101325)),
    'bar': ({'kg': 1, 'm': -1, 's': -2}, LD(100000)), 'mmHg': ({'kg': 1, 'm': -1, 's': -2}, LD(101325) / 760),
    'cmHg': ({'kg': 1, 'm': -1, 's': -2}, LD(101325) / 76), 'Torr': ({'kg': 1, 'm': -1, 's': -2}, LD(101325) / 760),
    'Ohm': ({'kg': 1, 'm': 2, 's': -3, 'A': -2}, LD(1)), 'V': ({'kg': 1, 'm': 2, 's': -3, 'A': -1}, LD(1)),
    'C': ({'A': 1, 's': 1}, LD(1)), 'ms': ({'s': 1}, LD(1e-3)), 'us': ({'s': 1}, LD(1e-6)),
}
FAMILIES = [
    ['m', 'km', 'mm', 'um', 'AU', 'pc'], ['s', 'ms', 'us'], ['Pa', 'bar', 'atm', 'mmHg', 'cmHg', 'Torr'],
    ['Jy', 'mJy', 'uJy', 'MJy'], ['rad', 'deg', 'arcmin', 'arcsec', "'", '"'], ['K'], ['?'], ['detector'], ['V'], ['A'],
]


def clean(u):
    return {k: v for k, v in u.items() if abs(v) > 1e-12}


def umul(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return clean(r)


def upow(a, p):
    return clean({k: v * p for k, v in a.items()})


def usame(a, b):
    a, b = clean(a), clean(b)
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-9 for k in a)


def si(u, table=None):
    """(dimensions, factor) of a unit; the pairs of angles are solid angles."""
    dims, fac = {}, LD(1)
    for k, v in u.items():
        d, f = (table or {}).get(k) or TABLE.get(k) or ({k: 1}, LD(1))
        dims = umul(dims, upow(d, v))
        fac = fac * f ** LD(v)
    if abs(dims.get('rad', 0)) == 2:
        s = dims.pop('rad') / 2
        dims = umul(dims, {'sr': s})
    return clean(dims), fac


def conv(u, v):
    """Factor from the unit u to the unit v; None if there is none. A missing unit converts to any."""
    if not u or not v or usame(u, v):
        return LD(1)
    (du, fu), (dv, fv) = si(u), si(v)
    return fu / fv if usame(du, dv) else None


def unit_of(c, n=None, angles=True):
    """A random unit: at most one family of angles, so that their conversion to solid angles is defined."""
    u = {}
    for _ in range(c.int(0, 3) if n is None else n):
        fam = c.choice(range(len(FAMILIES)))
        if fam == 4 and not angles:
            continue
        if any(k in FAMILIES[4] for k in u) and fam == 4:
            continue
        p = c.choice([1, 2, -1, -2, 3, 0.5, -1.5], p=[0.4, 0.15, 0.2, 0.1, 0.05, 0.05, 0.05])
        if fam == 4:
            if c.coin(0.2):
                a, b = c.choice(FAMILIES[4][:4]), c.choice(FAMILIES[4][:4])
                s = c.choice([1, -1])
                u = umul(u, umul({a: s}, {b: s}))
                continue
            p = c.choice([1, -1, 2, -2])
        u = umul(u, {c.choice(FAMILIES[fam]): p})
    return u


def equivalent(c, u):
    """A unit of same dimensions, with other members of the families."""
    r = {}
    for k, v in u.items():
        fam = next((f for f in FAMILIES if k in f), [k])
        r = umul(r, {c.choice(fam): v})
    if c.coin(0.2):
        for k, v in list(r.items()):
            if k == 'Jy' and v == 1:
                del r[k]
                r = umul(r, {'W': 1, 'Hz': -1, 'm': -2})
            elif k == 'V' and v == 1:
                del r[k]
                r = umul(r, {'Ohm': 1, 'A': 1})
            elif k == 'Pa' and v == 1:
                del r[k]
                r = umul(r, {'N': 1, 'm': -2})
    return r


def fmt(v):
    return str(int(v)) if v == int(v) else repr(float(v))


def text(c, u):
    """One of the notations of a unit."""
    parts = []
    items = list(u.items())
    c.rng.shuffle(items)
    for i, (k, v) in enumerate(items):
        v = float(v)
        style = c.choice(['pow', 'div'])
        if v < 0 and style == 'div':
            s = '/' + c.choice(['', ' ']) + k + ('' if v == -1 and c.coin(0.7) else '^' + fmt(-v))
        else:
            s = (c.choice(['', '* ', '*']) if i else '') + k + ('' if v == 1 and c.coin(0.7) else '^' + fmt(v))
        parts.append(s)
    return c.choice(['', ' ']) + ' '.join(parts) + c.choice(['', ' '])


def mag_of(c, shape, dt='f8', positive=False):
    a = c.rng.uniform(0.5, 9, shape) if positive else c.rng.normal(0, 4, shape)
    a = np.asarray(a)
    if dt == 'c16':
        a = a + 1j * c.rng.normal(0, 3, shape)
    if dt[0] == 'i':
        a = np.rint(a)
    return np.asarray(a).astype(dt)


def shape_of(c):
    return tuple(c.int(1, 4) for _ in range(c.choice([0, 1, 1, 2, 2, 3])))


def Q(mag, u, c=None):
    from pysimulators import Quantity

    if c is not None and c.coin(0.3):
        return Quantity(mag, dict(u))
    return Quantity(mag, ' '.join(f'{k}^{fmt(v)}' for k, v in u.items()))


def same(c, got, mag, u, key, rtol=1e-10, cls=True):
    from pysimulators import Quantity

    if cls and not c.check(isinstance(got, Quantity), key + ':type', lambda: f'{type(got).__name__} for unit {u}'):
        return
    if isinstance(got, Quantity):
        c.check(usame(got._unit, u), key + ':unit', lambda: f'{got.unit!r} instead of {u}')
    scale = float(np.max(np.abs(mag))) if np.size(mag) and np.isfinite(mag).all() else None
    c.close(np.asarray(got), mag, key, rtol=rtol, scale=scale)


def snapshot():
    from pysimulators import units

    return {
        k: (v if v is None or callable(v) else (np.asarray(v).tolist(), dict(v._unit), dict(v._derived_units)))
        for k, v in units.items()
    }


# ------------------------------------------------------------------ notation
def notation(c):
    from pysimulators import Quantity

    u = unit_of(c)
    s = text(c, u)
    c.note(text=s)
    q = Quantity(3.5, s)
    c.check(usame(q._unit, u), 'parse', lambda: f'{s!r} -> {q._unit} instead of {u}')
    back = Quantity(3.5, q.unit)
    c.check(usame(back._unit, u), 'format', lambda: f'{q.unit!r} -> {back._unit} instead of {u}')
    c.check(str(q) == ('3.5 ' + q.unit if u else '3.5'), 'str', str(q))
    c.check(repr(q) == f"Quantity(3.5, '{q.unit}')", 'repr', repr(q))
    q2 = Quantity(3.5)
    q2.unit = s
    c.check(usame(q2._unit, u), 'unit setter')
    for bad in ('m^', '/', 'm//s', '3m', 'm^a', 'm + s'):
        if c.coin(0.3):
            c.raises(ValueError, lambda: Quantity(1, bad), 'refused:notation', bad)
    if c.coin(0.3):
        c.raises(TypeError, lambda: Quantity(1, 3), 'refused:type')


def conversion(c):
    from pysimulators import Quantity, UnitError

    u = unit_of(c)
    v = equivalent(c, u)
    shape = shape_of(c)
    dt = c.choice(['f8', 'c16', 'f4', 'i8'])
    mag = mag_of(c, shape, dt)
    c.note(unit=str(u), to=str(v), shape=shape, dtype=dt)
    before = snapshot()
    q = Q(mag, u, c)
    want = mag.astype(float) if dt == 'i8' else mag
    c.check(q.dtype == want.dtype, 'dtype', str(q.dtype))
    rtol = 1e-5 if dt == 'f4' else 1e-9
    f = conv(u, v)
    assert f is not None
    f = float(f) if v else 1.0
    if dt == 'f4' and not 1e-25 < f < 1e25:
        from harness.core import Skip
        raise Skip
    tgt = text(c, v)
    r = q.tounit(tgt)
    same(c, r, want * f, v, 'tounit', rtol)
    same(c, q, want, u, 'tounit:operand unchanged', 0)
    c.check(not np.shares_memory(r, q), 'tounit:copy')
    r.inunit(dict(u) if c.coin(0.3) else ' '.join(f'{k}^{fmt(p)}' for k, p in u.items()))
    same(c, r, want, u, 'roundtrip', rtol)
    s = q.SI
    dims, fac = si(u)
    same(c, s, want.astype(complex if want.dtype.kind == 'c' else float) * float(fac), dims, 'SI', rtol)
    same(c, q, want, u, 'SI:operand unchanged', 0)
    same(c, s.SI, np.asarray(s), dims, 'SI:idempotent', rtol)
    q2 = q.copy()
    alias = q2
    q2.inunit(tgt)
    same(c, alias, want * f, v, 'inunit', rtol)
    # refused conversion
    w = umul(v, {c.choice(['mol', 'cd', 'wombat']): 1})
    if u:
        keep = q.copy()
        c.raises(UnitError, lambda: q.tounit(text(c, w)), 'refused:incompatible', f'{u} to {w}')
        c.raises(UnitError, lambda: q.inunit(text(c, w)), 'refused:incompatible', f'{u} to {w}')
        same(c, q, np.asarray(keep), u, 'refused:unchanged', 0)
    # a missing unit adopts any unit
    n = Quantity(mag)
    same(c, n.tounit(tgt), want, v, 'adopted', 0)
    same(c, q.tounit(''), want, {}, 'removed', 0)
    c.check(snapshot() == before, 'unit table unchanged')


# -------------------------------------------------------------------- ufuncs
HOMOGENEOUS = ['add', 'subtract', 'maximum', 'minimum', 'fmax', 'fmin', 'fmod', 'remainder', 'hypot']
COMPARISON = ['equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'arctan2']
PRODUCT = {'multiply': 1, 'true_divide': -1}
UNARY = {
    'absolute': 1, 'negative': 1, 'positive': 1, 'fabs': 1, 'ceil': 1, 'floor': 1, 'rint': 1, 'trunc': 1, 'conjugate': 1,
    'sqrt': 0.5, 'square': 2, 'cbrt': 1 / 3, 'reciprocal': -1,
}
OPERATORS = {'add': '+', 'subtract': '-', 'multiply': '*', 'true_divide': '/', 'remainder': '%', 'equal': '==',
             'not_equal': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}


def broadcastable(c, shape):
    s = list(shape)
    for i in range(len(s)):
        if c.coin(0.2):
            s[i] = 1
    return tuple(s[c.int(0, len(s)):] if c.coin(0.2) else s)


def operand(c, shape, u, dt, positive):
    """(value given to the package, plain magnitude, unit)"""
    mag = mag_of(c, shape, dt, positive)
    if not u and c.coin(0.6):
        return (mag.item() if mag.ndim == 0 and c.coin() else mag), mag, {}
    if c.coin(0.15) and mag.ndim:
        big = np.zeros(tuple(2 * n for n in shape), dt)
        big[tuple(slice(None, None, 2) for _ in shape)] = mag
        q = Q(big, u)[tuple(slice(None, None, 2) for _ in shape)]
        return q, mag, u
    return Q(mag, u, c), mag, u


def ufuncs(c):
    from pysimulators import Quantity, UnitError

    kind = c.choice(['homogeneous', 'comparison', 'product', 'power', 'unary', 'matmul', 'clip', 'copysign'],
                    p=[0.25, 0.15, 0.2, 0.08, 0.17, 0.05, 0.05, 0.05])
    before = snapshot()
    shape = shape_of(c)
    u = unit_of(c) if c.coin(0.85) else {}
    dt = c.choice(['f8', 'f8', 'c16'])
    if kind in ('comparison', 'clip', 'copysign', 'homogeneous', 'power'):
        dt = 'f8'
    out = c.choice(['none', 'none', 'quantity', 'array', 'first'])
    form = c.choice(['ufunc', 'operator'])
    incompatible = False
    if kind == 'unary':
        name = c.choice(list(UNARY))
        if dt == 'c16' and name in ('fabs', 'ceil', 'floor', 'trunc', 'cbrt', 'rint'):
            dt = 'f8'
        args = [operand(c, shape, u, dt, True)]
        if not isinstance(args[0][0], Quantity):
            args[0] = (Quantity(args[0][1]), args[0][1], {})
        func = getattr(np, name)
        want = func(args[0][1])
        unit = upow(args[0][2], UNARY[name])
        if form == 'operator' and name in ('absolute', 'negative', 'positive'):
            expr = {'absolute': lambda x: abs(x), 'negative': lambda x: -x, 'positive': lambda x: +x}[name]
        else:
            expr, form = func, 'ufunc'
    elif kind == 'matmul':
        n, m, k = c.int(1, 4), c.int(1, 4), c.int(1, 4)
        name = 'matmul'
        v = unit_of(c)
        args = [operand(c, (n, m), u, dt, False), operand(c, (m, k), v, dt, False)]
        if not any(isinstance(a[0], Quantity) for a in args):
            args[0] = (Quantity(args[0][1]), args[0][1], {})
        func = np.matmul
        want = args[0][1] @ args[1][1]
        unit = umul(args[0][2], args[1][2])
        expr = (lambda a, b: a @ b) if form == 'operator' else func
    elif kind == 'power':
        name = c.choice(['power', 'float_power'])
        p = c.choice([0, 1, 2, 3, -1, -2, 0.5, 1.5])
        args = [operand(c, shape, u, dt, True)]
        if not isinstance(args[0][0], Quantity):
            args[0] = (Quantity(args[0][1]), args[0][1], {})
        func = getattr(np, name)
        want = func(args[0][1], p)
        unit = upow(args[0][2], p)
        pw = Quantity(float(p)) if c.coin(0.2) else p
        expr = (lambda a: a ** pw) if form == 'operator' and name == 'power' else (lambda a, **k: func(a, pw, **k))
        if name == 'float_power':
            form = 'ufunc'
    else:
        v = equivalent(c, u) if kind != 'product' else unit_of(c)
        if kind in ('homogeneous', 'comparison', 'clip') and c.coin(0.15):
            v = {}
        if kind in ('homogeneous', 'comparison') and u and v and c.coin(0.15):
            v = umul(v, {'wombat': 1})
            incompatible = True
        sh2 = broadcastable(c, shape)
        positive = kind == 'homogeneous'
        args = [operand(c, shape, u, dt, positive), operand(c, sh2, v, dt, positive)]
        if kind == 'clip':
            third = operand(c, sh2, equivalent(c, u), dt, positive)
            args.append(third)
        if not any(isinstance(a[0], Quantity) for a in args):
            args[0] = (Quantity(args[0][1]), args[0][1], {})
        if c.coin(0.4) and kind in ('homogeneous', 'comparison', 'product', 'copysign'):
            args = args[::-1]
        if kind == 'product':
            name = c.choice(list(PRODUCT))
            func = getattr(np, name)
            want = func(args[0][1], args[1][1])
            unit = umul(args[0][2], args[1][2], PRODUCT[name])
        elif kind == 'copysign':
            name = 'copysign'
            func = np.copysign
            want = func(args[0][1], args[1][1])
            unit = args[0][2]
            form = 'ufunc'
        else:
            name = 'clip' if kind == 'clip' else c.choice(HOMOGENEOUS if kind == 'homogeneous' else COMPARISON)
            func = getattr(np, name)
            unit = next((a[2] for a in args if a[2]), {})
            if not incompatible:
                mags = [a[1] * float(conv(a[2], unit)) for a in args]
                if kind == 'clip':
                    lo, hi = np.minimum(mags[1], mags[2]), np.maximum(mags[1], mags[2])
                want = func(*mags)
                # decisions that hang on the rounding of the conversion are not judged
                if name in ('fmod', 'remainder'):
                    x, y = np.broadcast_arrays(*mags)
                    r = x / y
                    if (np.abs(r - np.rint(r)) < 1e-6).any() or np.abs(r).max() > 1e3:
                        from harness.core import Skip
                        raise Skip
                if kind == 'comparison' and name != 'arctan2':
                    x, y = np.broadcast_arrays(*mags)
                    if (np.abs(x - y) < 1e-9 * np.abs(x)).any():
                        from harness.core import Skip
                        raise Skip
        if form == 'operator' and name in OPERATORS:
            expr = eval(f'lambda a, b: a {OPERATORS[name]} b')
        else:
            expr, form = func, 'ufunc'
    c.note(ufunc=name, units=[str(a[2]) for a in args], shapes=[np.shape(a[1]) for a in args], dtype=dt, out=out, form=form,
           types=[type(a[0]).__name__ for a in args], incompatible=incompatible)
    given = [a[0] for a in args]
    if incompatible:
        keep = [np.array(x) for x in given]
        c.raises(UnitError, lambda: expr(*given), f'refused:{name}', f'{[a[2] for a in args]}')
        for g_, k, a in zip(given, keep, args):
            if isinstance(g_, Quantity):
                same(c, g_, k, a[2], 'refused:operand unchanged', 0)
        return
    if kind == 'comparison':
        cls = False
        if name != 'arctan2':
            want = np.asarray(want, bool)
    else:
        cls = True
    want = np.asarray(want)
    hasq = any(a[2] for a in args)
    if form == 'operator' or out == 'none':
        got = expr(*given)
    elif out == 'first' and isinstance(given[0], Quantity) and np.shape(given[0]) == want.shape and given[0].dtype == want.dtype \
            and kind in ('homogeneous', 'product', 'unary', 'power', 'copysign'):
        alias = given[0]
        got = expr(*given, out=given[0])
        same(c, alias, want, unit, f'inplace:{name}')
        c.check(got is alias, 'inplace:object')
        args = args[1:]
        given = given[1:]
    else:
        o = np.full(want.shape, 3, want.dtype)
        if out == 'quantity' and kind != 'comparison':
            o = Q(o, {'W': 1}) if hasq else Quantity(o)
        got = expr(*given, out=o)
        c.close(np.asarray(o), want, f'out:{name}', rtol=1e-10, scale=float(np.abs(want).max()) if want.size else None)
        c.check(np.shares_memory(np.asarray(got), np.asarray(o)), 'out:memory')
        if isinstance(o, Quantity):
            c.check(usame(o._unit, unit), f'out unit:{name}', lambda: f'{o.unit!r} instead of {unit}')
    if name == 'arctan2' or kind != 'comparison':
        same(c, got, want, unit, f'ufunc:{name}', cls=cls)
    else:
        c.equal(np.asarray(got), want, f'ufunc:{name}')
    if name == 'arctan2' and isinstance(got, Quantity):
        c.check(not got._unit, 'arctan2:unitless', got.unit)
    for g_, a in zip(given, args):
        if isinstance(g_, Quantity):
            same(c, g_, a[1], a[2], 'operand unchanged', 0)
    c.check(snapshot() == before, 'unit table unchanged')


def division(c):
    """Floor division, remainder and divmod."""
    from pysimulators import Quantity

    u = unit_of(c)
    how = c.choice(['same', 'equivalent', 'equivalent', 'divisor without unit', 'dividend without unit', 'incompatible'])
    if not u:
        how = 'same'
    v = {'same': u, 'divisor without unit': {}, 'dividend without unit': u, 'incompatible': umul(u, {'wombat': 1})}.get(how)
    if v is None:
        v = equivalent(c, u)
    if how == 'dividend without unit':
        u = {}
    shape = shape_of(c)
    a = operand(c, shape, u, 'f8', True)
    b = operand(c, broadcastable(c, shape), v, 'f8', True)
    if not any(isinstance(x[0], Quantity) for x in (a, b)):
        a = (Quantity(a[1]), a[1], {})
    x, y = a[1], b[1]
    unit = umul(u, v, -1)
    if how in ('same', 'equivalent'):
        y = y * float(conv(v, u))
        unit = {}
    bx, by = np.broadcast_arrays(x, y)
    r = bx / by
    if (np.abs(r - np.rint(r)) < 1e-6).any() or (np.abs(r) > 1e3).any():
        from harness.core import Skip
        raise Skip
    name = c.choice(['floor_divide', '//', 'divmod', 'builtin'])
    if how == 'incompatible' and name in ('divmod', 'builtin'):
        name = '//'
    c.note(how=how, units=[str(u), str(v)], shape=shape, name=name, types=[type(a[0]).__name__, type(b[0]).__name__])
    func = {'floor_divide': np.floor_divide, '//': lambda a, b: a // b, 'divmod': np.divmod, 'builtin': divmod}[name]
    got = func(a[0], b[0])
    if name in ('divmod', 'builtin'):
        c.check(isinstance(got, tuple) and len(got) == 2, 'divmod')
        got, rem = got
        same(c, rem, np.remainder(bx, by), u or v, 'divmod:remainder')
    same(c, got, np.floor(r), unit, 'floor division')
    for g_, k in (a[0], a), (b[0], b):
        if isinstance(g_, Quantity):
            same(c, g_, k[1], k[2], 'operand unchanged', 0)


# ----------------------------------------------------------------- functions
def axis_kw(c, ndim):
    return {'axis': c.int(-ndim, ndim - 1)} if ndim and c.coin(0.7) else {}


# functions of one quantity: name -> (power of the unit, arguments)
SINGLE = {
    **{n: (1, 'axis') for n in ('amax', 'amin', 'max', 'min', 'mean', 'median', 'sum', 'std', 'ptp', 'nanmax', 'nanmin',
                                'nanmean', 'nanmedian', 'nansum', 'nanstd', 'cumsum', 'nancumsum', 'flip', 'sort', 'average')},
    **{n: (2, 'axis') for n in ('var', 'nanvar')},
    **{n: (1, 'none') for n in ('around', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'copy', 'fix', 'imag', 'real', 'nan_to_num',
                                'ravel', 'real_if_close', 'squeeze', 'transpose', 'diagflat', 'unique', 'sort_complex', 'round')},
    **{n: (1, '2d') for n in ('diag', 'diagonal', 'fliplr', 'flipud', 'rot90', 'trace', 'swapaxes', 'moveaxis', 'rollaxis')},
    **{n: (1, 'special') for n in ('broadcast_to', 'compress', 'delete', 'diff', 'expand_dims', 'extract', 'pad', 'partition',
                                   'repeat', 'reshape', 'resize', 'roll', 'take', 'take_along_axis', 'tile', 'trim_zeros', 'unwrap',
                                   'prod', 'nanprod', 'cov', 'average_weights')},
    **{n: (1, 'split') for n in ('array_split', 'split', 'hsplit', 'vsplit', 'unstack')},
}
JOIN = ['append', 'column_stack', 'concatenate', 'dstack', 'hstack', 'stack', 'vstack', 'where', 'insert', 'choose', 'select',
        'intersect1d', 'union1d', 'setdiff1d', 'setxor1d', 'fill_diagonal']
MULTIPLY = ['convolve', 'correlate', 'cross', 'dot', 'einsum', 'inner', 'kron', 'outer', 'tensordot', 'vdot']


def single(c):
    from pysimulators import Quantity

    name = c.choice(list(SINGLE))
    p, args = SINGLE[name]
    ndim = {'2d': 2, 'split': 2}.get(args, None)
    shape = tuple(c.int(2, 5) for _ in range(ndim if ndim is not None else c.choice([1, 2, 3])))
    if name in ('unwrap', 'cov', 'trim_zeros', 'diagflat', 'sort_complex'):
        shape = shape[:1]
    u = unit_of(c) if c.coin(0.9) else {}
    mag = mag_of(c, shape, 'f8')
    q = Q(mag, u, c)
    kw, pos = {}, ()
    kwname = {'atleast_1d': None, 'atleast_2d': None, 'atleast_3d': None, 'real': 'val', 'imag': 'val', 'fix': 'x', 'nan_to_num': 'x',
              'diag': 'v', 'diagflat': 'v', 'flip': 'm', 'fliplr': 'm', 'flipud': 'm', 'rot90': 'm', 'unique': 'ar',
              'array_split': 'ary', 'split': 'ary', 'hsplit': 'ary', 'vsplit': 'ary', 'unstack': 'x', 'broadcast_to': 'array', 'delete': 'arr',
              'pad': 'array', 'take_along_axis': 'arr', 'tile': 'A', 'trim_zeros': 'filt', 'unwrap': 'p', 'cov': 'm', 'compress': None, 'extract': None}
    first = True
    if args == 'axis':
        kw = axis_kw(c, len(shape))
        if name in ('var', 'std', 'nanvar', 'nanstd') and c.coin():
            kw['ddof'] = 1
    n = shape[0]
    extra = {
        'swapaxes': (0, 1), 'moveaxis': (0, 1), 'rollaxis': (1,), 'reshape': ((-1,),), 'resize': ((n + 1, 2),), 'roll': (c.int(-3, 3),),
        'take': (np.array([0, n - 1, 0]),), 'repeat': (c.int(0, 3),), 'tile': (2,), 'pad': (1,), 'partition': (0,), 'expand_dims': (c.int(0, 1),),
        'broadcast_to': ((2, *shape),), 'delete': (c.int(0, n - 1),), 'diff': (), 'array_split': (3,), 'split': (n,), 'hsplit': (shape[-1],),
        'vsplit': (n,),
    }
    pos = extra.get(name, ())
    if name in ('delete', 'take', 'repeat', 'diff') and c.coin(0.7):
        kw['axis'] = 0
    if name == 'pad':
        kw['mode'] = c.choice(['edge', 'constant', 'wrap'])
    func = getattr(np, 'average' if name == 'average_weights' else name)
    if name in ('compress', 'extract'):
        cond = c.rng.random(shape[0] if name == 'compress' else shape) < 0.5
        call = lambda x: func(cond, x, **({'axis': 0} if name == 'compress' else {}))
    elif name == 'take_along_axis':
        idx = np.argsort(mag, axis=0)
        call = lambda x: func(x, idx, 0)
    elif name == 'average_weights':
        w = c.rng.uniform(1, 2, shape)
        wq = Q(w, unit_of(c)) if c.coin() else w
        ret = c.coin()
        call = lambda x: func(x, weights=wq if isinstance(x, Quantity) else w, **({'returned': True} if ret else {}))
    elif name in ('prod', 'nanprod'):
        kw = axis_kw(c, len(shape))
        if len(shape) > 1 and c.coin(0.3):
            kw = {'axis': tuple(int(_) for _ in c.rng.permutation(len(shape))[:c.int(1, len(shape))])}
        count = mag.size if 'axis' not in kw else int(np.prod(np.asarray(shape)[np.asarray(kw['axis'])]))
        if c.coin(0.2):
            kw['keepdims'] = True
        p = count
        call = lambda x: func(x, **kw)
    elif name == 'unique':
        counts = c.coin()
        call = lambda x: func(x, return_counts=True)[0] if counts else func(x)
    elif name == 'cov':
        p = 2
        two = c.coin()
        call = lambda x: func(np.stack([x, x * 2])) if two else func(x)
    elif c.coin(0.25) and kwname.get(name, 'a') is not None and not pos:
        kn = kwname.get(name, 'a')
        first = False
        call = lambda x: func(**{kn: x}, **kw)
    else:
        call = lambda x: func(x, *pos, **kw)
    c.note(func=name, unit=str(u), shape=shape, keywords=str(kw), keyword_called=not first)
    before = snapshot()
    try:
        want = call(mag)
    except (TypeError, AttributeError):
        from harness.core import Skip
        raise Skip
    got = call(q)
    if name == 'average_weights' and ret:
        c.close(np.asarray(got[1]), want[1], 'function:average weights')
        got, want = got[0], want[0]
    unit = upow(u, p)
    if args == 'split':
        c.check(len(got) == len(want), 'function:number')
        for g_, w_ in zip(got, want):
            same(c, g_, w_, unit, f'function:{name}')
    else:
        same(c, got, np.asarray(want), unit, f'function:{name}')
    same(c, q, mag, u, 'operand unchanged', 0)
    # methods give what functions give
    meth = getattr(q, name, None) if args == 'axis' and name not in ('flip', 'average', 'amax', 'amin', 'ptp', 'sort', 'median') else None
    if meth is not None and not name.startswith('nan'):
        m = meth(**kw)
        if isinstance(m, Quantity):
            same(c, m, np.asarray(want), unit, f'method:{name}')
        else:
            c.close(m, want, f'method:{name}')
        if np.ndim(want) and c.coin() and name not in ('cumsum',):
            o = Q(np.zeros(np.shape(want)), {'W': 1})
            r = func(q, out=o, **kw)
            if u:
                same(c, o, want, unit, f'function out:{name}')
            c.check(r is o, 'function out:object', type(r).__name__)
    c.check(snapshot() == before, 'unit table unchanged')


def join(c):
    from pysimulators import Quantity, UnitError

    name = c.choice(JOIN)
    u = unit_of(c)
    v = equivalent(c, u)
    w = equivalent(c, u)
    missing = c.coin(0.2)
    if missing:
        v = {}
    shape = (c.int(2, 4), c.int(2, 4)) if name not in ('column_stack', 'intersect1d', 'union1d', 'setdiff1d', 'setxor1d', 'choose', 'select') else (c.int(2, 5),)
    a, b, d = (mag_of(c, shape) for _ in range(3))
    incompatible = bool(u) and bool(v) and c.coin(0.15)
    if incompatible:
        v = umul(v, {'wombat': 1})
    common = u or v
    c.note(func=name, units=[str(u), str(v), str(w)], shape=shape, incompatible=incompatible)
    qa, qb, qd = Q(a, u, c), (Q(b, v, c) if v or c.coin() else b), Q(d, w, c)
    n = shape[0]
    cond = c.rng.random(shape) < 0.5
    idx = c.rng.integers(0, 2, shape)
    kwcall = c.coin(0.2)
    three = name in ('concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack') and c.coin()
    if three and not u:
        three = False

    def call(x, y, z):
        s = [x, y, z] if three else [x, y]
        if c_tuple:
            s = tuple(s)
        if name == 'append':
            return np.append(arr=x, values=y, axis=0) if kwcall else np.append(x, y, axis=0)
        if name in ('concatenate', 'stack'):
            return getattr(np, name)(s, axis=ax)
        if name in ('column_stack', 'dstack', 'hstack', 'vstack'):
            return getattr(np, name)(s)
        if name == 'where':
            return np.where(cond, x, y)
        if name == 'insert':
            return np.insert(x, 1, y[0], axis=0)
        if name == 'choose':
            return np.choose(idx, s[:2])
        if name == 'select':
            return np.select([cond, ~cond], s[:2])
        if name == 'fill_diagonal':
            r = x.copy()
            np.fill_diagonal(r, y[0, 0] if not isinstance(y, Quantity) else Quantity(y.magnitude[0, 0], y.unit))
            return r
        return getattr(np, name)(x, y)

    c_tuple = c.coin()
    ax = c.int(0, len(shape) - 1)
    if name in ('intersect1d', 'setdiff1d', 'setxor1d') and not incompatible:
        # values equal up to the rounding of the conversion are not comparable: make them exact or distinct
        qb, v = Q(b, u, c), u
        qb = np.where(cond, qa, qb)
        b = np.where(cond, a, b)
    if incompatible:
        c.raises(UnitError, lambda: call(qa, qb, qd), f'refused:{name}', f'{u} {v}')
        same(c, qa, a, u, 'refused:operand unchanged', 0)
        return
    fb = float(conv(v, common)) if v else 1.0
    fd = float(conv(w, common)) if w else 1.0
    want = call(a, b * fb, d * fd)
    got = call(qa, qb, qd)
    same(c, got, np.asarray(want), common if name != 'fill_diagonal' else u, f'function:{name}')
    same(c, qa, a, u, 'operand unchanged', 0)


def compare(c):
    """Percentiles, covariances, comparisons and functions of several quantities."""
    from pysimulators import Quantity, UnitError

    u = unit_of(c)
    v = equivalent(c, u)
    name = c.choice(['percentile', 'quantile', 'nanpercentile', 'nanquantile', 'cov', 'atleast', 'atleast', 'indices', 'searchsorted',
                     'digitize', 'isin', 'array_equal', 'array_equiv'])
    c.note(func=name, units=[str(u), str(v)])
    before = snapshot()
    if 'quantile' in name or 'percentile' in name:
        shape = tuple(c.int(1, 5) for _ in range(c.int(1, 3)))
        mag = mag_of(c, shape)
        kw = axis_kw(c, len(shape))
        if c.coin(0.3):
            kw['keepdims'] = True
        f = c.choice([0, 0.5, 1, [0.1, 0.7], np.array([0.2])])
        f = np.multiply(f, 100 if 'percentile' in name else 1)
        func = getattr(np, name)
        want = func(mag, f, **kw)
        q = Q(mag, u, c)
        got = func(q, q=f, **kw) if c.coin() else func(q, f, **kw)
        same(c, got, np.asarray(want), u, f'function:{name}')
        if np.ndim(want):
            o = Q(np.zeros(np.shape(want)), {'W': 1})
            c.check(func(q, f, out=o, **kw) is o, f'function out:{name}')
            if u:
                same(c, o, want, u, f'function out:{name}')
        same(c, q, mag, u, 'operand unchanged', 0)
    elif name == 'atleast':
        k = c.int(1, 3)
        func = getattr(np, f'atleast_{k}d')
        mags = [mag_of(c, tuple(c.int(1, 3) for _ in range(c.int(0, 3)))) for _ in range(c.int(1, 3))]
        units = [u, v, {}][:len(mags)]
        args = [Q(m, w, c) for m, w in zip(mags, units)]
        got = func(*args)
        if len(args) == 1:
            got = [got]
        c.check(len(got) == len(args), 'function:atleast:number')
        for g, m, w, x in zip(got, mags, units, args):
            same(c, g, func(m), w, 'function:atleast')
            same(c, x, m, w, 'operand unchanged', 0)
    elif name == 'cov':
        n = c.int(3, 6)
        a, b = mag_of(c, (n,)), mag_of(c, (n,))
        w = c.choice([v, v, {}]) if u else v
        qa, qb = Q(a, u, c), (Q(b, w, c) if w else b)
        common = u or w
        f = float(conv(w, common)) if w else 1.0
        same(c, np.cov(qa, qb), np.cov(a, b * f), upow(common, 2), 'function:cov')
        same(c, np.cov(m=qa, y=qb), np.cov(a, b * f), upow(common, 2), 'function:cov')
        if u:
            bad = Q(b, umul(v, {'wombat': 1}), c)
            c.raises(UnitError, lambda: np.cov(qa, bad), 'refused:cov')
    elif name == 'indices':
        a, b = c.rng.integers(0, 6, c.int(1, 6)).astype(float), c.rng.integers(0, 6, c.int(1, 6)).astype(float)
        want = np.intersect1d(a, b, return_indices=True)
        got = np.intersect1d(Q(a, u, c), Q(b, u, c), return_indices=True)
        same(c, got[0], want[0], u, 'function:intersect1d:indices')
        for g, w in zip(got[1:], want[1:]):
            c.equal(np.asarray(g), w, 'function:intersect1d:indices')
    else:
        if name in ('searchsorted', 'digitize'):
            a, b = np.sort(mag_of(c, (c.int(1, 6),))), mag_of(c, (c.int(1, 6),))
            f = float(conv(v, u)) if u else 1.0
            if not u:
                v = u
            a = np.sort(np.concatenate([a, b * f * 1.01]))
            x, y, ux, uy = a, b, u, v
            kw = c.choice([{}, {'side': 'right'}]) if name == 'searchsorted' else c.choice([{}, {'right': True}])
            if name == 'digitize':
                x, y, ux, uy = b, a, v, u
                f = 1 / f
            want = getattr(np, name)(x, y * f, **kw)
        else:
            ux, uy, f = c.choice([({'m': 1}, {'km': 1}, 1000), ({'m': 1}, {'m': 1}, 1), ({'m': 1}, {}, 1), ({}, {'m': 1}, 1), (u, u, 1)])
            y = c.rng.integers(0, 5, c.int(1, 5)).astype(float)
            x = y * f
            if c.coin(0.3):
                x = x + c.rng.integers(0, 2, x.shape)
            kw = {}
            want = getattr(np, name)(x, y * f)
        qx, qy = Q(x, ux, c), (Q(y, uy, c) if uy or c.coin() else y)
        got = getattr(np, name)(qx, qy, **kw)
        c.check(not isinstance(got, Quantity), f'function:{name}:type', type(got).__name__)
        c.equal(np.asarray(got), np.asarray(want), f'function:{name}')
        if ux and uy:
            bad = Q(y, umul(uy, {'wombat': 1}), c)
            c.raises(UnitError, lambda: getattr(np, name)(qx, bad), f'refused:{name}')
        same(c, qx, x, ux, 'operand unchanged', 0)
    c.check(snapshot() == before, 'unit table unchanged')


def keywords(c):
    """Indices of elements, and keywords which are quantities."""
    from pysimulators import Map, Quantity, UnitError

    u = unit_of(c)
    v = c.choice([equivalent(c, u), u]) if u else u
    f = float(conv(v, u)) if u else 1.0
    shape = tuple(c.int(1, 4) for _ in range(c.int(1, 2)))
    mag = mag_of(c, shape)
    q = Q(mag, u, c)
    k = float(mag_of(c, ()))
    qk = c.choice([Q(k, v, c), Q(np.array(k), v, c)])
    before = snapshot()
    for name in ('argmax', 'argmin', 'argsort', 'argpartition', 'nanargmax', 'nanargmin'):
        kw = axis_kw(c, len(shape))
        pos = (0,) if name == 'argpartition' else ()
        x = c.choice([q, Map(q)]) if len(shape) == 2 else q
        want = getattr(np, name)(mag, *pos, **kw)
        for got in (getattr(np, name)(x, *pos, **kw), getattr(x, name, lambda *a, **kw: want)(*pos, **kw)):
            c.check(not isinstance(got, Quantity), f'function:{name}:type', type(got).__name__)
            c.equal(np.asarray(got), np.asarray(want), f'function:{name}')
    cond = c.rng.random(shape) < 0.5
    holes = np.where(cond, np.nan, mag)
    ax = axis_kw(c, len(shape))
    calls = {
        'max': lambda x, y: np.max(x, initial=y, **ax),
        'min': lambda x, y: np.min(x, initial=y, **ax),
        'sum': lambda x, y: np.sum(x, initial=y, **ax),
        'method': lambda x, y: x.max(initial=y, **ax),
        'method sum': lambda x, y: x.sum(initial=y, **ax),
        'add.reduce': lambda x, y: np.add.reduce(x, initial=y, **ax),
        'pad': lambda x, y: np.pad(x, 1, constant_values=y),
        'nan_to_num': lambda x, y: np.nan_to_num(np.where(cond, np.nan, x), nan=y),
        'nan_to_num copy': lambda x, y: np.nan_to_num(np.where(cond, np.nan, x), copy=True, nan=y),
        'nan_to_num pos': lambda x, y: np.nan_to_num(np.where(cond, np.inf, x), True, 0.0, y),
        'select': lambda x, y: np.select([cond], [x], y),
        'select keyword': lambda x, y: np.select([cond], [x], default=y),
        'std': lambda x, y: np.std(x, mean=y),
        'diff': lambda x, y: np.diff(x, prepend=y, append=y),
        'diff pos': lambda x, y: np.diff(x, 1, 0, y),
    }
    c.note(units=[str(u), str(v)], shape=shape)
    for name, call in calls.items():
        want = call(mag, k * f)
        same(c, call(q, qk), np.asarray(want), u, f'keyword:{name}')
        same(c, call(q, k), np.asarray(call(mag, k)), u, f'keyword:plain:{name}')
        if u:
            bad = Q(k, umul(u, {'wombat': 1}), c)
            c.raises(UnitError, lambda: call(q, bad), f'refused:keyword:{name}')
    same(c, np.var(q, mean=qk), np.asarray(np.var(mag, mean=k * f)), upow(u, 2), 'keyword:var')
    same(c, q, mag, u, 'operand unchanged', 0)
    same(c, qk, np.asarray(k), v, 'operand unchanged', 0)
    c.check(snapshot() == before, 'unit table unchanged')


def methods(c):
    """The methods of quantities which take another quantity and the ufuncs which split or decode numbers."""
    from pysimulators import Map, Quantity, UnitError

    u = unit_of(c)
    v = equivalent(c, u) if u else u
    f = float(conv(v, u)) if u else 1.0
    n = c.int(1, 4)
    a, b = mag_of(c, (n,)), mag_of(c, (n,))
    c.note(units=[str(u), str(v)], n=n)
    before = snapshot()
    qa, qb = Q(a, u, c), Q(b, v, c)
    w = unit_of(c)
    qw = Q(b, w, c)
    same(c, qa.dot(qw), np.asarray(a.dot(b)), umul(u, w), 'method:dot')
    m = mag_of(c, (c.int(1, 3), n))
    qm = Q(m, u, c)
    same(c, qm.dot(qw), m.dot(b), umul(u, w), 'method:dot')
    if umul(u, w):
        o = Q(np.zeros(m.shape[0]), {'W': 1})
        got = qm.dot(qw, out=o)
        c.check(got is o, 'method:dot out')
        same(c, o, m.dot(b), umul(u, w), 'method:dot out')
    table = np.sort(np.concatenate([a, b * f * 1.01]))
    side = c.choice(['left', 'right'])
    got = Q(table, u, c).searchsorted(qb, side=side)
    c.check(not isinstance(got, Quantity), 'method:searchsorted:type', type(got).__name__)
    c.equal(np.asarray(got), table.searchsorted(b * f, side=side), 'method:searchsorted')
    if u:
        bad = Q(b, umul(v, {'wombat': 1}), c)
        c.raises(UnitError, lambda: qa.searchsorted(bad), 'refused:searchsorted')
        c.raises(UnitError, lambda: np.nextafter(qa, bad), 'refused:nextafter')
    x = c.choice([qm, Map(qm)])
    k = c.int(-1, 1)
    same(c, x.trace(k), np.asarray(m.trace(k)), u, 'method:trace')
    same(c, np.trace(x, k), np.asarray(m.trace(k)), u, 'function:trace')
    for g, want in zip(np.modf(qa), np.modf(a)):
        same(c, g, want, u, 'ufunc:modf')
    same(c, np.ldexp(qa, 2), np.ldexp(a, 2), u, 'ufunc:ldexp')
    same(c, np.spacing(qa), np.spacing(a), u, 'ufunc:spacing')
    same(c, np.nextafter(qa, qb), np.nextafter(a, b * f), u, 'ufunc:nextafter')
    same(c, qa, a, u, 'operand unchanged', 0)
    same(c, qb, b, v, 'operand unchanged', 0)
    same(c, qw, b, w, 'operand unchanged', 0)
    c.check(snapshot() == before, 'unit table unchanged')


def multiply(c):
    name = c.choice(MULTIPLY)
    u, v = unit_of(c), unit_of(c)
    n = c.int(2, 5)
    if name == 'cross':
        n = 3
    a, b = mag_of(c, (n,)), mag_of(c, (n,))
    if name in ('dot', 'tensordot', 'kron', 'inner') and c.coin():
        a = mag_of(c, (c.int(2, 4), n))
        if name == 'tensordot':
            b = mag_of(c, (n,))
    qa = Q(a, u, c)
    qb = Q(b, v, c) if v or c.coin() else b
    if c.coin(0.3):
        qa, qb = (a if not u else qa), Q(b, v)
    c.note(func=name, units=[str(u), str(v)], shape=a.shape)
    f = {
        'einsum': lambda x, y: np.einsum('i,i->i' if a.ndim == 1 else 'ij,j->i', x, y),
        'tensordot': lambda x, y: np.tensordot(x, y, 1),
    }.get(name, getattr(np, name))
    want = f(a, b)
    got = f(qa, qb)
    if u or v:
        same(c, got, np.asarray(want), umul(u, v), f'function:{name}')
    else:
        c.close(np.asarray(got), want, f'function:{name}')


# ----------------------------------------------------------------- histories
def histories(c):
    """Live quantities, some of which share their memory or are the same object, beside plain arrays."""
    from pysimulators import Quantity, UnitError

    shape = (c.int(2, 4), c.int(2, 4))
    objs = []

    def new(mag=None, u=None):
        mag = mag_of(c, shape, positive=True) if mag is None else mag
        u = unit_of(c, c.int(0, 2), angles=False) if u is None else u
        objs.append([Q(mag, u, c), mag.copy(), u])

    for _ in range(3):
        new()
    log = []
    before = snapshot()
    for step in range(c.int(4, 14)):
        i, j = (c.choice(range(len(objs))) for _ in range(2))
        op = c.choice(['iadd', 'imul', 'itruediv', 'isub', 'ipow', 'inunit', 'view', 'copy', 'add', 'mul', 'pickle', 'unit', 'alias', 'T',
                       'setitem', 'scalar', 'deepcopy', 'astype'])
        x, y = objs[i], objs[j]
        log.append((op, i, j))
        if op in ('iadd', 'isub', 'add'):
            if x[1].shape != y[1].shape and op != 'add':
                continue
            try:
                np.broadcast_shapes(x[1].shape, y[1].shape)
            except ValueError:
                continue
            if np.shares_memory(x[1], y[1]) and x is not y:
                continue
            common = x[2] or y[2]
            fx, fy = conv(x[2], common), conv(y[2], common)
            q, r = x[0], y[0]
            if fx is None or fy is None:
                try:
                    if op == 'iadd':
                        q += r
                    elif op == 'isub':
                        q -= r
                    else:
                        q + r
                    c.check(False, f'history:refused {op}', f'{x[2]} {y[2]} accepted')
                except UnitError:
                    c.check(True, f'history:refused {op}')
            elif op == 'add':
                objs.append([q + r, x[1] * float(fx) + y[1] * float(fy), common])
            elif op == 'iadd':
                q += r
                c.check(q is x[0], 'history:identity')
                x[1] += y[1] * float(fy)
                x[2] = common
            else:
                q -= r
                biggest = np.abs(x[1]).max()
                x[1] -= y[1].copy() * float(fy)
                x[2] = common
                if np.abs(x[1]).min() < 1e-5 * biggest:
                    # cancellation: only the rounding remains
                    c.close(np.asarray(q), x[1], 'history:isub', atol=1e-9 * biggest)
                    q.magnitude = x[1]
        elif op in ('imul', 'itruediv'):
            if x[1].shape != y[1].shape or (np.shares_memory(x[1], y[1]) and x is not y):
                continue
            q = x[0]
            z = y[1].copy()
            yu = y[2]
            if op == 'imul':
                q *= y[0]
                x[1] *= z
                x[2] = umul(x[2], yu)
            else:
                q /= y[0]
                x[1] /= z
                x[2] = umul(x[2], yu, -1)
            c.check(q is x[0], 'history:identity')
        elif op == 'ipow':
            q = x[0]
            p = c.choice([1, 2, 0.5])
            if (x[1] < 0).any() and p == 0.5:
                continue
            q **= p
            x[1] **= p
            x[2] = upow(x[2], p)
        elif op == 'inunit':
            v = equivalent(c, x[2])
            f = conv(x[2], v)
            if f is None or 'sr' in str(x[2]):
                continue
            x[0].inunit(text(c, v) if all(float(p) == round(float(p), 6) for p in v.values()) else dict(v))
            x[1] *= float(f)
            x[2] = v
        elif op == 'unit':
            v = unit_of(c, 1, angles=False)
            x[0].unit = text(c, v)
            x[2] = v
        elif op == 'view':
            if x[1].ndim == 2 and min(x[1].shape) > 1:
                key = c.choice([np.s_[:, :1], np.s_[1:], np.s_[::-1], np.s_[..., 0], np.s_[0], np.s_[None]])
                objs.append([x[0][key], x[1][key], dict(x[2])])
        elif op == 'T':
            objs.append([x[0].T, x[1].T, dict(x[2])])
        elif op in ('copy', 'deepcopy', 'pickle', 'astype'):
            z = {'copy': lambda: x[0].copy(), 'deepcopy': lambda: copy.deepcopy(x[0]), 'pickle': lambda: pickle.loads(pickle.dumps(x[0])),
                 'astype': lambda: x[0].astype(float)}[op]()
            objs.append([z, x[1].copy(), dict(x[2])])
        elif op == 'alias':
            if len(objs) < 9:
                objs.append(x)
        elif op == 'mul':
            try:
                np.broadcast_shapes(x[1].shape, y[1].shape)
            except ValueError:
                continue
            objs.append([x[0] * y[0], x[1] * y[1], umul(x[2], y[2])])
        elif op == 'setitem':
            if x[1].ndim:
                x[0][0] = 3.25
                x[1][0] = 3.25
        elif op == 'scalar':
            objs.append([2 * x[0], 2 * x[1], dict(x[2])])
        objs[:] = objs[-9:]
        for k, (q, m, u) in enumerate(objs):
            if isinstance(q, Quantity) or q.shape != ():
                c.check(isinstance(q, Quantity), 'history:type')
                if not (np.isfinite(m).all() and np.abs(m).max() < 1e100):
                    return
                same(c, q, m, u, f'history after {op}', rtol=1e-7)
        objs[:] = [o for o in objs if np.abs(o[1]).max() < 1e30 and np.abs(o[1]).min() > 1e-30 and all(abs(p) < 9 for p in o[2].values())]
        if len(objs) < 2:
            break
    c.note(log=str(log)[:300], shape=shape)
    c.check(snapshot() == before, 'unit table unchanged')


# ------------------------------------------------------------- derived units
def derived(c):
    from pysimulators import Quantity, UnitError, units

    shape = (c.int(2, 4), c.int(2, 5))
    if c.coin(0.3):
        shape = (c.int(2, 4),) + shape
    mag = mag_of(c, shape, positive=True)
    kind = c.choice(['scalar', 'leftward', 'leftward2', 'rightward', 'rightward2', 'function', 'global', 'array', 'arrays'])
    base = unit_of(c, 1, angles=False)
    v0, = mag_of(c, (1,), positive=True)
    name = c.choice(['detektor', 'broug', 'pixel_'])
    p = c.choice([1, -1, 2])
    rest = {'A': 1} if c.coin() else {}
    u = umul({name: p}, rest)
    if kind == 'scalar' or kind == 'global':
        val = np.asarray(v0)
        key = name
    elif kind == 'function':
        val = mag_of(c, shape[1:], positive=True) if c.coin() else np.asarray(v0)
        key = name
    elif kind.startswith('array'):
        # by default, the values are broadcast as those of any operand
        val = mag_of(c, shape[1:] if kind == 'array' else shape, positive=True)
        key = name
    elif kind.startswith('leftward'):
        val = mag_of(c, shape[1:] if kind == 'leftward' else shape, positive=True)
        key = name + '[leftward]'
    else:
        val = mag_of(c, shape[:1] if kind == 'rightward' else shape, positive=True)
        key = name + '[rightward]'
    c.note(kind=kind, shape=shape, power=p, base=str(base), unit=str(u))
    du = Q(val, base)
    before = snapshot()
    if kind == 'function':
        seen = []

        def fun(x):
            seen.append(1)
            return Q(val, base)

        table = {key: fun}
    else:
        table = {key: du}
    if kind == 'global':
        units[key] = du
        q = Q(mag, u, c)
    else:
        q = Quantity(mag, ' '.join(f'{k}^{fmt(x)}' for k, x in u.items()), table)
    try:
        full = val if kind not in ('rightward',) else val.reshape(val.shape + (1,) * (len(shape) - 1))
        fac = (np.broadcast_to(full, shape).astype(LD) * si(base)[1]) ** LD(p)
        dims = umul(umul(upow(si(base)[0], p), {}), si(rest)[0])
        s = q.SI
        same(c, s, (mag * fac).astype(float), dims, f'derived:SI {kind}')
        same(c, q, mag, u, 'derived:unchanged', 0)
        tgt = umul(upow(equivalent(c, base), p), rest)
        (dt_, ft) = si(tgt)
        assert usame(dt_, dims)
        if tgt:
            r = q.tounit(' '.join(f'{k}^{fmt(x)}' for k, x in tgt.items()))
            same(c, r, (mag * fac / ft).astype(float), tgt, f'derived:tounit {kind}')
            r.inunit(' '.join(f'{k}^{fmt(x)}' for k, x in u.items()))
            same(c, r, mag, u, f'derived:roundtrip {kind}')
        # a part of the quantity has the part of its broadcast derived unit
        for key_ in (np.s_[0], np.s_[:, 0], np.s_[1:], np.s_[:, ::2], np.s_[..., 1], np.s_[0, 1:], np.s_[0:1, ..., 1]):
            if kind.startswith('array') or kind == 'function' and val.ndim:
                # only the broadcast derived units follow the parts
                break
            part = q[key_]
            same(c, part, mag[key_], u, f'derived:part {kind}', 0)
            same(c, part.SI, (mag * fac).astype(float)[key_], dims, f'derived:SI of a part {kind}')
        same(c, q.SI, (mag * fac).astype(float), dims, f'derived:SI after parts {kind}')
        if kind != 'global':
            c.check(set(q.derived_units) == {key}, 'derived:table unchanged', str(q.derived_units))
            if kind != 'function':
                same(c, du, val, base, 'derived:given unit unchanged', 0)
                c.check(not du.derived_units, 'derived:given unit unchanged', str(du.derived_units))
                q2 = pickle.loads(pickle.dumps(q))
                same(c, q2.SI, (mag * fac).astype(float), dims, f'derived:pickle {kind}')
            q3 = (q * 2)
            same(c, q3.SI, (2 * mag * fac).astype(float), dims, f'derived:propagated {kind}')
    finally:
        if kind == 'global':
            del units[key]
    c.check(snapshot() == before, 'unit table unchanged')
    bad = c.choice([('x[upward]', Quantity(1.0, 'm'), UnitError), ('x', 3, UnitError), (None, 3, TypeError)])
    c.raises(bad[2], lambda: Quantity(1, 'x', 3) if bad[0] is None else Quantity(1.0, 'x').__class__(1.0, 'x', {bad[0]: bad[1]}), 'refused:derived') \
        if bad[0] is not None else None


def construction(c):
    from pysimulators import Quantity

    shape = shape_of(c)
    dt = c.choice(['f8', 'f4', 'c16', 'c8', 'i8', 'i4', 'list'])
    mag = mag_of(c, shape, 'f8' if dt == 'list' else dt)
    cp = c.choice([None, True, False])
    order = c.choice([None, 'C', 'F'])
    u = unit_of(c)
    given = mag.tolist() if dt == 'list' else (Q(mag, unit_of(c)) if c.coin(0.3) else mag)
    src = given
    fromq = isinstance(given, Quantity)
    su = dict(given._unit) if fromq else {}
    ndmin = c.choice([0, 0, 3])
    kw = {}
    if cp is not None:
        kw['copy'] = cp
    if order is not None:
        kw['order'] = order
    if ndmin:
        kw['ndmin'] = ndmin
    unit_given = c.coin(0.8)
    if unit_given:
        kw['unit'] = text(c, u)
    want_dt = np.dtype('f8') if dt in ('list',) or dt[0] == 'i' else mag.dtype
    dtype = c.choice([None, None, 'f8', 'c16', 'f4'])
    if dtype is not None and not (np.iscomplexobj(mag) and dtype != 'c16'):
        kw['dtype'] = dtype
        want_dt = np.dtype(dtype)
    c.note(shape=shape, dtype=dt, copy=cp, order=order, ndmin=ndmin, fromq=fromq, keyword=str(kw.get('dtype')))
    q = Quantity(given, **kw)
    wanted = mag.astype(want_dt)
    if ndmin:
        wanted = np.array(wanted, ndmin=ndmin)
    c.check(q.dtype == want_dt, 'construction:dtype', f'{q.dtype} {want_dt}')
    if order == 'F' and q.ndim > 1:
        c.check(q.flags.f_contiguous, 'construction:order')
    same(c, q, wanted, u if unit_given else su, 'construction', 0)
    if isinstance(src, np.ndarray):
        shares = np.shares_memory(q, src) and src.size > 0
        if cp is not False:
            c.check(not shares, 'construction:copy')
        elif src.dtype == want_dt and (order is None and src.flags.c_contiguous):
            c.check(shares, 'construction:no copy')
    if fromq and cp is not False:
        c.check(usame(src._unit, su), 'construction:operand unchanged', f'{src.unit} {su}')
    z = c.choice([Quantity.zeros, Quantity.ones, Quantity.empty])
    kdt, korder = c.choice([None, 'f4', 'i8']), c.choice([None, 'C', 'F'])
    kdu = {'gadget': Quantity(2.0, 'm')} if c.coin() else None
    k = z(shape, unit=text(c, u), dtype=kdt, order=korder, **({'derived_units': kdu} if kdu else {}))
    c.check(k.dtype == np.dtype(kdt or 'f8'), 'construction:factory dtype', str(k.dtype))
    if korder == 'F':
        c.check(k.flags.f_contiguous, 'construction:factory order')
    if kdu:
        c.check(list(k.derived_units) == ['gadget'] and usame(k.derived_units['gadget']._unit, {'m': 1}), 'construction:factory derived units', str(k.derived_units))
        k2 = z(shape, 'gadget', kdu)
        k2[...] = 1
        same(c, k2.tounit('m'), np.full(shape, 2.0), {'m': 1}, 'construction:factory derived units')
    c.check(k.shape == shape and usame(k._unit, u), 'construction:zeros', lambda: f'{k.shape} {k.unit} {z} {u}')
    if z.__name__ != 'empty':
        c.check((np.asarray(k) == (0 if z.__name__ == 'zeros' else 1)).all(), 'construction:zeros')


def run(ctx):
    ctx.each('notation', 300, 6000, notation)
    ctx.each('conversion', 400, 8000, conversion)
    ctx.each('ufuncs', 1500, 40000, ufuncs)
    ctx.each('division', 100, 2000, division)
    ctx.each('single', 1200, 30000, single)
    ctx.each('join', 600, 12000, join)
    ctx.each('compare', 300, 8000, compare)
    ctx.each('keywords', 60, 2000, keywords)
    ctx.each('methods', 150, 4000, methods)
    ctx.each('multiply', 200, 4000, multiply)
    ctx.each('histories', 300, 8000, histories)
    ctx.each('derived', 300, 6000, derived)
    ctx.each('construction', 300, 6000, construction)
