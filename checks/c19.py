"""C19: maps and time-ordered data carry coherent metadata through histories of operations."""
import copy
import pickle

import numpy as np
from astropy.io import fits

from harness.core import Skip

PROPERTY = 'C19'
RULE = 'every object alive is compared with a model made of plain arrays after each operation'

NAMES = dict(FitsArray=(), Map=('coverage', 'error'), Tod=('mask',))


class Model:
    def __init__(self, kind, data, att, unit, cards, origin, du=None):
        self.kind, self.data, self.att, self.unit, self.cards, self.origin, self.du = kind, data, att, unit, cards, origin, du

    def map(self, f):
        att = {k: None if v is None else f(v) for k, v in self.att.items()}
        return Model(self.kind, f(self.data), att, self.unit, self.cards, self.origin, self.du)


def some(c, shape, dt=float):
    x = np.round(c.rng.normal(size=shape) * 10, 3)
    return x.astype(dt)


def layout(c, x):
    k = c.choice(['c', 'c', 'f', 's'])
    if k == 'f':
        return np.array(x, order='F')
    if k == 's':
        big = np.zeros(tuple(2 * n for n in x.shape), x.dtype)
        view = big[tuple(slice(None, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    return x


def create(c, kind=None, ndim=None, shape=None):
    import pysimulators as ps

    kind = kind or c.choice(['Map', 'Map', 'Tod', 'Tod', 'FitsArray'])
    if shape is None:
        shape = tuple(c.int(1, 4) for _ in range(c.choice([1, 2, 2, 2, 3]) if ndim is None else ndim))
    if c.coin(0.1):
        shape = shape[:-1] + (0,)
    dt = c.choice([float, float, 'f4', complex])
    data = some(c, shape, dt)
    att = {}
    for k in NAMES[kind]:
        if c.coin(0.15):
            att[k] = None
        elif k == 'mask':
            att[k] = c.rng.random(shape) < 0.4
        else:
            att[k] = some(c, shape, c.choice([float, 'f4', int]))
    unit = c.choice(['', 'Jy', 'm s^-1'])
    origin = c.choice(['lower', 'upper']) if kind == 'Map' else None
    cards = {'KEY': c.int(0, 99)}
    header = fits.Header()
    header['NAXIS'] = len(shape)
    for i, n in enumerate(shape[::-1]):
        header[f'NAXIS{i + 1}'] = n
    header.update(cards)
    kw = dict(unit=unit, header=header, dtype=data.dtype)
    du = {}
    if c.coin(0.4):
        du = {'beam': ps.Quantity(c.int(2, 9), 'sr')}
        kw['derived_units'] = dict(du)
    if c.coin(0.2):
        # other way round
        kw = dict(reversed(kw.items()))
    if dt is float and c.coin():
        del kw['dtype']
    kw.update({k: layout(c, v.copy()) for k, v in att.items() if v is not None})
    if kind == 'Map':
        kw['origin'] = origin
    how = c.choice(['array', 'copy=False', 'list', 'factory'])
    if how == 'list' and (0 in shape):
        how = 'array'
    cls = getattr(ps, kind)
    if how == 'factory':
        f = c.choice(['zeros', 'ones', 'empty'])
        order = c.choice([None, 'C', 'F'])
        if order:
            kw['order'] = order
        x = getattr(cls, f)(shape, **kw)
        if order:
            c.check(x.flags[f'{order}_CONTIGUOUS'], 'factory:order', f'{f} {order}')
        if f == 'empty':
            x[...] = 0
        data = np.full(shape, 1 if f == 'ones' else 0, dt)
    elif how == 'list':
        x = cls(data.tolist(), **kw)
        data = data.astype(x.dtype)
        c.check(x.dtype == np.dtype(dt), 'create:dtype', f'{x.dtype}')
    else:
        buf = layout(c, data.copy())
        x = cls(buf, copy=how == 'array', **kw)
        c.check(np.shares_memory(x, buf) == (how != 'array' and data.size > 0 and buf.flags.c_contiguous), 'create:copy', how)
    c.check(x.dtype == np.dtype(dt), 'create:dtype', f'{x.dtype} instead of {np.dtype(dt)}')
    m = Model(kind, data, att, unit, cards, origin, du)
    return x, m, (kind, list(shape), str(np.dtype(dt)), how, sorted(k for k in att if att[k] is not None))


def verify(c, x, m, key, header=True):
    import pysimulators as ps

    c.check(type(x) is getattr(ps, m.kind), f'{key}:class', f'{type(x).__name__} instead of {m.kind}')
    c.check(x.dtype == m.data.dtype, f'{key}:dtype', f'{x.dtype} instead of {m.data.dtype}')
    c.close(x.magnitude, m.data, f'{key}:values', rtol=2e-6)
    c.check(x.unit == ps.Quantity(1, m.unit).unit, f'{key}:unit', f'{x.unit!r} instead of {m.unit!r}')
    if m.du is not None:
        c.check(list(x.derived_units) == list(m.du) and all(x.derived_units[k] == v for k, v in m.du.items()), f'{key}:derived_units',
                f'{x.derived_units} instead of {m.du}')
    for k, v in m.att.items():
        got = getattr(x, k)
        if v is None:
            c.check(got is None, f'{key}:{k}', f'{got} instead of None')
        elif c.check(got is not None, f'{key}:{k}', 'was lost'):
            c.equal(got, v, f'{key}:{k}')
            c.check(np.asarray(got).dtype == v.dtype, f'{key}:{k}', f'type {np.asarray(got).dtype} instead of {v.dtype}')
    if m.kind == 'Map':
        c.check(x.origin == m.origin, f'{key}:origin', f'{x.origin} instead of {m.origin}')
    if header and m.cards is not None:
        for k, v in m.cards.items():
            c.check(x.header is not None and x.header.get(k) == v, f'{key}:header', f'{k} is not {v}: {x.header!r}')


def coherent(c, x, key):
    """The attributes of a result are those of an array of its shape, or absent."""
    for k in ('coverage', 'error', 'mask'):
        v = getattr(x, k, None)
        if v is not None:
            c.check(np.shape(v) == x.shape, f'{key}:{k}', f'the shape of {k} is {np.shape(v)} for an array of shape {x.shape}')


def index(c, shape):
    """A key and its description."""
    out = []
    kinds = ['int', 'slice', 'slice', 'list', 'mask']
    ndim = c.int(1, len(shape)) if shape else 0
    advanced = False
    for n in shape[:ndim]:
        k = c.choice(kinds)
        if k in ('int', 'list') and n == 0:
            k = 'slice'
        if k in ('list', 'mask') and advanced:
            k = 'slice'
        if k == 'int':
            out.append(c.int(-n, n - 1))
        elif k == 'slice':
            out.append(slice(*[c.choice([None, c.int(-n - 1, n + 1)]) for _ in range(2)], c.choice([None, 1, 2, -1, -2])))
        elif k == 'list':
            out.append([c.int(-n, n - 1) for _ in range(c.int(1, 3))])
            advanced = True
        else:
            out.append(c.rng.random(n) < 0.5)
            advanced = True
    if c.coin(0.25):
        i = c.int(0, len(out))
        if len(out) < len(shape) and i == len(out):
            out.append(Ellipsis)
        elif len(out) == len(shape):
            out.insert(i, Ellipsis)
    if c.coin(0.15):
        out.insert(c.int(0, len(out)), None)
    if len(out) == 1 and c.coin(0.7):
        return out[0]
    return tuple(out)


def show(key):
    return repr(key).replace('array', '')[:120]


def rearrange(c, x, m):
    """An operation that moves the elements; applied to the object and to plain arrays."""
    shape = m.data.shape
    nd = len(shape)
    ax = lambda: c.int(-nd, nd - 1)  # noqa: E731
    ops = ['index'] * 4 + ['ravel', 'reshape', 'flatten', 'T', 'transpose', 'swapaxes', 'squeeze', 'np.ravel', 'np.reshape', 'boolean',
                           'np.transpose', 'np.swapaxes', 'np.squeeze', 'np.moveaxis', 'np.flip', 'np.roll', 'np.expand_dims', 'np.fliplr',
                           'np.flipud', 'np.rot90', 'np.rollaxis', 'view', 'ellipsis', 'iter']
    op = c.choice(ops)
    order = c.choice(['C', 'C', 'F'])
    if op == 'index':
        key = index(c, shape)
        f = lambda a: a[key]  # noqa: E731
        op = f'[{show(key)}]'
    elif op == 'ellipsis':
        f = lambda a: a[...]  # noqa: E731
    elif op == 'boolean':
        key = c.rng.random(shape) < 0.5
        f = lambda a: a[key]  # noqa: E731
    elif op == 'view':
        f = lambda a: a.view()  # noqa: E731
    elif op == 'iter':
        if not shape or shape[0] == 0:
            raise Skip
        i = c.int(0, shape[0] - 1)
        f = lambda a: list(a)[i]  # noqa: E731
    elif op in ('ravel', 'flatten'):
        f = lambda a: getattr(a, op)(order)  # noqa: E731
        if order == 'C' and c.coin():
            f = lambda a: getattr(a, op)()  # noqa: E731
    elif op == 'np.ravel':
        f = c.choice([lambda a: np.ravel(a, order), lambda a: np.ravel(a, order=order)])
    elif op in ('reshape', 'np.reshape'):
        n = m.data.size
        divs = [d for d in range(1, n + 1) if n % d == 0] or [1]
        d = c.choice(divs)
        new = c.choice([(n,), (d, n // d), (d, 1, n // d), (1, n)] + ([(-1, d)] if n else []))
        if op == 'reshape':
            f = c.choice([lambda a: a.reshape(new, order=order), lambda a: a.reshape(*new, order=order)])
        else:
            f = lambda a: np.reshape(a, new, order=order)  # noqa: E731
        op += f'{new}{order}'
    elif op == 'T':
        f = lambda a: a.T  # noqa: E731
    elif op in ('transpose', 'np.transpose'):
        axes = tuple(int(_) for _ in c.rng.permutation(nd))
        if op == 'transpose':
            f = c.choice([lambda a: a.transpose(axes), lambda a: a.transpose(*axes), lambda a: a.transpose(list(axes))])
        else:
            f = c.choice([lambda a: np.transpose(a, axes), lambda a: np.transpose(a, axes=axes), lambda a: np.transpose(a)])
        op += f'{axes}'
    elif op in ('squeeze', 'np.squeeze'):
        ones = [i for i, n in enumerate(shape) if n == 1]
        axis = c.choice([None] + ones) if ones else None
        f = (lambda a: a.squeeze(axis)) if op == 'squeeze' else (lambda a: np.squeeze(a, axis))
        if axis is None:
            f = (lambda a: a.squeeze()) if op == 'squeeze' else (lambda a: np.squeeze(a))
    elif nd == 0:
        raise Skip
    elif op in ('swapaxes', 'np.swapaxes'):
        i, j = ax(), ax()
        f = (lambda a: a.swapaxes(i, j)) if op == 'swapaxes' else (lambda a: np.swapaxes(a, i, j))
    elif op == 'np.moveaxis':
        i, j = ax(), ax()
        f = c.choice([lambda a: np.moveaxis(a, i, j), lambda a: np.moveaxis(a, source=i, destination=j)])
    elif op == 'np.rollaxis':
        i = ax()
        f = lambda a: np.rollaxis(a, i)  # noqa: E731
    elif op == 'np.flip':
        i = c.choice([None, ax()])
        f = c.choice([lambda a: np.flip(a, i), lambda a: np.flip(a, axis=i)])
    elif op == 'np.roll':
        n, i = c.int(-5, 5), c.choice([None, ax()])
        f = c.choice([lambda a: np.roll(a, n, i), lambda a: np.roll(a, shift=n, axis=i)])
    elif op == 'np.expand_dims':
        i = c.int(0, nd)
        f = lambda a: np.expand_dims(a, i)  # noqa: E731
    elif op in ('np.fliplr', 'np.flipud'):
        if nd < 2:
            raise Skip
        f = getattr(np, op[3:])
    elif op == 'np.rot90':
        if nd < 2:
            raise Skip
        k = c.int(-1, 3)
        f = lambda a: np.rot90(a, k)  # noqa: E731
    want = m.map(f)
    got = f(x)
    if not isinstance(want.data, np.ndarray):
        # an element
        c.check(not isinstance(got, np.ndarray), 'element:class', f'{op} {type(got)}')
        c.close(got, want.data, 'element:values', rtol=2e-6)
        return op, None, None
    return op, got, want


def duplicate(c, x, m):
    """Copies are equal, and independent of the original."""
    import pysimulators as ps

    cls = type(x)
    how = c.choice(['copy', 'copy', 'copyF', 'copy.copy', 'deepcopy', 'pickle', 'class', 'subok', 'np.copy-subok'])
    f = {'copy': lambda: x.copy(), 'copyF': lambda: x.copy('F'), 'copy.copy': lambda: copy.copy(x), 'deepcopy': lambda: copy.deepcopy(x),
         'pickle': lambda: pickle.loads(pickle.dumps(x, c.int(2, 5))), 'class': lambda: cls(x, dtype=x.dtype),
         'subok': lambda: ps.FitsArray(x, dtype=x.dtype, subok=True), 'np.copy-subok': lambda: x.copy(order='K')}[how]
    y = f()
    verify(c, y, m, 'copy')
    if how == 'subok':
        return how, y, m.map(np.copy)
    if how in ('copyF',) and y.size:
        c.check(y.flags.f_contiguous, 'copy:order', 'is not in Fortran order')
    # changes of the copy are not those of the original
    if x.size:
        y[...] = 77
    y.header['KEY'] = 'changed'
    for k in m.att:
        v = getattr(y, k)
        if v is not None and v.size:
            v[...] = ~v if k == 'mask' else v + 1
    if how != 'class' or m.kind != 'Tod':
        verify(c, x, m, 'copy:original')
    y = f()
    return how, y, m.map(np.copy)


def elementwise(c, x, m):
    shape = m.data.shape
    op = c.choice(['*2', '+=', '-', 'abs', 'SI', 'astype', 'array*', 'inplace', 'class'])
    d = m.data
    if op == 'class':
        # same instance
        if not x.flags.c_contiguous:
            raise Skip
        y = type(x)(x, copy=False, dtype=x.dtype)
        c.check(y is x, 'same:instance', 'copy=False made a new instance')
        return op, x, m
    if op == '*2':
        y, w = x * 2, d * 2
    elif op == 'array*':
        a = some(c, shape[-1:]).astype('f4')
        y, w = x * a, d * a
    elif op == '+=':
        x += 1
        m.data = (d + 1).astype(d.dtype)
        return op, x, m
    elif op == 'inplace':
        x[...] = 3
        m.data = np.full_like(d, 3)
        return op, x, m
    elif op == '-':
        y, w = -x, -d
    elif op == 'abs':
        y, w = abs(x), abs(d)
    elif op == 'SI':
        if m.unit != 'm s^-1':
            raise Skip
        y = x.SI
        w = d.astype(y.dtype)
    elif op == 'astype':
        new = c.choice(['f4', 'f8']) if d.dtype.kind != 'c' else 'c16'
        if d.dtype.kind == 'c':
            raise Skip
        y = x.astype(new)
        att = {k: v if v is None or k == 'mask' else v.astype(new) for k, v in m.att.items()}
        c.check(y.header['BITPIX'] == (-32 if new == 'f4' else -64), 'astype:header', f'BITPIX={y.header["BITPIX"]}')
        y.header['KEY'] = 'changed'
        verify(c, x, m, 'astype:operand')
        y.header['KEY'] = m.cards['KEY']
        return op, y, Model(m.kind, d.astype(new), att, m.unit, m.cards, m.origin, m.du)
    return op, y, Model(m.kind, w, m.att, m.unit, m.cards, m.origin, m.du)


def histories(c):
    x, m, what = create(c)
    verify(c, x, m, 'create')
    alive = [(x, m)]
    log = [str(what)]
    c.note(history=log)
    for _ in range(c.int(1, 5)):
        x, m = alive[c.int(max(0, len(alive) - 2), len(alive) - 1)]
        kind = c.choice([rearrange, rearrange, duplicate, elementwise])
        if kind is elementwise and any(x is not y and (np.may_share_memory(x, y)) for y, _ in alive):
            # a change of its values would be seen through its views
            kind = rearrange
        try:
            op, y, w = kind(c, x, m)
        except Skip:
            continue
        log.append(op)
        c.note(history=log)
        if y is None:
            continue
        verify(c, y, w, kind.__name__)
        if y is not x:
            alive.append((y, w))
        for y, w in alive:
            verify(c, y, w, 'alive')


def metadata(c, got, m, name):
    import pysimulators as ps

    one = ps.Quantity(1, m.unit)
    want = one * one if name == 'var' else one
    c.check(got._unit == want._unit, f'{name}:unit', f'{got.unit!r} for {m.unit!r}')
    c.check(list(got.derived_units) == list(m.du), f'{name}:derived_units', f'{got.derived_units}')
    c.check(got.header.get('KEY') == m.cards['KEY'], f'{name}:header', f'{got.header!r}')
    if m.kind == 'Map':
        c.check(got.origin == m.origin, f'{name}:origin', f'{got.origin!r}')


def specific(c):
    """Methods of the time-ordered data, structured arrays, automatic headers."""
    import pysimulators as ps

    what = c.choice(['median', 'sort', 'fields', 'header', 'default'])
    shape = tuple(c.int(1, 4) for _ in range(c.int(1, 3)))
    c.note(what=what, shape=list(shape))
    if what in ('median', 'sort'):
        t, m, info = create(c, kind='Tod')
        if t.dtype.kind == 'c' or t.size == 0:
            raise Skip
        axis = c.choice([None] + list(range(-t.ndim, t.ndim)))
        c.note(info=info, axis=axis)
        if what == 'median':
            if m.att['mask'] is not None and m.att['mask'].any():
                raise Skip
            got = t.median(axis=axis)
            c.check(type(got) is ps.Tod and got.mask is None, 'median:class', f'{type(got)} {got.mask}')
            c.close(got.magnitude, np.median(m.data, axis=axis), 'median:values', rtol=1e-6)
            c.check(got.dtype == t.dtype, 'median:dtype', f'{got.dtype}')
            metadata(c, got, m, 'median')
            got.header['KEY'] = 'changed'
            verify(c, t, m, 'median:operand')
        else:
            if axis is None:
                axis = -1
            if not t.flags.c_contiguous and False:
                raise Skip
            t.sort(axis=axis)
            c.close(t.magnitude, np.sort(m.data, axis=axis), 'sort:values', rtol=1e-6)
            c.check(t.mask is None, 'sort:mask', f'{t.mask}')
        return
    if what == 'fields':
        dt = np.dtype([('a', float), ('b', int), ('time', 'f4')])
        a = np.zeros(shape, dt)
        for k in dt.names:
            a[k] = c.rng.integers(0, 50, shape)
        cls = getattr(ps, c.choice(['FitsArray', 'Map', 'Tod']))
        x = cls(a, unit='m', dtype=dt)
        for k in dt.names:
            c.equal(np.asarray(getattr(x, k)), a[k], 'fields:get', k)
            c.equal(np.asarray(x[k]), a[k], 'fields:get', k)
        k = c.choice(dt.names)
        v = c.rng.integers(0, 50, shape)
        setattr(x, k, v)
        a = a.copy()
        a[k] = v
        for k in dt.names:
            c.equal(np.asarray(x[k]), a[k], 'fields:set', k)
        c.raises(AttributeError, lambda: x.missing, 'fields:missing')
        x.unit = 's'
        c.check(x.unit == 's' and 'unit' not in x.dtype.names, 'fields:attribute', f'{x.unit}')
        return
    cls = getattr(ps, c.choice(['FitsArray', 'Map', 'Tod']))
    if what == 'header':
        dt = c.choice(['f4', 'f8', 'c16', 'i4'])
        x = cls(np.ones(shape, dt), dtype=dt)
        h = x.header
        if dt == 'c16':
            c.check(h is None, 'header:complex', f'{h!r}')
        else:
            c.check([h[f'NAXIS{i + 1}'] for i in range(x.ndim)] == list(shape[::-1]) and h['NAXIS'] == x.ndim, 'header:naxis', f'{h!r}')
            c.check(h['BITPIX'] == dict(f4=-32, f8=-64, i4=32)[dt], 'header:bitpix', f'{h!r} for {dt}')
            c.check(x.header is h, 'header:same', 'another header is returned by a second access')
            c.check(x.has_wcs() is False or not x.has_wcs(), 'header:wcs', f'{h!r}')
        new = fits.Header({'A': 1})
        x.header = new
        c.check(x.header is new, 'header:set', f'{x.header!r}')
        y = x.astype('f8') if dt != 'c16' else x.copy()
        c.check(y.header['A'] == 1 and y.header is not new, 'header:copy', f'{y.header!r}')
        x.header = None
        c.check((x.header is None) == (dt == 'c16') and (dt == 'c16' or 'A' not in x.header), 'header:reset', f'{x.header!r}')
        return
    f = c.choice(['zeros', 'ones', 'empty'])
    s = shape if c.coin() else shape[0]
    x = getattr(cls, f)(s)
    c.check(type(x) is cls and x.dtype == float and x.shape == (shape if s is shape else shape[:1]), 'factory:default', f'{x!r}')
    if f != 'empty':
        c.check(bool(np.all(x.magnitude == (f == 'ones'))), 'factory:values', f'{x!r}')
    c.check(x.unit == '' and not x.derived_units, 'factory:unit', f'{x.unit} {x.derived_units}')


def reductions(c):
    """Functions of numpy: those of np.ma for the Tods with a mask, plain ones otherwise."""
    import pysimulators as ps

    x, m, what = create(c, kind=c.choice(['Map', 'Tod', 'Tod', 'Tod']))
    if m.data.dtype.kind == 'c' or m.data.size == 0:
        raise Skip
    nd = m.data.ndim
    name = c.choice(['sum', 'mean', 'min', 'max', 'ptp', 'std', 'var', 'median', 'cumsum', 'sort', 'argmax', 'prod', 'diff'])
    axis = c.choice([None] + list(range(-nd, nd)))
    kw = {}
    if name in ('cumsum', 'sort', 'diff') and axis is None:
        axis = -1
    if axis is not None or c.coin():
        kw['axis'] = axis
    if name in ('sum', 'mean', 'min', 'max', 'std', 'var') and c.coin(0.3):
        kw['keepdims'] = True
    c.note(what=what, func=name, **kw)
    if m.kind == 'Tod' and m.att['mask'] is not None:
        if name in ('diff', 'argmax', 'sort', 'prod'):
            raise Skip
        ref = np.ma.MaskedArray(m.data, m.att['mask'])
        want = (np.ma.median if name == 'median' else getattr(np, name))(ref, **kw)
        got = getattr(np, name)(x, **kw)
        wm = np.ma.getmaskarray(want)
        gm = getattr(got, 'mask', None)
        if name == 'median':
            wm2 = wm
        if not isinstance(got, ps.Tod):
            c.check(False, f'{name}:class', f'{type(got)}')
            return
        metadata(c, got, m, name)
        c.check(gm is None or np.shape(gm) == got.shape, f'{name}:mask', f'{np.shape(gm)} for {got.shape}')
        gm = np.zeros(got.shape, bool) if gm is None else gm
        if name != 'median':
            c.equal(gm, wm, f'{name}:mask')
        g = np.where(wm, 0, got.magnitude)
        w = np.where(wm, 0, np.ma.getdata(want))
        if name == 'median':
            return
        c.close(g, w, f'{name}:values', rtol=1e-5, atol=1e-5 * float(np.max(np.abs(m.data))))
        coherent(c, got, name)
        return
    got = getattr(np, name)(x, **kw)
    want = getattr(np, name)(m.data, **kw)
    c.close(np.asarray(got), want, f'{name}:values', rtol=1e-5)
    if name not in ('argmax', 'sort'):
        coherent(c, got, name)
    if name not in ('argmax', 'prod') and c.check(type(got) is getattr(ps, m.kind), f'{name}:class', f'{type(got)}'):
        metadata(c, got, m, name)
        if m.kind == 'Tod':
            c.check(got.mask is None, f'{name}:mask', f'{got.mask} instead of None')
    verify(c, x, m, 'operand')
    # methods
    if m.kind == 'Map' and name not in ('ptp', 'median', 'diff', 'sort'):
        got = getattr(x, name)(**kw)
        c.close(np.asarray(got), want, f'{name}:method', rtol=1e-5)
        if name != 'argmax':
            coherent(c, got, name)


def masks(c):
    """The mask of a Tod."""
    import pysimulators as ps

    shape = tuple(c.int(1, 4) for _ in range(c.int(1, 3)))
    data = some(c, shape)
    init = c.choice(['none', 'array', 'list', 'int', 'ma', 'ma-nomask', 'nomask', 'tod'])
    mask = c.rng.random(shape) < 0.4
    ref = mask
    if init == 'none':
        t, ref = ps.Tod(data), None
    elif init == 'nomask':
        t, ref = ps.Tod(data, mask=np.ma.nomask), None
    elif init == 'array':
        t = ps.Tod(data, mask=mask)
    elif init == 'list':
        t = ps.Tod(data, mask=mask.tolist())
    elif init == 'int':
        t = ps.Tod(data, mask=mask.astype(c.choice(['u1', 'i1', 'i4', 'i8', 'f8'])))
    elif init == 'ma':
        t = ps.Tod(np.ma.MaskedArray(data, mask))
    elif init == 'ma-nomask':
        t, ref = ps.Tod(np.ma.MaskedArray(data)), None
    else:
        t = ps.Tod(ps.Tod(data, mask=mask), copy=c.coin())
    # masks given to the constructor
    for cp in (True, False):
        for bad in ((), (slice(None), None), (Ellipsis, slice(None, -1))):
            wrong = mask[bad] if bad else np.zeros(shape + (2,), bool)
            if wrong.shape == shape:
                continue
            keep = wrong.copy()
            c.raises(ValueError, lambda: ps.Tod(data, mask=wrong, copy=cp), 'mask:refused:init', f'shape {wrong.shape} for {shape}')
            c.equal(wrong, keep, 'mask:refused:init')
        value = c.coin()
        other = ps.Tod(data, mask=mask.copy())
        c.equal(np.broadcast_to(ps.Tod(other, mask=value, copy=cp).mask, shape), np.full(shape, value), 'mask:init:scalar')
        if cp:  # without copy, the result may be the operand itself
            c.equal(other.mask, mask, 'mask:init:scalar:operand')
        nd = c.int(0, 5)
        y = ps.Tod(data, mask=mask, ndmin=nd, copy=cp)
        c.equal(y.mask, mask.reshape(y.shape), 'mask:init:ndmin')
    log = [init]
    c.note(shape=list(shape), log=log)

    def look(key):
        c.equal(t.magnitude, data, f'{key}:values')
        if ref is None:
            c.check(t.mask is None, f'{key}:mask', f'{t.mask} instead of None')
        elif c.check(t.mask is not None and t.mask.dtype == bool, f'{key}:mask', f'{t.mask!r}'):
            c.equal(t.mask, ref, f'{key}:mask')

    look('init')
    for _ in range(c.int(1, 4)):
        op = c.choice(['none', 'nomask', 'true', 'false', 'array', 'int', 'list', 'bad', 'u1'])
        log.append(op)
        new = c.rng.random(shape) < 0.4
        if op == 'none':
            t.mask, ref = None, None
        elif op == 'nomask':
            t.mask, ref = np.ma.nomask, None
        elif op in ('true', 'false'):
            t.mask, ref = c.choice([op == 'true', int(op == 'true'), np.array(op == 'true')]), np.full(shape, op == 'true')
        elif op == 'array':
            t.mask, ref = new.copy(), new
        elif op == 'u1':
            t.mask, ref = new.astype('u1'), new
        elif op == 'int':
            t.mask, ref = new * c.int(1, 1000), new
        elif op == 'list':
            t.mask, ref = new.tolist(), new
        elif op == 'bad':
            bad = tuple(n + 1 for n in shape)

            def set_():
                t.mask = np.zeros(bad, bool)

            c.raises(ValueError, set_, 'mask:refused', f'shape {bad} for {shape}')
        look('set')
    # header
    h = t.header
    c.check([h[f'NAXIS{i + 1}'] for i in range(t.ndim)] == list(shape[::-1]), 'header:naxis', f'{h!r}')

    def wrong():
        t.header = c.choice(['a', {'a': 1}, 3])

    c.raises(TypeError, wrong, 'header:refused')
    c.check(t.header is h, 'header:refused', 'the header was changed')
    s = str(t)
    n = shape[-1]
    c.check(f'{n} sample' in s and (len(shape) == 1 or f'{shape[-2]} detector' in s), 'str', s)


def conversions(c):
    """An instance of a class made from one of another class."""
    import pysimulators as ps

    x, m, what = create(c)
    cls = c.choice(['FitsArray', 'Map', 'Tod'])
    subok, cp = c.coin(), c.coin()
    given = {}
    names = NAMES[cls]
    shape = m.data.shape
    for k in names:
        if c.coin(0.3):
            given[k] = c.rng.random(shape) < 0.5 if k == 'mask' else some(c, shape)
    if c.coin(0.3):
        given['unit'] = 'kpc'
    if cls == 'Map' and c.coin(0.3):
        given['origin'] = c.choice(['upper', ' Lower '])
    if c.coin(0.2):
        given['header'] = fits.Header({'OTHER': 1})
    c.note(what=what, cls=cls, subok=subok, copy=cp, given=sorted(given))
    y = getattr(ps, cls)(x, dtype=x.dtype, subok=subok, copy=cp, **given)
    kind = m.kind if subok and issubclass(type(x), getattr(ps, cls)) else cls
    c.check(type(y) is getattr(ps, kind), 'convert:class', f'{type(y)} instead of {kind}')
    c.equal(y.magnitude, m.data, 'convert:values')
    if m.unit == '':
        c.check(y.unit == given.get('unit', ''), 'convert:unit', f'{y.unit}')
    elif 'unit' not in given:
        c.check(y.unit == ps.Quantity(1, m.unit).unit, 'convert:unit', f'{y.unit}')
    for k in NAMES[kind]:
        want = given.get(k, m.att.get(k))
        got = getattr(y, k)
        if want is None:
            c.check(got is None, f'convert:{k}', f'{got}')
        elif c.check(got is not None, f'convert:{k}', 'was lost'):
            c.equal(got, want, f'convert:{k}')
    if kind == 'Map':
        c.check(y.origin == given.get('origin', m.origin or 'lower').strip().lower(), 'convert:origin', f'{y.origin}')
    if 'header' in given:
        c.check(y.header is given['header'] or 'OTHER' in y.header, 'convert:header', f'{y.header!r}')
    else:
        c.check(y.header['KEY'] == m.cards['KEY'], 'convert:header', f'{y.header!r}')
        if cp:
            y.header['KEY'] = 'changed'
    if cp and x.size:
        y[...] = 5
    if cp:
        verify(c, x, m, 'convert:operand')
    if cls == 'Map':
        c.raises(ValueError, lambda: ps.Map(x, dtype=x.dtype, origin='middle'), 'origin:refused')
    c.raises(ValueError, lambda: getattr(ps, cls)(x, comm=object()), 'comm:refused')


def run(ctx):
    ctx.each('histories', 1200, 15000, histories)
    ctx.each('reductions', 600, 8000, reductions)
    ctx.each('specific', 400, 6000, specific)
    ctx.each('masks', 300, 4000, masks)
    ctx.each('conversions', 500, 7000, conversions)
