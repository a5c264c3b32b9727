"""C08: selection, packing and unpacking of tables against a list-of-indices model."""
import numpy as np

PROPERTY = 'C08'
from pysimulators import PackedTable  # noqa: E402
from pysimulators.quantities import Quantity  # noqa: E402

DTYPES = ['f8', 'f4', 'i8', 'i4', 'u2', 'c16', 'bool', 'S3', 'U2', 'rec']
REC = np.dtype([('a', 'f8'), ('b', 'i4')])


def values(c, shape, dt):
    n = int(np.prod(shape))
    if dt == 'rec':
        x = np.empty(n, REC)
        x['a'] = c.rng.permutation(n) + 0.5
        x['b'] = c.rng.permutation(n)
    elif dt == 'bool':
        x = c.rng.random(n) < 0.5
    elif dt in ('S3', 'U2'):
        x = c.rng.integers(0, 99, n).astype(dt)
    elif dt == 'c16':
        x = c.rng.permutation(n) + 1j * c.rng.permutation(n)
    elif dt == 'Q':
        return Quantity((c.rng.permutation(n) + 1.25).reshape(shape), 'K')
    else:
        x = c.rng.permutation(n).astype(dt)
    return x.reshape(shape)


MISSING = {'f8': np.nan, 'f4': np.nan, 'i8': -1, 'i4': -1, 'u2': 0, 'c16': np.nan, 'bool': False,
           'S3': b'', 'U2': '', 'Q': np.nan}


def layout(c, x):
    """The same values, in another memory layout."""
    k = c.int(0, 3)
    if k == 1 and x.ndim > 1:
        return np.asfortranarray(x) if type(x) is np.ndarray else x
    if k == 2 and type(x) is np.ndarray:
        b = np.empty((2 * x.shape[0],) + x.shape[1:], x.dtype)
        b[::2] = x
        return b[::2]
    if k == 3 and type(x) is np.ndarray:
        return x[::-1].copy()[::-1]
    return x


def rslice(c, n):
    def b():
        return None if c.coin(0.25) else c.int(-n - 2, n + 2)
    step = c.choice([None, 1, 1, 2, 3, -1, -2, n + 1])
    return slice(b(), b(), step)


def sel_new(c, shape):
    """A constructor selection: (selection, ordered list of flat indices, kind) ; list None = IndexError."""
    n = int(np.prod(shape))
    k = c.choice(['none', 'ellipsis', 'empty_tuple', 'ints', 'int_list', 'int', 'slice', 'mask', 'mask_list', 'tuple',
                  'tuple', 'empty_list', 'oob', 'one_slice'])
    ar = np.arange(n)
    if k == 'none':
        return None, list(ar), k
    if k == 'ellipsis':
        return Ellipsis, list(ar), k
    if k == 'empty_tuple':
        return (), list(ar), k
    if k in ('ints', 'int_list'):
        if n == 0:
            raise_skip()
        m = c.int(1, max(1, min(n, 12)))
        style = c.choice(['unique', 'dup', 'arith', 'sorted'])
        if style == 'unique':
            s = c.rng.permutation(n)[:m]
        elif style == 'sorted':
            s = np.sort(c.rng.permutation(n)[:m])
        elif style == 'dup':
            s = c.rng.integers(0, n, m)
        else:
            st = c.int(0, n - 1)
            s = np.arange(st, n, c.int(1, 3))
            if c.coin():
                s = s[::-1]
        exp = [int(_) for _ in s]
        s = np.where(c.rng.random(len(s)) < 0.3, s - n, s)
        c.note(style=style)
        dt = c.choice([None, None, np.int32, np.int16, np.uint16, np.uint64])
        if k == 'ints' and dt is not None and (np.dtype(dt).kind == 'i' or np.all(s >= 0)):
            s = s.astype(dt)
        return (s if k == 'ints' else [int(_) for _ in s]), exp, k
    if k == 'int':
        if n == 0:
            raise_skip()
        i = c.int(-n, n - 1)
        return c.choice([int, np.int64, np.int32])(i), [i % n], k
    if k == 'oob':
        i = c.choice([n, n + 3, -n - 1])
        return c.choice([i, [i], np.array([0, i])]), None, k
    if k == 'slice':
        s = rslice(c, n)
        return s, list(ar[s]), k
    if k in ('mask', 'mask_list'):
        m = c.rng.random(shape) < c.choice([0, 0.2, 0.5, 0.9, 1])
        exp = list(np.where(m.ravel())[0])
        if k == 'mask_list' and m.size == 0:
            k = 'mask'
        return (m if k == 'mask' else m.tolist()), exp, k
    if k == 'empty_list':
        return [], [], k
    if k == 'one_slice':
        s = rslice(c, shape[0])
        if len(shape) == 1:
            return (s,), list(ar[s]), k
        m = np.zeros(shape, bool)
        m[s] = True
        return (s,), list(np.where(m.ravel())[0]), k
    # tuple of slices, integers and one Ellipsis
    nd = c.int(1, len(shape))
    items = []
    ell = c.coin(0.4)
    pos = c.int(0, nd) if ell else None
    for i in range(nd):
        items.append(None)
    # dimension of each item
    if ell:
        dims = list(range(pos)) + list(range(len(shape) - (nd - pos), len(shape)))
    else:
        dims = list(range(nd))
    kinds = []
    for j, d in enumerate(dims):
        if shape[d] and c.coin(0.35):
            items[j] = c.int(-shape[d], shape[d] - 1)
            kinds.append('i')
        else:
            items[j] = rslice(c, shape[d])
            kinds.append('s')
    if ell:
        items.insert(pos, Ellipsis)
    if not ell and 's' not in kinds:
        items[0] = rslice(c, shape[0])
    if (ell or kinds.count('s') > 1) and c.coin(0.4):
        # one of the items is a sequence of integers or booleans
        j = c.int(0, len(dims) - 1)
        n_ = shape[dims[j]]
        if n_:
            form = c.choice(['list', 'array', 'int32', 'bools'])
            v = c.rng.integers(-n_, n_, c.int(1, n_)) if form != 'bools' else c.rng.random(n_) < 0.5
            jj = j + 1 if ell and j >= pos else j
            items[jj] = v.tolist() if form == 'list' else v.astype(np.int32) if form == 'int32' else v
            c.note(seq=form)
            k = 'tuple-sequence'
    t = tuple(items)
    m = np.zeros(shape, bool)
    m[t] = True
    if len(shape) == 1 and any(isinstance(_, slice) for _ in t):
        s = [_ for _ in t if isinstance(_, slice)][0]
        return t, list(ar[s]), 'tuple1d'
    return t, list(np.where(m.ravel())[0]), k


def raise_skip():
    from harness.core import Skip
    raise Skip


def sel_item(c, n):
    """A __getitem__ selection of a table of n elements: (selection, positions, kind)."""
    ar = np.arange(n)
    k = c.choice(['slice', 'slice', 'slice', 'ints', 'int', 'mask', 'ellipsis', 'list', 'oob', 'tuple', 'empty', 'full'])
    if k in ('ints', 'int', 'list') and n == 0:
        k = 'slice'
    if k == 'slice':
        s = rslice(c, n)
        return s, ar[s], k
    if k == 'full':
        return slice(None), ar, k
    if k == 'tuple':
        if n and c.coin(0.4):
            i = c.int(-n, n - 1)
            return c.choice([(i, Ellipsis), (Ellipsis, i)]), ar[[i]], k
        s = rslice(c, n)
        return c.choice([(s,), (s, Ellipsis)]), ar[s], k
    if k in ('ints', 'list'):
        m = c.int(1, min(n, 10))
        s = c.choice([c.rng.integers(0, n, m), c.rng.permutation(n)[:m], np.sort(c.rng.permutation(n)[:m]),
                      np.arange(c.int(0, n - 1), n, c.int(1, 3))])
        neg = np.where(c.rng.random(len(s)) < 0.3, s - n, s)
        if k == 'ints' and c.coin(0.4):
            neg = neg.astype(c.choice([np.int32, np.int16, np.intp] if (neg < 0).any() else [np.int32, np.uint8, np.uint32]))
        return (neg if k == 'ints' else [int(_) for _ in neg]), s, k
    if k == 'int':
        i = c.int(-n, n - 1)
        return i, ar[[i]], k
    if k == 'mask':
        m = c.rng.random(n) < c.choice([0, 0.3, 0.7, 1])
        return m, ar[m], k
    if k == 'ellipsis':
        return c.choice([Ellipsis, None, ()]), ar, k
    if k == 'empty':
        return [], ar[:0], k
    return c.choice([n, -n - 1, [n + 2]]), None, k


class Model:
    def __init__(self, shape, ndim, idx, attrs):
        self.shape, self.ndim, self.idx, self.attrs = shape, ndim, [int(_) for _ in idx], attrs

    def take(self, pos):
        pos = [int(_) for _ in pos]
        return Model(self.shape, self.ndim, [self.idx[_] for _ in pos],
                     {k: (v[pos] if np.ndim(v) else v) for k, v in self.attrs.items()})

    @property
    def actual(self):
        return self.shape[: self.ndim]

    def unpacked(self, v, missing):
        n = int(np.prod(self.actual))
        out = np.empty((n,) + v.shape[1:], v.dtype)
        if v.dtype == REC:
            out['a'] = np.nan
            out['b'] = -1
        else:
            out[...] = missing
        for j, i in enumerate(self.idx):
            out[i] = v[j if v.shape[0] != 1 else 0]
        return out.reshape(self.actual + v.shape[1:])

    @property
    def unique(self):
        return len(set(self.idx)) == len(self.idx)


def same(c, got, want, key, msg=''):
    a = np.asarray(got)
    w = np.asarray(want)
    if w.dtype == REC:
        ok = a.dtype == REC and a.shape == w.shape and np.array_equal(a['a'], w['a'], equal_nan=True) and \
            np.array_equal(a['b'], w['b'])
        return c.check(ok, key, lambda: f'{msg}: got {a!r}, expected {w!r}')
    if a.dtype != w.dtype:
        return c.check(False, key, f'{msg}: dtype {a.dtype} instead of {w.dtype}')
    return c.equal(a, w, key, msg)


def observe(c, t, m, dts, what):
    c.check(len(t) == len(m.idx), 'length', lambda: f'{what}: len {len(t)} instead of {len(m.idx)}')
    c.equal(t.index, np.array(m.idx, int), 'index', what)
    c.check(t.index.dtype == np.int64, 'index_dtype', what)
    for k, v in m.attrs.items():
        same(c, getattr(t, k), v, 'attribute', f'{what}: {k}')
        if np.ndim(v) and m.unique:
            a = getattr(t.all, k)
            same(c, a, m.unpacked(np.asarray(v), MISSING.get(dts[k])), 'all_attribute', f'{what}: all.{k}')
            c.check(not a.flags.writeable, 'all_readonly', what)
            if dts[k] == 'Q':
                c.check(isinstance(a, Quantity) and a.unit == 'K', 'all_quantity', lambda: f'{what}: {a!r}')
    if m.unique:
        rem = np.ones(int(np.prod(m.actual)), bool)
        rem[m.idx] = False
        c.equal(t.all.removed, rem.reshape(m.actual), 'removed', what)
    c.check(t.shape == m.shape and t.ndim == m.ndim, 'shape', what)


def make(c, maxsize=60):
    nd = c.choice([1, 1, 2, 2, 2, 3])
    shape = tuple(c.int(1, {1: 12, 2: 6, 3: 4}[nd]) for _ in range(nd))
    if c.coin(0.05):
        shape = shape[:-1] + (0,)
    ndim = c.choice([None, None, None] + list(range(1, nd + 1)))
    actual = shape[: ndim or nd]
    sel, idx, kind = sel_new(c, actual)
    c.note(shape=shape, ndim=ndim, kind=kind, sel=repr(sel)[:120])
    ordering = None
    if c.coin(0.35):
        n = int(np.prod(actual))
        ok = c.choice(['perm', 'dup', 'neg', 'allneg', 'rev'])
        ordering = {'perm': c.rng.permutation(n), 'dup': c.rng.integers(0, 4, n),
                    'neg': c.rng.integers(-2, n + 1, n), 'allneg': np.full(n, -1),
                    'rev': np.arange(n)[::-1]}[ok].reshape(actual)
        c.note(ordering=ok)
    cls = c.choice([PackedTable]) if ndim is None else PackedTable
    attrs, dts, kw = {}, {}, {}
    for name in ['gain', 'extra', 'lab'][: c.int(0, 3)]:
        dt = c.choice(DTYPES + ['Q', 'scalar', 'callable'])
        if dt == 'scalar':
            kw[name] = c.int(0, 5)
            attrs[name] = np.array(kw[name])
            dts[name] = 'i8'
            continue
        if dt == 'callable':
            continue
        extra = c.choice([(), (), (2,), (3, 2)])
        v = values(c, actual + extra, dt)
        dts[name] = dt
        kw[name] = layout(c, v)
        attrs[name] = v.reshape((-1,) + extra) if v.size else v.reshape((int(np.prod(actual)),) + extra)
    c.note(dts=dts, cls=cls.__name__)
    if idx is None:
        c.raises(IndexError, lambda: cls(shape, selection=sel, ordering=ordering, ndim=ndim, **kw), 'out_of_bounds')
        return None
    if ordering is not None:
        o = ordering.ravel()
        present = np.zeros(o.size, bool)
        present[np.array(idx, int)] = True
        idx = [i for i in np.argsort(o, kind='stable') if present[i] and o[i] >= 0]
    original = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    osel = sel.copy() if isinstance(sel, np.ndarray) else sel
    oord = None if ordering is None else ordering.copy()
    t = cls(shape, selection=sel, ordering=ordering, **({} if ndim is None else dict(ndim=ndim)), **kw)
    if isinstance(sel, np.ndarray):
        c.equal(sel, osel, 'selection_modified')
    if ordering is not None:
        c.equal(ordering, oord, 'ordering_modified')
    for k, v in original.items():
        same(c, kw[k], v, 'input_modified', k)
    m = Model(shape, ndim or nd, idx, {k: (v[np.array(idx, int)] if v.ndim else v) for k, v in attrs.items()})
    for k in attrs:      # the table must not alias what it was given
        if np.ndim(attrs[k]) and kw[k].size:
            c.check(not np.shares_memory(np.asarray(getattr(t, k)), np.asarray(kw[k])), 'attribute_aliases_input', k)
    return t, m, dts


def case_history(c):
    r = make(c)
    if r is None:
        return
    t, m, dts = r
    observe(c, t, m, dts, 'constructed')
    hist = []
    live = [(t, m)]
    for step in range(c.int(1, 6)):
        j = c.int(0, len(live) - 1)
        t, m = live[j]
        op = c.choice(['get', 'get', 'get', 'get', 'split', 'copy', 'set', 'setscalar', 'setbad', 'new', 'setall', 'setallbad'])
        if op == 'get':
            s, pos, k = sel_item(c, len(m.idx))
            hist.append(f'get:{k}')
            c.note(hist=hist, last=repr(s)[:80])
            if pos is None:
                c.raises(IndexError, lambda: t[s], 'getitem_out_of_bounds')
                continue
            t2, m2 = t[s], m.take(pos)
            c.check(type(t2) is type(t), 'type', '')
            if k == 'ellipsis' or k == 'full':
                c.check(t2 is t, 'full_selection_is_self', '')
                continue
        elif op == 'split':
            n = c.int(1, len(m.idx) + 2)
            hist.append(f'split{n}')
            c.note(hist=hist)
            parts = t.split(n)
            c.check(isinstance(parts, tuple) and len(parts) == n, 'split_number', '')
            sizes = [len(_) for _ in parts]
            c.check(max(sizes) - min(sizes) <= 1 and sum(sizes) == len(m.idx), 'split_balanced', lambda: str(sizes))
            off = 0
            for p in parts:
                observe(c, p, m.take(range(off, off + len(p))), dts, f'split {n}')
                off += len(p)
            q = c.int(0, n - 1)
            o = sum(sizes[:q])
            t2, m2 = parts[q], m.take(range(o, o + sizes[q]))
        elif op == 'copy':
            hist.append('copy')
            c.note(hist=hist)
            t2 = t.copy()
            m2 = m.take(range(len(m.idx)))
            for k, v in m.attrs.items():
                if np.ndim(v):
                    c.check(not np.shares_memory(np.asarray(getattr(t, k)), np.asarray(getattr(t2, k))),
                            'copy_is_deep', k)
            if m.attrs:
                k = c.choice(list(m.attrs))
                v = getattr(t2, k)
                if np.ndim(v) and v.size and v.flags.writeable and dts[k] != 'rec':
                    v[...] = v.ravel()[0]
                    m2.attrs[k] = np.array(v)
        elif op in ('set', 'new'):
            k = 'gain' if op == 'set' else 'added'
            if op == 'set' and k not in m.attrs:
                continue
            if op == 'new':
                continue
            dt = c.choice(['f8', 'i4', 'Q'])
            v = values(c, (len(m.idx),) + c.choice([(), (2,)]), dt)
            hist.append(f'set:{dt}')
            c.note(hist=hist)
            t.gain = v
            m.attrs['gain'] = v.copy()
            if dt != dts['gain']:     # the other tables of the history keep their own attribute
                dts = dict(dts)
                dts['gain'] = dt
                live = [(t, m)]
            t2, m2 = t, m
        elif op == 'setscalar':
            if 'gain' not in m.attrs:
                continue
            hist.append('setscalar')
            c.note(hist=hist)
            old = np.asanyarray(m.attrs['gain'])
            new = old.copy()
            if old.dtype.names or old.dtype.kind not in 'fiuc':
                continue
            v = c.choice([2, np.array(3), np.int8(4)])
            new[...] = v
            t.gain = v
            m.attrs['gain'] = new
            t2, m2 = t, m
        elif op == 'setbad':
            if 'gain' not in m.attrs:
                continue
            hist.append('setbad')
            c.note(hist=hist)

            def bad():
                t.gain = np.zeros(len(m.idx) + 1)
            c.raises(ValueError, bad, 'set_wrong_size')

            def bad2():
                setattr(t, c.choice(['index', 'shape', 'ndim', 'removed', 'all', 'comm']), 3)
            c.raises(AttributeError, bad2, 'set_reserved')
            t2, m2 = t, m
        elif op == 'setall':
            if 'gain' not in m.attrs:
                continue
            ext = c.choice([(), (2,)])
            v = values(c, m.actual + ext, 'f8')
            hist.append('setall')
            c.note(hist=hist)
            t.all.gain = v
            m.attrs['gain'] = v.reshape((int(np.prod(m.actual)),) + ext)[np.array(m.idx, int)]
            if dts['gain'] != 'f8':
                dts = dict(dts)
                dts['gain'] = 'f8'
                live = [(t, m)]
            if v.size:
                c.check(not np.shares_memory(np.asarray(t.gain), v), 'setall_aliases', '')
            t2, m2 = t, m
        else:
            hist.append('setallbad')
            c.note(hist=hist)

            def bad():
                t.all.unknown = 3
            c.raises(AttributeError, bad, 'setall_unknown')
            c.raises(AttributeError, lambda: t.all.unknown, 'getall_unknown')
            if 'gain' in m.attrs:
                def bad():
                    t.all.gain = np.zeros((m.actual[0] + 1,) + m.actual[1:])
                c.raises(ValueError, bad, 'setall_wrong_shape')
            t2, m2 = t, m
        observe(c, t2, m2, dts, ' '.join(hist))
        if t2 is not t:
            observe(c, t, m, dts, 'source after ' + ' '.join(hist))
            live.append((t2, m2))
    for t, m in live:
        observe(c, t, m, dts, 'finally, after ' + ' '.join(hist))


def case_pack(c):
    """pack and unpack of arrays, on a table that went through selections."""
    r = make(c)
    if r is None:
        return
    t, m, dts = r
    for _ in range(c.int(0, 2)):
        s, pos, k = sel_item(c, len(m.idx))
        if pos is None:
            continue
        t, m = t[s], m.take(pos)
    n = len(m.idx)
    dt = c.choice(DTYPES + ['Q'])
    extra = c.choice([(), (), (2,), (1,), (3, 2)])
    copy = c.coin()
    c.note(pdt=dt, extra=extra, copy=copy, n=n)
    x0 = values(c, m.actual + extra, dt)
    x = layout(c, x0)
    ref = x0.reshape((int(np.prod(m.actual)),) + extra)[np.array(m.idx, int)]
    y = t.pack(x, copy=copy)
    same(c, y, ref, 'pack')
    c.check(type(y) is type(x) and getattr(y, 'unit', '') == getattr(x, 'unit', ''), 'pack_type', lambda: repr(y))
    same(c, x, x0, 'pack_input')
    if copy and y.size:
        c.check(not np.shares_memory(np.asarray(x), np.asarray(y)), 'pack_copy', '')
    big = np.zeros((2 * n + 1,) + extra, ref.dtype)
    for out in (np.empty((n,) + extra, ref.dtype), big[1::2]):
        z = t.pack(x, out=out)
        c.check(z is out, 'pack_out', '')
        same(c, out, ref, 'pack_out_values')
    same(c, big[::2], np.zeros((n + 1,) + extra, ref.dtype), 'pack_out_canary')
    c.raises(ValueError, lambda: t.pack(x, out=np.empty((n + 1,) + extra, ref.dtype)), 'pack_out_shape')
    c.raises(TypeError, lambda: t.pack(x, out=[0] * n), 'pack_out_type')
    c.raises(ValueError, lambda: t.pack(np.zeros((m.actual[0] + 1,) + m.actual[1:])), 'pack_shape')
    c.check(t.pack(None) is None and t.unpack(None) is None, 'pack_none', '')
    if not m.unique:
        return
    copy = c.coin()
    p0 = values(c, (n,) + extra, dt)
    p = layout(c, p0) if n else p0
    miss = None
    if dt not in ('rec',) and c.coin():
        miss = {'S3': b'zz', 'U2': 'z', 'bool': True}.get(dt, 7)
    want = m.unpacked(np.asarray(p0), MISSING.get(dt) if miss is None else miss)
    u = t.unpack(p, copy=copy, missing_value=miss)
    same(c, u, want, 'unpack')
    c.check(type(u) is type(p) and getattr(u, 'unit', '') == getattr(p, 'unit', ''), 'unpack_type', lambda: repr(u))
    same(c, p, p0, 'unpack_input')
    if copy and u.size:
        c.check(not np.shares_memory(np.asarray(u), np.asarray(p)), 'unpack_copy', '')
    shp = m.actual + extra
    big = np.zeros(shp[:-1] + (2 * shp[-1] + 1,), want.dtype)
    for out in (np.empty(shp, want.dtype), np.empty(shp, want.dtype, order='F'), big[..., 1::2]):
        z = t.unpack(p, out=out, missing_value=miss)
        c.check(z is out, 'unpack_out', '')
        same(c, out, want, 'unpack_out_values')
    same(c, big[..., ::2], np.zeros(shp[:-1] + (shp[-1] + 1,), want.dtype), 'unpack_out_canary')
    c.raises(ValueError, lambda: t.unpack(p, out=np.empty((shp[0] + 1,) + shp[1:], want.dtype)), 'unpack_out_shape')
    c.raises(ValueError, lambda: t.unpack(np.zeros(n + 2)), 'unpack_shape')
    # inverses
    same(c, t.pack(t.unpack(p)), p0, 'unpack_then_pack')
    if n > 1:
        one = values(c, (1,) + extra, dt)
        same(c, t.unpack(one, missing_value=miss),
             m.unpacked(np.repeat(np.asarray(one), n, axis=0), MISSING.get(dt) if miss is None else miss),
             'unpack_broadcast')


def case_callable(c):
    """Callable attributes are evaluated on the elements of the (restricted) table."""
    nd = c.int(1, 2)
    shape = tuple(c.int(1, 5) for _ in range(nd))
    sel, idx, kind = sel_new(c, shape)
    if idx is None:
        return
    c.note(shape=shape, kind=kind, sel=repr(sel)[:80])
    k = c.int(1, 5)

    class T(PackedTable):
        def __init__(self, shape, **kw):
            PackedTable.__init__(self, shape, method=None, **kw)

        def method(self):
            return self.gain * 3

    g = values(c, shape, 'f8')
    t = T(shape, selection=sel, gain=g, f0=lambda: 4, f1=lambda s: s.gain * k, f2=lambda s, x: s.gain + x,
          d0=lambda x=5: x, d1=lambda s, x=k, y=1: s.gain * x + y, d2=lambda s, x, y=2: s.gain + x * y)
    idx = np.array(idx, int)
    if c.coin():
        s, pos, _ = sel_item(c, len(idx))
        if pos is not None:
            t = t[s]
            idx = idx[pos]
    gg = g.ravel()[idx]
    m = Model(shape, nd, idx, {})
    c.check(t.f0 == 4, 'callable0', '')
    c.equal(t.f1, gg * k, 'callable1')
    c.equal(t.f2(2.5), gg + 2.5, 'callable2')
    c.check(t.d0 == 5, 'callable0', '')
    c.equal(t.d1, gg * k + 1, 'callable1')
    c.equal(t.d2(2.5), gg + 5, 'callable2')
    c.equal(t.d2(2.5, y=1), gg + 2.5, 'callable2')
    c.equal(t.method, gg * 3, 'callable_method')
    if m.unique:
        c.equal(t.all.f1, m.unpacked(gg * k, np.nan), 'all_callable1')
        c.equal(t.all.f2(1), m.unpacked(gg + 1, np.nan), 'all_callable2')

        def bad():
            t.all.gain = lambda s: 3
        c.raises(TypeError, bad, 'set_all_callable')


def case_refused(c):
    """Selections, orderings and attributes that do not fit."""
    nd = c.int(1, 3)
    shape = tuple(c.int(2, 4) for _ in range(nd))
    n = int(np.prod(shape))
    new = lambda **k: PackedTable(shape, **k)
    t = new(gain=np.arange(n, dtype=float).reshape(shape))
    c.note(shape=shape)
    f = c.rng.random()
    for s in (f, np.float64(f), np.float32(2), [f], [1.0, 0.0], np.zeros(n), np.zeros(shape), np.zeros(2, complex), 'a', ['a'], {}, object()):
        c.raises(TypeError, lambda: new(selection=s), 'refused:selection:type', repr(s)[:60])
        c.raises(TypeError, lambda: t[s], 'refused:getitem:type', repr(s)[:60])
    b = c.coin()
    bools = [b, np.bool_(b), np.array(b), np.full(n + 1, b), np.full(n - 1, b), [b] * (n + 1), np.full((1,) + shape, b)]
    for s in bools:
        c.raises(ValueError, lambda: new(selection=s), 'refused:selection:bool', repr(s)[:60])
        c.raises(ValueError, lambda: t[s], 'refused:getitem:bool', repr(s)[:60])
    if nd > 1:
        c.raises(ValueError, lambda: new(selection=np.full(n, b)), 'refused:selection:bool', 'flat')
        c.raises(ValueError, lambda: t[np.full(shape, b)], 'refused:getitem:bool', 'unpacked')
    two = np.zeros((c.int(1, 3), c.int(1, 3)), c.choice([int, np.int32, np.uint8]))
    c.raises(ValueError, lambda: new(selection=two), 'refused:selection:2d')
    c.raises(ValueError, lambda: t[two], 'refused:getitem:2d')
    more = (slice(None),) + (c.choice([0, slice(1)]),) * nd
    c.raises(ValueError, lambda: new(selection=more), 'refused:selection:ndim')
    c.raises(ValueError, lambda: t[slice(None), c.choice([0, slice(1)])], 'refused:getitem:ndim')
    out = tuple(c.choice([s_, -s_ - 1, s_ + 7]) if i == nd - 1 else slice(None) for i, s_ in enumerate(shape))
    if nd > 1:
        c.raises(IndexError, lambda: new(selection=out), 'refused:selection:bounds')
    for bad in (np.arange(n + 1), np.arange(n).reshape(shape + (1,)), np.arange(n).reshape(shape)[1:]):
        c.raises(ValueError, lambda: new(ordering=bad), 'refused:ordering', str(bad.shape))
    for bad in (0, -1, nd + 1):
        c.raises(ValueError, lambda: new(ndim=bad), 'refused:ndim', str(bad))
    for bad in (np.zeros(n + 1), np.zeros((shape[0] + 1,) + shape[1:])):
        c.raises(ValueError, lambda: new(gain=bad), 'refused:attribute', str(bad.shape))
    for name in ('index', 'removed', 'shape', 'comm', 'all', 'ndim'):
        def setall():
            setattr(t.all, name, np.zeros(shape))
        c.raises(AttributeError, setall, 'refused:all:reserved', name)
    c.equal(t.all.gain, np.arange(n, dtype=float).reshape(shape), 'refused:side_effect')
    c.equal(t.index, np.arange(n), 'refused:side_effect')


def run(ctx):
    ctx.each('refused', 60, 3000, case_refused)
    ctx.each('history', 900, 30000, case_history)
    ctx.each('pack', 900, 30000, case_pack)
    ctx.each('callable', 200, 5000, case_callable)
