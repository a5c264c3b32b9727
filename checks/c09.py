"""C09: distribution over MPI processes is a partition of the whole."""
import os

import numpy as np
from astropy.io import fits

from checks.gen_acq import Known

PROPERTY = 'C09'
RULE = 'the parts of all the processes put together compared with the whole'


class Grid:
    """A communicator for the functions that only ask for their rank."""

    def __init__(self, size, rank):
        self.size, self.rank = size, rank

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


def parts(n, size):
    base, more = divmod(n, size)
    stops = np.cumsum([base + (r < more) for r in range(size)])
    return [slice(int(b - base - (r < more)), int(b)) for r, b in enumerate(stops)]


def header(c, nlast=None):
    naxis = c.int(1, 3)
    h = fits.Header()
    h['SIMPLE'] = True
    h['BITPIX'] = -64
    h['NAXIS'] = naxis
    for i in range(1, naxis + 1):
        h[f'NAXIS{i}'] = c.int(0, 30) if c.coin(0.2) else c.int(1, 30)
    if nlast is not None:
        h[f'NAXIS{naxis}'] = nlast
    wcs = c.coin(0.85)
    if wcs:
        for i in range(1, naxis + 1):
            h[f'CRPIX{i}'] = c.choice([1., -4., 10.25, 300.5, round(float(c.rng.uniform(-50, 50)), 3)])
            h[f'CRVAL{i}'] = round(float(c.rng.uniform(0, 80)), 3)
            h[f'CDELT{i}'] = c.choice([-0.1, 0.25, 2.])
            h[f'CTYPE{i}'] = ['RA---TAN', 'DEC--TAN', 'WAVE'][i - 1]
    h['OBJECT'] = 'M31'
    h.add_comment('as it is')
    return h, naxis, wcs


def cards(h, *skip):
    return [(_.keyword, _.value, _.comment) for _ in h.cards if _.keyword not in skip]


def compare_local(c, local, h, naxis, s, key):
    last, ref = f'NAXIS{naxis}', f'CRPIX{naxis}'
    c.check(local[last] == s.stop - s.start, key + ':size', lambda: f'{last}={local[last]} instead of {s.stop - s.start}')
    if ref in h:
        # pixel i of the part is pixel i + start of the whole
        c.check(abs(local[ref] + s.start - h[ref]) < 1e-9, key + ':reference',
                lambda: f'{ref}={local[ref]} for the part starting at {s.start} of {h[ref]}')
    else:
        c.check(ref not in local, key + ':reference', f'{ref} appeared')
    c.check(cards(local, last, ref) == cards(h, last, ref), key + ':cards',
            lambda: f'{cards(local, last, ref)} instead of {cards(h, last, ref)}')


def scatter_headers(c):
    from pysimulators.mpiutils import gather_fitsheader, gather_fitsheader_if_needed, scatter_fitsheader

    h, naxis, wcs = header(c)
    size = c.choice([1, 2, 3, 4, 5, 7, 13, 40])
    c.note(size=size, naxis=naxis, n=h[f'NAXIS{naxis}'], wcs=wcs)
    before = cards(h)
    for rank, s in enumerate(parts(h[f'NAXIS{naxis}'], size)):
        local = scatter_fitsheader(h, Grid(size, rank))
        c.check(local is not h, 'header:scatter:copy', 'the header itself is returned')
        compare_local(c, local, h, naxis, s, 'header:scatter')
        local['OBJECT'] = 'changed'
        c.check(cards(h) == before, 'header:scatter:operand', 'the global header has changed')
    bad = fits.Header()
    for func in scatter_fitsheader, gather_fitsheader, gather_fitsheader_if_needed:
        c.raises(KeyError, lambda: func(bad), 'header:empty')
    bad['NAXIS'] = 0
    for func in scatter_fitsheader, gather_fitsheader, gather_fitsheader_if_needed:
        c.raises(KeyError, lambda: func(bad), 'header:scalar')
    c.check(list(bad) == ['NAXIS'], 'header:refused', 'a refused header has changed')


def distribute(c):
    from pysimulators.mpiutils import distribute_observation

    shape = c.choice([(c.int(1, 40),), (c.int(1, 8), c.int(1, 8)), (2, c.int(1, 4), c.int(1, 4))])
    det = c.rng.random(shape) < c.choice([0, 0, 0.2, 0.7])
    if c.coin(0.03):
        det[...] = True
    lay = c.choice(['c', 'c', 'f', 'strided'])
    if lay == 'f':
        det = np.asfortranarray(det)
    elif lay == 'strided':
        big = np.ones(tuple(2 * n for n in shape), bool)
        big[tuple(slice(None, None, 2) for _ in shape)] = det
        det = big[tuple(slice(None, None, 2) for _ in shape)]
    nobs = c.choice([1, 1, 2, 3, c.int(1, 20), c.int(1, 20)])
    if c.coin(0.03):
        nobs = 0
    size = c.choice([1, 2, 3, 4, 6, 7, 8, 16, 31, 64, 100])
    threads = c.choice([1, 1, 2, 4, 8, 50])
    obs = c.choice([list, tuple])([f'obs{i}' for i in range(nobs)])
    explicit = c.coin(0.3)
    c.note(shape=shape, valid=int((~det).sum()), nobs=nobs, size=size, threads=threads, layout=lay, rank=explicit)
    keep, keepobs = det.copy(), list(obs)
    old = os.environ.get('OMP_NUM_THREADS')
    count = np.zeros(shape + (nobs,), int)
    work = []
    try:
        os.environ['OMP_NUM_THREADS'] = str(threads)
        for rank in range(size):
            if explicit:
                d, o = distribute_observation(det, obs, rank=rank, comm=Grid(size, -1))
            else:
                d, o = distribute_observation(det, obs, comm=Grid(size, rank))
            c.check(d.shape == shape and d.dtype == bool, 'observation:mask', f'{d.shape} {d.dtype}')
            c.check(all(_ in keepobs for _ in o) and len(set(o)) == len(o), 'observation:list', f'{o}')
            c.check(not (keep & ~d).any(), 'observation:masked', 'a masked detector is given some work')
            c.check(not np.shares_memory(d, det), 'observation:copy', 'the mask of the detectors is shared')
            for _ in o:
                count[..., keepobs.index(_)] += ~d
            work.append((~d).sum() * len(o))
            c.check(np.array_equal(det, keep) and list(obs) == keepobs, 'observation:operand', 'the inputs have changed')
    finally:
        if old is None:
            del os.environ['OMP_NUM_THREADS']
        else:
            os.environ['OMP_NUM_THREADS'] = old
    c.check(bool(np.all(count == ~keep[..., None])), 'observation:once',
            lambda: f'{int((count[~keep] != 1).sum())} pairs are not processed exactly once')


ATTRS = {
    'f8': lambda c, s: np.round(c.rng.uniform(-9, 9, s), 3),
    'f4': lambda c, s: np.round(c.rng.uniform(-9, 9, s), 3).astype('f4'),
    'i1': lambda c, s: c.rng.integers(-9, 9, s).astype('i1'),
    'b': lambda c, s: c.rng.random(s) < 0.5,
    'c16': lambda c, s: c.rng.uniform(-9, 9, s) + 1j,
    'rec': lambda c, s: np.array(
        [(i, i / 2) for i in range(int(np.prod(s)))], [('i', 'i4'), ('v', 'f8')]).reshape(s),
    'S': lambda c, s: c.rng.integers(0, 999, s).astype('S3'),
    'U': lambda c, s: c.rng.integers(0, 999, s).astype('U3'),
}


def blank(dt):
    dt = np.dtype(dt)
    if dt.names:
        x = np.empty((), dt)
        for n in dt.names:
            x[n] = blank(dt[n])
        return x
    return {'b': False, 'i': -1, 'u': 0, 'f': np.nan, 'c': np.nan, 'S': b'', 'U': ''}[dt.kind]


class Values(dict):
    """The values of the attributes of a table, and the units of some of them."""

    units = {}

    def same_units(self, c, got, key):
        for k in self:
            u = getattr(got(k), 'unit', None)
            c.check(u == self.units.get(k), key, lambda: f'{k}: unit {u!r} instead of {self.units.get(k)!r}')


class Quantified:
    def __init__(self, unit):
        self.unit = unit


def table(c):
    """A table, and what it must contain."""
    import pysimulators as ps

    full = c.choice([(c.int(1, 12),), (c.int(1, 5), c.int(1, 5)), (c.int(1, 3), c.int(1, 3), c.int(1, 3))])
    ndim = len(full) if c.coin(0.8) else c.int(1, len(full))
    shape = full[:ndim]
    n = int(np.prod(shape))
    kw = {}
    kind = c.choice(['all', 'all', 'bool', 'ordering', 'int', 'slice', 'indexed'])
    index = np.arange(n)
    if kind == 'bool':
        sel = c.rng.random(shape) < 0.6
        kw['selection'] = sel
        index = np.flatnonzero(sel)
    elif kind == 'int':
        index = c.rng.permutation(n)[:c.int(1, n)]
        kw['selection'] = index
    elif kind == 'slice':
        s = slice(c.int(0, n - 1), None, c.int(1, 3)) if c.coin() else slice(None, None, -1)
        kw['selection'] = s
        index = index[s]
    elif kind == 'ordering':
        o = c.rng.permutation(n)
        o[c.rng.random(n) < 0.2] = -1
        kw['ordering'] = o.reshape(shape)
        index = np.argsort(o, kind='stable')[(o < 0).sum():]
    values = Values()
    for i in range(c.int(1, 3)):
        dt = c.choice(list(ATTRS))
        extra = c.choice([(), (), (2,), (2, 3)])
        values[f'x{i}'] = ATTRS[dt](c, shape + extra)
    cls = c.choice([ps.PackedTable, ps.PackedTable, ps.Layout]) if ndim == len(full) else ps.PackedTable
    func = lambda self: self.index * 2.
    if cls is ps.Layout:
        values['center'] = np.round(c.rng.uniform(-9, 9, shape + (2,)), 3)
    values.units = {k: c.choice(['Jy', 'arcsec', 'km']) for k, v in values.items() if v.dtype == float and c.coin(0.4)}
    given = {k: ps.Quantity(v, values.units[k]) if k in values.units else v for k, v in values.items()}
    t = cls(full, ndim=ndim, nothing=None, one=2.5, zero=np.array(3), func=func, **kw, **given)
    if kind == 'indexed':
        s = c.choice([slice(None, None, 2), slice(c.int(0, n), None), c.rng.permutation(n)[:c.int(0, n)]])
        t, index = t[s], index[s]
    c.note(shape=full, ndim=ndim, kind=kind, cls=cls.__name__, attrs={k: str(v.dtype) + str(v.shape) for k, v in values.items()})
    return t, shape, index, values


def local_ok(c, t, shape, index, values, key):
    c.check(len(t) == len(index), key + ':len', lambda: f'{len(t)} instead of {len(index)}')
    c.equal(t.index, index, key + ':index')
    for k, v in values.items():
        got = getattr(t, k)
        c.check(got.dtype == v.dtype, key + ':dtype', f'{k} {got.dtype}')
        c.equal(got, v.reshape((-1,) + v.shape[len(shape):])[index], key + ':values')
    values.same_units(c, lambda k: getattr(t, k), key + ':unit')
    c.equal(t.func, index * 2., key + ':func')
    c.check(t.nothing is None and t.one == 2.5 and t.zero == 3, key + ':scalars', f'{t.nothing} {t.one} {t.zero}')


def unpacked(v, shape, index):
    flat = v.reshape((-1,) + v.shape[len(shape):])
    out = np.empty_like(flat)
    out[...] = blank(v.dtype)
    out[index] = flat[index]
    return out.reshape(v.shape)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.names:
        return all(same(a[n], b[n]) for n in a.dtype.names)
    if a.dtype.kind in 'fc':
        return np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def scatter_tables(c):
    t, shape, index, values = table(c)
    size = c.choice([1, 2, 3, 4, 5, 8, 13])
    c.note(size=size)
    for rank, s in enumerate(parts(len(index), size)):
        comm = Grid(size, rank)
        x = t.scatter(comm)
        if size == 1:
            c.check(x is t, 'scatter:one', 'not the same table')
            break
        c.check(x.comm is comm, 'scatter:comm', f'{x.comm}')
        local_ok(c, x, shape, index[s], values, 'scatter')
        c.raises(ValueError, lambda: x.scatter(comm), 'scatter:twice')
        for k in values:
            a = getattr(x, k)
            c.check(not np.shares_memory(a, getattr(t, k)), 'scatter:shared', 'the part shares the memory of the whole')
            if a.size and a.dtype.kind == 'f':
                a[...] = 77
    local_ok(c, t, shape, index, values, 'scatter:operand')
    # the parts of a splitting are views
    n = c.int(1, 6)
    p = t.split(n)
    c.check(len(p) == n, 'split:number', f'{len(p)}')
    for x, s in zip(p, parts(len(index), n)):
        local_ok(c, x, shape, index[s], values, 'split')


# ------------------------------------------------------------------ MPI
def mpi_headers(c):
    from pysimulators.mpiutils import gather_fitsheader, gather_fitsheader_if_needed, scatter_fitsheader

    comm = c.ctx.comm
    h, naxis, wcs = header(c, None if c.coin(0.7) else c.int(0, comm.size))
    c.note(size=comm.size, naxis=naxis, n=h[f'NAXIS{naxis}'], wcs=wcs)
    before = cards(h)

    def func():
        local = scatter_fitsheader(h, comm)
        keep = cards(local)
        whole = gather_fitsheader(local, comm)
        return local, whole, cards(local) == keep

    obs = c.collect(func, 'gather')
    for (local, whole, unchanged), s in zip(obs, parts(h[f'NAXIS{naxis}'], comm.size)):
        compare_local(c, local, h, naxis, s, 'header:mpi')
        compare_local(c, whole, h, naxis, slice(0, h[f'NAXIS{naxis}']), 'header:gather')
        c.check(unchanged, 'header:gather:operand', 'the local header has changed')
    c.check(cards(h) == before, 'header:operand', 'the global header has changed')

    if wcs:
        # a header that is already global is returned as it is
        g = c.collect(lambda: cards(gather_fitsheader_if_needed(h, comm)), 'needed:global')
        for _ in g:
            c.check(_ == before, 'header:needed:global', lambda: f'{_} instead of {before}')
        ls = [_[0] for _ in obs]
        ref = f'CRPIX{naxis}'
        if any(_[ref] != ls[0][ref] for _ in ls):
            g = c.collect(lambda: gather_fitsheader_if_needed(ls[comm.rank], comm), 'needed:local')
            for _ in g:
                compare_local(c, _, h, naxis, slice(0, h[f'NAXIS{naxis}']), 'header:needed:local')
        k = c.choice([f'CRVAL{i}' for i in range(1, min(naxis, 2) + 1)]
                     + [f'CTYPE{i}' for i in range(1, min(naxis, 2) + 1)] + [f'CDELT{i}' for i in range(1, min(naxis, 2) + 1)]
                     + ['NAXIS'] * (naxis > 1) + [f'NAXIS{i}' for i in range(1, naxis)] + [f'CRPIX{i}' for i in range(1, naxis)])
        bad = h.copy()
        missing = c.coin(0.3) and k != 'NAXIS' and not k.startswith('NAXIS')
        if comm.rank == c.int(0, comm.size - 1):
            if missing:
                del bad[k]
            elif k.startswith('CTYPE'):
                bad[k] = 'GLON-TAN'
            elif k == 'NAXIS':
                bad[k] = naxis - 1
            else:
                bad[k] = bad[k] + 3

        def refuse():
            try:
                gather_fitsheader_if_needed(bad, comm)
            except ValueError:
                return True
            return False

        if c.coin():
            c.check(all(c.collect(refuse)), 'header:needed:incompatible', lambda: f'headers with different {k} are accepted, missing {missing}')


def mpi_tables(c):
    import pysimulators as ps

    comm = c.ctx.comm
    t, shape, index, values = table(c)
    c.note(size=comm.size)
    own = c.coin(0.3)
    obs = {}

    def func():
        local = t.scatter() if own else t.scatter(comm)
        lay = {k: np.array(getattr(local, k)) for k in values}
        un = {k: np.array(getattr(local.all, k)) for k in values}
        fn = np.array(local.all.func)
        removed = np.array(local.all.removed)
        index_ = np.array(local.index)
        ext = np.asfortranarray(np.arange(len(local) * 2.).reshape(len(local), 2) + 100 * comm.rank)
        g1 = local.gather(ext)
        g2 = local.gather(ext[:, 0])
        out = np.full(shape, -5.)
        un2 = local.unpack(ext[:, 0], missing_value=-7.)
        un3 = local.unpack(ext[:, 0], out=out, missing_value=-7.)
        whole = local.gather()
        w = {k: np.array(getattr(whole, k)) for k in values}
        after = all(same(getattr(local, k), lay[k]) for k in values) and same(local.index, index_)
        units = [{k: getattr(getattr(_, k), 'unit', None) for k in values} for _ in (local, local.all, whole)]
        q = local.gather(ps.Quantity(ext[:, 0], 'Jy', {'Jy': ps.Quantity(2., 'm')}))
        units.append((getattr(q, 'unit', None), np.array(q), str(getattr(q, 'derived_units', None))))
        return units, lay, un, fn, removed, index_, g1, g2, np.array(un2), np.array(un3), un3 is out, w, np.array(whole.index), len(whole), whole.one, whole.nothing, after

    obs = c.collect(func, 'tables')
    ps_ = parts(len(index), comm.size)
    ext = np.concatenate([np.arange((s.stop - s.start) * 2.).reshape(-1, 2) + 100 * r for r, s in enumerate(ps_)])
    rem = np.ones(int(np.prod(shape)), bool)
    rem[index] = False
    want2 = np.full(int(np.prod(shape)), -7.)
    want2[index] = ext[:, 0]
    for (units, lay, un, fn, removed, index_, g1, g2, un2, un3, isout, w, windex, n, one, nothing, after), s in zip(obs, ps_):
        c.equal(index_, index[s], 'mpi:index')
        for _, key in zip(units, ('mpi:part:unit', 'mpi:unpacked:unit', 'mpi:gathered:unit')):
            values.same_units(c, lambda k: Quantified(_[k]), key)
        c.check(units[3][0] == 'Jy' and units[3][2] == str({'Jy': ps.Quantity(2., 'm')}), 'mpi:gather:unit',
                lambda: f'{units[3][0]!r}, {units[3][2]}')
        c.equal(units[3][1], ext[:, 0], 'mpi:gather:quantity')
        for k, v in values.items():
            packed = v.reshape((-1,) + v.shape[len(shape):])
            c.check(same(lay[k], packed[index[s]]), 'mpi:part', lambda: f'{k}: {lay[k]} instead of {packed[index[s]]}')
            c.check(same(un[k], unpacked(v, shape, index)), 'mpi:unpacked',
                    lambda: f'{k}: {un[k]} instead of {unpacked(v, shape, index)}')
            c.check(same(w[k], packed[index]), 'mpi:gathered', lambda: f'{k}: {w[k]} instead of {packed[index]}')
        c.equal(removed, rem.reshape(shape), 'mpi:removed')
        c.equal(fn, unpacked(np.arange(rem.size).reshape(shape) * 2., shape, index), 'mpi:func')
        c.equal(g1, ext, 'mpi:gather:array')
        c.equal(g2, ext[:, 0], 'mpi:gather:vector')
        c.equal(un2, want2.reshape(shape), 'mpi:unpack')
        c.equal(un3, want2.reshape(shape), 'mpi:unpack:out')
        c.check(isout, 'mpi:unpack:isout', 'the given output is not returned')
        c.equal(windex, index, 'mpi:gathered:index')
        c.check(n == len(index) and one == 2.5 and nothing is None, 'mpi:gathered:table', f'{n} {one} {nothing}')
        c.check(after, 'mpi:gather:operand', 'the local table has changed')


def mpi_selected(c):
    """Each process selects or copies elements of its own part: gathering gives those of all, in order."""
    comm = c.ctx.comm
    t, shape, index, values = table(c)
    own = c.choice(['world', 'dup', 'copy', 'split'])
    sels = []
    for s in parts(len(index), comm.size):
        n = s.stop - s.start
        kind = c.choice(['all', 'bool', 'int', 'slice', 'none', 'half'])
        sels.append({'all': slice(None), 'bool': c.rng.random(n) < 0.5, 'int': c.rng.permutation(n)[:c.int(0, n)],
                     'slice': slice(c.int(0, n), None, None), 'none': slice(0, 0), 'half': slice(None, None, 2)}[kind])
    wrong = c.int(0, comm.size - 1)
    delta = c.choice([-1, 1, 3])
    c.note(size=comm.size, own=own)

    def func():
        group = comm if own in ('world', 'copy') else comm.Dup() if own == 'dup' else comm.Split(0, comm.rank)
        x = t.scatter(group)
        if own != 'world':
            x = x.copy()
            x = x.copy()
        x = x[sels[comm.rank]]
        ext = np.arange(len(x)) + 1000 * comm.rank
        whole = x.gather()
        out = (np.array(x.index), len(whole), np.array(whole.index), {k: np.array(getattr(whole, k)) for k in values},
               np.array(x.gather(ext)), {k: np.array(getattr(x.all, k)) for k in values},
               [{k: getattr(getattr(_, k), 'unit', None) for k in values} for _ in (x, whole)])
        n = max(0, len(x) + (delta if comm.rank == wrong else 0))
        refused = n == len(x)
        try:
            x.gather(np.zeros(n))
        except ValueError:
            refused = True
        anyfit = comm.allreduce(int(n != len(x)))
        if own != 'world' and own != 'copy':
            group.Free()
        return out + (refused or not anyfit,)

    obs = c.collect(func, 'selected')
    wants = [index[s][sel] for s, sel in zip(parts(len(index), comm.size), sels)]
    want = np.concatenate(wants)
    ext = np.concatenate([np.arange(len(w)) + 1000 * r for r, w in enumerate(wants)])
    for (part, n, windex, w, g, un, units, refused), mine in zip(obs, wants):
        c.equal(part, mine, 'selected:part')
        c.check(n == len(want), 'selected:len', lambda: f'{n} instead of {len(want)}')
        c.equal(windex, want, 'selected:index')
        c.equal(g, ext, 'selected:gather')
        for k, v in values.items():
            packed = v.reshape((-1,) + v.shape[len(shape):])
            c.check(same(w[k], packed[want]), 'selected:gathered', lambda: f'{k}: {w[k]} instead of {packed[want]}')
            c.check(same(un[k], unpacked(v, shape, want)), 'selected:unpacked',
                    lambda: f'{k}: {un[k]} instead of {unpacked(v, shape, want)}')
        for _ in units:
            values.same_units(c, lambda k: Quantified(_[k]), 'selected:unit')
        c.check(refused, 'selected:refused', 'an array of another size is gathered')


def mpi_acquisition(c):
    """The distributed acquisition model is that of the whole."""
    import pysimulators as ps

    comm = c.ctx.comm
    ndet, nt, npix = c.int(1, 9), c.int(1, 14), c.int(1, 6)
    known = Known(c, ndet, nt, npix)
    gain, drift = known.gain, known.drift

    divisors = [_ for _ in range(1, comm.size + 1) if comm.size % _ == 0]
    ni = c.choice(divisors)
    how = c.choice(['default', 'instrument', 'sampling', 'both'])
    kw = {'default': {}, 'instrument': {'nprocs_instrument': ni}, 'sampling': {'nprocs_sampling': comm.size // ni},
          'both': {'nprocs_instrument': ni, 'nprocs_sampling': comm.size // ni}}[how]
    if how == 'default':
        ni = 1
    nsamp = comm.size // ni
    c.note(size=comm.size, ndet=ndet, nt=nt, npix=npix, how=how, ni=ni)
    if min(n.stop - n.start for n in parts(ndet, ni) + parts(nt, nsamp)) == 0:
        # pyoperators' operators are not zero-sized
        empty = True
    else:
        empty = False
    lay = ps.PackedTable(ndet, gain=gain)
    sam = ps.Sampling(nt, drift=drift)
    x = np.round(c.rng.uniform(-3, 3, npix), 3)
    y = np.round(c.rng.uniform(-3, 3, (ndet, nt)), 3)
    if c.coin(0.3):
        kw['comm'] = comm
    nblocks = c.int(1, 3)
    blocks = c.coin(0.4) and not empty

    def func():
        acq = ps.Acquisition(known.instrument(lay), sam, ps.Scene(npix), **kw)
        if blocks:
            n = len(acq.sampling)
            acq.block = tuple(s for s in parts(n, min(nblocks, n)))
        di, ti = np.array(acq.instrument.detector.index), np.array(acq.sampling.index)
        out = [di, ti, np.array(acq.instrument.detector.gain), np.array(acq.sampling.drift),
               np.array(acq.sampling.time), acq.comm.size, acq.instrument.comm.size, acq.sampling.comm.size,
               len(acq.instrument), len(acq.sampling)]
        out.append(acq.instrument.detector.all.gain.copy())
        if not empty:
            H = acq.get_operator()
            out.append(np.array(H(x)))
            out.append(np.array(H.T(y[di][:, ti])))
            noiseless = acq.get_observation(x, noiseless=True)
            out.append(np.array(noiseless))
        return out

    obs = c.collect(func, 'acquisition')
    count = np.zeros((ndet, nt), int)
    want = np.einsum('ijk,k->ij', known.dense(slice(None), slice(None)), x)
    wantT = np.einsum('ijk,ij->k', known.dense(slice(None), slice(None)), y)
    got = np.zeros((ndet, nt))
    for o in obs:
        di, ti = o[:2]
        count[np.ix_(di, ti)] += 1
        c.equal(o[2], gain[di], 'acq:detectors')
        c.equal(o[3], drift[ti], 'acq:samplings')
        c.equal(o[4], ti * 1., 'acq:time')
        c.check(o[5:8] == [comm.size, ni, nsamp], 'acq:comm', f'{o[5:8]} instead of {[comm.size, ni, nsamp]}')
        c.check(o[8:10] == [di.size, ti.size], 'acq:len', f'{o[8:10]}')
        c.equal(o[10], gain, 'acq:all')
        if not empty:
            got[np.ix_(di, ti)] = o[11]
            c.close(o[12], wantT, 'acq:transpose', rtol=1e-11, atol=1e-10)
            c.close(o[13], want[np.ix_(di, ti)], 'acq:observation', rtol=1e-11, atol=1e-10)
    c.check(bool((count == 1).all()), 'acq:once', lambda: f'detector and sample pairs handled {count.ravel()} times')
    if not empty:
        c.close(got, want, 'acq:direct', rtol=1e-11, atol=1e-10)


def mpi_center(c):
    """The center of the distributed pointings."""
    import pysimulators as ps

    comm = c.ctx.comm
    n = c.int(1, 12)
    cls = c.choice(['SamplingEquatorial', 'SamplingHorizontal'])
    lon = np.round(c.rng.uniform(-40, 40) + c.rng.uniform(-20, 20, n), 3)
    lat = np.round(c.rng.uniform(-50, 50) + c.rng.uniform(-15, 15, n), 3)
    kw = {} if cls == 'SamplingEquatorial' else {'latitude': 40., 'longitude': 10.}
    masked = c.choice([None, None, False, c.rng.random(n) < 0.3])
    if masked is not None:
        kw['masked'] = masked
    c.note(size=comm.size, n=n, cls=cls, masked=np.ndim(masked))
    valid = np.ones(n, bool) if masked is None else ~np.broadcast_to(masked, n)

    def func():
        t = getattr(ps, cls)(lon, lat, **kw).scatter(comm)
        try:
            return np.array(t.get_center()), np.array(t.cartesian)
        except ValueError as e:
            return str(e), np.array(t.cartesian)

    obs = c.collect(func, 'center')
    lo, la = np.radians(lon), np.radians(lat)
    xyz = np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], -1)
    m = xyz[valid].sum(0)
    want = np.degrees([np.arctan2(m[1], m[0]), np.arctan2(m[2], np.hypot(m[0], m[1]))])
    for (got, xyz_), s in zip(obs, parts(n, comm.size)):
        c.close(xyz_, xyz[s], 'center:cartesian', rtol=0, atol=1e-12)
        if not valid.any():
            c.check(isinstance(got, str), 'center:none', f'{got}')
            continue
        if not c.check(not isinstance(got, str), 'center:refused', f'{got}'):
            continue
        d = got - want
        d[0] = (d[0] + 180) % 360 - 180
        c.close(d, [0, 0], 'center', rtol=0, atol=1e-9)


def run(ctx):
    if ctx.comm is not None:
        n = ctx.comm.size
        ctx.each(f'mpi{n}/headers', 60, 900, mpi_headers)
        ctx.each(f'mpi{n}/tables', 80, 1200, mpi_tables)
        ctx.each(f'mpi{n}/selected', 60, 900, mpi_selected)
        ctx.each(f'mpi{n}/acquisition', 60, 900, mpi_acquisition)
        ctx.each(f'mpi{n}/center', 30, 400, mpi_center)
        return
    ctx.each('headers', 150, 2500, scatter_headers)
    ctx.each('observation', 200, 3500, distribute)
    ctx.each('tables', 200, 3500, scatter_tables)
