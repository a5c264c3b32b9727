"""C18: arrays written to FITS files and read back, by one or several processes."""
import copy
import os
from pathlib import Path

import numpy as np
from astropy.io import fits

from harness.core import Skip

PROPERTY = 'C18'
RULE = 'what is read (by the package and by astropy) is compared with what was saved'

TYPES = ['f8', 'f8', 'f4', '>f8', '>f4', 'i2', 'i4', 'i8', 'u1', '>i4', 'i1', 'u2', 'u4', 'u8', '>u2']
UNITS = [('', None), ('Jy', None), ('K', None), ('W / m^2', None), ('km s^-1', None), ('myu', 3.5), ('myu^2 s', 0.25), ('a b^2', 2.0)]
_N = [0]


def part(n, size, rank):
    """The slice of the elements given to a process: the first ones get one more."""
    q, r = divmod(n, size)
    start = rank * q + min(rank, r)
    return slice(start, start + q + (rank < r))


def layout(c, x):
    kind = c.choice(['c', 'c', 'f', 'strided', 'reversed'])
    if kind == 'f':
        return np.array(x, order='F')
    if kind == 'strided':
        big = np.zeros(tuple(2 * n + 1 for n in x.shape), x.dtype)
        view = big[tuple(slice(1, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    if kind == 'reversed':
        return np.array(x[::-1])[::-1]
    return x


def values(c, shape, dt):
    dt = np.dtype(dt)
    if dt.kind == 'f':
        x = np.round(c.rng.normal(size=shape) * 10.0 ** c.int(-3, 6), 6).astype(dt)
        if c.coin(0.3) and x.size:
            x.flat[c.int(0, x.size - 1)] = c.choice([np.nan, np.inf, -np.inf, -0.0, 0])
        return x
    lo, hi = max(np.iinfo(dt).min, -(2**52)), min(np.iinfo(dt).max, 2**52)
    return c.rng.integers(lo, hi, shape, endpoint=True).astype(dt)


def cards(c):
    out = {}
    for i in range(c.int(0, 4)):
        key = c.choice(['OBSERVER', 'KEY1', 'EXPTIME', 'NOTES', 'FLAG', 'Z_', 'HIERARCH long keyword'])
        out[key] = c.choice([c.int(-9, 9), round(float(c.rng.normal()), 5), 'a string', 'it''s', True, False, 'x' * 60, ''])
    return out


def world(pysimu, c, shape, q):
    """A header with a world coordinate system."""
    header = pysimu.create_fitsheader(shape[::-1], cdelt=c.choice([0.5, (-0.1, 0.2)]), crval=(10.0, -20.0),
                                      crpix=(round(float(c.rng.uniform(-3, 8)), 3), round(float(c.rng.uniform(-3, 8)), 3)))
    return header


def make(c, ndim=None, nrows=None, types=TYPES):
    """An array and its metadata, as plain objects."""
    import pysimulators as ps

    if ndim is None:
        ndim = c.choice([1, 2, 2, 3, 4])
    shape = tuple(c.int(1, 5) for _ in range(ndim))
    if nrows is not None:
        shape = (nrows,) + shape[1:]
    kind = c.choice(['FitsArray', 'Map', 'Map', 'Tod', 'Tod'])
    dt = c.choice(types)
    unit, derived = c.choice(UNITS)
    du = None
    if derived is None and ndim > 1 and c.coin(0.3):
        # not used by the current unit
        du = {'other': ps.Quantity(c.int(2, 5), 'K'), 'sky[leftward]': ps.Quantity(np.arange(1.0, shape[-1] + 1), 'sr')}
    if derived is not None:
        du = {'myu': ps.Quantity(derived, 'K m'), 'a': ps.Quantity(derived, 'Jy'), 'b': ps.Quantity(2, 'm')}
    wcs = ndim == 2 and c.coin(0.6)
    g = dict(kind=kind, data=values(c, shape, dt), unit=unit, derived=derived, cards=cards(c),
             header=world(ps, c, shape, None) if wcs else None)
    if kind == 'Map':
        g['origin'] = c.choice([None, 'lower', 'upper', 'Upper ', 'LOWER'])
        if c.coin(0.7):
            g['coverage'] = values(c, shape, c.choice(['f8', 'f4', '>f8', 'i4', 'u1', 'u2', 'i1']))
        if c.coin(0.5):
            g['error'] = values(c, shape, c.choice(['f8', 'f4', '>f4']))
    if kind == 'Tod' and c.coin(0.75):
        g['mask'] = c.rng.random(shape) < c.choice([0, 0.3, 1])
    g['du'] = du
    c.note(kind=kind, shape=list(shape), dtype=dt, unit=unit, derived=derived, wcs=wcs, cards=g['cards'],
           origin=g.get('origin'), attached=[k for k in ('coverage', 'error', 'mask') if k in g])
    return g


def build(c, g, s=slice(None), header=None):
    """The instance (or the local part of it)."""
    import pysimulators as ps

    cls = getattr(ps, g['kind'])
    keywords = dict(unit=g['unit'], derived_units=g['du'], dtype=g['data'].dtype, copy=c.coin())
    for k in ('coverage', 'error', 'mask'):
        if k in g:
            keywords[k] = layout(c, g[k][s])
    if g.get('origin') is not None:
        keywords['origin'] = g['origin']
    if header is not None:
        keywords['header'] = header
    x = cls(layout(c, g['data'][s]), **keywords)
    for k, v in g['cards'].items():
        x.header[k] = v
    return x


def name(k):
    return k.replace('HIERARCH ', '')


def origin(g):
    return 'lower' if g['origin'] is None else g['origin'].strip().lower()


def look_file(c, path, g):
    """What astropy sees in the file."""
    size = os.path.getsize(path)
    c.check(size % 2880 == 0, 'file:size', f'the size of the file is {size}')
    with fits.open(path, memmap=False) as h:
        h.verify('exception')
        names = [_.name.lower() for _ in h]
        want = ['primary'] + (['derived_units'] if g['du'] else [])
        want += [k for k in ('coverage', 'error', 'mask') if k in g]
        c.check(names == want, 'file:extensions', f'{names} instead of {want}')
        c.equal(h[0].data, g['data'], 'file:values')
        c.check(np.dtype(h[0].data.dtype).newbyteorder('=') == g['data'].dtype.newbyteorder('='), 'file:type',
                f'{h[0].data.dtype} instead of {g["data"].dtype}')
        for k in ('coverage', 'error', 'mask'):
            if k in g:
                c.equal(h[k].data, g[k].view('u1') if k == 'mask' else g[k], f'file:{k}')
        for k, v in g['cards'].items():
            c.check(h[0].header.get(name(k)) == v, 'file:header', f'{k}: {h[0].header.get(name(k))!r} instead of {v!r}')
        if g['header'] is not None:
            for k in g['header']:
                if k in ('SIMPLE', 'BITPIX', 'EXTEND'):
                    continue
                c.check(h[0].header.get(k) == g['header'][k], 'file:header', f'{k}: {h[0].header.get(k)!r} instead of {g["header"][k]!r}')


def look(c, x, g, s=slice(None), key='read', cls=None):
    """What the package read."""
    import pysimulators as ps

    cls = cls or g['kind']
    c.check(type(x) is getattr(ps, cls), f'{key}:class', f'{type(x)}')
    c.equal(x.magnitude, g['data'][s], f'{key}:values')
    c.check(x.dtype.isnative, f'{key}:byteorder', f'{x.dtype}')
    if g['data'].dtype.kind == 'f':
        c.check(x.dtype == g['data'].dtype.newbyteorder('='), f'{key}:type', f'{x.dtype} instead of {g["data"].dtype}')
    want = ps.Quantity(1, g['unit'])
    c.check(x._unit == want._unit, f'{key}:unit', f'{x.unit!r} instead of {g["unit"]!r}')
    if g['du'] is None:
        c.check(not x.derived_units, f'{key}:derived_units', f'{x.derived_units}')
    else:
        c.check(set(x.derived_units) == set(g['du']) and all(
            x.derived_units[k].unit == v.unit and np.array_equal(x.derived_units[k], v) for k, v in g['du'].items()),
            f'{key}:derived_units', f'{x.derived_units} instead of {g["du"]}')
        one = ps.Quantity(1, g['unit'], g['du'])
        si = x[(0,) * x.ndim] if x.size else None
        if si is not None and np.isfinite(g['data'][s].flat[0]):
            c.close(ps.Quantity(float(si), x.unit, x.derived_units).SI.magnitude, float(g['data'][s].flat[0]) * float(one.SI.magnitude),
                    f'{key}:derived_units', rtol=1e-6)
    for k, v in g['cards'].items():
        c.check(x.header.get(name(k)) == v, f'{key}:header', f'{k}: {x.header.get(name(k))!r} instead of {v!r}')
    c.check([x.header[f'NAXIS{i + 1}'] for i in range(x.ndim)] == list(x.shape[::-1]), f'{key}:header:naxis',
            lambda: f'{x.header!r} for {x.shape}')
    if g['header'] is not None:
        start = s.start or 0
        for k in ('CRPIX1', 'CRPIX2', 'CRVAL1', 'CRVAL2', 'CTYPE1', 'CD1_1', 'CD2_2', 'CDELT1', 'CUNIT1'):
            if k not in g['header']:
                continue
            v = g['header'][k]
            if k == 'CRPIX2':
                c.close(x.header.get(k), v - start, f'{key}:header:crpix', rtol=1e-13, message=f'start {start}')
            else:
                c.check(x.header.get(k) == v, f'{key}:header:wcs', f'{k}: {x.header.get(k)!r} instead of {v!r}')
    if cls == 'Map':
        for k in ('coverage', 'error'):
            v = getattr(x, k)
            if k in g and g['kind'] == 'Map':
                if c.check(v is not None, f'{key}:{k}', 'was not read'):
                    c.equal(v, g[k][s], f'{key}:{k}')
            else:
                c.check(v is None, f'{key}:{k}', f'{v} instead of nothing')
        if g['kind'] == 'Map':
            c.check(x.origin == origin(g), f'{key}:origin', f'{x.origin!r} instead of {g["origin"]!r}')
    if cls == 'Tod':
        if 'mask' in g:
            if c.check(x.mask is not None, f'{key}:mask', 'was not read'):
                c.equal(x.mask, g['mask'][s], f'{key}:mask')
                c.check(x.mask.dtype == bool, f'{key}:mask', f'{x.mask.dtype}')
        else:
            c.check(x.mask is None, f'{key}:mask', f'{x.mask}')


def path(c, k=None):
    if k is None:
        _N[0] += 1
        k = _N[0]
    p = os.path.join(os.getcwd(), f'f{k}.fits')
    return p


def state(x):
    h = None if x._header is None else [tuple(_) for _ in x._header.cards if _.keyword != 'DISPORIG']
    return copy.deepcopy((x.magnitude.copy(), x._unit, dict(x._derived_units), h) + tuple(
        getattr(x, k, None) for k in ('coverage', 'error', 'mask', 'origin')))


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return type(a) is type(b) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def nfiles():
    n = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            n += os.readlink(f'/proc/self/fd/{f}').endswith('.fits')
        except OSError:
            pass
    return n


def roundtrip(c):
    import pysimulators as ps

    g = make(c)
    x = build(c, g, header=None if g['header'] is None else g['header'].copy())
    p = path(c)
    if c.coin(0.3):
        # the file already exists, with other extensions
        old = ps.Map(np.ones((30, 40)), coverage=np.ones((30, 40)), error=np.ones((30, 40)), unit='s', origin='upper')
        old.save(p)
    x.header
    before = state(x)
    as_path = c.coin()
    x.save(Path(p) if as_path else p)
    c.check(same(state(x), before), 'save:operand', 'the array was changed when it was saved')
    look_file(c, p, g)
    read_path = c.coin()
    y = getattr(ps, g['kind'])(Path(p) if read_path else p)
    c.note(saved=as_path, read=read_path)
    look(c, y, g)
    c.check(nfiles() == 0, 'files:open', lambda: f'{nfiles()} FITS files are left open')
    # independent of the file
    if c.coin(0.3) and y.flags.writeable:
        y[...] = 0
        look(c, getattr(ps, g['kind'])(p), g)
    # as another class
    cls = c.choice(['FitsArray', 'Map', 'Tod'])
    z = getattr(ps, cls)(p)
    if cls != g['kind']:
        look(c, z, g, cls=cls, key='other')
    # over again, from what was read
    y = getattr(ps, g['kind'])(p)
    q = c.choice([p, path(c)])
    y.save(q)
    look(c, getattr(ps, g['kind'])(q), g, key='again')
    # with another unit than the one it was read with
    unit = c.choice(['', '', 's', 'arcsec'])
    y = getattr(ps, g['kind'])(q)
    if c.coin():
        y.unit = unit
    else:
        y = (y.view(type(y)) * (ps.Quantity(1, unit) / ps.Quantity(1, y.unit))).astype(y.dtype)
        for k in ('coverage', 'error', 'mask'):
            if k in g:
                setattr(y, k, g[k])
        y.derived_units = g['du']
        if g['kind'] == 'Map':
            y.origin = origin(g)
    if y.unit == unit and np.array_equal(y.magnitude, g['data'], equal_nan=g['data'].dtype.kind == 'f'):
        r = path(c)
        y.save(r)
        look(c, getattr(ps, g['kind'])(r), dict(g, unit=unit), key='unit')
        os.unlink(r)
    # attributes given along with the file
    kw, g2 = {}, dict(g)
    if c.coin():
        kw['unit'], g2['unit'] = 'kpc', 'kpc'
    if c.coin(0.3):
        h = kw['header'] = ps.create_fitsheader(g['data'].shape[::-1])
        h['OTHER'] = 5
        g2['cards'], g2['header'] = {'OTHER': 5}, None
    if c.coin(0.3):
        kw['derived_units'] = g2['du'] = {'mine': ps.Quantity(c.int(2, 9), 'Jy')}
        kw['unit'] = g2['unit'] = c.choice(['mine', 'kpc', 'mine kpc'])
    if g['kind'] == 'Map':
        for k in ('coverage', 'error'):
            if c.coin():
                kw[k] = g2[k] = c.rng.random(g['data'].shape)
        if c.coin():
            kw['origin'] = g2['origin'] = c.choice(['upper', 'lower'])
    if g['kind'] == 'Tod' and c.coin():
        kw['mask'] = g2['mask'] = c.rng.random(g['data'].shape) < 0.5
    if c.coin(0.3) and g['data'].dtype.kind == 'f':
        kw['dtype'] = g['data'].dtype.newbyteorder('=')
    c.note(keywords=sorted(kw))
    y = getattr(ps, g['kind'])(q, **kw)
    look(c, y, g2, key='given')
    if 'header' in kw:
        c.check(not any(name(k) in y.header for k in g['cards']), 'given:header', lambda: f'{y.header!r}')
    os.unlink(p)
    if q != p:
        os.unlink(q)


class FakeComm:
    """The view that one process has of a communicator, for reading."""

    def __init__(self, size, rank):
        self.size, self.rank = size, rank

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def allgather(self, x):
        return [x] * self.size

    def bcast(self, x, root=0):
        return x

    def Barrier(self):
        pass


def distributed(c):
    """Each of the processes reads its part."""
    import pysimulators as ps

    g = make(c, nrows=c.int(1, 9))
    x = build(c, g, header=None if g['header'] is None else g['header'].copy())
    p = path(c)
    x.save(p)
    size = c.int(1, 6)
    c.note(size=size)
    n = g['data'].shape[0]
    whole = []
    for rank in range(size):
        y = getattr(ps, g['kind'])(Path(p) if c.coin() else p, comm=FakeComm(size, rank))
        s = part(n, size, rank)
        if g['data'][s].size == 0:
            c.check(y.shape == g['data'][s].shape, 'part:shape', f'{y.shape}')
        else:
            look(c, y, g, s, key='part')
        whole.append(y.magnitude)
    c.equal(np.concatenate(whole), g['data'], 'part:whole')
    c.check(nfiles() == 0, 'files:open', lambda: f'{nfiles()} FITS files are left open')
    os.unlink(p)


def foreign(c):
    """Files that were not written by the package."""
    import pysimulators as ps

    shape = tuple(c.int(1, 6) for _ in range(c.int(1, 3)))
    dt = c.choice(['f8', 'f4', 'i2', 'i4', 'u1', 'i1', 'u2'])
    data = values(c, shape, dt)
    h = fits.Header()
    scaled = dt in ('f8', 'f4', 'i2', 'i4') and c.coin(0.3)
    key = c.choice(['BUNIT', 'QTTY____', None])
    unit = c.choice(['Jy', 'K', 's'])
    if key:
        h[key] = unit
    one = key == 'QTTY____' and c.coin(0.3)
    if one:
        h[key] = '1'
    place = c.choice(['primary', 'extension', 'second'])
    c.note(shape=list(shape), dtype=dt, key=key, place=place, one=one)
    hdus = [fits.PrimaryHDU(data, h)] if place == 'primary' else [fits.PrimaryHDU(), fits.ImageHDU(data, h, name='X')]
    if place == 'second':
        hdus.insert(1, fits.ImageHDU(name='EMPTY'))
    if c.coin():
        hdus.append(fits.ImageHDU(np.zeros(3), name='LAST'))
    p = path(c)
    if scaled:
        hdu = hdus[0] if place == 'primary' else hdus[1 if place == 'extension' else 2]
        hdu.header['BSCALE'], hdu.header['BZERO'] = c.choice([0.5, 2.]), c.choice([10., 0.])
    fits.HDUList(hdus).writeto(p, overwrite=True)
    if scaled:
        with fits.open(p, memmap=False) as f:
            data = np.array(f[0 if place == 'primary' else 1 if place == 'extension' else 2].data)
    cls = c.choice(['FitsArray', 'Map', 'Tod'])
    y = getattr(ps, cls)(p)
    c.equal(y.magnitude, data, 'foreign:values')
    c.check(y.unit == (unit if key and not one else ''), 'foreign:unit', f'{y.unit!r}')
    c.check(nfiles() == 0, 'files:open', lambda: f'{nfiles()} FITS files are left open')
    c.raises(Exception, lambda: getattr(ps, cls)(p + '.none'), 'foreign:missing')
    q = path(c)
    y.save(q)
    z = getattr(ps, cls)(q)
    c.equal(z.magnitude, data, 'foreign:saved')
    c.check(data.dtype.kind != 'f' or z.dtype == data.dtype.newbyteorder('='), 'foreign:type', lambda: f'{z.dtype} instead of {data.dtype}')
    c.check(z.unit == y.unit, 'foreign:saved:unit', f'{z.unit!r}')
    os.unlink(q)
    if place != 'primary':
        fits.HDUList([fits.PrimaryHDU()]).writeto(p, overwrite=True)
        c.raises(OSError, lambda: getattr(ps, cls)(p), 'foreign:empty')
        c.check(nfiles() == 0, 'files:open', 'the file without data is left open')
    os.unlink(p)


def mpi_case(c):
    """Local arrays are saved in one file, then read by all the processes."""
    import pysimulators as ps
    from pysimulators.mpiutils import scatter_fitsheader

    comm = c.ctx.comm
    size, rank = comm.size, comm.rank
    n = c.int(1, 9)
    g = make(c, nrows=n, types=TYPES)
    c.note(size=size)
    s = part(n, size, rank)
    p = path(c)
    exists = c.coin(0.3)
    if exists and rank == 0:
        ps.Map(np.ones((30, 40)), coverage=np.ones((30, 40))).save(p)
    comm.Barrier()
    header = None
    if g['header'] is not None:
        header = g['header'].copy()
        header['NAXIS2'] = s.stop - s.start
        header['CRPIX2'] -= s.start
    as_path = c.coin()
    # the layouts are drawn differently by each process
    x = build(c, g, s, header)
    before = state(x)
    c.collect(lambda: x.save(Path(p) if as_path else p, comm=comm), 'save')
    same_ = c.collect(lambda: same(state(x)[:3] + state(x)[4:], before[:3] + before[4:]))
    c.check(all(same_), 'mpi:save:operand', f'{same_}')
    look_file(c, p, g)

    def read(**kw):
        y = getattr(ps, g['kind'])(Path(p) if as_path else p, **kw)
        return y

    parts = c.collect(lambda: read(comm=comm), 'read')
    for r, y in enumerate(parts):
        t = part(n, size, r)
        if g['data'][t].size:
            look(c, y, g, t, key='mpi:part')
        else:
            c.check(y.shape == g['data'][t].shape, 'mpi:part:shape', f'{y.shape}')
    wholes = c.collect(read, 'whole')
    look(c, wholes[-1], g, key='mpi:whole')
    # without side effects on the parts: saved once more from what was read
    y = parts[rank]
    c.collect(lambda: y.save(p, comm=comm), 'again')
    g2 = dict(g)
    if g['data'].dtype.kind == 'i' or g['data'].dtype.kind == 'u':
        with fits.open(p, memmap=False) as h:
            c.equal(h[0].data, g['data'], 'mpi:again:values')
    else:
        g2['data'] = g['data'].astype(g['data'].dtype.newbyteorder('='))
        look_file(c, p, g2)
    comm.Barrier()
    if rank == 0:
        os.unlink(p)
    comm.Barrier()


def mpi_foreign(c):
    """Parts of a file of scaled or unsigned values are saved as the values they were read as."""
    import pysimulators as ps

    comm = c.ctx.comm
    size, rank = comm.size, comm.rank
    shape = (c.int(1, 9),) + tuple(c.int(1, 4) for _ in range(c.int(0, 2)))
    dt = c.choice(['i1', 'u2', 'u4', 'i2', 'i4', 'f4', 'f8'])
    data = values(c, shape, dt)
    scaled = dt in ('i2', 'i4', 'f4', 'f8') and c.coin(0.7)
    cls = c.choice(['FitsArray', 'Map', 'Tod'])
    place = c.choice(['primary', 'extension'])
    c.note(size=size, shape=list(shape), dtype=dt, scaled=scaled, cls=cls, place=place)
    p, q = path(c), path(c)
    bscale, bzero = c.choice([0.5, 2., 1.]), c.choice([10., 0., -3.])
    if rank == 0:
        hdu = fits.PrimaryHDU(data) if place == 'primary' else fits.ImageHDU(data)
        hdus = fits.HDUList([hdu] if place == 'primary' else [fits.PrimaryHDU(), hdu])
        if scaled:
            hdu.header['BSCALE'], hdu.header['BZERO'] = bscale, bzero
        hdus.writeto(p, overwrite=True)
    comm.Barrier()
    with fits.open(p, memmap=False) as h:
        want = np.array(h[-1].data)
    parts = c.collect(lambda: getattr(ps, cls)(p, comm=comm), 'read')
    x = parts[rank]
    c.equal(np.concatenate([_.magnitude for _ in parts]), want, 'scaled:read')
    c.collect(lambda: x.save(q, comm=comm), 'save')
    with fits.open(q, memmap=False) as h:
        c.equal(next(_.data for _ in h if _.data is not None), want, 'scaled:file')
    whole = c.collect(lambda: getattr(ps, cls)(q), 'whole')
    c.equal(whole[-1].magnitude, want, 'scaled:whole')
    c.check(whole[-1].dtype == want.dtype.newbyteorder('=') or want.dtype.kind != 'f', 'scaled:type', lambda: f'{whole[-1].dtype} instead of {want.dtype}')
    comm.Barrier()
    if rank == 0:
        os.unlink(p)
        os.unlink(q)
    comm.Barrier()


def mpi_refused(c):
    """All the processes refuse local arrays that are not the parts of a whole."""
    import pysimulators as ps

    comm = c.ctx.comm
    size, rank = comm.size, comm.rank
    if size == 1:
        raise Skip
    kind = c.choice(['partition', 'partition', 'shape', 'ndim', 'name', 'read'])
    odd = c.int(0, size - 1)
    other = (odd + 1 + c.int(0, size - 2)) % size
    n, m = c.int(size, 4 * size), c.int(1, 4)
    Cls = c.choice([ps.Map, ps.Tod])
    exists = c.coin()
    c.note(kind=kind, size=size, odd=odd, other=other, n=n, m=m, exists=exists)
    p = path(c)
    if rank == 0 and (exists or kind == 'read'):
        ps.Map(np.ones((30, 40))).save(p)
    comm.Barrier()
    nlocal = [part(n, size, r).stop - part(n, size, r).start for r in range(size)]
    if kind == 'partition':
        if nlocal[other] == 0:
            raise Skip
        k = c.int(1, nlocal[other])
        nlocal[odd] += k
        nlocal[other] -= k
    shape = (nlocal[rank], m)
    if kind == 'shape' and rank == odd:
        shape = (nlocal[rank], m + 1)
    if kind == 'ndim' and rank == odd:
        shape += (1,)
    mine = p + 'x' if kind in ('name', 'read') and rank == odd else p
    if kind == 'read' and rank == odd:
        ps.Map(np.ones((30, 40))).save(mine)

    def refuse():
        try:
            if kind == 'read':
                Cls(mine, comm=comm)
            else:
                Cls(np.ones(shape)).save(mine, comm=comm)
        except ValueError:
            return True
        return False

    got = c.collect(refuse, 'refused')
    c.check(all(got), f'mpi:refused:{kind}', f'{got}')
    comm.Barrier()
    if rank == 0 and exists and kind != 'read':
        with fits.open(p) as h:
            c.check(h[0].shape == (30, 40), 'mpi:refused:previous file', f'{h[0].shape}')
    comm.Barrier()
    for f in {p, mine}:
        if os.path.exists(f) and (rank == 0 and f == p or f != p):
            os.unlink(f)
    comm.Barrier()


def run(ctx):
    if ctx.comm is not None:
        ctx.each(f'mpi{ctx.comm.size}/refused', 20, 200, mpi_refused)
        ctx.each(f'mpi{ctx.comm.size}/foreign', 15, 200, mpi_foreign)
        ctx.each(f'mpi{ctx.comm.size}/save', 60, 800, mpi_case)
        return
    ctx.each('roundtrip', 400, 5000, roundtrip)
    ctx.each('distributed', 160, 2500, distributed)
    ctx.each('foreign', 90, 1200, foreign)
