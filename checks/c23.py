"""C23: observations read from files in the MADMAP1 format."""
import os
from pathlib import Path

import numpy as np
from astropy.io import fits

PROPERTY = 'C23'
RULE = 'what is read from files, written byte by byte by the check, is compared with what was written'

_N = [0]


class Files:
    pass


def draw(c, ncorr=None):
    """Write the files of an observation."""
    _N[0] += 1
    f = Files()
    f.dir = Path(f'madmap1_{os.getpid()}_{_N[0]}')
    f.dir.mkdir()
    f.name = c.choice(['t', 'tod', 'a.b', 'a+b', 'spire (1)', '[x]', 'x2'])
    f.nd = c.int(1, 5)
    f.nb = c.choice([1, 1, 2, 2, 3, 5])
    if c.coin(0.1):
        # many files
        f.nd, f.nb = c.choice([(12, 1), (4, 3), (1, 11), (6, 19), (103, 1), (1, 101), (26, 4)])
    f.npps = c.int(0, 4)
    f.big = c.coin()
    f.ncorr = c.int(0, 4) if ncorr is None else ncorr
    f.ns = [c.int(f.ncorr + 1, f.ncorr + (12 if f.nd * f.nb < 26 else 3)) for _ in range(f.nb)]
    f.first = c.choice([0, 0, 7, 1000])
    e = '>' if f.big else '<'

    # map mask
    shape = tuple(c.int(1, 5) for _ in range(c.int(1, 2)))
    while True:
        f.mask = c.rng.random(shape) < c.choice([0, 0.3, 0.6])
        f.npix = int(np.sum(~f.mask))
        if f.npix:
            break
    f.missing = c.choice([None, None, np.nan, np.inf, 0, 3, -1.5])
    good = np.array([1.0, 2.0, 7.0, -np.inf, 1e30])
    dt = c.choice(['f8', 'f4', 'i4', 'u1', 'i2'])
    if f.missing is None:
        # true is masked
        bad, good = np.array([1.0, 2.0, 5.0]), np.array([0.0])
    elif np.isnan(f.missing):
        bad, good, dt = np.array([np.nan]), np.array([0, 1, np.inf, -2]), c.choice(['f8', 'f4'])
    elif np.isinf(f.missing):
        bad, good, dt = np.array([np.inf, -np.inf]), np.array([0, 1, np.nan, -2]), c.choice(['f8', 'f4'])
    else:
        bad, good = np.array([f.missing]), np.array([1.0, 2.0, 4.0])
        if f.missing != int(f.missing):
            dt = c.choice(['f8', 'f4'])
    values = np.where(f.mask, c.rng.choice(bad, shape), c.rng.choice(good, shape)).astype(dt)
    f.maskfile = str(f.dir / c.choice(['mask.fits', 'm+1.fits', 'mask[0].fits']))
    hdu = c.choice(['primary', 'extension', 'extension2'])
    if hdu == 'primary':
        fits.PrimaryHDU(values).writeto(f.maskfile)
        f.maskname = f.maskfile
        if f.maskfile.endswith(']'):
            f.maskname = f.maskfile
    else:
        hdus = [fits.PrimaryHDU(np.zeros((2, 2)) if c.coin() else None), fits.ImageHDU(values, name='coverage')]
        if hdu == 'extension2':
            hdus.insert(1, fits.ImageHDU(np.zeros(3), name='image'))
        fits.HDUList(hdus).writeto(f.maskfile)
        f.maskname = f.maskfile + '[coverage]'

    # filters, one per block and detector
    f.filters = c.rng.normal(size=(f.nb, f.nd, f.ncorr + 1))
    f.filters[..., 0] += 3 + f.ncorr
    f.filtername = str(f.dir / ('invntt_' + f.name))
    k, start = 0, f.first
    for b in range(f.nb):
        for d in range(f.nd):
            with open(f'{f.filtername}.{k}', 'wb') as o:
                np.array([start, start + f.ns[b] - 1, f.ncorr], e + 'i8').tofile(o)
                f.filters[b, d].astype(e + 'f8').tofile(o)
            k += 1
        start += f.ns[b]
    f.others = c.coin(0.4)
    if f.others:
        # files that are not filters of the observation
        for other in (f.filtername + '.bak', f.filtername + '2.0', f.filtername + '.1x', f.filtername + '.0.1',
                      str(f.dir / ('x' + os.path.basename(f.filtername) + '.0')), str(f.dir / 'other.0')):
            Path(other).write_bytes(b'\0' * 24)

    # time-ordered data and pointing matrix
    n = sum(f.ns)
    f.tod = c.rng.normal(size=(f.nd, n))
    f.value = c.rng.normal(size=(f.nd, n, f.npps)).astype('f4')
    f.index = c.rng.integers(0, f.npix, (f.nd, n, f.npps))
    # the pixels of a sample end at the first negative index
    unseen = np.sort(c.rng.random(f.index.shape) < c.choice([0, 0.2]), axis=-1)
    f.index[unseen] = -1
    f.value[unseen] = 0
    f.todfile = str(f.dir / f.name)
    with open(f.todfile, 'wb') as o:
        np.array([f.first, f.first + n - 1, f.npps, f.npix], e + 'i8').tofile(o)
        start = 0
        for m in f.ns:
            for d in range(f.nd):
                for i in range(start, start + m):
                    np.array([f.tod[d, i]], e + 'f8').tofile(o)
                    for j in range(f.npps):
                        np.array([f.value[d, i, j]], e + 'f4').tofile(o)
                        np.array([f.index[d, i, j]], e + 'i4').tofile(o)
            start += m
    c.note(name=f.name, nd=f.nd, ns=f.ns, npps=f.npps, ncorr=f.ncorr, big=f.big, mask=shape, dt=dt, missing=repr(f.missing), hdu=hdu,
           others=f.others)
    return f


def observation(c, f):
    from pysimulators.interfaces.madmap1 import MadMap1Observation

    kw = {}
    if f.big or c.coin():
        kw['bigendian'] = f.big
    if f.missing is not None or c.coin():
        kw['missing_value'] = f.missing
    return MadMap1Observation('name', f.nd, f.todfile, f.filtername, f.maskname, **kw)


def clean(f):
    for name in f.dir.iterdir():
        name.unlink()
    f.dir.rmdir()


def read(c):
    from pysimulators import Tod

    f = draw(c)
    try:
        obs = observation(c, f)
        n = sum(f.ns)
        c.check(len(obs.instrument) == f.nd and obs.instrument.name == 'name', 'instrument')
        c.check(list(obs.block.n) == f.ns, 'blocks', f'{obs.block}')
        c.check([(int(_.start), int(_.stop)) for _ in obs.block] == [(sum(f.ns[:i]), sum(f.ns[:i + 1])) for i in range(f.nb)], 'blocks')
        c.check(len(obs.pointing) == n and not np.any(obs.pointing.removed), 'pointing')
        c.equal(obs.info.mapmask, f.mask, 'map mask')
        c.check(obs.info.npixels_in_map == f.npix and obs.info.npixels_per_sample == f.npps, 'sizes')
        h = obs.get_map_header()
        c.check(h['NAXIS'] == 1 and h['NAXIS1'] == f.npix, 'map header')
        unit = c.choice([None, 'Jy', 'Jy/beam'])
        tod = obs.get_tod() if unit is None else obs.get_tod(unit=unit)
        c.check(isinstance(tod, Tod), 'tod type')
        c.equal(np.asarray(tod), f.tod, 'tod')
        c.check(tod.dtype == float and tod.dtype.isnative, 'tod dtype', f'{tod.dtype}')
        if unit is not None:
            from pysimulators import Quantity
            c.check(tod._unit == Quantity(1, unit)._unit, 'tod unit', f'{tod.unit}')
        c.equal(obs.get_filter_uncorrelated(), f.filters, 'filters')
    finally:
        clean(f)


def projection(c):
    from pysimulators import Map, Tod

    f = draw(c)
    try:
        obs = observation(c, f)
        how = c.choice(['projection', 'operator', 'list'])
        if how == 'projection':
            P = obs.get_projection_operator()
        elif how == 'operator':
            P = obs.get_operator()
        else:
            P, = obs.get_operator(aslist=True)
    finally:
        clean(f)
    n = sum(f.ns)
    x = c.rng.normal(size=f.npix)
    y = c.rng.normal(size=(f.nd, n))
    value = f.value.astype(float)
    good = f.index >= 0
    want = np.sum(np.where(good, value * x[f.index], 0), axis=-1)
    scale = np.sum(np.abs(np.where(good, value * x[f.index], 0)), axis=-1).max(initial=0)
    got = P(Map(x) if c.coin() else x)
    c.check(got.shape == want.shape, 'shape')
    c.check(isinstance(got, Tod), 'time-ordered data', f'{type(got)}')
    c.close(np.asarray(got), want, 'projection', rtol=0, atol=1e-14 * scale)
    wantT, scaleT = np.zeros(f.npix), np.zeros(f.npix)
    terms = value * y[..., None]
    np.add.at(wantT, f.index[good], terms[good])
    np.add.at(scaleT, f.index[good], np.abs(terms[good]))
    gotT = P.T(y)
    c.check(isinstance(gotT, Map), 'map', f'{type(gotT)}')
    c.check(bool(np.all(np.abs(np.asarray(gotT) - wantT) <= 1e-13 * scaleT)), 'back-projection', f'{gotT} != {wantT}')


def invntt(c):
    f = draw(c)
    try:
        obs = observation(c, f)
        kw = {} if c.coin(0.2) else dict(fftw_flag='FFTW_ESTIMATE')
        if c.coin(0.3):
            kw['nthreads'] = c.int(1, 3)
        N = obs.get_invntt_operator(**kw)
    finally:
        clean(f)
    n = sum(f.ns)
    y = c.rng.normal(size=(f.nd, n))
    want = np.zeros((f.nd, n))
    for b in range(f.nb):
        s = slice(sum(f.ns[:b]), sum(f.ns[:b + 1]))
        i = np.arange(f.ns[b])
        lag = np.abs(i[:, None] - i)
        for d in range(f.nd):
            m = np.where(lag <= f.ncorr, f.filters[b, d][np.minimum(lag, f.ncorr)], 0)
            want[d, s] = m @ y[d, s]
    got = N(y)
    c.close(np.asarray(got), want, 'inverse noise', rtol=0, atol=1e-12 * max(1, np.abs(want).max()))


def refused(c):
    f = draw(c, ncorr=c.int(1, 3))
    what = c.choice(['mask', 'short', 'long', 'no filter', 'lengths', 'no data'])
    c.note(what=what)
    try:
        if what == 'mask':
            f.mask = ~np.zeros(f.npix + c.choice([1, 3]), bool)
            fits.PrimaryHDU((f.mask if f.missing is None else np.ones(f.mask.shape)).astype('u1' if f.missing is None else 'f8') * 0 +
                            (0 if f.missing is None else 77)).writeto(f.dir / 'bad.fits')
            f.maskname = str(f.dir / 'bad.fits')
            c.raises(ValueError, lambda: observation(c, f), 'mask of another size')
        elif what in ('short', 'long'):
            size = os.path.getsize(f.todfile)
            with open(f.todfile, 'r+b') as o:
                o.truncate(size + c.choice([1, 8]) * (1 if what == 'long' else -1))
            obs = observation(c, f)
            func = c.choice([obs.get_tod, obs.get_projection_operator])
            c.raises(ValueError, func, f'{what} file')
        elif what == 'no filter':
            f.filtername += 'z'
            c.raises(FileNotFoundError, lambda: observation(c, f), 'no filter')
        elif what == 'lengths':
            if f.nb * f.nd == 1:
                f.nd = 2
            with open(f'{f.filtername}.{f.nb * f.nd - 1}', 'wb') as o:
                e = '>' if f.big else '<'
                np.array([0, f.ns[-1] - 1, f.ncorr + 1], e + 'i8').tofile(o)
                np.ones(f.ncorr + 2).astype(e + 'f8').tofile(o)
            c.raises(ValueError, lambda: observation(c, f), 'correlation lengths')
        else:
            fits.PrimaryHDU().writeto(f.dir / 'bad.fits')
            f.maskname = str(f.dir / 'bad.fits')
            c.raises(OSError, lambda: observation(c, f), 'mask without data')
    finally:
        clean(f)


def run(ctx):
    ctx.each('read', 400, 6000, read)
    ctx.each('projection', 400, 6000, projection)
    ctx.each('invntt', 400, 6000, invntt)
    ctx.each('refused', 300, 3000, refused)
