"""C11: FITS world coordinates, angles and projections on the celestial sphere."""
import sys
import types
from unittest import mock

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS

PROPERTY = 'C11'
RULE = 'coordinates, headers and angles compared with their definitions'
D = np.pi / 180


def vec(lon, lat):
    lon, lat = np.asarray(lon, float) * D, np.asarray(lat, float) * D
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def between(a, b):
    """Angle between vectors in degrees, accurate everywhere."""
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=-1), (a * b).sum(-1)) / D


def wrap(x):
    return (np.asarray(x) + 180) % 360 - 180


def tan_world(cd, crpix, crval, xy):
    """Gnomonic: 1-based pixel coordinates to degrees."""
    p = (np.asarray(xy, float) - crpix) @ np.asarray(cd).T * D
    ra0, dec0 = np.asarray(crval) * D
    # tangent plane: east, north and the direction of the reference
    e = np.array([-np.sin(ra0), np.cos(ra0), 0])
    n = np.array([-np.sin(dec0) * np.cos(ra0), -np.sin(dec0) * np.sin(ra0), np.cos(dec0)])
    r = np.array([np.cos(dec0) * np.cos(ra0), np.cos(dec0) * np.sin(ra0), np.sin(dec0)])
    v = r + p[..., :1] * e + p[..., 1:] * n
    v /= np.linalg.norm(v, axis=-1, keepdims=True)
    return np.stack([np.arctan2(v[..., 1], v[..., 0]) / D % 360, np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])) / D], -1)


def lonlat(c, n=None):
    lon = np.round(c.rng.uniform(-10, 370, n), 3)
    lat = np.round(np.arcsin(c.rng.uniform(-1, 1, n)) / D, 3)
    return lon, lat


# ---------------------------------------------------------------- angles
def angles(c):
    from pysimulators.wcsutils import angle_lonlat

    n1, n2 = c.choice([(1, 1), (1, 5), (4, 1), (6, 6)])
    a, b = lonlat(c, n1), lonlat(c, n2)
    kind = c.choice(['any', 'any', 'same', 'opposite', 'near', 'pole'])
    if n1 and n1 == n2:
        if kind == 'same':
            b = a[0].copy(), a[1].copy()
        elif kind == 'opposite':
            b = a[0] + 180, -a[1]
        elif kind == 'near':
            b = a[0] + 1e-4, a[1] - 1e-4
        elif kind == 'pole':
            b = b[0], np.full(n2, c.choice([90., -90.]))
    scalar = n1 == n2 == 1 and c.coin()
    pair = c.coin()
    c.note(kind=kind, n1=n1, n2=n2, scalar=scalar, pair=pair)
    want = between(vec(*a), vec(*b))

    def form(x):
        x = x[0] if scalar else x
        return c.choice([lambda _: _, np.array, np.array if scalar else list])(x)

    args = [form(_) for _ in a + b]
    got = angle_lonlat(tuple(args[:2]), tuple(args[2:])) if pair else angle_lonlat(*args)
    if scalar:
        c.check(np.ndim(got) == 0, 'angle:scalar', f'{got!r}')
        want = want[0]
    # the definition by the cosine is accurate to 1e-6 degrees
    c.close(got, want, 'angle', rtol=0, atol=3e-6)
    k = max(n1, n2) + 2
    x = lonlat(c, k)
    y = lonlat(c, k + 1)
    c.raises(ValueError, lambda: angle_lonlat(*x, *y), 'angle:sizes')


def means(c):
    from pysimulators.wcsutils import barycenter_lonlat, mean_degrees, minmax_degrees

    n = c.int(1, 40)
    width = c.choice([0, 1e-3, 10, 60, 89])
    start = c.choice([0, 360 - width / 2, 90, 180, 270, 359.5, round(float(c.rng.uniform(-400, 800)), 2)])
    x = start + np.round(c.rng.uniform(0, width, n), 4)
    ref = x.copy()
    turns = c.rng.integers(-2, 3, n) * 360 if c.coin(0.3) else 0
    x = x + turns
    keep = np.ones(n, bool)
    if c.coin(0.3):
        keep = c.rng.random(n) < 0.7
        x[~keep] = np.nan
    form = c.choice(['1d', '1d', 'list', '2d', 'f4', 'int'])
    arg = x
    if form == 'list':
        arg = list(x)
    elif form == '2d':
        arg = x[:, None] * np.ones((1, 2))
    elif form == 'f4' and keep.all():
        arg = x.astype('f4')
        ref = arg.astype(float) - turns
    elif form == 'int' and keep.all():
        arg = np.round(x).astype(int)
        ref = arg.astype(float) - turns
    c.note(n=n, width=width, start=float(start), form=form, nan=int((~keep).sum()))
    m = mean_degrees(arg)
    mm = minmax_degrees(arg)
    if not keep.any():
        c.check(np.isnan(m), 'mean:none', f'{m}')
        c.check(np.isnan(mm[0]) and np.isnan(mm[1]), 'minmax:none', f'{mm}')
    else:
        c.check(0 <= m <= 360, 'mean:range', f'{m}')
        c.close(wrap(m - ref[keep].mean()), 0, 'mean', rtol=0, atol=1e-9)
        c.check(0 <= mm[0] <= 360 and 0 <= mm[1] <= 360, 'minmax:range', f'{mm}')
        c.close(wrap(mm[0] - ref[keep].min()), 0, 'minmax:min', rtol=0, atol=1e-9)
        c.close(wrap(mm[1] - ref[keep].max()), 0, 'minmax:max', rtol=0, atol=1e-9)
    # barycenter
    n = c.int(1, 30)
    lon0, lat0 = lonlat(c)
    spread = c.choice([0, 5, 40])
    lon = lon0 + np.round(c.rng.uniform(-spread, spread, n), 4)
    lat = np.clip(lat0 + np.round(c.rng.uniform(-spread, spread, n), 4), -90, 90)
    keep = np.ones(n, bool)
    if c.coin(0.3) and n > 1:
        keep = c.rng.random(n) < 0.7
        keep[0] = True
        (lon if c.coin() else lat)[~keep] = np.nan
    s = vec(lon[keep], lat[keep]).sum(0)
    form = c.choice([lambda _: _, list, lambda _: _[:, None]])
    got = barycenter_lonlat(form(lon), form(lat))
    c.check(0 <= got[0] <= 360, 'barycenter:range', f'{got}')
    if np.linalg.norm(s) > 1e-3 * n:
        # the latitude is obtained from its cosine
        c.close(between(vec(*got), s / np.linalg.norm(s)), 0, 'barycenter', rtol=0, atol=3e-6, message=f'{got}')


# --------------------------------------------------------------- headers
def pole_safe(c):
    return round(float(c.rng.uniform(0, 360)), 3), round(float(c.rng.uniform(-80, 80)), 3)


def scaling(c, big=0.5):
    """Keywords of create_fitsheader, and the CD matrix that they mean."""
    kind = c.choice(['cdelt', 'cdelt', 'cdelt2', 'cd', 'square'])
    pa = c.choice([None, 0, 90, -25, 180, round(float(c.rng.uniform(-180, 180)), 2)])
    d = np.round(c.rng.uniform(0.05, 1, 2) * big, 5)
    if kind == 'cd':
        cd = np.round(c.rng.uniform(-1, 1, (2, 2)) * big, 5)
        if abs(np.linalg.det(cd)) < 0.05 * big ** 2:
            cd = np.diag(d)
        return {'cd': c.choice([list, np.array])(cd.tolist())}, cd, kind, None
    kw = {}
    if pa is not None:
        kw['pa'] = pa
    if kind == 'cdelt':
        kw['cdelt'] = float(d[0])
        d = np.array([-d[0], d[0]])
    else:
        if kind == 'square':
            d[1] = d[0]
        d = d * c.choice([(-1, 1), (-1, 1), (1, 1), (1, -1), (-1, -1)])
        kw['cdelt'] = c.choice([tuple, list, np.array])(d.tolist())
    t = -(pa or 0) * D
    cd = np.diag(d) @ np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
    return kw, cd, kind, (d, pa or 0)


def make_header(c, naxes, big=0.5, **more):
    from pysimulators.wcsutils import create_fitsheader

    kw, cd, kind, dp = scaling(c, big)
    crval = pole_safe(c)
    kw['crval'] = c.choice([tuple, list, np.array])(crval)
    crpix = None
    if c.coin():
        crpix = np.round(c.rng.uniform(-5, 30, 2), 2)
        kw['crpix'] = c.choice([tuple, list, np.array])(crpix.tolist())
    else:
        crpix = (np.array(naxes) + 1) / 2
    kw.update(more)
    return create_fitsheader(naxes, **kw), cd, np.asarray(crpix, float), crval, kind, dp


def headers(c):
    from pysimulators import wcsutils as w

    ndim = c.choice([2, 2, 2, 1, 3, 0])
    naxes = tuple(c.int(0, 50) if c.coin(0.1) else c.int(1, 50) for _ in range(ndim))
    dt = c.choice([None, 'f4', 'f8', 'i2', 'i4', 'i8', 'u1'])
    ext = c.choice([None, None, 'COVERAGE', ''])
    kw = {}
    if dt is not None:
        kw['dtype'] = c.choice([np.dtype, lambda _: _])(dt)
    if ext is not None:
        kw['extname'] = ext
    bitpix = {None: -64, 'f4': -32, 'f8': -64, 'i2': 16, 'i4': 32, 'i8': 64, 'u1': 8}[dt]
    form = c.choice([tuple, list, np.array]) if ndim else tuple
    c.note(naxes=naxes, dtype=dt, ext=ext)

    def basic(h, key):
        c.check(h['NAXIS'] == ndim and all(h[f'NAXIS{i + 1}'] == n for i, n in enumerate(naxes)), key + ':naxis', lambda: repr(h))
        c.check(h['BITPIX'] == bitpix, key + ':bitpix', f"{h['BITPIX']} instead of {bitpix}")
        c.check(w.fitsheader2shape(h) == naxes[::-1], key + ':shape', f'{w.fitsheader2shape(h)}')
        if ext is None:
            c.check(h['SIMPLE'] is True and 'XTENSION' not in h, key + ':primary', lambda: repr(h))
        else:
            c.check(h['XTENSION'] == 'IMAGE' and h['EXTNAME'] == ext and 'SIMPLE' not in h, key + ':extension', lambda: repr(h))

    h = w.create_fitsheader(form(naxes), **kw)
    basic(h, 'header')
    c.check(ndim == 0 or not w.has_wcs(h), 'header:nowcs', 'a header without WCS is said to have one')
    if ndim:
        data = np.zeros(naxes[::-1], dt or 'f8')
        h2 = w.create_fitsheader_for(data, **({} if ext is None else {'extname': ext}))
        basic(h2, 'header_for')
        back = w.str2fitsheader(h.tostring())
        c.check([(_.keyword, _.value, _.comment) for _ in back.cards] == [(_.keyword, _.value, _.comment) for _ in h.cards],
                'str2fitsheader', lambda: repr(back))
    if ndim == 2:
        h, cd, crpix, crval, kind, dp = make_header(c, naxes, **kw)
        basic(h, 'wcs')
        c.note(kind=kind, cd=cd.tolist())
        got = np.array([[h['CD1_1'], h['CD1_2']], [h['CD2_1'], h['CD2_2']]])
        c.close(got, cd, 'wcs:cd', rtol=1e-12, atol=1e-13)
        c.close([h['CRPIX1'], h['CRPIX2']], crpix, 'wcs:crpix')
        c.close([h['CRVAL1'], h['CRVAL2']], crval, 'wcs:crval')
        c.check(w.has_wcs(h), 'wcs:has', 'no WCS')
        c.check(h['CTYPE1'] == 'RA---TAN' and h['CTYPE2'] == 'DEC--TAN' and h['RADESYS'] == 'ICRS' and 'EQUINOX' not in h
                and h['CUNIT1'] == h['CUNIT2'] == 'deg', 'wcs:defaults', lambda: repr(h))
        cdelt, pa = w.get_cdelt_pa(h)
        if dp is not None and dp[0][1] > 0:
            c.close(cdelt, dp[0], 'wcs:cdelt', rtol=1e-10)
            c.close(wrap(pa - dp[1]), 0, 'wcs:pa', rtol=0, atol=1e-9)
            if kind in ('cdelt', 'square') and dp[0][0] < 0:
                # the position angle of the y axis, from north to east
                x0 = np.array([0., 0.]) + crpix
                p = tan_world(cd, crpix, crval, np.array([x0, x0 + [0, 1e-3]]))
                ang = np.arctan2((p[1, 0] - p[0, 0]) * np.cos(p[0, 1] * D), p[1, 1] - p[0, 1]) / D
                c.close(wrap(ang - dp[1]), 0, 'wcs:pa:sky', rtol=0, atol=1e-2)
        if kind != 'cd':
            # whatever the signs, the scales and the angle stand for the same matrix
            h3 = w.create_fitsheader(naxes, cdelt=cdelt, pa=pa)
            c.close([[h3['CD1_1'], h3['CD1_2']], [h3['CD2_1'], h3['CD2_2']]], cd, 'wcs:cdelt:cd', rtol=1e-9, atol=1e-12)
        old = fits.Header()
        old['NAXIS'] = 2
        old['CDELT1'], old['CDELT2'] = -0.5, 0.25
        c.raises(KeyError, lambda: w.get_cdelt_pa(old), 'wcs:cdelt:none')
        old['CROTA2'] = 12.5
        cdelt, pa = w.get_cdelt_pa(old)
        c.check(list(cdelt) == [-0.5, 0.25] and pa == -12.5, 'wcs:cdelt:old', f'{cdelt} {pa}')
        ct = c.choice([('GLON-CAR', 'GLAT-CAR'), ('RA---SIN', 'DEC--SIN'), ('ELON-TAN', 'ELAT-TAN')])
        unit = c.choice(['deg', 'arcsec', ('deg', 'arcsec')])
        h = w.create_fitsheader(naxes, cdelt=0.5, ctype=ct, cunit=unit, radesys='fk5', equinox=2000)
        u = (unit, unit) if isinstance(unit, str) else unit
        c.check((h['CTYPE1'], h['CTYPE2']) == ct and (h['CUNIT1'], h['CUNIT2']) == u and h['EQUINOX'] == 2000, 'wcs:types', lambda: repr(h))
        c.check(('RADESYS' in h) == ct[0].startswith('RA-') and h.get('RADESYS', 'FK5') == 'FK5', 'wcs:radesys', lambda: repr(h))
        c.check([h['CD1_1'], h['CD1_2'], h['CD2_1'], h['CD2_2']] == [0.5, 0, 0, 0.5], 'wcs:scalar', lambda: repr(h))
        h = w.create_fitsheader_for(np.zeros(naxes[::-1]), cdelt=0.5, crval=crval, crpix=crpix)
        c.check([h['CD1_1'], h['CD2_2'], h['CRVAL2'], h['CRPIX1']] == [-0.5, 0.5, crval[1], crpix[0]], 'header_for:wcs', lambda: repr(h))
        for bad in dict(cd=[1, 2]), dict(cdelt=1, crval=(1, 2, 3)), dict(cdelt=1, crpix=(1,)), dict(cdelt=1, ctype=('RA---TAN',)), dict(cdelt=1, cunit=('deg',)):
            c.raises(ValueError, lambda: w.create_fitsheader(naxes, **bad), 'header:refused')
    c.raises(ValueError, lambda: w.create_fitsheader(), 'header:refused')
    c.raises(ValueError, lambda: w.create_fitsheader((1,) * 9), 'header:refused')


# ------------------------------------------------------------- operators
def layout(c, x):
    kind = c.choice(['c', 'c', 'strided', 'f', 'list'])
    if kind == 'strided':
        big = np.full(x.shape[:-1] + (5,), np.nan)
        big[..., 1::2] = x
        return big[..., 1::2], kind
    if kind == 'f':
        return np.asfortranarray(x), kind
    if kind == 'list':
        return x.tolist(), kind
    return x.copy(), kind


def wcs(c):
    from pysimulators import Map, SceneGrid
    from pysimulators.wcsutils import WCSToPixelOperator, WCSToWorldOperator

    naxes = c.int(1, 30), c.int(1, 30)
    h, cd, crpix, crval, kind, dp = make_header(c, naxes, 0.3)
    origin = c.choice([0, 0, 1])
    shape = c.choice([(), (1,), (c.int(2, 6),), (c.int(1, 3), c.int(1, 4)), (2, 1, 3), (0,)])
    x = np.round(c.rng.uniform(-20, 40, shape + (2,)), 3)
    arg, lay = layout(c, x)
    src = c.choice(['header', 'wcs'])
    kw = {} if origin == 0 and c.coin() else {'origin': origin}
    c.note(kind=kind, naxes=naxes, origin=origin, shape=shape, layout=lay, src=src)
    op = WCSToWorldOperator(h if src == 'header' else WCS(h), **kw)
    want = tan_world(cd, crpix, crval, x + 1 - origin)

    def same(got, key, w=None):
        got = np.asarray(got)
        w = want if w is None else w
        if not c.check(got.shape == w.shape, key + ':shape', f'{got.shape} instead of {w.shape}'):
            return
        c.close(between(vec(got[..., 0], got[..., 1]), vec(w[..., 0], w[..., 1])), np.zeros(shape), key, rtol=0, atol=1e-9)

    if x.size == 0:
        return
    same(op(arg), 'toworld')
    if lay != 'list':
        c.equal(arg, x, 'toworld:operand')
    out = layout(c, np.zeros(x.shape))[0]
    out = out if isinstance(out, np.ndarray) else np.zeros(x.shape)
    op(x, out)
    same(out, 'toworld:out')
    topix = WCSToPixelOperator(h if src == 'header' else WCS(h), **kw)
    warg, lay = layout(c, want)
    c.close(topix(warg), x, 'topixel', rtol=0, atol=1e-7)
    out = layout(c, np.zeros(x.shape))[0]
    out = out if isinstance(out, np.ndarray) else np.zeros(x.shape)
    topix(want, out)
    c.close(out, x, 'topixel:out', rtol=0, atol=1e-7)
    same(topix.I(x), 'inverse')
    c.close(op.I(want), x, 'inverse', rtol=0, atol=1e-7)
    c.close(topix(op)(x), x, 'roundtrip', rtol=0, atol=1e-7)
    inplace = x.copy()
    op(inplace, inplace)
    same(inplace, 'toworld:inplace')
    c.raises(ValueError, lambda: op(3.), 'wcs:scalar')
    c.raises(ValueError, lambda: op([1., 2., 3.]), 'wcs:last')
    # scenes: pixels are 0-based, the one-dimensional index goes along x first
    s = SceneGrid.fromfits(h)
    c.check(s.shape == naxes[::-1] and s.origin == 'lower', 'scene:shape', f'{s.shape} {s.origin}')
    i = np.array([c.int(0, naxes[0] - 1), c.int(0, naxes[1] - 1)])
    sky = tan_world(cd, crpix, crval, i + 1)
    p = s.topixel(sky)
    c.close(p, i, 'scene:topixel', rtol=0, atol=1e-7)
    c.check(int(s.to1d(np.round(p).astype(int))) == i[0] + naxes[0] * i[1], 'scene:to1d', lambda: f'{s.to1d(np.round(p).astype(int))}')
    c.equal(s.toNd(np.array(i[0] + naxes[0] * i[1])), i, 'scene:tond')


def kapteyn(c):
    """Transforms delegated to the Projections of Kapteyn, replaced by a stand-in."""
    from pysimulators.wcsutils import WCSKapteynToPixelOperator, WCSKapteynToWorldOperator

    naxes = c.int(1, 30), c.int(1, 30)
    h, cd, crpix, crval, kind, dp = make_header(c, naxes, 0.3)

    class Projection:
        allow_invalid = False

        def __init__(self, header):
            self.wcs = WCS(header)

        def topixel(self, x):
            return self.wcs.wcs_world2pix(np.array(x), 1)

        def toworld(self, x):
            return self.wcs.wcs_pix2world(np.array(x), 1)

    parent, module = types.ModuleType('kapteyn'), types.ModuleType('kapteyn.wcs')
    parent.wcs, module.Projection = module, Projection
    n = c.int(1, 6)
    x = np.round(c.rng.uniform(-20, 40, (n, 2)), 3)
    src = c.choice(['header', 'projection'])
    c.note(kind=kind, n=n, src=src)
    want = tan_world(cd, crpix, crval, x)
    with mock.patch.dict(sys.modules, {'kapteyn': parent, 'kapteyn.wcs': module}):
        arg = h if src == 'header' else Projection(h)
        op, topix = WCSKapteynToWorldOperator(arg), WCSKapteynToPixelOperator(arg)
        for got, key in (op(x), 'toworld'), (topix.I(x), 'inverse'):
            c.close(between(vec(got[:, 0], got[:, 1]), vec(want[:, 0], want[:, 1])), np.zeros(n), 'kapteyn:' + key, rtol=0, atol=1e-9)
        for got, key in (topix(want), 'topixel'), (op.I(want), 'inverse'), (topix(op)(x), 'roundtrip'):
            c.close(got, x, 'kapteyn:' + key, rtol=0, atol=1e-7)
        inplace = want.copy()
        topix(inplace, inplace)
        c.close(inplace, x, 'kapteyn:inplace', rtol=0, atol=1e-7)
        for o in op, topix:
            c.check(o.wcs.allow_invalid is True, 'kapteyn:invalid', 'an invalid coordinate would be an error')
            c.raises(ValueError, lambda: o(3.), 'kapteyn:scalar')
            c.raises(ValueError, lambda: o([1., 2., 3.]), 'kapteyn:last')


def combine(c):
    from pysimulators.wcsutils import combine_fitsheader, get_cdelt_pa

    n = c.int(1, 5)
    lon0, lat0 = pole_safe(c)
    lat0 *= 0.8
    hs, edges, deltas, pas = [], [], [], []
    for i in range(n):
        naxes = c.int(1, 20), c.int(1, 20)
        d = round(float(c.rng.uniform(0.01, 0.2)), 4)
        pa = round(float(c.rng.uniform(-40, 40)), 2)
        from pysimulators.wcsutils import create_fitsheader

        crval = (lon0 + round(float(c.rng.uniform(-4, 4)), 3)) % 360, lat0 + round(float(c.rng.uniform(-4, 4)), 3)
        crpix = np.round(c.rng.uniform(-5, 25, 2), 2)
        h = create_fitsheader(naxes, cdelt=d, pa=pa, crval=crval, crpix=crpix)
        hs.append(h)
        cd = np.array([[h['CD1_1'], h['CD1_2']], [h['CD2_1'], h['CD2_2']]])
        # the reference pixels are enclosed too
        e = np.array([list(crpix), [crpix[0], 0.5], [crpix[0], naxes[1] + 0.5], [0.5, crpix[1]], [naxes[0] + 0.5, crpix[1]],
                      [0.5, 0.5], [0.5, naxes[1] + 0.5], [naxes[0] + 0.5, 0.5], [naxes[0] + 0.5, naxes[1] + 0.5]])
        edges.append(tan_world(cd, crpix, crval, e))
        deltas.append(d)
        pas.append(pa)
    kw = {}
    if c.coin(0.3):
        kw['cdelt'] = 0.15
    if c.coin(0.3):
        kw['pa'] = 20.
    c.note(n=n, kw=kw, crval=(lon0, lat0))
    arg = c.choice([list, tuple])(hs) if n > 1 or c.coin() else hs[0]
    got = combine_fitsheader(arg, **kw)
    if n == 1 and not kw:
        c.check(got is hs[0], 'combine:one', 'not the header itself')
        return
    cdelt, pa = get_cdelt_pa(got)
    want = kw.get('cdelt', min(deltas))
    c.close(cdelt, [-want, want], 'combine:cdelt', rtol=1e-10)
    c.close(wrap(pa - kw.get('pa', np.mean(pas))), 0, 'combine:pa', rtol=0, atol=1e-8)
    cd = np.array([[got['CD1_1'], got['CD1_2']], [got['CD2_1'], got['CD2_2']]])
    w = WCS(got)
    lo, hi = np.array([np.inf, np.inf]), -np.array([np.inf, np.inf])
    for e in edges:
        p = w.wcs_world2pix(e, 1)
        lo, hi = np.minimum(lo, p.min(0)), np.maximum(hi, p.max(0))
    na = np.array([got['NAXIS1'], got['NAXIS2']])
    eps = 1e-6
    c.check(bool(np.all(lo > 0.5 - eps) and np.all(hi < na + 0.5 + eps)), 'combine:covers', lambda: f'{lo} {hi} are not within {na}')
    c.check(bool(np.all(lo < 1.5 + eps) and np.all(hi > na - 0.5 - eps)), 'combine:tight', lambda: f'{lo} {hi} in {na}')
    b = vec([h['CRVAL1'] for h in hs], [h['CRVAL2'] for h in hs]).sum(0)
    c.close(between(vec(got['CRVAL1'], got['CRVAL2']), b / np.linalg.norm(b)), 0, 'combine:crval', rtol=0, atol=3e-6)


def planes(c):
    from pysimulators.wcsutils import DistortionOperator, RotationBoresightEquatorialOperator

    # distortions
    m = c.int(3, 6)
    g = np.stack(np.meshgrid(np.arange(m), np.arange(m)), -1).reshape(-1, 2) + 0.
    g += np.round(c.rng.uniform(-0.1, 0.1, g.shape), 3)
    a = np.round(c.rng.uniform(-2, 2, (2, 2)), 2) + 3 * np.eye(2)
    b = np.round(c.rng.uniform(-5, 5, 2), 2)
    linear = c.coin()
    xout = g @ a.T + b
    if not linear:
        xout = xout + 0.05 * np.sin(g[:, ::-1])
    op = DistortionOperator(c.choice([list, np.array])(g.tolist()), xout)
    c.note(m=m, linear=linear)
    got = op(g)
    good = ~np.isnan(got).any(-1) | ((g > 0.5) & (g < m - 1.5)).all(-1)
    c.close(got[good], xout[good], 'distortion:nodes', rtol=1e-9, atol=1e-9)
    # the nodes of the border may be rounded outside of the triangulation
    back = op.I(xout)
    good = ~np.isnan(back).any(-1) | ((g > 0.5) & (g < m - 1.5)).all(-1)
    c.close(back[good], g[good], 'distortion:inverse', rtol=1e-9, atol=1e-9)
    shape = c.choice([(), (4,), (2, 3)])
    x = np.round(c.rng.uniform(1, m - 2, shape + (2,)), 3)
    got = op(x)
    c.check(got.shape == x.shape, 'distortion:shape', f'{got.shape}')
    if linear:
        c.close(got, x @ a.T + b, 'distortion:linear', rtol=1e-6, atol=1e-6)
    else:
        c.close(got, x @ a.T + b, 'distortion:near', rtol=0, atol=0.5)
    c.check(bool(np.isnan(op([-50., 1.])).all()), 'distortion:outside', f'{op([-50., 1.])}')
    c.raises(ValueError, lambda: DistortionOperator(g, xout[1:]), 'distortion:refused')
    c.raises(ValueError, lambda: DistortionOperator(np.zeros((5, 3)), np.zeros((5, 3))), 'distortion:refused')
    # boresight
    n = c.int(1, 5)
    pt = np.recarray(n, [('ra', float), ('dec', float), ('pa', float)])
    pt.ra, pt.dec, pt.pa = np.round(c.rng.uniform(20, 300, n), 3), np.round(c.rng.uniform(-70, 70, n), 3), np.round(c.rng.uniform(-180, 180, n), 2)
    shape = c.choice([(), (4,), (2, 3)])
    x = np.round(c.rng.uniform(-60, 60, shape + (2,)), 2)
    op = RotationBoresightEquatorialOperator(pt)
    got = op(x)
    c.check(got.shape == (n,) + shape + (2,), 'boresight:shape', f'{got.shape}')
    ptv = [_.reshape((n,) + (1,) * len(shape)) for _ in (pt.ra, pt.dec, pt.pa)]
    # offsets along right ascension and declination after the rotation by the position angle
    t = ptv[2] * D
    de = x[..., 0] * np.cos(t) + x[..., 1] * np.sin(t)
    dn = -x[..., 0] * np.sin(t) + x[..., 1] * np.cos(t)
    dec = ptv[1] + dn / 3600
    ra = ptv[0] + de / 3600 / np.cos(dec * D)
    c.close(got, np.stack(np.broadcast_arrays(ra, dec), -1), 'boresight', rtol=0, atol=1e-9)
    # the angular distance to the pointing is conserved to the first order
    d = between(vec(got[..., 0], got[..., 1]), vec(ptv[0], ptv[1])) * 3600
    c.close(d, np.broadcast_to(np.hypot(x[..., 0], x[..., 1]), d.shape), 'boresight:distance', rtol=0, atol=0.1)
    c.raises(TypeError, lambda: RotationBoresightEquatorialOperator(np.zeros(3, [('ra', float)])), 'boresight:refused')


def areas(c):
    """Areas of the pixels of maps."""
    from pysimulators import Map, UnitError
    from pysimulators.wcsutils import create_fitsheader

    naxes = c.int(1, 12), c.int(1, 12)
    d = c.choice([1e-4, 1e-3, 0.01])
    pa = c.choice([0, 30., -100.])
    crpix = np.round(c.rng.uniform(-500, 500, 2), 1) if c.coin() else np.round(c.rng.uniform(0, 10, 2), 1)
    kind = c.choice(['cd', 'cdelt', 'cube', 'none'])
    d2 = d
    if kind == 'cdelt':
        pa = 0
    h = create_fitsheader(naxes, cdelt=d, pa=pa, crval=pole_safe(c), crpix=crpix)
    shape = naxes[::-1]
    if kind == 'cdelt':
        for k in ('CD1_1', 'CD1_2', 'CD2_1', 'CD2_2'):
            del h[k]
        h['CDELT1'] = d * c.choice([1, -1])
        h['CDELT2'] = d2
    elif kind == 'cube':
        shape = (c.int(1, 4),) + shape
    elif kind == 'none':
        h = create_fitsheader(naxes)
    x = np.round(c.rng.uniform(1, 9, shape), 3)
    c.note(kind=kind, naxes=naxes, d=(d, d2), pa=pa, crpix=crpix.tolist())
    m = Map(x, header=h, unit='Jy/pixel')
    gx, gy = np.meshgrid(np.arange(1, naxes[0] + 1), np.arange(1, naxes[1] + 1))
    r = np.hypot((gx - crpix[0]) * d, (gy - crpix[1]) * d2) * D
    area = np.cos(np.arctan(r)) ** 3
    if kind == 'none':
        # all the pixels have the area of the reference pixel, which is unknown
        got = m.tounit('uJy/pixel_reference')
        c.close(got.magnitude, x * 1e6, 'area:none', rtol=1e-12)
        c.raises(UnitError, lambda: m.tounit('Jy/sr'), 'area:unknown')
        c.equal(m.magnitude, x, 'area:operand')
        return
    got = m.tounit('Jy/pixel_reference')
    c.close(got.magnitude, x / area, 'area:reference', rtol=1e-7)
    c.close(m.tounit('Jy/sr').magnitude, x / area / (d * d2 * D**2), 'area:sr', rtol=1e-7)
    c.close(m.tounit('Jy/arcsec^2').magnitude, x / area / (d * d2 * 3600**2), 'area:arcsec', rtol=1e-7)
    c.close(m.SI.magnitude, x / area / (d * d2 * D**2) * 1e-26, 'area:SI', rtol=1e-7)
    back = Map(x, header=h, unit='Jy/sr').tounit('Jy/pixel')
    c.close(back.magnitude, x * area * (d * d2 * D**2), 'area:pixel', rtol=1e-7)
    c.check(back.unit == 'Jy / pixel' and type(back) is Map and back.header == h, 'area:map', f'{back.unit} {type(back).__name__}')
    s = m + Map(x, header=h, unit='Jy/sr')
    c.close(s.magnitude, x + x * area * (d * d2 * D**2), 'area:sum', rtol=1e-7)
    c.equal(m.magnitude, x, 'area:operand')


def run(ctx):
    ctx.each('angles', 150, 3000, angles)
    ctx.each('means', 150, 3000, means)
    ctx.each('headers', 120, 2000, headers)
    ctx.each('wcs', 120, 2000, wcs)
    ctx.each('kapteyn', 25, 200, kapteyn)
    ctx.each('combine', 60, 900, combine)
    ctx.each('planes', 60, 900, planes)
    ctx.each('areas', 60, 900, areas)
