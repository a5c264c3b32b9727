"""C12: celestial and horizontal coordinate transforms and samplings follow their definitions."""
import numpy as np
from astropy import units as u
from astropy.coordinates import SkyCoord
from astropy.time import Time, TimeDelta

from checks.c11 import between, vec

PROPERTY = 'C12'
RULE = 'coordinates compared with independent transforms of directions'
D = np.pi / 180
CONVENTIONS = ['azimuth,elevation', 'elevation,azimuth', 'azimuth,zenith', 'zenith,azimuth']


def spherical(v, convention, degrees):
    """Spherical coordinates of vectors."""
    az = np.arctan2(v[..., 1], v[..., 0]) % (2 * np.pi)
    el = np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1]))
    out = {'azimuth': az, 'elevation': el, 'zenith': np.pi / 2 - el}
    out = np.stack([out[_] for _ in convention.split(',')], -1)
    return out / D if degrees else out


def cartesian(x, convention, degrees):
    a = dict(zip(convention.split(','), np.moveaxis(np.asarray(x, float), -1, 0)))
    s = D if degrees else 1
    az = a['azimuth'] * s
    el = a['elevation'] * s if 'elevation' in a else np.pi / 2 - a['zenith'] * s
    return np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)], -1)


def directions(c, shape):
    v = c.rng.standard_normal(shape + (3,))
    v /= np.linalg.norm(v, axis=-1, keepdims=True)
    if v.size and c.coin(0.3):
        v.reshape(-1, 3)[0] = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (0, -1, 0)][c.int(0, 4)]
    return v


def galactic_matrix():
    """From ICRS to galactic, according to astropy."""
    e = SkyCoord(x=[1, 0, 0], y=[0, 1, 0], z=[0, 0, 1], representation_type='cartesian', frame='icrs').galactic.cartesian.xyz.value
    return np.asarray(e)


G = galactic_matrix()


def apply(m, v):
    return np.einsum('...ij,...j->...i', m, v)


def same(c, got, want, key, tol=1e-7):
    """Directions as vectors, at tol degrees."""
    if not c.check(got.shape == want.shape, key + ':shape', lambda: f'{got.shape} instead of {want.shape}'):
        return
    c.close(between(got, want), np.zeros(want.shape[:-1]), key, rtol=0, atol=tol)


def layout(c, x):
    kind = c.choice(['c', 'c', 'strided', 'f', 'list', 'f4'])
    if kind == 'strided':
        big = np.full(x.shape[:-1] + (2 * x.shape[-1] + 1,), np.nan)
        big[..., 1::2] = x
        return big[..., 1::2], kind
    if kind == 'f':
        return np.asfortranarray(x), kind
    if kind == 'list':
        return x.tolist(), kind
    if kind == 'f4':
        return x.astype('f4'), kind
    return x.copy(), kind


def galactic(c):
    import pysimulators as ps

    # the published angles of the pole and centre are rounded
    tol = 1e-4
    shape = c.choice([(), (1,), (c.int(1, 8),), (c.int(1, 3), c.int(1, 4)), (2, 1, 2)])
    v = directions(c, shape)
    e2g, g2e = ps.CartesianEquatorial2GalacticOperator(), ps.CartesianGalactic2EquatorialOperator()
    arg, lay = layout(c, v)
    eps = 1e-4 if lay == 'f4' else 1e-9
    cin, cout, deg = c.choice(CONVENTIONS), c.choice(CONVENTIONS), c.coin()
    back = c.coin()
    c.note(shape=shape, layout=lay, cin=cin, cout=cout, degrees=deg, back=back)
    m = G.T if back else G
    op = g2e if back else e2g
    inv = e2g if back else g2e
    got = np.asarray(op(arg))
    same(c, got, apply(m, v), 'galactic:cartesian', tol)
    c.close(np.linalg.norm(got, axis=-1), np.ones(shape), 'galactic:norm', rtol=0, atol=1e-5 if lay == 'f4' else 1e-12)
    if lay != 'list':
        c.equal(arg, v.astype(np.asarray(arg).dtype), 'galactic:operand')
    out = np.full(v.shape, np.nan)
    op(v, out)
    same(c, out, apply(m, v), 'galactic:out', tol)
    exact = np.asarray(op(v))
    x = v.copy()
    op(x, x)
    c.close(x, exact, 'galactic:inplace', rtol=0, atol=1e-12)
    for o, k in (inv * op, 'product'), (op.T * op, 'transposed'), (op.I * op, 'inversed'), (inv(op), 'composition'):
        c.close(np.asarray(o(v)), v, 'galactic:' + k, rtol=0, atol=1e-12)
    c.close(np.asarray(op.T(v)), np.asarray(inv(v)), 'galactic:transpose', rtol=0, atol=1e-12)
    c.close(np.asarray(op.I(v)), np.asarray(inv(v)), 'galactic:inverse', rtol=0, atol=1e-12)
    s = round(float(c.rng.uniform(-3, 3)), 2)
    c.close(np.asarray((s * op)(v)), s * exact, 'galactic:scaled', rtol=0, atol=1e-12)
    c.close(np.asarray((op * s)(v)), s * exact, 'galactic:scaled', rtol=0, atol=1e-12)
    c.close(np.asarray((inv * (s * op))(v)), s * v, 'galactic:scaled:product', rtol=0, atol=1e-12)
    c.close(np.asarray((s * op).T(v)), s * np.asarray(op.T(v)), 'galactic:scaled:transpose', rtol=0, atol=1e-12)
    # spherical
    cls = ps.SphericalGalactic2EquatorialOperator if back else ps.SphericalEquatorial2GalacticOperator
    kw = {}
    if cin != CONVENTIONS[0] or c.coin():
        kw['conventionin'] = cin
    if cout != CONVENTIONS[0] or c.coin():
        kw['conventionout'] = cout
    if deg or c.coin():
        kw['degrees'] = deg
    op2 = cls(**kw)
    ang = spherical(v, cin, deg)
    got = np.asarray(op2(ang))
    if c.check(got.shape == shape + (2,), 'galactic:spherical:shape', f'{got.shape}'):
        w = cartesian(got, cout, deg)
        same(c, w, exact, 'galactic:spherical', 3e-6)
        a = got[..., cout.split(',').index('azimuth')]
        c.check(bool(np.all((a >= 0) & (a <= (360 if deg else 2 * np.pi)))), 'galactic:azimuth', lambda: f'{a}')
    r = op2.I(op2)
    c.close(between(cartesian(np.asarray(r(ang)), cin, deg), v), np.zeros(shape), 'galactic:spherical:roundtrip', rtol=0, atol=6e-6)
    c.raises(ValueError, lambda: op2(np.zeros(3)), 'galactic:last')
    c.raises(ValueError, lambda: cls(conventionin='elevation'), 'galactic:convention')


def sidereal(t, lon):
    """Local mean sidereal time in degrees, UT1 being taken as UTC."""
    t = t.copy()
    t.delta_ut1_utc = 0
    return t.sidereal_time('mean', 'greenwich', 'IAU1982').to_value(u.deg) + lon


def horizontal_matrix(t, lat, lon):
    """From equatorial to north, east, up."""
    lst = np.asarray(sidereal(t, lon)) * D
    lat = np.asarray(lat) * D
    lst, lat = np.broadcast_arrays(lst, lat)
    up = np.stack([np.cos(lat) * np.cos(lst), np.cos(lat) * np.sin(lst), np.sin(lat)], -1)
    east = np.stack([-np.sin(lst), np.cos(lst), 0 * lst], -1)
    north = np.cross(up, east)
    return np.stack([north, east, up], -2)


def site(c, shape=()):
    return np.round(c.rng.uniform(-90, 90, shape), 4), np.round(c.rng.uniform(-180, 360, shape), 4)


def epoch(c):
    # away from the days of 86401 seconds, whose Julian dates are stretched
    return Time([f'{c.int(1960, 2040)}-{c.int(1, 12):02}-{c.int(1, 25):02} {c.int(0, 23):02}:{c.int(0, 59):02}:{c.int(0, 59):02}.{c.int(0, 99):02}'], scale='utc')


def horizontal(c):
    import pysimulators as ps

    tol = 3e-5
    n = c.choice([1, c.int(1, 6)])
    t = epoch(c) + TimeDelta(np.sort(np.round(c.rng.uniform(0, 200000, n), 2)), format='sec')
    many = n > 1 and c.coin(0.3)
    lat, lon = site(c, (n,) if many else ())
    if not many:
        lat, lon = float(lat), float(lon)
    m = horizontal_matrix(t, lat, lon)
    extra = c.choice([(), (), (c.int(1, 4),), (2, c.int(1, 3))])
    shape = extra + (n,)
    v = directions(c, shape)
    back = c.coin()
    cin, cout, deg = c.choice(CONVENTIONS), c.choice(CONVENTIONS), c.coin()
    c.note(n=n, many=many, extra=extra, back=back, cin=cin, cout=cout, degrees=deg, date=t[0].iso, lat=np.ravel(lat).tolist(), lon=np.ravel(lon).tolist())
    cls, other = ps.CartesianEquatorial2HorizontalOperator, ps.CartesianHorizontal2EquatorialOperator
    if back:
        cls, other = other, cls
        m = m.swapaxes(-1, -2)
    op, inv = cls('NE', t, lat, lon), other('NE', t, lat, lon)
    if extra:
        # the operator acts on arrays of the shape of the observations
        v = v[(0,) * len(extra)]
        shape = (n,)
    x = v.copy()
    got = np.asarray(op(v))
    same(c, got, apply(m, v), 'horizontal:cartesian', tol)
    c.equal(v, x, 'horizontal:operand')
    out = np.full(v.shape, np.nan)
    op(v, out)
    c.equal(out, got, 'horizontal:out')
    for o, k in (inv * op, 'product'), (op.T * op, 'transposed'), (op.I * op, 'inversed'), (inv(op), 'composition'):
        c.close(np.asarray(o(v)), v, 'horizontal:' + k, rtol=0, atol=1e-12)
    c.close(np.asarray(op.T(v)), np.asarray(inv(v)), 'horizontal:transpose', rtol=0, atol=1e-12)
    s = round(float(c.rng.uniform(-3, 3)), 2)
    c.close(np.asarray((s * op)(v)), s * got, 'horizontal:scaled', rtol=0, atol=1e-12)
    c.close(np.asarray((s * op).T(v)), s * np.asarray(op.T(v)), 'horizontal:scaled:transpose', rtol=0, atol=1e-12)
    # spherical
    cls = ps.SphericalHorizontal2EquatorialOperator if back else ps.SphericalEquatorial2HorizontalOperator
    kw = {}
    if cin != CONVENTIONS[0] or c.coin():
        kw['conventionin'] = cin
    if cout != CONVENTIONS[0] or c.coin():
        kw['conventionout'] = cout
    if deg or c.coin():
        kw['degrees'] = deg
    op2 = cls('NE', t, lat, lon, **kw)
    ang = spherical(v, cin, deg)
    keep = ang.copy()
    got2 = np.asarray(op2(ang))
    c.equal(ang, keep, 'horizontal:spherical:operand')
    if c.check(got2.shape == shape + (2,), 'horizontal:spherical:shape', f'{got2.shape}'):
        same(c, cartesian(got2, cout, deg), got, 'horizontal:spherical', 3e-6)
    if not back and not many and n == 1:
        # hour angle formulae
        ra, dec = np.arctan2(v[0, 1], v[0, 0]), np.arcsin(v[0, 2])
        h = sidereal(t, lon)[0] * D - ra
        p = lat * D
        el = np.arcsin(np.sin(dec) * np.sin(p) + np.cos(dec) * np.cos(p) * np.cos(h))
        az = np.arctan2(-np.cos(dec) * np.sin(h), np.sin(dec) * np.cos(p) - np.cos(dec) * np.cos(h) * np.sin(p))
        same(c, cartesian(got2, cout, deg)[0], vec(az / D, el / D), 'horizontal:hourangle', tol)
    for bad in 'SW', 'SE', 'EN', '':
        c.raises(ValueError, lambda: ps.CartesianEquatorial2HorizontalOperator(bad, t, lat, lon), 'horizontal:convention')
        c.raises(ValueError, lambda: cls(bad, t, lat, lon), 'horizontal:convention')


def samplings(c):
    import pysimulators as ps

    kind = c.choice(['equatorial', 'horizontal'])
    n = c.choice([1, c.int(1, 10)])
    a, e = np.round(c.rng.uniform(0, 360, n), 4), np.round(c.rng.uniform(-89, 89, n), 4)
    names = ('ra', 'dec', 'pa') if kind == 'equatorial' else ('azimuth', 'elevation', 'pitch')
    third = c.choice(['none', 'scalar', 'array'])
    p = {'none': 0, 'scalar': 12.5, 'array': np.round(c.rng.uniform(-180, 180, n), 2)}[third]
    form = c.choice(['args', 'args', 'mixed', 'keywords', 'n'])
    conv = c.choice([list, np.array])
    # scans at a constant angle
    const = c.choice([None, None, 0, 1])
    if const is not None:
        x = a if const == 0 else e
        x[:] = x[0]
    kw = {}
    period = 1.
    if c.coin():
        kw['period'] = period = c.choice([0.5, 2, 10.])
    date = Time(['2000-01-01'], scale='utc')
    if c.coin():
        date = epoch(c)
        kw['date_obs'] = c.choice([lambda: date, lambda: date[0], lambda: date[0].iso])()
    time = np.arange(n) * period
    if c.coin(0.3):
        time = np.sort(np.round(c.rng.uniform(0, 5000, n), 2))
        kw['time'] = conv(time.tolist())
        if 'period' not in kw and n > 1:
            period = float(np.median(np.diff(time)))
    lat, lon = (float(_) for _ in site(c))
    if kind == 'horizontal':
        kw['latitude'], kw['longitude'] = lat, lon
    masked = None
    if c.coin(0.4):
        masked = c.rng.random(n) < 0.4
        kw['masked'] = masked if c.coin() else masked.tolist()
    cls = ps.SamplingEquatorial if kind == 'equatorial' else ps.SamplingHorizontal
    vals = [conv(a.tolist()), conv(e.tolist())] + ([] if third == 'none' else [p])
    if const is not None and (form == 'n' or n > 1):
        vals[const] = float(vals[const][0])
    else:
        const = None
    c.note(kind=kind, n=n, third=third, form=form, kw=list(kw), const=const)
    if form == 'args' and n > 0:
        s = cls(*vals, **kw)
    elif form == 'mixed' and third != 'none':
        s = cls(*vals[:2], **{names[2]: p}, **kw)
    elif form in ('keywords', 'mixed'):
        s = cls(**dict(zip(names, vals)), **kw)
    else:
        s = cls(n, **dict(zip(names, vals)), **kw)

    def compare(s, i, key):
        c.check(len(s) == len(i), key + ':len', f'{len(s)}')
        c.equal(np.asarray(getattr(s, names[0])), a[0] if const == 0 else a[i], key + ':first')
        c.equal(np.asarray(getattr(s, names[1])), e[0] if const == 1 else e[i], key + ':second')
        c.equal(np.asarray(getattr(s, names[2])), np.asarray(p)[i] if third == 'array' else np.asarray(p), key + ':third')
        c.close(np.asarray(s.time), time[i], key + ':time', rtol=1e-12)
        c.check(s.period == period, key + ':period', f'{s.period}')
        c.close(s.date_obs.jd, date.jd, key + ':date', rtol=0, atol=1e-8)
        v = vec(a[i], e[i])
        c.close(np.asarray(s.spherical), np.stack([a[i], e[i]], -1), key + ':spherical', rtol=1e-12)
        c.close(np.asarray(s.cartesian), v, key + ':cartesian', rtol=0, atol=1e-12)
        if kind == 'equatorial':
            w = v
        else:
            t = date + TimeDelta(time[i], format='sec')
            w = apply(horizontal_matrix(t, lat, lon).swapaxes(-1, -2), v)
            same(c, vec(*np.asarray(s.equatorial).T), w, key + ':equatorial', 5e-5)
        same(c, vec(*np.asarray(s.galactic).T), apply(G, w), key + ':galactic', 1.5e-4)
        c.close(np.asarray(s.spherical), np.stack([a[i], e[i]], -1), key + ':spherical:again', rtol=1e-12)
        c.equal(np.asarray(getattr(s, names[0])), a[0] if const == 0 else a[i], key + ':first:again')
        good = np.ones(len(i), bool) if masked is None else ~masked[i]
        if not good.any():
            c.raises(ValueError, s.get_center, key + ':center:none')
        else:
            m = v[good].sum(0)
            if np.linalg.norm(m) > 1e-3 * good.sum():
                got = np.asarray(s.get_center())
                c.check(got.shape == (2,), key + ':center:shape', f'{got.shape}')
                c.close(between(vec(*got), m / np.linalg.norm(m)), 0, key + ':center', rtol=0, atol=3e-6)
        c.close(np.asarray(s.cartesian), v, key + ':cartesian:again', rtol=0, atol=1e-12)

    whole = np.arange(n)
    compare(s, whole, 'sampling')
    for _ in range(2):
        k = c.choice(['slice', 'int', 'list', 'bool'])
        if k == 'slice':
            x = slice(c.int(0, n - 1), None, c.int(1, 2))
        elif k == 'int':
            x = c.int(0, n - 1)
        elif k == 'list':
            x = c.rng.permutation(n)[:c.int(1, n)]
        else:
            x = c.rng.random(n) < 0.7
            x[0] = True
        i = np.atleast_1d(whole[x])
        sub = s[x]
        c.check(type(sub) is cls, 'sampling:type', f'{type(sub)}')
        if kind == 'horizontal':
            c.check((sub.latitude, sub.longitude) == (lat, lon), 'sampling:site', '')
        compare(sub, i, 'selection')
    compare(s, whole, 'sampling:after')
    # empty pointings
    q = cls(n, **({} if kind == 'equatorial' else dict(latitude=1, longitude=2)))
    c.check(len(q) == n and getattr(q, names[0]) is None and getattr(q, names[1]) is None, 'sampling:empty', '')
    c.check(cls(1., 2., **({} if kind == 'equatorial' else dict(latitude=1, longitude=2))).shape == (1,), 'sampling:scalar', '')
    more = {} if kind == 'equatorial' else dict(latitude=1, longitude=2)
    c.raises(ValueError, lambda: cls(**{names[0]: 1.}, **more), 'sampling:refused')
    c.raises(ValueError, lambda: cls(np.zeros(3), **more), 'sampling:refused')
    c.raises(ValueError, lambda: cls(1, 2, 3, 4, **more), 'sampling:refused')
    c.raises(TypeError, lambda: cls(1., 2., 3., **{c.choice(names): 1.}, **more), 'sampling:twice')
    c.raises(ValueError, lambda: cls(np.zeros(3), np.zeros(4), **more), 'sampling:refused')
    c.raises(ValueError, lambda: cls(np.zeros((3, 2)), np.zeros((3, 2)), **more), 'sampling:refused')
    c.raises(TypeError, lambda: ps.Sampling(3, date_obs=3.), 'sampling:date')
    c.raises(ValueError, cls(np.zeros(3), np.zeros(3), masked=True, **more).get_center, 'center:none')
    c.raises(ValueError, lambda: ps.SamplingSpherical(3, names=('a', 'b')), 'sampling:names')
    if kind == 'horizontal':
        c.raises(ValueError, lambda: cls(3), 'sampling:latitude')

        class Site(cls):
            DEFAULT_LATITUDE, DEFAULT_LONGITUDE = lat, lon

        q = Site(a, e)
        c.check((q.latitude, q.longitude) == (lat, lon), 'sampling:default site', f'{q.latitude} {q.longitude}')
        q = Site(a, e, latitude=0, longitude=-3)
        c.check((q.latitude, q.longitude) == (0, -3), 'sampling:given site', f'{q.latitude} {q.longitude}')
        c.raises(ValueError, lambda: cls(3, latitude=3), 'sampling:longitude')


def run(ctx):
    ctx.each('galactic', 150, 2500, galactic)
    ctx.each('horizontal', 150, 2500, horizontal)
    ctx.each('samplings', 150, 2500, samplings)
