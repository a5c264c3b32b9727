"""C22: Healpix operators and scenes, grid scenes and beams follow their definitions."""
import warnings

import numpy as np
import scipy.constants

from harness.core import Skip

PROPERTY = 'C22'
RULE = 'outputs compared with healpy public functions and with the definitions'
LD = np.longdouble
CONVENTIONS = ['zenith,azimuth', 'azimuth,zenith', 'elevation,azimuth', 'azimuth,elevation']


def angles(x, convention):
    """theta, phi -> angles of the convention."""
    theta, phi = x[..., 0], x[..., 1]
    d = {'zenith': theta, 'azimuth': phi, 'elevation': np.pi / 2 - theta}
    return np.stack([d[_] for _ in convention.split(',')], -1)


def written(c, convention):
    """The same convention, with another case or with spaces."""
    if c.coin(0.3):
        convention = convention.replace(',', ' , ')
    if c.coin(0.3):
        convention = convention.upper()
    return convention


def arrange(c, x):
    kind = c.choice(['c', 'c', 'strided', 'f', 'list', 'int' if x.dtype.kind == 'i' else 'c'])
    if kind == 'list':
        return x.tolist()
    if kind == 'f':
        return np.array(x, float, order='F')
    if kind == 'strided' and x.ndim:
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1] + 1,))
        big[..., 1::2] = x
        return big[..., 1::2]
    return x.astype(float) if kind == 'c' else x.copy()


def pixels(c):
    import healpy as hp
    from pysimulators.interfaces import healpy as H

    nest = c.coin()
    nside = c.choice([1, 2, 4, 8, 64, 1024, 2 ** c.int(0, 13)]) if nest or c.coin(0.7) else c.int(1, 300)
    npix = 12 * nside ** 2
    shape = c.choice([(), (1,), (c.int(1, 9),), (c.int(1, 3), c.int(1, 4)), (2, 1, 3)])
    pix = c.rng.integers(0, npix, shape)
    if pix.size and c.coin(0.4):
        pix.reshape(-1)[0] = c.choice([0, npix - 1, npix // 2])
    kw = {'nest': nest} if nest or c.coin() else {}
    c.note(nside=nside, nest=nest, shape=shape)
    h2c, c2h = H.Healpix2CartesianOperator(nside, **kw), H.Cartesian2HealpixOperator(nside, **kw)
    arg = arrange(c, pix)
    keep = np.array(arg)
    v = np.asarray(h2c(arg))
    want = np.stack(hp.pix2vec(nside, pix, nest=nest), -1)
    c.check(v.shape == shape + (3,), 'cartesian:shape', lambda: f'{v.shape}')
    c.close(v, want, 'cartesian', rtol=0, atol=1e-14)
    c.equal(np.asarray(arg), keep, 'pixels:operand')
    out = np.full(shape + (3,), np.nan)
    h2c(np.asarray(pix, float), out)
    c.close(out, want, 'cartesian:out', rtol=0, atol=1e-14)
    c.equal(np.asarray(c2h(v)), pix, 'cartesian:back')
    # any direction
    d = c.rng.standard_normal(shape + (3,)) * c.choice([1, 1, 1e-6, 1e6])
    darg = arrange(c, d)
    dpix = hp.vec2pix(nside, d[..., 0], d[..., 1], d[..., 2], nest=nest)
    got = np.asarray(c2h(darg))
    c.check(got.shape == shape, 'pixel:shape', lambda: f'{got.shape}')
    c.equal(got, dpix, 'pixel')
    c.equal(np.asarray(darg), d, 'pixel:operand')
    out = np.full(shape, np.nan)
    c2h(d, out)
    c.equal(out, dpix, 'pixel:out')
    # the pixel of a direction contains it
    u = d / np.linalg.norm(d, axis=-1, keepdims=True)
    sep = 2 * np.arcsin(np.clip(np.linalg.norm(u - np.asarray(h2c(got)), axis=-1) / 2, 0, 1))
    c.check(bool(np.all(sep <= hp.max_pixrad(nside) * (1 + 1e-9) if not nside & (nside - 1) else True)), 'pixel:contains', lambda: f'{sep}')
    # spherical coordinates
    conv = c.choice(CONVENTIONS)
    h2s, s2h = (k(nside, written(c, conv), **kw) for k in (H.Healpix2SphericalOperator, H.Spherical2HealpixOperator))
    tp = np.stack(hp.pix2ang(nside, pix, nest=nest), -1)
    s = np.asarray(h2s(arg))
    c.check(s.shape == shape + (2,), 'spherical:shape', lambda: f'{s.shape}')
    c.close(s, angles(tp, conv), 'spherical', rtol=0, atol=1e-14)
    out = np.full(shape + (2,), np.nan)
    h2s(np.asarray(pix, float), out)
    c.close(out, angles(tp, conv), 'spherical:out', rtol=0, atol=1e-14)
    c.equal(np.asarray(s2h(s)), pix, 'spherical:back')
    tp = np.stack([np.arccos(c.rng.uniform(-1, 1, shape)), c.rng.uniform(-np.pi, 3 * np.pi, shape)], -1)
    a = angles(tp, conv)
    theta = np.pi / 2 - (np.pi / 2 - tp[..., 0]) if 'elevation' in conv else tp[..., 0]
    apix = hp.ang2pix(nside, theta, tp[..., 1], nest=nest)
    aarg = arrange(c, a)
    c.equal(np.asarray(s2h(aarg)), apix, 'spherical:pixel')
    c.equal(np.asarray(aarg), a, 'spherical:operand')
    out = np.full(shape, np.nan)
    s2h(a, out)
    c.equal(out, apix, 'spherical:pixel:out')
    # inverses
    for op, x, y in (c2h.I, pix, want), (h2s.I, angles(np.stack(hp.pix2ang(nside, pix, nest=nest), -1), conv), pix), (s2h.I, pix, s), (h2c.I, want, pix):
        c.close(np.asarray(op(x)), y, 'inverse', rtol=0, atol=1e-14)
    c.equal(np.asarray(c2h(h2c)(pix)), pix, 'rule')
    c.equal(np.asarray(s2h(h2s)(pix)), pix, 'rule')
    # other resolution or numbering or convention: not the identity
    other = H.Healpix2CartesianOperator(2 * nside, **kw)
    p2 = c.rng.integers(0, 4 * npix, shape)
    w2 = hp.vec2pix(nside, *hp.pix2vec(2 * nside, p2, nest=nest), nest=nest)
    c.equal(np.asarray(c2h(other)(p2)), w2, 'rule:nside')
    if not nside & (nside - 1):
        swap = H.Cartesian2HealpixOperator(nside, nest=not nest)
        c.equal(np.asarray(swap(h2c)(pix)), (hp.nest2ring if nest else hp.ring2nest)(nside, pix), 'rule:nest')
        swap = H.Spherical2HealpixOperator(nside, conv, nest=not nest)
        c.equal(np.asarray(swap(h2s)(pix)), (hp.nest2ring if nest else hp.ring2nest)(nside, pix), 'rule:nest')
    w2 = hp.ang2pix(nside, *hp.pix2ang(2 * nside, p2, nest=nest), nest=nest)
    if 'zenith' in conv:
        c.equal(np.asarray(s2h(H.Healpix2SphericalOperator(2 * nside, conv, **kw))(p2)), w2, 'rule:nside')
    conv2 = c.choice(CONVENTIONS)
    if (conv2.startswith('azimuth')) == (conv.startswith('azimuth')) and conv2 != conv:
        q = H.Spherical2HealpixOperator(nside, conv2, **kw)
        th = angles(np.stack(hp.pix2ang(nside, pix, nest=nest), -1), conv)
        th = th[..., 1] if conv.startswith('azimuth') else th[..., 0]
        if 'elevation' in conv2:
            th = np.pi / 2 - th
        ph = hp.pix2ang(nside, pix, nest=nest)[1]
        if np.all((th >= 0) & (th <= np.pi)):
            c.equal(np.asarray(q(h2s)(pix)), hp.ang2pix(nside, th, ph, nest=nest), 'rule:convention')
    for cls in H.Healpix2SphericalOperator, H.Spherical2HealpixOperator:
        c.raises(ValueError, lambda: cls(nside, c.choice(['', 'zenith', 'azimuth;zenith', 'zenith,elevation', 'ra,dec'])), 'convention')
        c.raises(TypeError, lambda: cls(nside, 3), 'convention')
    for op, n in (c2h, 3), (s2h, 2):
        c.raises(ValueError, lambda: op(np.zeros(shape + (5,))), 'last')
        c.raises(ValueError, lambda: op(1.), 'last')
        c.raises(ValueError, lambda: op.I(np.zeros((2,)), np.zeros((2, n + 1))), 'last')


def smoothing(c):
    import healpy as hp
    from pyoperators import IdentityOperator
    from pysimulators.interfaces.healpy import HealpixConvolutionGaussianOperator as S

    nside = c.choice([1, 2, 4, 8])
    npix = 12 * nside ** 2
    fwhm = float(np.radians(c.choice([2., 10., 40., 90.])))
    how = c.choice(['fwhm', 'sigma'])
    kw = {'fwhm': fwhm} if how == 'fwhm' else {'sigma': fwhm / np.sqrt(8 * np.log(2))}
    opt = {}
    iqu = nside > 1 and c.coin(0.4)
    if iqu and c.coin() or not iqu and c.coin(0.2):
        opt['pol'] = False
    if c.coin():
        opt['iter'] = c.int(0, 3)
    if c.coin():
        opt['lmax'] = c.int(2, 3 * nside - 1)
        if not iqu and c.coin():
            opt['mmax'] = c.int(1, opt['lmax'])
    x = np.round(c.rng.uniform(-5, 5, (npix,) + ((3,) if iqu else ())), 2)
    c.note(nside=nside, iqu=iqu, how=how, fwhm=fwhm, **opt)
    op = S(**kw, **opt)
    ref = dict(fwhm=fwhm, iter=opt.get('iter', 3), lmax=opt.get('lmax'), mmax=opt.get('mmax'), pol=opt.get('pol', True))

    def smooth(x):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return np.asarray(hp.smoothing(x.T, **ref)).T

    want = smooth(x)
    keep = x.copy()
    got = np.asarray(op(x))
    c.close(got, want, 'smoothing', rtol=1e-10, atol=1e-10)
    c.equal(x, keep, 'smoothing:operand')
    c.close(op.fwhm, fwhm, 'smoothing:fwhm', rtol=1e-13)
    c.close(op.sigma, fwhm / np.sqrt(8 * np.log(2)), 'smoothing:fwhm', rtol=1e-13)
    out = np.full(x.shape, np.nan)
    op(x, out)
    c.close(out, want, 'smoothing:out', rtol=1e-10, atol=1e-10)
    z = x.copy()
    op(z, z)
    c.close(z, want, 'smoothing:inplace', rtol=1e-10, atol=1e-10)
    y = np.round(c.rng.uniform(-5, 5, x.shape), 2)
    c.close(np.asarray(op(2 * x - y)), 2 * got - np.asarray(op(y)), 'smoothing:linear', rtol=0, atol=1e-9)
    for bad in 11, 13, 5:
        c.raises(ValueError, lambda: op(np.zeros(bad)), 'smoothing:nside')
    c.raises(ValueError, lambda: op(np.zeros((npix, 3, 2))), 'smoothing:dimensions')
    c.raises(ValueError, lambda: S(), 'smoothing:width')
    c.raises(ValueError, lambda: S(fwhm=1., sigma=1.), 'smoothing:width')
    c.raises(ValueError, lambda: S(**{how: -0.1}), 'smoothing:width')
    ident = S(**{how: 0.})
    c.check(type(ident) is IdentityOperator, 'smoothing:zero', f'{type(ident)}')
    c.equal(np.asarray(ident(x)), x, 'smoothing:zero')


def laplacian(c):
    import healpy as hp
    from pysimulators.interfaces.healpy import HealpixLaplacianOperator as L

    nside = c.choice([1, 2, 4, 8, 16, 32, 64])
    npix = 12 * nside ** 2
    h2 = 4 * np.pi / npix
    op = L(nside)
    c.note(nside=nside)
    c.check(op.nside == nside and op.matrix.shape == (npix, npix), 'laplacian:shape', f'{op.matrix.shape}')
    nb = hp.get_all_neighbours(nside, np.arange(npix))
    full = np.all(nb >= 0, axis=0)
    one = np.asarray(op(np.ones(npix)))
    c.close(one[full] * h2, np.zeros(full.sum()), 'laplacian:constant', rtol=0, atol=1e-10)
    x = c.rng.standard_normal(npix)
    y = c.rng.standard_normal(npix)
    lx, ly = np.asarray(op(x)), np.asarray(op(y))
    c.close(np.dot(y, lx) * h2, np.dot(x, ly) * h2, 'laplacian:symmetric', rtol=1e-9, atol=1e-6 * np.sqrt(npix))
    k = c.int(0, npix - 1)
    e = np.zeros(npix)
    e[k] = 1
    r = np.asarray(op(e))
    near = {k, *nb[:, k].tolist()}
    c.check(set(np.flatnonzero(r).tolist()) <= near, 'laplacian:local', f'{np.flatnonzero(r)} for {near}')
    c.close(r[k] * h2 * 6, -20, 'laplacian:center', rtol=1e-12)
    c.close(np.asarray(op.T(e)), r, 'laplacian:transpose', rtol=1e-12, atol=0)
    m = c.int(1, 3)
    xx = np.repeat(x[:, None], m, 1) * np.arange(1, m + 1)
    c.close(np.asarray(op(xx)), lx[:, None] * np.arange(1, m + 1), 'laplacian:maps', rtol=1e-12, atol=1e-12 / h2)
    if nside >= 32:
        # a spherical harmonic is nearly an eigenvector (the pixels are not squares)
        k = int(c.rng.choice(np.flatnonzero(full)))
        e = np.zeros(npix)
        e[k] = 1
        # sides: SW, NW, NE, SE
        weights = np.asarray(op(e))[nb[:, k]] * 6 * h2
        swapped = np.allclose(weights, [1, 4] * 4, rtol=1e-12)
        c.check(not swapped, 'laplacian:swapped',
                lambda: f'weights {np.round(weights, 6).tolist()} for the neighbours SW, W, NW, N, NE, E, SE, S: those that share a vertex weigh 4')
        l = c.int(1, 4)
        v = c.rng.standard_normal(3)
        v /= np.linalg.norm(v)
        mu = np.stack(hp.pix2vec(nside, np.arange(npix)), -1) @ v
        f = np.polynomial.legendre.Legendre.basis(l)(mu)
        ratio = np.dot(np.asarray(op(f))[full], f[full]) / np.dot(f[full], f[full]) / (-l * (l + 1))
        if swapped:
            # consistent with the swapped weights, which give three halves of the Laplacian
            ratio /= 1.5
        c.check(0.9 < ratio < 1.3, 'laplacian:harmonic', lambda: f'{ratio:.3f} times the Laplacian for l={l} nside={nside}')


def scene(c):
    import healpy as hp
    from pysimulators.interfaces.healpy import SceneHealpix, SceneHealpixCMB

    nside = 2 ** c.int(0, 7)
    kind = c.choice(['I', 'QU', 'IQU'])
    nest = c.coin()
    conv = c.choice(CONVENTIONS)
    cmb = c.coin(0.6)
    absolute = c.coin()
    t = c.choice([2.7255, 2.7255, 2.0, 10.5])
    kw = {}
    if kind != 'I' or c.coin():
        kw['kind'] = kind if c.coin(0.7) else kind.lower()
    if nest or c.coin():
        kw['nest'] = nest
    if conv != CONVENTIONS[0] or c.coin():
        kw['convention'] = conv
    dt = c.choice(['f8', 'f4', 'i4'])
    if dt != 'f8' or c.coin():
        kw['dtype'] = dt
    if cmb:
        if absolute or c.coin():
            kw['absolute'] = absolute
        if t != 2.7255 or c.coin():
            kw['temperature'] = t
    if c.coin(0.3):
        kw['comment'] = 'abc'
    c.note(nside=nside, cmb=cmb, **kw)
    s = (SceneHealpixCMB if cmb else SceneHealpix)(nside, **kw)
    npix = 12 * nside ** 2
    shape = (npix,) if kind == 'I' else (npix, len(kind))
    c.check(s.shape == shape and len(s) == npix and s.ndim == 1, 'scene:shape', lambda: f'{s.shape} {len(s)}')
    c.check((s.nside, s.npixel, s.kind, s.nest, s.convention) == (nside, npix, kind, nest, conv), 'scene:attributes', '')
    c.check(getattr(s, 'comment', None) == kw.get('comment'), 'scene:attributes', '')
    c.close(s.solid_angle, 4 * np.pi / npix, 'scene:solidangle', rtol=1e-14)
    for name, v in ('ones', 1), ('zeros', 0):
        a = getattr(s, name)()
        c.check(a.shape == shape and a.dtype == np.dtype(dt), 'scene:' + name, lambda: f'{a.shape} {a.dtype}')
        c.equal(np.asarray(a), np.full(shape, v), 'scene:' + name)
    a = s.empty()
    c.check(a.shape == shape and a.dtype == np.dtype(dt), 'scene:empty', lambda: f'{a.shape} {a.dtype}')
    n = c.int(1, 6)
    tp = np.stack([np.arccos(c.rng.uniform(-1, 1, n)), c.rng.uniform(0, 2 * np.pi, n)], -1)
    theta = np.pi / 2 - (np.pi / 2 - tp[..., 0]) if 'elevation' in conv else tp[..., 0]
    p = hp.ang2pix(nside, theta, tp[:, 1], nest=nest)
    c.equal(np.asarray(s.topixel(angles(tp, conv))), p, 'scene:topixel')
    c.close(np.asarray(s.toworld(p)), angles(np.stack(hp.pix2ang(nside, p, nest=nest), -1), conv), 'scene:toworld', rtol=0, atol=1e-14)
    c.raises(ValueError, lambda: type(s)(nside, kind=c.choice(['Q', 'V', 'IQUV', 'UQ'])), 'scene:kind')
    c.raises(TypeError, lambda: type(s)(nside, kind=3), 'scene:kind')
    c.raises(ValueError, lambda: type(s)(nside, convention='ra,dec'), 'scene:convention')
    if not cmb:
        return
    c.check((s.absolute, s.temperature) == (absolute, t), 'cmb:attributes', '')
    nu = float(f'{np.exp(c.rng.uniform(np.log(5e9), np.log(2e12))):.4g}')
    h, k, cc = (LD(getattr(scipy.constants, _)) for _ in ('h', 'k', 'c'))

    def power(t):
        return 2 * h * LD(nu) ** 3 / cc ** 2 / np.expm1(h * LD(nu) / (k * t)) * 4 * LD(np.pi) / npix

    op = s.get_unit_conversion_operator(nu)
    xs = c.choice([(), (4,), (2, 3)])
    if absolute:
        x = np.round(c.rng.uniform(1, 20, xs), 4)
        c.close(np.asarray(op(x)), power(x.astype(LD)).astype(float), 'cmb:absolute', rtol=1e-10)
    else:
        x = np.round(c.rng.uniform(-300, 300, xs), 4)
        z = h * LD(nu) / (k * LD(t))
        slope = power(LD(t)) * z / LD(t) / -np.expm1(-z)
        want = (slope * x * LD(1e-6)).astype(float)
        c.close(np.asarray(op(x)), want, 'cmb:fluctuations', rtol=1e-10)
        d = np.asarray(op(np.array([1.])))[0]
        diff = float((power(LD(t) + LD(5e-7)) - power(LD(t) - LD(5e-7))))
        c.close(d, diff, 'cmb:derivative', rtol=1e-5)
        c.close(np.asarray(op.T(x)), want, 'cmb:transpose', rtol=1e-10)


def grid(c):
    from astropy.wcs import WCS
    from pysimulators import SceneGrid, create_fitsheader

    n1, n2 = c.int(1, 12), c.int(1, 12)
    start = c.coin()
    origin = c.choice(['upper', 'lower', 'Upper', 'LOWER'])
    kw = {}
    if start or c.coin():
        kw['startswith1'] = start
    if origin != 'upper' or c.coin():
        kw['origin'] = origin
    c.note(shape=(n2, n1), start=start, origin=origin)
    s = SceneGrid((n2, n1), **kw)
    c.check(s.shape == (n2, n1) and len(s) == n1 * n2 and s.origin == origin.lower(), 'grid:shape', f'{s.shape} {s.origin}')
    y, x = np.indices((n2, n1))
    col, row = (s.column, s.row)
    if callable(col):
        col, row = col(), row()
    c.equal(np.asarray(col).ravel(), x.ravel() + start, 'grid:column')
    c.equal(np.asarray(row).ravel(), y.ravel() + start, 'grid:row')
    c.raises(ValueError, lambda: SceneGrid((n2, n1), origin='left'), 'grid:origin')
    c.raises(TypeError, lambda: SceneGrid((n2, n1), origin=1), 'grid:origin')
    c.raises(ValueError, lambda: SceneGrid((n2,)), 'grid:dimensions')
    pts = np.round(c.rng.uniform(0, [n1 - 1, n2 - 1], (c.int(1, 5), 2)), 3)
    c.close(np.asarray(s.topixel(pts)) if s.topixel.shapein is None else pts, pts, 'grid:topixel')
    # from a header
    cdelt = np.round(c.rng.uniform(0.001, 0.1, 2), 5)
    header = create_fitsheader((n1, n2), cdelt=cdelt, crval=(c.int(0, 359), c.int(-80, 80)), crpix=(c.int(1, n1), c.int(1, n2)), ctype=['RA---TAN', 'DEC--TAN'])
    s = SceneGrid.fromfits(header, **({'startswith1': True} if start else {}))
    c.check(s.shape == (n2, n1) and s.origin == 'lower' and s.startswith1 == start, 'fits:shape', f'{s.shape}')
    c.check(s.header is header, 'fits:header', '')
    w = WCS(header)
    sky = w.wcs_pix2world(pts, 0)
    c.close(np.asarray(s.topixel(sky)), pts, 'fits:topixel', rtol=0, atol=1e-6)
    c.close(np.asarray(s.toworld(pts)), sky, 'fits:toworld', rtol=0, atol=1e-9)
    q = np.stack([c.rng.integers(0, n1, 5), c.rng.integers(0, n2, 5)], -1)
    c.equal(np.asarray(s.to1d(q)), q[:, 0] + n1 * q[:, 1], 'fits:to1d')
    c.equal(np.asarray(s.toNd(q[:, 0] + n1 * q[:, 1])), q, 'fits:toNd')
    m = c.rng.uniform(0, 1, s.shape)
    c.equal(m.ravel()[np.asarray(s.to1d(q)).astype(int)], m[q[:, 1], q[:, 0]], 'fits:order')


def beam(c):
    import healpy as hp
    from pysimulators import BeamGaussian, BeamUniformHalfSpace

    fwhm = float(np.radians(round(float(np.exp(c.rng.uniform(np.log(0.1), np.log(80)))), 3)))
    back = c.coin()
    kw = {'backward': back} if back or c.coin() else {}
    b = BeamGaussian(fwhm, **kw)
    sigma = fwhm / np.sqrt(8 * np.log(2))
    st, sp = c.choice([((), ()), ((4,), ()), ((), (3,)), ((3,), (3,)), ((2, 1), (1, 3)), ((1,), (5,))])
    theta, phi = c.rng.uniform(0, np.pi, st) * c.choice([1, fwhm / np.pi]), c.rng.uniform(0, 2 * np.pi, sp)
    if back and c.coin():
        theta = np.pi - theta
    c.note(fwhm=fwhm, back=back, st=st, sp=sp)
    keep = np.array(theta)
    got = np.asarray(b(theta, phi))
    th = np.pi - theta if back else theta
    want = np.broadcast_to(np.exp(-0.5 * th ** 2 / sigma ** 2), np.broadcast(theta, phi).shape)
    c.check(got.shape == want.shape, 'beam:shape', lambda: f'{got.shape}')
    c.close(got, want, 'beam', rtol=1e-9, atol=1e-300)
    c.equal(theta, keep, 'beam:operand')
    c.close(np.asarray(b(np.pi - fwhm / 2 if back else fwhm / 2, 1.)), 0.5, 'beam:half', rtol=1e-9 if not back else 1e-6)
    c.close(np.asarray(b(np.pi if back else 0., 0.)), 1, 'beam:peak', rtol=1e-12)
    c.check(isinstance(b.solid_angle, float), 'beam:solidangle', '')
    c.close(b.solid_angle, np.pi * fwhm ** 2 / (4 * np.log(2)), 'beam:solidangle', rtol=1e-12)
    nside = 2 ** c.int(0, 5)
    m = np.asarray(b.healpix(nside))
    z = np.arange(12 * nside ** 2)
    t = hp.pix2ang(nside, z)[0]
    t = np.pi - t if back else t
    c.close(m, np.exp(-0.5 * t ** 2 / sigma ** 2), 'beam:healpix', rtol=1e-9, atol=1e-300)
    u = BeamUniformHalfSpace()
    c.equal(np.asarray(u(theta, phi)), np.ones(want.shape), 'uniform')
    c.close(u.solid_angle, 2 * np.pi, 'uniform:solidangle', rtol=1e-14)
    c.equal(np.asarray(u.healpix(nside)), np.ones(z.size), 'uniform:healpix')


def run(ctx):
    ctx.each('pixels', 200, 3000, pixels)
    ctx.each('smoothing', 60, 800, smoothing)
    ctx.each('laplacian', 30, 200, laplacian)
    ctx.each('scene', 150, 2000, scene)
    ctx.each('grid', 100, 1500, grid)
    ctx.each('beam', 120, 2000, beam)
