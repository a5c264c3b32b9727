"""C16: image tools (distances, apertures, beams, profiles, PSD) against their definitions."""
import numpy as np
import scipy.special

PROPERTY = 'C16'
RULE = 'each result compared with its definition evaluated in extended precision'
LD = np.longdouble

EPS = {'f4': 2e-5, 'f8': 1e-11, 'i4': 1e-11, 'i8': 1e-11, 'b1': 1e-11}


def shape_of(c, ndim):
    hi = {1: 60, 2: 40, 3: 9, 4: 5}[ndim]
    return tuple(1 if c.coin(0.1) else c.int(1, hi) for _ in range(ndim))


def center_of(c, shape):
    kind = c.choice(['none', 'integer', 'real', 'outside'])
    if kind == 'none':
        return None, (np.array(shape[::-1], LD) - 1) / 2, kind
    if kind == 'integer':
        v = [c.int(0, n - 1) for n in shape[::-1]]
    elif kind == 'real':
        v = [round(float(c.rng.uniform(-1, n)), 3) for n in shape[::-1]]
    else:
        v = [round(float(c.rng.uniform(-3 * n - 5, 4 * n + 5)), 3) for n in shape[::-1]]
    given = c.choice([list, tuple, np.array])(v)
    return given, np.array(v, LD), kind


def scale_of(c, ndim, units=True):
    from pysimulators import Quantity

    kind = c.choice(['default', 'scalar', 'array', 'quantity', 'qarray'] if units else ['default', 'scalar', 'array'])
    unit = ''
    if kind == 'default':
        return None, np.ones(ndim, LD), unit, kind
    v = [round(float(c.rng.uniform(0.1, 4)), 3) for _ in range(ndim)]
    if kind in ('scalar', 'quantity'):
        v = [v[0]] * ndim
    if kind == 'scalar':
        given = v[0]
    elif kind == 'array':
        given = c.choice([list, np.array])(v)
    else:
        unit = c.choice(['m', 'arcsec', 'mm'])
        given = Quantity(v[0] if kind == 'quantity' else v, unit)
    return given, np.array(v, LD), unit, kind


def dist2(shape, center, scale):
    d = np.zeros(shape, LD)
    n = len(shape)
    for axis, num in enumerate(shape):
        k = n - 1 - axis
        x = (scale[k] * (np.arange(num, dtype=LD) - center[k])) ** 2
        d += x.reshape((1,) * axis + (num,) + (1,) * (n - 1 - axis))
    return d


def truncated(c, got, want, key):
    """Integer output: the real value without its fractional part."""
    g = np.asarray(got).astype(LD)
    bad = ~((g <= want * (1 + LD(1e-12)) + 1e-12) & (g > want * (1 - LD(1e-12)) - 1 - 1e-12))
    c.check(not bad.any(), key, lambda: f'{bad.sum()} elements are not the integer part: {np.asarray(got)[bad][:3]} / {want[bad][:3]}')


def distances(c):
    from pysimulators import distance
    from pysimulators.datautils import distance2
    from pysimulators import Map

    ndim = c.choice([1, 2, 3, 4], p=[0.25, 0.5, 0.15, 0.1])
    shape = shape_of(c, ndim)
    center, cref, ckind = center_of(c, shape)
    scale, sref, unit, skind = scale_of(c, ndim)
    dt = c.choice(['f8', 'f4', 'i8', 'i4'], p=[0.45, 0.25, 0.15, 0.15])
    useout = c.coin(0.3)
    square = c.coin()
    c.note(shape=shape, center=ckind, scale=skind, dtype=dt, out=useout, square=square)
    kw = {}
    if center is not None:
        kw['center'] = center
    if scale is not None:
        kw['scale'] = scale
    keep = (np.array(center, copy=True) if center is not None else None, np.array(scale, copy=True) if scale is not None else None)
    func = distance2 if square else distance
    if useout:
        buf = np.full(shape, 7, dt)
        got = func(shape, out=buf, **kw)
        c.check(np.shares_memory(got, buf), 'out:memory', 'the result is not in the given output')
    else:
        sh = shape if ndim > 1 or c.coin() else shape[0]
        got = func(sh, dtype=dt, **kw)
    c.check(isinstance(got, Map), 'distance:type', type(got).__name__)
    c.check(got.dtype == np.dtype(dt), 'distance:dtype', f'{got.dtype} instead of {dt}')
    want = dist2(shape, cref, sref)
    if not square:
        want = np.sqrt(want)
        c.check(got.unit == unit, 'distance:unit', f'{got.unit!r} instead of {unit!r}')
    if dt[0] == 'i':
        truncated(c, got, want, 'distance:integer')
    else:
        # the rounding of (i - centre) is relative to the coordinates, not to the distance
        big = float(np.max(np.abs(cref) + np.max(shape)) * np.max(sref))
        c.close(got, want.astype(float), 'distance', rtol=EPS[dt], atol=EPS[dt] * (big ** 2 if square else big) * 0.1)
    if keep[0] is not None:
        c.equal(center, keep[0], 'distance:center unchanged')
    if keep[1] is not None:
        c.equal(scale, keep[1], 'distance:scale unchanged')


def apertures(c):
    from pysimulators import aperture_circular

    shape = shape_of(c, c.choice([2, 2, 2, 1, 3]))
    center, cref, ckind = center_of(c, shape)
    scale, sref, _, skind = scale_of(c, len(shape), units=False)
    dt = c.choice(['f8', 'f4', 'i8', 'i4', 'b1'])
    d = dist2(shape, cref, sref)
    diameter = float(np.sqrt(c.choice(list(d.ravel()))) * 2) * c.rng.uniform(0.8, 1.3) + 0.01
    c.note(shape=shape, center=ckind, scale=skind, dtype=dt)
    lim = LD(diameter / 2) ** 2
    sure = np.abs(d - lim) > 1e-4 * (1 + lim)
    if skind == 'default' and (np.rint(2 * cref) == 2 * cref).all() and c.coin():
        # exactly representable distances: the limit is inside
        diameter = 2.0 * c.choice([0, 1, 2, 3, 5])
        lim = LD(diameter / 2) ** 2
        sure[...] = True
    kw = {k: v for k, v in (('center', center), ('scale', scale)) if v is not None}
    want = d <= lim
    got = aperture_circular(shape, diameter, dtype=dt, **kw)
    c.check(got.dtype == np.dtype(dt), 'aperture:dtype', str(got.dtype))
    c.equal(np.asarray(got)[sure], want[sure].astype(dt), 'aperture')
    c.check(set(np.unique(np.asarray(got).astype(float))) <= {0.0, 1.0}, 'aperture:binary')


def gaussians(c):
    from pysimulators import gaussian

    ndim = c.choice([1, 2, 2, 2, 3])
    shape = tuple(c.int(2, 30) for _ in range(ndim))
    center, cref, ckind = center_of(c, shape)
    dt = c.choice(['f8', 'f4'])
    if ckind == 'outside':
        center, cref, ckind = None, (np.array(shape[::-1], LD) - 1) / 2, 'none'
    arr = c.coin()
    v = [round(float(c.rng.uniform(0.5, 5)), 3) for _ in range(ndim)]
    if not arr:
        v = v[:1] * ndim
    fwhm = c.coin()
    c.note(shape=shape, center=ckind, array=arr, fwhm=fwhm, dtype=dt)
    given = np.array(v) if arr else v[0]
    sigma = np.array(v, LD)
    if fwhm:
        sigma = sigma / np.sqrt(8 * np.log(LD(2)))
    kw = {} if center is None else {'center': center}
    got = gaussian(shape, dtype=dt, **({'fwhm': given} if fwhm else {'sigma': given}), **kw)
    d = dist2(shape, cref, 1 / sigma)
    want = np.exp(-d / 2) / ((2 * np.pi) ** (LD(ndim) / 2) * np.prod(sigma))
    c.check(got.dtype == np.dtype(dt), 'gaussian:dtype', f'{got.dtype}')
    c.close(got, want.astype(float), 'gaussian', rtol=1e-4 if dt == 'f4' else 1e-9, atol=float(want.max()) * EPS[dt])
    # what makes it a beam: unit integral when it is contained and sampled
    if np.all(cref - 6 * sigma > 0) and np.all(cref + 6 * sigma < np.array(shape[::-1]) - 1) and np.all(sigma > 1):
        c.close(np.asarray(got, float).sum(), 1, 'gaussian:normalisation', rtol=1e-4)


def airys(c):
    from pysimulators import airy_disk

    shape = tuple(c.int(1, 30) for _ in range(2))
    center, cref, ckind = center_of(c, shape)
    scale, sref, _, skind = scale_of(c, 2, units=False)
    dt = c.choice(['f8', 'f4'])
    v = round(float(c.rng.uniform(1, 12)), 3)
    fwhm = c.coin()
    c.note(shape=shape, center=ckind, scale=skind, fwhm=fwhm, dtype=dt)
    kw = {k: x for k, x in (('center', center), ('scale', scale)) if x is not None}
    got = airy_disk(shape, dtype=dt, **({'fwhm': v} if fwhm else {'r0': v}), **kw)
    c.check(got.dtype == np.dtype(dt), 'airy:dtype', str(got.dtype))
    got = np.asarray(got, float)
    d = np.sqrt(dist2(shape, cref, sref)).astype(float)
    x = d * (1.61633 / (v / 2) if fwhm else 3.8317 / v)
    with np.errstate(all='ignore'):
        want = np.where(x == 0, 1.0, (2 * scipy.special.j1(x) / x) ** 2)
    total = want.sum()
    if ckind == 'outside':
        # single precision does not resolve the far lobes
        dt = 'f4'
    c.close(got.sum(), 1, 'airy:normalisation', rtol=1e-4)
    if ckind != 'outside':
        c.close(got * total, want, 'airy', rtol=1e-3 if dt == 'f4' else 1e-7, atol=2e-3 if dt == 'f4' else 1e-9)
        i = np.argmin(d)
        c.check(got.ravel()[i] >= got.max() * (1 - 1e-3) or x.min() > 3, 'airy:maximum')


def profile_reference(img, bin_, nbins, center):
    """Sums over the rings of width bin_ (pixel units)."""
    d = np.sqrt(dist2(img.shape, center, np.ones(2, LD)))
    q = d / LD(bin_)
    near = np.abs(q - np.rint(q)) < 1e-9
    exact = near & (np.rint(d) == d) & (float(bin_) == np.rint(float(bin_)))
    if (near & ~exact).any():
        return None
    k = q.astype(int)
    k[exact] = np.rint(q[exact]).astype(int)
    ok = ~np.isnan(img)
    x = np.zeros(nbins)
    y = np.zeros(nbins)
    n = np.zeros(nbins, int)
    for i in range(nbins):
        m = (k == i) & ok
        n[i] = m.sum()
        if n[i]:
            x[i] = float(d[m].mean())
            y[i] = float(img[m].astype(LD).mean())
        else:
            x[i] = float(LD(bin_) * (i + LD(0.5)))
            y[i] = np.nan
    return x, y, n, k, ok


def image_of(c, shape, nans=True):
    dt = c.choice(['f8', 'f4', 'i4', 'i8'], p=[0.5, 0.2, 0.15, 0.15])
    img = c.rng.normal(3, 2, shape)
    if dt[0] == 'i':
        img = np.rint(img * 5)
    img = img.astype(dt)
    has = False
    if dt[0] == 'f' and nans and c.coin(0.4):
        img[c.rng.random(shape) < c.choice([0.05, 0.3])] = np.nan
        has = True
    layout = c.choice(['C', 'F', 'strided', 'map'])
    if layout == 'F':
        img = np.asfortranarray(img)
    elif layout == 'strided':
        big = np.zeros((shape[0] * 2, shape[1] * 3), dt)
        big[::2, ::3] = img
        img = big[::2, ::3]
    elif layout == 'map':
        from pysimulators import Map

        img = Map(img, dtype=dt)
    return img, dt, layout, has


def profiles(c):
    from pysimulators import integrated_profile, profile

    shape = tuple(c.int(2, 30) for _ in range(2))
    img, dt, layout, has = image_of(c, shape)
    center, cref, ckind = center_of(c, shape)
    if ckind == 'outside':
        center, cref, ckind = None, (np.array(shape[::-1], LD) - 1) / 2, 'none'
    bin_ = c.choice([1, 2, 3, round(float(c.rng.uniform(0.3, 4)), 3)])
    scale = c.choice([1, 1, 2, round(float(c.rng.uniform(0.1, 3)), 3)])
    if scale == 2:
        bin_ = bin_ * 2 if isinstance(bin_, int) else bin_
    nbins = c.choice([None, c.int(1, 60)])
    c.note(shape=shape, dtype=dt, layout=layout, nans=has, center=ckind, bin=bin_, scale=scale, nbins=nbins)
    kw = {k: v for k, v in (('center', center), ('nbins', nbins)) if v is not None}
    if bin_ != 1 or c.coin():
        kw['bin'] = bin_
    if scale != 1 or c.coin():
        kw['scale'] = scale
    copy = np.array(img)
    x, y, n = profile(img, histogram=True, **kw)
    nb = len(x)
    if nbins is not None:
        c.check(nb == nbins, 'profile:nbins', f'{nb}')
    else:
        far = max(shape[0] - float(cref[1]), float(cref[1]), shape[1] - float(cref[0]), float(cref[0])) / (bin_ / scale)
        c.check(abs(nb - int(far)) <= (0 if abs(far - round(far)) > 1e-3 or dt != 'f4' and float(far).is_integer() else 1), 'profile:default bins', f'{nb} {far}')
    if nb == 0:
        c.check(len(y) == 0 and len(n) == 0, 'profile:empty')
        return
    ref = profile_reference(np.asarray(copy, float), bin_ / scale, nb, cref)
    if dt == 'f4' and ref is not None:
        # single precision distances: do not decide about pixels near the bin limits
        q = np.sqrt(dist2(shape, cref, np.ones(2, LD))) / LD(bin_ / scale)
        if (np.abs(q - np.rint(q)) < 1e-4).any() and not (np.rint(cref) == cref).all():
            ref = None
        elif (np.abs(q - np.rint(q)) < 1e-4).any() and bin_ / scale != np.rint(bin_ / scale):
            ref = None
    c.equal(img, copy, 'profile:input unchanged')
    edges = np.arange(nb + 1) * bin_
    eps = 1e-4 if dt == 'f4' else 1e-9
    c.check((np.asarray(x, float) >= edges[:-1] * (1 - eps)).all() and (np.asarray(x, float) <= edges[1:] * (1 + eps)).all(),
            'profile:abscissae in bins', lambda: f'{x} {edges}')
    if ref is None:
        return
    xr, yr, nr, k, ok = ref
    c.equal(n, nr, 'profile:histogram')
    c.close(x, xr * scale, 'profile:abscissae', rtol=eps, atol=eps)
    c.close(y, yr, 'profile:values', rtol=eps * 10, atol=eps * 10)
    c.check(int(np.sum(n)) == int((ok & (k < nb)).sum()), 'profile:every pixel in one bin')
    x2, y2 = profile(img, **kw)
    c.close(x2, x, 'profile:without histogram', rtol=eps)
    c.close(y2, y, 'profile:without histogram', rtol=eps, atol=eps)
    xi, yi = integrated_profile(img, **kw)
    c.close(xi, bin_ * np.arange(1, nb + 1), 'integrated:boundaries', rtol=1e-6)
    want = np.cumsum(np.where(nr > 0, yr, 0) * nr) * scale**2
    c.close(yi, want, 'integrated:values', rtol=eps * 20, atol=eps * 20 * float(np.nansum(np.abs(np.asarray(copy, float))) + 1) * scale**2)
    # from the definition: the sum of the pixels that are strictly closer than the boundary
    img_ = np.where(ok, np.asarray(copy, float), 0)
    direct = [img_[k <= i].sum() * scale**2 for i in range(nb)]
    c.close(yi, direct, 'integrated:definition', rtol=eps * 20, atol=eps * 20 * float(np.abs(img_).sum() + 1) * scale**2)


def phasemask(c):
    from pysimulators import phasemask_fourquadrant

    shape = (c.int(0, 12), c.int(0, 12))
    phase = c.choice([None, -1, 1j, 0.5 + 2j, 3])
    c.note(shape=shape, phase=str(phase))
    got = phasemask_fourquadrant(shape) if phase is None else phasemask_fourquadrant(shape, phase)
    p = -1 if phase is None else phase
    y, x = np.indices(shape)
    top = y < shape[0] // 2
    left = x < shape[1] // 2
    c.equal(np.asarray(got), np.where(top != left, p, 1).astype(complex), 'phasemask')


def psds(c):
    from pysimulators import profile_psd2, psd2

    square = c.coin(0.6)
    n = c.int(1, 24)
    shape = (n, n) if square else (c.int(1, 24), c.int(1, 24))
    kind = c.choice(['f8', 'c16', 'i8', 'f4'])
    a = c.rng.normal(c.choice([0, 2]), 1, shape)
    if kind == 'c16':
        a = a + 1j * c.rng.normal(0, 1, shape)
    if kind == 'i8':
        a = np.rint(a * 4)
    a = a.astype(kind)
    layout = c.choice(['C', 'F', 'list'])
    fs = c.choice([1, 2, round(float(c.rng.uniform(0.1, 9)), 3)])
    c.note(shape=shape, kind=kind, layout=layout, fs=fs)
    arg = np.asfortranarray(a) if layout == 'F' else a.tolist() if layout == 'list' else a
    kw = {'fftw_flag': 'FFTW_ESTIMATE'}
    if fs != 1 or c.coin():
        kw['sampling_frequency'] = fs
    copy = a.copy()
    got = psd2(arg, **kw)
    c.equal(np.asarray(arg), copy, 'psd2:input unchanged')
    c.check(not np.iscomplexobj(got), 'psd2:real')
    want = np.abs(np.fft.fftshift(np.fft.fft2(copy.astype(complex)))) ** 2 / a.size / fs**2
    tol = 1e-9
    c.close(got, want, 'psd2', rtol=tol, atol=tol * float(want.sum() + 1e-300))
    c.close(np.sum(got) * fs**2 / a.size, np.mean(np.abs(copy.astype(complex)) ** 2), 'psd2:Parseval', rtol=1e-9)
    if not square or n < 2:
        if not square and shape[0] != shape[1]:
            c.raises(ValueError, lambda: profile_psd2(arg, **kw), 'profile_psd2:not square')
        return
    x, y = profile_psd2(arg, **kw)
    if len(x) == 0:
        return
    ref = profile_reference(want, 1, len(x), np.array([n // 2, n // 2], LD))
    if ref is None:
        return
    xr, yr, nr, _, _ = ref
    c.close(x, xr * fs / n, 'profile_psd2:frequencies', rtol=1e-9, atol=1e-12)
    c.close(y, yr, 'profile_psd2:values', rtol=1e-8, atol=1e-9 * float(want.sum()))
    c.close(y[0], np.abs(copy.astype(complex).sum()) ** 2 / a.size / fs**2, 'profile_psd2:null frequency', rtol=1e-9, atol=1e-9 * float(want.sum()))


def refused(c):
    from pysimulators import airy_disk, gaussian, profile_psd2, psd2

    k = c.index % 5
    f = [lambda: gaussian((3, 3)), lambda: airy_disk((3, 3)), lambda: psd2(np.zeros(4)), lambda: psd2(np.zeros((2, 2, 2))),
         lambda: profile_psd2(np.zeros((4, 5)))][k]
    c.note(k=k)
    c.raises(ValueError, f, 'refused')


def run(ctx):
    ctx.each('refused', 5, 5, refused)
    ctx.each('distances', 300, 6000, distances)
    ctx.each('apertures', 120, 2000, apertures)
    ctx.each('gaussians', 150, 2000, gaussians)
    ctx.each('airys', 80, 1000, airys)
    ctx.each('profiles', 300, 6000, profiles)
    ctx.each('phasemask', 30, 200, phasemask)
    ctx.each('psds', 150, 2000, psds)
