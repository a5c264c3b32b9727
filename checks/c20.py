"""C20: noise realizations and inverse noise covariance follow the spectral densities."""
import operator

import numpy as np
import scipy.linalg

PROPERTY = 'C20'
RULE = 'noise statistics and inverse covariance rows compared with the densities that were asked for'


def instrument(ndet):
    from pysimulators import Instrument, PackedTable

    return Instrument(PackedTable((ndet,)))


def twosided_1f(f, sigma, fknee, fslope, fs):
    """Density of the 1/f model at non-zero frequencies."""
    return np.asarray(sigma)[..., None] ** 2 * (1 + (np.asarray(fknee)[..., None] / np.abs(f)) ** np.asarray(fslope)[..., None]) / fs


def loglog(f, x, y):
    """Log-log interpolation and extrapolation."""
    lf, lx, ly = np.log(f), np.log(x), np.log(y)
    i = np.clip(np.searchsorted(lx, lf) - 1, 0, len(x) - 2)
    t = (lf - lx[i]) / (lx[i + 1] - lx[i])
    return np.exp(ly[..., i] * (1 - t) + ly[..., i + 1] * t)


def density(c, ndet, each=True):
    """A density: the keywords and the function giving the two-sided density at non-zero frequencies."""
    fs = c.choice([1., 2., 20., 0.1])
    kind = c.choice(['1f', '1f', 'psd', 'psd', 'twosided'])
    per = each and c.coin(0.3)
    if kind == '1f':
        shape = (ndet,) if per else ()
        sigma = np.round(c.rng.uniform(0.1, 5, shape), 3)
        fknee = round(float(c.rng.uniform(0.05, 2)) * fs * 0.2, 4)
        fslope = round(float(c.rng.uniform(0.3, 1.7)), 2)
        if not per:
            sigma = float(sigma)
        kw = dict(fknee=fknee)
        if c.coin(0.7) or fslope == 1:
            kw['fslope'] = fslope
        else:
            fslope = 1
        if c.coin(0.3):
            kw['nep'] = sigma * np.sqrt(2 / fs)
        else:
            kw['sigma'] = sigma
        return fs, kw, lambda f: twosided_1f(f, sigma, fknee, fslope, fs), kind, per
    m = c.int(4, 12)
    bandwidth = fs / 2 / (m - 1) * c.choice([1, 1, 0.7, 1.3])
    p = np.round(np.exp(c.rng.uniform(-0.6, 0.6, ((ndet,) if per else ()) + (m,)).cumsum(-1)), 4)
    if kind == 'psd':
        x = np.arange(m) * bandwidth
        kw = dict(psd=p if c.coin() or per else list(p), bandwidth=bandwidth)
        y = p / 2
    else:
        # the negative frequencies have the values of the positive ones
        p = np.concatenate([p, p[..., -2:0:-1]], -1)
        x = np.arange(m) * bandwidth
        kw = dict(psd=p, bandwidth=bandwidth, twosided=True)
        y = p[..., :m]
    return fs, kw, lambda f: loglog(np.abs(f), x[1:-1], y[..., 1:-1]), kind, per


def noise(c):
    """Statistics over many detectors: mean spectral density, correlations, distribution."""
    from pysimulators import Sampling

    ndet = 1500
    n = c.choice([2, 3, 4, 5, 8, 9, 15, 16, 31, 32])
    fs, kw, func, kind, per = density(c, ndet, each=False)
    c.note(n=n, fs=fs, kind=kind, kw={k: v if np.ndim(v) == 0 else np.shape(v) for k, v in kw.items()})
    instr = instrument(ndet)
    sampling = Sampling(n, period=1 / fs)
    seed = c.int(0, 2 ** 31)
    np.random.seed(seed)
    keep = {k: np.array(v, copy=True) for k, v in kw.items()}
    t = instr.get_noise(sampling, **kw)
    for k, v in keep.items():
        c.equal(np.asarray(kw[k]), v, 'noise:operand')
    if not c.check(t.shape == (ndet, n) and t.dtype == float, 'noise:shape', f'{t.shape} {t.dtype}'):
        return
    f = np.fft.fftfreq(n, 1 / fs)
    ft = np.fft.fft(t, axis=-1)
    want = func(f[1:])
    power = np.abs(ft[:, 1:]) ** 2 / (n * fs)
    got = power.mean(0)
    # real transforms (Nyquist frequency) have twice the variance of complex ones
    sig = np.where(np.abs(np.abs(f[1:]) - fs / 2) < 1e-9 * fs, np.sqrt(2), 1) / np.sqrt(ndet)
    c.check(bool(np.all(np.abs(got / want - 1) < 7 * sig)), 'noise:density', lambda: f'ratios {np.round(got / want, 3).tolist()}')
    scale = np.sqrt((want * fs / n).sum())
    c.close(t.mean(-1), np.zeros(ndet), 'noise:mean', rtol=0, atol=1e-12 * scale)
    if n > 1:
        # gaussian and independent detectors
        z = t[:, 0] / scale
        s = (want * fs / n).sum()
        if n >= 2:
            k4 = (z ** 4).mean() / (z ** 2).mean() ** 2
            c.check(abs(k4 - 3) < 1.5, 'noise:gaussian', f'kurtosis {k4}')
        r = (t[1:, 0] * t[:-1, 0]).mean() / s
        c.check(abs(r) < 7 / np.sqrt(ndet), 'noise:detectors', f'correlation {r} between detectors')
    t2 = instr.get_noise(sampling, **kw)
    r = (t2[:, 0] * t[:, 0]).mean() / scale ** 2
    c.check(abs(r) < 7 / np.sqrt(ndet), 'noise:calls', f'correlation {r} between calls')
    np.random.seed(seed)
    c.close(instr.get_noise(sampling, **kw), t, 'noise:seed', rtol=1e-10, atol=1e-12 * scale)


def outputs(c):
    """Outputs, scale and distribution of the detectors."""
    from pysimulators import Sampling

    ndet, n = c.int(1, 6), c.int(2, 20)
    fs, kw, func, kind, per = density(c, ndet)
    if c.coin(0.3):
        kind, per = 'white', c.coin()
        sigma = np.round(c.rng.uniform(0.5, 4, ndet), 2) if per else round(float(c.rng.uniform(0.5, 4)), 2)
        kw = {'sigma': sigma}
    c.note(ndet=ndet, n=n, kind=kind, each=per, kw={k: v if np.ndim(v) == 0 else np.shape(v) for k, v in kw.items()})
    instr = instrument(ndet)
    sampling = Sampling(n, period=1 / fs)
    seed = c.int(0, 2 ** 31)

    def call(**more):
        np.random.seed(seed)
        return instr.get_noise(sampling, **{**kw, **more})

    t = call()
    c.check(t.shape == (ndet, n), 'outputs:shape', f'{t.shape}')
    top = np.abs(t).max() + 1e-300
    big = np.full((ndet, 2 * n + 1), 7.)
    out = c.choice([lambda: np.full((ndet, n), 7.), lambda: np.full((n, ndet), 7.).T, lambda: big[:, 1::2]])()
    back = call(out=out)
    c.check(back is out, 'outputs:out', 'not the given output')
    c.close(out, t, 'outputs:out', rtol=1e-10, atol=1e-12 * top)
    if np.shares_memory(out, big):
        c.check(bool(np.all(big[:, ::2] == 7)), 'outputs:around', 'other elements have changed')
    out = np.full((ndet, n), 7.)
    call(out=out, operation=operator.iadd)
    c.close(out, t + 7, 'outputs:iadd', rtol=1e-10, atol=1e-12 * (7 + top))
    # the noise is proportional to the square root of the density
    if 'psd' in kw:
        c.close(call(psd=np.asarray(kw['psd']) * 4), 2 * t, 'outputs:scale', rtol=1e-9, atol=1e-11 * top)
    else:
        k = 'nep' if 'nep' in kw else 'sigma'
        c.close(call(**{k: np.asarray(kw[k]) * 2}), 2 * t, 'outputs:scale', rtol=1e-9, atol=1e-11 * top)
    if per:
        # the density of each detector: same draws with a single density
        for i in range(ndet):
            one = {k: v[i] if np.ndim(v) and len(v) == ndet and (k != 'psd' or np.ndim(v) == 2) else v for k, v in kw.items()}
            np.random.seed(seed)
            ti = instr.get_noise(sampling, **one)
            c.close(t[i], ti[i], 'outputs:each', rtol=1e-9, atol=1e-11 * top)
    if kind == 'white':
        m = 40000 // ndet
        t = instr.get_noise(Sampling(m, period=1 / fs), **kw)
        s = np.broadcast_to(np.asarray(kw['sigma']), ndet)
        c.check(bool(np.all(np.abs(t.std(-1) / s - 1) < 7 / np.sqrt(2 * m))), 'outputs:white', lambda: f'{t.std(-1) / s}')
        c.check(bool(np.all(np.abs(t.mean(-1)) < 7 * s / np.sqrt(m))), 'outputs:white:mean', lambda: f'{t.mean(-1) / s}')
        g = (t / s[:, None])
        r = np.abs((g[:, 1:] * g[:, :-1]).mean(-1)).max()
        c.check(r < 7 / np.sqrt(m), 'outputs:white:correlation', f'{r}')
    c.raises(ValueError, lambda: instr.get_noise(sampling), 'outputs:refused')
    c.raises(ValueError, lambda: instr.get_noise(sampling, psd=[1, 1, 1, 1]), 'outputs:refused')
    c.raises(ValueError, lambda: instr.get_noise(sampling, bandwidth=0.1), 'outputs:refused')
    c.raises(ValueError, lambda: instr.get_noise(sampling, sigma=1, operation=operator.iadd), 'outputs:refused')


def inverse(c):
    """Inverse noise covariance."""
    from pysimulators import Sampling

    ndet, n = c.int(1, 4), c.choice([c.int(1, 40), c.int(1, 40), 1, 2, 3, 16, 17])
    fs, kw, func, kind, per = density(c, ndet)
    white = c.coin(0.2)
    instr = instrument(ndet)
    sampling = Sampling(n, period=1 / fs)
    if white:
        per = c.coin()
        sigma = np.round(c.rng.uniform(0.5, 4, ndet), 2) if per else round(float(c.rng.uniform(0.5, 4)), 2)
        kw = {'sigma': sigma}
        if c.coin(0.3):
            kw = {'nep': sigma * np.sqrt(2 / fs)}
    nfft = 2
    while nfft < n:
        nfft *= 2
    ncorr = c.choice([0, 1, min(2, nfft // 2), min(n - 1, nfft // 2), c.int(0, max(0, min(n - 1, nfft // 2))), None])
    c.note(ndet=ndet, n=n, kind='white' if white else kind, each=per, ncorr=ncorr,
           kw={k: v if np.ndim(v) == 0 else np.shape(v) for k, v in kw.items()})
    x = np.round(c.rng.uniform(-5, 5, (ndet, n)), 3)
    keep = {k: np.array(v, copy=True) for k, v in kw.items()}
    if white:
        op = instr.get_invntt_operator(sampling, **kw)
        want = x / np.broadcast_to(np.asarray(sigma), ndet)[:, None] ** 2
    else:
        op = instr.get_invntt_operator(sampling, ncorr=ncorr, fftw_flag='FFTW_ESTIMATE', **kw)
        f = np.fft.fftfreq(nfft, 1 / fs)
        p = np.broadcast_to(func(f[1:]), (ndet, nfft - 1))
        # there is no information about the mean, taken as the first frequency
        p = np.concatenate([p[:, :1], p], -1)
        rows = np.fft.ifft(1 / (fs * p), axis=-1).real
        m = min(n - 1, nfft // 2) if ncorr is None else ncorr
        want = []
        for i in range(ndet):
            r = np.zeros(max(n, m + 1))
            r[:m + 1] = rows[i, :m + 1]
            want.append(scipy.linalg.toeplitz(r[:n]) @ x[i])
        want = np.array(want)
    for k, v in keep.items():
        c.equal(np.asarray(kw[k]), v, 'inverse:operand')
    c.check(op.shapein == (ndet, n) and op.shapeout == (ndet, n), 'inverse:shape', f'{op.shapein}')
    got = np.array(op(x))
    c.close(got, want, 'inverse', rtol=0, atol=1e-9 * (np.abs(want).max() + 1e-300))
    y = np.round(c.rng.uniform(-5, 5, (ndet, n)), 3)
    c.close((op(x) * y).sum(), (op(y) * x).sum(), 'inverse:symmetric', rtol=0, atol=1e-8 * np.abs(want).max() * 5 * n * ndet)
    c.raises(ValueError, lambda: instr.get_invntt_operator(sampling), 'inverse:refused')
    c.raises(ValueError, lambda: instr.get_invntt_operator(sampling, psd=[1, 1, 1, 1]), 'inverse:refused')
    c.raises(ValueError, lambda: instr.get_invntt_operator(sampling, bandwidth=0.1), 'inverse:refused')


def whiten(c):
    """The noise is whitened by its inverse covariance: x.N^-1.x has as many degrees of freedom as samples."""
    from pysimulators import Sampling

    ndet = 600
    n = c.choice([256, 512])
    fs, kw, func, kind, per = density(c, ndet, each=False)
    instr = instrument(ndet)
    sampling = Sampling(n, period=1 / fs)
    c.note(n=n, kind=kind, fs=fs)
    t = instr.get_noise(sampling, **kw)
    f = np.fft.fftfreq(n, 1 / fs)
    p = func(f[1:])
    p = np.concatenate([p[:1], p])
    row = np.fft.ifft(1 / (fs * p)).real
    m = c.choice([n // 2, n // 4, 20])
    op = instr.get_invntt_operator(sampling, ncorr=m, fftw_flag='FFTW_ESTIMATE', **kw)
    chi2 = (np.array(op(t)) * t).sum(-1)
    # expectation with the covariance of the noise
    lag = np.fft.ifft(fs * np.concatenate([[0], func(f[1:])])).real
    k = np.arange(n)
    w = np.where(k == 0, n, 2 * (n - k)) * (k <= m)
    want = (w * row * lag).sum()
    err = chi2.std() / np.sqrt(ndet)
    c.check(abs(chi2.mean() - want) < 7 * err, 'whiten', f'{chi2.mean()} instead of {want} +/- {err}')


def run(ctx):
    ctx.each('noise', 80, 1200, noise)
    ctx.each('outputs', 100, 1500, outputs)
    ctx.each('inverse', 150, 3000, inverse)
    ctx.each('whiten', 10, 200, whiten)
