"""C10: acquisition models, their restrictions, noise and mask policies."""
import operator

import numpy as np

from checks.gen_acq import Known

PROPERTY = 'C10'
RULE = 'operators, observations and tables of acquisition models compared with dense models'


def dense(op, n):
    cols = []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1
        cols.append(np.array(op(e)))
    return np.stack(cols, -1)


def selection(c, n):
    """A selection and the indices that it stands for."""
    i = np.arange(n)
    kind = c.choice(['slice', 'slice', 'full', 'int', 'list', 'array', 'bool', 'step', 'neg', 'reverse'])
    if kind == 'slice':
        a = c.int(0, n - 1)
        s = slice(a, c.int(a + 1, n + 2))
    elif kind == 'full':
        s = slice(0, n)
    elif kind == 'int':
        s = c.int(-n, n - 1)
        return s, i[[s]]
    elif kind in ('list', 'array'):
        s = c.rng.permutation(n)[:c.int(1, n)]
        if kind == 'list':
            return [int(_) for _ in s], s
    elif kind == 'bool':
        s = c.rng.random(n) < 0.6
        s[c.int(0, n - 1)] = True
    elif kind == 'step':
        s = slice(None, None, c.int(1, 3))
    elif kind == 'reverse':
        s = slice(None, None, -1)
    else:
        s = slice(-c.int(1, n), None)
    return s, i[s]


def model(c):
    import pysimulators as ps

    ndet, nt, npix = c.int(1, 8), c.int(1, 10), c.int(1, 6)
    known = Known(c, ndet, nt, npix)
    shape = (ndet,)
    if ndet % 2 == 0 and c.coin(0.3):
        shape = (2, ndet // 2)
    idet = np.arange(ndet)
    kw = {}
    if c.coin(0.3):
        sel = c.rng.random(shape) < 0.7
        sel.ravel()[c.int(0, ndet - 1)] = True
        kw['selection'] = sel
        idet = np.flatnonzero(sel)
    if c.coin(0.3):
        o = c.rng.permutation(ndet)
        kw['ordering'] = o.reshape(shape)
        idet = np.array([_ for _ in np.argsort(o, kind='stable') if _ in idet])
    layout = ps.PackedTable(shape, gain=known.gain.reshape(shape), **kw)
    period = c.choice([1, 0.5, 2.])
    sampling = ps.Sampling(nt, drift=known.drift, period=period)
    scene = ps.Scene(npix)
    noise = np.round(c.rng.uniform(1, 3, (ndet, nt)), 3)
    instr = known.instrument(layout, noise)
    what = {'shape': shape, 'nt': nt, 'npix': npix, 'kw': list(kw), 'ndet': len(idet)}
    return known, instr, sampling, scene, noise, idet, np.arange(nt), np.arange(npix), what, period


def blocks(c, n):
    """A partition of the samples."""
    if n > 1 and c.coin(0.5):
        cuts = sorted({c.int(1, n - 1) for _ in range(c.int(1, 3))})
        b = [slice(i, j) for i, j in zip([0] + cuts, cuts + [n])]
        return c.choice([tuple, list])(b)
    return None


def look(c, acq, known, noise, idet, isamp, ipix, key, shape, period):
    """Everything the acquisition gives."""
    c.check(len(acq.instrument) == len(idet) and len(acq.sampling) == len(isamp) and len(acq.scene) == len(ipix),
            key + ':len', lambda: f'{len(acq.instrument)}, {len(acq.sampling)}, {len(acq.scene)}')
    c.equal(acq.instrument.detector.index, idet, key + ':detectors')
    c.equal(acq.instrument.detector.gain, known.gain[idet], key + ':gain')
    c.equal(acq.sampling.index, isamp, key + ':samples')
    c.equal(acq.sampling.drift, known.drift[isamp], key + ':drift')
    c.equal(acq.sampling.time, isamp * period, key + ':time')
    want = known.dense(idet, isamp, ipix)
    H = acq.get_operator()
    c.check(acq.get_operator() is H, key + ':operator:cached', 'another operator')
    c.check(H.shapein == (len(ipix),) and H.shapeout == want.shape[:2], key + ':operator:shape', f'{H.shapein} {H.shapeout}')
    c.close(dense(H, len(ipix)), want, key + ':operator', rtol=1e-12, atol=1e-12)
    y = np.round(c.rng.uniform(-2, 2, want.shape[:2]), 3)
    c.close(np.array(H.T(y)), np.einsum('ijk,ij->k', want, y), key + ':transpose', rtol=1e-11, atol=1e-11)
    x = np.round(c.rng.uniform(-2, 2, len(ipix)), 3)
    n = noise[idet][:, isamp]
    c.close(acq.get_observation(x, noiseless=True), want @ x, key + ':noiseless', rtol=1e-12, atol=1e-12)
    c.close(acq.get_observation(x), want @ x + n, key + ':observation', rtol=1e-12, atol=1e-12)
    c.close(acq.get_noise(), n, key + ':noise')
    out = np.full(n.shape, 5.)
    back = acq.get_noise(out=out)
    c.check(back is out, key + ':noise:out', 'not the given output')
    c.close(out, n, key + ':noise:out')
    acq.get_noise(out=out, operation=operator.iadd)
    c.close(out, 2 * n, key + ':noise:iadd')
    c.raises(ValueError, lambda: acq.get_noise(operation=operator.iadd), key + ':noise:noout')
    out = np.full(n.shape, 5.)
    back = acq.get_observation(x, out=out)
    c.check(back is out, key + ':observation:out', 'not the given output')
    c.close(out, want @ x + n, key + ':observation:out', rtol=1e-12, atol=1e-12)
    if len(acq.block) == 1:
        # pyoperators refuses in-place reductions of several blocks
        out = np.full(n.shape, 5.)
        acq.get_observation(x, noiseless=True, out=out, operation=operator.iadd)
        c.close(out, want @ x + 5, key + ':observation:iadd', rtol=1e-12, atol=1e-12)
    v = acq.get_invntt_operator()
    c.close(np.array(v(y)), n * y, key + ':invntt', rtol=1e-12, atol=1e-12)
    # the detectors
    v = np.arange(noise.shape[0] * 1.) + 10
    packed = acq.pack(v.reshape(shape))
    c.equal(packed, v[idet], key + ':pack')
    buf = np.full(len(idet), np.nan)
    acq.pack(v.reshape(shape), out=buf)
    c.equal(buf, v[idet], key + ':pack:out')
    full = np.full(noise.shape[0], -3.)
    full[idet] = v[idet]
    c.equal(acq.unpack(v[idet], missing_value=-3), full.reshape(shape), key + ':unpack')
    buf = np.full(shape, np.nan)
    acq.unpack(v[idet], missing_value=-3, out=buf)
    c.equal(buf, full.reshape(shape), key + ':unpack:out')
    u = v[idet]
    cp = acq.unpack(u, copy=True)
    c.check(not np.shares_memory(cp, u), key + ':unpack:copy', 'not a copy')
    cp = acq.pack(v.reshape(shape), copy=True)
    c.check(not np.shares_memory(cp, v), key + ':pack:copy', 'not a copy')


def restrict(c):
    import pysimulators as ps

    known, instr, sampling, scene, noise, idet, isamp, ipix, what, period = model(c)
    b = blocks(c, len(isamp))
    c.note(blocks=None if b is None else [(_.start, _.stop) for _ in b], **what)
    shape = what['shape']
    acq = ps.Acquisition(instr, sampling, scene, block=b)
    alive = [(acq, idet, isamp, ipix)]
    steps = []
    if c.coin():
        look(c, acq, known, noise, idet, isamp, ipix, 'whole', shape, period)
    for _ in range(c.int(1, 4)):
        a, di, ti, pi = alive[c.int(0, len(alive) - 1)]
        kind = c.choice(['det', 'det,samp', 'samp', 'all3', 'scene', 'ellipsis', 'colon', 'tuple1', 'det...', '...samp,scene', 'det...scene'])
        (s1, i1), (s2, i2), (s3, i3) = selection(c, len(di)), selection(c, len(ti)), selection(c, len(pi))
        if kind == 'det':
            key, new = s1, (di[i1], ti, pi)
            if isinstance(s1, list):
                key = np.array(s1)
        elif kind == 'tuple1':
            key, new = (s1,), (di[i1], ti, pi)
        elif kind == 'det,samp':
            key, new = (s1, s2), (di[i1], ti[i2], pi)
        elif kind == 'samp':
            key, new = (slice(None), s2), (di, ti[i2], pi)
        elif kind == 'all3':
            key, new = (s1, s2, s3), (di[i1], ti[i2], pi[i3])
        elif kind == 'scene':
            key, new = (..., s3), (di, ti, pi[i3])
        elif kind == '...samp,scene':
            key, new = (..., s2, s3), (di, ti[i2], pi[i3])
        elif kind == 'det...scene':
            key, new = (s1, ..., s3), (di[i1], ti, pi[i3])
        elif kind == 'ellipsis':
            key, new = ..., (di, ti, pi)
        elif kind == 'colon':
            key, new = slice(None), (di, ti, pi)
        else:
            key, new = (s1, ...), (di[i1], ti, pi)
        steps.append(kind)
        c.note(steps=steps)
        a2 = a[key]
        c.check(type(a2) is type(a) and a2 is not a, 'restrict:type', f'{type(a2)}')
        alive.append((a2,) + new)
        # some are looked at: the operator is then stored
        for j in range(len(alive)):
            if c.coin(0.4):
                look(c, alive[j][0], known, noise, *alive[j][1:], 'restrict', shape, period)
    for _ in alive:
        look(c, _[0], known, noise, *_[1:], 'end', shape, period)
    c.raises(ValueError, lambda: acq[0, 0, 0, 0], 'restrict:four')
    c.check(acq.instrument.detector is instr.detector and acq.sampling is sampling, 'restrict:whole', 'tables replaced')


def memory(c):
    """Blocks according to the available memory."""
    import pysimulators as ps

    known, instr, sampling, scene, noise, idet, isamp, ipix, what, period = model(c)
    acq = ps.Acquisition(instr, sampling, scene)
    c.check(tuple(acq.block) == (slice(0, len(isamp)),), 'memory:block', f'{acq.block}')
    one = acq[0, 0].get_operator().nbytes
    total = acq.get_operator_nbytes()
    c.check(total == one * len(idet) * len(isamp), 'memory:nbytes', f'{total} instead of {one * len(idet) * len(isamp)}')
    limit = c.choice([total, total + 1, max(total - 1, 1), max(1, total // 2), max(1, total // 3), max(1, one * len(idet)), 1])
    c.note(total=total, limit=limit, **what)
    acq = ps.Acquisition(instr, sampling, scene, max_nbytes=limit)
    cover = np.zeros(len(isamp), int)
    sizes = []
    for b in acq.block:
        cover[b] += 1
        sizes.append(cover[b].size)
    c.check(bool(np.all(cover == 1)), 'memory:partition', lambda: f'{acq.block}')
    c.check(min(sizes) > 0, 'memory:empty', lambda: f'{acq.block}')
    # the blocks are as even as possible, and each of them fits
    c.check(max(sizes) - min(sizes) <= 1, 'memory:even', lambda: f'{sizes}')
    nb = min(-(-total // limit), len(isamp)) if total > limit else 1
    c.check(len(sizes) == nb, 'memory:number', lambda: f'{len(sizes)} blocks instead of {nb}')
    look(c, acq, known, noise, idet, isamp, ipix, 'memory', what['shape'], period)


def arguments(c):
    import pysimulators as ps

    known, instr, sampling, scene, noise, idet, isamp, ipix, what, period = model(c)
    c.note(**what)
    A = ps.Acquisition
    c.raises(TypeError, lambda: A(instr.detector, sampling, scene), 'arguments:instrument')
    c.raises(TypeError, lambda: A(instr, scene, scene), 'arguments:sampling')
    c.raises(TypeError, lambda: A(instr, sampling, sampling), 'arguments:scene')
    c.raises(TypeError, lambda: A(instr, sampling, scene, block=3), 'arguments:block')
    c.raises(TypeError, lambda: A(instr, sampling, scene, block=[1, 2]), 'arguments:blocks')
    for n in 0, 2, -1:
        c.raises(ValueError, lambda: A(instr, sampling, scene, nprocs_instrument=n), 'arguments:nprocs_instrument')
        c.raises(ValueError, lambda: A(instr, sampling, scene, nprocs_sampling=n), 'arguments:nprocs_sampling')
    a = A(instr, sampling, scene, nprocs_instrument=1, nprocs_sampling=1)
    c.check(a.comm.size == 1 and a.instrument.comm.size == 1 and a.sampling.comm.size == 1, 'arguments:comm', '')
    c.check(str(len(isamp)) in str(a), 'arguments:str', str(a))
    # the instrument
    n = c.int(1, 5)
    parts = instr.split(n)
    c.check(len(parts) == n, 'instrument:split', f'{len(parts)}')
    got = np.concatenate([_.detector.index for _ in parts])
    c.equal(got, idet, 'instrument:split')
    c.check(all(type(_) is type(instr) for _ in parts), 'instrument:type', '')
    c.check(len(instr) == len(idet), 'instrument:len', f'{len(instr)}')
    each = list(instr)
    c.equal([_.detector.index[0] for _ in each], idet, 'instrument:iter')
    s, i = selection(c, len(idet))
    sub = instr[s]
    c.equal(sub.detector.index, idet[i], 'instrument:getitem')
    c.equal(sub.detector.gain, known.gain[idet[i]], 'instrument:getitem:gain')
    c.equal(instr.detector.index, idet, 'instrument:operand')
    v = np.arange(noise.shape[0] * 1.).reshape(what['shape'])
    c.equal(instr.pack(v), v.ravel()[idet], 'instrument:pack')
    full = np.full(v.size, np.nan)
    full[idet] = idet
    c.equal(instr.unpack(v.ravel()[idet]), full.reshape(v.shape), 'instrument:unpack')


def policies(c):
    import pysimulators as ps

    names = ['bad', 'saturated', 'glitch', 'turnaround', 'u1']
    n = c.int(1, 5)
    flags = [names[i] for i in c.rng.permutation(5)[:n]]
    code = {'keep': 0, 'mask': 1, 'remove': 2}
    values = [c.choice(list(code)) for _ in range(n)]

    def shout(x):
        return ''.join(_.upper() if c.coin(0.3) else _ for _ in x)

    def pad(x):
        return c.choice(['', ' ']) + x + c.choice(['', ' '])

    given = [pad(shout(_)) for _ in values]
    f = [pad(_) for _ in flags]
    a, b = c.choice(['list', 'str', 'tuple']), c.choice(['list', 'str', 'tuple'])
    conv = {'list': list, 'tuple': tuple, 'str': ','.join}
    descr = c.choice([None, 'Policy'])
    c.note(flags=flags, values=values, forms=[a, b])
    p = ps.MaskPolicy(conv[a](f), conv[b](given), descr)
    c.equal(np.array(p), [code[_] for _ in values], 'policy:array')
    c.check(np.array(p, dtype='i1').dtype == np.int8, 'policy:dtype', '')
    for k, v in zip(flags, values):
        c.check(getattr(p, k) == v, 'policy:attribute', f'{k}: {getattr(p, k)!r} instead of {v!r}')
    c.check((p.KEEP, p.MASK, p.REMOVE) == (0, 1, 2), 'policy:codes', '')
    text = ('Policy: ' if descr else '') + ', '.join(f'{k}={v!r}' for k, v in zip(flags, values))
    c.check(str(p) == text, 'policy:str', f'{p} instead of {text}')
    # a policy can be changed
    v = c.choice(list(code))
    setattr(p, flags[0], v)
    c.check(int(np.array(p)[0]) == code[v], 'policy:changed', f'{np.array(p)}')
    c.raises(ValueError, lambda: ps.MaskPolicy(flags, values + ['keep']), 'policy:number')
    c.raises(ValueError, lambda: ps.MaskPolicy(flags + ['_x'], values + ['keep']), 'policy:underscore')
    c.raises(KeyError, lambda: ps.MaskPolicy(flags, values[:-1] + ['kkeep']), 'policy:value')


def run(ctx):
    ctx.each('restrict', 120, 2000, restrict)
    ctx.each('memory', 60, 900, memory)
    ctx.each('arguments', 60, 900, arguments)
    ctx.each('policies', 80, 1200, policies)
