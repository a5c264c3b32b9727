"""Random sparse matrices in every storage format, with an independent dense
reference assembled in extended precision straight from the documented meaning
of the stored fields."""
import numpy as np

LD = np.longdouble

FORMATS = [
    'fsr', 'fsc', 'fsr_block', 'fsc_block',
    'fsr_rot2d', 'fsc_rot2d', 'fsr_rot3d', 'fsc_rot3d',
]
NATIVE_INDEX = [np.int32, np.int64]
OTHER_SINDEX = [np.int8, np.int16]
UINDEX = [np.uint8, np.uint16, np.uint32, np.uint64]
NATIVE_VALUE = [np.float32, np.float64]
OTHER_VALUE = [np.float16, np.longdouble]


def eps(dtype):
    return LD(np.finfo(dtype).eps)


def names():
    from pysimulators import sparse as s

    return {
        'fsr': s.FSRMatrix, 'fsc': s.FSCMatrix,
        'fsr_block': s.FSRBlockMatrix, 'fsc_block': s.FSCBlockMatrix,
        'fsr_rot2d': s.FSRRotation2dMatrix, 'fsc_rot2d': s.FSCRotation2dMatrix,
        'fsr_rot3d': s.FSRRotation3dMatrix, 'fsc_rot3d': s.FSCRotation3dMatrix,
    }


def fields(fmt, vdtype, idtype, block):
    if fmt in ('fsr', 'fsc'):
        return [('index', idtype), ('value', vdtype)]
    if fmt == 'fsr_block':
        return [('index', idtype), ('value', vdtype, block)]
    if fmt == 'fsc_block':
        return [('index', idtype), ('value', vdtype, block[::-1])]
    if fmt.endswith('rot2d'):
        return [('index', idtype), ('r11', vdtype), ('r21', vdtype)]
    return [('index', idtype), ('r11', vdtype), ('r22', vdtype), ('r32', vdtype)]


def blocks_of(fmt, data, block):
    """(..., nmax, b0, b1) dense blocks: the contribution of each stored entry to
    output block-row / input block-column."""
    sh = data.shape
    b0, b1 = block
    out = np.zeros(sh + (b0, b1), LD)
    if fmt in ('fsr', 'fsc'):
        out[..., 0, 0] = data['value']
    elif fmt == 'fsr_block':
        out[...] = data['value'].astype(LD)
    elif fmt == 'fsc_block':
        out[...] = np.swapaxes(data['value'].astype(LD), -1, -2)
    elif fmt.endswith('rot2d'):
        # rotation matrix [[r11, -r21], [r21, r11]]; the column format is its transpose
        r11, r21 = data['r11'].astype(LD), data['r21'].astype(LD)
        s = 1 if fmt[:3] == 'fsr' else -1
        out[..., 0, 0] = r11
        out[..., 1, 1] = r11
        out[..., 0, 1] = -s * r21
        out[..., 1, 0] = s * r21
    else:
        r11, r22, r32 = (data[_].astype(LD) for _ in ('r11', 'r22', 'r32'))
        s = 1 if fmt[:3] == 'fsr' else -1
        out[..., 0, 0] = r11
        out[..., 1, 1] = r22
        out[..., 2, 2] = r22
        out[..., 1, 2] = -s * r32
        out[..., 2, 1] = s * r32
    return out


def dense_of(fmt, data, nother, block):
    """Dense matrix from the structured data; `nother` is the number of blocks
    along the indexed axis."""
    d = np.asarray(data).view(np.ndarray)
    nmax = d.shape[-1]
    d = d.reshape(int(np.prod(d.shape[:-1])), nmax)
    blk = blocks_of(fmt, d, block)
    n = d.shape[0]
    b0, b1 = block
    idx = d['index'].astype(np.int64)
    if fmt[:3] == 'fsr':
        out = np.zeros((n, b0, nother, b1), LD)
        for k in range(nmax):
            ok = np.flatnonzero(idx[:, k] >= 0)
            for i in ok:
                out[i, :, idx[i, k], :] += blk[i, k]
        return out.reshape(n * b0, nother * b1)
    out = np.zeros((nother, b0, n, b1), LD)
    for k in range(nmax):
        ok = np.flatnonzero(idx[:, k] >= 0)
        for j in ok:
            out[idx[j, k], :, j, :] += blk[j, k]
    return out.reshape(nother * b0, n * b1)


class Sample:
    """A random matrix: .matrix (code under test), .dense (reference)."""


def draw(c, fmt=None, native=None, size=None, itypes=None, vtypes=None, multidim=True,
         nmaxes=(1, 1, 2, 3, 5, 1, 2, 3, 0)):
    s = Sample()
    fmt = fmt or c.choice(FORMATS)
    plain = fmt in ('fsr', 'fsc')
    if native is None:
        native = c.coin(0.7)
    if itypes is None:
        if native:
            itypes = NATIVE_INDEX
        else:
            itypes = NATIVE_INDEX + OTHER_SINDEX + (UINDEX if plain else [])
    if vtypes is None:
        vtypes = NATIVE_VALUE if native else NATIVE_VALUE + OTHER_VALUE
    itype = np.dtype(c.choice(itypes))
    vtype = np.dtype(c.choice(vtypes))
    if fmt.endswith('_block'):
        block = (1, 1)
        while block == (1, 1):
            block = (c.int(1, 3), c.int(1, 3))
    elif fmt.endswith('rot2d'):
        block = (2, 2)
    elif fmt.endswith('rot3d'):
        block = (3, 3)
    else:
        block = (1, 1)
    nmax = c.choice(nmaxes)
    if size is None:
        nkept, nother = c.int(1, 17), c.int(1, 13)
    else:
        nkept, nother = size
    if itype.itemsize == 1:
        nother = min(nother, 120)
    lead = (nkept,)
    if multidim and c.coin(0.3):
        a = c.int(1, 4)
        lead = (a, max(1, nkept // a))
        nkept = a * lead[1]
    data = np.zeros(lead + (nmax,), dtype=fields(fmt, vtype, itype, block))
    style = c.choice(['random', 'random', 'sorted', 'same', 'identity', 'duplicates'])
    if style == 'same':
        idx = np.full(data.shape, c.int(0, nother - 1))
    elif style == 'sorted':
        idx = np.sort(c.rng.integers(0, nother, data.shape), axis=None).reshape(data.shape)
    elif style == 'identity':
        idx = (np.arange(data.size) % nother).reshape(data.shape)
    elif style == 'duplicates':
        idx = np.repeat(c.rng.integers(0, nother, lead + (1,)), nmax, axis=-1)
    else:
        idx = c.rng.integers(0, nother, data.shape)
    missing = 0.0
    if itype.kind == 'i':
        missing = c.choice([0, 0, 0.1, 0.5, 1.0], p=[0.3, 0.15, 0.25, 0.25, 0.05])
        kill = c.rng.random(data.shape) < missing
        neg = -1 if c.coin(0.8) else -c.int(1, 100)
        idx = np.where(kill, neg, idx)
    data['index'] = idx
    for name in data.dtype.names[1:]:
        v = c.rng.uniform(-3, 3, data[name].shape)
        if c.coin(0.4):
            v[c.rng.random(v.shape) < 0.3] = 0
        if c.coin(0.1):
            v = np.round(v)
        data[name] = v
    s.fmt, s.block, s.nmax, s.itype, s.vtype = fmt, block, nmax, itype, vtype
    s.data = data
    s.nkept, s.nother = nkept, nother
    if fmt[:3] == 'fsr':
        s.shape = (nkept * block[0], nother * block[1])
    else:
        s.shape = (nother * block[0], nkept * block[1])
    s.missing = missing
    cls = names()[fmt]
    how = c.choice(['data', 'fill'])
    if len(lead) > 1:
        how = 'data'
    if how == 'data':
        s.matrix = cls(s.shape, data=data.copy())
    else:
        kw = {('nrowmax' if fmt[:3] == 'fsc' else 'ncolmax'): nmax}
        if fmt.endswith('_block'):
            kw['block_shape'] = block
        m = cls(s.shape, dtype=vtype, dtype_index=itype, **kw)
        # the storage allocated by the package must be able to hold the entries
        m.data[...] = data
        s.matrix = m
    s.how = how
    if nkept * nother <= 4000:
        s.dense = dense_of(fmt, data, nother, block)
        s.absdense = np.abs(s.dense)
        # |blocks| summed entry by entry: bounds the rounding of cancelling duplicates
        da = data.copy()
        for name in da.dtype.names[1:]:
            da[name] = np.abs(da[name])
        s.absdense = np.abs(dense_abs(fmt, da, nother, block))
    c.note(fmt=fmt, itype=str(itype), vtype=str(vtype), block=block, nmax=nmax,
           lead=lead, nother=nother, missing=missing, style=style, how=how)
    return s


def dense_abs(fmt, data, nother, block):
    """Dense matrix of the sums of absolute values of the contributions."""
    d = data.reshape(int(np.prod(data.shape[:-1])), data.shape[-1])
    blk = np.abs(blocks_of(fmt, d, block))
    n = d.shape[0]
    b0, b1 = block
    idx = d['index'].astype(np.int64)
    if fmt[:3] == 'fsr':
        out = np.zeros((n, b0, nother, b1), LD)
        for k in range(d.shape[1]):
            for i in np.flatnonzero(idx[:, k] >= 0):
                out[i, :, idx[i, k], :] += blk[i, k]
        return out.reshape(n * b0, nother * b1)
    out = np.zeros((nother, b0, n, b1), LD)
    for k in range(d.shape[1]):
        for j in np.flatnonzero(idx[:, k] >= 0):
            out[idx[j, k], :, j, :] += blk[j, k]
    return out.reshape(nother * b0, n * b1)


def sparse_apply(fmt, data, block, nother, x, extra=1, absolute=False):
    """Reference product without a dense matrix, for large sizes (extended precision)."""
    nmax = data.shape[-1]
    d = data.reshape(int(np.prod(data.shape[:-1])), nmax)
    blk = blocks_of(fmt, d, block)
    if absolute:
        blk = np.abs(blk)
        x = np.abs(x)
    n = d.shape[0]
    b0, b1 = block
    idx = d['index'].astype(np.int64)
    x = np.asarray(x, LD)
    if fmt[:3] == 'fsr':
        xx = x.reshape(nother, b1, extra)
        out = np.zeros((n, b0, extra), LD)
        for k in range(nmax):
            ok = idx[:, k] >= 0
            out[ok] += np.einsum('nij,nje->nie', blk[ok, k], xx[idx[ok, k]])
        return out.ravel()
    xx = x.reshape(n, b1, extra)
    out = np.zeros((nother, b0, extra), LD)
    for k in range(nmax):
        ok = idx[:, k] >= 0
        np.add.at(out, idx[ok, k], np.einsum('nij,nje->nie', blk[ok, k], xx[ok]))
    return out.ravel()


def work_eps(s, xdtype, *others):
    """Unit roundoff a correct evaluation may be granted."""
    xdtype = np.dtype(xdtype)
    native = s.vtype in (np.float32, np.float64) and s.itype in (np.int32, np.int64)
    if xdtype.kind not in 'fc' or (native and xdtype == np.longdouble) or (
        native and xdtype == np.float16
    ):
        e = eps(s.vtype)
    else:
        e = eps(np.result_type(s.vtype, xdtype))
    for o in others:
        e = max(e, eps(o))
    return e


def vector(c, n, dtype=None, dtypes=None):
    if dtype is None:
        dtype = c.choice(
            dtypes or [np.float64, np.float64, np.float32, np.float32, np.float16,
                       np.longdouble, np.int64, np.int32, np.int8],
        )
    dtype = np.dtype(dtype)
    if dtype.kind in 'iu':
        return c.rng.integers(-5 if dtype.kind == 'i' else 0, 6, n).astype(dtype)
    x = c.rng.uniform(-4, 4, n)
    if dtype.kind == 'c':
        x = x + 1j * c.rng.uniform(-4, 4, n)
    return x.astype(dtype)


def bounded(c, got, want, bound, key, message=''):
    """|got - want| <= bound elementwise (all extended precision), got finite."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        return c.check(False, key, f'{message} shape {got.shape} instead of {want.shape}')
    ct = np.clongdouble if (got.dtype.kind == 'c' or want.dtype.kind == 'c') else LD
    err = np.abs(got.astype(ct) - want.astype(ct))
    bad = ~(err <= bound)
    if not bad.any():
        return c.check(True, key)
    i = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
    return c.check(
        False, key,
        f'{message} {int(bad.sum())}/{bad.size} wrong; at {tuple(map(int, i))} got '
        f'{got[i]!r}, expected {want[i]!r} +- {np.asarray(bound)[i] if np.ndim(bound) else bound}')
