"""Random instances of every linear operator the package offers."""
import numpy as np

from . import gen_sparse as g

LD = np.longdouble


def pointing_matrix(c, npps=None, shape_input=None, wellformed=True):
    from pysimulators import PointingMatrix

    nd, ns = c.int(1, 4), c.int(1, 12)
    npps = c.choice([1, 1, 2, 3, 4]) if npps is None else npps
    shape_input = shape_input or c.choice([(c.int(1, 9),), (c.int(1, 5), c.int(1, 6))])
    npix = int(np.prod(shape_input))
    pm = PointingMatrix.zeros((nd, ns, npps), shape_input, verbose=False)
    idx = c.rng.integers(0, npix, (nd, ns, npps)).astype(np.int32)
    val = c.rng.uniform(-2, 2, (nd, ns, npps)).astype(np.float32)
    # each sample sees `k` pixels, the rest of its row is padded with -1
    k = c.rng.integers(0, npps + 1, (nd, ns, 1))
    pad = np.arange(npps) >= k
    idx[pad] = -1
    val[pad] = 0
    if c.coin(0.3):
        val[c.rng.random(val.shape) < 0.2] = 0
    pm.index[...] = idx
    pm.value[...] = val
    return pm, idx, val, npix


def pm_dense(idx, val, npix):
    n = int(np.prod(idx.shape[:-1]))
    out = np.zeros((n, npix), LD)
    i2, v2 = idx.reshape(n, -1), val.reshape(n, -1)
    for j in range(i2.shape[1]):
        for i in np.flatnonzero(i2[:, j] >= 0):
            out[i, i2[i, j]] += LD(v2[i, j])
    return out


def sparse_op(c, fmt=None, native=True):
    from pysimulators import ProjectionOperator
    from pysimulators.sparse import SparseOperator

    s = g.draw(c, fmt=fmt, native=native)
    kw = {}
    cls = SparseOperator
    if s.fmt[:3] == 'fsr' and c.coin():
        cls = ProjectionOperator
    plain = s.fmt in ('fsr', 'fsc')
    extra = ()
    if plain:
        if c.coin(0.4):
            extra = (c.int(1, 4),)
        if c.coin(0.6) or extra:
            kw = dict(shapein=(s.shape[1],) + extra, shapeout=(s.shape[0],) + extra)
            if c.coin(0.3):
                a = c.choice([d for d in range(1, s.shape[1] + 1) if s.shape[1] % d == 0])
                kw['shapein'] = (a, s.shape[1] // a) + extra
    op = cls(s.matrix, **kw)
    shin = op.shapein or (s.shape[1],)
    shout = op.shapeout or (s.shape[0],)
    return op, shin, shout, s.vtype, s


def cases():
    return {
        'sparse': _sparse, 'sparse-python': _sparse_py, 'pmatrix': _pmatrix, 'trexp': _trexp,
        'roll': _roll, 'gal2equ': _galequ, 'horizontal': _hor, 'restrict': _restrict,
        'integration': _integration, 'onfly': _onfly,
    }


def _sparse(c):
    op, a, b, dt, s = sparse_op(c)
    return op, a, b, s.vtype


def _sparse_py(c):
    op, a, b, dt, s = sparse_op(c, native=False)
    return op, a, b, s.vtype


def _pmatrix(c):
    from pysimulators import ProjectionInMemoryOperator

    pm, idx, val, npix = pointing_matrix(c)
    c.note(npps=idx.shape[-1], shape=idx.shape)
    op = ProjectionInMemoryOperator(pm)
    return op, pm.shape_input, idx.shape[:-1], np.dtype(float)


def _onfly(c):
    from pysimulators import ProjectionOnFlyOperator

    holder = {}
    pms = [pointing_matrix(c, shape_input=(7,))[0] for _ in range(3)]
    ops = [ProjectionOnFlyOperator(holder, i, lambda i: pms[i], shapein=(7,),
                                   shapeout=pms[i].shape[:-1]) for i in range(3)]
    k = c.int(0, 2)
    # another member of the group takes the place holder first
    j = c.int(0, 2)
    ops[j](np.ones(7))
    return ops[k], (7,), pms[k].shape[:-1], np.dtype(float)


def _trexp(c):
    from pysimulators import ConvolutionTruncatedExponentialOperator as T

    dt = np.dtype(c.choice([np.float64, np.float32]))
    nt = c.choice([1, 2, 3, 7, 50])
    nd = c.int(1, 5)
    if c.coin(0.4):
        tau = np.array(c.rng.uniform(0.05, 20), dt)
        sh = (nt,) if c.coin() else (nd, nt)
    else:
        tau = c.rng.uniform(0.05, 20, nd).astype(dt)
        if nd > 1 and c.coin(0.3):
            tau[0] = 0
        sh = (nd, nt)
    c.note(tau=tau, sh=sh)
    op = T(tau)
    return op, sh, sh, dt


def _roll(c):
    from pysimulators import RollOperator

    nd = c.int(1, 3)
    sh = tuple(c.int(1, 6) for _ in range(nd))
    if c.coin(0.5):
        n, axis = c.int(-9, 9), None if c.coin() else c.int(-nd, nd - 1)
        if axis is None and c.coin():
            n = tuple(c.int(-9, 9) for _ in range(c.int(1, nd)))
    else:
        k = c.int(1, nd)
        axis = tuple(int(_) for _ in c.rng.permutation(nd)[:k])
        n = tuple(c.int(-9, 9) for _ in range(k)) if c.coin() else c.int(-9, 9)
    c.note(n=n, axis=axis, sh=sh)
    return RollOperator(n, axis), sh, sh, np.dtype(float)


def _galequ(c):
    import pysimulators as p

    cls = c.choice([p.CartesianEquatorial2GalacticOperator, p.CartesianGalactic2EquatorialOperator])
    sh = tuple(c.int(1, 4) for _ in range(c.int(0, 2))) + (3,)
    return cls(), sh, sh, np.dtype(float)


def _hor(c):
    import pysimulators as p
    from astropy.time import Time, TimeDelta

    cls = c.choice([p.CartesianEquatorial2HorizontalOperator, p.CartesianHorizontal2EquatorialOperator])
    n = c.int(1, 4)
    t = Time('2013-04-12 01:02:03', scale='utc') + TimeDelta(c.rng.uniform(0, 1e7, n), format='sec')
    op = cls('NE', t, c.rng.uniform(-90, 90), c.rng.uniform(-180, 180))
    sh = (n, 3)
    return op, sh, sh, np.dtype(float)


def _restrict(c):
    from pysimulators import ProjectionOperator

    fmt = c.choice(['fsr', 'fsr_rot2d', 'fsr_rot3d'])
    s = g.draw(c, fmt=fmt, native=True, multidim=False)
    op = ProjectionOperator(s.matrix, **(dict(shapein=(s.shape[1],), shapeout=(s.shape[0],)) if fmt == 'fsr' else {}))
    if c.coin():
        m = c.rng.random(s.nkept) < 0.7
        if m.any():
            op = op.corestrict(m)
    if c.coin():
        m = c.rng.random(s.nother) < 0.7
        if m.any():
            op = op.restrict(m)
    return op, op.shapein, op.shapeout, s.vtype


def _integration(c):
    from pysimulators import SceneGrid

    ny, nx = c.int(1, 8), c.int(1, 8)
    dt = np.dtype(c.choice([np.float64, np.float32]))
    n = tuple(c.int(1, 5) for _ in range(c.int(1, 2)))
    center = c.rng.uniform(-1, max(nx, ny) + 1, n + (1, 2))
    ang = np.sort(c.rng.uniform(0, 2 * np.pi, n + (5,)), axis=-1)[..., None]
    poly = center + c.rng.uniform(0.2, 2) * np.concatenate([np.cos(ang), np.sin(ang)], -1)
    op = SceneGrid((ny, nx)).get_integration_operator(poly, ncolmax=c.choice([0, 1, 30]), dtype=dt,
                                                      dtype_index=c.choice([np.int32, np.int64]))
    return op, (ny, nx), n, dt
