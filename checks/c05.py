"""C05: polygon integration against the exact areas of the intersections."""
import numpy as np

from . import gen_sparse as g

PROPERTY = 'C05'
LD = np.longdouble


def shoelace(p):
    x, y = p[:, 0], p[:, 1]
    return (x * np.roll(y, -1) - y * np.roll(x, -1)).sum() / 2


def clip(poly, axis, bound, keep_greater):
    """Sutherland-Hodgman against one half-plane, in extended precision."""
    out = []
    n = len(poly)
    s = 1 if keep_greater else -1
    d = s * (poly[:, axis] - bound)
    for i in range(n):
        j = (i + 1) % n
        if d[i] >= 0:
            out.append(poly[i])
        if (d[i] > 0 > d[j]) or (d[i] < 0 < d[j]):
            q = poly[i] + (poly[j] - poly[i]) * (d[i] / (d[i] - d[j]))
            q[axis] = bound
            out.append(q)
    return np.array(out, LD).reshape(-1, 2)


def areas(poly, ny, nx):
    """Area of the intersection of the polygon with each pixel (centre = integers)."""
    out = np.zeros((ny, nx), LD)
    poly = poly.astype(LD)
    x0, y0 = poly.min(0)
    x1, y1 = poly.max(0)
    for ix in range(max(0, int(np.floor(x0 - 1))), min(nx - 1, int(np.ceil(x1 + 1))) + 1):
        strip = clip(poly, 0, ix - LD(0.5), True)
        if len(strip):
            strip = clip(strip, 0, ix + LD(0.5), False)
        if not len(strip):
            continue
        for iy in range(max(0, int(np.floor(y0 - 1))), min(ny - 1, int(np.ceil(y1 + 1))) + 1):
            q = clip(strip, 1, iy - LD(0.5), True)
            if len(q):
                q = clip(q, 1, iy + LD(0.5), False)
            if len(q):
                out[iy, ix] = abs(shoelace(q))
    return out


def polygon(c, nv, ny, nx, style):
    """A simple polygon of nv vertices."""
    ext = {'tiny': 0.2, 'pixel': 1.0, 'aligned': 3, 'medium': 3.0, 'large': 2.0 * max(nx, ny)}.get(style, 2.5)
    cx = c.rng.uniform(-1, nx)
    cy = c.rng.uniform(-1, ny)
    if style == 'outside':
        cx += c.choice([-1, 1]) * 3 * (nx + 4)
    a = np.sort(c.rng.uniform(0, 2 * np.pi, nv))
    if style != 'star':
        r = ext * c.rng.uniform(0.7, 1) * np.ones(nv)  # convex
        el = c.rng.uniform(0.1, 1)
    else:
        r = ext * c.rng.uniform(0.2, 1, nv)  # star-shaped: simple, not convex
        gaps = np.diff(np.append(a, a[0] + 2 * np.pi))
        if gaps.max() > np.pi * 0.95:
            a = (np.arange(nv) + c.rng.uniform(0, 0.8, nv)) * 2 * np.pi / nv
        el = 1
    p = np.stack([cx + r * np.cos(a), cy + el * r * np.sin(a)], -1)
    if style in ('aligned', 'lattice'):
        # vertices on the pixel boundaries and centres: a rectangle or a triangle, repeated vertices
        w, h = c.int(0, 4), c.int(0, 4)
        x, y = c.int(-2, nx) - c.choice([0.5, 0]), c.int(-2, ny) - c.choice([0.5, 0])
        q = np.array([[x, y], [x + w, y], [x + w, y + h], [x, y + h]], float)
        if c.coin(0.3):
            q = np.delete(q, c.int(0, 3), 0)
        if len(q) > nv:
            q = q[:nv]
        while len(q) < nv:
            k = c.int(0, len(q) - 1)
            mid = (q[k] + q[(k + 1) % len(q)]) / 2 if c.coin() else q[k]
            q = np.insert(q, k + 1, mid, 0)
        p = q
    if style == 'degenerate':
        p = p[0] + np.outer(c.rng.uniform(-1, 1, nv), p[1] - p[0])  # zero area
        if c.coin(0.3):
            p[:] = p[0]
    if style == 'sliver':
        d = c.choice([1e-3, 1e-6, 1e-9])
        i = c.int(0, 1)
        p[:, i] = p[:, i].mean() + (p[:, i] - p[:, i].mean()) * d
    if c.coin():
        p = p[::-1]
    return np.roll(p, c.int(0, nv - 1), 0)


STYLES = ['tiny', 'pixel', 'medium', 'medium', 'large', 'star', 'star', 'aligned', 'aligned', 'degenerate', 'sliver', 'outside']


def integration(c):
    from pysimulators import SceneGrid

    ny, nx = c.choice([(1, 1), (1, c.int(2, 9)), (c.int(2, 9), 1), (c.int(2, 9), c.int(2, 9))])
    shape = c.choice([(1,), (c.int(1, 6),), (c.int(1, 3), c.int(1, 4)), (), (0,), (2, 0)], p=[.1, .3, .4, .1, .05, .05])
    big = c.coin(0.05)
    if big:
        shape = (c.int(60, 150),)
    nv = c.choice([3, 3, 4, 4, 5, 7])
    n = int(np.prod(shape))
    styles = [c.choice(STYLES) for _ in range(n)]
    poly = np.array([polygon(c, nv, ny, nx, s) for s in styles]).reshape(shape + (nv, 2))
    dtype = np.dtype(c.choice([np.float64, np.float64, np.float32]))
    kw = {}
    if c.coin(0.7):
        kw['dtype'] = dtype
    else:
        dtype = np.dtype(float)
    itype = c.choice([None, np.int32, np.int64])
    if itype is not None:
        kw['dtype_index'] = itype
    poly = poly.astype(dtype)
    ncolmax = c.choice([0, 0, 1, 3, 8, 40])
    if ncolmax or c.coin():
        kw['ncolmax'] = ncolmax
    extra = ()
    scene = SceneGrid((ny, nx))
    given = poly
    lay = c.choice(['c', 'f', 'strided', 'list', 'readonly'])
    if lay == 'f':
        given = np.asfortranarray(poly)
    elif lay == 'strided':
        given = np.repeat(poly, 2, axis=0)[::2] if poly.ndim > 2 else poly
    elif lay == 'list' and n:
        given = poly.tolist()
    elif lay == 'readonly':
        given = poly.copy()
        given.flags.writeable = False
    keep = poly.copy()
    c.note(grid=(ny, nx), extra=extra, shape=shape, nv=nv, dtype=str(dtype), itype=str(itype), ncolmax=ncolmax,
           styles=styles[:8], lay=lay)
    attr = {'name': c.int(0, 9)} if c.coin(0.3) else {}
    if attr:
        kw['attrout'] = attr
    op = scene.get_integration_operator(given, **kw)
    c.check(op.attrout == attr, 'keywords', lambda: f'the operator ignores its keywords: {op.attrout} instead of {attr}')
    c.equal(poly, keep, 'polygons', 'the polygons were modified')
    m = op.matrix
    c.check(m.dtype == dtype and m.data.index.dtype == (itype or np.int32), 'types', lambda: f'{m.dtype} {m.data.index.dtype}')
    c.check(op.shapein == (ny, nx) + extra, 'shapein', lambda: str(op.shapein))
    c.check(op.shapeout == shape + extra, 'shapeout', lambda: str(op.shapeout))
    e = LD(np.finfo(dtype).eps)
    p2 = poly.reshape(n, nv, 2)
    want = np.array([areas(p, ny, nx) for p in p2]).reshape(n, ny, nx)
    ext = np.array([np.ptp(p, axis=0).max() + np.abs(p).max() + 2 for p in p2]).reshape(n, 1, 1)
    tol = 16 * nv * e * ext.astype(LD) ** 2
    # the stored elements
    data = m.data.reshape(n, -1) if n else m.data
    idx, val = np.asarray(data['index']), np.asarray(data['value'])
    got = np.zeros((n, ny * nx), LD)
    count = 0
    if idx.size:
        c.check(bool(np.all(idx < ny * nx)) and bool(np.all(idx >= -1)), 'index-range', 'pixel index outside the scene')
        ok = idx >= 0
        c.check(bool(np.all(val[~ok] == 0)), 'padding', 'non-null padding')
        c.check(bool(np.all(np.isfinite(val))) and bool(np.all(val >= 0)), 'weights', 'negative or non-finite weight')
        last = np.diff(ok.astype(int), axis=1) > 0
        c.check(not last.any(), 'padding-last', 'padding between elements')
        for k in range(n):
            i = idx[k][ok[k]]
            c.check(len(set(i.tolist())) == len(i), 'duplicates', 'a pixel is stored twice')
            got[k, i] = val[k][ok[k]]
        count = int(ok.sum(1).max())
        got = got.reshape(n, ny, nx)
        g.bounded(c, got, want, tol, 'areas', 'area of the intersections')
    else:
        g.bounded(c, np.zeros((n, ny, nx)), want, tol, 'areas', 'no stored element')
    c.check(op.min_ncolmax == count, 'min_ncolmax', lambda: f'{op.min_ncolmax} instead of {count}')
    c.check(m.ncolmax == max(ncolmax, count), 'ncolmax', lambda: f'{m.ncolmax}')
    # outside flag: a polygon goes beyond the edges of the grid
    lim = np.array([nx, ny]) - 0.5
    if n:
        d = np.stack([p2 + 0.5, lim - p2]).astype(float)
        if not np.any((d != 0) & (np.abs(d) < 1e-5 * (1 + np.abs(p2).max()))):
            c.check(op.outside == bool((d < 0).any()), 'outside', lambda: f'outside={op.outside}')
        # conservation: the weights of a polygon inside the grid sum up to its area
        for k in range(n):
            if (d[:, k] >= 0).all():
                a = abs(shoelace(p2[k].astype(LD)))
                c.check(abs(got[k].sum() - a) <= tol[k].item() * ny * nx, 'conservation', lambda: f'{got[k].sum()} instead of {a}')
    # projection of a map, and its transpose
    x = c.rng.uniform(-2, 2, (ny, nx) + extra)
    y = np.asarray(op(x)).reshape((n,) + extra)
    w = np.tensordot(got.reshape(n, ny * nx), x.reshape((ny * nx,) + extra).astype(LD), 1)
    g.bounded(c, y, w, LD(1e-12) * (1 + np.abs(w).max(initial=0)), 'projection', 'integrated values')
    z = c.rng.uniform(-2, 2, shape + extra)
    if n:
        yt = np.asarray(op.T(z)).reshape((ny * nx,) + extra)
        w = np.tensordot(got.reshape(n, ny * nx).T, z.reshape((n,) + extra).astype(LD), 1)
        g.bounded(c, yt, w, LD(1e-12) * (1 + np.abs(got).sum() * 2), 'backprojection', 'transpose')


def refused(c):
    from pysimulators import SceneGrid

    ny, nx = c.int(1, 5), c.int(2, 5)
    scene = SceneGrid((ny, nx))
    p = np.zeros((2, 4, 2))
    bad = c.choice([dict(dtype_index=np.int16), dict(dtype=np.float16), dict(dtype_index=np.uint32), dict(dtype=int)])
    c.note(bad=str(bad))
    c.raises(TypeError, lambda: scene.get_integration_operator(p, **bad), 'refused:types', str(bad))
    m = np.ones(ny * nx, bool)
    m[c.int(0, ny * nx - 1)] = False
    c.raises(NotImplementedError, lambda: scene[m].get_integration_operator(p), 'refused:removed')


def run(ctx):
    ctx.each('integration', 700, 12000, integration)
    ctx.each('refused', 20, 100, refused)
