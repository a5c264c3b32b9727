"""C15: plane geometry and layouts against their definitions."""
import numpy as np

PROPERTY = 'C15'
RULE = 'coordinates compared with their definitions in extended precision'
LD = np.longdouble
PI = 4 * np.arctan(LD(1))
EPS = {'f4': 3e-6, 'f8': 1e-13, 'g': 1e-13}


def rot(xy, angle):
    a = LD(angle) * PI / 180
    x, y = xy[..., 0], xy[..., 1]
    return np.stack([np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y], -1)


def angle_of(c):
    return c.choice([0, 0, 90, -90, 180, 30, 45.5, 400, -0.25, round(float(c.rng.uniform(-400, 400)), 4)])


def real(c, lo, hi, size=None):
    v = np.round(c.rng.uniform(lo, hi, size), 4)
    return float(v) if size is None else v


def buffer(c, shape, dt):
    """An output array: contiguous, strided or in Fortran order, surrounded by a guard."""
    kind = c.choice(['c', 'c', 'strided', 'f'])
    if kind == 'strided' and shape:
        big = np.full(tuple(2 * n + 1 for n in shape), 99, dt)
        view = big[tuple(slice(1, None, 2) for _ in shape)]
        keep = np.ones(big.shape, bool)
        keep[tuple(slice(1, None, 2) for _ in shape)] = False
        return view, lambda: bool(np.all(big[keep] == 99)), kind
    return np.full(shape, 99, dt, order='F' if kind == 'f' else 'C'), lambda: True, kind


def grid(shape, spacing, xr, yr, angle, origin):
    m, n = shape
    x = (np.arange(n, dtype=LD) - LD(n - 1) / 2) * LD(spacing) * (-1 if xr else 1)
    y = (LD(m - 1) / 2 - np.arange(m, dtype=LD)) * LD(spacing) * (-1 if yr else 1)
    xy = np.empty((m, n, 2), LD)
    xy[..., 0] = x
    xy[..., 1] = y[:, None]
    return rot(xy, angle) + np.asarray(origin, LD)


def squares(shape, spacing, ff, xr, yr, angle, origin):
    g = grid(shape, spacing, xr, yr, 0, (0, 0))
    h = LD(spacing) * np.sqrt(LD(ff)) / 2
    corners = np.array([[h, h], [-h, h], [-h, -h], [h, -h]], LD)
    corners *= [-1 if xr else 1, -1 if yr else 1]
    return rot(g[:, :, None, :] + corners, angle) + np.asarray(origin, LD)


def scale(*a):
    return max([1.0] + [float(np.max(np.abs(np.asarray(_, LD)))) for _ in a if np.size(_)])


def sparing(c, kw, defaults):
    """Most often, the arguments that have their default value are not given."""
    for k, v in defaults.items():
        if k in kw and np.array_equal(kw[k], v) and c.coin(0.8):
            del kw[k]


def grids(c):
    from pysimulators.geometry import create_grid, create_grid_squares

    shape = (c.int(1, 12), c.int(1, 12)) if c.coin(0.9) else (c.choice([1, 40]), c.choice([1, 40]))
    spacing = c.choice([1, 0.5, real(c, 1e-3, 5)])
    xr, yr, angle = c.coin(), c.coin(), angle_of(c)
    origin = c.choice([(0, 0), (1, -2), tuple(real(c, -20, 20, 2))])
    ff = c.choice([1, 0.25, real(c, 0.05, 1)])
    sq = c.coin()
    form = c.choice([tuple, list])
    kw = dict(xreflection=xr, yreflection=yr, angle=angle, center=c.choice([tuple, list, np.array])(origin))
    useout = c.coin(0.3)
    c.note(fn='grid', shape=shape, spacing=spacing, xr=xr, yr=yr, angle=angle, origin=origin, squares=sq, ff=ff, out=useout)
    if sq:
        kw['filling_factor'] = ff
        want = squares(shape, spacing, ff, xr, yr, angle, origin)
    else:
        want = grid(shape, spacing, xr, yr, angle, origin)
    func = create_grid_squares if sq else create_grid
    sparing(c, kw, dict(xreflection=False, yreflection=False, angle=0, center=(0, 0), filling_factor=1))
    if useout:
        kw['out'] = np.full(want.shape, 99.)
    got = func(form(shape), spacing, **kw)
    if useout:
        c.check(got is kw['out'], 'grid:out', 'the given output is not returned')
    c.check(got.dtype == float, 'grid:dtype', f'{got.dtype}')
    c.close(got, want.astype(float), 'grid', rtol=1e-13, atol=1e-13 * scale(want, origin))


def shapes(c):
    from pysimulators import geometry as g

    fn = c.choice(['circle', 'polygon', 'square', 'rectangle'])
    dt = c.choice(['f8', 'f8', 'f4', 'g'])
    center = c.choice([(0, 0), (1, -2), tuple(real(c, -20, 20, 2))])
    lead = c.choice([(), (), (c.int(1, 4),), (c.int(1, 3), c.int(1, 3)), (0,)])
    angle = angle_of(c)
    kw = dict(center=c.choice([tuple, list, np.array])(center))
    if c.coin(0.85) or dt != 'f8':
        kw['dtype'] = np.dtype(dt).type
    size = real(c, 0.01, 10, lead) if lead else real(c, 0.01, 10)
    unitc = np.array([[.5, .5], [-.5, .5], [-.5, -.5], [.5, -.5]], LD)
    sz = np.asarray(np.asarray(size, dt), LD)
    if fn == 'circle':
        n = c.choice([None, None, c.int(1, 100)])
        if n:
            kw['n'] = n
        n = n or 72
        angle = 0
        call = lambda **k: g.create_circle(size, **k)
    elif fn == 'polygon':
        n = c.int(1, 12)
        kw['angle'] = angle
        call = lambda **k: g.create_regular_polygon(n, size, **k)
    elif fn == 'square':
        n = 4
        kw['angle'] = angle
        call = lambda **k: g.create_square(size, **k)
        want = rot(unitc * sz[..., None, None], angle)
    else:
        n = 4
        size = real(c, 0.01, 10, lead + (2,))
        if not lead and c.coin():
            size = list(size)
        sz = np.asarray(np.asarray(size, dt), LD)
        kw['angle'] = angle
        call = lambda **k: g.create_rectangle(size, **k)
        want = rot(unitc * sz[..., None, :], angle)
    if fn in ('circle', 'polygon'):
        a = 2 * PI / n * np.arange(n, dtype=LD)
        want = rot(sz[..., None, None] * np.stack([np.cos(a), np.sin(a)], -1), angle)
    want = want + np.asarray(center, LD)
    if c.coin(0.3):
        out, guard, kind = buffer(c, want.shape, dt)
        kw['out'] = out
    else:
        out, kind = None, None
    c.note(fn=fn, n=n, dtype=dt, center=center, lead=lead, angle=angle, out=kind)
    before = np.array(size, copy=True)
    sparing(c, kw, dict(center=(0, 0), angle=0, n=72))
    got = call(**kw)
    c.check(got.shape == want.shape, 'shape:shape', f'{got.shape} instead of {want.shape}')
    if out is not None:
        c.check(got is out and guard(), 'shape:out', 'the output is not the given one, or its surroundings were written')
    c.check(got.dtype == np.dtype(dt), 'shape:dtype', f'{got.dtype} instead of {dt}')
    c.close(got, want.astype(float), fn, rtol=EPS[dt], atol=EPS[dt] * scale(want, center))
    c.equal(size, before, 'shape:input unchanged')
    # the area of the shape, by the package
    if lead != (0,) and n > 2 and dt == 'f8':
        area = g.surface_simple_polygon(got)
        if fn in ('circle', 'polygon'):
            ref = n * np.sin(2 * PI / n) / 2 * sz ** 2
        else:
            ref = sz ** 2 if fn == 'square' else sz[..., 0] * sz[..., 1]
        c.close(area, np.asarray(ref, float), 'shape:area', rtol=1e-11, atol=1e-11 * scale(want) ** 2)


def rotations(c):
    from pysimulators.geometry import rotate

    lead = c.choice([(), (c.int(1, 50),), (c.int(1, 5), c.int(1, 5)), (0,), (2, 3, 2), (5000,)], p=[.1, .4, .2, .05, .2, .05])
    dt = c.choice(['f8', 'f4', 'g', 'i8', 'i4'], p=[.5, .2, .1, .1, .1])
    layout = c.choice(['c', 'c', 'f', 'strided', 'list'])
    angle = angle_of(c)
    mode = c.choice(['new', 'out', 'inplace', 'overlap', 'outtype'])
    x = c.rng.uniform(-10, 10, lead + (2,)).astype(dt)
    if layout == 'strided':
        buf = np.zeros(tuple(2 * _ for _ in x.shape), dt)
        buf[tuple(slice(None, None, 2) for _ in x.shape)] = x
        x = buf[tuple(slice(None, None, 2) for _ in x.shape)]
    elif layout == 'f':
        x = np.array(x, order='F')
    if dt[0] == 'i' or layout == 'list':
        mode = 'new' if mode in ('inplace', 'overlap') else mode
    if mode == 'overlap' and (not lead or lead[0] < 2 or layout != 'c'):
        mode = 'new'
    want = rot(np.asarray(x, LD), angle)
    fdt = 'f8' if dt[0] == 'i' else dt
    odt = fdt
    c.note(fn='rotate', lead=lead, dtype=dt, layout=layout, angle=angle, mode=mode)
    keep = x.copy()
    given = x.tolist() if layout == 'list' else x
    if layout == 'list':
        fdt = odt = 'g' if dt == 'g' else 'f8'
        if not x.size:
            given = x
            fdt = odt = 'f8' if dt[0] == 'i' else dt
    # list of single precision values: same values in double precision
    if mode == 'new':
        got = rotate(given, angle)
    elif mode in ('out', 'outtype'):
        if mode == 'outtype':
            odt = c.choice(['f8', 'f4'])
        out, guard, _ = buffer(c, want.shape, odt)
        got = rotate(given, angle, out=out)
        c.check(got is out and guard(), 'rotate:out', 'the output is not the given one, or its surroundings were written')
    elif mode == 'inplace':
        got = rotate(x, angle, out=x)
        c.check(got is x, 'rotate:out', 'the given output is not returned')
    else:
        # the output overlaps with the input, shifted by one point in either direction
        buf = np.zeros((lead[0] + 1,) + lead[1:] + (2,), dt)
        if c.coin():
            a, b = buf[:-1], buf[1:]
        else:
            a, b = buf[1:], buf[:-1]
        a[...] = x
        got = rotate(a, angle, out=b)
    if mode in ('new', 'out', 'outtype'):
        c.equal(x, keep, 'rotate:input unchanged')
    c.check(got.dtype == np.dtype(odt), 'rotate:dtype', f'{got.dtype} instead of {odt}')
    eps = max(EPS[fdt], EPS[odt])
    c.close(got, want.astype(float), f'rotate:{mode}', rtol=eps, atol=eps * scale(want))
    c.raises(ValueError, lambda: rotate(np.zeros((3, 2)), angle, out=np.zeros((2, 2))), 'rotate:wrong output')


def segments(c):
    from pysimulators.geometry import segment_polygon

    n = c.int(3, 8)
    v = c.rng.integers(-5, 6, (n, 2)).astype(float) if c.coin() else real(c, -5, 5, (n, 2))
    if c.coin(0.2):
        v[c.int(1, n - 1)] = v[0]
    dmax = c.choice([0.5, 1, 3, 100, real(c, 0.05, 6)])
    dt = c.choice(['f8', 'f8', 'f4', 'g'])
    c.note(fn='segment', n=n, dmax=dmax, dtype=dt, v=v.tolist())
    keep = v.copy()
    got = segment_polygon(c.choice([v, v.tolist()]), dmax, **({} if dt == 'f8' else {'dtype': np.dtype(dt).type}))
    c.equal(v, keep, 'segment:input unchanged')
    c.check(got.dtype == np.dtype(dt), 'segment:dtype', f'{got.dtype}')
    if not c.check(got.ndim == 2 and got.shape[1] == 2, 'segment:shape', f'{got.shape}'):
        return
    g = np.asarray(got, LD)
    w = np.asarray(v.astype(dt), LD)
    # walk along both polygons: the points are on the successive edges, none is skipped, none is too far
    eps = EPS[dt] * 100
    step = np.hypot(*(np.roll(g, -1, 0) - g).T) if len(g) else np.zeros(0)
    c.check(bool((step <= dmax * (1 + eps) + eps).all()), 'segment:maximum', lambda: f'{step.max()} > {dmax}')
    i = 0
    ok = len(g) > 0 or all(np.all(w[0] == w[k]) for k in range(n))
    for k in range(n):
        a, b = w[k], w[(k + 1) % n]
        d = np.hypot(*(b - a))
        if d == 0:
            continue
        if i >= len(g) or np.abs(g[i] - a).max() > eps:
            ok = False
            break
        nseg = 0
        last = LD(-1)
        while i < len(g):
            t = np.dot(g[i] - a, b - a) / d ** 2
            if t >= 1 - eps or t <= last or np.abs(a + t * (b - a) - g[i]).max() > eps:
                break
            last = t
            i += 1
            nseg += 1
        low = np.ceil(d / dmax * (1 - eps))
        if not low <= nseg <= np.ceil(d / dmax * (1 + eps)):
            ok = False
            break
    c.check(ok and i == len(g), 'segment:points', lambda: f'the points do not follow the edges: {got.tolist()}')


def surfaces(c):
    from pysimulators.geometry import surface_simple_polygon

    lead = c.choice([(), (c.int(1, 30),), (c.int(1, 4), c.int(1, 4)), (2, 1, 3), (0,)])
    n = c.int(3, 12)
    # star-shaped polygons: vertices sorted by angle
    a = np.sort(c.rng.uniform(0, 2 * np.pi, lead + (n,)), -1)
    r = c.rng.uniform(0.2, 3, lead + (n,))
    xy = np.stack([r * np.cos(a), r * np.sin(a)], -1) + real(c, -20, 20, 2)
    dt = c.choice(['f8', 'f8', 'f4', 'i8'])
    if dt == 'i8':
        xy = np.round(xy * 5)
    xy = xy.astype(dt)
    cw = c.coin(0.3)
    if cw:
        xy = xy[..., ::-1, :]
    out = guard = None
    kw = {}
    odt = 'f8'
    if c.coin(0.4):
        odt = c.choice(['f8', 'f4'])
        out, guard, _ = buffer(c, lead, odt)
        kw['out'] = out
    elif c.coin(0.3):
        odt = 'f4'
        kw['dtype'] = np.float32
    c.note(fn='surface', lead=lead, n=n, dtype=dt, clockwise=cw, out=out is not None, odtype=odt)
    keep = xy.copy()
    got = surface_simple_polygon(xy if xy.size == 0 or c.coin(0.7) else xy.tolist(), **kw)
    p = np.asarray(xy, LD)
    p = p - p[..., :1, :]
    q = np.roll(p, -1, -2)
    want = ((p[..., 0] * q[..., 1] - p[..., 1] * q[..., 0]).sum(-1) / 2).astype(float)
    c.close(got, want, 'surface', rtol=1e-9 if odt == 'f8' else 1e-5, atol=(1e-11 if odt == 'f8' else 1e-5) * scale(xy) ** 2)
    c.check(np.asarray(got).dtype == np.dtype(odt), 'surface:dtype', f'{np.asarray(got).dtype}')
    if out is not None:
        c.equal(out, got, 'surface:out')
        c.check(guard(), 'surface:surroundings', 'written outside of the output')
        if lead:
            c.check(got is out, 'surface:out', 'the given output is not returned')
    c.equal(xy, keep, 'surface:input unchanged')


def hulls(c):
    from pysimulators.geometry import convex_hull

    kind = c.choice(['integer', 'real', 'cluster', 'circle'])
    n = c.int(3, 60)
    if kind == 'integer':
        p = c.rng.integers(-4, 5, (n, 2))
    elif kind == 'real':
        p = c.rng.uniform(-3, 3, (n, 2))
    elif kind == 'cluster':
        p = c.rng.normal(size=(n, 2)) * [1, 20] + [1000, -50]
    else:
        a = np.sort(c.rng.uniform(0, 2 * np.pi, n))
        p = np.stack([np.cos(a), np.sin(a)], -1) * 5
    c.note(fn='hull', kind=kind, n=n)
    ref = strict_hull(np.unique(p, axis=0).astype(LD))
    if len(ref) < 3:
        c.trivial = True
        return
    d = np.diff(np.vstack([ref, ref[:1]]), axis=0)
    if kind != 'integer' and np.min(np.hypot(*d.T)) < 1e-4:
        c.trivial = True
        return
    pts = c.choice([p, p.tolist(), p[:, None, :], p.reshape((1, -1, 2))])
    got = np.asarray(convex_hull(pts))
    if not c.check(got.ndim == 2 and got.shape[1] == 2, 'hull:shape', f'{got.shape}'):
        return
    rows = {tuple(map(float, r)) for r in p}
    c.check(all(tuple(map(float, r)) in rows for r in got), 'hull:input points', 'a point of the hull is not a given one')
    have = [tuple(map(float, r)) for r in got]
    c.check(len(set(have)) == len(have), 'hull:repeated', lambda: f'{have}')
    c.check({tuple(map(float, r)) for r in ref} <= set(have), 'hull:vertices', lambda: f'missing vertices: {ref.tolist()} / {have}')
    g = got.astype(LD)
    e = np.roll(g, -1, 0) - g
    tol = 1e-9 * scale(p) ** 2
    for k in range(len(g)):
        v = p.astype(LD) - g[k]
        cross = e[k, 0] * v[:, 1] - e[k, 1] * v[:, 0]
        if not c.check(bool((cross >= -tol).all()), 'hull:outside', lambda: f'points at the right of the edge {k} of {have}'):
            break
    area = (g[:, 0] * np.roll(g[:, 1], -1) - g[:, 1] * np.roll(g[:, 0], -1)).sum() / 2
    c.check(area > 0, 'hull:counter-clockwise', f'{area}')
    w = got - got.mean(axis=0)
    a = np.arctan2(w[:, 1], w[:, 0]) % (2 * np.pi)
    c.check(bool((np.diff(a) > -1e-12).all()), 'hull:order', lambda: f'the angles do not increase: {a}')
    c.raises(ValueError, lambda: convex_hull(np.zeros((4, 3))), 'hull:not plane')


def strict_hull(p):
    p = p[np.lexsort((p[:, 1], p[:, 0]))]

    def half(pts):
        h = []
        for q in pts:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (q[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (q[0] - h[-2][0]) <= 1e-12:
                h.pop()
            h.append(q)
        return h
    if len(p) < 3:
        return p
    return np.array(half(p)[:-1] + half(p[::-1])[:-1])


METRE = {'m': LD(1), 'mm': LD(1e-3), 'km': LD(1000)}


def layouts(c):
    from pysimulators import Layout, LayoutGrid, LayoutGridSquares, Quantity

    shape = (c.int(1, 7), c.int(1, 7))
    cls = c.choice(['grid', 'squares', 'layout', 'vertex'])
    spacing = c.choice([1, 0.5, real(c, 1e-2, 5)])
    xr, yr, angle, one = c.coin(), c.coin(), angle_of(c), c.coin(0.3)
    origin = c.choice([(0, 0), (1, -2), tuple(real(c, -20, 20, 2))])
    ff = c.choice([1, 0.25, real(c, 0.05, 1)])
    n = shape[0] * shape[1]
    kw = {}
    index = np.arange(n)
    sel = c.choice(['none', 'mask', 'slice', 'ints', 'ordering'])
    if sel == 'mask':
        m = c.rng.random(shape) < 0.6
        kw['selection'] = m
        index = index[m.ravel()]
    elif sel == 'slice':
        st = c.choice([1, 2])
        kw['selection'] = (slice(None, None, st), slice(0, c.int(1, 7)))
        index = index.reshape(shape)[kw['selection']].ravel()
    elif sel == 'ints':
        index = np.sort(c.rng.permutation(n)[:c.int(1, n)])
        kw['selection'] = index.copy()
    elif sel == 'ordering':
        o = c.rng.permutation(n)
        o[c.rng.random(n) < 0.2] = -1
        kw['ordering'] = o.reshape(shape)
        good = np.flatnonzero(o >= 0)
        index = good[np.argsort(o[good])]
    su, ou = c.choice([('', ''), ('', ''), ('m', ''), ('', 'm'), ('mm', 'm'), ('m', 'mm'), ('km', 'm')])
    unit = su or ou
    ru = c.choice([None, None, '', 'm', 'mm'])
    radius = real(c, 0.1, 2)
    c.note(fn='layout', cls=cls, shape=shape, spacing=spacing, xr=xr, yr=yr, angle=angle, origin=origin, ff=ff,
           sel=sel, units=(su, ou), radius=ru, one=one, index=index.tolist())
    vert = None
    if cls in ('grid', 'squares'):
        s = Quantity(spacing, su) if su else spacing
        o = Quantity(origin, ou) if ou else origin
        if ru is not None:
            kw['radius'] = Quantity(radius, ru) if ru else radius
            if not unit:
                unit = ru
        os = LD(1)
        if su and ou:
            os = METRE[ou] / METRE[su]
        off = np.asarray(origin, LD) * os
        kw.update(xreflection=xr, yreflection=yr, angle=angle, startswith1=one)
        sparing(c, kw, dict(xreflection=False, yreflection=False, angle=0, startswith1=False))
        if any(origin) or ou or c.coin():
            kw['origin'] = o
        if cls == 'grid':
            lay = LayoutGrid(shape if c.coin(0.8) else list(shape), s, **kw)
        else:
            if ff != 1 or c.coin():
                kw['filling_factor'] = ff
            lay = LayoutGridSquares(shape, s, **kw)
            vert = squares(shape, spacing, ff, xr, yr, angle, off)
            c.check(lay.filling_factor == ff, 'layout:filling_factor', f'{lay.filling_factor}')
        cen = grid(shape, spacing, xr, yr, angle, off)
        c.check(lay.unit == unit, 'layout:unit', f'{lay.unit!r} instead of {unit!r}')
        col, row = index % shape[1] + one, index // shape[1] + one
        c.equal(lay.column, col, 'layout:column')
        c.equal(lay.row, row, 'layout:row')
        allc = np.full(n, -1)
        allc[index] = col
        c.equal(np.asarray(lay.all.column).ravel()[index], col, 'layout:all.column')
        if ru is not None and (unit and ru):
            conv = METRE[ru] / METRE[unit]
            r = lay.radius
            c.close(np.asarray(r.tounit(unit) if hasattr(r, 'tounit') else r), np.full(np.shape(r), float(radius * conv)), 'layout:radius', rtol=1e-12)
    else:
        nv = c.int(3, 6)
        cen = real(c, -3, 3, shape + (2,))
        if cls == 'vertex':
            vert = real(c, -3, 3, shape + (nv, 2))
            cen = np.asarray(vert, LD).mean(-2)
            lay = Layout(shape, vertex=Quantity(vert, unit) if unit else vert, **kw)
        else:
            lay = Layout(shape, center=Quantity(cen, unit) if unit else cen, **kw)
    eps = 1e-12 * scale(cen, vert if vert is not None else 0, origin, np.asarray(origin, LD) * 1e3 if unit == 'mm' else 0)
    look(c, lay, index, shape, cen, vert, unit, eps, 'layout')
    # a part of the layout
    if len(index) and c.coin(0.6):
        i = c.choice([slice(None, None, -1), slice(0, len(index) // 2 + 1), c.rng.random(len(index)) < 0.5, c.rng.permutation(len(index))])
        part = lay[i]
        look(c, part, index[i], shape, cen, vert, unit, eps, 'layout part')
        if cls in ('grid', 'squares'):
            c.equal(part.column, index[i] % shape[1] + one, 'layout part:column')
            c.equal(part.row, index[i] // shape[1] + one, 'layout part:row')
        look(c, lay, index, shape, cen, vert, unit, eps, 'layout after part')
    if c.coin(0.3):
        parts = lay.split(c.int(1, 3))
        c.equal(np.concatenate([np.asarray(_.center).reshape(-1, 2) for _ in parts]) if parts else np.zeros((0, 2)), np.asarray(lay.center), 'layout split:center')


def look(c, lay, index, shape, cen, vert, unit, eps, key):
    c.equal(lay.index, index, key + ':index')
    flat = np.asarray(cen, LD).reshape(-1, 2)
    got = lay.center
    c.check(getattr(got, 'unit', '') == (unit or ''), key + ':center unit', lambda: f'{getattr(got, "unit", "")!r} instead of {unit!r}')
    c.close(got, flat[index].astype(float), key + ':center', rtol=1e-12, atol=eps)
    every = np.full(flat.shape, np.nan)
    every[index] = flat[index]
    c.close(lay.all.center, every.reshape(shape + (2,)), key + ':all.center', rtol=1e-12, atol=eps)
    if vert is not None:
        v = np.asarray(vert, LD).reshape((-1,) + vert.shape[-2:])
        got = lay.vertex
        c.check(getattr(got, 'unit', '') == (unit or ''), key + ':vertex unit', lambda: f'{getattr(got, "unit", "")!r}')
        c.close(got, v[index].astype(float), key + ':vertex', rtol=1e-12, atol=eps)
        c.check(lay.nvertices == v.shape[1], key + ':nvertices', f'{lay.nvertices}')


def refusals(c):
    from pysimulators import Layout, LayoutGrid, LayoutGridSquares, Quantity
    from pysimulators.geometry import create_rectangle, segment_polygon

    c.note(fn='refusals')
    c.raises(ValueError, lambda: Layout((2, 2)), 'refused:no position')
    c.raises(ValueError, lambda: LayoutGrid((4,), 1), 'refused:dimensions')
    c.raises(TypeError, lambda: LayoutGrid(4, 1), 'refused:shape')
    c.raises(ValueError, lambda: LayoutGrid((2, 2), 1, origin=(0, 0, 0)), 'refused:origin')
    c.raises(ValueError, lambda: Layout((2, 2), center=np.zeros((3, 2, 2))), 'refused:center')
    c.raises(Exception, lambda: LayoutGrid((2, 2), Quantity(1., 'm'), origin=Quantity([1, 2.], 'K')), 'refused:units')
    c.raises(Exception, lambda: LayoutGridSquares((2, 2), Quantity(1., 'm'), origin=Quantity([1, 2.], 'K')), 'refused:units')
    c.raises(ValueError, lambda: create_rectangle([1, 2, 3]), 'refused:rectangle')
    c.raises(ValueError, lambda: segment_polygon(np.zeros((2, 2, 2)), 1), 'refused:segment')


def run(ctx):
    ctx.each('grids', 400, 6000, grids)
    ctx.each('shapes', 600, 9000, shapes)
    ctx.each('rotations', 500, 8000, rotations)
    ctx.each('segments', 300, 5000, segments)
    ctx.each('surfaces', 400, 6000, surfaces)
    ctx.each('hulls', 300, 5000, hulls)
    ctx.each('layouts', 700, 10000, layouts)
    ctx.each('refusals', 3, 3, refusals)
