"""C21: what is handed to the plotting libraries, recorded by stand-ins of matplotlib and pyds9."""
import os
import sys
import types
from unittest import mock

import numpy as np

from harness.core import Skip

PROPERTY = 'C21'
RULE = 'what the stand-ins of the plotting libraries record is compared with the data to be displayed'

EVENTS = []


class Recorder:
    """Anything of a plotting library: records the calls of its attributes."""

    def __init__(self, path=''):
        self._path = path

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Recorder(f'{self._path}.{name}')

    def __call__(self, *args, **kw):
        r = topixel(*args) if self._path.endswith('.topixel') else Recorder(self._path + '()')
        EVENTS.append((self._path, [_freeze(a) for a in args], {k: _freeze(v) for k, v in kw.items()}, r))
        return r

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __float__(self):
        return 6.0

    def __mul__(self, other):
        return 6.0

    __rmul__ = __truediv__ = __rtruediv__ = __add__ = __radd__ = __mul__

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def __getitem__(self, key):
        return Recorder(f'{self._path}[]')


def _freeze(a):
    """What is handed may be modified afterwards."""
    if isinstance(a, np.ndarray):
        return np.array(a)
    if isinstance(a, (list, tuple)):
        return type(a)(_freeze(_) for _ in a)
    return a


class Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(Recorder(self.__name__), name)


def stubs(kapteyn, interactive):
    mods = {n: Stub(n) for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.patches', 'matplotlib.collections', 'matplotlib.figure',
                                 'matplotlib.cm', 'matplotlib.colors')}
    for n, m in mods.items():
        if '.' in n:
            setattr(mods['matplotlib'], n.split('.')[1], m)
    mods['matplotlib'].is_interactive = lambda: interactive
    if kapteyn:
        mods['kapteyn'], mods['kapteyn.maputils'] = Stub('kapteyn'), Stub('kapteyn.maputils')
        mods['kapteyn'].maputils = mods['kapteyn.maputils']
    else:
        mods['kapteyn'] = None
    return mods


def topixel(x, y):
    return 2 * np.asarray(x, float) + 1, np.asarray(y, float) - 3


def record(func, kapteyn=False, interactive=False):
    """The events of a call."""
    EVENTS.clear()
    with mock.patch.dict(sys.modules, stubs(kapteyn, interactive)):
        r = func()
    return r, list(EVENTS)


def named(events, *names):
    return [e for e in events if e[0].rsplit('.', 1)[-1] in names]


def values(c, shape, dt):
    dt = np.dtype(dt)
    if dt.kind == 'b':
        return c.rng.random(shape) < 0.5
    if dt.kind in 'iu':
        return c.rng.integers(0, 100, shape).astype(dt)
    x = c.rng.normal(size=shape) * 10
    if dt.kind == 'c':
        x = x + 1j * c.rng.normal(size=shape)
    x = x.astype(dt)
    if c.coin(0.5):
        x[c.rng.random(shape) < 0.2] = c.choice([np.nan, np.inf, -np.inf])
    return x


def image(c, events, x, invalid, lo, hi, kw):
    im = named(events, 'imshow', 'matshow', 'pcolormesh')
    if not c.check(len(im) == 1, 'one image', f'{len(im)} images'):
        return
    a, k = im[0][1], im[0][2]
    got = np.ma.filled(np.ma.asarray(a[0] if a else k['X']).astype(float), np.nan)
    valid = x[~invalid]
    vmin, vmax = np.percentile(valid, [lo, hi])
    want = np.where(invalid, np.nan, np.clip(np.where(invalid, 0, x).astype(float), vmin, vmax))
    eps = 1e-6 if x.dtype == np.float32 or x.dtype == np.complex64 else 1e-12
    c.close(got, want, 'image', rtol=eps, atol=eps * np.abs(valid).max())
    for name in ('interpolation', 'origin', 'cmap', 'aspect'):
        if name in kw:
            c.check(k.get(name) == kw[name], f'keyword {name}', f'{k.get(name)!r} instead of {kw[name]!r}')
    clim = [e[1] if len(e[1]) == 2 else [*e[1], *e[2].values()] for e in named(events, 'set_clim', 'clim')] or [[k.get('vmin'), k.get('vmax')]]
    lim = [float(_) for _ in np.ravel(clim[-1])]
    c.close(np.array(lim), np.array([vmin, vmax]), 'range', rtol=eps, atol=eps * np.abs(valid).max())


def imshow(c):
    from pysimulators import FitsArray, Map, Tod

    cls = c.choice([FitsArray, Map, Map, Tod])
    shape = (c.int(1, 5), c.int(1, 8))
    dt = c.choice(['f8', 'f8', 'f8', 'f4', '>f8', 'i4', 'i8', 'u1', 'c16', 'c8'])
    x = values(c, shape, dt)
    m = None
    kw, attrs = {}, {}
    attached = np.zeros(shape, bool)
    if cls is Map and c.coin(0.5):
        attrs['coverage'] = c.choice([np.array([-1.0, 0, 0.5, 2]), np.array([0.5, 2])])[c.rng.integers(0, 2, shape)]
        attached = attrs['coverage'] <= 0
    if cls is Map and c.coin(0.5):
        attrs['origin'] = c.choice(['lower', 'upper'])
    if cls is Tod and c.coin(0.6):
        attrs['mask'] = c.rng.random(shape) < 0.3
        attached = attrs['mask']
    if c.coin(0.3):
        attrs['unit'] = 'Jy'
    obj = cls(x, dtype=x.dtype, **attrs)
    if c.coin(0.4):
        m = c.rng.random(shape) < 0.3
        kw['mask'] = m.copy() if c.coin() else m.tolist()
    if c.coin(0.5):
        p = c.choice([0, 2, 10, 50, (5, 95), (0, 50), (25.5, 80), [10, 20]])
        kw['percentile'] = p
    else:
        p = 0
    for name, vals in (('title', ['a title']), ('interpolation', ['bilinear', 'nearest']), ('origin', ['lower', 'upper']), ('cmap', ['hot']),
                       ('colorbar', [True, False]), ('new_figure', [True, False]), ('aspect', ['equal']), ('xlabel', ['x axis']), ('ylabel', ['y axis'])):
        if c.coin(0.3):
            kw[name] = c.choice(vals)
    save = c.coin(0.25)
    if save:
        kw.pop('new_figure', None)
    c.note(cls=cls.__name__, shape=shape, dt=dt, attrs=list(attrs), kw={k: str(v)[:30] for k, v in kw.items()}, save=save)
    lo, hi = (p / 2, 100 - p / 2) if np.isscalar(p) else p
    y = np.abs(x) if x.dtype.kind == 'c' else x
    invalid = (attached if m is None else m) | ~np.isfinite(x)
    if invalid.all():
        raise Skip
    before = [np.array(obj)] + [np.array(v) for v in (attrs.get('coverage'), attrs.get('mask')) if v is not None]
    if save:
        interactive = c.coin()
        _, events = record(lambda: obj.imsave('x.png', **kw), interactive=interactive)
        f = named(events, 'savefig')
        c.check(len(f) == 1 and str((f[0][1] + [f[0][2].get('fname')])[0]) == 'x.png', 'file', f'{f}')
    else:
        _, events = record(lambda: obj.imshow(**kw))
    expected = dict(kw)
    if cls is Map:
        expected.setdefault('origin', attrs.get('origin', 'lower'))
    elif cls is Tod:
        expected.setdefault('origin', 'upper')
        expected.setdefault('aspect', 'auto')
    expected.setdefault('interpolation', 'nearest')
    image(c, events, y, invalid, lo, hi, expected)
    after = [np.array(obj)] + [np.array(v) for v in (getattr(obj, 'coverage', None), getattr(obj, 'mask', None)) if v is not None]
    c.check(len(before) == len(after) and all(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc') for a, b in zip(before, after)), 'unmodified')
    titles = [str(_) for e in named(events, 'title', 'set_title', 'suptitle') for _ in (*e[1], *e[2].values())]
    c.check(('a title' in titles) == ('title' in kw) and not (titles and 'title' not in kw), 'title', f'{titles}')
    for name in 'xlabel', 'ylabel':
        if name in kw:
            labels = [str(_) for e in named(events, name, 'set_' + name) for _ in (*e[1], *e[2].values())]
            c.check(kw[name] in labels, name, f'{labels}')
    bars = len(named(events, 'colorbar', 'Colorbar'))
    if 'colorbar' in kw:
        c.check(bars == int(kw['colorbar']), 'colorbar', f'{bars}')
    figures = len(named(events, 'figure', 'subplots'))
    if save:
        c.check(figures == 1, 'one figure', f'{figures}')
        states = [e[1][0] for e in named(events, 'interactive')] + ['ion' == e[0][-3:] for e in named(events, 'ion', 'ioff')]
        c.check(not states or states[-1] == interactive and False in states, 'interactive', f'{states}')
    elif 'new_figure' in kw:
        c.check(figures == int(kw['new_figure']), 'new figure', f'{figures}')


def tods(c):
    from pysimulators import Tod
    from pysimulators.datautils import plot_tod

    shape = c.choice([(c.int(1, 3), c.int(1, 9)), (c.int(1, 9),), (2, 2, c.int(1, 5))])
    x = c.rng.normal(size=shape)
    if c.coin(0.5):
        x[c.rng.random(shape) < 0.3] = c.choice([np.nan, np.inf])
    mask = c.rng.random(shape) < 0.3 if c.coin(0.7) else None
    how = c.choice(['attribute', 'keyword', 'array'])
    unit = c.choice([None, 'Jy'])
    if how == 'array':
        t = x.copy()
    else:
        t = Tod(x, unit=unit, mask=mask if how == 'attribute' else None)
    kw = {} if how == 'attribute' or mask is None else dict(mask=mask)
    c.note(shape=shape, how=how, masked=mask is not None)
    _, events = record(lambda: plot_tod(t, **kw))
    nd = int(np.prod(shape[:-1]))
    x2 = x.reshape(nd, -1)
    m2 = None if mask is None else mask.reshape(nd, -1)
    plots = named(events, 'plot')
    if m2 is not None and m2.all():
        c.check(not plots, 'nothing to plot')
        return
    lines = [np.ravel(np.asarray(e[1][-1], float)) for e in plots if not any(isinstance(_, str) for _ in e[1])]
    c.check(len(lines) == nd and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(lines, x2)), 'timelines', f'{lines}')
    if m2 is not None:
        dots = [(np.ravel(np.asarray(e[1][0])), np.ravel(np.asarray(e[1][1], float))) for e in plots if any(isinstance(_, str) for _ in e[1])]
        dots = [d for d in dots if d[0].size]
        want = [(np.where(m)[0], v[m]) for v, m in zip(x2, m2) if m.any()]
        c.check(len(dots) == len(want) and all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1], equal_nan=True) for a, b in zip(dots, want)), 'masked samples',
                f'{dots} instead of {want}')
    c.check(np.array_equal(np.asarray(t), x, equal_nan=True), 'unmodified')
    if unit and how != 'array':
        c.check(any('Jy' in str(a) for e in named(events, 'ylabel', 'set_ylabel') for a in e[1]), 'unit')


def layouts(c):
    from pysimulators import Instrument, Layout, LayoutGrid, LayoutGridSquares

    kind = c.choice(['points', 'grid', 'circles', 'squares'])
    shape = (c.int(1, 4), c.int(1, 4))
    selection = c.rng.random(shape) < 0.7 if c.coin(0.6) else None
    if selection is not None and not selection.any():
        raise Skip
    kw = dict(selection=selection) if selection is not None else {}
    keep = np.ones(shape, bool) if selection is None else selection
    kw_grid = dict(kw, angle=c.choice([0, 30.0]), origin=c.choice([(0, 0), (1, 2)]))
    radius = None
    if kind == 'points':
        center = c.rng.normal(size=shape + (c.choice([2, 3]),))
        lay = Layout(shape, center=center, **kw)
        want = center[keep][:, :2]
    elif kind == 'circles':
        radius = c.choice([0.5, c.rng.uniform(0.1, 1, shape)])
        lay = LayoutGrid(shape, 1.5, radius=radius, **kw_grid)
        radius = np.broadcast_to(radius, shape)[keep]
    elif kind == 'grid':
        lay = LayoutGrid(shape, 1.5, **kw_grid)
        want = np.array(lay.center)
    else:
        lay = LayoutGridSquares(shape, 1.5, **kw_grid)
        want = np.array(lay.vertex)
    tr = c.choice([None, lambda v: 2 * np.asarray(v) + [1, -1]])
    pk = {}
    if c.coin(0.4):
        pk['autoscale'] = c.coin()
    if tr:
        pk['transform'] = tr
    poly = kind in ('circles', 'squares')
    fc = ec = None
    if poly:
        n = len(lay)
        colors = [None, 'red', (0.5, 0.25, 1.0), ['red', 'blue', 'green', 'black'][:1] * n, [['red', 'blue', 'green', 'black'][i % 4] for i in range(n)]]
        if c.coin(0.5):
            fc = pk['facecolor'] = c.choice(colors)
        if c.coin(0.5):
            ec = pk['edgecolor'] = c.choice(colors)
        if c.coin(0.3):
            pk['linewidth'] = 3
        if c.coin(0.3):
            pk['fill'] = c.coin()
    else:
        for k, v in ('color', 'red'), ('marker', '+'), ('linestyle', '-'), ('markersize', 4):
            if c.coin(0.2):
                pk[k] = v
    what = Instrument(lay) if c.coin(0.3) else lay
    c.note(kind=kind, shape=shape, n=len(lay), kw=sorted(pk), fc=str(fc), ec=str(ec))
    _, events = record(lambda: what.plot(**pk))
    if not poly:
        plots = named(events, 'plot', 'scatter')
        if not c.check(len(plots) == 1, 'one plot', f'{len(plots)}'):
            return
        got = np.stack([np.asarray(_, float) for _ in plots[0][1][:2]], axis=-1)
        c.close(got, want if tr is None else tr(want), 'centers', rtol=1e-14, atol=1e-14)
        given = plots[0][2]
        c.check(all(given.get(k) == pk[k] for k in ('color', 'marker', 'linestyle', 'markersize') if k in pk), 'style', f'{given}')
        if plots[0][0].rsplit('.', 1)[-1] == 'plot' and len(plots[0][1]) == 2:
            c.check(given.get('marker') not in (None, '', ' ', 'None', ','), 'markers', f'{given}')
            c.check(given.get('linestyle', given.get('ls')) in (pk['linestyle'],) if 'linestyle' in pk else
                    given.get('linestyle', given.get('ls')) in ('', ' ', 'None', 'none'), 'the detectors are not joined', f'{given}')
            if 'autoscale' in pk:
                c.check(given.get('scalex') is pk['autoscale'] and given.get('scaley') is pk['autoscale'], 'autoscale', f'{given}')
        return
    polys = named(events, 'Polygon')
    n = len(lay)
    if not c.check(len(polys) == n, 'one polygon per detector', f'{len(polys)} polygons, {n} detectors'):
        return
    added = [e for e in events if e[0].rsplit('.', 1)[-1] in ('add_patch', 'add_artist')]
    c.check(len(added) == n and all(a[1][0] is p[3] for a, p in zip(added, polys)) or bool(named(events, 'add_collection')), 'added to the axes')
    for i, p in enumerate(polys):
        v = np.asarray(p[1][0] if p[1] else p[2]['xy'], float)
        if kind == 'squares':
            c.close(v, want[i] if tr is None else tr(want[i]), 'outline', rtol=1e-14, atol=1e-14)
        else:
            if tr is not None:
                v = (v - [1, -1]) / 2
            c.close(np.hypot(*(v - np.asarray(lay.center)[i]).T), np.full(len(v), radius[i]), 'outline', rtol=1e-12, atol=1e-12)
            c.check(len(v) >= 8, 'round', f'{len(v)} vertices')
        for name, col in (('facecolor', fc), ('edgecolor', ec)):
            w = col[i] if isinstance(col, list) else col
            c.check(p[2].get(name) == w, name, f'{p[2].get(name)} instead of {w}')
        if 'fill' in pk:
            c.check(p[2].get('fill') is pk['fill'], 'filled', f'{p[2]}')
        elif fc is not None:
            c.check(p[2].get('fill') is True, 'filled', f'{p[2]}')
        else:
            c.check(not p[2].get('fill'), 'not filled', f'{p[2]}')
        c.check(p[2].get('closed', True) is True, 'closed', f'{p[2]}')
    auto = named(events, 'autoscale_view')
    c.check(bool(auto) == pk.get('autoscale', True), 'autoscale', f'{len(auto)}')
    for p in polys:
        if 'linewidth' in pk:
            c.check(p[2].get('linewidth') == 3, 'linewidth')


def ds9(c):
    import pysimulators as ps
    from pysimulators import FitsArray, Map

    shape = (c.int(1, 4), c.int(1, 4))
    x = values(c, shape, c.choice(['f8', 'f4', 'i4', 'i2', 'i8', 'b']))
    m = c.choice([FitsArray, Map])(x, dtype=x.dtype)
    wcs = c.coin()
    if wcs:
        m.header = ps.create_fitsheader(shape[::-1], cdelt=0.1, crval=(3, 4))
    commands, sets, arrays, ids = [], [], [], []
    targets = c.choice([None, ['ds9_old1', 'ds9_old2']])

    class DS9:
        def __init__(self, id):
            ids.append(id)

        def set_np2arr(self, a):
            arrays.append(np.array(a))

        def set(self, *args):
            sets.append(args)

    pyds9, xpa = types.ModuleType('pyds9'), types.ModuleType('xpa')
    pyds9.DS9 = DS9
    pyds9.ds9_targets = lambda *args: targets
    xpa.xpaaccess = lambda *args: ['x']
    kw = {}
    if c.coin():
        kw['new'] = c.coin()
    if c.coin():
        kw['xpamsg'] = c.choice(['zoom to fit', ('zoom to fit', 'saveimage png a.png')])
    if c.coin():
        kw['height'] = 400
    c.note(shape=shape, kw=kw, targets=targets, wcs=wcs, dt=x.dtype.str)
    with mock.patch.dict(sys.modules, pyds9=pyds9, xpa=xpa), mock.patch.object(os, 'system', commands.append):
        m.ds9(**kw)
    reuse = kw.get('new') is False and targets is not None
    if reuse:
        c.check(not commands and ids == ['ds9_old2'], 'reused', f'{commands} {ids}')
    else:
        c.check(len(commands) == 1 and commands[0].startswith('ds9 ') and len(ids) == 1 and ids[0] in commands[0], 'command', f'{commands} {ids}')
        if 'height' in kw:
            c.check(' -height 400' in commands[0], 'command', f'{commands}')
    c.check(len(arrays) == 1 and np.array_equal(arrays[0].T, x, equal_nan=x.dtype.kind == 'f'), 'array', f'{arrays}')
    if wcs:
        c.check(sets[:1] == [('wcs append', str(m.header))], 'wcs')
    if 'xpamsg' in kw:
        msg = kw['xpamsg']
        msg = [msg] if isinstance(msg, str) else list(msg)
        c.check([_[0] for _ in sets[-len(msg):]] == msg, 'messages', f'{sets}')


def imager(c):
    from pyoperators import DiagonalOperator, HomothetyOperator, Rotation2dOperator
    from pysimulators import Imager, Layout

    n = c.int(1, 6)
    op = c.choice([HomothetyOperator(c.choice([2.0, -0.5])), Rotation2dOperator(c.rng.uniform(0, 360), degrees=True),
                   DiagonalOperator(c.rng.uniform(1, 3, 2), broadcast="leftward")])
    lay = Layout((n,), center=c.rng.normal(size=(n, 2)))
    name = c.choice(['object2image', 'image2object'])
    other = {'object2image': 'image2object', 'image2object': 'object2image'}[name]
    c.note(op=str(type(op)), name=name, n=n)
    im = Imager('name', lay, **{name: op})
    x = c.rng.normal(size=(n, 2))
    y = op(x)
    c.close(getattr(im, name)(x), y, 'transform', rtol=1e-12, atol=1e-12)
    c.close(getattr(im, other)(y), x, 'inverse', rtol=1e-12, atol=1e-12)
    c.check(im.name == 'name' and len(im) == n, 'instrument')
    sub = im[:1]
    c.check(isinstance(sub, Imager) and len(sub) == 1, 'selection')
    c.close(getattr(sub, other)(y), x, 'inverse', rtol=1e-12, atol=1e-12)
    c.raises(ValueError, lambda: Imager('name', lay), 'no transform')


def scans(c):
    import pysimulators as ps

    # the map
    shape = (c.int(1, 4), c.int(2, 5))
    x = values(c, shape, c.choice(['f8', 'f4', 'i4', 'c16']))
    invalid = ~np.isfinite(x)
    attrs, kw = {}, {}
    if c.coin():
        attrs['coverage'] = c.choice([np.array([-1.0, 0, 0.5, 2]), np.array([0.5, 2])])[c.rng.integers(0, 2, shape)]
        invalid = invalid | (attrs['coverage'] <= 0)
    if invalid.all():
        raise Skip
    header = ps.create_fitsheader(shape[::-1], cdelt=0.1, crval=(3, 4))
    other = ps.create_fitsheader(shape[::-1], cdelt=0.2, crval=(7, 4))
    how = c.choice(['map', 'map and header', 'header', 'array and header'])
    m = x
    if how.startswith('map'):
        m = ps.Map(x, header=header, dtype=x.dtype, **attrs)
    elif 'coverage' in attrs:
        invalid = ~np.isfinite(x)
    if how != 'header':
        kw['map'] = m
    if how != 'map':
        kw['header'] = other
    if c.coin():
        p = kw['percentile'] = c.choice([0, 10, (5, 95)])
    else:
        p = 0.01
    lo, hi = (p / 2, 100 - p / 2) if np.isscalar(p) else p
    for name, vals in (('title', ['a title']), ('new_figure', [True, False]), ('linewidth', [1, 4])):
        if c.coin(0.3):
            kw[name] = c.choice(vals)

    # the scan
    n = c.int(1, 6)
    dt = c.choice(['f8', 'f8', 'f4', 'i4'])
    ra, dec = c.rng.integers(0, 360, n).astype(dt), c.rng.integers(-89, 90, n).astype(dt)
    masked = None
    kws = {}
    if c.coin(0.6):
        masked = kws['masked'] = c.rng.random(n) < 0.5
    const = c.coin(0.2) and n > 1
    if const:
        dec[:] = dec[0]
    s = ps.SamplingEquatorial(ra, dec[0] if const else dec, **kws)
    target = s
    if c.coin(0.3):
        target = ps.Acquisition(ps.Instrument(ps.Layout((2,), center=np.zeros((2, 2)))), s, ps.Scene((3,)))
    only = c.coin(0.2) and how.startswith('map')
    c.note(shape=shape, how=how, dt=x.dtype.str, kw=[k for k in kw if k not in ('map', 'header')], n=n, sdt=dt, masked=masked is not None,
           acquisition=target is not s, imshow=only)
    if masked is not None and masked.all() and not only:
        if kw.get('new_figure', True):
            c.raises(ValueError, lambda: record(lambda: target.plot(**kw), True), 'no valid pointing')
        else:
            _, events = record(lambda: target.plot(**kw), True)
            c.check(not named(events, 'plot'), 'no valid pointing', f'{events}')
        return
    before = np.array(x)
    if only:
        if 'map' not in kw or how != 'map':
            raise Skip
        kw.pop('linewidth', None)
        kw = {k: v for k, v in kw.items() if k not in ('map', 'header')}
        if 'percentile' not in kw:
            lo, hi = 0, 100
        _, events = record(lambda: m.imshow(**kw), True)
    else:
        _, events = record(lambda: target.plot(**kw), True)
    # the background
    images = named(events, 'FITSimage')
    if not c.check(len(images) == 1, 'one image', f'{len(images)} images'):
        return
    k = images[0][2]
    want = header if how == 'map' else other
    c.check(all(k['externalheader'][_] == want[_] for _ in ('CRVAL1', 'CD1_1', 'CRPIX1', 'NAXIS1')), 'header', f'{k["externalheader"]}')
    if how == 'header':
        c.check(k.get('externaldata') is None, 'no background')
    elif c.check('externaldata' in k, 'background'):
        y = np.abs(x) if x.dtype.kind == 'c' else x
        vmin, vmax = np.percentile(y[~invalid], [lo, hi])
        eps = 1e-6 if x.dtype == np.float32 else 1e-12
        c.close(np.asarray(k['externaldata'], float), np.where(invalid, np.nan, np.clip(np.where(invalid, 0, y).astype(float), vmin, vmax)), 'background',
                rtol=eps, atol=eps * np.abs(y[~invalid]).max())
    if 'title' in kw:
        c.check(any('a title' in [str(_) for _ in (*e[1], *e[2].values())] for e in events), 'title')
    c.check(np.array_equal(np.asarray(m), before, equal_nan=x.dtype.kind in 'fc'), 'unmodified')
    if only:
        return
    # the scan
    plots = [e for e in named(events, 'plot') if len(e[1]) >= 2]
    lines = [e for e in plots if len(e[1]) == 2]
    dots = [e for e in plots if len(e[1]) == 3]
    good = np.ones(n, bool) if masked is None else ~masked
    wx, wy = (np.where(good, _, np.nan) for _ in topixel(ra, dec))
    if c.check(len(lines) == 1, 'one line', f'{plots}'):
        c.close(np.asarray(lines[0][1][0], float), wx, 'line', rtol=1e-6)
        c.close(np.asarray(lines[0][1][1], float), wy, 'line', rtol=1e-6)
        c.check(lines[0][2].get('linewidth') == kw.get('linewidth', 2), 'linewidth', f'{lines[0][2]}')
    first = np.argmax(good)
    c.check(len(dots) == 1 and (float(dots[0][1][0]), float(dots[0][1][1])) == (wx[first], wy[first]), 'first sample', f'{dots}')
    c.check(np.array_equal(s.ra, ra) and np.array_equal(s.dec, dec[0] if const else dec) and (masked is None or np.array_equal(s.masked, masked)), 'unmodified')


def run(ctx):
    ctx.each('scans', 150, 1500, scans)
    ctx.each('imshow', 400, 5000, imshow)
    ctx.each('tods', 120, 1000, tods)
    ctx.each('layouts', 200, 2000, layouts)
    ctx.each('ds9', 60, 400, ds9)
    ctx.each('imager', 80, 500, imager)
