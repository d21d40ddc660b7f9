"""What is drawn: recorder for symbolic runs, matplotlib for concrete runs."""
import contextlib
from unittest import mock
import matplotlib
matplotlib.use('agg')
import matplotlib.figure  # noqa
import matplotlib.pyplot as plt  # noqa
from matplotlib.collections import PolyCollection  # noqa
from matplotlib.colors import to_rgba  # noqa
import numpy as np  # noqa
from symrf import array as A  # noqa


def same_color(a, b):
    return tuple(to_rgba(a)) == tuple(to_rgba(b))


class Noop(object):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self

    def __call__(self, *args, **kw):
        return self

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        return self


def limits(old, a, b):
    if b is None and np.ndim(A.objarr(a)):
        a, b = a
    old = old or (0., 1.)
    return old[0] if a is None else a, old[1] if b is None else b


def vec(x):
    return list(x) if np.ndim(A.objarr(x)) else [x]


class View(object):
    """one axes: lines (x, y), fills (dict), bars (left, width, bottom,
    height), points, labels, limits and ticks"""

    def __init__(self):
        self.lines, self.fills, self.bars = [], [], []
        self.points, self.shapes, self.texts = [], [], []
        self.xlabel = self.ylabel = self.title = ''
        self.xlim = self.ylim = None
        self.ticks = {}
        self.x0 = self.y0 = 0.


class Axis(object):
    def __init__(self, view, key):
        self.view, self.key = view, key

    def set_major_locator(self, loc):
        if isinstance(loc, Fixed):
            self.view.ticks[self.key] = list(loc.values)

    def set_major_formatter(self, fmt):
        if isinstance(fmt, Fixed):
            self.view.ticks[self.key + 'labels'] = list(fmt.values)

    def __getattr__(self, name):
        return Noop()


class Fixed(object):
    """fixed locator and formatter"""

    def __init__(self, values, *args):
        self.values = values

    def __getattr__(self, name):
        return Noop()


class FakeAxes(object):
    def __init__(self, x0=0., y0=0.):
        self.view = View()
        self.view.x0, self.view.y0 = x0, y0
        self.xaxis, self.yaxis = Axis(self.view, 'x'), Axis(self.view, 'y')
        self.spines = Noop()
        self.transAxes = self.transData = Noop()

    def plot(self, x, y=None, fmt='', **kw):
        if y is None or isinstance(y, str):
            x, y, fmt = list(range(len(x))), x, y
        self.view.lines.append((vec(x), vec(y)))
        return [Noop()]

    def fill_between(self, x, y1, y2=0, where=None, **kw):
        self.fill('x', x, y1, y2, where, kw)

    def fill_betweenx(self, y, x1, x2=0, where=None, **kw):
        self.fill('y', y, x1, x2, where, kw)

    def fill(self, along, t, c1, c2, where, kw):
        n = len(t)

        def full(c):
            return list(c) if np.ndim(A.objarr(c)) else [c] * n
        self.view.fills.append(dict(
            along=along, t=list(t), c1=full(c1), c2=full(c2),
            where=[True] * n if where is None else list(where),
            color=kw.get('facecolor', kw.get('color', kw.get('fc')))))

    def bar(self, x, height, width=.8, bottom=0, align='center', **kw):
        x = vec(x)
        n = len(x)

        def full(c):
            return list(c) if np.ndim(A.objarr(c)) else [c] * n
        for a, h, w, b in zip(x, full(height), full(width), full(bottom)):
            self.view.bars.append((a - w / 2 if align == 'center' else a, w,
                                   b, h))

    def scatter(self, x, y, **kw):
        self.view.points.extend(zip(vec(x), vec(y)))

    def add_geometries(self, geoms, crs=None, **kw):
        self.view.shapes.extend(geoms)

    def annotate(self, text, xy, **kw):
        self.view.texts.append((text, tuple(xy)))

    def set_xlabel(self, xlabel, **kw):
        self.view.xlabel = xlabel

    def set_ylabel(self, ylabel, **kw):
        self.view.ylabel = ylabel

    def set_title(self, label, **kw):
        self.view.title = label

    def set_xlim(self, left=None, right=None, **kw):
        self.view.xlim = limits(self.view.xlim, left, right)

    def set_ylim(self, bottom=None, top=None, **kw):
        self.view.ylim = limits(self.view.ylim, bottom, top)

    def ticks(self, key, ticks, labels=None, minor=False, **kw):
        if not minor:
            self.view.ticks[key] = vec(ticks)
            if labels is not None:
                self.ticklabels(key, labels)

    def set_xticks(self, ticks, labels=None, **kw):
        self.ticks('x', ticks, labels, **kw)

    def set_yticks(self, ticks, labels=None, **kw):
        self.ticks('y', ticks, labels, **kw)

    def ticklabels(self, key, labels, minor=False, **kw):
        if not minor:
            self.view.ticks[key + 'labels'] = list(labels)

    def set_xticklabels(self, labels, **kw):
        self.ticklabels('x', labels, **kw)

    def set_yticklabels(self, labels, **kw):
        self.ticklabels('y', labels, **kw)

    def get_xlim(self):
        return self.view.xlim or (0., 1.)

    def get_ylim(self):
        return self.view.ylim or (0., 1.)

    def set(self, **kw):
        for k, v in kw.items():
            getattr(self, 'set_' + k)(v)

    def get_xticklabels(self, *args, **kw):
        return []

    get_yticklabels = get_xticklabels

    def twin(self):
        ax = FakeAxes(self.view.x0, self.view.y0)
        ax.figure = self.figure
        self.figure.axes.append(ax)
        return ax

    twinx = twiny = twin

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Noop()


class Grid(object):
    def __init__(self, n, m):
        self.n, self.m = n, m

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else divmod(k, self.m)
        k = [v.start or 0 if isinstance(v, slice) else v for v in k]
        return k[1] / self.m, 1 - k[0] / self.n


class FakeFigure(object):
    def __init__(self, canvas):
        self.axes, self.canvas_, self.open = [], canvas, True

    def new(self, x0, y0):
        ax = FakeAxes(x0, y0)
        ax.figure = self
        self.axes.append(ax)
        return ax

    def add_axes(self, rect, **kw):
        return self.new(rect[0], rect[1])

    def add_gridspec(self, n=1, m=1, **kw):
        return Grid(n, m)

    def add_subplot(self, *args, **kw):
        if len(args) == 1 and isinstance(args[0], tuple):
            return self.new(*args[0])
        if len(args) == 1:
            args = [int(i) for i in str(args[0])]
        n, m, i = args or (1, 1, 1)
        return self.new(*Grid(n, m)[i - 1])

    def subplots(self, n=1, m=1, **kw):
        g = Grid(n, m)
        axs = [self.new(*g[i]) for i in range(n * m)]
        if len(axs) == 1:
            return axs[0]
        axs = np.array(axs, dtype=object)
        return axs if 1 in (n, m) else axs.reshape(n, m)

    def savefig(self, fname, **kw):
        self.canvas_.saved.append((self, fname))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Noop()


class FakePlt(object):
    def __init__(self, canvas):
        self.canvas_ = canvas

    def figure(self, *args, **kw):
        fig = FakeFigure(self.canvas_)
        self.canvas_.figs.append(fig)
        return fig

    def subplots(self, n=1, m=1, **kw):
        fig = self.figure()
        return fig, fig.subplots(n, m)

    def axes(self, *args, projection=None, **kw):
        ax = self.figure().new(0., 0.)
        ax.projection = projection
        return ax

    def close(self, fig=None):
        for f in self.canvas_.figs:
            if fig in (None, 'all', f):
                f.open = False

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Noop()


class FakeCRS(object):
    def __init__(self, central_longitude=0., central_latitude=0., *args,
                 **kw):
        self.centre = central_latitude, central_longitude


class Canvas(object):
    """figures created in a plotting function"""

    def __init__(self, sym):
        self.sym = sym
        self.figs = []
        self.saved = []

    def geoaxes(self, latlon):
        if self.sym:
            return FakeAxes()
        from cartopy.crs import AzimuthalEquidistant
        return plt.axes(projection=AzimuthalEquidistant(latlon[1], latlon[0]))

    def crs(self, latlon):
        if self.sym:
            return FakeCRS(latlon[1], latlon[0])
        from cartopy.crs import AzimuthalEquidistant
        return AzimuthalEquidistant(latlon[1], latlon[0])

    def centre(self, ax):
        """latitude and longitude of the centre of the projection"""
        crs = ax.projection
        if self.sym:
            return crs.centre
        return crs.proj4_params['lat_0'], crs.proj4_params['lon_0']

    def is_open(self, fig):
        return fig.open if self.sym else plt.fignum_exists(fig.number)

    def views(self, fig):
        if self.sym:
            return [ax.view for ax in fig.axes]
        fig.canvas.draw()
        return [extract(ax) for ax in fig.axes]

    def view(self, ax):
        return ax.view if self.sym else extract(ax)


def extract(ax):
    v = View()
    v.lines = [(list(map(float, ln.get_xdata())),
                list(map(float, ln.get_ydata()))) for ln in ax.lines]
    for c in ax.collections:
        if isinstance(c, PolyCollection):
            v.fills.append(dict(
                color=tuple(c.get_facecolor()[0]) if len(c.get_facecolor())
                else None,
                paths=[np.array(p.vertices) for p in c.get_paths()]))
        elif not hasattr(c, '_feature'):
            v.points.extend(tuple(map(float, p)) for p in c.get_offsets())
    v.texts = [(t.get_text(), tuple(map(float, t.xy))) for t in ax.texts]
    v.shapes = [g for a in ax.get_children() if hasattr(a, '_feature')
                for g in a._feature.geometries()]
    v.bars = [(p.get_x(), p.get_width(), p.get_y(), p.get_height())
              for p in ax.patches]
    v.xlabel, v.ylabel = ax.get_xlabel(), ax.get_ylabel()
    v.title = ax.get_title()
    v.xlim, v.ylim = ax.get_xlim(), ax.get_ylim()
    pos = ax.get_position()
    v.x0, v.y0 = pos.x0, pos.y0
    for k in 'xy':
        axis = getattr(ax, k + 'axis')
        v.ticks[k] = list(map(float, axis.get_majorticklocs()))
        v.ticks[k + 'labels'] = [
            t.get_text() for t in axis.get_majorticklabels()]
    return v


@contextlib.contextmanager
def drawing(ctx):
    """replace matplotlib by a recorder in symbolic runs"""
    import rf.imaging
    canvas = Canvas(ctx.sym)
    stubs = []
    if ctx.sym:
        stubs = [('plt', FakePlt(canvas)), ('FixedLocator', Fixed),
                 ('FixedFormatter', Fixed), ('__pc', Noop)]
    with contextlib.ExitStack() as stack:
        for name, new in stubs:
            if hasattr(rf.imaging, name):
                stack.enter_context(mock.patch.object(rf.imaging, name, new))
        if ctx.sym:
            import cartopy.crs
            stack.enter_context(mock.patch.object(
                cartopy.crs, 'AzimuthalEquidistant', FakeCRS))
            if hasattr(rf.imaging, 'AzimuthalEquidistant'):
                stack.enter_context(mock.patch.object(
                    rf.imaging, 'AzimuthalEquidistant', FakeCRS))
        else:
            def savefig(self, fname, *args, **kw):
                canvas.saved.append((self, fname))
            stack.enter_context(mock.patch.object(
                matplotlib.figure.Figure, 'savefig', savefig))
            canvas.figs_before = plt.get_fignums()
        try:
            yield canvas
        finally:
            plt.close('all')
