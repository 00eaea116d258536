"""records what the figures of the code show, at the coordinates of their axes, instead of writing them"""
import contextlib
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.collections import LineCollection, PathCollection, QuadMesh  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402
from vpbt.laws import runcfg  # noqa: E402


def _index(edges, x):
    """cell of x; the edges may run upwards or downwards"""
    e = np.asarray(edges, float)
    if e[-1] < e[0]:
        return len(e) - 2 - int(np.searchsorted(e[::-1], x, side='right') - 1)
    return int(np.searchsorted(e, x, side='right') - 1)


class Map:
    """a drawn matrix: value at coordinates"""

    def __init__(self, xe, ye, z):
        self.xe, self.ye, self.z = np.asarray(xe, float), np.asarray(ye, float), np.asarray(z)

    def inside(self, x, y):
        eps = 1e-9
        return min(self.xe[0], self.xe[-1]) - eps <= x <= max(self.xe[0], self.xe[-1]) + eps and min(self.ye[0], self.ye[-1]) - eps <= y <= max(self.ye[0], self.ye[-1]) + eps

    def at(self, x, y):
        i = np.clip(_index(self.xe, x), 0, len(self.xe) - 2)
        j = np.clip(_index(self.ye, y), 0, len(self.ye) - 2)
        return self.z[j, i]


class Ax:
    def __init__(self, a):
        self.title, self.xlabel, self.ylabel = a.get_title(), a.get_xlabel(), a.get_ylabel()
        self.xlim, self.ylim = sorted(a.get_xlim()), sorted(a.get_ylim())
        self.colorbar = hasattr(a, '_colorbar')
        self.lines = [(np.asarray(x.get_xdata(orig=True)), np.asarray(x.get_ydata(orig=True)), str(x.get_label())) for x in a.get_lines()]
        self.legend = [t.get_text() for t in a.get_legend().get_texts()] if a.get_legend() is not None else []
        self.ticks = np.asarray(a.get_xticks(), float)
        self.ticklabels = [t.get_text() for t in a.get_xticklabels()]
        self.maps, self.points, self.segments = [], [], []
        for c in a.collections:
            if isinstance(c, QuadMesh):
                xy = np.asarray(c.get_coordinates())
                z = np.ma.getdata(c.get_array()).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
                self.maps.append(Map(xy[0, :, 0], xy[:, 0, 1], np.array(z)))
            elif isinstance(c, PathCollection):
                self.points.append(np.array(c.get_offsets()))
            elif isinstance(c, LineCollection):
                self.segments += [np.array(s) for s in c.get_segments()]
        for im in a.get_images():
            z = np.array(np.ma.getdata(im.get_array()))
            if z.ndim != 2:
                continue
            x0, x1, y0, y1 = im.get_extent()
            if im.origin == 'upper':
                z = z[::-1] if y0 < y1 else z
                y0, y1 = (y0, y1) if y0 < y1 else (y0, y1)
            self.maps.append(Map(np.linspace(x0, x1, z.shape[1] + 1), np.linspace(y0, y1, z.shape[0] + 1), z))

    def visible(self, x, y):
        eps = 1e-9
        return self.xlim[0] - eps <= x <= self.xlim[1] + eps and self.ylim[0] - eps <= y <= self.ylim[1] + eps


class Fig:
    def __init__(self, fig, path):
        fig.canvas.draw_idle()
        self.path = str(path)
        self.name = self.path.rstrip('/').split('/')[-1]
        self.all = [Ax(a) for a in fig.axes]
        self.axes = [a for a, r in zip(self.all, fig.axes) if not getattr(r, '_vp_colorbar', False) and not a.colorbar]
        self.suptitle = fig._suptitle.get_text() if getattr(fig, '_suptitle', None) is not None else ''


@contextlib.contextmanager
def record():
    """figures that are saved (or shown) are recorded in a list instead of written"""
    out, old = [], []

    def put(o, k, v):
        old.append((o, k, getattr(o, k)))
        setattr(o, k, v)

    def save(fig, path, *a, **k):
        out.append(Fig(fig, path))
    plt.close('all')
    put(plt, 'savefig', lambda path, *a, **k: save(plt.gcf(), path))
    put(Figure, 'savefig', lambda self, path, *a, **k: save(self, path))
    put(plt, 'show', lambda *a, **k: None)
    put(plt, 'tight_layout', lambda *a, **k: None)
    put(Figure, 'tight_layout', lambda *a, **k: None)
    put(runcfg.no_plots, 'recording', True)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield out
    finally:
        for o, k, v in reversed(old):
            setattr(o, k, v)
        plt.close('all')


def shows(t, ax, xs, ys, want, msg, atol=1e-9, need=1):
    """the drawn matrix has value want(i, j) at every visible (xs[i], ys[j])"""
    t.check(len(ax.maps) >= 1, f'{msg}: nothing is drawn')
    m, n = ax.maps[-1], 0
    z = np.abs(m.z[np.isfinite(m.z)])
    sc = max(1.0, float(np.max(z, initial=0)))
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            if ax.visible(x, y) and m.inside(x, y):
                n += 1
                t.check(m.at(x, y) == want(i, j) or abs(m.at(x, y) - want(i, j)) <= atol * sc, f'{msg}: at ({x:.4g}, {y:.4g}) {m.at(x, y)!r} is drawn, the data are {want(i, j)!r}')
    t.check(n >= need, f'{msg}: only {n} of {len(xs)}x{len(ys)} points of the data are drawn (at least {need})')


def has_line(t, ax, x, y, msg, rtol=1e-9, label=None):
    """some line of the axes runs through exactly these points"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    sc = max(1e-300, float(np.max(np.abs(y)))) if y.size else 1
    for lx, ly, ll in ax.lines:
        if label is not None and label != ll:
            continue
        if lx.dtype.kind in 'fiu' and ly.dtype.kind in 'fiuc' and len(lx) == len(x):
            o, p = np.argsort(lx, kind='stable'), np.argsort(x, kind='stable')
            if np.allclose(lx[o], x[p], rtol=1e-9, atol=1e-9) and np.max(np.abs(ly[o] - y[p]), initial=0) <= rtol * sc + 1e-12:
                return
    t.check(False, f'{msg}: no line through the {len(x)} data points among {[(ll, len(lx)) for lx, _, ll in ax.lines]}')
