"""Recorder of what figures contain at the moment they are saved or shown (nothing is rendered)."""
import contextlib

import numpy as np


def _arr(x):
    return np.asarray(np.ma.getdata(x), dtype=float)


PARSED = {}


def unparsable(fig):
    """Texts of a figure that matplotlib could not typeset."""
    from matplotlib import mathtext
    bad = []
    texts = [t.get_text() for t in fig.texts]
    for ax in fig.axes:
        texts += [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()] + [t.get_text() for t in ax.texts]
        if hasattr(ax, 'get_zlim'):
            texts.append(ax.get_zlabel())
        if ax.get_legend() is not None:
            texts += [t.get_text() for t in ax.get_legend().get_texts()]
    for s in texts:
        if s.count('$') - s.count('\\$') > 1:
            if s not in PARSED:
                try:
                    mathtext.MathTextParser('path').parse(s, 72, None)
                    PARSED[s] = True
                except Exception:
                    PARSED[s] = False
            if not PARSED[s]:
                bad.append(s)
    return bad


def axes(ax):
    """The data drawn in one axes, from its artists."""
    d = {'xlabel': ax.get_xlabel(), 'ylabel': ax.get_ylabel(), 'title': ax.get_title(), 'lines': [], 'points': [], 'segments': [], 'images': [], 'polygons': [], 'texts': [t.get_text() for t in ax.texts],
         'xlim': tuple(ax.get_xlim()), 'ylim': tuple(ax.get_ylim()), 'contours': [], 'surfaces': [], 'is3d': hasattr(ax, 'get_zlim')}
    if d['is3d']:
        d['zlabel'] = ax.get_zlabel()
    for l in ax.lines:
        d['lines'].append({'xy': np.column_stack((_arr(l.get_xdata()), _arr(l.get_ydata()))), 'label': l.get_label(), 'marker': l.get_marker(), 'style': l.get_linestyle()})
    for c in ax.collections:
        k = type(c).__name__
        if k == 'PathCollection':
            d['points'].append({'xy': _arr(c.get_offsets()), 'c': None if c.get_array() is None else _arr(c.get_array())})
        elif k == 'Path3DCollection':
            d['points'].append({'xy': np.column_stack([_arr(v) for v in c._offsets3d]), 'c': None if c.get_array() is None else _arr(c.get_array())})
        elif k == 'LineCollection':
            d['segments'] += [_arr(s) for s in c.get_segments()]
        elif k == 'Poly3DCollection':
            d['surfaces'].append(_arr(c._vec[:3].T))
        else:
            lv = getattr(c, 'levels', None)
            d['contours'].append({'kind': k, 'levels': None if lv is None else _arr(lv), 'paths': [(p.vertices.copy(), None if p.codes is None else p.codes.copy()) for p in c.get_paths()]})
    for im in ax.images:
        d['images'].append({'data': _arr(im.get_array()), 'extent': tuple(im.get_extent()), 'origin': im.origin, 'clim': im.get_clim()})
    for p in ax.patches:
        if hasattr(p, 'get_xy') and np.ndim(p.get_xy()) == 2:
            d['polygons'].append({'xy': _arr(p.get_xy()), 'color': tuple(p.get_facecolor())})
    return d


def figure(fig):
    out = []
    bars = []
    for ax in fig.axes:
        bar = getattr(ax, '_colorbar', None)
        if bar is not None or ax.get_label() == '<colorbar>':
            b = axes(ax)
            b['range'] = None if bar is None else (bar.vmin, bar.vmax)
            bars.append(b)
        else:
            out.append(axes(ax))
    return {'axes': out, 'bars': bars, 'bad_text': unparsable(fig)}


@contextlib.contextmanager
def record(close=True):
    """Collects (kind, file name, contents) for every save and show while active; the windows of a show are closed by the viewer."""
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt
    import matplotlib.backend_bases as bb
    log = []
    idle, tight = bb.FigureCanvasBase.draw_idle, mf.Figure.tight_layout
    bb.FigureCanvasBase.draw_idle = lambda self, *a, **k: None
    mf.Figure.tight_layout = lambda self, *a, **k: None
    old = mf.Figure.savefig
    old_show = plt.show

    def save(self, fname, *a, **k):
        log.append(('save', str(fname), figure(self)))

    def show(*a, **k):
        log.append(('show', None, [figure(plt.figure(n)) for n in plt.get_fignums()]))
        plt.close('all')
    mf.Figure.savefig = save
    plt.show = show
    if close:
        plt.close('all')
    try:
        yield log
    finally:
        mf.Figure.savefig = old
        bb.FigureCanvasBase.draw_idle, mf.Figure.tight_layout = idle, tight
        plt.show = old_show
        if close:
            plt.close('all')
            matplotlib.rcdefaults()
            matplotlib.use('agg')
