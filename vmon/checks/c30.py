"""C30: figures show exactly the data they are given."""
import itertools
import os
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import torch
from ioput import plots
from data_generation.strain_paths.interface import StrainPathGenerator
from model_architectures.procedures import model_prediction as mp
from model_architectures.procedures import model_training as mt
from user_scripts.synthetic_data.gen_response_dataset import \
    MaterialResponseDatasetGenerator as MRG

PROPERTY = 'C30'
RULE = ('random data sets (one to five sets of different lengths, wildly '
        'different magnitudes, missing points) through every plotting '
        'routine and option; artists of the resulting figures are read back '
        'and compared with the data or with statistics recomputed from it; '
        'non-trivial: distinct (routine, options, number of sets)')
ASSUMPTIONS = ['no LaTeX installation', 'Agg backend',
               'colours, fonts, markers and legend positions are free']
REQUIRED_EVENTS = ('lines', 'band', 'scatter', 'bars', 'boxes', 'histogram',
                   'history', 'prediction', 'strain-path', 'stress-space',
                   'response', 'saved', 'ranges')
LOG = []


class Record:
    """Figures created while the real code runs."""

    def __enter__(self):
        self.figs = []
        self.new, self.show = plt.figure, plt.show

        def figure(*a, **k):
            f = self.new(*a, **k)
            if f not in self.figs:
                self.figs.append(f)
            return f
        plt.figure = figure
        plt.show = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        plt.figure, plt.show = self.new, self.show
        self.open = plt.get_fignums()
        plt.close('all')


def F(x):
    return np.array([np.nan if v is None else float(v)
                     for v in np.ravel(np.ma.filled(
                         np.ma.asarray(x, dtype=object), np.nan))])


def points(x, y, *z):
    """Rows of finite points of a line."""
    p = np.stack([F(x), F(y)] + [F(q) for q in z], 1)
    return p[np.isfinite(p).all(1)]


def lines(axes):
    """Points of the lines of data (grids and empty handles left out)."""
    out = []
    for l in axes.lines:
        if type(l).__name__ in ('AxLine', '_AxLine'):
            continue
        d = l.get_data_3d() if hasattr(l, 'get_data_3d') else \
            (l.get_xdata(orig=True), l.get_ydata(orig=True))
        out.append((l, points(*d)))
    return out


def legend(axes):
    g = axes.get_legend()
    return [t.get_text() for t in g.get_texts()] if g else []


def plain(s):
    return '' if s is None else s.strip('$')


def lims(rng, lo=-5., hi=5.):
    return [(None, None), (lo, hi), (lo, None), (None, hi)][
        int(rng.integers(4))]


def deco(ctx, ax, opt, which=('x', 'y'), tag=''):
    """Titles, labels, scales and limits asked for."""
    ctx.same('title', ax.get_title(), plain(opt.get('title')), tag)
    for a in which:
        ctx.same('axis-label', getattr(ax, f'get_{a}label')(),
                 plain(opt.get(f'{a}_label')), tag)
        ctx.same('scale', getattr(ax, f'get_{a}scale')(),
                 opt.get(f'{a}_scale', 'linear'), tag)
        got = getattr(ax, f'get_{a}lim')()
        for g, w in zip(got, opt.get(f'{a}_lims', (None, None))):
            if w is not None:
                ctx.close('limits', g, w, rtol=1e-9, atol=1e-12,
                          msg=f'{tag}: {a} limits')


def options(rng, positive, which=('x', 'y')):
    opt = {'title': [None, 'Title', '$a_1$'][int(rng.integers(3))]}
    for a in which:
        opt[f'{a}_label'] = [None, f'{a} data', f'${a}^2$'][
            int(rng.integers(3))]
        log = positive and rng.random() < .4
        opt[f'{a}_scale'] = 'log' if log else 'linear'
        opt[f'{a}_lims'] = lims(rng, .5, 9.) if log else lims(rng)
        if rng.random() < .5:
            opt[f'{a}_tick_format'] = str(rng.choice(
                ['int', 'float', 'exp']))
    if rng.random() < .3:
        opt['is_latex'] = True
    return opt


def columns(rng, k, per, positive=False, ragged=True):
    """n x (per k) table of k sets, some ending early."""
    n = int(rng.integers(25, 1200) if rng.random() < .05 else
            rng.integers(1, 25))
    d = rng.standard_normal((n, per*k))*10**rng.uniform(-3, 3, per*k)
    if positive:
        d = abs(d) + 1e-6
    ends = []
    for i in range(k):
        e = int(rng.integers(1, n + 1)) if ragged and rng.random() < .4 \
            else n
        d[e:, per*i:per*i + per] = np.nan
        ends.append(e)
    return d, ends


def check_lines(ctx, ax, want, tag, rule='line'):
    got = [p for _, p in lines(ax) if len(p)]
    ctx.same(rule + '-number', len(got), len(want), tag)
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.same(rule + '-length', g.shape, w.shape, f'{tag}: set {i}')
        if g.shape == w.shape:
            ctx.close(rule, g, w, rtol=1e-9, scale=abs(w).max() + 1e-300,
                      msg=f'{tag}: set {i}')
    ctx.event('lines', len(want))


def save(ctx, fig, tag):
    d = ctx.tmpdir()
    name = str(ctx.rng.choice(['fig_', 'noise_0.', 'a.b_'])) \
        + str(int(ctx.rng.integers(100)))
    fmt = str(ctx.rng.choice(['png', 'pdf', 'svg']))
    w, h = fig.get_size_inches()
    hh = float(ctx.rng.uniform(1, 5))
    plots.save_figure(fig, name, height=hh, format=fmt, save_dir=d)
    ctx.same('saved', os.listdir(d), [f'{name}.{fmt}'], tag)
    ctx.ok('saved', os.path.getsize(os.path.join(d, f'{name}.{fmt}')) > 0,
           tag)
    w2, h2 = fig.get_size_inches()
    ctx.close('size', [h2, w2], [hh, hh*w/h], rtol=1e-9, msg=tag)
    ctx.raises('no-directory', lambda: plots.save_figure(
        fig, name, save_dir=os.path.join(d, 'none')), Exception, tag)
    ctx.event('saved')


def xy(ctx, k, labels, reference):
    rng = ctx.rng
    pos = rng.random() < .5
    opt = options(rng, pos)
    d, ends = columns(rng, k, 2, pos)
    if rng.random() < .3:
        d = np.where(np.isnan(d), None, d)
    names = [f'set {i}' for i in range(k)] if labels else None
    with Record() as r:
        fig, ax = plots.plot_xy_data(
            d.copy(), data_labels=names, is_reference_data=reference,
            marker='o' if rng.random() < .3 else None, **opt)
    tag = f'xy k={k} {opt}'
    check_lines(ctx, ax, [points(d[:, 2*i], d[:, 2*i + 1])
                          for i in range(k)], tag)
    ctx.same('legend', legend(ax), names or [], tag)
    deco(ctx, ax, opt, tag=tag)
    ctx.raises('refused', lambda: plots.plot_xy_data(d[:, 1:]), Exception,
               'odd number of columns')
    ctx.raises('refused', lambda: plots.plot_xy_data(
        d, data_labels=['a']*(k + 1)), Exception, 'labels')
    if rng.random() < .1 and opt['x_scale'] == opt['y_scale'] == 'linear':
        save(ctx, fig, tag)
    ctx.state('xy', k, labels, reference, opt['x_scale'], opt['y_scale'])
    plt.close('all')


def xy2(ctx):
    rng = ctx.rng
    pos = rng.random() < .5
    opt = options(rng, pos, ('x', 'y1', 'y2'))
    a, b = (columns(rng, 1, 2, pos, False)[0] for _ in range(2))
    fig, ax = plots.plot_xy2_data(a, b, **opt)
    tag = f'xy2 {opt}'
    axs = fig.axes
    ctx.same('axes', len(axs), 2, tag)
    check_lines(ctx, axs[0], [a], tag)
    check_lines(ctx, axs[1], [b], tag)
    for q, y in zip(axs, ('y1', 'y2')):
        o = {'title': opt['title'] if y == 'y1' else None}
        o.update({'y_' + s: opt[f'{y}_{s}']
                  for s in ('label', 'scale', 'lims')})
        deco(ctx, q, o, ('y',), tag)
    deco(ctx, axs[0], opt, ('x',), tag)
    for bad in ((a[:, :1], b), (a, np.hstack((b, b)))):
        ctx.raises('refused', lambda: plots.plot_xy2_data(*bad), Exception,
                   'columns')
    ctx.state('xy2', opt['x_scale'], opt['y1_scale'], opt['y2_scale'])
    plt.close('all')


def spread(d, kind):
    """Mean, lower and upper ends of columns."""
    m = d.mean(1)
    if kind == 'min-max':
        return m, d.min(1), d.max(1)
    if kind == 'mean-std':
        s = np.sqrt(((d - m[:, None])**2).mean(1))*1.96
        return m, m - s, m + s
    return m, None, None


def bands(ax):
    """(x, lower, upper) of filled areas."""
    out = []
    for c in ax.collections:
        if type(c).__name__ not in ('PolyCollection', 'FillBetweenPolyCollection'):
            continue
        v = c.get_paths()[0].vertices
        q = {}
        for x, y in v:
            lo, hi = q.get(x, (np.inf, -np.inf))
            q[x] = (min(lo, y), max(hi, y))
        out.append(np.array([(x, *q[x]) for x in sorted(q)]))
    return out


def bars(ax):
    """(x, lower, upper) of error bars."""
    out = []
    for c in ax.containers:
        if type(c).__name__ == 'ErrorbarContainer' and c.has_yerr:
            seg = [s for col in c[2] for s in col.get_segments()]
            out.append(np.array([(s[0, 0], s[:, 1].min(), s[:, 1].max())
                                 for s in seg]))
    return out


def xny(ctx, k, kind, bar, shade, scatter):
    rng = ctx.rng
    opt = options(rng, False)
    data = []
    for _ in range(k):
        n, m = int(rng.integers(2, 20)), int(rng.integers(1, 6))
        x = np.sort(rng.uniform(0, 1, n) + np.arange(n))
        data.append(np.column_stack(
            [x, rng.standard_normal((n, m))*10**rng.uniform(-3, 3)]))
    names = [f's{i}' for i in range(k)] if rng.random() < .5 else None
    tag = f'xny k={k} {kind} bar={bar} shade={shade} {opt}'
    ref = bool(rng.random() < .4) and not scatter
    if scatter:
        fig, ax = plots.scatter_xny_data(
            [d.copy() for d in data], data_labels=names, is_error_bar=True,
            range_type=kind, **opt)
        bar, shade = kind is not None, False
    else:
        fig, ax = plots.plot_xny_data(
            [d.copy() for d in data], range_type=kind, is_error_bar=bar,
            is_error_shading=shade, data_labels=names,
            is_reference_data=ref, **opt)
    want, band = [], []
    for i, d in enumerate(data):
        if ref and i == 0:
            want.append(d[:, :2])
            continue
        m, lo, hi = spread(d[:, 1:], kind)
        want.append(np.column_stack([d[:, 0], m]))
        if lo is not None:
            band.append(np.column_stack([d[:, 0], lo, hi]))
    main = [c[0] if hasattr(c, 'has_yerr') else c for c in ax.containers]
    caps = {id(q) for c in ax.containers if hasattr(c, 'has_yerr')
            for q in c[1]}
    got = [p for l, p in lines(ax) if id(l) not in caps and len(p)]
    ctx.same('mean-number', len(got), len(want), tag)
    for g, w in zip(got, want):
        ctx.close('mean', g, w, rtol=1e-9, scale=abs(w).max(), msg=tag)
    del main
    for on, found in ((bar, bars(ax)), (shade, bands(ax))):
        exp = band if on else []
        ctx.same('band-number', len(found), len(exp), tag)
        for g, w in zip(found, exp):
            ctx.close('band', g, w, rtol=1e-7, scale=abs(w[:, 1:]).max()
                      + abs(w[:, 0]).max()*1e-6, msg=tag)
            ctx.event('band')
    ctx.same('legend', legend(ax), names or [], tag)
    deco(ctx, ax, opt, tag=tag)
    ctx.state('xny', k, kind, bar, shade, scatter, ref)
    plt.close('all')


def xyz(ctx, k, surface):
    rng = ctx.rng
    opt = options(rng, False, ('x', 'y', 'z'))
    tag = f'xyz k={k} {opt}'
    if surface:
        for a in 'xyz':
            opt.pop(f'{a}_scale')
        n, m = int(rng.integers(2, 8)), int(rng.integers(2, 8))
        X, Y = np.meshgrid(np.sort(rng.uniform(-1, 1, n)),
                           np.sort(rng.uniform(-1, 1, m)))
        Z = rng.standard_normal(X.shape)
        cmap = [None, 'viridis', 'plasma', 'Blues'][int(rng.integers(4))]
        fig, ax = plots.plot_surface_xyz_data(
            X, Y, Z, colormap=cmap, marker='o', markersize=4, **opt)
        surf = [c for c in ax.collections if 'Poly' in type(c).__name__]
        ctx.same('surface', len(surf), 1, tag)
        ctx.same('colormap', surf[0].get_cmap().name, cmap or 'viridis', tag)
        faces = surf[0]._vec[:3].T if getattr(surf[0], '_vec', None) \
            is not None else None
        if faces is not None:
            have = {tuple(np.round(v, 9)) for v in faces}
            want = {tuple(np.round(v, 9)) for v in zip(
                X.ravel(), Y.ravel(), Z.ravel())}
            ctx.ok('surface-nodes', want <= have and have <= want,
                   f'{tag}: nodes of the surface')
        sc = [c for c in ax.collections if 'Path' in type(c).__name__]
        ctx.same('markers', len(sc), 1, tag)
        o3 = np.stack([F(q) for q in sc[0]._offsets3d], 1)
        ctx.close('markers', o3, np.stack([X.ravel(), Y.ravel(), Z.ravel()],
                                          1), rtol=1e-9, scale=1., msg=tag)
        ctx.raises('refused', lambda: plots.plot_surface_xyz_data(
            X, Y[:-1], Z), Exception, 'shapes')
        ctx.raises('refused', lambda: plots.plot_surface_xyz_data(
            X, Y, Z, colormap='nonsense'), Exception, 'colormap')
    else:
        d, _ = columns(rng, k, 3)
        names = [f's{i}' for i in range(k)] if rng.random() < .5 else None
        fig, ax = plots.plot_xyz_data(d, data_labels=names, **opt)
        check_lines(ctx, ax, [points(*d[:, 3*i:3*i + 3].T)
                              for i in range(k)], tag)
        ctx.same('legend', legend(ax), names or [], tag)
        ctx.raises('refused', lambda: plots.plot_xyz_data(d[:, 1:]),
                   Exception, 'columns')
    deco(ctx, ax, opt, ('x', 'y', 'z'), tag)
    ctx.state('xyz', k, surface)
    plt.close('all')


def r2(x, y):
    return 1 - ((x - y)**2).sum()/((x - x.mean())**2).sum()


def scatter(ctx, k, error, marg, coeff, dle):
    rng = ctx.rng
    opt = options(rng, False)
    d, ends = columns(rng, k, 2, ragged=not (coeff or dle))
    while len(d) < 4 and (coeff or dle):
        d, ends = columns(rng, k, 2, ragged=False)
    if dle or coeff:
        d[:, 1] = d[:, 0]*rng.uniform(.5, 1.5) + .1*d[:, 0].std() \
            * rng.standard_normal(len(d))
        if rng.random() < .5:
            d = d*10.**rng.integers(-9, 7)
    names = [f's{i}' for i in range(k)] if rng.random() < .5 else None
    tag = f'scatter k={k} {error} {opt}'
    fig, ax = plots.scatter_xy_data(
        d.copy(), data_labels=names, is_identity_line=error is not None,
        identity_error=error, is_r2_coefficient=coeff,
        is_direct_loss_estimator=dle, is_marginal_dists=marg, **opt)
    sc = [c for c in ax.collections if type(c).__name__ == 'PathCollection']
    ctx.same('scatter-number', len(sc), k, tag)
    for i, c in enumerate(sc):
        g = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
        g = g[np.isfinite(g).all(1)]
        w = points(d[:, 2*i], d[:, 2*i + 1])
        ctx.same('scatter-length', g.shape, w.shape, tag)
        ctx.close('scatter', g, w, rtol=1e-9, scale=abs(w).max(), msg=tag)
        ctx.event('scatter')
    if error is not None:
        al = [l for l in ax.lines if 'AxLine' in type(l).__name__]
        ctx.same('identity', len(al), 1, tag)
        (x0, y0), s = al[0].get_xy1(), al[0].get_slope()
        ctx.ok('identity', s == 1 and x0 == y0, f'{tag}: {x0} {y0} {s}')
        b = bands(ax)
        ctx.same('error-band', len(b), 1, tag)
        x = b[0][:, 0]
        w = np.sort(np.stack([(1 - error)*x, (1 + error)*x], 1), 1)
        # where the two bounds meet in the origin one vertex is enough
        ctx.close('error-band', b[0][:, 1:], w, rtol=1e-9,
                  scale=abs(w).max(), msg=tag)
        lo, hi = (v if v is not None else s*np.inf for v, s in zip(
            opt['x_lims'], (-1, 1)))
        v = F(d[:, 0::2])
        v = v[np.isfinite(v) & (v >= lo) & (v <= hi)]
        if len(v):
            e = 1e-9*abs(v).max()
            ctx.ok('error-band-extent', x[0] <= v.min() + e
                   and x[-1] >= v.max() - e,
                   f'{tag}: band {x[0]} to {x[-1]}, data {v.min()} to '
                   f'{v.max()}')
        ctx.ok('error-label', any(f'{error*100:.0f}' in t
                                  for t in legend(ax)), tag)
    if coeff and k == 1:
        want = r2(d[:, 0], d[:, 1])
        t = [t.get_text() for t in ax.texts]
        v = [float(s.split('=')[1].strip('$')) for s in t if '=' in s]
        ctx.ok('r2', len(v) == 1 and abs(v[0] - want) <= .00501,
               f'{tag}: {t}, R2 = {want}')
    if dle and k == 1:
        A = np.column_stack([d[:, 0], np.ones(len(d))])
        fit = A @ np.linalg.lstsq(A, d[:, 1], rcond=None)[0]
        got = [p for _, p in lines(ax) if len(p)]
        ctx.same('estimator', len(got), 3, tag)
        if len(got) == 3:
            # the error model has collinear features: its value is free
            ctx.close('estimator', got[0], np.column_stack([d[:, 0], fit]),
                      rtol=1e-6, scale=abs(d).max(), msg=tag)
            ctx.close('estimator-bounds', (got[1] + got[2])/2, got[0],
                      rtol=1e-6, scale=abs(d).max(), msg=tag)
    if marg:
        ax2 = [a for a in fig.axes if a is not ax]
        ctx.same('marginals', len(ax2), 2, tag)
        for j, a in enumerate(ax2):
            q = np.concatenate([d[:, 2*i + j] for i in range(k)])
            q = q[np.isfinite(q)]
            h, e = np.histogram(q, bins=20, density=True)
            pat = [p for p in a.patches if p.get_width() and p.get_height()]
            got = sorted((p.get_y() if j else p.get_x(),
                          p.get_width() if j else p.get_height())
                         for p in a.patches)
            del pat
            w = sorted(zip(e[:-1], h))
            ctx.close('marginals', [x[1] for x in got], [x[1] for x in w],
                      rtol=1e-7, scale=h.max(), msg=tag)
    elif names:
        ctx.ok('legend', [t for t in legend(ax) if t in names] == names,
               f'{tag}: {legend(ax)}')
    if not marg:
        deco(ctx, ax, opt, tag=tag)
    ctx.state('scatter', k, error, marg, coeff, dle)
    plt.close('all')


def ranges(ctx, k, kind):
    """Mean and range of several data sets with common x values."""
    rng = ctx.rng
    pos = rng.random() < .5
    opt = options(rng, pos)
    n = ctx.size(1, 20, 300, .05)
    x = np.cumsum(rng.uniform(.1, 2, n))
    y = rng.standard_normal((n, k))*10**rng.uniform(-3, 3)
    if pos:
        y = abs(y) + 1e-3*abs(y).max()
    d = np.empty((n, 2*k))
    d[:, 0::2], d[:, 1::2] = x[:, None], y
    if rng.random() < .4:
        d = d.astype(object)
    names = [f's{i}' for i in range(k)] if rng.random() < .3 else None
    tag = f'ranges k={k} {kind} {opt}'
    fig, ax = plots.scatter_xy_data(d.copy(), data_labels=names,
                                    is_error_bar=True, range_type=kind,
                                    **opt)
    m, lo, hi = spread(y, kind)
    caps = {id(q) for c in ax.containers if hasattr(c, 'has_yerr')
            for q in c[1]}
    got = [p for l, p in lines(ax) if id(l) not in caps and len(p)]
    ctx.same('range-number', len(got), 1, tag)
    w = np.column_stack([x, m])
    ctx.same('range-length', got[0].shape, w.shape, tag)
    for j in range(2):
        ctx.close('range-mean', got[0][:, j], w[:, j], rtol=1e-9,
                  scale=abs(w[:, j]).max() + 1e-9*abs(y).max(), msg=tag)
    b = bars(ax)
    ctx.same('range-number', len(b), kind is not None, tag)
    if b and kind:
        ctx.close('range', b[0][:, 0], x, rtol=1e-9, msg=tag)
        ctx.close('range', b[0][:, 1:], np.column_stack([lo, hi]),
                  rtol=1e-7, scale=abs(y).max(), msg=tag)
    ctx.same('legend', legend(ax), [], tag)
    deco(ctx, ax, opt, tag=tag)
    ctx.event('ranges')
    ctx.state('ranges', k, kind, opt['x_scale'], opt['y_scale'])
    plt.close('all')


def chart(ctx, k):
    rng = ctx.rng
    n = int(rng.integers(1, 7))
    opt = options(rng, False)
    for q in ('x_scale', 'x_lims', 'x_tick_format'):
        opt.pop(q, None)
    groups = tuple(f'g{i}' for i in range(n))
    data = {f'set {i}': tuple(float(v) for v in rng.uniform(0, 10, n))
            for i in range(k)}
    avg = bool(rng.random() < .5)
    fig, ax = plots.grouped_bar_chart(groups, data, is_avg_hline=avg, **opt)
    tag = f'bars k={k} n={n} {opt}'
    cont = [c for c in ax.containers if type(c).__name__ == 'BarContainer']
    ctx.same('bars-number', len(cont), k, tag)
    ticks = dict(zip([t.get_text() for t in ax.get_xticklabels()],
                     ax.get_xticks()))
    ctx.same('groups', sorted(ticks), sorted(groups), tag)
    for c, (name, v) in zip(cont, data.items()):
        ctx.close('bars', [p.get_height() for p in c], v, rtol=1e-9,
                  scale=10., msg=tag)
        ctx.same('bars-label', c.get_label(), name, tag)
        # every bar closest to its own group
        for i, p in enumerate(c):
            near = min(ticks, key=lambda g: abs(
                ticks[g] - p.get_x() - p.get_width()/2))
            ctx.same('bars-group', near, groups[i], tag)
    x = sorted((p.get_x(), p.get_x() + p.get_width()) for c in cont
               for p in c)
    ctx.ok('bars-apart', all(b[0] >= a[1] - 1e-9 for a, b in zip(x, x[1:])),
           f'{tag}: bars overlap')
    if avg:
        got = sorted(float(F(l.get_ydata())[0]) for l in ax.lines
                     if len(l.get_ydata()) == 2)
        ctx.close('average', got, sorted(np.mean(v) for v in data.values()),
                  rtol=1e-9, scale=10., msg=tag)
    ctx.ok('legend', [t for t in legend(ax) if t != 'Average']
           == list(data), f'{tag}: {legend(ax)}')
    deco(ctx, ax, opt, ('y',), tag)
    ctx.raises('refused', lambda: plots.grouped_bar_chart(
        groups + ('h',), data), Exception, 'groups')
    ctx.event('bars')
    ctx.state('bars', k, n, avg)
    plt.close('all')


def boxes(ctx, k, multi):
    rng = ctx.rng
    n = int(rng.integers(2, 30))
    d = rng.standard_normal((n, k))*10**rng.uniform(-2, 3, k)
    names = [f'b{i}' for i in range(k)]
    mean = bool(rng.random() < .5)
    fig, _ = plots.plot_boxplots(d, names if rng.random() < .7 else None,
                                 is_mean_line=mean, x_label='x', y_label='y',
                                 is_multiple_subplots=multi)
    tag = f'boxes k={k} n={n} multi={multi} mean={mean}'
    ctx.same('subplots', len(fig.axes), k if multi and k > 1 else 1, tag)
    cols = [[i] for i in range(k)] if len(fig.axes) == k and k > 1 else \
        [list(range(k))]
    for ax, cs in zip(fig.axes, cols):
        pts = [F(l.get_ydata()) for l in ax.lines]
        ctx.same('boxes', len(ax.patches), len(cs), tag)
        for j, c in enumerate(cs):
            v = d[:, c]
            q1, q2, q3 = np.percentile(v, [25, 50, 75])
            y = ax.patches[j].get_path().vertices[:, 1]
            y = y[:4] if len(y) > 4 else y
            ctx.close('box', [y.min(), y.max()], [q1, q3], rtol=1e-9,
                      scale=abs(v).max(), msg=tag)
            flat = [p[0] for p in pts if len(p) == 2 and p[0] == p[1]]
            for what, w in (('median', q2),) + (
                    (('mean', v.mean()),) if mean else ()):
                ctx.ok(what, any(abs(f - w) <= 1e-9*abs(v).max()
                                 for f in flat), f'{tag}: no {what} {w}')
            ctx.event('boxes')
    ctx.raises('refused', lambda: plots.plot_boxplots(d, names + ['c']),
               Exception, 'labels')
    ctx.state('boxes', k, multi, mean)
    plt.close('all')


def histograms(ctx, k, two):
    rng = ctx.rng
    opt = options(rng, False)
    dens = bool(rng.random() < .5)
    nb = int(rng.integers(2, 30))
    tag = f'hist k={k} bins={nb} density={dens} {opt}'
    if two:
        d = rng.standard_normal((int(rng.integers(2, 200)), 2))
        d *= 10**rng.uniform(-2, 2, 2)
        fig, ax = plots.plot_histogram_2d(d, bins=nb, density=dens, **opt)
        h, ex, ey = np.histogram2d(d[:, 0], d[:, 1], bins=nb, density=dens)
        m = [c for c in ax.collections if type(c).__name__ == 'QuadMesh']
        ctx.same('map', len(m), 1, tag)
        a = np.ma.filled(m[0].get_array(), 0.).reshape(nb, nb)
        ctx.close('map', a, h.T, rtol=1e-9, scale=h.max(), msg=tag)
        co = m[0].get_coordinates()
        ctx.close('map-edges', co[0, :, 0], ex, rtol=1e-9,
                  scale=abs(ex).max(), msg=tag)
        ctx.close('map-edges', co[:, 0, 1], ey, rtol=1e-9,
                  scale=abs(ey).max(), msg=tag)
        ctx.raises('refused', lambda: plots.plot_histogram_2d(d[:, :1]),
                   Exception, 'columns')
    else:
        s = 10**rng.uniform(-2, 2)
        data = tuple(rng.standard_normal(int(rng.integers(2, 200)))*s
                     + s*i for i in range(k))
        names = tuple(f'h{i}' for i in range(k)) if rng.random() < .6 \
            else None
        rg = None if rng.random() < .6 else (-s, 2*s)
        fig, ax = plots.plot_histogram(data, data_labels=names, bins=nb,
                                       bins_range=rg, density=dens, **opt)
        e = np.histogram_bin_edges(np.concatenate(data), nb, rg)
        cont = ax.containers
        ctx.same('histogram-sets', len(cont), k, tag)
        for c, v in zip(cont, data):
            h = np.histogram(v, e, density=dens)[0]
            ctx.close('histogram', [p.get_height() for p in c], h, rtol=1e-9,
                      scale=abs(h).max() + 1e-300, msg=tag)
            if k == 1:
                ctx.close('histogram-edges', [p.get_x() for p in c], e[:-1],
                          rtol=1e-7, scale=abs(e).max(), msg=tag)
        ctx.same('legend', legend(ax), list(names or ()), tag)
        ctx.raises('refused', lambda: plots.plot_histogram(list(data)),
                   Exception, 'not a tuple')
    deco(ctx, ax, opt, tag=tag)
    ctx.event('histogram')
    ctx.state('hist', k, two, dens, nb)
    plt.close('all')


def history(ctx, k):
    """Loss, learning rate and parameter histories of a training."""
    rng = ctx.rng
    hist = {f'run {i}': [float(v) for v in 10**rng.uniform(
        -6, 4, int(rng.integers(1, 60)))] for i in range(k)}
    log = bool(rng.random() < .5)
    scale = 'linear' if log or rng.random() < .5 else 'log'
    kind = [None, 'MSE'][int(rng.integers(2))]
    d = ctx.tmpdir()
    sv = bool(rng.random() < .15)
    with Record() as r:
        mt.plot_training_loss_history(
            hist, loss_type=kind, is_log_loss=log, loss_scale=scale,
            filename='loss', save_dir=d, is_save_fig=sv)
    tag = f'loss history k={k} log={log} {scale} {kind}'
    ctx.same('figures', len(r.figs), 1, tag)
    ctx.same('closed', r.open, [], tag)
    ctx.same('saved', os.listdir(d), ['loss.pdf'] if sv else [], tag)
    ax = r.figs[0].axes[0]
    f = np.log if log else np.asarray
    check_lines(ctx, ax, [np.column_stack([np.arange(len(v)), f(v)])
                          for v in hist.values()], tag)
    ctx.same('legend', legend(ax), list(hist), tag)
    ctx.same('scale', ax.get_yscale(), scale, tag)
    lab = ax.get_ylabel()
    ctx.ok('axis-label', ('log' in lab) == log
           and (kind is None or kind in lab), f'{tag}: {lab}')
    # learning rate
    v = next(iter(hist.values()))
    lr = [float(q) for q in 10**rng.uniform(-6, -1, len(v))]
    with Record() as r:
        mt.plot_training_loss_and_lr_history(
            v, lr, loss_type=kind, is_log_loss=log, loss_scale=scale,
            lr_type='steplr', save_dir=d)
    ctx.same('figures', len(r.figs), 1, tag)
    a, b = r.figs[0].axes
    x = np.arange(len(v))
    check_lines(ctx, a, [np.column_stack([x, f(v)])], tag)
    check_lines(ctx, b, [np.column_stack([x, lr])], tag)
    ctx.same('scale', a.get_yscale(), scale, tag)
    ctx.raises('refused', lambda: mt.plot_training_loss_and_lr_history(
        v, lr + [1.]), Exception, 'lengths')
    # parameters
    par = {f'p{i}': [float(q) for q in rng.uniform(-1, 1, int(
        rng.integers(1, 30)))] for i in range(k)}
    bnd = {q: (-1.5 - i, 1.5 + i) for i, q in enumerate(par)}
    d = ctx.tmpdir()
    with Record() as r:
        mt.plot_model_parameters_history(par, bnd, filename='par',
                                         save_dir=d, is_save_fig=sv)
    ctx.same('figures', len(r.figs), k, tag)
    ctx.same('saved', sorted(os.listdir(d)),
             sorted(f'par_{q}.pdf' for q in par) if sv else [], tag)
    for fig, (q, v) in zip(r.figs, par.items()):
        ax = fig.axes[0]
        check_lines(ctx, ax, [np.column_stack([np.arange(len(v)), v])],
                    f'history of {q}')
        seg = [s for c in ax.collections
               if type(c).__name__ == 'LineCollection'
               for s in c.get_segments()]
        ctx.close('bounds', sorted(s[0, 1] for s in seg), sorted(bnd[q]),
                  rtol=1e-9, msg=f'bounds of {q}')
        ctx.ok('axis-label', q in ax.get_ylabel(), f'{q}: {ax.get_ylabel()}')
    ctx.event('history')
    ctx.state('history', k, log, scale, kind)


def predictions(ctx, k, norm, uq):
    rng = ctx.rng
    equal = rng.random() < .5
    n = int(rng.integers(2, 30))
    sets = {}
    s = 10**rng.uniform(-3, 3)
    for i in range(k):
        m = n if equal else int(rng.integers(2, 30))
        t = np.sort(rng.uniform(0, 3, m)) + np.arange(m)
        c = int(rng.integers(2, 5)) if uq else 1
        sets[f'set {i}'] = np.column_stack(
            [t, rng.standard_normal((m, c))*s])
    ref = bool(rng.random() < .5)
    copy = {q: v.copy() for q, v in sets.items()}
    kind = str(rng.choice(['min-max', 'mean-std']))
    with Record() as r:
        mp.plot_time_series_prediction(
            sets, is_reference_data=ref, is_normalize_data=norm,
            is_uncertainty_quantification=uq, range_type=kind)
    tag = f'time series k={k} norm={norm} uq={uq} equal={equal}'
    for q in sets:
        ctx.ok('kept', np.array_equal(sets[q], copy[q]), f'{tag}: changed')
    ctx.same('figures', len(r.figs), 1, tag)
    ax = r.figs[0].axes[0]
    ctx.same('legend', legend(ax), list(sets), tag)
    if uq:
        band = []
        want = []
        for i, v in enumerate(copy.values()):
            if ref and i == 0:
                want.append(v[:, :2])
                continue
            m, lo, hi = spread(v[:, 1:], kind)
            want.append(np.column_stack([v[:, 0], m]))
            band.append(np.column_stack([v[:, 0], lo, hi]))
        check_lines(ctx, ax, want, tag)
        got = bands(ax)
        ctx.same('band-number', len(got), len(band), tag)
        for g, w in zip(got, band):
            ctx.close('band', g, w, rtol=1e-7,
                      scale=abs(w[:, 1:]).max(), msg=tag)
    else:
        want = [v[:, :2].copy() for v in copy.values()]
        if norm:
            lo = min(v[:, 1].min() for v in want)
            hi = max(v[:, 1].max() for v in want)
            for v in want:
                v[:, 0] = np.linspace(0, 1, len(v))
                v[:, 1] = (v[:, 1] - lo)/(hi - lo)
        check_lines(ctx, ax, want, tag)
    # ground-truth against prediction
    pairs = {q: rng.standard_normal((n if equal else int(
        rng.integers(2, 40)), 2))*s for q in sets}
    if uq:
        pairs = {'set 0': pairs['set 0']}
    one = len(pairs) == 1
    err = float(rng.choice([.1, .25])) if rng.random() < .5 else None
    with Record() as r:
        mp.plot_truth_vs_prediction(
            {q: v.copy() for q, v in pairs.items()}, error_bound=err,
            is_normalize_data=norm, is_r2_coefficient=one)
    ctx.same('figures', len(r.figs), 1, tag)
    ax = r.figs[0].axes[0]
    sc = [c for c in ax.collections if type(c).__name__ == 'PathCollection']
    ctx.same('scatter-number', len(sc), len(pairs), tag)
    for c, v in zip(sc, pairs.values()):
        w = (v - v.min())/(v.max() - v.min()) if norm else v
        g = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
        g = g[np.isfinite(g).all(1)]
        ctx.same('scatter-length', g.shape, w.shape, tag)
        ctx.close('truth', g, w, rtol=1e-9, scale=abs(w).max(), msg=tag)
        if one:
            t = [q.get_text() for q in ax.texts if '=' in q.get_text()]
            val = [float(q.split('=')[1].strip('$')) for q in t]
            want = r2(w[:, 0], w[:, 1])
            ctx.ok('r2', len(val) == 1 and abs(val[0] - want)
                   <= .00501 + 1e-9*abs(want), f'{tag}: {t} {want}')
    ctx.ok('axis-label', 'ruth' in ax.get_xlabel()
           and 'rediction' in ax.get_ylabel(), tag)
    ctx.ok('legend', [t for t in legend(ax) if t in pairs] == list(pairs),
           f'{tag}: {legend(ax)}')
    ctx.event('prediction')
    ctx.state('prediction', k, norm, uq, equal)


COMPS = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}


def paths(ctx, n_path, dim, equal, zero=True):
    rng = ctx.rng
    n = int(rng.integers(2, 15))
    T, X = [], []
    s = 10**rng.uniform(-3, 2)
    for _ in range(n_path):
        m = n if equal else int(rng.integers(2, 15))
        T.append(np.concatenate(([0.], np.cumsum(rng.uniform(.1, 1, m - 1)))))
        x = np.cumsum(rng.standard_normal((m, len(COMPS[dim]))), 0)*s
        if zero:
            x -= x[0]
        X.append(x)
    return T, X


def tensor(x, dim):
    t = np.zeros((len(x), dim, dim))
    for k, c in enumerate(COMPS[dim]):
        i, j = int(c[0]) - 1, int(c[1]) - 1
        t[:, i, j] = t[:, j, i] = x[:, k]
    return t


def hist_close(ctx, ax, v, bins, tag):
    v = np.concatenate([np.ravel(q) for q in v])
    v = v[np.isfinite(v)]
    h, e = np.histogram(v, bins=bins, density=True)
    c = ax.containers[0]
    ctx.close('histogram', [p.get_height() for p in c], h, rtol=1e-7,
              scale=h.max(), msg=tag)
    ctx.close('histogram-edges', [p.get_x() for p in c], e[:-1], rtol=1e-7,
              scale=abs(e).max() + 1e-300, msg=tag)


def strain_path(ctx, dim, n_path, equal, single):
    rng = ctx.rng
    T, X = paths(ctx, n_path, dim, equal)
    flags = ('strain_path', 'strain_comp_hist', 'strain_norm',
             'strain_norm_hist', 'inc_strain_norm', 'inc_strain_norm_hist',
             'strain_path_pairs', 'strain_pairs_hist',
             'strain_pairs_marginals', 'strain_comp_box')
    for flag in flags:
        a = (T[0], X[0]) if single else (list(T), list(X))
        t0, x0 = [q.copy() for q in T], [q.copy() for q in X]
        with Record() as r:
            StrainPathGenerator.plot_strain_path(
                'infinitesimal', dim, COMPS[dim], *a,
                **{'is_plot_' + flag: True})
        tag = f'{flag} dim={dim} paths={n_path} equal={equal}'
        for p, q in zip(t0 + x0, T + X):
            ctx.ok('kept', np.array_equal(p, q), f'{tag}: data changed')
        N = [np.linalg.norm(tensor(x, dim), axis=(1, 2)) for x in X]
        D = [np.linalg.norm(np.diff(tensor(x, dim), axis=0), axis=(1, 2))
             for x in X]
        ctx.same('closed', r.open, [], tag)
        figs = [f.axes[0] for f in r.figs]
        if flag == 'strain_path':
            ctx.same('figures', len(figs), min(n_path, 5), tag)
            for ax, t, x in zip(figs, T, X):
                check_lines(ctx, ax, [np.column_stack([t, x[:, j]])
                                      for j in range(x.shape[1])], tag)
                ctx.ok('legend', [q.split()[-1] for q in legend(ax)]
                       == list(COMPS[dim]), f'{tag}: {legend(ax)}')
        elif flag == 'strain_comp_hist':
            ctx.same('figures', len(figs), len(COMPS[dim]), tag)
            for j, ax in enumerate(figs):
                hist_close(ctx, ax, [x[:, j] for x in X], 50, tag)
        elif flag == 'strain_norm':
            check_lines(ctx, figs[0], [np.column_stack([t, v])
                                       for t, v in zip(T, N)], tag)
        elif flag == 'strain_norm_hist':
            hist_close(ctx, figs[0], N, 50, tag)
        elif flag == 'inc_strain_norm':
            # the first time has no increment: shown as null or not at all
            got = [p for _, p in lines(figs[0])]
            ctx.same('line-number', len(got), n_path, tag)
            for g, t, v in zip(got, T, D):
                if len(g) == len(t):
                    ctx.ok('no-increment', g[0, 1] == 0, tag)
                    g = g[1:]
                w = np.column_stack([t[1:], v])
                ctx.same('line-length', g.shape, w.shape, tag)
                ctx.close('line', g, w, rtol=1e-9, scale=abs(w).max(),
                          msg=tag)
        elif flag == 'inc_strain_norm_hist':
            full = sum(len(v) for v in D)
            c = [p.get_height() for p in figs[0].containers[0]]
            w = np.concatenate(D)
            ok = False
            for q in (w, np.concatenate([w, np.zeros(n_path)])):
                h = np.histogram(q, bins=50, density=True)[0]
                ok |= len(h) == len(c) and np.allclose(c, h, rtol=1e-7)
            ctx.ok('increment-histogram', ok, f'{tag}: {full} increments')
        elif flag in ('strain_path_pairs', 'strain_pairs_hist',
                      'strain_pairs_marginals'):
            for ax in figs:
                cx = ax.get_xlabel().split()[-1]
                cy = ax.get_ylabel().split()[-1]
                i, j = COMPS[dim].index(cx), COMPS[dim].index(cy)
                if flag == 'strain_path_pairs':
                    check_lines(ctx, ax, [x[:, [i, j]] for x in X], tag)
                elif flag == 'strain_pairs_hist':
                    v = np.vstack(X)
                    h = np.histogram2d(v[:, i], v[:, j], bins=20)[0]
                    m = [c for c in ax.collections
                         if type(c).__name__ == 'QuadMesh'][0]
                    ctx.close('map', np.ma.filled(m.get_array(), 0).reshape(
                        20, 20), h.T, rtol=1e-9, scale=1., msg=tag)
                else:
                    sc = [c for c in ax.collections
                          if type(c).__name__ == 'PathCollection']
                    ctx.same('scatter-number', len(sc), n_path, tag)
                    for c, x in zip(sc, X):
                        g = np.ma.filled(np.ma.asarray(
                            c.get_offsets(), float), np.nan)
                        g = g[np.isfinite(g).all(1)]
                        ctx.close('scatter', g, x[:, [i, j]], rtol=1e-9,
                                  scale=abs(x).max(), msg=tag)
            ctx.ok('figures', len(figs) >= dim, f'{tag}: {len(figs)}')
        else:
            v = np.vstack(X)
            pts = [F(l.get_ydata()) for l in figs[0].lines]
            flat = [p[0] for p in pts if len(p) == 2 and p[0] == p[1]]
            for j in range(v.shape[1]):
                w = np.median(v[:, j])
                ctx.ok('median', any(abs(f - w) <= 1e-9*abs(v).max()
                                     for f in flat), f'{tag}: median')
    ctx.event('strain-path')
    ctx.state('strain-path', dim, n_path, equal, single)


def stress_space(ctx, n_path, equal, single):
    rng = ctx.rng
    T, X = paths(ctx, n_path, 3, equal, zero=False)
    X = [x/abs(x).max()*rng.uniform(10, 100) for x in X]
    lam = [np.linalg.eigvalsh(tensor(x, 3))[:, ::-1] for x in X]
    dev = [q - q.mean(1, keepdims=True) for q in lam]
    I1 = [q.sum(1) for q in lam]
    I2 = [q[:, 0]*q[:, 1] + q[:, 1]*q[:, 2] + q[:, 0]*q[:, 2] for q in lam]
    I3 = [q.prod(1) for q in lam]
    J2 = [(q**2).sum(1)/2 for q in dev]
    J3 = [q.prod(1) for q in dev]
    tri = [a/3/np.sqrt(3*b) for a, b in zip(I1, J2)]
    lode = [np.clip(27/2*c/(3*b)**1.5, -1, 1) for b, c in zip(J2, J3)]
    for x, *w in zip(X, I1, I2, I3, J2, J3):
        i = int(rng.integers(len(x)))
        inv, dv = MRG.compute_stress_invariants(tensor(x, 3)[i])
        s = abs(x).max()
        for g, q, p in zip((*inv, *dv), (w[0][i], w[1][i], w[2][i], 0.,
                                         w[3][i], w[4][i]),
                           (1, 2, 3, 1, 2, 3)):
            ctx.close('invariant', g, q, rtol=1e-10, scale=s**p,
                      msg='stress invariants')
    flags = ('principal_stress_path', 'pi_stress_path_pairs',
             'stress_invar_hist', 'stress_invar_box',
             'stress_path_triax_lode', 'stress_triax_lode_space',
             'stress_triax_lode_hist', 'stress_triax_lode_box')
    for flag in flags:
        a = (X[0], T[0]) if single else (list(X), list(T))
        np.random.seed(int(rng.integers(1 << 30)))
        with Record() as r:
            MRG.plot_stress_space_metrics(
                'infinitesimal', COMPS[3], *a, **{'is_plot_' + flag: True})
        tag = f'{flag} paths={n_path} equal={equal}'
        ctx.same('closed', r.open, [], tag)
        figs = [f.axes[0] for f in r.figs]
        if flag == 'principal_stress_path':
            check_lines(ctx, figs[0], lam, tag)
        elif flag == 'pi_stress_path_pairs':
            ctx.same('figures', len(figs), 3, tag)
            byax = {}
            for ax in figs:
                key = (ax.get_xlabel().split()[-1],
                       ax.get_ylabel().split()[-1])
                byax[key] = [p for _, p in lines(ax) if len(p)]
                ctx.same('line-number', len(byax[key]), n_path, tag)
            for k in range(n_path):
                p12, p13 = byax[('1', '2')][k], byax[('1', '3')][k]
                ctx.same('line-length', len(p12), len(lam[k]), tag)
                if len(p12) != len(lam[k]):
                    continue
                s = abs(lam[k]).max()
                ctx.close('hydrostatic', p13[:, 1], I1[k]/np.sqrt(3),
                          rtol=1e-9, scale=s, msg=tag)
                ctx.close('radius', (p12**2).sum(1), 2*J2[k], rtol=1e-9,
                          scale=s**2, msg=tag)
                # some order of the principal stresses, the same in time
                R = np.array([[np.sqrt(2/3), -np.sqrt(1/6), -np.sqrt(1/6)],
                              [0, np.sqrt(.5), -np.sqrt(.5)]])
                ctx.ok('pi-plane', any(
                    np.allclose(p12, lam[k][:, list(o)] @ R.T, rtol=1e-9,
                                atol=1e-9*s)
                    for o in itertools.permutations(range(3))), tag)
        elif flag == 'stress_invar_hist':
            ctx.same('figures', len(figs), 6, tag)
            for ax, w in zip(figs, (I1, I2, I3, None, J2, J3)):
                if w is not None:
                    v = np.concatenate(w)
                    h, e = np.histogram(v, bins=50)
                    c = ax.containers[0]
                    # counts may move between bins by rounding only
                    g = np.array([p.get_height()*p.get_width()
                                  for p in c])*len(v)
                    ctx.ok('histogram', len(g) == 50 and abs(
                        np.cumsum(g) - np.cumsum(h)).max() <= 1.01, tag)
        elif flag in ('stress_invar_box', 'stress_triax_lode_box'):
            flat = [p[0] for p in (F(l.get_ydata()) for l in figs[0].lines)
                    if len(p) == 2 and p[0] == p[1]]
            for w in ((I1, I2, I3, J2, J3) if 'invar' in flag
                      else (tri, lode)):
                v = np.concatenate(w)
                m = np.median(v)
                ctx.ok('median', any(abs(f - m) <= 1e-7*abs(v).max()
                                     for f in flat), f'{tag}: {m}')
        elif flag == 'stress_path_triax_lode':
            for ax, w in zip(figs, (tri, lode)):
                check_lines(ctx, ax, [np.column_stack([t, v])
                                      for t, v in zip(T, w)], tag)
        elif flag == 'stress_triax_lode_space':
            sc = [c for c in figs[0].collections
                  if type(c).__name__ == 'PathCollection']
            g = np.vstack([np.ma.filled(np.ma.asarray(
                c.get_offsets(), float), np.nan) for c in sc])
            w = np.column_stack([np.concatenate(lode), np.concatenate(tri)])
            ctx.same('scatter-length', g.shape, w.shape, tag)
            ctx.close('scatter', g, w, rtol=1e-7,
                      scale=max(1., abs(w).max()), msg=tag)
        else:
            for ax, w in zip(figs, (tri, lode)):
                v = np.concatenate(w)
                h, e = np.histogram(v, bins=50)
                c = ax.containers[0]
                g = np.array([p.get_height()*p.get_width()
                              for p in c])*len(v)
                ctx.ok('histogram', len(g) == 50 and abs(
                    np.cumsum(g) - np.cumsum(h)).max() <= 1.01, tag)
    ctx.raises('refused', lambda: MRG.plot_stress_space_metrics(
        'infinitesimal', COMPS[2], X[0][:, :3], T[0]), Exception, 'plane')
    ctx.event('stress-space')
    ctx.state('stress-space', n_path, equal, single)


def response(ctx, dim, n_path, equal, single):
    rng = ctx.rng
    T, E = paths(ctx, n_path, dim, equal)
    S = [rng.standard_normal(x.shape)*100 for x in E]
    a = (T[0], E[0], S[0]) if single else (list(T), list(E), list(S))
    with Record() as r:
        MRG.plot_material_response_path(
            'infinitesimal', dim, COMPS[dim], a[1], COMPS[dim], a[2], a[0],
            is_plot_strain_stress_paths=True, is_plot_eq_strain_stress=True)
    tag = f'response dim={dim} paths={n_path} equal={equal}'
    ctx.same('closed', r.open, [], tag)
    figs = [f.axes[0] for f in r.figs]
    n = 2 if n_path == 1 else 0
    ctx.same('figures', len(figs), n + (dim == 3), tag)
    if n:
        for ax, x in zip(figs, (E, S)):
            check_lines(ctx, ax, [np.column_stack([T[0], x[0][:, j]])
                                  for j in range(x[0].shape[1])], tag)
    if dim == 3:
        def norm(x):
            t = tensor(x, 3)
            d = t - np.eye(3)*(np.trace(t, axis1=1, axis2=2)/3)[
                :, None, None]
            return np.linalg.norm(d, axis=(1, 2))
        check_lines(ctx, figs[n], [np.column_stack(
            [np.sqrt(2/3)*norm(e), np.sqrt(3/2)*norm(s)])
            for e, s in zip(E, S)], tag, 'equivalent')
    # history of a scalar state variable
    V = [abs(rng.standard_normal((len(t), 1))) for t in T]
    b = (V[0], T[0]) if single else (V, T)
    with Record() as r:
        MRG.plot_state_history('infinitesimal', COMPS[dim], COMPS[dim],
                               'acc_p_strain', 'Acc', *b)
    figs = [f.axes[0] for f in r.figs]
    ctx.same('figures', len(figs), 2, tag)
    check_lines(ctx, figs[0], [np.column_stack([t, v])
                               for t, v in zip(T, V)], tag)
    hist_close(ctx, figs[1], V, 50, tag)
    ctx.event('response')
    ctx.state('response', dim, n_path, equal, single)


def cases(tier):
    r = 5 if tier == 'quick' else 30
    out = []
    for i in range(r):
        for k in (1, 2, 3, 5):
            for lab in (True, False):
                for ref in (True, False):
                    out += [('xy', dict(k=k, labels=lab, reference=ref))]*3
            for kind in ('min-max', 'mean-std', None):
                for bar in (True, False):
                    for sh in (True, False):
                        out.append(('xny', dict(k=k, kind=kind, bar=bar,
                                                shade=sh, scatter=False)))
                out.append(('xny', dict(k=k, kind=kind, bar=True,
                                        shade=False, scatter=True)))
                out += [('ranges', dict(k=k, kind=kind))]*2
            out += [('xyz', dict(k=k, surface=False))]*3
            for err in (None, .1, .2):
                for marg in (True, False):
                    out.append(('scatter', dict(k=k, error=err, marg=marg,
                                                coeff=False, dle=False)))
            out += [('chart', dict(k=k))]*3
            for multi in (True, False):
                out += [('boxes', dict(k=k, multi=multi))]*2
            out += [('histograms', dict(k=k, two=False))]*4
            out += [('history', dict(k=k))]*4
            for norm in (True, False):
                out += [('predictions', dict(k=k, norm=norm, uq=False))]*4
            out += [('predictions', dict(k=k, norm=False, uq=True))]*3
        out += [('xy2', {})]*8
        out += [('xyz', dict(k=1, surface=True))]*4
        out += [('histograms', dict(k=1, two=True))]*4
        for c, d in ((True, False), (False, True), (True, True)):
            for err in (None, .1):
                out += [('scatter', dict(k=1, error=err, marg=False,
                                         coeff=c, dle=d))]*3
        for n, eq, single in ((1, True, True), (1, True, False),
                              (3, True, False), (3, False, False),
                              (6, False, False)):
            for dim in (2, 3):
                out += [('strain_path', dict(dim=dim, n_path=n, equal=eq,
                                             single=single))]
                out += [('response', dict(dim=dim, n_path=n, equal=eq,
                                          single=single))]*2
            out += [('stress_space', dict(n_path=n, equal=eq,
                                          single=single))]*2
    return out
