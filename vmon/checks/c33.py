"""C33: convergence studies relate every trained model's result to the size of
its own training data set."""
import os
import pickle
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import torch
from vmon.checks.c22 import T, store
from vmon.checks.c30 import F, Record, bands, bars, check_lines, legend, \
    lines, spread
from ioput import plots
from model_architectures.procedures import convergence_plots as cp
from model_architectures.procedures import model_prediction as mp
from time_series_data import time_dataset as td
from user_scripts.convergence_analyses import \
    plot_convergence_analysis as script
from user_scripts.convergence_analyses import \
    plot_noisy_convergence_analysis as noisy

PROPERTY = 'C33'
RULE = ('random convergence studies on disk (several models of different '
        'training sizes in any order, ensembles of models with gaps in their '
        'numbering, more than ten members, files which belong to nothing) '
        'through every routine; artists of the figures, stored plot data and '
        'stored files are compared with the generated losses, parameters, '
        'truths and predictions; non-trivial: distinct (routine, number of '
        'models, of members, of samples)')
ASSUMPTIONS = ['no LaTeX installation', 'Agg backend',
               'training sizes of a study are distinct',
               'every ensemble of a study has as many members']
REQUIRED_EVENTS = ('loss', 'parameters', 'scatter', 'path', 'loss-uq',
                   'parameters-uq', 'path-uq', 'noise', 'stored', 'refused',
                   'several-types', 'script')


def study(ctx, uq):
    """A convergence study on disk."""
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    base = ctx.tmpdir()
    od = bool(rng.random() < .3)
    kind = 'out_distribution' if od else 'in_distribution'
    n_m = ctx.size(1, 5, 12, .1)
    n_t = ctx.size(1, 5, 14, .15)
    k = 6
    n_e = ctx.size(1, 5, 14, .2) if uq else 0
    s = dict(base=base, n_m=n_m, n_t=n_t, n_e=n_e, kind=kind, k=k)
    pool = range(1, 40)
    s['sizes'] = [int(x) for x in rng.choice(pool, n_m, replace=False)]
    if rng.random() < .5:
        s['sizes'].sort()
    s['times'], s['truth'] = [], []
    mag = 10**rng.uniform(-2, 3)
    for i in range(n_t):
        t = int(rng.integers(2, 8))
        s['times'].append(np.cumsum(rng.uniform(.1, 1., t)))
        s['truth'].append(mag*rng.standard_normal((t, k)))
    s['names'] = [str(x) for x in rng.permutation(
        ['E', 'v', 's0', 'a', 'b', 'K_1'])[:int(rng.integers(1, 5))]]
    for q in ('dirs', 'train', 'test', 'pred'):
        s[q] = []
    s['loss'], s['par'], s['out'] = [], [], []
    s['eloss'], s['epar'], s['eout'] = [], [], []
    for m in range(n_m):
        d = os.path.join(base, f'n{s["sizes"][m]}')
        tr = os.path.join(d, '1_training_dataset')
        te = os.path.join(d, '6_testing_od_dataset' if od
                          else '5_testing_id_dataset')
        pr = os.path.join(d, '7_prediction', kind, 'prediction_set_0')
        mo = os.path.join(d, '3_model')
        for q in (tr, te, pr, mo):
            os.makedirs(q)
        dataset(tr, [{'time_hist': T(np.zeros((1, 1)))}]*s['sizes'][m])
        dataset(te, [{'time_hist': T(t).reshape(-1, 1)} for t in s['times']])
        noise(rng, tr)
        noise(rng, te)
        s['dirs'].append(d)
        s['train'].append(tr)
        s['test'].append(te)
        s['pred'].append(pr)
        s['loss'].append(summary(ctx, pr, s['n_t']))
        s['out'].append([mag*rng.standard_normal(v.shape)
                         for v in s['truth']])
        samples(pr, s['truth'], s['out'][-1])
        keys = [str(x) for x in rng.permutation(s['names'])] if m else \
            s['names']
        s['par'].append({q: 10**rng.uniform(-3, 5) for q in keys})
        with open(os.path.join(mo, 'parameters_best.pkl'), 'wb') as h:
            pickle.dump({'best_model_parameters': s['par'][-1],
                         'model_parameters_bounds': {
                             q: (-1e9, 1e9) for q in s['names']}}, h)
        if not uq:
            continue
        u = os.path.join(d, 'uncertainty_quantification')
        ids = sorted(int(x) for x in rng.choice(range(n_e + 4), n_e,
                                                replace=False))
        s['eloss'].append([])
        s['eout'].append([])
        for e in ids:
            p = os.path.join(u, f'model_{e}', '7_prediction', kind)
            os.makedirs(p)
            s['eloss'][-1].append(summary(ctx, p, s['n_t']))
            s['eout'][-1].append([mag*rng.standard_normal(v.shape)
                                  for v in s['truth']])
            samples(p, s['truth'], s['eout'][-1][-1])
        for q in ('old_model_3', 'models', 'model_'):
            if rng.random() < .2:
                os.makedirs(os.path.join(u, q))
        p = os.path.join(u, 'plots', 'data')
        os.makedirs(p)
        s['epar'].append(10**rng.uniform(-3, 5, (n_e, len(s['names']))))
        with open(os.path.join(p, 'set_best_parameters_data.pkl'),
                  'wb') as h:
            pickle.dump({'samples_parameters_data': s['epar'][-1],
                         'model_parameters_names': s['names']}, h)
    return s


def dataset(d, samples):
    td.save_dataset(td.TimeSeriesDatasetInMemory(list(samples)),
                    'ss_paths_dataset', d, is_append_n_sample=True)
    if not any(f.startswith('ss_paths_dataset_n') for f in os.listdir(d)):
        raise RuntimeError(f'unexpected name {os.listdir(d)}')


def noise(rng, d):
    for f in ('ss_paths_dataset.pkl', 'old_ss_paths_dataset_n3.pkl',
              'ss_paths_dataset_n4.pkl.bak', 'ss_paths_dataset_nx.pkl'):
        if rng.random() < .2:
            with open(os.path.join(d, f), 'w') as h:
                h.write('x')


def summary(ctx, d, n):
    """Prediction summary of the real code, loss as it can be read there."""
    loss = float(f'{10**ctx.rng.uniform(-8, 8):.8e}')
    mp.write_prediction_summary_file(
        d, 'cpu', None, '/some/model 3', 'best', 'mse',
        {'a': 1} if ctx.rng.random() < .3 else {},
        False, None, range(n), loss, 12., 3.)
    return loss


def samples(d, truth, out):
    for i, (t, o) in enumerate(zip(truth, out)):
        store(d, i, {'features_out': T(o), 'targets': T(t)})


class Saved:
    """Names of the figures stored by the real code, stored or not."""

    def __init__(self, ctx):
        self.real = ctx.rng.random() < .1

    def __enter__(self):
        self.got, self.old = [], cp.save_figure
        self.oldm = mp.save_figure

        def save(fig, name, format='pdf', save_dir=None, **k):
            self.got.append((fig, name, save_dir))
            if self.real:
                self.old(fig, name, format=format, save_dir=save_dir, **k)
        cp.save_figure = mp.save_figure = save
        return self

    def __exit__(self, *a):
        cp.save_figure, mp.save_figure = self.old, self.oldm

    def check(self, ctx, figs, names, d, tag):
        if [n for _, n, _ in self.got] == names and \
                all(q is d for _, _, q in self.got):
            ctx.ok('stored', [f for f, _, _ in self.got] == figs,
                   f'{tag}: figures')
        ctx.same('stored', [n for _, n, _ in self.got], names, tag)
        if self.real:
            have = {os.path.splitext(f)[0] for f in os.listdir(d)}
            ctx.ok('stored', set(names) <= have, f'{tag}: {have}')
        ctx.event('stored', len(names))


def offsets(ax):
    out = []
    for c in ax.collections:
        if type(c).__name__ == 'PathCollection':
            g = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
            out.append(g[np.isfinite(g).all(1)])
    return out


def rows(ctx, rule, got, want, tag):
    """The same points, whatever their order."""
    ctx.same(rule, got.shape, want.shape, tag)
    if got.shape == want.shape:
        a = got[np.lexsort(got.T[::-1])]
        b = want[np.lexsort(want.T[::-1])]
        for j in range(a.shape[1]):
            ctx.close(rule, a[:, j], b[:, j], rtol=1e-9, atol=1e-300,
                      msg=tag)


def close(r, ctx, tag):
    ctx.same('closed', r.open, [], f'{tag}: figures left open')


def loss(ctx, uq):
    s = study(ctx, uq)
    d = ctx.tmpdir()
    fig_on, data_on = bool(ctx.rng.random() < .5), bool(ctx.rng.random() < .7)
    f = cp.plot_prediction_loss_convergence_uq if uq else \
        cp.plot_prediction_loss_convergence
    tag = f'loss uq={uq} {s["n_m"]} models {s["n_e"]} members'
    with Record() as r, Saved(ctx) as sv:
        f(s['dirs'], s['train'], s['pred'], filename='conv', save_dir=d,
          is_save_fig=fig_on, is_save_plot_data=data_on, is_latex=False)
    ctx.same('figures', len(r.figs), 1, tag)
    ax = r.figs[0].axes[0]
    L = np.array(s['eloss'] if uq else s['loss'])
    if uq:
        m, lo, hi = spread(L, 'min-max')
        errorbars(ctx, ax, [np.column_stack([s['sizes'], m])],
                  [np.column_stack([s['sizes'], lo, hi])], tag)
    else:
        o = offsets(ax)
        ctx.same('loss', len(o), 1, tag)
        rows(ctx, 'loss', o[0], np.column_stack([s['sizes'], L]), tag)
    ctx.ok('axis', 'raining' in ax.get_xlabel() and 'loss' in
           ax.get_ylabel() and ax.get_xscale() == ax.get_yscale() == 'log',
           tag)
    sv.check(ctx, r.figs if fig_on else [], ['conv'] if fig_on else [], d,
             tag)
    close(r, ctx, tag)
    p = os.path.join(d, 'plot_data', 'conv_data.pkl')
    ctx.same('plot-data', os.path.isfile(p), data_on, tag)
    if data_on:
        with open(p, 'rb') as h:
            q = pickle.load(h)
        x = np.asarray(q['data_xy'], float)
        ctx.same('plot-data', q['n_models'], s['n_m'], tag)
        if uq:
            ctx.same('plot-data', q['n_model_sample'], s['n_e'], tag)
            w = np.empty((s['n_m'], 2*s['n_e']))
            w[:, 0::2] = np.array(s['sizes'])[:, None]
            w[:, 1::2] = L
        else:
            w = np.column_stack([s['sizes'], L])
        ctx.close('plot-data', x, w, rtol=1e-9, msg=tag)
    # a study which is not complete
    broken(ctx, s, uq, lambda: f(s['dirs'], s['train'], s['pred'],
                                 is_latex=False), ('train', 'summary'))
    ctx.event('loss-uq' if uq else 'loss')
    ctx.state('loss', uq, s['n_m'], s['n_e'])


def errorbars(ctx, ax, want, band, tag):
    caps = {id(q) for c in ax.containers if hasattr(c, 'has_yerr')
            for q in c[1]}
    got = [p for l, p in lines(ax) if id(l) not in caps and len(p)]
    ctx.same('mean-number', len(got), len(want), tag)
    for g, w in zip(got, want):
        rows(ctx, 'mean', g, w, tag)
    found = bars(ax)
    ctx.same('range-number', len(found), len(band), tag)
    for g, w in zip(found, band):
        ctx.same('range', g.shape, w.shape, tag)
        if g.shape == w.shape:
            a, b = g[np.argsort(g[:, 0])], w[np.argsort(w[:, 0])]
            ctx.close('range', a[:, 0], b[:, 0], rtol=1e-9, msg=tag)
            for i in range(len(b)):
                ctx.close('range', a[i, 1:], b[i, 1:], rtol=1e-7,
                          scale=abs(b[i, 1:]).max(), msg=tag)


def broken(ctx, s, uq, fn, what):
    """Something of the study is missing."""
    rng = ctx.rng
    i = int(rng.integers(s['n_m']))
    w = str(rng.choice(what))
    if w in ('train', 'test'):
        d = s[w][i]
        g = [q for q in os.listdir(d) if q.startswith('ss_paths_dataset_n')
             and q.endswith('.pkl') and not q.endswith('nx.pkl')][0]
        p = os.path.join(d, g)
    elif w in ('summary', 'sample'):
        d = s['pred'][i]
        if uq:
            u = os.path.join(s['dirs'][i], 'uncertainty_quantification')
            e = [q for q in os.listdir(u) if os.path.isdir(
                os.path.join(u, q, '7_prediction'))]
            d = os.path.join(u, str(rng.choice(sorted(e))), '7_prediction',
                             s['kind'])
        p = os.path.join(d, 'summary.dat' if w == 'summary' else
                         f'prediction_sample_{int(rng.integers(s["n_t"]))}'
                         '.pkl')
    else:
        p = os.path.join(s['dirs'][i], '3_model', 'parameters_best.pkl') \
            if not uq else os.path.join(
                s['dirs'][i], 'uncertainty_quantification', 'plots', 'data',
                'set_best_parameters_data.pkl')
    if w == 'summary' and rng.random() < .5:
        with open(p) as h:
            t = [q for q in h if 'Avg. prediction loss' not in q]
        with open(p, 'w') as h:
            h.writelines(t)
    else:
        os.remove(p)
    with Record():
        ctx.raises('incomplete', fn, Exception, f'{w} of model {i} missing')
    ctx.event('refused')


def parameters(ctx, uq):
    s = study(ctx, uq)
    d = ctx.tmpdir()
    on = bool(ctx.rng.random() < .5)
    f = cp.plot_best_parameters_convergence_uq if uq else \
        cp.plot_best_parameters_convergence
    tag = f'parameters uq={uq} {s["n_m"]} models {s["n_e"]} members'
    with Record() as r, Saved(ctx) as sv:
        f(s['dirs'], s['train'], filename='par', save_dir=d, is_save_fig=on,
          is_latex=False)
    ctx.same('figures', len(r.figs), len(s['names']), tag)
    for j, (fig, name) in enumerate(zip(r.figs, s['names'])):
        ax = fig.axes[0]
        ctx.same('parameter-name', ax.get_ylabel(), name, tag)
        ctx.ok('axis', 'raining' in ax.get_xlabel(), tag)
        if not uq:
            o = offsets(ax)
            ctx.same('parameter', len(o), 1, tag)
            rows(ctx, 'parameter', o[0], np.column_stack(
                [s['sizes'], [q[name] for q in s['par']]]), tag)
            continue
        ctx.same('parameter-boxes', len(ax.patches), s['n_m'], tag)
        ctx.same('parameter-sizes', [t.get_text() for t in
                                     ax.get_xticklabels()],
                 [str(q) for q in s['sizes']], tag)
        pts = [F(l.get_ydata()) for l in ax.lines]
        flat = [p[0] for p in pts if len(p) == 2 and p[0] == p[1]]
        for m, b in enumerate(ax.patches):
            v = s['epar'][m][:, j]
            q1, q2, q3 = np.percentile(v, [25, 50, 75])
            y = b.get_path().vertices[:4, 1]
            ctx.close('parameter-box', [y.min(), y.max()], [q1, q3],
                      rtol=1e-9, scale=abs(v).max(), msg=tag)
            for q in (q2, v.mean()):
                ctx.ok('parameter-centre', any(
                    abs(x - q) <= 1e-9*abs(v).max() for x in flat),
                    f'{tag}: no line at {q}')
    names = [f'par_{q}' for q in s['names']] if on else []
    sv.check(ctx, r.figs if on else [], names, d, tag)
    close(r, ctx, tag)
    broken(ctx, s, uq, lambda: f(s['dirs'], s['train'], is_latex=False),
           ('train', 'parameters'))
    ctx.event('parameters-uq' if uq else 'parameters')
    ctx.state('parameters', uq, s['n_m'], len(s['names']))


Y = {'stress_comps': 'tress', 'p_strain_comps': 'lastic'}


def series(ctx, uq, path):
    rng = ctx.rng
    s = study(ctx, uq)
    d = ctx.tmpdir()
    on = bool(rng.random() < .5)
    f = cp.plot_time_series_convergence_uq if uq else \
        cp.plot_time_series_convergence
    n_t = s['n_t']
    ids = 'all' if rng.random() < .5 else [int(i) for i in rng.permutation(
        n_t)[:int(rng.integers(1, n_t + 1))]]
    types = {}
    for q in rng.permutation(sorted(Y))[:int(rng.integers(1, 3))]:
        types[str(q)] = tuple(f'{q}_{j}' for j in range(
            int(rng.integers(1, 4))))
    if len(types) > 1:
        ctx.event('several-types')
    kw = dict(samples_ids=ids if ids == 'all' else list(ids),
              plot_type='time_series_path' if path else
              'time_series_scatter')
    tag = f'series uq={uq} path={path} ids={ids} {types}'
    args = (s['dirs'], s['train'], s['test'], s['pred'], types)
    if uq and not path:
        ctx.raises('refused', lambda: f(*args, is_latex=False, **kw),
                   Exception, tag)
        return
    with Record() as r, Saved(ctx) as sv:
        f(*args, filename='ts', save_dir=d, is_save_fig=on, is_latex=False,
          **kw)
    if ids != 'all':
        ctx.same('kept', kw['samples_ids'], ids, 'sample list')
    use = list(range(n_t)) if ids == 'all' else ids
    labels = [f'N = {q}' for q in s['sizes']]
    figs, names = list(r.figs), []
    for typ, comps in types.items():
        for j, c in enumerate(comps):
            if not path:
                names.append(f'ts_{c}_scatter')
                if not figs:
                    continue
                ax = figs.pop(0).axes[0]
                o = offsets(ax)
                ctx.same('scatter-sets', len(o), s['n_m'], tag)
                for m, g in enumerate(o):
                    w = np.concatenate([np.column_stack(
                        [s['truth'][i][:, j], s['out'][m][i][:, j]])
                        for i in use])
                    rows(ctx, 'scatter', g, w, f'{tag}: model {m}')
                ctx.same('legend', [t for t in legend(ax)
                                    if t.startswith('N')], labels, tag)
                ctx.event('scatter')
                continue
            for i in use:
                names.append(f'ts_{c}_path_sample_{i}')
                if not figs:
                    continue
                ax = figs.pop(0).axes[0]
                t = s['times'][i]
                want = [np.column_stack([t, s['truth'][i][:, j]])]
                band = []
                for m in range(s['n_m']):
                    if uq:
                        v = np.column_stack([e[i][:, j]
                                             for e in s['eout'][m]])
                        q = spread(v, 'min-max')
                        want.append(np.column_stack([t, q[0]]))
                        band.append(np.column_stack([t, q[1], q[2]]))
                    else:
                        want.append(np.column_stack(
                            [t, s['out'][m][i][:, j]]))
                check_lines(ctx, ax, want, f'{tag}: {c} sample {i}', 'path')
                got = bands(ax)
                ctx.same('range-number', len(got), len(band), tag)
                for g, w in zip(got, band):
                    ctx.close('range', g, w, rtol=1e-7,
                              scale=abs(w).max(), msg=tag)
                lg = legend(ax)
                ctx.ok('legend', lg[1:] == labels and 'ruth' in lg[0],
                       f'{tag}: {lg}')
                ctx.ok('axis', Y[typ] in ax.get_ylabel()
                       and 'Time' in ax.get_xlabel(),
                       f'{tag}: {ax.get_ylabel()}')
                ctx.event('path-uq' if uq else 'path')
    ctx.same('figures', len(r.figs), len(names), tag)
    sv.check(ctx, r.figs if on else [], names if on else [], d, tag)
    close(r, ctx, tag)
    ctx.raises('refused', lambda: f(*args, plot_type='time_series'),
               Exception, 'unknown plot')
    if s['n_m'] > 1 and rng.random() < .5:
        # testing data set of another size
        m = int(rng.integers(s['n_m']))
        for q in os.listdir(s['test'][m]):
            os.remove(os.path.join(s['test'][m], q))
        dataset(s['test'][m], [{'time_hist': T(t).reshape(-1, 1)}
                               for t in s['times'] + [np.ones(3)]])
        with Record():
            ctx.raises('testing-size', lambda: f(*args, is_latex=False,
                                                 **kw), Exception, tag)
    else:
        broken(ctx, s, uq, lambda: f(*args, is_latex=False, **dict(
            kw, samples_ids=list(range(n_t)))), ('train', 'test', 'sample'))
    ctx.state('series', uq, path, s['n_m'], n_t, len(types))


def noise_cases(ctx, raw):
    """Ensembles of several noise cases."""
    rng = ctx.rng
    if raw:
        n_c, n_e, n = (int(rng.integers(1, 5)) for _ in range(3))
        x = np.sort(rng.uniform(1, 9, n))
        L = 10**rng.uniform(-3, 3)*rng.uniform(.1, 1, (n_c, n, n_e))
        d = np.empty((n, 2*n_c*n_e))
        d[:, 0::2] = x[:, None]
        for c in range(n_c):
            d[:, 2*c*n_e + 1:2*(c + 1)*n_e:2] = L[c]
        if rng.random() < .5:
            d = d.astype(object)
        kind = [None, 'min-max', 'mean-std'][int(rng.integers(3))]
        bar = bool(rng.random() < .8)
        names = [f'c{i}' for i in range(n_c if bar else n_c*n_e)] if \
            rng.random() < .6 else None
        tag = f'cases {n_c} members {n_e} {kind} bar={bar}'
        fig, ax = noisy.scatter_xy_data_noise_cases(
            d.copy(), names, n_noise_case=n_c, n_model_sample=n_e,
            is_error_bar=bar, range_type=kind, x_label='x', y_label='y')
        ctx.raises('refused', lambda: noisy.scatter_xy_data_noise_cases(
            d[:, 1:]), Exception, 'columns')
        ctx.raises('refused', lambda: noisy.scatter_xy_data_noise_cases(
            d, (names or []) + ['q']*(n_c*n_e + 1)), Exception, 'labels')
        if not bar:
            o = offsets(ax)
            ctx.same('noise', len(o), n_c*n_e, tag)
            for i, g in enumerate(o):
                rows(ctx, 'noise', g, d[:, 2*i:2*i + 2].astype(float), tag)
    else:
        n_c = int(rng.integers(1, 4))
        st = [study(ctx, True)]
        while len(st) < n_c:
            q = study(ctx, True)
            st.append(q)
            # the same sizes and as many members in every case
        s0 = st[0]
        n, n_e = s0['n_m'], s0['n_e']
        x = np.array(s0['sizes'], float)
        dirs, train, pred, L = [], [], [], np.empty((n_c, n, n_e))
        for c in range(n_c):
            for m in range(n):
                b = os.path.join(st[c]['base'], f'case{c}', f'm{m}')
                tr = os.path.join(b, '1_training_dataset')
                os.makedirs(tr)
                dataset(tr, [{'time_hist': T(np.zeros((1, 1)))}]*int(x[m]))
                dirs.append(b)
                train.append(tr)
                pred.append(os.path.join(b, '7_prediction', s0['kind'],
                                         'prediction_set_0'))
                for e in range(n_e):
                    p = os.path.join(b, 'uncertainty_quantification',
                                     f'model_{e}', '7_prediction',
                                     s0['kind'])
                    os.makedirs(p)
                    L[c, m, e] = summary(ctx, p, 3)
        names = [f'c{i}' for i in range(n_c)]
        kind, bar = 'min-max', True
        tag = f'study: cases {n_c} members {n_e}'
        with Record() as r:
            noisy.generate_convergence_plots(
                n_c, names, dirs, train, None, pred,
                is_uncertainty_quantification=True, is_latex=False)
        ctx.same('figures', len(r.figs), 1, tag)
        ax = r.figs[0].axes[0]
    if bar:
        want, band = [], []
        for c in range(n_c):
            m, lo, hi = spread(L[c], kind)
            want.append(np.column_stack([x, m]))
            if kind:
                band.append(np.column_stack([x, lo, hi]))
        errorbars(ctx, ax, want, band, tag)
    ctx.same('legend', legend(ax), names or [], tag)
    plt.close('all')
    ctx.event('noise')
    ctx.state('noise', raw, n_c, n_e, n)


def scripted(ctx, uq):
    """The study as the script runs it."""
    s = study(ctx, uq)
    while s['n_t'] < 5:
        s = study(ctx, uq)
    d = ctx.tmpdir()
    with Record() as r, Saved(ctx) as sv:
        script.generate_convergence_plots(
            s['dirs'], s['train'], s['test'], s['pred'],
            is_uncertainty_quantification=uq, save_dir=d, is_save_fig=True,
            is_latex=False)
    tag = f'script uq={uq}'
    n = [q for _, q, _ in sv.got]
    comps = [f'stress_{q}' for q in ('11', '22', '33', '12', '23', '13')]
    want = ['testing_loss_convergence' + '_uq'*uq]
    b = 'time_series_convergence' + '_uq'*uq
    if not uq:
        want += [f'{b}_{c}_scatter' for c in comps]
    want += [f'{b}_{c}_path_sample_{i}' for c in comps for i in range(5)]
    ctx.same('script', n, want, tag)
    ctx.ok('script', all(q is d for _, _, q in sv.got), tag)
    ctx.ok('script', os.path.isfile(os.path.join(
        d, 'plot_data', want[0] + '_data.pkl')), f'{tag}: plot data')
    for fig, name, _ in sv.got:
        if '_path_' not in name:
            continue
        c, i = name.split('convergence_')[1].replace('uq_', '').split(
            '_path_sample_')
        j, i = comps.index(c), int(i)
        t = s['times'][i]
        w = [np.column_stack([t, s['truth'][i][:, j]])]
        for m in range(s['n_m']):
            y = np.mean([e[i][:, j] for e in s['eout'][m]], 0) if uq else \
                s['out'][m][i][:, j]
            w.append(np.column_stack([t, y]))
        check_lines(ctx, fig.axes[0], w, f'{tag}: {name}', 'script-path')
    ctx.event('script')
    ctx.state('script', uq, s['n_m'], s['n_t'])


def cases(tier):
    n = 30 if tier == 'quick' else 400
    out = []
    for i in range(n):
        for uq in (False, True):
            out += [('loss', dict(uq=uq)), ('parameters', dict(uq=uq)),
                    ('series', dict(uq=uq, path=True))]
            if i % 6 == 0:
                out.append(('scripted', dict(uq=uq)))
        out += [('series', dict(uq=False, path=False)),
                ('noise_cases', dict(raw=True))]
        if i % 3 == 0:
            out += [('series', dict(uq=True, path=False)),
                    ('noise_cases', dict(raw=False))]
    return out
