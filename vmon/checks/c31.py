"""C31: data set pruning sets the easiest samples aside and loses none."""
import contextlib
import copy
import hashlib
import io
import os
import pickle
import re
import shutil
import numpy as np
import torch
from vmon.checks.c30 import Record, check_lines, points, legend
from vmon.checks.c19 import _sizes
from time_series_data import time_dataset as td
from time_series_data.time_dataset import (TimeSeriesDataset,
                                           TimeSeriesDatasetInMemory)
from utilities import output_prediction_metrics as om
from user_scripts.local_model_update.rnn_material_model import \
    train_model as tm
from user_scripts.local_model_update.rnn_material_model import predict as pm
from miscellaneous.pruning import pruning_dataset as pd

PROPERTY = 'C31'
RULE = ('whole pruning processes run with stand-ins for training and '
        'prediction that log the samples they are handed and give every '
        'sample a loss of its own, changing at each step; an offline checker '
        'of the log decides partition, choice, counts, limits and records; '
        'non-trivial: distinct (schedule, sizes, limit, testing types)')
ASSUMPTIONS = ['training and prediction themselves are C21 and C22',
               'splits that leave a subset empty are not asked for']
REQUIRED_EVENTS = ('pruned', 'iteration', 'stop', 'ties', 'rerun', 'preview',
                   'figures', 'reject', 'removed', 'kept', 'equal-sizes')
BASE = 'ss_paths_dataset'
DIRS = {'in_distribution': '5_testing_id_dataset',
        'out_distribution': '6_testing_od_dataset'}


def key(s):
    return int(s['strain_path'][0, 0])


def make(rng, first, n, T):
    out = []
    for i in range(n):
        x = torch.tensor(rng.standard_normal((T, 6)))
        x[0, 0] = first + i
        out.append({'strain_path': x,
                    'stress_path': torch.tensor(rng.standard_normal((T, 6)))})
    return out


def store(d, samples, files):
    os.makedirs(d)
    if files:
        paths = []
        for i, s in enumerate(samples):
            paths.append(os.path.join(d, f'ss_path_sample_{i}.pt'))
            torch.save(s, paths[-1])
        ds = TimeSeriesDataset(d, paths)
    else:
        ds = TimeSeriesDatasetInMemory([dict(s) for s in samples])
    td.save_dataset(ds, BASE, d, is_append_n_sample=True)


def digest(d):
    h = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            h[os.path.relpath(p, d)] = hashlib.md5(
                open(p, 'rb').read()).hexdigest()
    return h


class StandIn:
    """Training and prediction that log what they are handed."""

    def __init__(self, ctx, everyone, tie, metrics):
        self.ctx, self.everyone = ctx, everyone
        self.log, self.tie, self.metrics = [], tie, metrics
        self.n = 0

    def load(self, path):
        ds = td.load_dataset(path)
        ids = []
        for i in range(len(ds)):
            s = ds[i]
            k = key(s)
            want = self.everyone.get(k)
            self.ctx.ok('sample kept', want is not None
                        and s.keys() == want.keys()
                        and all(torch.equal(s[q], want[q]) for q in want),
                        f'sample {k} of {path} is not one of the data set',
                        key='sample')
            ids.append(k)
        return ids

    def train(self, train_dataset_file_path, model_directory,
              val_dataset_file_path=None, *args, **kw):
        ctx = self.ctx
        self.n += 1
        ctx.same('model directory', os.listdir(model_directory), [],
                 'model trained in a used directory')
        e = dict(kind='train', n=self.n, dir=model_directory,
                 train=self.load(train_dataset_file_path),
                 val=self.load(val_dataset_file_path))
        with open(os.path.join(model_directory, 'mark'), 'w') as f:
            f.write(str(self.n))
        self.log.append(e)

    def predict(self, predict_directory, dataset_file_path, model_directory,
                is_remove_sample_prediction=False, *args, **kw):
        ctx, rng = self.ctx, self.ctx.rng
        mark = os.path.join(model_directory, 'mark')
        n = int(open(mark).read()) if os.path.isfile(mark) else None
        ids = self.load(dataset_file_path)
        out = os.path.join(predict_directory, 'prediction_set_0')
        ctx.ok('prediction directory', os.path.isdir(predict_directory)
               and not os.path.exists(out), 'prediction in a used directory')
        os.makedirs(out)
        m = len(ids)
        # losses of this prediction
        mode = int(rng.integers(4))
        if self.tie:
            loss = rng.integers(0, max(2, m//2), m).astype(float)
        elif mode == 0:
            loss = 10.**rng.uniform(-12, 12, m)
        elif mode == 1:
            loss = np.array([9. + i for i in rng.permutation(m)])
        else:
            loss = rng.random(m)
        as_tensor = rng.random() < .5
        for i in rng.permutation(m):
            x = torch.tensor(loss[i]) if as_tensor else float(loss[i])
            with open(os.path.join(
                    out, f'prediction_sample_{i}.pkl'), 'wb') as f:
                pickle.dump({'prediction_loss_data':
                             ('features_out', 'mse', x, False),
                             'features_out': torch.zeros(2, 6)}, f)
        open(os.path.join(out, 'summary.dat'), 'w').write('-')
        nrmse = None
        if self.metrics:
            d = os.path.join(out, 'prediction_metrics')
            os.makedirs(d)
            v = rng.random(6)
            om.write_mean_metrics_results_file(
                d, m, {'rmse': torch.tensor(rng.random(6)),
                       'nrmse': torch.tensor(v)})
            nrmse = float(np.mean([float(f'{q:.8e}') for q in v]))
        if is_remove_sample_prediction:
            for f in os.listdir(out):
                if f.startswith('prediction_sample'):
                    os.remove(os.path.join(out, f))
        avg = float(np.mean(loss))
        self.log.append(dict(kind='predict', n=n, ids=ids, avg=avg,
                             loss=dict(zip(ids, loss)), nrmse=nrmse,
                             dir=model_directory))
        return out, avg

    def __enter__(self):
        self.old = []
        for mod in (pd, tm, pm):
            for name, f in (('perform_model_standard_training', self.train),
                            ('perform_model_prediction', self.predict)):
                if hasattr(mod, name):
                    self.old.append((mod, name, getattr(mod, name)))
                    setattr(mod, name, f)
        return self

    def __exit__(self, *a):
        for mod, name, f in self.old:
            setattr(mod, name, f)


def limit(p, n_dev, n_full):
    """Limits that stop the process (none, or the admissible ones)."""
    fr = list(p['pruning_step_sizes'].values())
    n_test = _sizes(n_dev, fr)[2]
    n_prun = scheduled(p, n_dev)
    r = n_dev/n_full
    near = abs(r - p['ratio_dev_min']) < 1e-9
    if n_dev <= p['n_dev_min']:
        return {'size'}
    if near:
        return {'ratio', None}
    if r < p['ratio_dev_min']:
        return {'ratio'}
    if n_test < p['n_prun_test_min']:
        return {'test'}
    if n_prun/n_test > p['prun_test_ratio_max']:
        return {'share'}
    return {None}


def scheduled(p, n_dev):
    q = p['prun_scheduler_params']
    if p['prun_scheduler_type'] == 'constant':
        return q['n_prun_sample']
    return int(q['prun_ratio']*n_dev)


def kind_of(status):
    s = status.lower()
    if 'iterations' in s:
        return 'iterations'
    if 'share' in s or 'testing ratio' in s:
        return 'share'
    if 'ratio' in s:
        return 'ratio' if 'development' in s else '?'
    if 'testing' in s:
        return 'test'
    return 'size' if 'development' in s else '?'


def parameters(rng, n, focus):
    if rng.random() < .5:
        sched = ('constant', {'n_prun_sample': int(rng.integers(
            1, max(2, n//20) + 1))})
    else:
        sched = ('proportional', {'prun_ratio': float(
            rng.choice([.03, .05, .1, .02]))})
    step = [(.6, .2, .2), (.5, .25, .25), (.4, .3, .3), (.34, .33, .33),
            (.6, .15, .25)][int(rng.integers(5))]
    it = [(.8, .2), (.7, .3), (.5, .5)][int(rng.integers(3))]
    p = {'n_iter_max': int(rng.integers(2, 7)),
         'prun_scheduler_type': sched[0], 'prun_scheduler_params': sched[1],
         'n_dev_min': 12, 'ratio_dev_min': .01, 'n_prun_test_min': 1,
         'prun_test_ratio_max': 1.,
         'pruning_step_sizes': dict(zip(('training', 'validation',
                                         'testing'), step)),
         'pruning_iter_sizes': dict(zip(('training', 'validation'), it))}
    if focus == 'iterations':
        p['n_iter_max'] = int(rng.integers(0, 5))
    else:
        p['n_iter_max'] = 14
    if focus == 'size':
        p['n_dev_min'] = int(rng.integers(12, n + 1))
    if focus == 'ratio':
        p['ratio_dev_min'] = float(rng.uniform(.5, .99))
    if focus == 'test':
        p['n_prun_test_min'] = int(np.ceil(step[2]*n*rng.uniform(.6, 1.02)))
    if focus == 'share':
        if sched[0] == 'proportional':
            p['prun_scheduler_params'] = {'prun_ratio': float(
                rng.choice([.1, .125, .05]))}
        else:
            p['prun_scheduler_params'] = {
                'n_prun_sample': max(1, int(step[2]*n*rng.uniform(.2, .5)))}
        p['prun_test_ratio_max'] = float(rng.choice([.5, .25, .4, .75]))
    return p


def setup(ctx, n, types, files):
    rng = ctx.rng
    T = int(rng.integers(1, 4))
    d = ctx.tmpdir()
    base = os.path.join(d, 'base_datasets')
    os.makedirs(base)
    full = make(rng, 1, n, T)
    sets = {'in_distribution': make(rng, 10001, int(rng.integers(1, 25)), T),
            'out_distribution': make(rng, 20001, int(rng.integers(1, 25)), T)}
    store(os.path.join(base, '1_training_dataset'), full, files)
    open(os.path.join(base, '1_training_dataset', 'summary.dat'),
         'w').write('x')
    for t in DIRS:
        if t in types or rng.random() < .5:
            b = os.path.join(base, DIRS[t])
            store(b, sets[t], files)
            open(os.path.join(b, 'summary.dat'), 'w').write('x')
            os.makedirs(os.path.join(b, 'plots'))
            open(os.path.join(b, 'plots', 'a.pdf'), 'w').write('x')
    return d, base, full, sets


def audit(ctx, d, p, n, types, sets, si, ret, remove, tag):
    """Offline checker of the log of a whole process."""
    params, data = ret
    log = list(si.log)
    full = set(range(1, n + 1))
    dev, unused = set(full), set()
    it = 0
    stop = None
    while True:
        if it > 0:
            lim = limit(p, len(dev), n)
            more = str(it) in data
            if not more:
                stop = lim
                ctx.ok('stopped early', lim != {None},
                       f'{tag}: stopped at iteration {it} with {len(dev)} of '
                       f'{n} samples, no limit reached', key='early')
                break
            if not ctx.ok('limit passed', None in lim,
                          f'{tag}: pruned {len(dev)} of {n} samples past '
                          f'the limit {lim}', key='limit'):
                return
            # pruning step
            if not ctx.ok('step log', len(log) >= 2
                          and [e['kind'] for e in log[:2]]
                          == ['train', 'predict'],
                          f'{tag}: calls of step {it}', key='step log'):
                return
            a, b = log[:2]
            log = log[2:]
            ctx.same('model judged', b['n'], a['n'], f'{tag} step {it}')
            want = _sizes(len(dev), list(p['pruning_step_sizes'].values()))
            ctx.same('step sizes', [len(a['train']), len(a['val']),
                                    len(b['ids'])], want, f'{tag} step {it}')
            parts = a['train'] + a['val'] + b['ids']
            ctx.ok('step partition', len(set(parts)) == len(parts)
                   and set(parts) == dev,
                   f'{tag}: step {it} splits {len(dev)} samples in '
                   f'{len(a["train"])}, {len(a["val"])}, {len(b["ids"])} '
                   'that overlap or leave some out', key='partition')
            if want[1] == want[2]:
                ctx.event('equal-sizes')
        # iteration
        types_now = [t for t in types if not (t == 'unused_data' and it == 0)]
        if not ctx.ok('iteration log', str(it) in data and log
                      and log[0]['kind'] == 'train',
                      f'{tag}: calls of iteration {it}', key='iter log'):
            return
        e, log = log[0], log[1:]
        now = e['train'] + e['val']
        ctx.ok('iteration partition', len(set(now)) == len(now),
               f'{tag}: training and validation overlap', key='iter part')
        ctx.same('iteration sizes', [len(e['train']), len(e['val'])],
                 _sizes(len(now), list(p['pruning_iter_sizes'].values())),
                 f'{tag} iteration {it}')
        now = set(now)
        if it == 0:
            ctx.ok('first iteration', now == full,
                   f'{tag}: first iteration uses {len(now)} of {n}')
        else:
            gone = dev - now
            ctx.ok('none returns', now <= dev,
                   f'{tag}: iteration {it} uses samples set aside or unknown')
            ctx.same('pruned count', len(gone), scheduled(p, len(dev)),
                     f'{tag} step {it} of {len(dev)}')
            loss = b['loss']
            ok = gone <= set(loss)
            ctx.ok('pruned unseen', ok, f'{tag}: step {it} prunes samples '
                   'the model was trained on', key='unseen')
            rest = [loss[k] for k in loss if k not in gone]
            if ok and gone and rest:
                top = max(loss[k] for k in gone)
                ctx.ok('pruned easiest', top <= min(rest),
                       f'{tag}: step {it} prunes loss {top} and keeps '
                       f'{min(rest)}', key='easiest')
                if len(set(loss.values())) < len(loss):
                    ctx.event('ties')
            ctx.event('pruned', len(gone))
            unused |= gone
            dev = now
        # testing of the iteration
        losses, nrmse = {}, {}
        for t in types:
            losses[t] = nrmse[t] = None
            if t not in types_now or (t == 'unused_data' and not unused):
                continue
            if not ctx.ok('tests', log and log[0]['kind'] == 'predict',
                          f'{tag}: iteration {it} not tested on {t}',
                          key='tests'):
                return
            q, log = log[0], log[1:]
            ctx.same('model tested', q['n'], e['n'], f'{tag} {t}')
            want = unused if t == 'unused_data' else {
                key(s) for s in sets[t]}
            ctx.ok('testing set', sorted(q['ids']) == sorted(want),
                   f'{tag}: iteration {it} tested on {len(q["ids"])} samples '
                   f'instead of the {len(want)} of {t}', key='testing')
            losses[t], nrmse[t] = q['avg'], q['nrmse']
        x = data[str(it)]
        ctx.event('iteration')
        ctx.same('record', {k: x[k] for k in (
            'n_full', 'iter', 'n_dev', 'n_train', 'n_valid', 'n_unused')},
            {'n_full': n, 'iter': it, 'n_dev': len(dev),
             'n_train': len(e['train']), 'n_valid': len(e['val']),
             'n_unused': len(unused)}, f'{tag} iteration {it}')
        ctx.same('record losses', x['testing_types_loss'], losses,
                 f'{tag} iteration {it}')
        for t in types:
            g = x['testing_types_avg_nrmse'][t]
            if nrmse[t] is None:
                ctx.ok('record nrmse', g is None, f'{tag}: {t} {g}')
            else:
                ctx.close('record nrmse', g, nrmse[t], rtol=1e-5,
                          msg=f'{tag} {t}')
        ctx.ok('models', os.path.isdir(e['dir']) != remove or
               any(o is not e and o['dir'] == e['dir'] for o in si.log
                   if o['kind'] == 'train'),
               f'{tag}: model of iteration {it} '
               f'{"left" if remove else "removed"}', key='models')
        ctx.event('removed' if remove else 'kept')
        it += 1
        if it > p['n_iter_max']:
            ctx.ok('limit passed', str(it) not in data,
                   f'{tag}: more than {p["n_iter_max"]} iterations')
            stop = {'iterations'}
            break
    ctx.same('no more calls', len(log), 0, tag)
    ctx.same('iterations', sorted(data, key=int),
             [str(i) for i in range(it)], tag)
    ctx.event('stop')
    ctx.state('stop', tuple(sorted(map(str, stop))),
              p['prun_scheduler_type'], it, tuple(types))
    # records on disk
    with open(os.path.join(d, 'pruning_data.pkl'), 'rb') as f:
        z = pickle.load(f)
    ctx.same('stored data', z['pruning_iterative_data'], data, tag)
    ctx.same('stored parameters', z['pruning_params'], params, tag)
    ctx.same('full size', params['n_full'], n, tag)
    rows, status = summary(open(os.path.join(d, 'summary.dat')).read())
    ctx.ok('reported stop', kind_of(status) in stop,
           f'{tag}: stopped by {stop}, reported "{status}"', key='reported')
    table(ctx, rows, data, n, tag, True)


def table(ctx, rows, data, n, tag, losses):
    ctx.same('rows', len(rows), len(data), tag)
    for k, r in enumerate(rows):
        x = data.get(str(k))
        if x is None:
            break
        want = [k]
        for q in ('n_dev', 'n_train', 'n_valid', 'n_unused'):
            want += [x[q], round(x[q]/n*100, 1)]
        ctx.ok('row', np.allclose(r[:9], want, atol=.0501, rtol=0),
               f'{tag}: summary row {r[:9]} of {want}', key='row')
        if losses:
            v = [x['testing_types_loss'].get(t) for t in (
                'in_distribution', 'out_distribution', 'unused_data')]
            v = [a for a in v if a is not None]
            ctx.ok('row losses', len(v) == len(r) - 9 and np.allclose(
                v, r[9:], rtol=1e-3, atol=0),
                f'{tag}: summary losses {r[9:]} of {v}', key='row losses')


def summary(text):
    rows, status = [], ''
    for line in text.splitlines():
        w = line.split()
        try:
            v = [float(a) for a in w]
        except ValueError:
            v = []
        if len(v) >= 9:
            rows.append(v)
        m = re.search('Termination status: (.*)', line)
        if m:
            status = m.group(1)
    return rows, status


def process(ctx, focus='size', n=None, files=False, default=False):
    rng = ctx.rng
    n = n or ctx.size(20, 60, 260, .15)
    types = [t for t in ('in_distribution', 'out_distribution',
                         'unused_data') if rng.random() < .6]
    types = [str(t) for t in rng.permutation(types)]
    if rng.random() < .5:
        types = tuple(types)
    d, base, full, sets = setup(ctx, n, types, files)
    p = pd.set_default_pruning_parameters() if default \
        else parameters(rng, n, focus)
    if default:
        for k, v in (('n_iter_max', 100), ('n_dev_min', 10),
                     ('ratio_dev_min', .05), ('n_prun_test_min', 10),
                     ('prun_test_ratio_max', .5)):
            ctx.ok('defaults', k in p, f'{k} missing')
    everyone = {key(s): s for s in full + sets['in_distribution']
                + sets['out_distribution']}
    before = digest(base)
    for run in range(2 if rng.random() < .25 else 1):
        remove = bool(rng.random() < .5)
        si = StandIn(ctx, everyone, rng.random() < .25, rng.random() < .8)
        given = None if default else copy.deepcopy(p)
        out = io.StringIO()
        with si, contextlib.redirect_stdout(out):
            ret = pd.prune_time_series_dataset(
                d, types, pruning_params=given,
                is_remove_pruning_models=remove,
                is_verbose=bool(rng.random() < .3))
        tag = (f'{focus} n={n} {p["prun_scheduler_type"]} '
               f'{p["prun_scheduler_params"]} types={types}')
        audit(ctx, d, p, n, types, sets, si, ret, remove, tag)
        ctx.same('base data sets', digest(base), before,
                 f'{tag}: base data sets changed')
        ctx.ok('step directory', not os.path.exists(os.path.join(
            d, 'pruned_datasets', 'pruning_step')), f'{tag}: pruning step left behind')
        ctx.same('parameters', {k: v for k, v in ret[0].items()
                                if k != 'n_full'}, p, tag)
        if run:
            ctx.event('rerun')
    preview(ctx, d, p, n, ret, tag)
    display(ctx, d, ret, types)
    figures(ctx, d, ret, types, n)


def preview(ctx, d, p, n, ret, tag):
    """The preview announces the process that takes place."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pd.preview_pruning_iterations(d, copy.deepcopy(p))
    rows, status = summary(out.getvalue())
    # sizes of the testing set may differ by the remainder of the split
    firm = all(abs(x['n_dev']/n - p['ratio_dev_min']) > 1e-9
               for x in ret[1].values()) and (
        p['n_prun_test_min'] <= 1 and p['prun_test_ratio_max'] >= 1)
    if not firm:
        return
    ctx.event('preview')
    ctx.same('preview', [[int(r[0]), int(r[1]), int(r[7])] for r in rows],
             [[x['iter'], x['n_dev'], x['n_unused']]
              for x in ret[1].values()], tag)
    for r in rows:
        ctx.ok('preview split', r[3] + r[5] == r[1]
               and abs(r[3] - ret[1][str(int(r[0]))]['n_train']) <= 1,
               f'{tag}: preview row {r}')
    real = summary(open(os.path.join(d, 'summary.dat')).read())[1]
    ctx.same('preview stop', kind_of(status), kind_of(real), tag)


def display(ctx, d, ret, types):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pd.display_pruning_data(os.path.join(d, 'pruning_data.pkl'))
    text = out.getvalue()
    data = [ret[1][str(i)] for i in range(len(ret[1]))]
    ctx.ok('display', str([x['n_train'] for x in data]) in text,
           'training sizes displayed')
    for t in types:
        ctx.ok('display', str([x['testing_types_loss'][t] for x in data])
               in text, f'losses of {t} displayed')


def figures(ctx, d, ret, types, n):
    params, data = ret
    if not types:
        return
    m = len(data)
    data = {str(i): data[str(i)] for i in range(m)}
    th = bool(ctx.rng.random() < .5)
    r0 = float(ctx.rng.uniform(.05, .5))
    ok = all(data['0']['testing_types_avg_nrmse'][t] is not None
             for t in types if t != 'unused_data')
    with Record() as r:
        pd.plot_pruning_iterative_data(
            d, params, types, data, performance_threshold_ratio=r0,
            is_plot_performance_threshold=th and ok, is_latex=False)
    ctx.event('figures')
    k = len(types)
    if not ctx.ok('figures', len(r.figs) >= k + 2,
                  f'{len(r.figs)} figures for {k} testing types'):
        return
    ctx.same('closed', r.open, [], 'figures left open')
    it = np.arange(m)
    size = [np.column_stack([it, [data[str(i)][q]/n*100 for i in range(m)]])
            for q in ('n_dev', 'n_train', 'n_valid', 'n_unused')]
    check_lines(ctx, r.figs[-k - 2].axes[0], size, 'data set sizes')
    x = [data[str(i)]['n_dev']/n*100 for i in range(m)]
    per = [points(x, [data[str(i)]['testing_types_avg_nrmse'][t]
                      for i in range(m)]) for t in types]
    for t, f, w in zip(types, r.figs[-k - 1:-1], per):
        want = [w] if len(w) else []
        if th and ok and t != 'unused_data':
            y = (1 + r0)*data['0']['testing_types_avg_nrmse'][t]
            want.append(np.array([[0, y], [1, y]]))
        check_lines(ctx, f.axes[0], want, f'performance on {t}')
    ax = r.figs[-1].axes[0]
    check_lines(ctx, ax, [w for w in per if len(w)], 'performance')
    names = {'in_distribution': 'in-distribution', 'unused_data': 'unused',
             'out_distribution': 'out-of-distribution'}
    ctx.same('legend', [s.lower() for s in legend(ax)],
             [names[t] for t in types], 'legend')


def rejections(ctx):
    rng = ctx.rng
    types = ('in_distribution', 'out_distribution')
    d, base, full, sets = setup(ctx, 20, types, False)
    p = parameters(rng, 20, 'size')
    everyone = {key(s): s for s in full + sets['in_distribution']
                + sets['out_distribution']}
    before = digest(base)

    def go(dd=d, tt=types, **ch):
        q = copy.deepcopy(p)
        q.update(ch)
        with StandIn(ctx, everyone, False, True):
            pd.prune_time_series_dataset(dd, tt, pruning_params=q)
    ctx.event('reject')
    ctx.raises('reject', lambda: go(tt=('nonsense',)), RuntimeError, 'type')
    ctx.raises('reject', lambda: go(prun_scheduler_type='nonsense'),
               RuntimeError, 'scheduler')
    ctx.raises('reject', lambda: go(dd=d + '_no'), RuntimeError, 'directory')
    ctx.raises('reject', lambda: go(pruning_step_sizes={
        'training': .5, 'validation': .2, 'testing': .2}), RuntimeError,
        'split sizes')
    ctx.raises('reject', lambda: pd.read_samples_loss_from_dir(d + '_no'),
               RuntimeError, 'no predictions')
    e = ctx.tmpdir()
    ctx.raises('reject', lambda: pd.read_samples_loss_from_dir(e),
               RuntimeError, 'empty predictions')
    with open(os.path.join(e, 'prediction_sample_0.pkl'), 'wb') as f:
        pickle.dump({'features_out': 1}, f)
    ctx.raises('reject', lambda: pd.read_samples_loss_from_dir(e),
               RuntimeError, 'no loss')
    ctx.same('base data sets', digest(base), before, 'refusals')
    for gone in (DIRS['out_distribution'], '1_training_dataset'):
        for whole in (False, True):
            b = os.path.join(base, gone)
            if whole:
                shutil.rmtree(b)
            else:
                for f in os.listdir(b):
                    if f.startswith(BASE):
                        os.remove(os.path.join(b, f))
            ctx.raises('reject', go, RuntimeError, f'no {gone}')
    ctx.raises('reject', lambda: pd.preview_pruning_iterations(d),
               RuntimeError, 'no data set')


def losses(ctx):
    """Losses are read in the order of the samples."""
    rng = ctx.rng
    d = ctx.tmpdir()
    m = ctx.size(1, 30, 400)
    ids = sorted(int(i) for i in rng.permutation(3*m)[:m])
    v = rng.standard_normal(m)
    for i in rng.permutation(m):
        with open(os.path.join(
                d, f'prediction_sample_{ids[i]}.pkl'), 'wb') as f:
            pickle.dump({'prediction_loss_data': ('features_out', 'mse',
                                                  float(v[i]), True)}, f)
    for junk in ('prediction_sample_1.dat', 'xprediction_sample_2.pkl',
                 'prediction_sample_a.pkl', 'prediction_sample_3.pkl.bak'):
        open(os.path.join(d, junk), 'w').write('x')
    a, b = pd.read_samples_loss_from_dir(d)
    ctx.same('losses', list(a), ids, 'sample ids')
    ctx.same('losses', [float(x) for x in b], [float(x) for x in v],
             'sample losses')
    ctx.state('losses', m)


def cases(tier):
    q = tier == 'quick'
    out = []
    for focus in ('size', 'ratio', 'test', 'share', 'iterations'):
        for k in range(5 if q else 40):
            out.append(('process', dict(focus=focus, files=k % 4 == 3)))
    for n in ((150, 230) if q else (110, 150, 230, 400)):
        out.append(('process', dict(focus='default', n=n, default=True)))
    for _ in range(3 if q else 20):
        out.append(('rejections', {}))
        out.append(('losses', {}))
    return out
