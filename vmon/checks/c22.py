"""C22: predictions, their losses and their metrics are those of the model
that was asked for, sample by sample."""
import os
import pickle
import re
import shutil
import numpy as np
import torch
from vmon import train as vt
from vmon.checks.c21 import setup, CLS, T
from model_architectures.rnn_base_model.predict import prediction as p_rnn
from model_architectures.rc_base_model.predict import prediction as p_rc
from model_architectures.hybrid_base_model.predict import prediction as p_hyb
from model_architectures.procedures import model_data_scaling as ms
from model_architectures.procedures import model_state_files as sf
from model_architectures.procedures.model_prediction import \
    load_sample_predictions
from model_architectures.materials.process_predictions import \
    build_prediction_data_arrays, build_time_series_predictions_data
from time_series_data import time_dataset as td
from utilities import output_prediction_metrics as om
from utilities.prediction_metrics import compute_prediction_metrics

PROPERTY = 'C22'
RULE = ('random trained-like models of the three families stored at several '
        'states predict random data sets with and without ground-truth, in '
        'any batch size, container and normalisation; every stored sample, '
        'loss, average, directory and file is compared with the sample run '
        'alone through the requested state and own scaling and loss; random '
        'prediction directories are turned into metrics, metric files and '
        'truth/prediction tables and recomputed in numpy; non-trivial: '
        'distinct option combinations')
ASSUMPTIONS = ['CPU device only', 'double precision',
               'model forward passes are judged by C14, C15 and C18']
REQUIRED_EVENTS = ('sample', 'no-truth', 'with-truth', 'normalised-loss',
                   'state-best', 'state-last', 'state-epoch', 'given-model',
                   'metrics', 'metrics-null', 'read-back', 'arrays',
                   'uncertainty', 'earlier-sets', 'refused',
                   'null-loss', 'dropout', 'many-samples', 'state-zero')
MOD = {'rnn': p_rnn, 'rc': p_rc, 'hybrid': p_hyb}


def snap(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def perturb(rng, m):
    with torch.no_grad():
        for q in m.parameters():
            if q.numel() == 1 and q.dim() == 0:
                q.mul_(rng.uniform(.97, 1.03))
            else:
                q.add_(torch.tensor(.3*rng.standard_normal(tuple(q.shape)),
                                    dtype=q.dtype))


def predict(ctx, arch, many=False):
    torch.set_default_dtype(torch.float64)
    rng = ctx.rng
    d = ctx.tmpdir()
    drop = .5 if arch != 'rc' and rng.random() < .3 else 0.
    samples, args, _ = setup(ctx, arch, d, drop=drop, n=int(
        rng.integers(101, 140)) if many else ctx.size(
            9, 25, 120) if rng.random() < .15 else None)
    n = len(samples)
    if drop:
        ctx.event('dropout')
    if n > 9:
        ctx.event('many-samples')
    truth = bool(rng.random() < .7)
    if not truth:
        samples = [{k: v for k, v in s.items() if k != 'features_out'}
                   for s in samples]
        # scalers still come from elsewhere
    if rng.random() < .4:
        for i, s in enumerate(samples):
            s['extra'] = T(rng.standard_normal((3, 1)))
    ragged = rng.random() < .25
    if ragged:
        samples = [{k: (v[:int(rng.integers(1, len(v) + 1))]
                        if k == 'features_in' else v) for k, v in s.items()}
                   for s in samples]
        for s in samples:
            if truth:
                s['features_out'] = s['features_out'][:len(s['features_in'])]
    # model, scalers and states
    model = CLS[arch](**args)
    in_n = bool(args.get('is_model_in_normalized', False))
    out_n = bool(args.get('is_model_out_normalized', False))
    k_in = samples[0]['features_in'].shape[1]
    k_out = args['n_features_out']
    sk = str(rng.choice(['mean-std', 'min-max']))
    ref_in = [{'f': T(rng.standard_normal((9, k_in))*3 + 1)}]
    ref_out = [{'f': T(rng.standard_normal((9, k_out))*2 - .5)}]
    if arch != 'rnn' and in_n:
        ref_in = [{'f': s['features_in']*1.5 + 1e-4} for s in samples] + ref_in
    st_in = vt.stats(sk, ref_in, 'f')
    st_out = vt.stats(sk, ref_out, 'f')
    names = {'mean-std': ('mean', 'std'), 'min-max': ('minimum', 'maximum')}
    par = {f: {names[sk][0]: torch.tensor(a), names[sk][1]: torch.tensor(b)}
           for f, (_, (a, b)) in (('features_in', st_in),
                                  ('features_out', st_out))}
    norm_loss = bool(rng.random() < .4)
    if in_n or out_n or norm_loss:
        ms.set_fitted_data_scalers(model, sk, par)
        ctx.event('scalers')
    model.save_model_init_file()
    stored = {}
    epochs = sorted(int(e) for e in rng.choice(
        range(0, 120), size=int(rng.integers(2, 5)), replace=False))
    if rng.random() < .3:
        epochs[0] = 0
    for e in epochs:
        perturb(rng, model)
        sf.save_model_state(model, state_type='epoch', epoch=e)
        stored[e] = vt_state(model)
    best = int(rng.choice(epochs))
    model.load_state_dict(stored[best])
    sf.save_model_state(model, state_type='best', epoch=best,
                        is_remove_posterior=False)
    how = str(rng.choice(['best', 'last', 'epoch', 'given', 'default-none']))
    if how == 'default-none':
        perturb(rng, model)
        sf.save_model_state(model)
        want_state, load = vt_state(model), None
    elif how == 'given':
        perturb(rng, model)
        want_state, load = vt_state(model), None
    elif how == 'best':
        want_state, load = stored[best], 'best'
    elif how == 'last':
        want_state, load = stored[max(epochs)], 'last'
    else:
        load = int(rng.choice(epochs)) if rng.random() < .6 else epochs[0]
        if load == 0:
            ctx.event('state-zero')
        want_state = stored[load]
    given = model if how == 'given' else None
    kind = 'mse' if rng.random() < .5 else 'mre'
    lkw = {}
    if kind == 'mre':
        lkw = {'zero_handling': str(rng.choice(['absolute', 'clip',
                                                'regularizer'])),
               'small': float(10**rng.uniform(-4, -1))}
    # data set container
    how_ds = str(rng.choice(['watched', 'memory', 'files', 'subset']))
    kept = [{k: v.clone() for k, v in s.items()} for s in samples]
    if how_ds == 'watched':
        ds = vt.Watched(samples)
    elif how_ds == 'memory':
        ds = td.TimeSeriesDatasetInMemory(samples)
    elif how_ds == 'files':
        dd = os.path.join(ctx.tmpdir(), 'samples')
        os.mkdir(dd)
        files = []
        for i, s in enumerate(samples):
            f = os.path.join(dd, f'ss_paths_sample_{i}.pt')
            torch.save(s, f)
            files.append(f)
        ds = td.TimeSeriesDataset(dd, files)
    else:
        perm = [int(i) for i in rng.permutation(n)[:max(1, n - 1)]]
        ds = torch.utils.data.Subset(vt.Watched(samples), perm)
        kept = [kept[i] for i in perm]
    m = len(kept)
    bs = 1 if ragged else int(rng.integers(1, m + 3))
    seed = (int(rng.integers(1 << 16))*int(rng.random() < .8)
            if rng.random() < .5 else None)
    out_dir, prior = None, []
    if rng.random() < .85:
        out_dir = ctx.tmpdir()
        if rng.random() < .5:
            for q in range(int(rng.integers(1, 13))):
                prior.append(f'prediction_set_{q}')
                os.mkdir(os.path.join(out_dir, prior[-1]))
                with open(os.path.join(out_dir, prior[-1],
                                       'prediction_sample_0.pkl'), 'wb') as h:
                    pickle.dump({'q': q}, h)
            if rng.random() < .3 and len(prior) > 1:
                gap = prior.pop(int(rng.integers(len(prior))))
                shutil.rmtree(os.path.join(out_dir, gap))
    before = snap(out_dir) if out_dir else {}
    model_files = snap(d)
    tag = (f'{arch} n={m} batch={bs} {how} {kind} in={in_n} out={out_n} '
           f'nl={norm_loss} truth={truth} {how_ds}')
    if rng.random() < .1:
        ctx.raises('refused', lambda: MOD[arch].predict(
            ds, d, model=given, predict_directory=os.path.join(d, 'nowhere'),
            model_load_state=load), RuntimeError, 'absent directory accepted')
        ctx.event('refused')
    sub, avg = MOD[arch].predict(
        ds, d, model=given, predict_directory=out_dir, model_load_state=load,
        loss_type=kind, loss_kwargs=lkw, is_normalized_loss=norm_loss,
        batch_size=bs, seed=seed)
    ctx.ok('model-files', snap(d) == model_files,
           f'{tag}: prediction changed the model directory')
    # expected samples, one at a time
    other = CLS[arch].init_model_from_file(d) if given is None else given
    other.load_state_dict(want_state)
    other.eval()
    losses, outs = [], []
    for s in kept:
        b = vt.batch([{k: v for k, v in s.items()}], [0])
        x = vt.scale(st_in, b['features_in']) if in_n else b['features_in']
        with torch.no_grad():
            y = other(x, b.get('hidden_features_in'))[0] if arch == 'rnn' \
                else other(x)
        y = y[:, 0]
        if out_n:
            y = vt.scale(st_out, y, back=True)
        outs.append(y)
        if truth:
            t = s['features_out']
            a = (vt.scale(st_out, y), vt.scale(st_out, t)) if norm_loss \
                else (y, t)
            losses.append(float(vt.loss(kind, lkw, *a)))
    if truth:
        ctx.close('average', float(avg), np.mean(losses), rtol=1e-7,
                  atol=1e-12, msg=f'{tag}: average loss')
        ctx.event('with-truth')
        if norm_loss:
            ctx.event('normalised-loss')
    else:
        ctx.ok('average', avg is None, f'{tag}: loss {avg} without truth')
        ctx.event('no-truth')
    ctx.event({'best': 'state-best', 'last': 'state-last',
               'epoch': 'state-epoch', 'given': 'given-model'}.get(
                   how, 'state-default'))
    # data set is as before
    for i, w in enumerate(kept):
        s = ds[i]
        ctx.ok('dataset', set(s) == set(w) and all(
            torch.equal(s[k], w[k]) for k in w),
            f'{tag}: data set sample {i} changed')
    if out_dir is None:
        ctx.ok('directory', sub is None, f'{tag}: directory {sub}')
        ctx.state(arch, 'nodir', truth)
        return
    # directory
    rel = os.path.relpath(sub, out_dir)
    ctx.ok('directory', re.fullmatch(r'prediction_set_\d+', rel) is not None
           and rel not in prior and os.path.isdir(sub),
           f'{tag}: stored in {rel} beside {prior}')
    after = snap(out_dir)
    ctx.ok('directory', all(after.get(k) == v for k, v in before.items()),
           f'{tag}: earlier prediction sets changed')
    if prior:
        ctx.event('earlier-sets')
    got = sorted(k for k in os.listdir(sub) if k.endswith('.pkl'))
    ctx.same('files', got, sorted(f'prediction_sample_{i}.pkl'
                                  for i in range(m)), f'{tag}: files')
    for i in range(m):
        r = load_sample_predictions(os.path.join(
            sub, f'prediction_sample_{i}.pkl'))
        ctx.event('sample')
        w = outs[i].numpy()
        sc = float(np.abs(w).max()) + 1e-12
        ctx.close('sample', r['features_out'].numpy(), w, rtol=1e-8,
                  atol=1e-12, scale=sc, msg=f'{tag}: sample {i} of {m}')
        if truth:
            ctx.ok('targets', torch.equal(r['targets'],
                                          kept[i]['features_out']),
                   f'{tag}: targets of sample {i}')
            nat, typ, val, nl = r['prediction_loss_data']
            ctx.same('loss-data', (nat, typ, bool(nl)),
                     ('features_out', kind, norm_loss), tag)
            ctx.close('loss-data', float(val), losses[i], rtol=1e-7,
                      atol=1e-12, msg=f'{tag}: loss of sample {i}')
        else:
            ctx.ok('targets', r['targets'] is None, f'{tag}: targets appear')
            ctx.ok('loss-data', r['prediction_loss_data'][2] is None,
                   f'{tag}: loss appears')
    # reported average
    txt = ''.join(v.decode('utf8', 'replace') for k, v in after.items()
                  if k.startswith(rel) and k.endswith('.dat'))
    if truth:
        found = re.findall(r'Avg\. prediction loss per sample\D*?'
                           r'(\d\.\d+e[+-]\d+)', txt)
        ctx.ok('summary', len(found) == 1 and
               abs(float(found[0]) - np.mean(losses)) <=
               1e-6*abs(np.mean(losses)) + 1e-12,
               f'{tag}: summary reports {found}, loss {np.mean(losses)}')
    # metrics of what was stored
    if truth and not ragged:
        nn, res = om.compute_directory_prediction_metrics(
            sub, ['rmse'], is_save_file=bool(rng.random() < .5))
        e = np.mean([np.sqrt(((outs[i] - kept[i]['features_out'])**2).mean(0))
                     .numpy() for i in range(m)], 0)
        ctx.same('metrics', nn, m, f'{tag}: samples counted')
        ctx.close('metrics', res['rmse'].numpy(), e, rtol=1e-5, atol=1e-12,
                  msg=f'{tag}: rmse')
    # truth met exactly: null loss, still reported
    if truth and rng.random() < .3:
        ds2 = vt.Watched([{**s, 'features_out': load_sample_predictions(
            os.path.join(sub, f'prediction_sample_{i}.pkl'))['features_out']}
            for i, s in enumerate(kept)])
        sub2, avg2 = MOD[arch].predict(
            ds2, d, model=given, predict_directory=out_dir,
            model_load_state=load, loss_type=kind, loss_kwargs=lkw,
            is_normalized_loss=norm_loss, batch_size=bs)
        ctx.ok('null-loss', avg2 is not None and abs(float(avg2)) < 1e-6,
               f'{tag}: loss {avg2} of the prediction itself')
        ctx.ok('null-loss', sub2 != sub, 'prediction set written over')
        txt = ''.join(v.decode('utf8', 'replace') for k, v in
                      snap(sub2).items() if k.endswith('.dat'))
        ctx.ok('null-loss', re.search(
            r'Avg\. prediction loss per sample\D*?\d\.\d+e[+-]\d+', txt)
            is not None, f'{tag}: loss {avg2} not reported')
        ctx.event('null-loss')
    ctx.state(arch, how, kind, in_n, out_n, norm_loss, truth, how_ds, bs > 1)


def vt_state(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def store(d, i, r):
    with open(os.path.join(d, f'prediction_sample_{i}.pkl'), 'wb') as h:
        pickle.dump(r, h)


def metrics(ctx):
    """Metrics of random prediction directories, written and read back."""
    rng = ctx.rng
    dt = torch.float64 if rng.random() < .5 else torch.float32
    torch.set_default_dtype(dt)
    tol = 1e-6 if dt == torch.float64 else 2e-5
    k = int(rng.integers(1, 7))
    base = ctx.tmpdir()
    dirs, want, counts = {}, {}, {}
    null = rng.random() < .4
    sizes = [int(x) for x in rng.choice(range(1, 400), replace=False,
                                        size=int(rng.integers(1, 5)))]
    used = set()
    for q in sizes:
        d = os.path.join(base, f'd{q}')
        os.mkdir(d)
        n = int(rng.integers(1, 14))
        while n in used:
            n += 1
        used.add(n)
        R, A = [], []
        ids = sorted(int(i) for i in rng.choice(range(200), n, replace=False))
        if rng.random() < .5:
            ids = list(range(n))
        for i in ids:
            t = int(rng.integers(1, 9))
            mag = 10**rng.uniform(-3, 4)
            y = mag*rng.standard_normal((t, k))
            z = y + .1*mag*rng.standard_normal((t, k))
            if null:
                z[:, 0] = 0.
                if rng.random() < .5:
                    y[:, 0] = 0.
            y, z = (torch.tensor(v, dtype=dt) for v in (y, z))
            store(d, i, {'features_out': y, 'targets': z,
                         'prediction_loss_data': None})
            y, z = y.double().numpy(), z.double().numpy()
            R.append(np.sqrt(((y - z)**2).mean(0)))
            A.append(np.abs(z).mean(0))
            one = compute_prediction_metrics(
                os.path.join(d, f'prediction_sample_{i}.pkl'),
                ['mse', 'rmse', 'mav', 'mav_gt'])
            for key, w in (('mse', R[-1]**2), ('rmse', R[-1]),
                           ('mav', np.abs(y).mean(0)), ('mav_gt', A[-1])):
                ctx.close('sample-metric', one[key].double().numpy(), w,
                          rtol=tol*10, atol=1e-30, msg=f'{key} of a sample')
        # files which are not predictions
        for f in ('prediction_sample_7.pkl.bak', 'summary.dat',
                  'old_prediction_sample_3.pkl', 'prediction_sample_x.pkl'):
            if rng.random() < .3:
                with open(os.path.join(d, f), 'w') as h:
                    h.write('x')
        label = f'n{q}'
        dirs[label], counts[label] = d, n
        with np.errstate(all='ignore'):
            want[label] = {'rmse': np.mean(R, 0), 'nrmse': np.mean(
                np.array(R)/np.array(A), 0)}
    names = ['rmse', 'nrmse'] if rng.random() < .7 else ['nrmse']
    out = ctx.tmpdir()
    got = om.compute_processes_prediction_metrics(
        dirs, names, save_dir=out, is_save_file=True)
    ctx.same('processes', list(got), list(dirs), 'processes')
    path = os.path.join(out, 'mean_prediction_metrics.dat')
    for i, label in enumerate(dirs):
        ctx.same('processes', got[label]['n_sample'], counts[label], label)
        res = got[label]['mean_metrics_results']
        ctx.same('processes', list(res), names, f'{label} metrics')
        for key in names:
            nan_close(ctx, 'processes', res[key], want[label][key], tol*10,
                      f'{key} of {label}')
        if i == 0 and rng.random() < .5:
            back = om.read_mean_metrics_results_file(path)
        else:
            back = om.read_mean_metrics_results_file(
                path, n_sample=counts[label])
        ctx.same('read-back', list(back), names, f'{label} metrics')
        for key in names:
            nan_close(ctx, 'read-back', back[key], want[label][key], tol*10,
                      f'{key} of {label}')
        ctx.event('read-back')
    ctx.raises('read-back', lambda: om.read_mean_metrics_results_file(
        path, n_sample=1000), RuntimeError, 'absent process read')
    # a file written anew holds nothing of the former one
    label = list(dirs)[-1]
    om.write_mean_metrics_results_file(
        out, 1001, {q: v for q, v in
                    got[label]['mean_metrics_results'].items()},
        is_overwrite=True)
    for m in (None, 1001):
        back = om.read_mean_metrics_results_file(path, n_sample=m)
        for key in names:
            nan_close(ctx, 'written-anew', back[key], want[label][key],
                      tol*10, f'{key} of {label}')
    ctx.raises('written-anew', lambda: om.read_mean_metrics_results_file(
        path, n_sample=counts[label]), RuntimeError,
        'metrics of an overwritten file read')
    # of one directory, stored beside it
    label = list(dirs)[0]
    for _ in range(2):
        om.compute_directory_prediction_metrics(
            dirs[label], names, process_label='p', is_save_file=True)
        back = om.read_mean_metrics_results_file(os.path.join(
            dirs[label], 'prediction_metrics', 'mean_prediction_metrics.dat'))
        for key in names:
            nan_close(ctx, 'read-back', back[key], want[label][key], tol*10,
                      f'{key} of {label}')
    # convergence data
    if not null:
        om.plot_prediction_metrics_convergence(
            got, names, save_dir=out, is_save_plot_data=True)
        for key in names:
            with open(os.path.join(out, 'plot_data',
                                   f'mean_{key}_convergence_data.pkl'),
                      'rb') as h:
                xy = pickle.load(h)['data_xy']
            order = sorted(sizes)
            for j in range(k):
                ctx.close('convergence', xy[:, 2*j], order, msg='sizes')
                ctx.close('convergence', xy[:, 2*j + 1], [
                    want[f'n{q}'][key][j] for q in order], rtol=tol*10,
                    msg=f'{key}, feature {j}')
        ctx.event('convergence')
    else:
        ctx.event('metrics-null')
    ctx.event('metrics')
    ctx.state('metrics', k, null, len(dirs), names[0], str(dt))


def nan_close(ctx, rule, got, want, tol, msg):
    g, w = np.asarray(got, float), np.asarray(want, float)
    fin = np.isfinite(w)
    ctx.ok(rule, g.shape == w.shape and
           np.array_equal(np.isfinite(g), fin), f'{msg}: {g}, expected {w}')
    if g.shape == w.shape and fin.any():
        ctx.close(rule, g[fin], w[fin], rtol=tol, atol=1e-30, msg=msg)


def arrays(ctx):
    """Truth and prediction tables of prediction directories."""
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    base = ctx.tmpdir()
    uq = rng.random() < .5
    n, k = int(rng.integers(1, 14)), int(rng.integers(1, 7))
    typ = str(rng.choice(['stress_comps', 'p_strain_comps']))
    n_model = int(rng.integers(1, 13)) if uq else 1
    data_dir = os.path.join(base, '5_testing_data', 'in_distribution')
    kind = 'in_distribution'
    os.makedirs(os.path.join(base, '5_testing_data'))
    samples, truth, pred = [], [], [[] for _ in range(n_model)]
    for i in range(n):
        t = int(rng.integers(1, 7))
        samples.append({'time_hist': T(np.arange(t) + .5*i).reshape(-1, 1),
                        'features_in': T(rng.standard_normal((t, 2)))})
        truth.append(rng.standard_normal((t, k + 1)))
        for q in range(n_model):
            pred[q].append(rng.standard_normal((t, k + 1)))
    f = td.save_dataset(td.TimeSeriesDatasetInMemory(samples), 'paths',
                        os.path.join(base, '5_testing_data'))
    if uq:
        order = [int(x) for x in sorted(rng.choice(
            range(15), n_model, replace=False))]
        dirs = [os.path.join(base, 'uncertainty_quantification',
                             f'model_{q}', '7_prediction', kind)
                for q in order]
        top = os.path.join(base, '7_prediction', kind, 'prediction_set_0')
    else:
        dirs = [os.path.join(base, '7_prediction', kind, 'prediction_set_0')]
        top = dirs[0]
    for q, dd in enumerate(dirs):
        os.makedirs(dd)
        for i in range(n):
            store(dd, i, {'features_out': T(pred[q][i]),
                          'targets': T(truth[i])})
    ids = 'all' if rng.random() < .5 else \
        [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    labels = [f'c{j}' for j in range(k)]
    got = build_time_series_predictions_data(
        f, top, typ, labels, samples_ids=ids,
        is_uncertainty_quantification=uq)
    ctx.same('series', len(got), k, 'components')
    want_ids = list(range(n)) if ids == 'all' else ids
    for j in range(k):
        ctx.same('series', sorted(got[j]), sorted(map(str, want_ids)),
                 'samples')
        for i in want_ids:
            w = np.column_stack([samples[i]['time_hist'].numpy(),
                                 truth[i][:, j]] +
                                [pred[q][i][:, j] for q in range(n_model)])
            ctx.close('series', np.asarray(got[j][str(i)]), w, rtol=1e-12,
                      msg=f'{typ} sample {i} component {j}, '
                      f'{n_model} models')
    ctx.event('uncertainty' if uq else 'series')
    if not uq:
        tab = build_prediction_data_arrays(top, typ, labels, samples_ids=ids)
        ctx.same('arrays', len(tab), k, 'components')
        for j in range(k):
            w = np.concatenate([np.column_stack(
                [truth[i][:, j], pred[0][i][:, j]]) for i in want_ids])
            g = np.asarray(tab[j], float)
            if ids == 'all':
                g, w = (x[np.lexsort(x.T[::-1])] for x in (g, w))
            ctx.close('arrays', g, w, rtol=1e-12, msg=f'component {j}')
        ctx.event('arrays')
        ctx.raises('refused', lambda: build_prediction_data_arrays(
            top, typ, labels, samples_ids=[n + 3]), RuntimeError,
            'absent sample accepted')
        # without ground-truth
        store(top, 0, {'features_out': T(pred[0][0]), 'targets': None})
        ctx.raises('refused', lambda: build_prediction_data_arrays(
            top, typ, labels, samples_ids=[0]), RuntimeError,
            'table without ground-truth accepted')
    ctx.state('arrays', uq, k, typ, n_model > 1)


def cases(tier):
    r = 300 if tier == 'quick' else 3000
    out = []
    for arch in MOD:
        out += [('predict', {'arch': arch})]*r
        out += [('predict', {'arch': arch, 'many': True})]*(r//150)
    out += [('metrics', {})]*r + [('arrays', {})]*r
    return out
