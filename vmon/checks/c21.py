"""C21: training is gradient descent on the stated loss, and its records,
state files and stopping rules describe that descent."""
import math
import os
import pickle
import re
import numpy as np
import torch
from vmon import mat, rc, ref, train as vt
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.rnn_base_model.train import training as t_rnn
from model_architectures.rnn_base_model.train.cross_validation import \
    kfold_cross_validation
from model_architectures.rnn_base_model.train import cross_validation as cv
from model_architectures.hybrid_base_model.model.hybrid_model import \
    HybridModel
from model_architectures.hybrid_base_model.train import training as t_hyb
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel
from model_architectures.rc_base_model.train import training as t_rc

PROPERTY = 'C21'
RULE = ('short trainings of the three model families with random batch '
        'sizes, shuffling, losses, normalisation, learning rate schedules, '
        'early and parameter stopping, checkpoint intervals and restarts; '
        'the order in which samples are read is recorded and an independent '
        'loop (own loss, scaling, Adam, bounds, stopping) replays the '
        'training from the stored initial state; losses, histories, '
        'returned values, state files and final parameters are compared; '
        'non-trivial: distinct option combinations')
ASSUMPTIONS = ['CPU device only', 'double precision',
               'losses and parameters compared to 1e-6',
               'model forward passes are judged by C14, C15 and C18']
REQUIRED_EVENTS = ('epoch', 'batch', 'shuffled', 'early-stop', 'params-stop',
                   'full-run', 'resume', 'seeded', 'bounds', 'normalised',
                   'kfold', 'schedule', 'optimizer-state', 'dropout-step',
                   'dropout-validation', 'convex-step', 'convex-boundary')
MOD = {'rnn': t_rnn, 'rc': t_rc, 'hybrid': t_hyb}
CLS = {'rnn': GRURNNModel, 'rc': RecurrentConstitutiveModel,
       'hybrid': HybridModel}


def T(x):
    return torch.tensor(np.asarray(x), dtype=torch.float64)


def setup(ctx, arch, directory, drop=0., n=None):
    """(samples, model_init_args, parameter bounds of the physical
    parameters)."""
    rng = ctx.rng
    n = n or ctx.size(2, 7, 40)
    if arch == 'rnn':
        i, o, t = (int(rng.integers(1, 4)) for _ in range(3))
        t += 1
        h, L = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        if drop:
            h, L = 4, 2
        w = rng.standard_normal((i, o))
        ss = []
        hid = rng.random() < .4
        for _ in range(n):
            x = rng.standard_normal((t, i))
            y = np.tanh(x @ w) + .05*rng.standard_normal((t, o))
            if rng.random() < .3:
                y[0] = 0.
            s = {'features_in': T(x), 'features_out': T(y)}
            if hid:
                s['hidden_features_in'] = T(rng.standard_normal((L, h)))
            ss.append(s)
        args = dict(n_features_in=i, n_features_out=o, hidden_layer_size=h,
                    n_recurrent_layers=L, model_directory=directory,
                    model_name='gru', gru_model_source=str(
                        rng.choice(['torch', 'custom'])),
                    is_model_in_normalized=bool(rng.random() < .5),
                    is_model_out_normalized=bool(rng.random() < .5))
        if drop:
            args.update(gru_model_source='torch', dropout=drop)
        return ss, args, {}
    dim = 2 if rng.random() < .6 else 3
    name = 'elastic' if rng.random() < .6 else 'von_mises'
    spec = mat.Spec(rng, name, kinds='linear', tame=True)
    k = len(ref.SYM[dim])
    real = spec.build(dim)
    ss = []
    nt = int(rng.integers(2, 4))
    for _ in range(n):
        p = rc.strain_path(rng, spec, dim, kind='proportional', n=nt)
        p = p - p[:1]
        st = rc.drive(real, dim, p)
        y = rc.stress_rows(st, dim)
        ss.append({'features_in': T(p), 'features_out': T(y)})
    true = {'E': spec.E, 'v': spec.nu}
    learn, bounds = {}, {}
    for q in ('E', 'v') if rng.random() < .6 else ('E',):
        lo, hi = true[q]*rng.uniform(.5, .95), true[q]*rng.uniform(1.05, 1.5)
        if q == 'v':
            hi = min(hi, .47)
        if rng.random() < .3:
            hi = true[q]*.98
        start = lo + (hi - lo)*rng.uniform(.05, .95)
        if rng.random() < .2:
            start = hi*1.1 if q == 'E' else start
        learn[q] = {'initial_value': float(start),
                    'bounds': (float(lo), float(hi))}
        bounds[q] = (float(lo), float(hi))
    rargs = dict(n_features_in=k, n_features_out=k,
                 learnable_parameters=learn, strain_formulation='infinitesimal',
                 problem_type=mat.PT[dim], material_model_name=name,
                 material_model_parameters=spec.code_parameters(),
                 model_directory=directory, model_name='rcm',
                 is_normalized_parameters=bool(rng.random() < .6))
    if arch == 'rc':
        rargs['is_model_out_normalized'] = False
        rargs['is_model_in_normalized'] = bool(rng.random() < .3)
        return ss, rargs, bounds
    sub = {}
    d2 = ctx.tmpdir()
    g = GRURNNModel(k, k, 4 if drop else 2, d2, dropout=drop,
                    n_recurrent_layers=2 if drop else 1,
                    is_save_model_init_file=False)
    if rng.random() < .7:
        r = RecurrentConstitutiveModel(**{**rargs, 'model_directory':
                                          ctx.tmpdir()})
        sub['first'] = {'hyb_model': r, 'hyb_indices': (0, 0),
                        'is_input_residual': False}
        sub['second'] = {'hyb_model': g, 'hyb_indices': (1, 0),
                         'is_input_residual': False}
        kind = 'additive'
        bounds = {('first', q): b for q, b in bounds.items()}
    else:
        sub['second'] = {'hyb_model': g, 'hyb_indices': (0, 0),
                         'is_input_residual': False}
        kind, bounds = 'identity', {}
    args = dict(n_features_in=k, n_features_out=k, hyb_models_dict=sub,
                model_directory=directory, model_name='hyb',
                hybridization_type=kind,
                is_model_out_normalized=bool(rng.random() < .5))
    return ss, args, bounds


def clamp(arch, model):
    """Put learnable material parameters inside their bounds; count."""
    subs = []
    if arch == 'rc':
        subs = [model]
    elif arch == 'hybrid':
        subs = [m for m in model.get_hybridized_models()
                if isinstance(m, RecurrentConstitutiveModel)]
    hit = 0
    for m in subs:
        for q, v in m.get_model_parameters().items():
            lo, hi = (-1., 1.) if m.is_normalized_parameters else \
                m.get_model_parameters_bounds()[q]
            x = float(v.data)
            if x < lo or x > hi:
                hit += 1
                v.data.fill_(min(max(x, lo), hi))
    return hit


def physical(arch, model):
    """Physical values of the learnable material parameters."""
    if arch == 'rnn':
        return {}
    m, key = model, (lambda q: q)
    if arch == 'hybrid':
        found = [(n, s) for n, s in zip(
            model.get_hybridized_models_names()
            if hasattr(model, 'get_hybridized_models_names') else ['?']*9,
            model.get_hybridized_models())
            if isinstance(s, RecurrentConstitutiveModel)]
        if not found:
            return {}
        m = found[0][1]
    out = {}
    for q, v in m.get_model_parameters().items():
        x = float(v.data)
        if m.is_normalized_parameters:
            lo, hi = m.get_model_parameters_bounds()[q]
            x = lo + (hi - lo)*(x + 1)/2
        out[q] = x
    return out


def state(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


class Replay:
    """Independent training from a given model."""

    def __init__(self, ctx, arch, model, samples, opt, lr0, sched, in_sc,
                 out_sc, norm_loss, val=None, stop=None):
        self.__dict__.update(locals())
        self.opt_kind, self.opt_kw = opt
        self.adam = vt.Adam(model.parameters())
        self.clamped = clamp(arch, model) if arch == 'rc' else 0
        self.losses, self.lrs, self.states, self.phys = [], [], [], []
        self.moments = []
        self.steps_phys = [[physical(arch, model)]]
        self.stop_state = None

    def forward(self, b):
        x = vt.scale(self.in_sc, b['features_in'])
        if self.arch == 'rnn':
            return self.model(x, b.get('hidden_features_in'))[0]
        return self.model(x)

    def epoch(self, e, batches):
        lr = vt.rate(*self.sched, self.lr0, e)
        out = []
        seen = [physical(self.arch, self.model)]
        for idx in batches:
            b = vt.batch(self.samples, idx)
            y, t = self.forward(b), b['features_out']
            if self.out_sc is not None:
                t = vt.scale(self.out_sc, t)
                if self.norm_loss:
                    y = vt.scale(self.out_sc, y)
            v = vt.loss(self.opt_kind, self.opt_kw, y, t)
            self.adam.zero()
            v.backward()
            self.adam.step(lr)
            self.clamped += clamp(self.arch, self.model)
            out.append(float(v.detach()))
            seen.append(physical(self.arch, self.model))
        self.losses.append(float(np.mean(out)))
        self.lrs.append(lr)
        self.states.append(state(self.model))
        self.moments.append(self.adam.snapshot())
        self.phys.append(seen[-1])
        self.steps_phys.append(seen)

    def validate(self):
        tot = []
        with torch.no_grad():
            for s in self.val:
                b = vt.batch([s], [0])
                y = self.forward(b)[:, 0]
                t = s['features_out']
                if self.out_sc is not None:
                    t = vt.scale(self.out_sc, t)
                    if self.norm_loss:
                        y = vt.scale(self.out_sc, y)
                tot.append(float(vt.loss(self.opt_kind, self.opt_kw, y, t)))
        return float(np.mean(tot))


def pt_files(d, name, tag=''):
    p = re.escape(name + tag)
    return sorted(f for f in os.listdir(d)
                  if re.fullmatch(p + r'(-init|(-\d+)?(-best)?)?\.pt', f))


def same_state(ctx, rule, got, want, msg):
    ctx.ok(rule, set(got) == set(want), msg + ': other parameters')
    for k in set(got) & set(want):
        w = want[k].double().numpy()
        ctx.close(rule, got[k].double().numpy(), w, rtol=1e-5, atol=1e-9,
                  scale=float(np.abs(w).max()) + 1e-9,
                  msg=f'{msg}: parameter {k}')


def train(ctx, arch, mode):
    """mode: plain | early | params | resume"""
    torch.set_default_dtype(torch.float64)
    rng = ctx.rng
    d = ctx.tmpdir()
    samples, args, bounds = setup(ctx, arch, d)
    n = len(samples)
    ds = vt.Watched(samples)
    n_max = int(rng.integers(0, 5)) if mode == 'plain' else \
        int(rng.integers(4, 9))
    if rng.random() < .06:
        n_max = int(rng.integers(9, 24))
        ctx.event('many-epochs')
    bs = int(rng.integers(1, n + 2))
    shuffle = bool(rng.random() < .5)
    seed = (int(rng.integers(1 << 16))*int(rng.random() < .8)
            if rng.random() < .6 else None)
    kind = 'mse' if rng.random() < .5 else 'mre'
    lkw = {}
    if kind == 'mre':
        lkw = {'zero_handling': str(rng.choice(['absolute', 'clip',
                                                'regularizer'])),
               'small': float(10**rng.uniform(-4, -1))}
    sch = [None, 'steplr', 'explr', 'linlr'][int(rng.integers(4))]
    skw = {'steplr': {'step_size': int(rng.integers(1, 4)), 'gamma': .5},
           'explr': {'gamma': float(rng.uniform(.5, .99))},
           'linlr': {'start_factor': .5, 'total_iters': 3}}.get(sch, {})
    norm_par = bool(args.get('is_normalized_parameters', True))
    lr0 = float(10**rng.uniform(-3, -1.3))
    if arch == 'rc' and not norm_par:
        lr0 *= 1.
    if mode == 'early':
        lr0 = float(10**rng.uniform(-1.3, 0))
    save_every = None if rng.random() < .5 else int(rng.integers(1, 4))
    kw = dict(lr_scheduler_type=sch, lr_scheduler_kwargs=skw, loss_type=kind,
              loss_kwargs=lkw, batch_size=bs, is_sampler_shuffle=shuffle,
              save_every=save_every, seed=seed)
    in_n = bool(args.get('is_model_in_normalized', False))
    out_n = bool(args.get('is_model_out_normalized', False))
    norm_loss = False
    if arch == 'rc':
        kw['is_params_stopping'] = mode == 'params'
        if mode == 'early' and rng.random() < .5:
            # a criterion which is never met
            kw.update(is_params_stopping=True, params_stopping_kwargs={
                'convergence_tolerance': 1e-300})
        norm_loss = bool(rng.random() < .4)
        kw['is_normalized_loss'] = norm_loss
    pkw = {}
    if mode == 'params':
        pkw = {'convergence_tolerance': float(10**rng.uniform(-3, -.5)),
               'trigger_tolerance': int(rng.integers(1, 4)),
               'min_hist_length': int(rng.integers(0, 5))}
        kw['params_stopping_kwargs'] = pkw
    sk = 'mean-std'
    if arch == 'rnn':
        sk = str(rng.choice(['mean-std', 'min-max']))
        kw['data_scaling_type'] = sk
    val, ekw = None, None
    if mode == 'early':
        val = [samples[int(i)] for i in rng.integers(0, n, 2)]
        val = [{**s, 'features_out': s['features_out']*rng.uniform(.5, 1.5)}
               for s in val]
        ekw = dict(frequency=int(rng.integers(1, 3)),
                   trigger=int(rng.integers(1, 3)),
                   improvement=float(rng.choice([1e-2, .2])))
        kw.update(is_early_stopping=True, early_stopping_kwargs={
            'validation_dataset': vt.Watched(val),
            'validation_frequency': ekw['frequency'],
            'trigger_tolerance': ekw['trigger'],
            'improvement_tolerance': ekw['improvement']})
    name = args['model_name']
    tag = (f'{arch} {mode} n={n} batch={bs} shuffle={shuffle} {kind} {sch} '
           f'in={in_n} out={out_n} nl={norm_loss} max={n_max}')
    prior, prior_opt = set(), set()
    if mode == 'resume':
        MOD[arch].train_model(int(rng.integers(1, 5)), ds, args, lr0, **{
            **kw, 'save_every': 1})
        what = ['best', 'last', 'init', 0][int(rng.integers(4))]
        kw['model_load_state'] = what
        prior, prior_opt = set(pt_files(d, name)), set(
            pt_files(d, name, '_optim'))
        src = {'init': f'{name}-init.pt', 0: f'{name}-0.pt'}.get(what)
        eps = [int(q.group(1)) for f in prior
               if (q := re.fullmatch(re.escape(name) + r'-(\d+)\.pt', f))]
        if what == 'last':
            src = f'{name}-{max(eps)}.pt'
        elif what == 'best':
            src = [f for f in prior if f.endswith('-best.pt')][0]
            be = int(src.split('-')[-2])
            prior = {f for f in prior if not re.fullmatch(
                re.escape(name) + r'-(\d+)\.pt', f) or
                int(f[len(name) + 1:-3]) <= be}
        elif what in ('init', 0):
            prior = {f for f in prior if not re.fullmatch(
                re.escape(name) + r'-(\d+)\.pt', f) or
                int(f[len(name) + 1:-3]) <= 0}
        start = torch.load(os.path.join(d, src))
        ctx.event('resume')
    torch.manual_seed(int(rng.integers(1 << 30)))
    ds.log.clear()
    given = {k: v for k, v in args.items()}
    model, best_loss, best_epoch = MOD[arch].train_model(
        n_max, ds, args, lr0, **kw)
    rec_path = os.path.join(d, 'loss_history_record.pkl')
    with open(rec_path, 'rb') as f:
        rec = pickle.load(f)
    got = [float(x) for x in rec['training_loss_history']]
    E = len(got)
    ctx.ok('epochs', 1 <= E <= n_max + 1,
           f'{tag}: {E} epochs for a maximum of {n_max} (counted from 0)')
    # order in which samples were read: each once per epoch
    order = ds.log[len(ds.log) - E*n:]
    per = vt.split(order, n)
    for e, p in enumerate(per):
        ctx.ok('each-sample-once', sorted(p) == list(range(n)),
               f'{tag}: epoch {e} read samples {p}')
        if not shuffle:
            ctx.ok('order', p == list(range(n)), f'{tag}: order {p}')
    if shuffle:
        ctx.event('shuffled')
    # replay
    rep_model = CLS[arch].init_model_from_file(d)
    init = torch.load(os.path.join(d, f'{name}-init.pt'))
    if mode == 'resume':
        ctx.ok('resume', set(init) == set(start) and all(
            torch.equal(init[k], start[k]) for k in init),
            f'{tag}: training did not start from state {what}')
    rep_model.load_state_dict(init)
    rep_model.train()
    sc_in = vt.stats(sk, samples, 'features_in') if in_n else None
    sc_out = vt.stats(sk, samples, 'features_out') \
        if out_n or norm_loss else None
    rep = Replay(ctx, arch, rep_model, samples, (kind, lkw), lr0, (sch, skw),
                 sc_in, sc_out, norm_loss and not out_n, val=val)
    if in_n or out_n or norm_loss:
        ctx.event('normalised')
    if sch:
        ctx.event('schedule')
    files, best_file = set(), None
    stop = vt.Stopper(**ekw) if ekw else None
    ended, close_call = None, False
    loaded = None
    for e in range(E):
        rep.epoch(e, vt.split(per[e], bs))
        ctx.event('epoch')
        ctx.event('batch', len(vt.split(per[e], bs)))
        if save_every and e % save_every == 0:
            files = {q for q in files if q <= e} | {e}
        if got[e] <= min(got[:e + 1]):
            best_file = e
        if stop and stop.due(e):
            v = rep.validate()
            new, halt = stop.see(e, v)
            if new:
                stop.state, stop.at = rep.states[-1], e
                stop.moments = rep.moments[-1]
            if halt:
                ended = 'early-stop'
                best_file = stop.at
                loaded = stop.state
                files = {q for q in files if q <= stop.at}
                break
        if e >= n_max:
            ended = 'full-run'
            break
    sc = max(abs(x) for x in rep.losses) + 1e-300
    ctx.close('losses', got[:len(rep.losses)], rep.losses, rtol=1e-6,
              atol=1e-12, scale=sc, msg=f'{tag}: loss history')
    hist = None
    if arch != 'rnn':
        with open(os.path.join(d, 'parameters_history_record.pkl'),
                  'rb') as f:
            hist = pickle.load(f)['model_parameters_history']
    if mode == 'params':
        flags = [vt.converged({q: h[:k + 2] for q, h in hist.items()},
                              pkw['convergence_tolerance'],
                              pkw['trigger_tolerance'],
                              pkw['min_hist_length'])
                 for k in range(E)]
        near = any(_near(h, pkw['convergence_tolerance'])
                   for h in hist.values())
        if not near:
            first = flags.index(True) if True in flags else None
            if first is None:
                ctx.same('params-stop', E, n_max + 1,
                         f'{tag}: stopped without parameters convergence')
            else:
                ctx.same('params-stop', E - 1, min(first, n_max),
                         f'{tag}: parameters converged at epoch {first}')
                if first < n_max:
                    ctx.event('params-stop')
        ended = 'params'
    elif mode == 'early':
        ctx.same('early-stop', len(rep.losses), E,
                 f'{tag}: validation losses {stop.hist} {ekw}: epochs')
        if ended is None:
            ctx.fail('early-stop', f'{tag}: stopped after {E} epochs with '
                     f'validation losses {stop.hist} {ekw}')
        got_val = rec['validation_loss_history']
        ctx.close('validation', [float(x) for x in got_val], stop.hist,
                  rtol=1e-6, atol=1e-12, scale=max(stop.hist) + 1e-300,
                  msg=f'{tag}: validation history')
    else:
        ctx.same('full-run', E, n_max + 1, f'{tag}: epochs')
    if ended:
        ctx.event(ended if ended != 'params' else 'full-run')
    # returned values
    ctx.close('best-loss', best_loss, min(got), rtol=1e-12,
              msg=f'{tag}: best loss')
    ctx.ok('best-epoch', 0 <= best_epoch < E and
           abs(got[best_epoch] - min(got)) <= 1e-12*abs(min(got)),
           f'{tag}: epoch {best_epoch} of {got}')
    # final state, state files
    last = E - 1
    final = loaded if loaded is not None else rep.states[-1]
    same_state(ctx, 'final', state(model), final, f'{tag}: trained model')
    files = {q for q in files if q <= last} | {last}
    want = {f'{name}-init.pt', f'{name}-{best_file}-best.pt'} | {
        f'{name}-{q}.pt' for q in files}
    want_opt = {f'{name}_optim-{best_file}-best.pt'} | {
        f'{name}_optim-{q}.pt' for q in files}
    if mode == 'resume':
        # superseded by the first best state of the new training
        want |= {f for f in prior if not f.endswith('-best.pt') and (
            not re.fullmatch(re.escape(name) + r'-(\d+)\.pt', f)
            or int(f[len(name) + 1:-3]) <= 0)}
        want_opt |= {f for f in prior_opt if not f.endswith('-best.pt')
                     and int(f[len(name) + 7:-3]) <= 0}
    ctx.same('state-files', set(pt_files(d, name)), want, f'{tag}: states')
    ctx.same('state-files', set(pt_files(d, name, '_optim')), want_opt,
             f'{tag}: optimizer states')
    bf = torch.load(os.path.join(d, f'{name}-{best_file}-best.pt'))
    same_state(ctx, 'best-state', bf, loaded if loaded is not None
               else rep.states[best_file], f'{tag}: best state')
    for q in files:
        st = torch.load(os.path.join(d, f'{name}-{q}.pt'))
        same_state(ctx, 'epoch-state', st, final if q == last
                   else rep.states[q], f'{tag}: state of epoch {q}')
    # optimizer states go with the model states
    names = {f'{name}_optim-{best_file}-best.pt': (
        best_file, stop.moments if loaded is not None
        else rep.moments[best_file])}
    for q in files:
        names[f'{name}_optim-{q}.pt'] = (
            q, stop.moments if loaded is not None and q == last
            else rep.moments[q])
    for f, (q, mom) in names.items():
        st = torch.load(os.path.join(d, f))
        ctx.same('optimizer-state', st['epoch'], q, f'{tag}: epoch in {f}')
        for i, r in st['state']['state'].items():
            m, v, t = mom[i]
            ctx.same('optimizer-state', int(r['step']), t,
                     f'{tag}: steps in {f}')
            for key, w in (('exp_avg', m), ('exp_avg_sq', v)):
                ctx.close('optimizer-state', r[key], w, rtol=1e-4,
                          atol=1e-12, scale=float(w.abs().max()) + 1e-9,
                          msg=f'{tag}: {key} in {f}')
        ctx.event('optimizer-state')
    # learning rates: of the epoch or reached at its end
    lrs = [float(x[0]) if isinstance(x, (list, tuple)) else float(x)
           for x in rec['lr_history_epochs']]
    a = [vt.rate(sch, skw, lr0, e) for e in range(E)]
    b = [vt.rate(sch, skw, lr0, e + 1) for e in range(E)]
    ctx.ok('rates', np.allclose(lrs, a, rtol=1e-9) or
           np.allclose(lrs, b, rtol=1e-9),
           f'{tag}: learning rates {lrs}, expected {a}')
    # material parameters
    if bounds:
        ctx.event('bounds', rep.clamped)
        for st in [state(model), bf]:
            rep_model.load_state_dict(st)
            for (q, x), (lo, hi) in zip(
                    physical(arch, rep_model).items(), bounds.values()):
                ctx.ok('bounds', lo - 1e-9*abs(lo) <= x <= hi + 1e-9*abs(hi),
                       f'{tag}: {q}={x} outside ({lo}, {hi})')
        with open(os.path.join(d, 'parameters_best.pkl'), 'rb') as f:
            pb = pickle.load(f)['best_model_parameters']
        rep_model.load_state_dict(bf)
        phys = physical(arch, rep_model)
        ctx.close('best-parameters', sorted(pb.values()),
                  sorted(phys.values()), rtol=1e-9,
                  msg=f'{tag}: recorded best parameters')
        ctx.ok('history', all(len(h) == E + 1 for h in hist.values()),
               f'{tag}: parameters history length')
        for hq, q in zip(hist.values(), phys):
            ctx.close('history', hq[0], rep.steps_phys[0][0][q], rtol=1e-9,
                      msg=f'{tag}: initial {q}')
            for e in range(E):
                w = [s[q] for s in rep.steps_phys[e + 1]]
                tol = 1e-6*max(abs(x) for x in w)
                ctx.ok('history', min(w) - tol <= hq[e + 1] <= max(w) + tol,
                       f'{tag}: {q}={hq[e + 1]} not in epoch values {w}')
    # same seed, same training
    if seed is not None and mode != 'resume':
        d2 = ctx.tmpdir()
        a2 = {**given, 'model_directory': d2}
        if arch == 'hybrid':
            return _sig(ctx, arch, mode, kind, sch, shuffle, in_n, out_n)
        ds2 = vt.Watched(samples)
        MOD[arch].train_model(n_max, ds2, a2, lr0, **kw)
        with open(os.path.join(d2, 'loss_history_record.pkl'), 'rb') as f:
            again = [float(x) for x in
                     pickle.load(f)['training_loss_history']]
        ctx.same('seeded', ds2.log[len(ds2.log) - len(again)*n:], order,
                 f'{tag}: sample order with the same seed')
        ctx.close('seeded', again, got, rtol=1e-9, atol=1e-14,
                  msg=f'{tag}: losses with the same seed')
        ctx.event('seeded')
    _sig(ctx, arch, mode, kind, sch, shuffle, in_n, out_n)


def _sig(ctx, *a):
    ctx.state(*a)


def _near(h, tol):
    """A change so close to the tolerance that rounding may decide."""
    h = np.asarray(h, float)
    r = np.abs(np.diff(h))/np.where(h[:-1] == 0, 1, np.abs(h[:-1]))
    return bool(np.any(np.abs(r - tol) < 1e-6*tol + 1e-12))


def modes(ctx, arch):
    """Dropout acts on every training step, also after validations, and on
    no validation."""
    torch.set_default_dtype(torch.float64)
    rng = ctx.rng
    d = ctx.tmpdir()
    samples, args, _ = setup(ctx, arch, d, drop=.5, n=3)
    seen, busy = [], []
    real = GRURNNModel.forward

    def fwd(self, *a, **k):
        out = real(self, *a, **k)
        if not busy:
            busy.append(1)
            with torch.random.fork_rng():
                same = True
                for _ in range(4):
                    with torch.no_grad():
                        same &= bool(torch.allclose(
                            real(self, *a, **k)[0], out[0], rtol=1e-9,
                            atol=1e-12))
            busy.pop()
            seen.append((torch.is_grad_enabled(), not same))
        return out
    try:
        GRURNNModel.forward = fwd
        MOD[arch].train_model(
            4, vt.Watched(samples), args, 1e-3, lr_scheduler_type=None,
            batch_size=2, is_early_stopping=True, early_stopping_kwargs={
                'validation_dataset': vt.Watched(samples[:2]),
                'validation_frequency': int(rng.integers(1, 3)),
                'trigger_tolerance': 50})
    finally:
        GRURNNModel.forward = real
    tr = [x for g, x in seen if g]
    va = [x for g, x in seen if not g]
    ctx.ok('dropout-training', len(tr) >= 10 and all(tr),
           f'{arch}: dropout on training steps {tr}')
    ctx.ok('dropout-validation', va and not any(va),
           f'{arch}: dropout on validations {va}')
    ctx.event('dropout-step', len(tr))
    ctx.event('dropout-validation', len(va))
    ctx.state('modes', arch, len(seen))


def convex(ctx):
    """A Lou-Zhang-Yoon training keeps its yield surface convex at every
    step."""
    torch.set_default_dtype(torch.float64)
    rng = ctx.rng
    d = ctx.tmpdir()
    spec = mat.Spec(rng, 'lou_zhang_yoon', kinds='linear', tame=True)
    dim = 3
    t = rng.uniform(0, 2*math.pi)
    c, dd = math.cos(t), math.sin(t)
    r = 1e-3
    while mat.lou_convexity(r*c, r*dd) > 1e-2 and r < 3:
        r *= 1.02
    r /= 1.02
    c, dd = c*r, dd*r
    learn = {k: {'initial_value': float(v), 'bounds': (-6., 6.)}
             for k, v in (('yield_c_s0', c), ('yield_d_s0', dd))}
    # elastic paths depend on E alone
    learn['E'] = {'initial_value': spec.E, 'bounds': (.5*spec.E, 2*spec.E)}
    samples = []
    for _ in range(2):
        p = rc.strain_path(rng, spec, dim, kind='proportional', n=4)
        p = p - p[:1]
        samples.append({'features_in': T(p), 'features_out': T(
            spec.s0*rng.standard_normal((len(p), 6)))})
    n = min(len(s['features_in']) for s in samples)
    samples = [{k: v[:n] for k, v in s.items()} for s in samples]
    norm = bool(rng.random() < .5)
    args = dict(n_features_in=6, n_features_out=6, learnable_parameters=learn,
                strain_formulation='infinitesimal', problem_type=mat.PT[dim],
                material_model_name='lou_zhang_yoon',
                material_model_parameters=spec.code_parameters(),
                model_directory=d, model_name='rcm',
                is_normalized_parameters=norm)
    seen = []
    real = RecurrentConstitutiveModel.forward

    def fwd(self, *a, **k):
        v = self.get_detached_model_parameters()
        seen.append((v['yield_c_s0'], v['yield_d_s0']))
        return real(self, *a, **k)
    try:
        RecurrentConstitutiveModel.forward = fwd
        model = t_rc.train_model(
            5, vt.Watched(samples), args, .3/(6 if norm else 1),
            lr_scheduler_type=None, batch_size=1)[0]
    except RuntimeError as e:
        if 'NaN' not in str(e) and 'convergence' not in str(e):
            raise
        ctx.event('convex-failed-update')
        model = None
    finally:
        RecurrentConstitutiveModel.forward = real
    if model is not None:
        v = model.get_detached_model_parameters()
        seen.append((v['yield_c_s0'], v['yield_d_s0']))
    for i, (x, y) in enumerate(seen):
        ctx.ok('convex', mat.lou_convexity(.99*x, .99*y) > -1e-2,
               f'step {i}: c={x} d={y} of {seen}')
        ctx.event('convex-step')
        if i and (x, y) != seen[0]:
            ctx.event('convex-moved')
            if mat.lou_convexity(1.03*x, 1.03*y) < 1e-2:
                ctx.event('convex-boundary')
    ctx.state('convex', round(c, 3), round(dd, 3))


def kfold(ctx):
    """Each sample validates exactly one fold and trains all others."""
    torch.set_default_dtype(torch.float64)
    rng = ctx.rng
    d = ctx.tmpdir()
    samples, args, _ = setup(ctx, 'rnn', d)
    while len(samples) < 4:
        samples = samples + samples
    ds = vt.Watched(samples)
    k = int(rng.integers(2, min(4, len(samples)) + 1))
    seen = []
    real_t, real_p = cv.train_model, cv.predict

    def tr(n_max, dset, a, *p, **q):
        seen.append([sorted(int(i) for i in dset.indices), None,
                     a['model_directory']])
        out = real_t(n_max, dset, a, *p, **q)
        seen[-1].append(out[1])
        return out

    def pr(dset, directory, *p, **q):
        seen[-1][1] = sorted(int(i) for i in dset.indices)
        ctx.ok('kfold', os.path.samefile(directory, seen[-1][2]),
               'fold validated with another model')
        out = real_p(dset, directory, *p, **q)
        seen[-1].append(out[1])
        return out
    try:
        cv.train_model, cv.predict = tr, pr
        got = kfold_cross_validation(
            d, k, 1, ds, args, 1e-2, lr_scheduler_type=None, batch_size=2)
    finally:
        cv.train_model, cv.predict = real_t, real_p
    n = len(samples)
    ctx.same('kfold', np.shape(got), (k, 2), 'loss array')
    ctx.ok('kfold', len(seen) == k, f'{len(seen)} folds')
    ctx.ok('kfold', sorted(sum((s[1] for s in seen), [])) == list(range(n)),
           'validation folds do not partition the data set')
    for i, s in enumerate(seen):
        ctx.ok('kfold', sorted(s[0] + s[1]) == list(range(n)),
               f'fold {i}: training and validation samples {s[:2]}')
        ctx.close('kfold', got[i], s[3:5], rtol=1e-9, msg=f'fold {i} losses')
        # validation loss is that of the best state of the fold
        m = GRURNNModel.init_model_from_file(s[2])
        f = [x for x in os.listdir(s[2])
             if re.fullmatch(r'gru-\d+-best\.pt', x)]
        m.load_state_dict(torch.load(os.path.join(s[2], f[0])))
        tr_s = [samples[j] for j in s[0]]
        si = vt.stats('mean-std', tr_s, 'features_in') \
            if args['is_model_in_normalized'] else None
        so = vt.stats('mean-std', tr_s, 'features_out') \
            if args['is_model_out_normalized'] else None
        tot = []
        for j in s[1]:
            b = vt.batch([samples[j]], [0])
            with torch.no_grad():
                y = m(vt.scale(si, b['features_in']),
                      b.get('hidden_features_in'))[0]
            t = vt.scale(so, b['features_out'])
            tot.append(float(vt.loss('mse', {}, y, t)))
        ctx.close('kfold', got[i][1], np.mean(tot), rtol=1e-6, atol=1e-12,
                  msg=f'fold {i}: validation loss')
    ctx.event('kfold')
    ctx.state('kfold', k, n)


def cases(tier):
    r = 24 if tier == 'quick' else 500
    out = []
    for arch in MOD:
        for mode in ('plain', 'early', 'resume'):
            out += [('train', {'arch': arch, 'mode': mode})]*r
        if arch == 'rc':
            out += [('train', {'arch': arch, 'mode': 'params'})]*r
    out += [('kfold', {})]*r + [('convex', {})]*r
    out += [('modes', {'arch': a}) for a in ('rnn', 'hybrid')]*(r//2)
    return out
