"""C28: the material model finder learns by descending the specimen's force
imbalance, and its records and files describe that descent."""
import copy
import math
import os
import pickle
import re
import numpy as np
import torch
from vmon import mat, ref, train as vt
from vmon.checks import c15, c16
from material_model_finder.model.material_discovery import \
    MaterialModelFinder
from material_model_finder.train import training as tr
from model_architectures.procedures.model_training import \
    read_loss_history_from_file, read_lr_history_from_file
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from simulators.fetorch.structure.structure_state import \
    StructureMaterialState

PROPERTY = 'C28'
RULE = ('short discoveries of constitutive, neural and hybrid materials on '
        'random specimens (element types, loss types, weights, scaling, '
        'schedules, checkpoints, parameters stopping, bounds that bind); an '
        'independent Adam loop over an identical specimen replays each '
        'discovery; initial loss against an independent finite element '
        'evaluation; non-trivial: distinct (material, element, options)')
ASSUMPTIONS = ['CPU device only', 'double precision',
               'loss value and gradient of one forward propagation are '
               'judged by C16',
               'a state saved for an epoch is the one after its update']
REQUIRED_EVENTS = ('epoch', 'constitutive', 'neural', 'hybrid', 'clamped',
                   'params-stop', 'schedule', 'sets', 'stored', 'seeded',
                   'equilibrium', 'convex', 'convex-returned', 'falls-again')


def T(x):
    return torch.tensor(np.asarray(x), dtype=torch.float64)


def N(t):
    return t.detach().double().numpy()


def learnable(ctx, sp, norm):
    """Learnable parameters starting away from the true values."""
    rng = ctx.rng
    keys = [k for k in c16.GRAD[sp.name] if k in c15.usable(sp)]
    keys = [str(k) for k in rng.choice(
        keys, min(len(keys), int(rng.integers(1, 4))), replace=False)]
    learn = {}
    for k in keys:
        d, n = c15.locate(sp, k)
        v = float(d[n])
        r = max(abs(v), 1e-3)
        lo, hi = v - r*rng.uniform(.1, .5), v + r*rng.uniform(.1, .5)
        if k == 'v':
            hi = min(hi, .46)
            lo = min(lo, hi - .02)
        if rng.random() < .3:        # the optimum is outside the bounds
            hi = lo + .9*(v - lo) if v > lo else hi
        x = lo + (hi - lo)*rng.uniform(.02, .98)
        if rng.random() < .15:
            x = hi + (hi - lo)*.2    # initial value outside its bounds
        learn[k] = {'initial_value': float(x), 'bounds': (float(lo),
                                                          float(hi))}
    return learn


def recurrent(ctx, sp, dim, learn, norm):
    n = len(ref.SYM[dim])
    return RecurrentConstitutiveModel(
        n, n, learn, 'infinitesimal', mat.PT[dim], sp.name + '_vmap',
        sp.code_parameters(), ctx.tmpdir(), is_normalized_parameters=norm,
        is_check_su_fail=False, is_auto_sync_parameters=False)


def build(ctx, case, kind, learn, norm):
    """Material state of the specimen."""
    n = len(ref.SYM[case.dim])
    if kind == 'rc':
        return c16.materials(ctx, case, 'rc_vmap', [learn], norm, sync=False)
    S = StructureMaterialState('infinitesimal', mat.PT[case.dim],
                               case.n_elem)
    ids = list(range(1, case.n_elem + 1))
    ys = case.specs[0].yield_strain()
    if kind == 'gru':
        flags = [bool(ctx.rng.random() < .5) for _ in range(2)]
        par = {'features_in': {'mean': T(np.zeros(n)),
                               'std': T(np.full(n, ys))},
               'features_out': {'mean': T(np.zeros(n)),
                                'std': T(np.full(n, 100.))}}
        S.init_elements_model(
            'gru_material_model', {}, ids, case.types(), model_kwargs=dict(
                n_features_in=n, n_features_out=n,
                hidden_layer_size=int(ctx.rng.integers(1, 4)),
                n_recurrent_layers=int(ctx.rng.integers(1, 3)), dropout=0,
                model_directory=ctx.tmpdir(),
                is_model_in_normalized=flags[0],
                is_model_out_normalized=flags[1], gru_model_source='custom',
                device_type='cpu', scaling_type='mean-std',
                scaling_parameters=par))
        return S
    g = GRURNNModel(n, n, 2, ctx.tmpdir(), gru_model_source='custom')
    sub = {'candidate': {'hyb_model': recurrent(ctx, case.specs[0], case.dim,
                                                learn, norm),
                         'hyb_indices': (0, 0), 'is_input_residual': False},
           'correction': {'hyb_model': g, 'hyb_indices': (1, 0),
                          'is_input_residual': False}}
    S.init_elements_model(
        'hybrid_material_model', {}, ids, case.types(), model_kwargs=dict(
            n_features_in=n, n_features_out=n, hyb_models_dict=sub,
            hybridization_type='additive', model_directory=ctx.tmpdir(),
            is_model_in_normalized=False, is_model_out_normalized=False,
            device_type='cpu'))
    return S


def candidates(f):
    """Constitutive models with learnable parameters, by label prefix."""
    out = {}
    for key, m in f.get_material_models().items():
        if isinstance(m, RecurrentConstitutiveModel):
            out[f'model_{key}'] = m
        elif hasattr(m, 'get_hybridized_models'):
            for nm, s in zip(m.get_hybridized_models_names(),
                             m.get_hybridized_models()):
                if isinstance(s, RecurrentConstitutiveModel):
                    out[f'model_{key}_{nm}'] = s
    return out


def physical(f):
    out = {}
    for pre, m in candidates(f).items():
        for q, v in m.get_model_parameters().items():
            x = float(v.data)
            if m.is_normalized_parameters:
                lo, hi = m.get_model_parameters_bounds()[q]
                x = lo + (hi - lo)*(x + 1)/2
            out[f'{pre}_{q}'] = x
    return out


def clamp(f):
    hit = 0
    for m in candidates(f).values():
        for q, v in m.get_model_parameters().items():
            lo, hi = (-1., 1.) if m.is_normalized_parameters else \
                m.get_model_parameters_bounds()[q]
            x = float(v.data)
            if not lo <= x <= hi:
                hit += 1
                v.data.fill_(min(max(x, lo), hi))
        m.enforce_parameters_constraints()
    return hit


def state(f):
    return {k: v.detach().clone() for k, v in f.state_dict().items()}


def same_state(ctx, rule, got, want, msg):
    ctx.ok(rule, set(got) == set(want), f'{msg}: {set(got) ^ set(want)}')
    for k in set(got) & set(want):
        w = want[k].double().numpy()
        ctx.close(rule, got[k].double().numpy(), w, rtol=1e-5, atol=1e-9,
                  scale=float(np.abs(w).max(initial=0)) + 1e-9,
                  msg=f'{msg}: parameter {k}')


def records(d):
    p = os.path.join(d, 'loss_history_record.pkl')
    _, _, h, v = read_loss_history_from_file(p)
    return [float(x) for x in h], v, read_lr_history_from_file(p)


def discover(ctx, name, mname, kind, stop=False, sets=False, store=False,
             osc=False):
    torch.set_default_dtype(torch.float64)
    rng = ctx.rng
    torch.manual_seed(int(rng.integers(1 << 30)))
    case = c16.Case(ctx, name, mname, n_time=int(rng.integers(2, 5)))
    F = case.solve(True)
    if F is None or abs(F).max() == 0:
        ctx.event('failure-skipped')
        return
    sp = case.specs[0]
    norm = bool(rng.random() < .7)
    learn = learnable(ctx, sp, norm) if kind != 'gru' else {}
    if osc:
        v = float(sp.par['E'])
        learn = {'E': {'initial_value': v*float(rng.uniform(1.2, 1.4)),
                       'bounds': (.3*v, 2*v)}}
    bc = c16.boundary(ctx, case, sets)
    R = F*(rng.uniform(.8, 1.2) if not osc else 1.)
    S = build(ctx, case, kind, learn, norm)
    S2, S3 = copy.deepcopy(S), copy.deepcopy(S)
    top = abs(F).max()**2*F.size
    scale = float(10**rng.uniform(-1, 1)/top)
    w = T(rng.uniform(0, 2, case.n_time)) if rng.random() < .5 else None
    sch = [None, 'steplr', 'explr', 'linlr'][int(rng.integers(4))]
    skw = {'steplr': {'step_size': int(rng.integers(1, 4)), 'gamma': .5},
           'explr': {'gamma': float(rng.uniform(.5, .99))},
           'linlr': {'start_factor': .5, 'total_iters': 3}}.get(sch, {})
    n_max = int(rng.integers(4, 8)) if stop else ctx.size(0, 5, 20)
    lr0 = float(10**rng.uniform(-2.5, -.5))
    if osc:                  # overshoots: the loss falls, rises and falls
        n_max = int(rng.integers(8, 14))
        lr0 = float(rng.uniform(.15, .4))*(1 if norm else .5)
        sch, skw = (None, {}) if rng.random() < .6 else \
            ('explr', {'gamma': float(rng.uniform(.8, .95))})
    if not norm and kind == 'rc':
        lr0 *= min(abs(q['bounds'][1] - q['bounds'][0])
                   for q in learn.values())
    pkw = {}
    if stop:
        pkw = {'convergence_tolerance': float(10**rng.uniform(-3, -.5)),
               'trigger_tolerance': int(rng.integers(1, 4)),
               'min_hist_length': int(rng.integers(0, 5))}
    explicit = kind != 'gru'
    every = None if rng.random() < .5 else int(rng.integers(1, 4))
    seed = (int(rng.integers(1 << 16))*int(rng.random() < .8)
            if rng.random() < .5 else None)
    d = ctx.tmpdir()
    margs = dict(model_directory=d, model_name='finder',
                 force_equilibrium_loss_type='dirichlet_sets' if sets
                 else 'pointwise', device_type='cpu')
    if store:
        margs['is_store_force_equilibrium_loss_hist'] = True
        if sets:
            margs['is_compute_sets_reaction_hist'] = True
    kw = dict(lr_scheduler_type=sch, lr_scheduler_kwargs=skw,
              is_explicit_model_parameters=explicit,
              is_params_stopping=stop, params_stopping_kwargs=pkw,
              loss_scaling_factor=scale, loss_time_weights=w,
              save_every=every, seed=seed)
    tag = (f'{kind} {mname} {name} sets={sets} stop={stop} norm={norm} '
           f'learn={learn} {sch} max={n_max} lr={lr0}')
    data = c16.specimen(case, bc, R)
    try:
        model, best_loss, best_epoch = tr.train_model(n_max, data, S, margs,
                                                      lr0, **kw)
    except RuntimeError as e:
        if 'NaNs were detected' not in str(e):
            raise
        # the descent may lead where the material has no converged state; it
        # must then be the very descent, and past the admissible start
        broken(ctx, case, bc, R, S2, margs, scale, w, explicit,
               lambda e: vt.rate(sch, skw, lr0, e), n_max, tag)
        return
    ctx.event({'rc': 'constitutive', 'gru': 'neural',
               'hybrid': 'hybrid'}[kind])
    ctx.state(kind, mname, name, sets, stop, norm, sch, len(learn), store)
    got, val, (lr_type, lrs) = records(d)
    E = len(got)
    ctx.ok('epochs', 1 <= E <= n_max + 1, f'{tag}: {E} epochs')
    ctx.ok('no-validation', val is None, f'{tag}: validation history')
    ctx.same('schedule-type', lr_type, sch)
    # replay on an identical specimen
    f = MaterialModelFinder(ctx.tmpdir(), model_name='finder',
                            force_equilibrium_loss_type=margs[
                                'force_equilibrium_loss_type'])
    f.set_specimen_data(c16.specimen(case, bc, R), S2,
                        loss_scaling_factor=scale, loss_time_weights=w)
    start_raw = state(f)
    hits = clamp(f) if explicit else 0
    start = physical(f)
    if kind == 'rc':
        # loss before the first update, from an independent evaluation
        F0 = case.solve(True, [c15.with_values(
            sp, {k[len('model_1_'):]: v for k, v in start.items()})])
        if F0 is not None:
            ww = N(w) if w is not None else np.ones(case.n_time)
            want = c16.reference(F0, R, bc, sets, ww, scale,
                                 np.ones(case.dim))
            sc = c16.reference(abs(F0) + abs(R), 0*R, bc, False, ww, scale,
                               np.ones(case.dim))
            ctx.close('first-loss', got[0], want, rtol=2e-5,
                      scale=max(abs(want), .05*sc), msg=tag)
            if want < 1e-12*sc:
                ctx.event('equilibrium')
    adam = vt.Adam(f.parameters())
    losses, phys, states = [], [], []
    for e in range(E):
        L = f(sequential_mode='sequential_element_vmap')
        adam.zero()
        if L.requires_grad:
            L.backward()
        adam.step(vt.rate(sch, skw, lr0, e))
        if explicit:
            hits += clamp(f)
        losses.append(float(L.detach()))
        phys.append(physical(f))
        states.append(state(f))
        ctx.event('epoch')
    if hits:
        ctx.event('clamped', hits)
    if sch:
        ctx.event('schedule')
    if sets:
        ctx.event('sets')
    low = int(np.argmin(losses))
    if any(losses[low] < b < a for a, b in zip(losses[low + 1:],
                                               losses[low + 2:])):
        ctx.event('falls-again')
    sc = max(losses) + 1e-300
    ctx.close('losses', got, losses, rtol=1e-6, atol=1e-12*sc, scale=sc,
              msg=f'{tag}: loss history')
    # stopping
    hist = None
    if explicit:
        hist, bnd = tr.read_parameters_history_from_file(
            os.path.join(d, 'parameters_history_record.pkl'))
        ctx.same('parameter-labels', set(hist), set(start), tag)
        for q in start:
            ctx.same('history-length', len(hist[q]), E, f'{tag}: {q}')
            ctx.close('history', [float(x) for x in hist[q]],
                      [p[q] for p in phys], rtol=1e-6,
                      scale=max(abs(p[q]) for p in phys) + 1e-9,
                      msg=f'{tag}: history of {q}')
            k = q.rsplit('model_1_')[-1].replace('candidate_', '')
            ctx.same('history-bounds', tuple(float(x) for x in bnd[q]),
                     learn[k]['bounds'], f'{tag}: {q}')
            lo, hi = learn[k]['bounds']
            for x in hist[q]:
                ctx.ok('bounds', lo - 1e-9*abs(lo) <= float(x)
                       <= hi + 1e-9*abs(hi),
                       f'{tag}: {q}={x} outside ({lo}, {hi})')
        best, bb = tr.read_best_parameters_from_file(
            os.path.join(d, 'parameters_best.pkl'))
        ctx.same('best-labels', set(best), set(start), tag)
        ctx.same('best-bounds', {k: tuple(map(float, v))
                                 for k, v in bb.items()},
                 {k: tuple(map(float, v)) for k, v in bnd.items()}, tag)
    if stop and explicit:
        flags = [vt.converged({q: h[:k + 1] for q, h in hist.items()},
                              pkw['convergence_tolerance'],
                              pkw['trigger_tolerance'],
                              pkw['min_hist_length']) for k in range(E)]
        if not any(near(h, pkw['convergence_tolerance'])
                   for h in hist.values()):
            first = flags.index(True) if True in flags else None
            if first is None:
                ctx.same('params-stop', E, n_max + 1,
                         f'{tag}: stopped without parameters convergence')
            else:
                ctx.same('params-stop', E - 1, min(first, n_max),
                         f'{tag}: parameters converged at epoch {first}')
                if first < n_max:
                    ctx.event('params-stop')
    else:
        ctx.same('full-run', E, n_max + 1, f'{tag}: epochs')
    # returned values and files
    ctx.close('best-loss', best_loss, min(got), rtol=1e-12, msg=tag)
    ctx.ok('best-epoch', 0 <= best_epoch < E and
           abs(got[best_epoch] - min(got)) <= 1e-12*abs(min(got)),
           f'{tag}: epoch {best_epoch} of {got}')
    same_state(ctx, 'final', state(model), states[-1], f'{tag}: final')
    # latest epoch whose loss is minimal when it is reached
    at = [e for e in range(E) if got[e] <= min(got[:e + 1])][-1]
    if explicit:
        for q in start:
            ctx.close('best-parameters', float(best[q]), phys[at][q],
                      rtol=1e-6, scale=abs(phys[at][q]) + 1e-9,
                      msg=f'{tag}: best {q}')
    keep = {E - 1} | ({e for e in range(E) if e % every == 0}
                      if every else set())
    for tail in ('', '_optim'):
        want = {f'finder{tail}-{at}-best.pt'} | {
            f'finder{tail}-{e}.pt' for e in keep}
        have = {x for x in os.listdir(d)
                if re.fullmatch(rf'finder{tail}(-init|(-\d+)?(-best)?)?\.pt',
                                x)}
        ctx.same('state-files', have, want, f'{tag}: states')
    for e in keep:
        same_state(ctx, 'epoch-state', torch.load(
            os.path.join(d, f'finder-{e}.pt')), states[e],
            f'{tag}: epoch {e}')
    same_state(ctx, 'best-state', torch.load(
        os.path.join(d, f'finder-{at}-best.pt')), states[at],
        f'{tag}: best state')
    # states of each material in its own directory
    for key, m in model.get_material_models().items():
        md = m.model_directory
        ctx.ok('material-directory', os.path.realpath(md).startswith(
            os.path.realpath(d) + os.sep), f'{tag}: {md}')
        nm = m.model_name
        have = {x for x in os.listdir(md)
                if re.fullmatch(rf'{re.escape(nm)}(-init|(-\d+)?(-best)?)?'
                                r'\.pt', x)}
        ctx.same('material-files', have, {
            f'{nm}-init.pt', f'{nm}-{at}-best.pt'} | {
            f'{nm}-{e}.pt' for e in keep}, f'{tag}: material {key}')
        pre = [k for k in states[0] if k.endswith(
            next(iter(m.state_dict()), ''))]
        look = f.get_material_models()[key]
        for fn, st in [(f'{nm}-init.pt', start_raw),
                       (f'{nm}-{at}-best.pt', states[at]),
                       (f'{nm}-{E - 1}.pt', states[-1])]:
            f.load_state_dict(st)
            same_state(ctx, 'material-state',
                       torch.load(os.path.join(md, fn)),
                       {k: v.detach().clone()
                        for k, v in look.state_dict().items()},
                       f'{tag}: material {key} {fn}')
        del pre
    a = [vt.rate(sch, skw, lr0, e) for e in range(E)]
    b = [vt.rate(sch, skw, lr0, e + 1) for e in range(E)]
    lrs = [float(x[0]) if isinstance(x, (list, tuple)) else float(x)
           for x in lrs]
    ctx.ok('rates', len(lrs) == E and (
        np.allclose(lrs, a, rtol=1e-9) or np.allclose(lrs, b, rtol=1e-9)),
        f'{tag}: learning rates {lrs}, expected {a}')
    if store:
        stored(ctx, f, d, case, start_raw, states, losses, R, bc, sets, w,
               scale, tag)
    if seed is not None and kind == 'rc':
        # the discovered material is the same in another session
        d3 = ctx.tmpdir()
        tr.train_model(n_max, c16.specimen(case, bc, R), S3,
                       {**margs, 'model_directory': d3}, lr0, **kw)
        ctx.close('seeded', records(d3)[0], got, rtol=1e-9, atol=1e-14,
                  scale=sc, msg=f'{tag}: losses with the same seed')
        ctx.event('seeded')


def broken(ctx, case, bc, R, S2, margs, scale, w, explicit, rate, n_max,
           tag):
    f = MaterialModelFinder(ctx.tmpdir(), model_name='finder',
                            force_equilibrium_loss_type=margs[
                                'force_equilibrium_loss_type'])
    f.set_specimen_data(c16.specimen(case, bc, R), S2,
                        loss_scaling_factor=scale, loss_time_weights=w)
    if explicit:
        clamp(f)
    adam = vt.Adam(f.parameters())
    for e in range(n_max + 1):
        try:
            L = f(sequential_mode='sequential_element_vmap')
        except RuntimeError as err:
            if 'NaNs were detected' not in str(err):
                raise
            ctx.note(no_state=f'epoch {e}: {tag}')
            ctx.event('failure-skipped')
            return
        adam.zero()
        if L.requires_grad:
            L.backward()
        adam.step(rate(e))
        if explicit:
            clamp(f)
    ctx.ok('converges', False, f'{tag}: forces not available in training, '
           'available in an identical descent')


def stored(ctx, f, d, case, raw, states, losses, R, bc, sets, w, scale, tag):
    """Recorded loss components and set reactions are those of the last
    forward propagation."""
    with open(os.path.join(d, 'force_equilibrium_loss_components',
                           'force_equilibrium_loss_data.pkl'), 'rb') as q:
        c = pickle.load(q)['force_equilibrium_loss_components_hist']
    c = np.asarray(c)
    ctx.event('stored')
    ctx.same('components-shape', c.shape, (3 if sets else 1, case.n_time),
             tag)
    ctx.close('components-total', c[0].sum(), losses[-1], rtol=1e-6,
              scale=max(abs(losses[-1]), 1e-3*max(losses)), msg=tag)
    if not sets:
        return
    ctx.close('components-parts', c[1] + c[2], c[0], rtol=1e-9,
              scale=abs(c).max() + 1e-300, msg=tag)
    q = os.path.join(d, 'dirichlet_sets_reaction_forces')
    with open(os.path.join(q, 'dirichlet_sets_data.pkl'), 'rb') as h:
        r = np.asarray(pickle.load(h)['dirichlet_sets_reaction_hist'])
    labs = sorted(set(bc.ravel()))
    ctx.same('sets-shape', r.shape, (len(labs), 1, case.n_time), tag)
    import pandas
    df = pandas.read_csv(os.path.join(q, 'dirichlet_reaction_hist_sets.csv'))
    ctx.close('sets-csv', df.values.T, r[:, 0], rtol=1e-9,
              scale=abs(r).max() + 1e-300, msg=tag)
    # the loss of the constrained sets is made of those reactions
    ww = N(w) if w is not None else np.ones(case.n_time)
    want = np.zeros(case.n_time)
    for k, lab in enumerate(labs):
        if lab:
            m = np.array([R[:, :, t][bc == lab].sum()
                          for t in range(case.n_time)])
            want += (r[k, 0] - m)**2
    want = want*ww*scale
    ctx.close('sets-loss', c[2], want, rtol=1e-6,
              scale=abs(c).max() + 1e-300, msg=tag)


def near(h, tol):
    h = np.asarray(h, float)
    r = np.abs(np.diff(h))/np.where(h[:-1] == 0, 1, np.abs(h[:-1]))
    return bool(np.any(np.abs(r - tol) < 1e-6*tol + 1e-12))


def exact(ctx, name, mname):
    """At the true parameters there is nothing to learn."""
    torch.set_default_dtype(torch.float64)
    case = c16.Case(ctx, name, mname, n_time=3)
    F = case.solve(True)
    if F is None or abs(F).max() == 0:
        ctx.event('failure-skipped')
        return
    sp = case.specs[0]
    keys = [k for k in c16.GRAD[mname] if k in c15.usable(sp)]
    learn = {}
    for k in keys:
        dd, n = c15.locate(sp, k)
        v = float(dd[n])
        r = max(abs(v), 1e-3)
        learn[k] = {'initial_value': v, 'bounds': (v - .3*r, v + .3*r)}
    bc = c16.boundary(ctx, case, False, full=True)
    d = ctx.tmpdir()
    top = abs(F).max()**2*F.size
    model, best, epoch = tr.train_model(
        0, c16.specimen(case, bc, F), build(ctx, case, 'rc', learn, True),
        dict(model_directory=d, model_name='finder'), 1e-3,
        is_explicit_model_parameters=True, is_params_stopping=False,
        loss_scaling_factor=1/top)
    ctx.event('equilibrium')
    ctx.le('null-loss', best, 1e-9, msg=f'{name} {mname} {sp.par}')
    ctx.same('null-epoch', epoch, 0)


def convex(ctx, kind, norm):
    """Discovered Lou-Zhang-Yoon yield surfaces stay convex."""
    torch.set_default_dtype(torch.float64)
    rng = ctx.rng
    torch.manual_seed(int(rng.integers(1 << 30)))
    case = c16.Case(ctx, ELEM[int(rng.integers(3))], 'lou_zhang_yoon',
                    n_time=3)
    # as far out as the bounds go, in any direction
    t = rng.uniform(0, 2*math.pi)
    r = float(rng.choice([.9, 2., 4.]))
    x = (r*math.cos(t), r*math.sin(t))
    learn = {k: {'initial_value': float(v), 'bounds': (-6., 6.)}
             for k, v in zip(('yield_c_s0', 'yield_d_s0'), x)}
    S = build(ctx, case, kind, learn, norm)
    bc = c16.boundary(ctx, case, False)
    d = ctx.tmpdir()
    seen = []
    real = MaterialModelFinder.forward

    def fwd(self, *a, **k):
        seen.append(physical(self))
        return real(self, *a, **k)
    R = case.U*0 + rng.standard_normal(case.U.shape)*case.specs[0].s0
    try:
        MaterialModelFinder.forward = fwd
        model = tr.train_model(
            3, c16.specimen(case, bc, R), S,
            dict(model_directory=d, model_name='finder'),
            .3/(6 if norm else 1), is_explicit_model_parameters=True,
            is_params_stopping=False)[0]
        seen.append(physical(model))
    except RuntimeError as e:
        if 'NaNs were detected' not in str(e):
            raise
        ctx.event('failure-skipped')
    finally:
        MaterialModelFinder.forward = real
    for i, v in enumerate(seen):
        c, e = [w for k, w in v.items() if 'yield_c' in k] + \
            [w for k, w in v.items() if 'yield_d' in k]
        ctx.event('convex')
        ctx.ok('convex', mat.lou_convexity(.99*c, .99*e) > -1e-2,
               f'{kind} norm={norm} from {x}: step {i}: c={c} d={e}')
        if i == 0 and mat.lou_convexity(.98*x[0], .98*x[1]) < -2e-2:
            ctx.event('convex-returned')
            ctx.ok('convex-direction', abs(c*x[1] - e*x[0]) < 1e-3*r*r
                   and c*x[0] + e*x[1] > 0,
                   f'{kind} from {x} to {(c, e)}')
    ctx.state('convex', kind, norm, round(x[0], 1), round(x[1], 1))


KINDS = [('rc', 'von_mises'), ('rc', 'drucker_prager'),
         ('rc', 'von_mises_mixed'), ('rc', 'lou_zhang_yoon'),
         ('gru', 'von_mises'), ('hybrid', 'von_mises'),
         ('hybrid', 'drucker_prager')]
ELEM = ['tri3', 'quad4', 'tetra4', 'hexa8', 'quad8']


def cases(tier):
    out = []
    k = 0
    for r in range(2 if tier == 'quick' else 40):
        for kind, m in KINDS:
            for sets in (False, True):
                for stop in (False, True):
                    k += 1
                    out.append(('discover', {
                        'name': ELEM[(k + r) % 5], 'mname': m, 'kind': kind,
                        'stop': stop and kind != 'gru', 'sets': sets,
                        'store': k % 3 == 0}))
        for i in range(10):
            out.append(('discover', {
                'name': ('quad4', 'tri3')[i % 2],
                'mname': ('von_mises', 'drucker_prager')[i//2 % 2],
                'kind': 'rc',
                'osc': True}))
        for m in ('von_mises', 'drucker_prager', 'von_mises_mixed'):
            out.append(('exact', {'name': ELEM[(k := k + 1) % 5],
                                  'mname': m}))
        for kind in ('rc', 'hybrid'):
            for norm in (False, True):
                out.append(('convex', {'kind': kind, 'norm': norm}))
    return out
