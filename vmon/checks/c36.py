"""C36: model updating pipelines pair materials, data, models, predictions."""
import contextlib
import importlib
import io
import math
import os
import pickle
import random
import matplotlib
matplotlib.use('Agg')
import numpy as np
import torch
from vmon.checks.c22 import T
from vmon.checks.c30 import F, Record, bands, check_lines, legend, spread
from vmon.checks.c33 import dataset, samples
from model_architectures.procedures import model_prediction as mp
from time_series_data import time_dataset as td
from user_scripts.complete_pipelines import local_model_update as lm
from user_scripts.complete_pipelines import evaluate_gru_model as ev
from user_scripts.synthetic_data.gen_response_dataset import \
    MaterialResponseDatasetGenerator as MRG

PROPERTY = 'C36'
RULE = ('random temperatures, compositions, sample numbers, failing stress '
        'paths, data sets on disk and ensembles of models through the '
        'pipelines; stored data against own regression of the material and '
        'own radial return, assembled data against the sources, ensembles '
        'against stand-ins of training and prediction which leave traces; '
        'non-trivial: distinct (pipeline, numbers, options)')
ASSUMPTIONS = ['no LaTeX installation', 'Agg backend',
               'temperatures and compositions differ by more than the two '
               'decimals of directory names']
REQUIRED_EVENTS = ('parameters', 'refused', 'parameter-surface', 'generated',
                   'retried', 'neighbour', 'assembled', 'reduced',
                   'ensemble', 'reused', 'updated', 'uniaxial', 'network',
                   'figure')
UQ = ('rnn', 'rc', 'hybrid')
ORDER = {1: ('11', '22', '12'), 4: ('11', '22', '33', '12', '23', '13')}


def load(name):
    return importlib.import_module(
        f'user_scripts.local_model_update.{name}_material_model.'
        'uncertainty_quantification')


# --------------------------------------------------------------- material
def law(temperature, composition):
    """Own regression: Young modulus, Poisson ratio, yield stress, slope."""
    t = (temperature - 325.)/180.606
    c = (composition - .5)/.3168
    e = 1e3*(135.546 + 20.186*c + (.936*c - 8.489)*t)
    g = 1e3*(52.891 + 8.843*c + (.405*c - 3.34)*t)
    s0 = (25.107 - 47.582*c + 39.738*c**2)*math.exp(
        -(.883 + .018*c - .091*c**2)*t) + 541.225 - 74.391*c \
        - 121.669*c**2 + 29.518*c**3 + 20.025*c**4
    return e, e/(2*g) - 1, s0, 7253.7 + 2213.1*c - (57.7*c + 68.7)*t


def respond(strain, order, par):
    """Own von Mises response with linear hardening (3D strains in time)."""
    E, nu, s0, h = par
    g, k = E/(2*(1 + nu)), E/(3*(1 - 2*nu))
    ep, acc, out, hist = np.zeros((3, 3)), 0., [], []
    for row in strain:
        e = np.zeros((3, 3))
        for v, c in zip(row, order):
            i, j = int(c[0]) - 1, int(c[1]) - 1
            e[i, j] = e[j, i] = v
        x = e - ep
        p = k*np.trace(x)
        s = 2*g*(x - np.trace(x)/3*np.eye(3))
        q = math.sqrt(1.5*(s*s).sum())
        f = q - (s0 + h*acc)
        if f > 0 and out:
            d = f/(3*g + h)
            n = 1.5*s/q
            ep = ep + d*n
            s = s - 2*g*d*n
            acc += d
        sig = s + p*np.eye(3)
        out.append([sig[int(c[0]) - 1, int(c[1]) - 1] for c in order])
        hist.append(acc)
    return np.array(out), np.array(hist)


def pick(rng):
    """Temperature and composition, often on the bounds."""
    t = [25., 625., float(rng.uniform(25, 625)), int(rng.integers(25, 626))]
    c = [0., 1., float(rng.uniform(0, 1)), float(rng.uniform(0, 1))]
    return t[int(rng.integers(4))], c[int(rng.integers(4))]


def parameters(ctx):
    rng = ctx.rng
    t, c = pick(rng)
    got = lm.get_model_parameters('von_mises', t, c)
    E, nu, s0, h = law(t, c)
    tag = f'T={t} C={c}'
    ctx.close('young', float(got['E']), E, rtol=1e-9, msg=tag)
    ctx.close('poisson', float(got['v']), nu, rtol=1e-9, scale=1., msg=tag)
    ctx.same('symmetry', got['elastic_symmetry'], 'isotropic', tag)
    p = got['hardening_parameters']
    for a in (0., float(rng.uniform(0, 2)), float(rng.uniform(0, .05))):
        y, s = got['hardening_law'](p, torch.tensor(a, dtype=torch.float64))
        ctx.close('yield', float(y), s0 + h*a, rtol=1e-6, msg=tag)
        ctx.close('slope', float(s), h, rtol=1e-5, msg=tag)
    ctx.event('parameters')
    for q in ((24.99, c), (625.01, c), (t, -1e-3), (t, 1.001)):
        ctx.raises('refused', lambda: lm.get_model_parameters(
            'von_mises', *q), Exception, f'{q}')
    ctx.raises('refused', lambda: lm.get_model_parameters(
        'elastic', t, c), Exception, 'unknown')
    ctx.event('refused')
    ctx.state('parameters', t in (25., 625.), c in (0., 1.))


def surfaces(ctx, n, m):
    """Figures of the parameters over temperature and composition."""
    rng = ctx.rng
    ts = sorted(float(x) for x in rng.uniform(25, 625, n))
    cs = sorted(float(x) for x in rng.uniform(0, 1, m))
    d = ctx.tmpdir()
    on = bool(rng.random() < .4)
    got, old = [], lm.plot_surface_xyz_data

    def surface(x_mesh, y_mesh, z_mesh, *a, **k):
        got.append([np.array(q) for q in (x_mesh, y_mesh, z_mesh)])
        return old(x_mesh, y_mesh, z_mesh, *a, **k)
    lm.plot_surface_xyz_data = surface
    try:
        with Record() as r:
            lm.plot_model_parameters('von_mises', ts, cs, save_dir=d,
                                     is_save_fig=on)
    finally:
        lm.plot_surface_xyz_data = old
    tag = f'{n} temperatures {m} compositions'
    ctx.same('figures', len(got), 4, tag)
    for i, (x, y, z) in enumerate(got):
        x, y, z = np.ravel(x), np.ravel(y), np.ravel(z)
        ctx.same('surface-points', sorted(zip(x, y)),
                 sorted((t, c) for t in ts for c in cs), tag)
        w = np.array([law(t, c)[i] for t, c in zip(x, y)])
        if i == 0:
            w = w/1e3
        ctx.close('surface', z, w, rtol=1e-6, msg=f'{tag}: parameter {i}')
    ctx.same('saved', sorted(os.listdir(d)), sorted(
        f'von_mises_{q}_temperature_composition.pdf'
        for q in ('E', 'v', 's0', 's1')) if on else [], tag)
    ctx.same('closed', r.open, [], tag)
    ctx.raises('refused', lambda: lm.plot_model_parameters(
        'von_mises', [], cs), Exception, 'no temperature')
    ctx.event('parameter-surface')
    ctx.state('surfaces', n, m, on)


# ------------------------------------------------------------- generation
class Failing:
    """Every so many stress paths are reported as failed (and spoiled)."""

    def __init__(self, every):
        self.every, self.n, self.failed = every, 0, 0

    def __enter__(self):
        self.old = MRG.compute_stress_path
        me = self

        def compute(self, *a, **k):
            o, s, st, bad = me.old(self, *a, **k)
            me.n += 1
            if me.every and me.n % me.every == 0:
                me.failed += 1
                return o, s*0 + 7., {q: v*0 - 1. for q, v in st.items()}, \
                    True
            return o, s, st, bad
        MRG.compute_stress_path = compute
        return self

    def __exit__(self, *a):
        MRG.compute_stress_path = self.old


def generate(ctx, problem, n, m, every):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    random.seed(int(rng.integers(2**31)))
    ts = sorted(float(x) for x in rng.choice(
        np.linspace(25, 625, 13), n, replace=False))
    cs = sorted(float(x) for x in rng.choice(
        np.linspace(0, 1, 11), m, replace=False))
    kinds = [str(q) for q in rng.permutation(
        ['training', 'validation', 'testing_id'])][:int(rng.integers(1, 4))]
    num = {q: int(rng.integers(2, 4)) for q in kinds}
    ratio = {q: .5 for q in kinds}
    d = ctx.tmpdir()
    old = os.path.join(d, '0_simulation', 'T1.00_C0.00')
    if rng.random() < .4:
        os.makedirs(old)
    tag = f'problem {problem} T={ts} C={cs} {num}'
    with Failing(every) as f:
        lm.generate_material_data(
            d, 'infinitesimal', problem, 'von_mises', temperatures=list(ts),
            compositions=list(cs), n_sample_type=dict(num),
            rnd_strain_path_ratio=dict(ratio), is_save_dataset_plots=False)
    if f.failed:
        ctx.event('retried', f.failed)
    sim = os.path.join(d, '0_simulation')
    ctx.same('directories', sorted(os.listdir(sim)), sorted(
        f'T{t:.2f}_C{c:.2f}' for t in ts for c in cs), tag)
    seen = set()
    for i, t in enumerate(ts):
        for j, c in enumerate(cs):
            p = os.path.join(sim, f'T{t:.2f}_C{c:.2f}')
            ctx.same('data-sets', sorted(os.listdir(p)),
                     sorted(f'{q}_dataset' for q in kinds), tag)
            for q in kinds:
                file = lm.find_dataset_file(os.path.join(p, f'{q}_dataset'))
                ctx.same('file', os.path.basename(file),
                         f'ss_paths_dataset_n{num[q]}.pkl', tag)
                data = td.load_dataset(file)
                ctx.same('samples', len(data), num[q], tag)
                one = []
                for k in range(len(data)):
                    one.append(sample(ctx, data[k], problem, q, ts, cs, i, j,
                                      k < int(num[q]*ratio[q]), tag))
                    key = np.asarray(data[k]['strain_path']).tobytes()
                    ctx.ok('distinct', key not in seen, f'{tag}: repeated')
                    seen.add(key)
                if q != 'training' and len(ts) > 1:
                    ctx.ok('neighbourhood', any(x != t for x, _ in one),
                           f'{tag}: {q} never leaves {t}')
                    ctx.event('neighbour')
                ctx.event('generated', len(data))
    ctx.state('generate', problem, n, m, tuple(kinds), every)


def sample(ctx, s, problem, kind, ts, cs, i, j, rnd, tag):
    order = ORDER[problem]
    for q in ('strain_comps_order', 'stress_comps_order'):
        ctx.same('order', tuple(s[q]), order, tag)
    e, sig = np.asarray(s['strain_path']), np.asarray(s['stress_path'])
    t = np.unique(np.asarray(s['temperature_hist']))
    c = np.unique(np.asarray(s['composition_hist']))
    n = len(s['time_hist'])
    for q in ('strain_path', 'stress_path', 'temperature_hist',
              'composition_hist', 'acc_p_strain'):
        ctx.same('steps', len(s[q]), n, f'{tag}: {q}')
    ctx.same('constant', (len(t), len(c)), (1, 1), tag)
    t, c = float(t[0]), float(c[0])
    if kind == 'training':
        ctx.same('pair', (t, c), (ts[i], cs[j]), tag)
    else:
        ctx.ok('pair', ts[max(i - 1, 0)] <= t <= ts[min(i + 1, len(ts) - 1)]
               and cs[max(j - 1, 0)] <= c <= cs[min(j + 1, len(cs) - 1)],
               f'{tag}: {kind} {t} {c} at {ts[i]} {cs[j]}')
    h = np.ravel(np.asarray(s['time_hist']))
    ctx.ok('time', h[0] == 0 and abs(h[-1] - 1) < 1e-9 and
           (np.diff(h) > 0).all(), tag)
    ctx.le('strain-bounds', abs(e).max(), .05*(1 + 1e-9), msg=tag)
    w, acc = respond(e, order, law(t, c))
    top = max(abs(w).max(), 1.)
    ctx.close('stress', sig, w, rtol=1e-5, scale=top,
              msg=f'{tag}: {kind} {t} {c}')
    ctx.close('plastic', np.ravel(np.asarray(s['acc_p_strain'])), acc,
              rtol=1e-5, scale=max(acc.max(), 1e-3), msg=tag)
    # directions: proportional paths have a single one
    b = e[np.linalg.norm(e, axis=1) > 1e-9]
    if len(b) > 3:
        sv = np.linalg.svd(b, compute_uv=False)
        flat = sv[1] < 1e-8*sv[0]
        ctx.same('path-type', bool(flat), not rnd, tag)
    return t, c


def refuse(ctx):
    """Numbers of samples which leave out one kind of path."""
    rng = ctx.rng
    n = int(rng.integers(2, 9))
    for r in (0., 1., .5/n, 1/n - 1e-6):
        ctx.raises('refused', lambda: lm.generate_material_data(
            ctx.tmpdir(), 'infinitesimal', 4, 'von_mises', [100.], [.5],
            {'training': n}, {'training': float(r)}, False), Exception,
            f'ratio {r} of {n}')
    with Failing(1) as f:
        ctx.raises('gives-up', lambda: lm.generate_material_data(
            ctx.tmpdir(), 'infinitesimal', 1, 'von_mises', [100.], [.5],
            {'training': 2}, {'training': .5}, False), Exception,
            'always failing')
    ctx.ok('gives-up', f.n >= 2, f'{f.n} trials')
    for q in (lambda: lm.set_lmu_dir('/nowhere/at/all'),
              lambda: lm.set_dependencies_dir('/nowhere/at/all', 1., 0.),
              lambda: lm.set_dataset_type_dir('/nowhere/at/all', 'x'),
              lambda: lm.find_dataset_file(ctx.tmpdir()),
              lambda: lm.set_strain_path_generator(
                  'infinitesimal', 3, ORDER[4], 'spiral')):
        ctx.raises('refused', q, Exception, 'missing')
    # the working directory of the pipeline
    d = ctx.tmpdir()
    p = lm.set_lmu_dir(d)
    open(os.path.join(p, 'f'), 'w').close()
    ctx.same('kept', (lm.set_lmu_dir(d), os.listdir(p)), (p, ['f']), 'lmu')
    lm.set_lmu_dir(d, is_overwrite=True)
    ctx.same('overwritten', os.listdir(p), [], 'lmu')
    # preview of the number of samples
    nt, nc = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    with contextlib.redirect_stdout(io.StringIO()) as h:
        lm.preview_material_datasets_sizes(
            list(range(nt)), list(range(nc)), {'training': 101,
                                               'validation': 13})
    t = h.getvalue()
    for q in (nt*nc, 101*nt*nc, 13*nt*nc):
        ctx.ok('preview', f': {q}\n' in t, f'{nt} {nc}: {q} in {t}')
    ctx.event('refused')
    ctx.state('refuse', n, nt, nc)


# --------------------------------------------------------------- assembly
NAMES = {'training': '1_training_dataset',
         'validation': '2_validation_dataset',
         'testing_id': '5_testing_id_dataset'}


def files(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), 'rb') as h:
                out[os.path.join(r, f)] = h.read()
    return out


def assemble(ctx, pairs, reduce):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    random.seed(int(rng.integers(2**31)))
    d = ctx.tmpdir()
    kinds = list(NAMES)
    src = {q: [] for q in kinds}
    n = 0
    for i in range(pairs):
        for q in kinds:
            p = os.path.join(d, '0_simulation', f'T{i}.00_C0.{i}0',
                             f'{q}_dataset')
            os.makedirs(p)
            k = int(rng.integers(2, 9))
            one = []
            for _ in range(k):
                n += 1
                t = int(rng.integers(1, 6))
                one.append({'tag': T(np.full((t, 1), float(n))),
                            'time_hist': T(np.arange(t)).reshape(-1, 1)})
            dataset(p, one)
            src[q].append([float(x['tag'][0, 0]) for x in one])
            if rng.random() < .3:
                os.makedirs(os.path.join(p, 'plots'))
            for f in ('notes_n3.pkl', 'ss_paths_dataset.pkl',
                      'old_ss_paths_dataset_n2.pkl'):
                if rng.random() < .15:
                    with open(os.path.join(p, f), 'w') as h:
                        h.write('x')
    use = [str(q) for q in rng.permutation(kinds)][:int(rng.integers(1, 4))]
    frac, arg = {q: 1. for q in kinds}, None
    if reduce:
        arg = {}
        for q in kinds:
            u = rng.random()
            if u < .5:
                arg[q] = frac[q] = float(rng.choice([.5, .6, .75, 1.]))
            elif u < .65:
                arg[q] = float(rng.choice([-.5, 1.5]))
            elif u < .75:
                arg[q] = None
    if rng.random() < .4:
        p = os.path.join(d, NAMES[use[0]])
        os.makedirs(p)
        dataset(p, [{'tag': T(np.zeros((1, 1)))}]*77)
    before = files(os.path.join(d, '0_simulation'))
    tag = f'{pairs} pairs {use} {arg}'
    keep = dict(arg) if arg is not None else None
    lm.assemble_material_datasets(d, 'infinitesimal', 4, use,
                                  lm.get_dataset_basename(),
                                  size_balanced_reduction=arg)
    ctx.ok('sources-kept', files(os.path.join(d, '0_simulation')) == before,
           tag)
    ctx.same('arguments-kept', arg, keep, tag)
    ctx.same('directories', sorted(os.listdir(d)), sorted(
        ['0_simulation'] + [NAMES[q] for q in use]), tag)
    for q in use:
        file = lm.find_dataset_file(os.path.join(d, NAMES[q]))
        data = td.load_dataset(file)
        got = []
        for k in range(len(data)):
            v = np.unique(np.asarray(data[k]['tag']))
            ctx.same('sample', (len(v), len(data[k]['time_hist'])),
                     (1, len(data[k]['tag'])), tag)
            got.append(float(v[0]))
        want = [int(len(s)*frac[q]) for s in src[q]]
        ctx.same('size', len(got), sum(want), f'{tag}: {q}')
        ctx.same('file', os.path.basename(file),
                 f'ss_paths_dataset_n{sum(want)}.pkl', tag)
        ctx.same('stale', len(os.listdir(os.path.join(d, NAMES[q]))), 1, tag)
        ctx.same('distinct', len(set(got)), len(got), f'{tag}: {q} {got}')
        for s, k in zip(src[q], want):
            ctx.same('balanced', sum(x in s for x in got), k,
                     f'{tag}: {q} of {s}: {got}')
        if sum(want) > 12:
            ctx.ok('shuffled', got != sorted(got), f'{tag}: {q} in order')
        ctx.event('reduced' if frac[q] < 1 else 'assembled')
    ctx.state('assemble', pairs, tuple(use), reduce)


# --------------------------------------------------------------- ensembles
class Standin:
    """Training and prediction which leave traces."""

    def __init__(self, ctx, name, truth):
        self.uq, self.name, self.truth = load(name), name, truth
        self.rng, self.train, self.pred = ctx.rng, [], []
        self.par = {'E': 1., 's0': 2.}

    def __enter__(self):
        u = self.uq
        self.old = (u.perform_model_standard_training,
                    u.perform_model_prediction)

        def training(train_dataset_file_path, model_directory,
                     val_dataset_file_path=None, device_type='cpu',
                     is_verbose=False):
            train, model = train_dataset_file_path, model_directory
            n = len(self.train)
            for f in os.listdir(model):
                os.remove(os.path.join(model, f))
            rec = dict(model=f'trained {n}', train=train, dir=model,
                       val=val_dataset_file_path, par={
                           k: float(10**self.rng.uniform(-2, 4))
                           for k in self.par})
            self.train.append(rec)
            with open(os.path.join(model, 'model.txt'), 'w') as h:
                h.write(rec['model'])
            with open(os.path.join(model, f'only_{n}'), 'w') as h:
                h.write('x')
            with open(os.path.join(model, 'parameters_best.pkl'), 'wb') as h:
                pickle.dump({'best_model_parameters': rec['par'],
                             'model_parameters_bounds': {
                                 k: (-1e9, 1e9) for k in rec['par']}}, h)

        def predict(predict_directory, dataset_file_path, model_directory,
                    is_remove_sample_prediction=False, device_type='cpu',
                    is_verbose=False):
            out, data, model = predict_directory, dataset_file_path, \
                model_directory
            with open(os.path.join(model, 'model.txt')) as h:
                who = h.read()
            p = os.path.join(out, 'prediction_set_0')
            rec = dict(who=who, data=data, clean=os.listdir(out), out=[
                self.rng.standard_normal(t.shape) for t in self.truth],
                loss=float(f'{10**self.rng.uniform(-6, 6):.8e}'))
            os.makedirs(p)
            mp.write_prediction_summary_file(
                p, 'cpu', None, model, 'best', 'mse', {}, False, None,
                range(len(self.truth)), rec['loss'], 1., 1.)
            samples(p, self.truth, rec['out'])
            with open(os.path.join(p, 'who.txt'), 'w') as h:
                h.write(who)
            self.pred.append(rec)
            return p if self.name == 'rc' else (p, rec['loss'])
        u.perform_model_standard_training = training
        u.perform_model_prediction = predict
        return self

    def __exit__(self, *a):
        self.uq.perform_model_standard_training, \
            self.uq.perform_model_prediction = self.old


def members(ctx, s, u, have, kind, pred, tag):
    """Every member holds its own model and the predictions of it."""
    k = 0
    for i, w in have.items():
        p = os.path.join(u, f'model_{i}')
        m = os.path.join(p, '3_model')
        ctx.same('member-model', sorted(os.listdir(m)), sorted(
            ['model.txt', 'parameters_best.pkl',
             f'only_{w["model"].split()[-1]}']), f'{tag}: {i}')
        with open(os.path.join(m, 'model.txt')) as h:
            ctx.same('member-model', h.read(), w['model'], f'{tag}: {i}')
        q = os.path.join(p, '7_prediction', kind)
        with open(os.path.join(q, 'who.txt')) as h:
            ctx.same('member-prediction', h.read(), w['model'],
                     f'{tag}: {i}')
        rec = pred[k]
        k += 1
        ctx.same('predicted-by', rec['who'], w['model'], f'{tag}: {i}')
        ctx.same('clean', rec['clean'], [], f'{tag}: {i}')
        with open(os.path.join(q, 'summary.dat')) as h:
            ctx.ok('member-loss', f'{rec["loss"]:.8e}' in h.read(),
                   f'{tag}: {i}')
        ctx.same('member-samples', sum('sample' in f for f in
                                       os.listdir(q)), len(s.truth), tag)
    ctx.same('predictions', len(pred), k, tag)


def world(ctx):
    """Directories of a case study and its testing data."""
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    d = ctx.tmpdir()
    n = int(rng.integers(5, 8))
    times, truth = [], []
    for _ in range(n):
        t = int(rng.integers(2, 6))
        times.append(np.cumsum(rng.uniform(.1, 1., t)))
        truth.append(rng.standard_normal((t, 6)))
    for q in NAMES.values():
        os.makedirs(os.path.join(d, q))
        dataset(os.path.join(d, q),
                [{'time_hist': T(t).reshape(-1, 1)} for t in times])
    return d, times, truth


def ensemble(ctx, name, n):
    rng = ctx.rng
    d, times, truth = world(ctx)
    uq = load(name)
    u, mdir = os.path.join(d, 'uq'), os.path.join(d, '3_model')
    kind = str(rng.choice(['in_distribution', 'out_distribution']))
    pdir = os.path.join(d, '7_prediction', kind)
    os.makedirs(mdir)
    os.makedirs(pdir)
    tr = lm.find_dataset_file(os.path.join(d, NAMES['training']))
    va = lm.find_dataset_file(os.path.join(d, NAMES['validation']))
    te = lm.find_dataset_file(os.path.join(d, NAMES['testing_id']))
    if rng.random() < .4:
        os.makedirs(os.path.join(u, 'model_0', '3_model'))
        os.makedirs(os.path.join(u, f'model_{n}', '3_model'))
    val = va if rng.random() < .7 else None
    tag = f'{name} {n} members'
    with Standin(ctx, name, truth) as s:
        uq.perform_model_uq(u, n, tr, mdir, pdir, te,
                            val_dataset_file_path=val)
        ctx.same('trained', [(x['train'], x['val']) for x in s.train],
                 [(tr, val)]*n, tag)
        ctx.same('tested', [x['data'] for x in s.pred], [te]*n, tag)
        ctx.same('members', sorted(os.listdir(u)),
                 sorted(f'model_{i}' for i in range(n)), tag)
        have = dict(enumerate(s.train))
        members(ctx, s, u, have, kind, s.pred, tag)
        first = list(s.pred)
        ctx.event('ensemble')
        show(ctx, name, n, d, u, kind, s, first, times, truth, tag)
        # trained models are used again, those which are not there are not
        if n > 1 and rng.random() < .5:
            gone = int(rng.integers(n))
            for q in ('3_model', '7_prediction'):
                os.rename(os.path.join(u, f'model_{gone}', q),
                          os.path.join(d, f'gone_{q}'))
            have.pop(gone)
        s.pred.clear()
        uq.perform_model_uq(u, n, tr, mdir, pdir, te,
                            is_model_training=False)
        ctx.same('not-trained', len(s.train), n, tag)
        members(ctx, s, u, have, kind, s.pred, f'{tag}: again')
        for i in set(range(n)) - set(have):
            ctx.ok('no-model', not os.path.isdir(os.path.join(
                u, f'model_{i}', '7_prediction')), tag)
        ctx.event('reused')
    ctx.state('ensemble', name, n, kind, val is None)


def show(ctx, name, n, d, u, kind, s, pred, times, truth, tag):
    """Figures of the ensemble."""
    uq = load(name)
    for q in ('old_model_3', 'models', 'model_'):
        if ctx.rng.random() < .2:
            os.makedirs(os.path.join(u, q))
    te = os.path.join(d, NAMES['testing_id'])
    shown, old, oldm = [], uq.save_figure, mp.save_figure

    def save(figure, filename, height=3.6, format='pdf', save_dir=None,
             is_tight_layout=False):
        shown.append((figure, filename, save_dir))
    uq.save_figure = mp.save_figure = save
    try:
        with Record() as r:
            uq.gen_model_uq_plots(u, n, te, kind, is_save_fig=True,
                                  is_latex=False)
    finally:
        uq.save_figure, mp.save_figure = old, oldm
    by = {f: g for g, f, _ in shown}
    ctx.ok('saved', all(p == os.path.join(u, 'plots') for _, _, p in shown),
           f'{tag}: {shown}')
    want = ['model_uq_testing_loss'] + \
        (['model_uq_best_parameters'] if name == 'rc' else [])
    k = 3 if name == 'rc' else 5
    comps = ('stress_11', 'stress_22', 'stress_33', 'stress_12',
             'stress_23', 'stress_13')
    want += [f'model_uq_prediction_{c}_path_sample_{i}' for c in comps
             for i in range(k)]
    ctx.same('figures', sorted(by), sorted(want), tag)
    ctx.same('closed', r.open, [], tag)
    L = np.array([x['loss'] for x in pred])
    box(ctx, by['model_uq_testing_loss'].axes[0], [L], f'{tag}: loss')
    for j, c in enumerate(comps):
        for i in range(k):
            ax = by[f'model_uq_prediction_{c}_path_sample_{i}'].axes[0]
            v = np.column_stack([x['out'][i][:, j] for x in pred])
            q = spread(v, 'min-max')
            t = times[i]
            check_lines(ctx, ax, [np.column_stack([t, truth[i][:, j]]),
                                  np.column_stack([t, q[0]])],
                        f'{tag}: {c} sample {i}', 'path')
            b = bands(ax)
            ctx.same('range-number', len(b), 1, tag)
            ctx.close('range', b[0], np.column_stack([t, q[1], q[2]]),
                      rtol=1e-7, scale=abs(v).max(), msg=tag)
            ctx.ok('legend', 'ruth' in legend(ax)[0] and
                   'ealization' in legend(ax)[1], f'{tag}: {legend(ax)}')
    if name == 'rc':
        with open(os.path.join(u, 'plots', 'data',
                               'model_uq_best_parameters_data.pkl'),
                  'rb') as h:
            rec = pickle.load(h)
        ctx.same('parameter-names', sorted(rec['model_parameters_names']),
                 sorted(s.par), tag)
        w = np.array([[x['par'][p] for p in rec['model_parameters_names']]
                      for x in s.train])
        ctx.close('parameters', rec['samples_parameters_data'], w,
                  rtol=1e-9, scale=abs(w).max(), msg=tag)
        for ax, v in zip(by['model_uq_best_parameters'].axes, w.T):
            box(ctx, ax, [v], f'{tag}: parameters')
    ctx.event('figure', len(by))


def box(ctx, ax, want, tag):
    flat = [p[0] for p in (F(l.get_ydata()) for l in ax.lines)
            if len(p) == 2 and p[0] == p[1]]
    ctx.same('boxes', len(ax.patches), len(want), tag)
    for b, v in zip(ax.patches, want):
        q1, q2, q3 = np.percentile(v, [25, 50, 75])
        y = b.get_path().vertices[:4, 1]
        ctx.close('box', [y.min(), y.max()], [q1, q3], rtol=1e-6,
                  scale=abs(v).max(), msg=tag)
        for q in (q2, v.mean()):
            ctx.ok('box-centre', any(abs(x - q) <= 1e-6*abs(v).max()
                                     for x in flat), f'{tag}: {q} {flat}')


def update(ctx, n, again):
    """The whole updating step of the pipeline."""
    d, _, truth = world(ctx)
    tag = f'updating {n} models'
    path = {q: lm.find_dataset_file(os.path.join(d, p))
            for q, p in NAMES.items()}
    u = os.path.join(d, 'uncertainty_quantification')
    before = {q: files(os.path.join(d, p)) for q, p in NAMES.items()}
    with Standin(ctx, 'rnn', truth) as s:
        lm.perform_material_model_updating(d, n_model_sample=n)
        ctx.same('trained', [(x['train'], x['val']) for x in s.train],
                 [(path['training'], path['validation'])]*n, tag)
        ctx.same('tested', [x['data'] for x in s.pred],
                 [path['testing_id']]*n, tag)
        have = dict(enumerate(s.train))
        members(ctx, s, u, have, 'in_distribution', s.pred, tag)
        if again:
            train = ctx.rng.random() < .5
            k = len(s.train)
            s.pred.clear()
            lm.perform_material_model_updating(
                d, n_model_sample=n, is_model_training=bool(train))
            ctx.same('trained-again', len(s.train), k + (n if train else 0),
                     tag)
            if train:
                have = dict(enumerate(s.train[k:]))
            members(ctx, s, u, have, 'in_distribution', s.pred, tag)
    ctx.same('left', sorted(os.listdir(d)), sorted(
        list(NAMES.values()) + ['uncertainty_quantification']), tag)
    ctx.same('members', sorted(os.listdir(u)),
             sorted(f'model_{i}' for i in range(n)), tag)
    ctx.same('data-kept', before, {q: files(os.path.join(d, p))
                                   for q, p in NAMES.items()}, tag)
    ctx.event('updated')
    ctx.state('update', n, again)


# ---------------------------------------------------------- uniaxial paths
def uniaxial(ctx, n, shape):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    t, c = pick(rng)
    top = float(rng.uniform(.004, .05))*rng.choice([-1, 1])
    e = np.linspace(0, 1, n)
    if shape == 'cycle':
        e = np.interp(e, [0, .5, 1], [0, 1, .3])
    e = e*top
    model = ev.get_vm_material_model('infinitesimal', 4, t, c)
    x = torch.tensor(e)
    with contextlib.redirect_stderr(io.StringIO()):
        eps, sig = ev.get_uniaxial_stress_path(x, 'von_mises', model, t, c)
    eps, sig = np.asarray(eps), np.asarray(sig)
    tag = f'T={t} C={c} n={n} {shape} {top}'
    ctx.same('shape', (eps.shape, sig.shape), ((n, 6), (n, 6)), tag)
    ctx.close('axial-strain', eps[:, 2], e, rtol=1e-12, scale=abs(top),
              msg=tag)
    ctx.close('strain-kept', np.asarray(x), e, rtol=0, msg=tag)
    ctx.close('shear', eps[:, 3:], np.zeros((n, 3)), atol=1e-14, msg=tag)
    par = law(t, c)
    w, _ = respond(eps, ORDER[4], par)
    ctx.close('response', sig, w, rtol=1e-5, scale=abs(w).max(), msg=tag)
    ctx.le('lateral-stress', abs(np.delete(sig, 2, 1)).max(), 1e-3,
           msg=tag)
    # own uniaxial law
    E, _, s0, h = par
    ep = acc = 0.
    for i in range(1, n):
        q = E*(e[i] - ep)
        f = abs(q) - (s0 + h*acc)
        if f > 0:
            g = f/(E + h)
            ep += g*math.copysign(1, q)
            acc += g
        ctx.close('uniaxial', sig[i, 2], E*(e[i] - ep), rtol=1e-5,
                  scale=s0, msg=f'{tag}: step {i}')
    ctx.event('uniaxial')
    # the same model with any strains
    p = .02*rng.standard_normal((int(rng.integers(2, 8)), 6))
    p[0] = 0
    g = ev.forward_material_model('von_mises', model, torch.tensor(p), t, c)
    w, _ = respond(p, ORDER[4], par)
    ctx.close('forward', np.asarray(g.detach()), w, rtol=1e-5,
              scale=abs(w).max(), msg=tag)
    ctx.raises('refused', lambda: ev.forward_material_model(
        'spline', model, torch.tensor(p), t, c), Exception, 'unknown')
    ctx.state('uniaxial', n, shape)


def network(ctx, norm):
    """A stored recurrent model driven by strains, temperature, composition."""
    from model_architectures.rnn_base_model.model.gru_model import \
        GRURNNModel
    from model_architectures.procedures import model_data_scaling as ms
    from model_architectures.procedures import model_state_files as sf
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(int(rng.integers(2**31)))
    d = ctx.tmpdir()
    n_out = int(rng.integers(6, 9))
    m = GRURNNModel(8, n_out, int(rng.integers(2, 6)), d,
                    n_recurrent_layers=int(rng.integers(1, 3)),
                    is_model_in_normalized=norm,
                    is_model_out_normalized=norm, device_type='cpu')
    t, c = pick(rng)
    n = int(rng.integers(1, 12))
    e = .05*rng.standard_normal((n, 6))
    x = ev.build_gru_features_in(torch.tensor(e), t, c)
    ctx.close('features', np.asarray(x), np.column_stack(
        [e, np.full(n, float(t)), np.full(n, float(c))]), rtol=0,
        msg='features')
    mi, si, mo, so = np.zeros(8), np.ones(8), 0., 1.
    if norm:
        mi, si = .01*rng.standard_normal(8), rng.uniform(.01, .1, 8)
        mi[6:], si[6:] = rng.uniform(.5, 2, 2)*[300, .5], [180., .3]
        mo = 100*rng.standard_normal(n_out)
        so = rng.uniform(10, 500, n_out)
        ms.set_fitted_data_scalers(m, 'mean-std', {
            'features_in': {'mean': torch.tensor(mi),
                            'std': torch.tensor(si)},
            'features_out': {'mean': torch.tensor(mo),
                             'std': torch.tensor(so)}})
    m.save_model_init_file()
    sf.save_model_state(m, state_type='best', epoch=3)
    got = ev.get_gru_material_model(d, device_type='cpu')
    for p, q in zip(got.parameters(), m.parameters()):
        ctx.ok('weights', bool(torch.equal(p, q)), 'loaded')
    g = ev.forward_material_model('gru', got, torch.tensor(e), t, c)
    z = (np.asarray(x) - mi)/si
    with torch.no_grad():
        w, _ = m(torch.tensor(z), None)
    w = np.asarray(w)*so + mo
    ctx.close('prediction', np.asarray(g.detach()), w[:, :6], rtol=1e-8,
              scale=max(abs(w).max(), 1e-3), msg=f'norm={norm}')
    ctx.close('strain-kept', e, np.asarray(x)[:, :6], rtol=0, msg='kept')
    ctx.event('network')
    ctx.state('network', norm, n_out)


def compare(ctx, k):
    rng = ctx.rng
    n = int(rng.integers(1, 20))
    e = [rng.random((n, 1) if rng.random() < .5 else n) for _ in range(k)]
    s = [500*rng.standard_normal(n) for _ in range(k)]
    lab = [f'set {i}' for i in range(k)]
    with Record():
        _, ax = ev.plot_strain_stress_paths(e, s, lab, title='T = 3')
        ctx.same('legend', legend(ax), lab, f'{k}')
        ctx.same('title', ax.get_title(), 'T = 3', f'{k}')
        check_lines(ctx, ax, [np.column_stack([np.ravel(a), b])
                              for a, b in zip(e, s)], f'{k} paths', 'path')
    ctx.event('figure')
    ctx.state('compare', k, n)


def cases(tier):
    many = tier == 'thorough'
    out = []
    out += [('generate', dict(problem=p, n=n, m=m, every=e))
            for p, n, m, e in ((4, 1, 2, 0), (1, 2, 1, 3), (4, 3, 1, 2),
                               (1, 1, 1, 0))]*(12 if many else 2)
    out += [('uniaxial', dict(n=n, shape=s)) for n in (4, 9)
            for s in ('line', 'cycle')]*(15 if many else 2)
    out += [('parameters', {})]*(2000 if many else 60)
    out += [('surfaces', dict(n=n, m=m)) for n, m in
            ((2, 3), (4, 2), (3, 3))]*(20 if many else 1)
    out += [('refuse', {})]*(20 if many else 2)
    out += [('assemble', dict(pairs=p, reduce=r)) for p in (1, 2, 3, 6)
            for r in (False, True)]*(60 if many else 12)
    out += [('ensemble', dict(name=q, n=n)) for q in UQ
            for n in (1, 2, 4)]*(12 if many else 2)
    out += [('ensemble', dict(name=q, n=12)) for q in UQ] * \
        (4 if many else 1)
    out += [('update', dict(n=n, again=a)) for n in (1, 3)
            for a in (False, True)]*(40 if many else 5)
    out += [('network', dict(norm=q)) for q in (False, True)] * \
        (60 if many else 6)
    out += [('compare', dict(k=k)) for k in (1, 2, 5)]*(30 if many else 4)
    return out
