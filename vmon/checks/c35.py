"""C35: material and optimisation studies show what they compare."""
import itertools
import math
import os
import matplotlib
matplotlib.use('Agg')
import numpy as np
import torch
import pyvista as pv
from vmon import mat, ref
from vmon.checks.c30 import Record, check_lines, legend, lines
from ioput.iostandard import write_summary_file
from miscellaneous.materials import plot_yield_surface as ys
from miscellaneous.materials.compare_material_models import \
    compare_material_model_response
from miscellaneous.materials.compare_hardening_laws import \
    compare_hardening_laws
from miscellaneous.file_processing.plot_prediction_files import \
    plot_models_stress_prediction
from model_architectures.rnn_base_model.optimization.\
    hydra_optimization_plots import plot_optimization_history
from simulators.fetorch.material.models.standard import hardening as hd

PROPERTY = 'C35'
RULE = ('random yield functions, sets of materials driven by the same strain '
        'path, sets of hardening laws, optimisation histories on disk and '
        'sets of predictions; values against own formulas, against stresses '
        'of the real models at yield and against fresh materials; artists of '
        'figures and recorded surfaces read back; non-trivial: distinct '
        '(study, materials, number of sets, options)')
ASSUMPTIONS = ['no LaTeX installation', 'Agg backend',
               'surfaces are recorded, not rendered',
               'yield surfaces of stresses well above 1e-4 stress units '
               '(regularisation of the second invariant)']
REQUIRED_EVENTS = ('yield-function', 'at-yield', 'surface', 'contour',
                   'response', 'reference', 'hardening', 'optimisation',
                   'refused', 'prediction')
PI = np.array([[math.sqrt(2/3), -math.sqrt(1/6), -math.sqrt(1/6)],
               [0, math.sqrt(.5), -math.sqrt(.5)],
               [math.sqrt(1/3)]*3])


# ------------------------------------------------------------ yield surfaces
def phi(kind, par, sy, s):
    """Own yield function of principal stresses."""
    s = np.asarray(s, float)
    p = s.mean()
    d = s - p
    j2, j3 = .5*(d*d).sum(), d.prod()
    if kind == 'von_mises':
        return math.sqrt(3*j2) - sy
    if kind == 'drucker_prager':
        return math.sqrt(j2) + math.sqrt(3)*math.sin(
            par['friction_angle'])*p - sy
    w = math.sqrt(max(j2**3 - par['yield_c']*j3**2, 0.)) - par['yield_d']*j3
    return par['yield_a']*(par['yield_b']*s.sum() + np.cbrt(w)) - sy


def yielding(rng, kind):
    sy = float(10**rng.uniform(0, 4))
    par = {}
    if kind == 'drucker_prager':
        par = {'friction_angle': math.radians(float(rng.uniform(.1, 30)))}
    elif kind == 'lou_zhang_yoon':
        c, d = float(rng.uniform(-2.5, 2.2)), float(rng.uniform(-1, 1))
        while mat.lou_convexity(c, d) < .15:
            c, d = float(rng.uniform(-2.5, 2.2)), float(rng.uniform(-1, 1))
        par = {'yield_a': float(rng.uniform(.8, 1.8)),
               'yield_b': float(rng.choice([0., rng.uniform(0, .1)])),
               'yield_c': c, 'yield_d': d}
    name = kind + str(rng.choice(['', '_1', '_found', '_vmap']))
    return name, par, sy


def functions(ctx, kind):
    rng = ctx.rng
    for _ in range(12):
        name, par, sy = yielding(rng, kind)
        s = rng.standard_normal(3)*sy*10**rng.uniform(-2, 1)
        mode = rng.random()
        if mode < .15:
            s[int(rng.integers(3))] = 0
        elif mode < .3:
            s[:] = s[0]
        elif mode < .45:
            s[1] = s[0]
        w = phi(kind, par, sy, s)
        atol = 3e-5 + 1e-6*abs(s).max()
        tag = f'{name} {par} sy={sy} s={s}'
        keep = dict(par)
        ctx.close('yield-function', ys.yield_function(
            *s, sy, name, par), w, rtol=1e-6, scale=sy, atol=atol, msg=tag)
        ctx.close('normalised', ys.yield_function(
            *s, sy, name, par, is_normalize_sy=True), w/sy, rtol=1e-6,
            scale=1., atol=atol/sy, msg=tag)
        for q in itertools.permutations(s):
            ctx.close('order', ys.yield_function(*q, sy, name, par), w,
                      rtol=1e-6, scale=sy, atol=atol, msg=tag)
        ctx.same('kept', par, keep, tag)
        i1, i2, i3, j1, j2, j3 = ys.get_stress_invariants(turned(rng, s))
        d = s - s.mean()
        m = abs(s).max() + 1e-300
        for k, (g, v, o) in enumerate((
                (i1, s.sum(), 1),
                (i2, s[0]*s[1] + s[1]*s[2] + s[0]*s[2], 2),
                (i3, s.prod(), 3), (j2, .5*(d*d).sum(), 2),
                (j3, d.prod(), 3))):
            ctx.close('invariant', g, v, rtol=1e-10, scale=m**o,
                      msg=f'{k}: {s}')
        ctx.event('yield-function')
    # principal stresses of points in pi-space
    x = rng.standard_normal((5, 3))*sy
    got = np.array([ys.pi_to_principal(*v) for v in x])
    ctx.close('pi-space', got, x @ PI, rtol=1e-12, scale=abs(x).max(),
              msg='principal stresses of pi-stresses')
    want = [phi(kind, par, sy, v @ PI)/sy for v in x]
    ctx.close('points', ys.batched_yield_function(x, sy, name, par), want,
              rtol=1e-6, scale=1., atol=3e-5/sy + 1e-5, msg=tag)
    ctx.raises('unknown', lambda: ys.yield_function(
        1., 2., 3., 1., 'tresca', {}), RuntimeError, 'unknown model')
    ctx.state('functions', kind)


def rot(rng):
    q, _ = np.linalg.qr(rng.standard_normal((3, 3)))
    return q


def turned(rng, s):
    q = rot(rng)
    return q @ np.diag(s) @ q.T


def at_yield(ctx, kind):
    """Stresses of the real models while yielding lie on the surface."""
    rng = ctx.rng
    spec = mat.Spec(rng, kind, tame=True, E=float(10**rng.uniform(4, 6)))
    if kind == 'drucker_prager':
        t = math.radians(float(rng.uniform(2, 30)))
        spec.xi, spec.etay = 2/math.sqrt(3)*math.cos(t), \
            math.sqrt(3)*math.sin(t)
        spec.etaf = spec.etay
        spec.par.update(yield_cohesion_parameter=spec.xi,
                        yield_pressure_parameter=spec.etay,
                        flow_pressure_parameter=spec.etaf)
    seen = 0
    pk = str(rng.choice(['proportional', 'cyclic', 'shear', 'uniaxial']))
    for i, inc, old, new, tan in mat.history(
            ctx, spec, 3, bool(rng.random() < .3), pk, n=6):
        if mat.failed(new):
            return
        acc = mat.num(new['acc_p_strain'])
        if not bool(new['is_plast']):
            continue
        s = np.linalg.eigvalsh(mat.full(new, 'stress_mf', 3))
        if np.ptp(s) < 1e-3*abs(s).max():
            continue
        sy = spec.law(acc)[0]
        par = {}
        if kind == 'drucker_prager':
            sy, par = sy*spec.xi, {'friction_angle': t}
        elif kind == 'lou_zhang_yoon':
            par = {'yield_' + k: spec.laws[k + '_'](acc)[0] for k in 'abcd'}
        ctx.close('at-yield', ys.yield_function(
            *rng.permutation(s), sy, kind, par, is_normalize_sy=True), 0.,
            rtol=1e-4, scale=1., msg=f'{spec.describe()} {pk} step {i}')
        seen += 1
    ctx.event('at-yield', seen)
    ctx.state('at-yield', kind, pk)


class Recorder:
    log = []

    def __init__(self, *a, **k):
        self.meshes, self.legend, self.shots, self.shown = [], 0, [], 0
        Recorder.log.append(self)

    def add_mesh(self, mesh, label=None, **k):
        self.meshes.append((mesh.copy(), label))

    def add_legend(self, *a, **k):
        self.legend += 1

    def screenshot(self, path, *a, **k):
        self.shots.append(str(path))

    def show(self, *a, **k):
        self.shown += 1

    def __getattr__(self, name):
        return lambda *a, **k: None


def radius(kind, par, sy, angle):
    """Own distance of the surface in the pi-plane."""
    d = np.array([math.cos(angle), math.sin(angle), 0.]) @ PI
    lo, hi = 0., 10*sy
    if phi(kind, par, sy, hi*d) < 0:
        return math.inf
    for _ in range(60):
        m = .5*(lo + hi)
        lo, hi = (m, hi) if phi(kind, par, sy, m*d) < 0 else (lo, m)
    return lo


def surface(ctx, kinds, plane, labels, save):
    rng = ctx.rng
    base = float(10**rng.uniform(1, 3.5))
    names, par, sy, kd = [], {}, {}, {}
    for i, k in enumerate(kinds):
        n, p, _ = yielding(rng, k)
        n = f'{k}_{i}'
        names.append(n)
        par[n], sy[n], kd[n] = p, base*float(rng.uniform(.6, 1.)), k
    lab = {n: f'Model {j}' for j, n in enumerate(names)} if labels else None
    d = ctx.tmpdir()
    top = max(sy.values())
    tag = f'{names} {par} {sy}'
    Recorder.log.clear()
    keep = pv.Plotter
    pv.Plotter = Recorder
    try:
        with Record() as r:
            ys.plot_yield_surface(
                names, par, sy, models_labels=lab, is_pi_plane_only=plane,
                is_null_planes=bool(rng.random() < .5), filename='surf',
                save_dir=d if save else None, is_save_fig=save)
    finally:
        pv.Plotter = keep
    ctx.same('plotters', len(Recorder.log), 1, tag)
    ctx.same('shown', Recorder.log[0].shown, 0, tag)
    got = Recorder.log[0].meshes
    ctx.ok('meshes', len(got) >= len(names), f'{tag}: {len(got)} meshes')
    h = 4*top/50
    for n, (mesh, label) in zip(names, got):
        ctx.same('label', label or '', lab[n] if lab else '', tag)
        x = np.asarray(mesh.points, float)
        ctx.ok('surface-found', len(x) > 20, f'{tag}: {n}: {len(x)} points')
        far = np.linalg.norm(x[:, :2], axis=1) > 4*h
        x = x[far]
        if len(x) > 3000:
            x = x[rng.permutation(len(x))[:3000]]
        v = np.array([phi(kd[n], par[n], sy[n], q @ PI)/sy[n] for q in x])
        ctx.le('surface', abs(v).max(), .05, msg=f'{tag}: {n}')
        ctx.le('surface-mean', abs(v).mean(), .01, msg=f'{tag}: {n}')
        if plane:
            ctx.le('in-plane', abs(x[:, 2]).max(), 1e-6*top, msg=tag)
        else:
            # the whole range of pressures is reached where there is surface
            apex = top*2
            if kd[n] == 'von_mises':
                ctx.ok('height', x[:, 2].min() < -1.85*top and
                       x[:, 2].max() > 1.75*top, f'{tag}: {n}')
            else:
                ctx.ok('height', x[:, 2].min() < -1.85*top or
                       np.linalg.norm(x[:, :2], axis=1).max() > 1.7*top,
                       f'{tag}: {n} {apex}')
        ctx.event('surface')
    # contours of the pi-plane figure
    ctx.same('figures', len(r.figs), 1, tag)
    ax = r.figs[0].axes[0]
    g = [p for _, p in lines(ax) if len(p)]
    ctx.same('contours', len(g), len(names), tag)
    if lab:
        ctx.same('legend', legend(ax), [lab[n] for n in names], tag)
    for n, p in zip(names, g):
        contour(ctx, p, tag)
        w = np.array([radius(kd[n], par[n], sy[n], a)
                      for a in np.arctan2(p[:, 1], p[:, 0])])
        ctx.le('contour', abs(np.linalg.norm(p, axis=1) - w).max()/sy[n],
               .04, msg=f'{tag}: {n}')
    if save:
        ctx.ok('saved', 'yield_surfaces_pi_plane.pdf' in os.listdir(d), tag)
        ctx.same('screenshot', Recorder.log[0].shots,
                 [os.path.join(d, 'surf.png')], tag)
    else:
        ctx.same('saved', (Recorder.log[0].shots, os.listdir(d)), ([], []),
                 tag)
    ctx.state('surface', tuple(kinds), plane, labels)


def contour(ctx, p, tag):
    """A closed curve once around the axis."""
    ctx.close('closed', p[0], p[-1], rtol=1e-12, scale=abs(p).max(), msg=tag)
    a = np.unwrap(np.arctan2(p[:, 1], p[:, 0]))
    ctx.close('around', abs(a[-1] - a[0]), 2*math.pi, rtol=1e-6, msg=tag)
    ctx.ok('turning', (np.diff(a) >= -1e-9).all() or
           (np.diff(a) <= 1e-9).all(), f'{tag}: not ordered')
    ctx.event('contour')


def plane(ctx, k):
    """The pi-plane figure alone: any order of points, any number."""
    rng = ctx.rng
    names = [f'von_mises_{i}' for i in rng.permutation(k)]
    data, want = {}, {}
    for n in names:
        m = int(rng.integers(9, 60))
        a = np.linspace(-math.pi, math.pi, m, endpoint=False) \
            + .3*(2*math.pi/m)*rng.random(m)
        q = np.column_stack([np.cos(a), np.sin(a)])*10**rng.uniform(0, 3)
        want[n] = q
        data[n] = q[rng.permutation(m)]
    lab = {n: f'L{i}' for i, n in enumerate(names)} \
        if rng.random() < .6 else None
    d = ctx.tmpdir()
    save = rng.random() < .2
    keep = {n: v.copy() for n, v in data.items()}
    with Record() as r:
        ys.plot_yield_surface_pi_plane(
            names, data, models_labels=lab, filename='fig_1',
            save_dir=d, is_save_fig=bool(save))
    tag = f'{k} contours {[len(v) for v in want.values()]}'
    ax = r.figs[0].axes[0]
    g = [p for _, p in lines(ax) if len(p)]
    ctx.same('contours', len(g), k, tag)
    if lab:
        ctx.same('legend', legend(ax), [lab[n] for n in names], tag)
    for n, p in zip(names, g):
        ctx.same('length', len(p), len(want[n]) + 1, tag)
        contour(ctx, p, tag)
        key = lambda x: x[np.lexsort(np.round(x, 6).T)]
        ctx.close('points', key(p[:-1]), key(want[n]), rtol=1e-9,
                  scale=abs(want[n]).max(), msg=tag)
        ctx.ok('kept', np.array_equal(keep[n], data[n]), tag)
    ctx.same('saved', os.listdir(d), ['fig_1.pdf'] if save else [], tag)
    ctx.state('plane', k, lab is None)


# ------------------------------------------------------- material comparisons
def response(ctx, dim, k, reference):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    E = float(10**rng.uniform(3, 5))
    order = tuple(str(c) for c in rng.permutation(ref.SYM[dim]))
    specs, models = {}, {}
    for i in range(k):
        name = str(rng.choice(['von_mises', 'drucker_prager',
                               'lou_zhang_yoon', 'von_mises_mixed',
                               'elastic']))
        n = f'{name}_{i}' if rng.random() < .7 else f'Model {9 - i}'
        specs[n] = mat.Spec(rng, name, tame=True, E=E*rng.uniform(.8, 1.2))
    n_time = ctx.size(2, 12, 50, p=.1)
    t = np.cumsum(rng.uniform(.1, 1., n_time))
    t -= t[0] if rng.random() < .5 else 0.
    m = min(s.yield_strain() for s in specs.values())
    inc = rng.standard_normal((n_time, len(order)))*m*.4
    inc[0] = 0
    path = np.cumsum(inc, 0)
    want = {}
    for n, s in specs.items():
        vm = s.name != 'elastic' and bool(rng.random() < .4)
        models[n] = s.build(dim, vm)
        own = s.build(dim, vm)
        st, out = own.state_init(), [np.zeros(len(order))]
        for a, b in zip(path[:-1], path[1:]):
            e = np.zeros((dim, dim))
            for c, v in zip(order, b - a):
                i, j = int(c[0]) - 1, int(c[1]) - 1
                e[i, j] = e[j, i] = v
            st, _ = mat.update(own, dim, torch.tensor(e), st)
            if mat.failed(st):
                return
            q = mat.full(st, 'stress_mf', dim)
            out.append(np.array([q[int(c[0]) - 1, int(c[1]) - 1]
                                 for c in order]))
        want[n] = np.array(out)
    rp = None
    if reference:
        rp = rng.standard_normal(path.shape)*E*m
        want['reference'] = rp
    d = ctx.tmpdir()
    save = bool(rng.random() < .25)
    tt = t if rng.random() < .5 else t.reshape(-1, 1)
    keep = path.copy()
    with Record() as r:
        compare_material_model_response(
            'infinitesimal', mat.PT[dim], order, tt, path,
            constitutive_models=models, ref_stress_path=rp, save_dir=d,
            is_save_fig=save)
    tag = f'{dim}D {[s.name for s in specs.values()]} order {order}'
    ctx.ok('kept', np.array_equal(path, keep), tag)
    ctx.same('closed', r.open, [], tag)
    seen = {}
    rest = []
    for f in r.figs:
        y = f.axes[0].get_ylabel().strip('$').split()
        if len(y) == 2 and y[0] == 'Stress' and y[1] in order:
            seen.setdefault(y[1], []).append(f.axes[0])
        else:
            rest.append(f)
    ctx.same('components', {c: len(v) for c, v in seen.items()},
             {c: 1 for c in order}, tag)
    for c, (ax,) in ((c, v) for c, v in seen.items() if len(v) == 1):
        i = order.index(c)
        got = [p for _, p in lines(ax) if len(p)]
        ctx.same('sets', len(got), len(want), tag)
        ctx.same('legend', legend(ax), list(want), tag)
        for (n, w), g in zip(want.items(), got):
            ctx.close('time', g[:, 0], t, rtol=1e-9, scale=abs(t).max(),
                      msg=f'{tag}: {n}')
            ctx.close('stress', g[:, 1], w[:, i], rtol=1e-6,
                      scale=abs(w).max() + 1e-9, msg=f'{tag}: {n} {c}')
    if dim == 3:
        ctx.same('stress-space', len(rest), 4, tag)
        lam = []
        for w in want.values():
            z = np.zeros((len(w), 3, 3))
            for q, c in enumerate(order):
                i, j = int(c[0]) - 1, int(c[1]) - 1
                z[:, i, j] = z[:, j, i] = w[:, q]
            lam.append(np.linalg.eigvalsh(z)[:, ::-1])
        got = [p for _, p in lines(rest[0].axes[0]) if len(p)] if rest \
            else []
        ctx.same('stress-space', len(got), len(lam), tag)
        for g, w in zip(got, lam):
            ctx.close('principal', g, w, rtol=1e-6, scale=abs(w).max(),
                      msg=tag)
    else:
        ctx.same('stress-space', len(rest), 0, tag)
    files = os.listdir(d)
    if save:
        for c in order:
            ctx.ok('saved', f'model_comparison_stress_{c}.pdf' in files,
                   f'{tag}: {files}')
    else:
        ctx.same('saved', files, [], tag)
    ctx.event('response', len(specs))
    ctx.event('reference', bool(reference))
    ctx.state('response', dim, k, reference)


def hardening(ctx, k, display, save):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    laws, own = {}, {}
    for i in range(k):
        kind, p, f = mat.rand_hardening(rng, float(10**rng.uniform(1, 3)))
        n = f'law {i}' if rng.random() < .5 else f'{kind}_{9 - i}'
        laws[n] = {'hardening_law': hd.get_hardening_law(kind),
                   'hardening_parameters': mat.code_params(kind, p)}
        own[n] = f
    d = ctx.tmpdir()
    with Record() as r:
        compare_hardening_laws(laws, save_dir=d, is_save_fig=save,
                               is_stdout_display=display)
    tag = f'{list(laws)}'
    ctx.same('figures', len(r.figs), int(display or save), tag)
    ctx.same('saved', os.listdir(d),
             ['comparison_hardening_laws.pdf'] if save else [], tag)
    if r.figs:
        ax = r.figs[0].axes[0]
        got = [p for _, p in lines(ax) if len(p)]
        ctx.same('sets', len(got), k, tag)
        if k > 1:
            ctx.same('legend', legend(ax), list(laws), tag)
        for (n, f), g in zip(own.items(), got):
            ctx.ok('range', g[0, 0] == 0 and abs(g[-1, 0] - 1) < 1e-9 and
                   (np.diff(g[:, 0]) > 0).all(), f'{tag}: {n}')
            w = np.array([f(e)[0] for e in g[:, 0]])
            ctx.close('yield-stress', g[:, 1], w, rtol=1e-9,
                      scale=abs(w).max(), msg=f'{tag}: {n}')
        ctx.event('hardening', k)
    ctx.state('hardening', k, display, save)


# ------------------------------------------------------------- optimisations
def job(rng, path, metric, value, i):
    os.makedirs(path)
    if rng.random() < .7:
        write_summary_file(path, filename='job_summary',
                           summary_title='Hydra', sweeper='Basic',
                           lr=f'{rng.random():.3e}', **{metric: value})
        return
    with open(os.path.join(path, 'job_summary.dat'), 'w') as f:
        f.write(f'Job\n---\n\nlr: {rng.random()}\n{metric}: {value}\n'
                f'time: {i}\n')


def optimisation(ctx, k, log):
    rng = ctx.rng
    root = ctx.tmpdir()
    hist, want = {}, {}
    metric = str(rng.choice(['objective', 'loss', 'avg_predict_loss']))
    text = rng.random() < .6
    for i in range(k):
        lab = f'process {9 - i}'
        d = os.path.join(root, f'opt_{i}')
        os.makedirs(d)
        n = ctx.size(1, 6, 26, p=.5)
        v = 10**rng.uniform(-6, 6, n)
        if not log and rng.random() < .3:
            v *= rng.choice([-1, 1], n)
        jobs = list(range(n))
        rng.shuffle(jobs)
        for j in jobs:
            v[j] = float(f'{v[j]:.8e}')
            job(rng, os.path.join(d, str(j)), metric,
                f'{v[j]:.8e}' if text else float(v[j]), j)
        for junk in ('.submitit', 'multirun', '3_old', 'x7'):
            if rng.random() < .4:
                os.makedirs(os.path.join(d, junk))
        if rng.random() < .3:
            open(os.path.join(d, 'multirun.yaml'), 'w').close()
        hist[lab], want[lab] = d, v
    sv = ctx.tmpdir()
    save = bool(rng.random() < .3)
    name = str(rng.choice(['', 'my_plot']))
    labels = bool(rng.random() < .5)
    if rng.random() < .5:
        # other order than creation
        hist = dict(sorted(hist.items()))
        want = {n: want[n] for n in hist}
    with Record() as r:
        plot_optimization_history(
            hist, metric, is_log_metric=log, is_data_labels=labels,
            filename=name or None, save_dir=sv, is_save_fig=save,
            is_verbose=bool(rng.random() < .5))
    tag = f'{k} processes {[len(v) for v in want.values()]} log={log}'
    ctx.same('figures', len(r.figs), 1, tag)
    ctx.same('closed', r.open, [], tag)
    ax = r.figs[0].axes[0]
    got = []
    for c in ax.collections:
        o = np.asarray([[np.nan if q is None else float(q) for q in p]
                        for p in np.ma.filled(np.ma.asarray(
                            c.get_offsets(), float), np.nan)])
        o = o[np.isfinite(o).all(1)] if len(o) else o
        if len(o):
            got.append(o)
    ln = [(l, p) for l, p in lines(ax) if len(p)]
    best = [p for l, p in ln if l.get_label() == 'Best-so-far']
    if not got:
        got = [p for l, p in ln if l.get_label() != 'Best-so-far']
    ctx.same('sets', len(got), k, tag)
    for (n, v), g in zip(want.items(), got):
        w = np.log(v) if log else v
        ctx.same('jobs', len(g), len(v), f'{tag}: {n}')
        if len(g) == len(v):
            ctx.close('job', g[:, 0], np.arange(len(v)), rtol=0, atol=1e-9,
                      msg=f'{tag}: {n}')
            ctx.close('metric', g[:, 1], w, rtol=1e-9,
                      msg=f'{tag}: {n}')
    if k == 1:
        v = next(iter(want.values()))
        v = np.log(v) if log else v
        ctx.same('best', len(best), 1, tag)
        ctx.close('best', best[0], np.column_stack(
            [np.arange(len(v)), np.minimum.accumulate(v)]), rtol=1e-9,
            scale=None, msg=tag)
    if labels:
        ctx.ok('legend', [x for x in legend(ax) if x != 'Best-so-far'] ==
               list(want), f'{tag}: {legend(ax)}')
    ctx.same('saved', os.listdir(sv), [
        (name or f'optimization_history_{metric}') + '.pdf']
        if save else [], tag)
    ctx.event('optimisation', k)
    # incomplete histories are refused
    lab = list(hist)[int(rng.integers(k))]
    d = hist[lab]
    n = len(want[lab])
    what = int(rng.integers(5))
    j = int(rng.integers(n))
    if what == 0:
        hist = dict(hist, **{lab: os.path.join(root, 'none')})
    elif what == 1:
        e = os.path.join(root, 'empty')
        os.makedirs(os.path.join(e, 'x1'))
        hist = dict(hist, **{lab: e})
    elif what == 2:
        os.remove(os.path.join(d, str(j), 'job_summary.dat'))
    elif what == 3:
        f = os.path.join(d, str(j), 'job_summary.dat')
        with open(f) as h:
            s = [x for x in h if metric not in x]
        with open(f, 'w') as h:
            h.writelines(s)
    else:
        os.rename(os.path.join(d, str(j)), os.path.join(d, str(n + 3)))
    with Record():
        ctx.raises('incomplete', lambda: plot_optimization_history(
            hist, metric, is_log_metric=log), RuntimeError,
            f'{tag}: kind {what} job {j}')
    ctx.event('refused')
    ctx.state('optimisation', k, log, what)


# --------------------------------------------------------------- predictions
def predictions(ctx, k, truth):
    rng = ctx.rng
    dim = 2 if rng.random() < .4 else 3
    order = tuple(str(c) for c in rng.permutation(ref.SYM[dim]))
    n = ctx.size(1, 15, 200, p=.1)
    t = np.cumsum(rng.uniform(.1, 1., n)).reshape(-1, 1)
    conv = (lambda x: torch.tensor(x)) if rng.random() < .5 else \
        (lambda x: x)
    sp = rng.standard_normal((n, len(order)))*10**rng.uniform(-2, 4)
    sample = {'time_hist': conv(t), 'stress_comps_order': order,
              'stress_path': conv(sp)}
    want = {'Ground-truth': sp} if truth else {}
    res = {}
    for i in range(k):
        p = rng.standard_normal(sp.shape)*10**rng.uniform(-2, 4)
        lab = f'Model {9 - i}'
        res[lab] = {'features_out': conv(p)}
        want[lab] = p
    d = ctx.tmpdir()
    save = bool(rng.random() < .2)
    with Record() as r:
        plot_models_stress_prediction(
            sample, res, is_plot_ground_truth=truth, filename='cmp',
            save_dir=d, is_save_fig=save)
    tag = f'{dim}D {k} models'
    ctx.same('figures', len(r.figs), len(order), tag)
    for i, (c, f) in enumerate(zip(order, r.figs)):
        ax = f.axes[0]
        check_lines(ctx, ax, [np.column_stack([t[:, 0], w[:, i]])
                              for w in want.values()], f'{tag}: {c}')
        if len(want) > 1:
            ctx.same('legend', legend(ax), list(want), tag)
    ctx.same('saved', sorted(os.listdir(d)), sorted(
        f'cmp_stress_{c}.pdf' for c in order) if save else [], tag)
    ctx.event('prediction', len(order))
    ctx.state('prediction', dim, k, truth)


def cases(tier):
    many = tier == 'thorough'
    out = []
    k3 = ('von_mises', 'drucker_prager', 'lou_zhang_yoon')
    for k in k3:
        out += [('surface', dict(kinds=[k], plane=False, labels=k != k3[0],
                                 save=k == k3[1]))]
    out += [('surface', dict(kinds=[k3[2], k3[0]], plane=True, labels=True,
                             save=False))]
    if many:
        out += [('surface', dict(kinds=list(q), plane=p, labels=l,
                                 save=False))
                for q in itertools.permutations(k3, 2)
                for p in (False, True) for l in (False, True)]
        out += [('surface', dict(kinds=[q], plane=p, labels=True, save=True))
                for q in k3 for p in (False, True)]*4
    out += [('functions', dict(kind=k)) for k in k3]*(400 if many else 10)
    out += [('at_yield', dict(kind=k)) for k in k3]*(400 if many else 15)
    out += [('plane', dict(k=k)) for k in (1, 2, 4)]*(100 if many else 5)
    out += [('response', dict(dim=d, k=k, reference=q)) for d in (2, 3)
            for k in (1, 2, 3) for q in (False, True)]*(60 if many else 4)
    out += [('hardening', dict(k=k, display=d, save=s)) for k in (1, 2, 3)
            for d, s in ((True, False), (False, True), (True, True),
                         (False, False))]*(10 if many else 1)
    out += [('optimisation', dict(k=k, log=q)) for k in (1, 2, 3)
            for q in (False, True)]*(150 if many else 10)
    out += [('predictions', dict(k=k, truth=q)) for k in (1, 2, 4)
            for q in (False, True)]*(60 if many else 4)
    return out
