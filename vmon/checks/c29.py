"""C29: derived strain and stress features are the invariants they name."""
import copy
import itertools
import numpy as np
import torch
from vmon import data as vd
from model_architectures.hybrid_base_model.model.hybridized_layers import \
    VolDevCompositionModel
from model_architectures.materials.strain_features import (
    add_strain_features, compute_strain_feature)
from model_architectures.materials.stress_features import (
    add_stress_features, compute_stress_feature)
from time_series_data.time_dataset import (TimeSeriesDatasetInMemory,
                                           load_dataset, save_dataset)

PROPERTY = 'C29'
RULE = ('random strain and stress paths of every component order, length, '
        'magnitude and precision in every data set container; invariants '
        'recomputed from eigenvalues and projections of full tensors in '
        'double precision; metamorphic: rotation, superposed pressure, '
        'recomposition; non-trivial: distinct (feature, container, order, '
        'precision, kind of state)')
ASSUMPTIONS = ['CPU device only', 'finite components']
REQUIRED_EVENTS = ('feature', 'files', 'subset', 'recomposed', 'refused',
                   'rotated')
COMPS = ('11', '22', '33', '12', '23', '13')
LABELS = {'strain': ('i1_strain', 'i2_strain'),
          'stress': ('vol_stress', 'dev_stress')}
ADD = {'strain': add_strain_features, 'stress': add_stress_features}
ONE = {'strain': compute_strain_feature, 'stress': compute_stress_feature}


def order(rng):
    """Random order; off-diagonal components may be named either way."""
    return tuple(c[::-1] if c[0] != c[1] and rng.random() < .4 else c
                 for c in (COMPS[i] for i in rng.permutation(6)))


def full(x, o):
    """Tensors (n, 3, 3) of component rows."""
    t = np.zeros((len(x), 3, 3))
    for k, c in enumerate(o):
        i, j = int(c[0]) - 1, int(c[1]) - 1
        t[:, i, j] = t[:, j, i] = x[:, k]
    return t


def rows(t, o):
    return np.stack([t[:, int(c[0]) - 1, int(c[1]) - 1] for c in o], 1)


def states(rng, n, o, kind, s):
    t = rng.standard_normal((n, 3, 3))*s
    t = (t + t.transpose(0, 2, 1))/2
    if kind == 'spherical':
        t = np.eye(3)*rng.standard_normal((n, 1, 1))*s
    elif kind == 'deviatoric':
        t -= np.eye(3)*(np.trace(t, axis1=1, axis2=2)/3)[:, None, None]
    elif kind == 'uniaxial':
        t[:] = 0
        i = int(rng.integers(3))
        t[:, i, i] = rng.standard_normal(n)*s
    elif kind == 'shear':
        i, j = [(0, 1), (1, 2), (0, 2)][int(rng.integers(3))]
        t[:] = 0
        t[:, i, j] = t[:, j, i] = rng.standard_normal(n)*s
    elif kind == 'pressure':
        t += np.eye(3)*rng.uniform(-50, 50)*s
    elif kind == 'zero':
        t[:] = 0
    return rows(t, o)


def want(label, t, o):
    """Feature history of full tensors, from principal values."""
    lam = np.linalg.eigvalsh(t)
    if label == 'i1_strain':
        return lam.sum(1)[:, None]
    if label == 'i2_strain':
        return sum(lam[:, a]*lam[:, b]
                   for a, b in itertools.combinations(range(3), 2))[:, None]
    mean = lam.sum(1)/3
    if label == 'vol_stress':
        return mean[:, None]
    return rows(t - np.eye(3)*mean[:, None, None], o)


def features(ctx, what, container, kind, dt, n_sample):
    rng = ctx.rng
    o = order(rng) if rng.random() < .6 else COMPS
    dtype = getattr(torch, dt)
    samples = []
    for _ in range(n_sample):
        s = 10**rng.uniform(-6, 3)
        x = states(rng, ctx.size(1, 30, 400), o, kind, s)
        y = rng.standard_normal((len(x), 6))
        d = {what + '_path': torch.tensor(x, dtype=dtype),
             what + '_comps_order': o,
             'other': torch.tensor(y, dtype=dtype),
             'time_hist': torch.arange(len(x)).reshape(-1, 1).to(dtype)}
        samples.append(d)
    before = copy.deepcopy(samples)
    if container == 'subset-files':
        ds, idx = vd.contain(ctx, samples, 'files')
        idx = [int(i) for i in rng.permutation(n_sample)[
            :int(rng.integers(1, n_sample + 1))]]
        parent, ds = ds, torch.utils.data.Subset(ds, idx)
    else:
        ds, idx = vd.contain(ctx, samples, container)
        parent = ds.dataset if container == 'subset' else None
    labels = LABELS[what]
    for label in [labels[i] for i in rng.permutation(2)]:
        out = ADD[what](ds, label)
        ctx.same('length', len(out), len(idx))
    tag = f'{what} {container} {kind} {dt} order={o}'
    tol = 2e-5 if dt == 'float32' else 1e-11
    checked = [(out[j], i) for j, i in enumerate(idx)]
    if parent is not None:
        checked += [(parent[i], i) for i in idx]
        for i in set(range(n_sample)) - set(idx):
            ctx.same('untouched', sorted(parent[i]), sorted(before[i]), tag)
        ctx.event('subset')
    if container.endswith('files'):
        ctx.event('files')
    if rng.random() < .4 and container != 'subset-files':
        p = save_dataset(out, 'features', ctx.tmpdir())
        re = load_dataset(p)
        checked += [(re[j], i) for j, i in enumerate(idx)]
        ctx.event('reloaded')
    for got, i in checked:
        t = full(before[i][what + '_path'].double().numpy(), o)
        for k in before[i]:
            if torch.is_tensor(before[i][k]):
                ctx.ok('kept', torch.equal(got[k], before[i][k]),
                       f'{tag}: {k} changed')
            else:
                ctx.same('kept', tuple(got[k]), tuple(before[i][k]), tag)
        ctx.same('keys', set(got), set(before[i]) | set(labels), tag)
        for label in labels:
            f = got[label]
            w = want(label, t, o)
            ctx.same('shape', tuple(f.shape), w.shape, f'{tag}: {label}')
            ctx.same('precision', f.dtype, dtype, f'{tag}: {label}')
            mag = abs(t).max((1, 2))[:, None]
            if label == 'i2_strain':
                mag = mag**2
            mag = np.maximum(mag, 1e-30)
            ctx.close('value', f.double().numpy()/mag, w/mag, rtol=tol,
                      scale=1., msg=f'{tag}: {label}')
            ctx.event('feature')
        if what == 'stress':
            recompose(ctx, got, before[i], o, tag, tol)
    ctx.state(what, container, kind, dt, o == COMPS, n_sample)


def recompose(ctx, got, orig, o, tag, tol):
    """Volumetric and deviatoric features make up the stress again."""
    v, d = got['vol_stress'].double(), got['dev_stress'].double()
    x = orig['stress_path'].double().numpy()
    mag = abs(x).max() + 1e-300
    dt = full(d.numpy(), o)
    ctx.close('traceless', np.trace(dt, axis1=1, axis2=2),
              np.zeros(len(dt)), rtol=tol*3,
              scale=mag, msg=tag)
    # layer of the models, in its own order of components
    lay = VolDevCompositionModel()
    from simulators.fetorch.math.matrixops import get_problem_type_parameters
    co = get_problem_type_parameters(4)[1]
    f = torch.cat([v, torch.tensor(rows(dt, co))], dim=1)
    ctx.close('recomposed', lay(f).numpy(), rows(full(x, o), co), rtol=tol*3,
              scale=mag, msg=tag)
    ctx.event('recomposed')


def metamorphic(ctx, what):
    """Invariants do not see rotations; pressure enters one feature only."""
    rng = ctx.rng
    o = order(rng)
    s = 10**rng.uniform(-4, 3)
    x = states(rng, 1, o, 'generic', s)
    q = np.linalg.qr(rng.standard_normal((3, 3)))[0]
    t = full(x, o)
    y = rows(q @ t @ q.T, o)
    p = float(rng.uniform(-5, 5)*s)
    z = rows(t + p*np.eye(3), o)

    def f(label, a):
        return ONE[what](torch.tensor(a[0]), label, 3, o).numpy()
    if what == 'strain':
        for label, k in (('i1_strain', 1), ('i2_strain', 2)):
            ctx.close('objective', f(label, y), f(label, x), rtol=1e-10,
                      scale=s**k, msg=f'{label} of a rotated strain')
    else:
        ctx.close('objective', f('vol_stress', y), f('vol_stress', x),
                  rtol=1e-10, scale=s, msg='rotated stress')
        d = full(f('dev_stress', x)[None], o)
        ctx.close('objective', f('dev_stress', y),
                  rows(q @ d @ q.T, o)[0], rtol=1e-10, scale=s,
                  msg='deviator of a rotated stress')
        ctx.close('pressure', f('dev_stress', z), f('dev_stress', x),
                  rtol=1e-10, scale=s, msg='deviator sees pressure')
        ctx.close('pressure', f('vol_stress', z), f('vol_stress', x) + p,
                  rtol=1e-10, scale=s, msg='superposed pressure')
    ctx.event('rotated')
    ctx.state(what, 'meta', o)


def refusals(ctx, what):
    rng = ctx.rng
    lab = LABELS[what]
    x = torch.tensor(rng.standard_normal((4, 6)))
    good = {what + '_path': x, what + '_comps_order': COMPS}

    def ds(d):
        return TimeSeriesDatasetInMemory([dict(d), dict(d)])
    for label in lab:
        for k in good:
            ctx.raises('refused', lambda: ADD[what](ds(
                {a: b for a, b in good.items() if a != k}), label), Exception,
                f'{label} without {k}')
        for co in (('11', '22', '12'), ('11', '22', '12', '33')):
            ctx.raises('refused', lambda: ADD[what](ds(
                {what + '_path': x[:, :len(co)].clone(),
                 what + '_comps_order': co}), label), Exception,
                f'{label} of plane components {co}')
    for label in ('i3_' + what, what, lab[0].upper(), ''):
        ctx.raises('refused', lambda: ADD[what](ds(good), label), Exception,
                   f'unknown feature {label}')
    ctx.event('refused')
    ctx.state(what, 'refused')


def cases(tier):
    k = 80 if tier == 'quick' else 300
    out = []
    kinds = ('generic', 'spherical', 'deviatoric', 'uniaxial', 'shear',
             'pressure', 'zero')
    n = 0
    for r in range(k):
        for what in LABELS:
            for c in ('memory', 'subset', 'files', 'subset-files'):
                for kind in kinds:
                    n += 1
                    out.append(('features', dict(
                        what=what, container=c, kind=kind,
                        dt=('float32', 'float64')[(n + r) % 2],
                        n_sample=(13 if (n + r) % 9 == 0 else
                                  1 + (n + r) % 4))))
            for _ in range(10):
                out.append(('metamorphic', dict(what=what)))
            out.append(('refusals', dict(what=what)))
    return out
