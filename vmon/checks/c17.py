"""C17: feature scaling is the fitted affine map and is undone exactly."""
import numpy as np
import torch
from vmon import nn, data as vd
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler
from utilities.fit_data_scalers import fit_data_scaler_from_dataset
from model_architectures.procedures import model_data_scaling as ms
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel

PROPERTY = 'C17'
RULE = ('random feature tables and sequences of wildly different magnitudes '
        '(constant, tiny and huge features, one sample, offsets much larger '
        'than the spread) through every scaler, fitting route, data set '
        'container and model; statistics and transforms are recomputed in '
        'double precision; non-trivial: distinct (scaler, shape, precision, '
        'route, hostile feature)')
ASSUMPTIONS = ['CPU device only', 'finite features']
REQUIRED_EVENTS = ('transform', 'inverse', 'fit', 'constant', 'model',
                   'reload')
CLS = {'min-max': TorchMinMaxScaler, 'mean-std': TorchStandardScaler}
DT = {'f32': torch.float32, 'f64': torch.float64}


def N(t):
    return t.detach().double().numpy()


def table(rng, n, k, hostile=True):
    """n samples of k features, each feature its own magnitude."""
    s = 10**rng.uniform(-8, 6, k)
    x = rng.standard_normal((n, k))*s
    x += s*rng.uniform(-3, 3, k)
    const = []
    if hostile and k > 1 and rng.random() < .5:
        j = int(rng.integers(k))
        x[:, j] = 0. if rng.random() < .5 else \
            float(rng.choice([1., -2.5, 64.]))
        const.append(j)
    return x, const


def stats(kind, x, lo=-1., hi=1.):
    if kind == 'min-max':
        return {'minimum': x.min(0), 'maximum': x.max(0),
                'norm_minimum': lo, 'norm_maximum': hi}
    return {'mean': x.mean(0), 'std': x.std(0)}


def ref_scale(kind, par, x):
    if kind == 'min-max':
        r = par['maximum'] - par['minimum']
        r = np.where(r == 0, 1., r)
        return par['norm_minimum'] + (
            par['norm_maximum'] - par['norm_minimum'])*(
                x - par['minimum'])/r
    return nn.scale(kind, par, x)


def get_stats(kind, sc):
    a, b = sc.get_minimum_and_maximum() if kind == 'min-max' \
        else sc.get_mean_and_std()
    return N(a), N(b)


def scaler(ctx, kind, dim, dt):
    rng = ctx.rng
    k = ctx.size(1, 8, 40)
    n = ctx.size(1, 40, 1500)
    T = ctx.size(1, 9, 40) if dim == 3 else 1
    x, const = table(rng, n*T, k)
    lo, hi = (-1., 1.)
    kw = {}
    if kind == 'min-max' and rng.random() < .5:
        lo, hi = sorted(rng.uniform(-3, 3, 2))
        lo, hi = float(lo), float(hi) + .1
        kw = {'norm_minimum': lo, 'norm_maximum': hi}
    X = torch.tensor(x, dtype=DT[dt])
    if dim == 3:
        X = X.reshape(T, n, k)
    x = N(X).reshape(-1, k)
    par = stats(kind, x, lo, hi)
    sc = CLS[kind](k, **kw)
    keep = X.clone()
    if rng.random() < .4:
        # an earlier fit leaves no trace
        sc.fit(X[..., :1, :]*rng.uniform(-4, 4) + rng.uniform(-9, 9))
        ctx.event('refit')
    sc.fit(X)
    ctx.same('fit-keeps-input', N(X), N(keep))
    e = 1e-10 if dt == 'f64' else 3e-4
    a, b = get_stats(kind, sc)
    want = (par['minimum'], par['maximum']) if kind == 'min-max' \
        else (par['mean'], par['std'])
    mag = np.abs(x).max(0) + 1e-300
    tag = f'{kind} {dim}D {dt} n={n} T={T} k={k} const={const} {kw}'
    ctx.event('fit')
    ctx.close('fit', a/mag, want[0]/mag, rtol=e, scale=1, msg=tag)
    ctx.close('fit', b/mag, want[1]/mag, rtol=e, scale=1, msg=tag)
    # the same numbers given rather than fitted behave the same
    if rng.random() < .5:
        given = CLS[kind](k, *[torch.tensor(v, dtype=DT[dt]) for v in want],
                          **kw)
    else:
        given = CLS[kind](k, **kw)
        v = [torch.tensor(v, dtype=DT[dt]) for v in want]
        if kind == 'min-max':
            if rng.random() < .5:
                given.set_minimum_and_maximum(*v)
            else:
                given.set_minimum(v[0])
                given.set_maximum(v[1])
        elif rng.random() < .5:
            given.set_mean_and_std(*v)
        else:
            given.set_mean(v[0])
            given.set_std(v[1])
    ctx.state(kind, dim, dt, bool(const), n == 1, k == 1, bool(kw))
    # new data, also outside the fitted range
    m = int(rng.integers(1, 12))
    y = x[rng.integers(0, len(x), m)] + (
        0 if rng.random() < .3 else par.get('std', 1e-3*mag))*rng.uniform(
            -4, 4, (m, k))
    y[:, const] = x[0, const]     # a constant feature carries no scale
    if len(x) == 1:
        y[:] = x[0]
    Y = torch.tensor(y, dtype=DT[dt])
    if dim == 3:
        Y = Y.reshape(1, m, k) if rng.random() < .5 else Y.reshape(m, 1, k)
    y = N(Y).reshape(-1, k)
    for who, s in (('fitted', sc), ('given', given)):
        kp = Y.clone()
        Z = s.transform(Y, is_check_data=bool(rng.random() < .5))
        ctx.same('transform-keeps-input', N(Y), N(kp))
        ctx.same('transform-shape', tuple(Z.shape), tuple(Y.shape))
        z = N(Z).reshape(-1, k)
        # judge features whose spread is resolved in this precision
        p2 = dict(par)
        if kind == 'min-max':
            spread = par['maximum'] - par['minimum']
            p2['minimum'], p2['maximum'] = get_stats(kind, s)
        else:
            spread = par['std']
            p2['mean'], p2['std'] = get_stats(kind, s)
        good = spread > (1e-9 if dt == 'f64' else 1e-2)*mag
        ctx.ok('transform-finite', np.isfinite(z).all(), tag)
        if good.any():
            w = ref_scale(kind, p2, y)[:, good]
            ctx.event('transform')
            ctx.close('transform', z[:, good], w,
                      rtol=1e-5 if dt == 'f64' else 2e-3,
                      scale=max(1., np.abs(w).max()), msg=f'{who} {tag}')
        back = N(s.inverse_transform(Z)).reshape(-1, k)
        ctx.event('inverse')
        g2 = good | (spread == 0)
        big = np.maximum(mag, np.abs(y).max(0))
        ctx.close('inverse', (back/big)[:, g2], (y/big)[:, g2],
                  rtol=1e-9 if dt == 'f64' else 1e-4, scale=1,
                  msg=f'{who} {tag}')
    # fitted data lands where promised
    z = N(sc.transform(X)).reshape(-1, k)
    for j in range(k):
        if j in const:
            ctx.event('constant')
            ctx.ok('constant-finite', np.isfinite(z[:, j]).all(), tag)
            ctx.ok('constant-stays-constant', np.ptp(z[:, j]) <= 1e-3, tag)
            continue
        if spread_small(x[:, j], dt):
            continue
        if kind == 'min-max':
            ctx.close('range', [z[:, j].min(), z[:, j].max()], [lo, hi],
                      rtol=1e-6 if dt == 'f64' else 2e-3, scale=3, msg=tag)
        else:
            ctx.close('standard', [z[:, j].mean(), z[:, j].std()], [0, 1],
                      rtol=1e-6 if dt == 'f64' else 5e-3, scale=1, msg=tag)
    # one sample at a time, in any grouping
    flat = torch.tensor(y, dtype=DT[dt])
    rows = torch.cat([sc.transform(flat[i:i+1]) for i in range(m)])
    ctx.close('sample-wise', N(rows), N(sc.transform(flat)), rtol=1e-12,
              scale=max(1., float(rows.abs().max())), msg=tag)


def spread_small(v, dt):
    return np.ptp(v) <= (1e-9 if dt == 'f64' else 1e-1)*np.abs(v).max()


def bessel(ctx):
    x = ctx.rng.standard_normal((int(ctx.rng.integers(2, 9)), 3))
    s = TorchStandardScaler(3)
    s.fit(torch.tensor(x), is_bessel=True)
    ctx.close('bessel', N(s.get_mean_and_std()[1]), x.std(0, ddof=1),
              rtol=1e-9, scale=1)
    ctx.event('fit')


def dataset_fit(ctx, kind, container, route):
    """Statistics are those of all time steps of all samples."""
    rng = ctx.rng
    k = int(rng.integers(1, 6))
    kout = int(rng.integers(1, 6))
    n = ctx.size(1, 9, 130)
    scales = {'features_in': table(rng, 300, k), 'features_out': table(
        rng, 300, kout)}
    dt = DT[str(rng.choice(['f32', 'f64']))]
    samples = []
    for _ in range(n):
        L = ctx.size(1, 12, 120)
        pick = rng.integers(0, 300, L)
        samples.append({f: torch.tensor(scales[f][0][pick], dtype=dt)
                        for f in scales})
    ds, idx = vd.contain(ctx, samples, container)
    used = [samples[i] for i in idx]
    opts = {}
    lo, hi = -1., 1.
    if kind == 'min-max' and rng.random() < .5:
        lo, hi = 0., 1.
        opts = {f: {'norm_minimum': 0., 'norm_maximum': 1.} for f in scales}
    got = {}
    model = None
    if route == 'direct':
        for f, m in (('features_in', k), ('features_out', kout)):
            got[f] = fit_data_scaler_from_dataset(ds, f, m, kind, opts)
    else:
        model = GRURNNModel(k, kout, 3, ctx.tmpdir(),
                            is_model_in_normalized=True,
                            is_model_out_normalized=True)
        ms.fit_data_scalers(model, ds, kind, opts)
        got = {f: ms.get_fitted_data_scaler(model, f) for f in scales}
        ctx.event('model')
    tag = f'{kind} {container} {route} n={len(used)} {dt}'
    ctx.state('dataset', kind, container, route, str(dt), len(used), k)
    for f in scales:
        x = np.concatenate([N(s[f]) for s in used])
        par = stats(kind, x, lo, hi)
        mag = np.abs(x).max(0) + 1e-300
        a, b = get_stats(kind, got[f])
        w = (par['minimum'], par['maximum']) if kind == 'min-max' else \
            (par['mean'], par['std'])
        ctx.event('fit')
        e = 1e-9 if dt == torch.float64 else 1e-5
        ctx.close('dataset-fit', a/mag, w[0]/mag, rtol=e, scale=1,
                  msg=f'{f} {tag}')
        # a spread lost in rounding is not compared
        ctx.close('dataset-fit', b/mag, w[1]/mag, rtol=max(e, 1e-7),
                  scale=1, msg=f'{f} {tag}')
        if kind == 'min-max':
            one = torch.tensor(x, dtype=torch.float64)
            z = N(got[f].transform(one))
            good = [j for j in range(x.shape[1])
                    if not spread_small(x[:, j], 'f32')]
            ctx.close('range', z[:, good].min(0), lo*np.ones(len(good)),
                      rtol=1e-6, scale=1, msg=tag)
            ctx.close('range', z[:, good].max(0), hi*np.ones(len(good)),
                      rtol=1e-6, scale=1, msg=tag)


def model(ctx, kind, route):
    """A model's scalers: set, used, written to file and read back."""
    rng = ctx.rng
    k, kout = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    d = ctx.tmpdir()
    m = GRURNNModel(k, kout, 3, d, is_model_in_normalized=True,
                    is_model_out_normalized=True)
    ctx.raises('unfitted', lambda: ms.data_scaler_transform(
        m, torch.zeros(2, k), 'features_in'), RuntimeError)
    par = {}
    for f, n in (('features_in', k), ('features_out', kout)):
        x, _ = table(rng, 30, n, False)
        par[f] = stats(kind, x)
        if rng.random() < .5:
            par[f].pop('norm_minimum', None)
            par[f].pop('norm_maximum', None)
    tp = {f: {a: (torch.tensor(v) if isinstance(v, np.ndarray) else v)
              for a, v in p.items()} for f, p in par.items()}
    if route == 'fitted':
        ms.set_fitted_data_scalers(m, kind, tp)
    else:
        ms.set_data_scalers(m, CLS[kind](k, **tp['features_in']),
                            CLS[kind](kout, **tp['features_out']))
    ctx.event('model')
    again = GRURNNModel.init_model_from_file(d)
    other = GRURNNModel(k, kout, 3, ctx.tmpdir(),
                        is_model_in_normalized=True,
                        is_save_model_init_file=False)
    other.model_directory = d
    ms.load_model_data_scalers_from_file(other)
    ctx.event('reload')
    ctx.state('model', kind, route, k, kout)
    for f, n in (('features_in', k), ('features_out', kout)):
        x, _ = table(rng, int(rng.integers(1, 9)), n, False)
        full = {'norm_minimum': -1., 'norm_maximum': 1., **par[f]}
        mid = par[f].get('mean', par[f].get('minimum'))
        wid = par[f].get('std', par[f].get('maximum', 0) - par[f].get(
            'minimum', 0))
        x = mid + wid*rng.uniform(-3, 3, x.shape)
        for dt in ('f32', 'f64'):
            X = torch.tensor(x, dtype=DT[dt])
            shape3 = rng.random() < .5
            if shape3:
                X = X[:, None, :]
            for who in (m, again, other):
                z = ms.data_scaler_transform(who, X, f, 'normalize')
                ctx.same('dtype', str(z.dtype), str(DT[dt]))
                ctx.same('shape', tuple(z.shape), tuple(X.shape))
                ctx.event('transform')
                if dt == 'f64':
                    ctx.close('model-transform', N(z).reshape(-1, n),
                              ref_scale(kind, full, x), rtol=1e-6,
                              scale=np.abs(x/wid).max() + 5)
                    y = ms.data_scaler_transform(who, z, f, 'denormalize')
                    ctx.event('inverse')
                    ctx.close('model-inverse', N(y).reshape(-1, n)/wid,
                              x/wid, rtol=1e-9,
                              scale=np.abs(x/wid).max() + 5)
    ctx.raises('mode', lambda: ms.data_scaler_transform(
        m, torch.zeros(2, k), 'features_in', mode='x'), RuntimeError)


def rejects(ctx):
    for kind, c in CLS.items():
        for bad in (0, -1, 1.5, '2'):
            ctx.raises('n-features', lambda: c(bad), RuntimeError)
        s = c(3, torch.zeros(3), torch.ones(3))
        for bad in (torch.zeros(2, 2), torch.zeros(3), [[1., 2., 3.]],
                    torch.zeros(1, 1, 1, 3), np.zeros((2, 3))):
            ctx.raises('tensor', lambda: s.transform(bad), RuntimeError)
            ctx.raises('tensor', lambda: s.inverse_transform(bad),
                       RuntimeError)
            ctx.raises('tensor', lambda: s.fit(bad), RuntimeError)
        for bad in (torch.zeros(2), [0., 0., 0.]):
            ctx.raises('statistics', lambda: c(3, bad, torch.ones(3)),
                       RuntimeError)
            ctx.raises('statistics', lambda: c(3, torch.ones(3), bad),
                       RuntimeError)
    ds, _ = vd.contain(ctx, [{'features_in': torch.zeros(3, 2)}], 'memory')
    ctx.raises('features', lambda: fit_data_scaler_from_dataset(
        ds, 'features_in', 3), RuntimeError)
    ctx.raises('features', lambda: fit_data_scaler_from_dataset(
        ds, 'other', 2), RuntimeError)
    ctx.raises('scaling-type', lambda: fit_data_scaler_from_dataset(
        ds, 'features_in', 2, 'x'), RuntimeError)


def gradient(ctx, kind):
    """Scaling is differentiable: slopes are those of the affine map."""
    rng = ctx.rng
    k = int(rng.integers(1, 5))
    x, _ = table(rng, 20, k, False)
    s = CLS[kind](k)
    s.fit(torch.tensor(x))
    y = torch.tensor(x[:3], requires_grad=True)
    w = torch.tensor(rng.standard_normal((3, k)))
    (g,) = torch.autograd.grad((s.transform(y)*w).sum(), y)
    p = stats(kind, x)
    sl = 2/(p['maximum'] - p['minimum']) if kind == 'min-max' else 1/p['std']
    ctx.close('slope', N(g)/sl, N(w), rtol=1e-6, scale=3)
    y = torch.tensor(rng.standard_normal((3, k)), requires_grad=True)
    (g,) = torch.autograd.grad((s.inverse_transform(y)*w).sum(), y)
    ctx.close('slope', N(g)*sl, N(w), rtol=1e-6, scale=3)
    ctx.state('gradient', kind, k)


def cases(tier):
    out = [('rejects', {})]
    for r in range(400 if tier == 'quick' else 4000):
        for kind in CLS:
            for dim in (2, 3):
                for dt in DT:
                    out.append(('scaler', {'kind': kind, 'dim': dim,
                                           'dt': dt}))
            out.append(('gradient', {'kind': kind}))
            for route in ('fitted', 'set'):
                out.append(('model', {'kind': kind, 'route': route}))
            for c in ('memory', 'files', 'subset'):
                out.append(('dataset_fit', {
                    'kind': kind, 'container': c,
                    'route': ('direct', 'model')[(r + len(c)) % 2]}))
        out.append(('bessel', {}))
    return out
