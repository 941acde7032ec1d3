"""C24: added noise has the stated distribution, noisy data sets are the
response to the noisy strains, and denoising is the stated linear filter."""
import numpy as np
import torch
from vmon import mat, rc, ref
from vmon.checks.c23 import verify
from data_generation.strain_paths.noise_generator import NoiseGenerator
from time_series_data import time_dataset as td
from utilities.data_denoisers import Denoiser
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler
from user_scripts.synthetic_data.gen_noisy_response_dataset import \
    NoisyMaterialResponseDatasetGenerator

PROPERTY = 'C24'
RULE = ('large noise samples of every distribution and variability compared '
        'with the moments, ranges and spike rates of their parameters; noisy '
        'data sets of random materials compared, path by path, with the '
        'stored noise, the scaling and a fresh material driven along the '
        'noisy strains; random signals of both precisions through each '
        'denoising filter compared with direct sums, least squares fits and '
        'discrete Fourier sums; non-trivial: distinct option classes')
ASSUMPTIONS = ['statistical bounds exceeded with probability below 1e-9',
               'odd windows for polynomial smoothing',
               'state updates are judged by C05 to C13']
REQUIRED_EVENTS = ('uniform', 'gaussian', 'spiked_gaussian',
                   'heteroscedastic', 'homoscedastic', 'noisy-dataset',
                   'scaled-noise', 'denoised-dataset', 'average',
                   'savitzky_golay', 'low-pass', 'mixed-precision',
                   'noiseless', 'failed-update', 'cut-at-frequency')


def rand_params(rng, dist):
    if dist == 'uniform':
        return {'amp': float(rng.choice([-1, 1])*10**rng.uniform(-3, 0))}
    p = {'std': float(10**rng.uniform(-3, 0))}
    if dist == 'spiked_gaussian':
        p.update(spike=float(p['std']*rng.uniform(20, 60)),
                 p_spike=float(rng.uniform(.05, .5)))
    return p


def make(dist, par, rng=None):
    g = NoiseGenerator()
    if rng is not None and rng.random() < .5:
        # an earlier request leaves no trace
        old = str(rng.choice(['uniform', 'gaussian', 'spiked_gaussian']))
        g.set_noise_distribution(old)
        g.set_noise_parameters(rand_params(rng, old))
    g.set_noise_distribution(dist)
    g.set_noise_parameters(par)
    return g


def noise(ctx, dist, het):
    rng = ctx.rng
    np.random.seed(int(rng.integers(1 << 30)))
    par = rand_params(rng, dist)
    g = make(dist, dict(par), rng)
    n, k = 6000, int(rng.integers(1, 5))
    x = rng.standard_normal((n, k))
    keep = x.copy()
    w = None
    kw = {'noise_variability': 'homoscedastic'}
    if het:
        kw['noise_variability'] = 'heteroscedastic'
        if rng.random() < .8:
            w = rng.choice([0., .5, 2., 5.], n)
            kw['heteroscedastic_weights'] = w.copy()
    z = g.generate_noise_path(x, **kw)
    tag = f'{dist} {par} het={het}'
    ctx.ok('input', np.array_equal(x, keep), f'{tag}: signal changed')
    ctx.same('shape', z.shape, (n, k), tag)
    ww = np.zeros(n) if not het else (np.ones(n) if w is None else w)
    for v in np.unique(ww):
        q = z[ww == v]
        m = q.size
        if dist == 'uniform':
            a = abs(par['amp'])/2
            ctx.le('range', np.abs(q).max(), a*(1 + v)*(1 + 1e-12),
                   msg=f'{tag}: weight {v}')
            if not het:
                ctx.ok('range', np.abs(q).max() > .98*a, f'{tag}: narrow')
            var = a*a*(1 + v*v)/3
            base = q
        else:
            base = q
            if dist == 'spiked_gaussian':
                # spikes are far from the bulk
                sd = par['std']*np.sqrt(1 + v*v)
                hit = q > par['spike']/2
                if par['spike'] > 14*sd:
                    f = par['p_spike']
                    ctx.le('spikes', abs(hit.mean() - f),
                           6.5*np.sqrt(f*(1 - f)/m), msg=f'{tag}: rate')
                    base = q - par['spike']*hit
                    ctx.le('spikes', np.abs(base).max(), 7*sd,
                           msg=f'{tag}: size of spikes')
                else:
                    f = par['p_spike']
                    mu = f*par['spike']
                    var = sd**2 + f*(1 - f)*par['spike']**2
                    ctx.le('mean', abs(q.mean() - mu),
                           6.5*np.sqrt(var/m), msg=f'{tag}: weight {v}')
                    continue
            var = par['std']**2*(1 + v*v)
        sd = np.sqrt(var)
        ctx.le('mean', abs(base.mean()), 6.5*sd/np.sqrt(m),
               msg=f'{tag}: weight {v}')
        ctx.le('deviation', abs(base.std()/sd - 1), 6.5*np.sqrt(.5/m) + .01,
               msg=f'{tag}: weight {v}, {base.std()} for {sd}')
        if dist != 'uniform':
            kurt = ((base/sd)**4).mean()
            ctx.le('shape', abs(kurt - 3), 7*np.sqrt(96/m),
                   msg=f'{tag}: weight {v}, kurtosis')
    if k > 1:
        c = np.corrcoef(z.T) - np.eye(k)
        ctx.le('independent', np.abs(c).max(), 6.5/np.sqrt(n),
               msg=f'{tag}: features share noise')
    c = np.corrcoef(z[:-1, 0], z[1:, 0])[0, 1]
    ctx.le('independent', abs(c), 6.5/np.sqrt(n), msg=f'{tag}: in time')
    ctx.event(dist)
    ctx.event('heteroscedastic' if het else 'homoscedastic')
    ctx.raises('rejected', lambda: NoiseGenerator().set_noise_distribution(
        'pink'), RuntimeError, 'unknown distribution')
    short = dict(par)
    short.pop(next(iter(short)))
    ctx.raises('rejected', lambda: make(dist, short), RuntimeError,
               f'{short} accepted')
    ctx.state(dist, het, k, w is None)


def dataset(ctx, name):
    rng = ctx.rng
    dt = torch.float64 if rng.random() < .6 else torch.float32
    torch.set_default_dtype(dt)
    tol = 1e-7 if dt == torch.float64 else 2e-3
    eps = 1e-12 if dt == torch.float64 else 1e-5
    np.random.seed(int(rng.integers(1 << 30)))
    dim = 2 if rng.random() < .5 else 3
    comps = ref.SYM[dim]
    spec = mat.Spec(rng, name, tame=True)
    m = spec.yield_strain()*10**rng.uniform(-.5, .5)
    f = rng.uniform(.3, 1)
    bounds = {c: (-m*f, m) for c in comps}
    n_time = ctx.size(3, 12, 60)
    n_path = ctx.size(1, 5, 16)
    g = NoisyMaterialResponseDatasetGenerator('infinitesimal', mat.PT[dim])
    state = {}
    if rng.random() < .6:
        state = {'e_strain_mf': len(comps), 'acc_p_strain': 1,
                 'nothing_such': 3}
    model = spec.build(dim)
    hit = []
    if rng.random() < .4:
        # a state update which fails now and then (and then answers rubbish)
        su = model.state_update

        def flaky(*a, **q):
            out = su(*a, **q)
            if rng.random() < .3/n_time:
                hit.append(1)
                out[0]['is_su_fail'] = True
                out[0]['stress_mf'] = out[0]['stress_mf']*0 + 1e3*spec.E
            return out
        model.state_update = flaky
    try:
        ds = g.generate_noiseless_dataset(
            n_path, 'random', dict(strain_bounds=bounds, n_time=n_time,
                                   n_control=4), model, state_features=state)
    except RuntimeError as e:
        if 'maximum of number of trials' in str(e):
            return
        raise
    ctx.same('size', len(ds), n_path, 'paths')
    clean = [{k: (v.clone() if isinstance(v, torch.Tensor) else v)
              for k, v in ds[i].items()} for i in range(n_path)]
    for i, s in enumerate(clean):
        verify(ctx, s, spec, dim, n_time, state, tol, dt, f'noiseless {i}')
    ctx.event('noiseless')
    if rng.random() < .3:
        # paths of very different sizes
        k = 10**rng.uniform(-2, -1)
        rows = [dict(s) for s in clean]
        st = rc.drive(spec.build(dim), dim,
                      clean[0]['strain_path'].double().numpy()*k, dtype=dt)
        if rc.first_bad(st) == len(st):
            rows[0]['strain_path'] = clean[0]['strain_path']*k
            rows[0]['stress_path'] = torch.tensor(rc.stress_rows(st, dim),
                                                  dtype=dt)
            clean = rows
            ds = td.TimeSeriesDatasetInMemory(
                [{q: (v.clone() if isinstance(v, torch.Tensor) else v)
                  for q, v in s.items()} for s in clean])
    # noise
    dist = str(rng.choice(['uniform', 'gaussian', 'spiked_gaussian']))
    scaled = rng.random() < .5
    par = rand_params(rng, dist)
    unit = 1. if scaled else m
    par = {k: (v if k == 'p_spike' else v*unit*.05) for k, v in par.items()}
    ng = make(dist, par)
    scaler = None
    lo = torch.tensor([bounds[c][0] for c in comps])
    hi = torch.tensor([bounds[c][1] for c in comps])
    if scaled:
        if rng.random() < .5:
            scaler = TorchMinMaxScaler(len(comps), minimum=lo, maximum=hi)
            A = 2/(hi - lo).double().numpy()
        else:
            scaler = TorchStandardScaler(len(comps), mean=(lo + hi)/2,
                                         std=(hi - lo)/3)
            A = 3/(hi - lo).double().numpy()
        ctx.event('scaled-noise')
    else:
        A = np.ones(len(comps))
    het = rng.random() < .5
    norm = None
    if het and rng.random() < .5:
        norm = float(m*rng.uniform(.5, 2))
    dn = rng.random() < .35
    kw = dict(strain_data_scaler=scaler, state_features=state,
              noise_variability='heteroscedastic' if het else
              'homoscedastic', heteroscedastic_normalizer=norm,
              is_denoise_strain_path=dn)
    seen = []
    real = ng.generate_noise_path

    def watch(path, *a, **q):
        w = q.get('heteroscedastic_weights', a[1] if len(a) > 1 else None)
        seen.append((np.array(path), None if w is None else np.array(w)))
        return real(path, *a, **q)
    ng.generate_noise_path = watch
    try:
        out = g.generate_noisy_dataset(ds, ng, model, **kw)
    except RuntimeError as e:
        if 'maximum of number of trials' in str(e):
            ctx.event('gave-up')
            return
        raise
    tag = f'{name} {dist} scaled={scaled} het={het} norm={norm} denoise={dn}'
    ctx.same('size', len(out), n_path, tag)
    for i in range(n_path):
        s, w = out[i], clean[i]
        for k, v in w.items():
            now = ds[i][k]
            ctx.ok('noiseless-kept', torch.equal(now, v) if isinstance(
                v, torch.Tensor) else now == v, f'{tag}: {k} changed')
        e = s['strain_noise_path'].double().numpy()
        p0, p = (q['strain_path'].double().numpy() for q in (w, s))
        ctx.ok('null-start', np.all(e[0] == 0), f'{tag}: initial noise')
        want = p0 + e/A
        if dn:
            win = 5
            pad = np.concatenate([np.repeat(want[:1], win//2, 0), want,
                                  np.repeat(want[-1:], win//2, 0)])
            want = np.array([pad[t:t + win].mean(0) for t in range(n_time)])
            want[0] = p0[0]
            ctx.event('denoised-dataset')
        ctx.close('noisy-strain', p, want, rtol=eps*100, scale=m,
                  msg=f'{tag}: path {i}')
        # noise of the size asked for
        if het:
            nrm = np.linalg.norm([rc.tensor_of(r, dim) for r in p0],
                                 axis=(1, 2))
            wt = nrm/(nrm.max() if norm is None else norm)
        else:
            wt = np.zeros(n_time)
        if dist == 'uniform':
            cap = abs(par['amp'])/2*(1 + wt)
            ctx.ok('noise-size', np.all(np.abs(e) <= cap[:, None]*(1 + 1e-5)),
                   f'{tag}: path {i} noise {np.abs(e).max(1)} over {cap}')
        else:
            cap = 9*par['std']*(1 + wt) + par.get('spike', 0)
            ctx.ok('noise-size', np.all(np.abs(e) <= cap[:, None]),
                   f'{tag}: path {i} noise')
        ctx.ok('noise-size', n_time < 3 or np.abs(e[1:]).max() > 0,
               f'{tag}: no noise')
        if het:
            ws = [q for x, q in seen if x.shape == p0.shape and
                  np.allclose(x, p0, rtol=1e-5, atol=1e-12)]
            ctx.ok('weights', bool(ws) and all(
                q is not None and np.allclose(q, wt, rtol=1e-4)
                for q in ws), f'{tag}: path {i} weights {ws[:1]} for {wt}')
        verify(ctx, s, spec, dim, n_time, state, tol, dt, f'{tag}: path {i}')
        ctx.close('stress-noise', s['stress_noise_path'].double().numpy(),
                  (s['stress_path'] - w['stress_path']).double().numpy(),
                  rtol=1e-4 if dt == torch.float32 else 1e-9,
                  scale=float(s['stress_path'].abs().max()) + 1e-9,
                  msg=f'{tag}: path {i}')
        ctx.ok('time', torch.equal(s['time_hist'], w['time_hist']),
               f'{tag}: time history')
    ctx.event('noisy-dataset')
    if hit:
        ctx.event('failed-update', len(hit))
    ctx.state('dataset', name, dist, scaled, het, norm is None, dn, dim)


def denoise(ctx, method):
    rng = ctx.rng
    default = torch.float64 if rng.random() < .5 else torch.float32
    torch.set_default_dtype(default)
    dt = torch.float64 if rng.random() < .5 else torch.float32
    if dt != default:
        ctx.event('mixed-precision')
    tol = 1e-10 if dt == torch.float64 else 2e-4
    n, k = ctx.size(1, 60, 400, .03), ctx.size(1, 6, 12)
    x = rng.standard_normal((n, k))*10**rng.uniform(-4, 4)
    if rng.random() < .3:
        x = np.repeat(x[:1], n, 0)
    t = torch.tensor(x, dtype=dt)
    x = t.double().numpy()
    keep = t.clone()
    cyc = int(rng.integers(0, 4))
    if method == 'moving_average':
        win = int(rng.integers(1, 12))
        par = {'window_size': win}
        L = win//2
        W = np.zeros((n, n))
        for i in range(n):
            for q in range(i - L, i - L + win):
                W[i, min(max(q, 0), n - 1)] += 1/win
    elif method == 'savitzky_golay':
        h = int(rng.integers(1, 7))
        win = 2*h + 1
        deg = int(rng.integers(0, min(win - 1, 5) + 1))
        par = {'window_size': win, 'poly_order': deg}
        z = np.arange(-h, h + 1)/h
        row = np.linalg.pinv(np.vander(z, deg + 1, increasing=True))[0]
        W = np.zeros((n, n))
        for i in range(n):
            for a, q in zip(row, range(i - h, i + h + 1)):
                W[i, min(max(q, 0), n - 1)] += a
    else:
        # cut between two sampled frequencies
        m = int(rng.integers(0, n//2 + 1))
        par = {'cutoff_frequency': (m + .5)/n if rng.random() < .7
               else float(rng.uniform(0, .6))}
        F = np.exp(-2j*np.pi*np.outer(np.arange(n), np.arange(n))/n)
        f = np.minimum(np.arange(n), n - np.arange(n))/n
        if rng.random() < .3:
            # a frequency of the signal which both precisions represent
            n = int(2**rng.integers(1, 6))
            x = rng.standard_normal((n, k))
            t = torch.tensor(x, dtype=dt)
            x, keep = t.double().numpy(), t.clone()
            F = np.exp(-2j*np.pi*np.outer(np.arange(n), np.arange(n))/n)
            f = np.minimum(np.arange(n), n - np.arange(n))/n
            par = {'cutoff_frequency': float(rng.choice(f))}
            ctx.event('cut-at-frequency')
        elif np.abs(f - par['cutoff_frequency']).min() < 1e-6:
            return
        W = (np.conj(F) @ np.diag((f <= par['cutoff_frequency'])*1.) @ F
             ).real/n
    y = Denoiser().denoise(t, method, denoise_parameters=dict(par),
                           n_denoise_cycle=cyc)
    tag = f'{method} {par} n={n} cycles={cyc} {dt}'
    want = np.linalg.matrix_power(W, cyc) @ x
    ctx.ok('input', torch.equal(t, keep), f'{tag}: signal changed')
    ctx.same('shape', tuple(y.shape), (n, k), tag)
    ctx.ok('precision', y.dtype == dt, f'{tag}: {y.dtype}')
    ctx.close('filter', y.double().numpy(), want, rtol=tol,
              scale=np.abs(x).max()*np.abs(W).sum(1).max()**cyc + 1e-30,
              msg=tag)
    ctx.raises('rejected', lambda: Denoiser().denoise(t[:, 0], method, par),
               RuntimeError, 'vector accepted')
    ctx.event({'moving_average': 'average', 'frequency_low_pass': 'low-pass'
               }.get(method, method))
    ctx.state(method, min(n, 5), k > 1, cyc, str(dt), dt == default)


def cases(tier):
    r = 6 if tier == 'quick' else 60
    out = []
    for d in ('uniform', 'gaussian', 'spiked_gaussian'):
        for h in (False, True):
            out += [('noise', {'dist': d, 'het': h})]*(6*r)
    for m in ('elastic', 'von_mises', 'drucker_prager', 'von_mises_mixed'):
        out += [('dataset', {'name': m})]*(25*r)
    for m in ('moving_average', 'savitzky_golay', 'frequency_low_pass'):
        out += [('denoise', {'method': m})]*(150*r)
    return out
