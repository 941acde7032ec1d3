"""C23: generated strain paths obey their specification and response data
sets pair each strain path with the stress the material answers."""
import os
import numpy as np
import pandas
import torch
from vmon import mat, rc, ref
from data_generation.strain_paths.interface import StrainPathGenerator
from data_generation.strain_paths.random_path import RandomStrainPathGenerator
from data_generation.strain_paths.proportional_path import \
    ProportionalStrainPathGenerator
from time_series_data import time_dataset as td
from user_scripts.synthetic_data.gen_response_dataset import \
    MaterialResponseDatasetGenerator

PROPERTY = 'C23'
RULE = ('random generation requests (dimension, bounds of any asymmetry, '
        'number of times, control points, increments, noise, cycles, seeds) '
        'and response data sets of random materials, of .csv files and of '
        'stored strain data sets; each path is checked against its request '
        'and each stress against a fresh material driven along the stored '
        'strains; non-trivial: distinct request classes')
ASSUMPTIONS = ['sampling bounds contain the null strain',
               'infinitesimal strains for response data sets',
               'state updates are judged by C05 to C13']
REQUIRED_EVENTS = ('random', 'proportional', 'gaussian_process', 'cyclic',
                   'increment', 'noise', 'seeded', 'one-sided', 'asymmetric',
                   'constant', 'still', 'rejected', 'response', 'files', 'csv',
                   'csv-skipped', 'from-strains', 'state', 'invariants',
                   'spread', 'control-points')
NSYM = {2: ('11', '21', '12', '22'),
        3: ('11', '21', '31', '12', '22', '32', '13', '23', '33')}


def T(rows, dim, sym):
    comps = ref.SYM[dim] if sym else NSYM[dim]
    out = []
    for r in rows:
        t = np.zeros((dim, dim))
        for x, c in zip(r, comps):
            i, j = int(c[0]) - 1, int(c[1]) - 1
            t[i, j] = x
            if sym:
                t[j, i] = x
        out.append(t)
    return np.array(out)


def rand_bounds(ctx, comps, allow_const=True):
    rng = ctx.rng
    out, kinds = {}, set()
    mag = 10**rng.uniform(-4, -.5)
    mix = rng.random()
    for c in comps:
        k = 'symmetric'
        if mix < .6:
            k = str(rng.choice(['symmetric', 'asymmetric', 'one-sided'] +
                               ['constant']*allow_const))
        a = mag*rng.uniform(.2, 1)
        if k == 'symmetric':
            b = (-a, a)
        elif k == 'asymmetric':
            f = 10**rng.uniform(-2, 0)
            b = (-a*f, a) if rng.random() < .5 else (-a, a*f)
        elif k == 'one-sided':
            b = (0., a) if rng.random() < .5 else (-a, 0.)
        else:
            b = (0., 0.) if rng.random() < .5 else (a, a)
        out[c] = tuple(float(x) for x in b)
        kinds.add(k)
    if all(b[0] == b[1] for b in out.values()):
        out[comps[0]] = (-mag, mag)
    if allow_const and rng.random() < .08:
        # a path which stands still
        out = {c: (0., 0.) for c in comps}
        kinds = {'constant', 'still'}
    return out, kinds, mag


def paths(ctx, kind, generative='polynomial'):
    rng = ctx.rng
    dim = 2 if rng.random() < .5 else 3
    sym = rng.random() < .8
    comps = ref.SYM[dim] if sym else NSYM[dim]
    gen = (RandomStrainPathGenerator if kind == 'random' else
           ProportionalStrainPathGenerator)(
        'infinitesimal' if sym else 'finite', dim)
    bounds, kinds, mag = rand_bounds(ctx, comps)
    cyc = int(rng.integers(1, 5)) if rng.random() < .35 else \
        [None, 0][int(rng.integers(2))]
    n = ctx.size(2, 40, 500)
    if cyc:
        n = ctx.size(2*cyc + 1, 2*cyc + 40, 500)
    t0 = float(rng.choice([0., 1.5, -2.]))
    t1 = t0 + float(10**rng.uniform(-2, 2))
    inc = float(mag*10**rng.uniform(-2, 0)) if sym and rng.random() < .3 \
        else None
    std = None
    if rng.random() < .3:
        std = 0. if rng.random() < .4 else float(mag*10**rng.uniform(-3, -1))
    kw = dict(strain_bounds=dict(bounds), n_time=n, time_init=t0, time_end=t1,
              inc_strain_norm=inc, strain_noise_std=std, n_cycle=cyc)
    if kind == 'random':
        nc = ctx.size(2, 8, 16)
        kw['n_control'] = nc if rng.random() < .5 else \
            (nc, nc + int(rng.integers(0, 3)))
        kw['generative_type'] = generative
    seed = int(rng.integers(1 << 20)) if rng.random() < .85 else 0
    tag = (f'{kind} {generative} dim={dim} n={n} cycles={cyc} inc={inc} '
           f'noise={std} bounds={bounds}')
    np.random.seed(int(rng.integers(1 << 30)))
    order, time, path = gen.generate_strain_path(**kw, random_seed=seed)
    # fitted curves repeat to rounding (linear algebra is not bitwise
    # repeatable), and rarely a fit settles on another optimum: two equal
    # paths among a few are enough, as unseeded paths never agree
    seen, ok = [path], False
    while not ok and len(seen) < 5:
        p = gen.generate_strain_path(**kw, random_seed=seed)[2]
        ok = any(q.shape == p.shape and
                 np.abs(q - p).max() <= 1e-7*mag for q in seen)
        seen.append(p)
    ctx.ok('seeded', ok, f'{tag}: same seed, another path')
    ctx.event('seeded')
    ctx.ok('request', kw['strain_bounds'] == bounds, f'{tag}: bounds changed')
    ctx.same('order', tuple(order), comps, tag)
    ctx.same('shape', path.shape, (n, len(comps)), tag)
    ctx.close('time', np.ravel(time), np.linspace(t0, t1, n), rtol=1e-12,
              atol=1e-12, msg=tag)
    ctx.ok('finite', np.all(np.isfinite(path)), f'{tag}: {path}')
    if not np.all(np.isfinite(path)):
        return
    exact = generative == 'polynomial'
    nf = n if not cyc else (n - 1)//(2*cyc) + 1
    fwd = path[:nf]
    noisy = std not in (None, 0.)
    for j, c in enumerate(comps):
        lo, hi = bounds[c]
        w = hi - lo
        if lo == hi:
            if inc is None and not noisy:
                ctx.ok('constant', np.all(path[:, j] == lo),
                       f'{tag}: component {c} of equal bounds')
                ctx.event('constant')
            continue
        if exact:
            ctx.ok('null-start', abs(path[0, j]) <= 1e-6*w,
                   f'{tag}: component {c} starts at {path[0, j]}')
        else:
            ctx.ok('null-start', abs(path[0, j]) <= .1*w,
                   f'{tag}: component {c} starts at {path[0, j]}')
        if inc is None and not noisy:
            ctx.ok('bounds', path[:, j].min() >= lo - 1e-9*w and
                   path[:, j].max() <= hi + 1e-9*w,
                   f'{tag}: component {c} in [{path[:, j].min()}, '
                   f'{path[:, j].max()}]')
            if kind == 'random' and exact and nf > 12:
                # a sampled component is not lost to its bounds
                ctx.ok('bounds', np.ptp(path[:, j]) > 0 or kinds != {
                    'symmetric'}, f'{tag}: component {c} vanished')
        if kind == 'random' and exact and inc is None and not noisy \
                and lo == -hi and nf > 10:
            top = kw['n_control']
            top = (top if isinstance(top, int) else top[1]) - 1
            x = np.linspace(-1, 1, nf)
            q = np.polynomial.chebyshev.Chebyshev.fit(x, fwd[:, j], top)
            ctx.le('control-points', np.abs(q(x) - fwd[:, j]).max(), 1e-6*w,
                   msg=f'{tag}: component {c} has more control points')
            if isinstance(kw['n_control'], int):
                ctx.ok('control-points', abs(q.coef[-1]) > 1e-12*w,
                       f'{tag}: component {c} has fewer control points')
            ctx.event('control-points')
    for k in kinds:
        ctx.event(k)
    if inc is not None and not noisy:
        d = np.linalg.norm(np.diff(T(fwd, dim, sym), axis=0), axis=(1, 2))
        # sampled paths which stand still have no direction to follow
        flat = (d == 0) & (not exact or bool(kinds & {'one-sided', 'still'}))
        ctx.close('increment', d[~flat], np.full((~flat).sum(), inc),
                  rtol=1e-9, msg=f'{tag}: increment norms')
        ctx.event('increment')
    if kind == 'proportional' and not noisy:
        var = [j for j, c in enumerate(comps) if bounds[c][0] != bounds[c][1]]
        v = fwd[:, var]
        dirn = v[np.argmax(np.linalg.norm(v, axis=1))]
        nd = np.linalg.norm(dirn)
        if inc is not None:
            # increments larger than the sampled ones turn back and forth
            # around the sampled strain: direction lost to rounding
            free = gen.generate_strain_path(
                **{**kw, 'inc_strain_norm': None}, random_seed=seed)[2][:nf]
            step = np.linalg.norm(np.diff(T(free, dim, sym), axis=0),
                                  axis=(1, 2)).min()
            if inc > .9*step:
                nd = 0.
        if nd > 0:
            off = v - np.outer(v @ dirn/nd**2, dirn)
            ctx.le('proportional', np.abs(off).max(), 1e-9*nd,
                   msg=f'{tag}: strains off one direction')
        if inc is None:
            ctx.close('proportional', np.diff(fwd, axis=0), np.repeat(
                (fwd[-1:] - fwd[:1])/max(nf - 1, 1), nf - 1, 0),
                rtol=1e-9, atol=1e-12*mag, scale=mag,
                msg=f'{tag}: uneven increments')
    if cyc:
        one = np.concatenate([fwd, fwd[-2:0:-1]])
        want = np.concatenate([one]*cyc + [fwd[:1]])
        want = np.concatenate([want, np.repeat(fwd[:1], n - len(want), 0)])
        ctx.same('cycles', want.shape, path.shape, tag)
        ctx.ok('cycles', np.array_equal(want, path), f'{tag}: cycles differ')
        ctx.event('cyclic')
        ctx.raises('cycles', lambda: gen.generate_strain_path(
            **{**kw, 'n_time': 2*cyc}), RuntimeError, 'too few times accepted')
    if noisy:
        ctx.event('noise')
        if inc is not None and nf >= 8:
            # noise comes on top of the prescribed increments
            d = np.linalg.norm(np.diff(T(fwd, dim, sym), axis=0),
                               axis=(1, 2))
            ctx.ok('noise', np.abs(d - inc).max() > .02*std,
                   f'{tag}: no noise on prescribed increments')
        if inc is None and kind == 'proportional':
            # same draws of the end strain come first
            clean = gen.generate_strain_path(
                **{**kw, 'strain_noise_std': None}, random_seed=seed)[2]
            e = (path - clean)[:nf]
            ctx.ok('noise', np.all(e[0] == 0) and
                   np.abs(e).max() <= 9*std and (nf < 8 or e.std() > .3*std),
                   f'{tag}: noise {e.std()} of {std}')
            if nf > 4 and e.shape[1] > 1:
                ctx.ok('noise', all(
                    np.abs(e[1:, a] - e[1:, b]).max() > 1e-3*std
                    for a in range(e.shape[1]) for b in range(a)),
                    f'{tag}: components share noise')
    elif std == 0.:
        dev = []
        for _ in range(3):
            clean = gen.generate_strain_path(
                **{**kw, 'strain_noise_std': None}, random_seed=seed)[2]
            dev.append(min(np.abs(q - clean).max() for q in seen))
            if dev[-1] <= 1e-7*mag:
                break
        ctx.le('noise', min(dev), 1e-7*mag, msg='null noise')
    # refused requests
    bad = dict(bounds)
    c = comps[int(rng.integers(len(comps)))]
    if rng.random() < .5:
        bad[c] = (1., -1.)
    else:
        bad.pop(c)
    ctx.raises('rejected', lambda: gen.generate_strain_path(
        **{**kw, 'strain_bounds': bad}), RuntimeError, f'{bad} accepted')
    ctx.event('rejected')
    if sym:
        r = path[-1]
        ctx.close('tensor', StrainPathGenerator.build_strain_tensor(
            dim, r, comps, is_symmetric=True), T([r], dim, True)[0], rtol=0,
            msg='strain tensor')
        ctx.raises('tensor', lambda: StrainPathGenerator.build_strain_tensor(
            dim, r[:-1], comps[:-1], is_symmetric=True), RuntimeError,
            'missing component accepted')
    ctx.event(generative if generative != 'polynomial' else kind)
    ctx.state(kind, generative, dim, sym, bool(cyc), inc is None, noisy,
              tuple(sorted(kinds)))


STATE = {'elastic': {}, 'von_mises': {'acc_p_strain': 1},
         'drucker_prager': {'acc_p_strain': 1},
         'lou_zhang_yoon': {'acc_p_strain': 1}}


def responses(ctx, name):
    """Stress paths answer the stored strain paths."""
    rng = ctx.rng
    dt = torch.float64 if rng.random() < .6 else torch.float32
    torch.set_default_dtype(dt)
    tol = 1e-7 if dt == torch.float64 else 2e-3
    dim = 2 if rng.random() < .5 else 3
    spec = mat.Spec(rng, name, tame=True)
    n_c = len(ref.SYM[dim])
    m = spec.yield_strain()*10**rng.uniform(-.5, 1)
    if name == 'lou_zhang_yoon':
        m = spec.yield_strain()*10**rng.uniform(-.5, .5)
    bounds = {c: (-m, m) for c in ref.SYM[dim]}
    g = MaterialResponseDatasetGenerator('infinitesimal', mat.PT[dim])
    n_path, n_time = ctx.size(1, 4, 25), ctx.size(2, 14, 60)
    kind = str(rng.choice(['random', 'proportional']))
    kw = dict(strain_bounds=bounds, n_time=n_time, time_end=2.)
    if rng.random() < .3 and n_time > 4:
        kw['n_cycle'] = 1
    if kind == 'random':
        kw['n_control'] = int(rng.integers(2, 5))
    state = {}
    if rng.random() < .7:
        state = {'e_strain_mf': n_c, 'acc_p_strain': 1, 'nothing_such': 2}
    files = rng.random() < .4
    extra = {}
    if files:
        extra = dict(is_in_memory_dataset=False,
                     dataset_directory=ctx.tmpdir(), dataset_basename='resp')
    np.random.seed(int(rng.integers(1 << 30)))
    try:
        ds = g.generate_response_dataset(n_path, kind, kw, name,
                                         spec.code_parameters(),
                                         state_features=state, **extra)
    except RuntimeError as e:
        # no convergence in every trial is reported
        if 'maximum of number of trials' in str(e):
            ctx.event('gave-up')
            return
        raise
    ctx.same('size', len(ds), n_path, 'number of paths')
    seen = []
    for i in range(len(ds)):
        s = ds[i]
        verify(ctx, s, spec, dim, n_time, state, tol, dt,
               f'{name} {kind} path {i}')
        ctx.close('time', s['time_hist'].double().numpy(),
                  np.linspace(0, 2, n_time).reshape(-1, 1), rtol=1e-6,
                  msg='time history')
        p = s['strain_path'].double().numpy()
        ctx.ok('bounds', np.abs(p).max() <= m*(1 + 1e-5), 'strain bounds')
        seen.append(p)
    for a in range(len(seen)):
        for b in range(a):
            ctx.ok('distinct', not np.array_equal(seen[a], seen[b]),
                   'two paths of one data set are equal')
    if files:
        ctx.event('files')
        ctx.ok('size', len([f for f in os.listdir(extra['dataset_directory'])
                            if f.endswith('.pt')]) == n_path, 'stored paths')
    ctx.event('response')
    # the same material, or another one, along the stored strains
    other = str(rng.choice(['elastic', 'von_mises']))
    spec2 = mat.Spec(rng, other, tame=True, E=spec.E, s0=spec.s0)
    where = ctx.tmpdir()
    src = td.TimeSeriesDatasetInMemory([
        {k: v for k, v in ds[i].items()
         if k in ('strain_comps_order', 'strain_path', 'time_hist')}
        for i in range(n_path)])
    f = td.save_dataset(src, 'strains', where)
    try:
        got = g.gen_response_dataset_from_strain_dataset(
            f, other, spec2.code_parameters(), state_features=state)
    except RuntimeError as e:
        if 'Stress path computation failed' in str(e):
            return
        raise
    ctx.same('size', len(got), n_path, 'number of paths')
    for i in range(n_path):
        s = got[i]
        ctx.ok('from-strains', torch.equal(s['strain_path'],
                                           ds[i]['strain_path']) and
               torch.equal(s['time_hist'], ds[i]['time_hist']),
               'strains changed')
        verify(ctx, s, spec2, dim, n_time, state, tol, dt,
               f'{other} from strains {i}')
    ctx.event('from-strains')
    ctx.state(name, kind, dim, files, bool(state), str(dt))


def verify(ctx, s, spec, dim, n_time, state, tol, dt, tag):
    comps = ref.SYM[dim]
    ctx.same('order', (tuple(s['strain_comps_order']),
                       tuple(s['stress_comps_order'])), (comps, comps), tag)
    ctx.same('shape', tuple(s['strain_path'].shape), (n_time, len(comps)),
             tag)
    ctx.ok('precision', s['strain_path'].dtype == dt and
           s['stress_path'].dtype == dt, f'{tag}: precision')
    p = s['strain_path'].double().numpy()
    st = rc.drive(spec.build(dim), dim, p, dtype=dt)
    bad = rc.first_bad(st)
    if bad < len(st):
        # failed updates are not accepted into a data set; single precision
        # paths may fail here only
        ctx.ok('failed-path', dt == torch.float32 or
               not mat.failed(st[bad]), f'{tag}: path of a failed update')
        return
    w = rc.stress_rows(st, dim)
    sc = max(np.abs(w).max(), 1e-3*spec.s0 if hasattr(spec, 's0') else 0)
    ctx.close('stress', s['stress_path'].double().numpy(), w, rtol=tol,
              scale=sc, msg=f'{tag}: stress path')
    have = [k for k in state if k in st[-1]]
    ctx.ok('state', all((k in s) == (k in have) for k in state),
           f'{tag}: state features {sorted(s)}')
    for k in have:
        if k == 'acc_p_strain':
            v = np.array([[mat.num(q[k])] for q in st])
        else:
            v = np.array([[mat.full(q, k, dim)[ref.idx(c)] for c in comps]
                          for q in st])
        ctx.close('state', s[k].double().numpy(), v, rtol=tol,
                  scale=max(np.abs(v).max(), 1e-3*spec.yield_strain()),
                  msg=f'{tag}: {k}')
        ctx.event('state')


def csv(ctx):
    """Data sets read from .csv files."""
    rng = ctx.rng
    dt = torch.float64 if rng.random() < .6 else torch.float32
    torch.set_default_dtype(dt)
    dim = 2 if rng.random() < .5 else 3
    d = ctx.tmpdir()
    names = ['TIME'] + [a + c for a in 'ES' for c in ref.SYM[3]]
    n = int(rng.integers(1, 13))
    ids = [int(i) for i in rng.choice(range(150), n, replace=False)]
    data, files = {}, []
    for q, i in enumerate(ids):
        t = int(rng.integers(2, 6))
        a = rng.standard_normal((t, 13))
        a[:, 7:] *= 100
        if rng.random() < .3 and q > 0:
            a[:, 7:] = 0.
        f = os.path.join(d, f'path_2_{i}.csv')
        pandas.DataFrame(a, columns=names).to_csv(f, index=False)
        data[i] = a
        files.append(f)
    kw = {}
    filed = rng.random() < .4
    if filed:
        kw = dict(is_in_memory_dataset=False, dataset_directory=ctx.tmpdir(),
                  dataset_basename='csv')
    g = MaterialResponseDatasetGenerator('infinitesimal', mat.PT[dim])
    ds = g.gen_response_dataset_from_csv(tuple(files), **kw)
    keep = [i for i in sorted(ids) if np.abs(data[i][:, 7:]).max() > 0]
    ctx.same('csv', len(ds), len(keep), 'number of valid paths')
    if len(keep) < n:
        ctx.event('csv-skipped')
    col = {c: k for k, c in enumerate(names)}
    comps = ref.SYM[dim]
    for k, i in enumerate(keep[:len(ds)]):
        s, a = ds[k], data[i]
        for key, pre in (('strain_path', 'E'), ('stress_path', 'S')):
            ctx.close('csv', s[key].double().numpy(),
                      a[:, [col[pre + c] for c in comps]], rtol=1e-6,
                      msg=f'{key} of file {i}')
        ctx.close('csv', s['time_hist'].double().numpy(), a[:, :1], rtol=1e-6,
                  msg='time')
        ctx.same('csv', tuple(s['stress_comps_order']), comps, 'components')
    f = os.path.join(d, 'bad_7.csv')
    pandas.DataFrame(np.ones((3, 12))).to_csv(f, index=False)
    ctx.raises('csv', lambda: g.gen_response_dataset_from_csv((f,)),
               RuntimeError, '12 columns accepted')
    ctx.event('csv')
    ctx.state('csv', dim, filed, n > 3)


def invariants(ctx):
    rng = ctx.rng
    for _ in range(40):
        s = ref.rand_sym(rng, 3)*10**rng.uniform(-2, 3)
        k = rng.integers(4)
        if k == 0:
            s = np.diag(np.diag(s))
        elif k == 1:
            s = s - np.trace(s)/3*np.eye(3)
        elif k == 2:
            s[2] = s[:, 2] = 0
        a, b = MaterialResponseDatasetGenerator.compute_stress_invariants(s)
        e = np.linalg.eigvalsh(s)
        q = e - e.mean()
        m = np.abs(e).max() + 1e-300
        u = np.array([m, m**2, m**3])
        ctx.close('invariants', a/u, np.array(
            [e.sum(), e[0]*e[1] + e[0]*e[2] + e[1]*e[2], e.prod()])/u,
            atol=1e-9, msg='stress invariants')
        ctx.close('invariants', b/u, np.array(
            [0, (q**2).sum()/2, q.prod()])/u, atol=1e-9,
            msg='deviatoric stress invariants')
    ctx.event('invariants')


def spread(ctx, kind):
    """Sampled strains fill their bounds uniformly."""
    rng = ctx.rng
    dim = 2 if rng.random() < .5 else 3
    comps = ref.SYM[dim]
    bounds, _, _ = rand_bounds(ctx, comps, allow_const=False)
    gen = (RandomStrainPathGenerator if kind == 'random' else
           ProportionalStrainPathGenerator)('infinitesimal', dim)
    kw = {'n_control': 2} if kind == 'random' else {}
    np.random.seed(int(rng.integers(1 << 30)))
    n = 300
    E = np.array([gen.generate_strain_path(
        strain_bounds=bounds, n_time=3, **kw)[2][-1] for _ in range(n)])
    # deviation from the uniform distribution exceeded with probability 1e-9
    D = np.sqrt(np.log(2e9)/(2*n))
    for j, c in enumerate(comps):
        lo, hi = bounds[c]
        u = np.sort((E[:, j] - lo)/(hi - lo))
        d = np.abs(u - (np.arange(n) + .5)/n).max()
        ctx.le('spread', d, D + .5/n, msg=f'{kind}: end strains of {c} in '
               f'{bounds[c]} are not uniform')
    R = np.corrcoef(E.T) - np.eye(len(comps))
    ctx.le('spread', np.abs(R).max(), .45, msg='components sampled together')
    ctx.event('spread')
    ctx.state('spread', kind, dim)


def cases(tier):
    r = 4 if tier == 'quick' else 40
    out = [('paths', {'kind': 'random'})]*(400*r)
    out += [('paths', {'kind': 'proportional'})]*(400*r)
    out += [('paths', {'kind': 'random', 'generative': 'gaussian_process'})
            ]*(8*r)
    for m in STATE:
        out += [('responses', {'name': m})]*(20*r)
    for k in ('random', 'proportional'):
        out += [('spread', {'kind': k})]*(6*r)
    out += [('csv', {})]*(20*r) + [('invariants', {})]*(2*r)
    return out
