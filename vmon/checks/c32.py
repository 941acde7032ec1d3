"""C32: noise goes into, and comes out of, the displacements only."""
import os
import numpy as np
import torch
from vmon.checks.c30 import Record, check_lines, legend
from vmon.checks.c31 import digest
from miscellaneous.noisy_data.inject_disp_noise_csv import \
    inject_displacements_noise
from miscellaneous.noisy_data import denoise_disp_noise_csv as dn

PROPERTY = 'C32'
RULE = ('directories of nodal data files (any number of nodes and time steps, '
        'gaps and many digits in the time step numbers, foreign files) are '
        'contaminated and denoised; every file is read back with an own '
        'reader and compared with the source, the noise with its '
        'distribution, the denoised histories with an own linear filter; '
        'non-trivial: distinct (operation, distribution or filter, sizes)')
ASSUMPTIONS = ['nodes are listed in the same order at every time step']
REQUIRED_EVENTS = ('inject', 'denoise', 'reject', 'again', 'gaps', 'figure',
                   'uniform', 'gaussian', 'spiked_gaussian', 'round-trip')
HEAD = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3']


def read(path):
    with open(path, encoding='utf-8') as f:
        rows = [q.strip().split(',') for q in f if q.strip()]
    return rows[0], np.array([[float(v) for v in r] for r in rows[1:]])


def write(path, tab, head=HEAD, whole=False):
    with open(path, 'w', encoding='utf-8') as f:
        f.write(','.join(head) + '\n')
        for r in tab:
            f.write(','.join([str(int(r[0]))] + [
                str(int(v)) if whole else repr(float(v)) for v in r[1:]])
                + '\n')


def build(ctx, columns=10):
    rng = ctx.rng
    d = ctx.tmpdir()
    n = ctx.size(1, 25, 600, .08)
    T = ctx.size(1, 12, 130, .08)
    if rng.random() < .4:
        steps = sorted(int(i) for i in rng.permutation(12*T)[:T])
        ctx.event('gaps')
    else:
        steps = list(range(T))
    name = str(rng.choice(['specimen', 'a_tstep_7', 'plate.v2', 'x']))
    x = rng.standard_normal((n, 3))*10.**rng.uniform(-3, 3)
    amp = 10.**rng.uniform(-6, 2)
    node = rng.permutation(3*n)[:n] + 1 if rng.random() < .3 \
        else np.arange(1, n + 1)
    tabs = []
    for t in range(T):
        u = rng.standard_normal((n, 3))*amp*(t > 0)
        if rng.random() < .5:
            u[rng.random(n) < .4] = 0
        rf = rng.standard_normal((n, 3))*1e3*(rng.random((n, 1)) < .5)
        tabs.append(np.column_stack([node, x, u, rf]))
    for i in rng.permutation(T):
        tab = tabs[i]
        if columns == 9:
            tab = tab[:, :9]
        elif columns == 11:
            tab = np.column_stack([tab, tab[:, 9]])
        write(os.path.join(d, f'{name}_tstep_{steps[i]}.csv'), tab,
              (HEAD + ['T'])[:columns])
    for junk in ('notes.csv', f'{name}_tstep_1.csv.bak',
                 f'{name}_tstep_x.csv', f'{name}_tstep_2.txt'):
        open(os.path.join(d, junk), 'w').write('foreign')
    os.makedirs(os.path.join(d, 'sub'))
    write(os.path.join(d, 'sub', f'{name}_tstep_0.csv'), tabs[0])
    files = [f'{name}_tstep_{s}.csv' for s in steps]
    return d, files, tabs, amp


def rest(ctx, out, files, tabs, tag, exact_first):
    """Everything but displacements is as in the source; displacements."""
    ctx.same('files', sorted(os.listdir(out)), sorted(files), tag)
    us = []
    for t, (f, w) in enumerate(zip(files, tabs)):
        p = os.path.join(out, f)
        if not os.path.isfile(p):
            return None
        head, g = read(p)
        ctx.same('header', head, HEAD, f'{tag} {f}')
        if not ctx.ok('rows', g.shape == w.shape,
                      f'{tag} {f}: {g.shape} for {w.shape}'):
            return None
        cols = [0, 1, 2, 3, 7, 8, 9]
        ctx.close('other columns', g[:, cols], w[:, cols], rtol=1e-13,
                  scale=np.abs(w[:, cols]).max() + 1e-300,
                  msg=f'{tag} {f}')
        if t == 0 and exact_first:
            ctx.close('first step', g[:, 4:7], w[:, 4:7], rtol=1e-13,
                      scale=np.abs(w[:, 4:7]).max() + 1e-300,
                      msg=f'{tag} {f}')
        us.append(g[:, 4:7])
    return us


def inject(ctx, dist):
    rng = ctx.rng
    np.random.seed(int(rng.integers(1 << 30)))
    d, files, tabs, amp = build(ctx)
    par = {'distribution': dist, 'dirname': 'noisy'}
    s = amp*10.**rng.uniform(-3, 1)
    if dist == 'uniform':
        par['amp'] = s
    else:
        par['std'] = s
        if dist == 'spiked_gaussian':
            par.update(spike=float(rng.uniform(30, 60)*s),
                       p_spike=float(rng.uniform(.02, .3)))
    before = digest(d)
    rounds = 2 if rng.random() < .3 else 1
    seen = []
    for k in range(rounds):
        inject_displacements_noise(d, dict(par))
        tag = f'{dist} n={len(tabs[0])} T={len(tabs)} round {k}'
        now = {p: h for p, h in digest(d).items()
               if not p.startswith('noisy')}
        ctx.same('source', now, before, f'{tag}: source data changed')
        out = os.path.join(d, 'noisy')
        us = rest(ctx, out, files, tabs, tag, True)
        if us is None or len(us) < 2:
            break
        z = [u - w[:, 4:7] for u, w in zip(us[1:], tabs[1:])]
        q = np.concatenate([v.ravel() for v in z])
        big = max(np.abs(w[:, 4:7]).max() for w in tabs)
        eps = 1e-12*(big + s)
        m = q.size
        if dist == 'uniform':
            ctx.le('range', np.abs(q).max(), s/2 + eps, msg=tag)
            sd = s/np.sqrt(12)
            base = q
        else:
            sd, base = s, q
            if dist == 'spiked_gaussian':
                hit = q > par['spike']/2
                f = par['p_spike']
                if m > 200:
                    ctx.le('spikes', abs(hit.mean() - f),
                           6.5*np.sqrt(f*(1 - f)/m) + 8/m, msg=tag)
                base = q - par['spike']*hit
                ctx.le('spikes', np.abs(base).max(), 8*sd + eps, msg=tag)
        ctx.le('mean', abs(base.mean()), 6.5*sd/np.sqrt(m) + eps, msg=tag)
        if m > 200:
            ctx.le('deviation', abs(base.std()/sd - 1),
                   6.5*np.sqrt(.5/m) + .02, msg=tag)
        # every node, component and step has its own noise
        ctx.ok('independent', len(np.unique(np.round(base/sd, 9)))
               > .99*m - 1, f'{tag}: noise repeats')
        for a in z[1:]:
            if a.size > 60:
                c = np.corrcoef(a.ravel(), z[0].ravel())[0, 1] \
                    if dist != 'spiked_gaussian' else 0
                ctx.le('independent', abs(c), 6.5/np.sqrt(a.size), msg=tag)
        seen.append(q)
        ctx.event(dist)
    if len(seen) == 2:
        ctx.ok('independent', not np.array_equal(*seen), 'same noise twice')
        ctx.event('again')
    ctx.event('inject')
    ctx.state('inject', dist, len(tabs) > 10, len(tabs[0]) > 10)


def window(rng, method, T):
    if method == 'moving_average':
        win = int(rng.integers(1, 9))
        W = np.zeros((T, T))
        for i in range(T):
            for q in range(i - win//2, i - win//2 + win):
                W[i, min(max(q, 0), T - 1)] += 1/win
        return {'window_size': win}, W
    if method == 'savitzky_golay':
        h = int(rng.integers(1, 5))
        deg = int(rng.integers(0, 3))
        z = np.arange(-h, h + 1)/h
        row = np.linalg.pinv(np.vander(z, deg + 1, increasing=True))[0]
        W = np.zeros((T, T))
        for i in range(T):
            for a, q in zip(row, range(i - h, i + h + 1)):
                W[i, min(max(q, 0), T - 1)] += a
        return {'window_size': 2*h + 1, 'poly_order': deg}, W
    m = int(rng.integers(0, T//2 + 1))
    cut = (m + .5)/T
    F = np.exp(-2j*np.pi*np.outer(np.arange(T), np.arange(T))/T)
    f = np.minimum(np.arange(T), T - np.arange(T))/T
    return {'cutoff_frequency': cut}, (
        np.conj(F) @ np.diag((f <= cut)*1.) @ F).real/T


def denoise(ctx, method):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    d, files, tabs, amp = build(ctx)
    T, n = len(tabs), len(tabs[0])
    if rng.random() < .5:
        # displacements at the first time step are set to zero
        for w in tabs[:1]:
            w[:, 4:7] = rng.standard_normal((n, 3))*amp
            write(os.path.join(d, files[0]), w)
    par, W = window(rng, method, T)
    cyc = int(rng.integers(1, 4))
    full = {'denoise_method': method, 'denoiser_parameters': par,
            'n_denoise_cycle': cyc, 'denoise_dirname': 'clean'}
    before = digest(d)
    k, c = int(rng.integers(n)), int(rng.integers(3))
    plot = {'node_id': k + 1, 'disp_comp': str(c + 1)} \
        if rng.random() < .4 else None
    if rng.random() < .3:
        os.makedirs(os.path.join(d, 'clean'))
        open(os.path.join(d, 'clean', 'old'), 'w').write('x')
    with Record() as r:
        dn.denoise_displacements_noise(d, denoise_parameters=dict(full),
                                       plot_parameters=plot)
    tag = f'{method} {par} cycles={cyc} n={n} T={T}'
    ctx.same('source', {p: h for p, h in digest(d).items()
                        if not p.startswith('clean')}, before,
             f'{tag}: source data changed')
    us = rest(ctx, os.path.join(d, 'clean'), files, tabs, tag, False)
    if us is None:
        return
    U = np.stack([w[:, 4:7] for w in tabs])
    want = np.einsum('ij,jkl->ikl', np.linalg.matrix_power(W, cyc), U)
    want[0] = 0
    scale = np.abs(U).max()*max(1., np.abs(W).sum(1).max())**cyc + 1e-300
    ctx.close('denoised', np.stack(us), want, rtol=1e-9, scale=scale,
              msg=tag)
    ctx.ok('first step', not np.any(us[0]), f'{tag}: first step not zero')
    if plot is not None and T > 1:
        x = np.linspace(0, 1, T)
        ctx.same('figures', len(r.figs), 1, tag)
        ax = r.figs[0].axes[0]
        check_lines(ctx, ax, [np.column_stack([x, U[:, k, c]]),
                              np.column_stack([x, us_(us, k, c)])], tag)
        ctx.same('legend', legend(ax), ['Noisy', 'Denoised'], tag)
        ctx.event('figure')
    ctx.event('denoise')
    ctx.state('denoise', method, cyc, T > 10, n > 10)


def us_(us, k, c):
    return np.array([u[k, c] for u in us])


def trip(ctx):
    """Noisy data denoised: constant motion is recovered on average."""
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    np.random.seed(int(rng.integers(1 << 30)))
    d = ctx.tmpdir()
    n, T = int(rng.integers(1, 6)), int(rng.integers(11, 40))
    u = rng.standard_normal((n, 3))
    tabs = []
    for t in range(T):
        tabs.append(np.column_stack([np.arange(1, n + 1), np.zeros((n, 3)),
                                     u, np.zeros((n, 3))]))
        write(os.path.join(d, f's_tstep_{t}.csv'), tabs[-1])
    amp = 10.**rng.uniform(-4, 0)
    inject_displacements_noise(d, {'distribution': 'uniform', 'amp': amp,
                                   'dirname': 'noisy'})
    dn.denoise_displacements_noise(os.path.join(d, 'noisy'), {
        'denoise_method': 'moving_average',
        'denoiser_parameters': {'window_size': int(rng.integers(1, 8))},
        'n_denoise_cycle': int(rng.integers(1, 3)),
        'denoise_dirname': 'clean'})
    for t in range(1, T):
        _, g = read(os.path.join(d, 'noisy', 'clean', f's_tstep_{t}.csv'))
        ctx.le('round trip', np.abs(g[:, 4:7] - u).max(),
               amp/2*(1 + 1e-9) + 1e-12, msg=f'step {t} of {T} amp={amp}')
        ctx.same('round trip', g[:, :4].tolist(), tabs[0][:, :4].tolist(),
                 f'step {t}')
    ctx.event('round-trip')


def refuse(ctx):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    noise = {'distribution': 'uniform', 'amp': 1., 'dirname': 'noisy'}
    clean = {'denoise_method': 'moving_average', 'denoise_dirname': 'clean',
             'denoiser_parameters': {'window_size': 3}, 'n_denoise_cycle': 1}
    while True:
        d, files, tabs, _ = build(ctx, int(rng.choice([9, 11])))
        if len(files) > 1:
            break
    before = digest(d)
    ctx.raises('reject', lambda: inject_displacements_noise(d, noise),
               RuntimeError, 'columns')
    ctx.raises('reject', lambda: dn.denoise_displacements_noise(d, clean),
               RuntimeError, 'columns')
    d2 = build(ctx)[0]
    for k, v in (('distribution', 'pink'),):
        ctx.raises('reject', lambda: inject_displacements_noise(
            d2, dict(noise, **{k: v})), RuntimeError, f'{k} {v}')
    short = dict(noise)
    short.pop('amp')
    ctx.raises('reject', lambda: inject_displacements_noise(d2, short),
               RuntimeError, 'no amplitude')
    ctx.raises('reject', lambda: dn.denoise_displacements_noise(
        d2, dict(clean, denoise_method='magic')), RuntimeError, 'method')
    for f, a in ((inject_displacements_noise, noise),
                 (dn.denoise_displacements_noise, clean)):
        ctx.raises('reject', lambda: f(d2 + '_no', a), RuntimeError,
                   'directory')
    now = {p: h for p, h in digest(d).items()
           if p.split(os.sep)[0] not in ('noisy', 'clean')}
    ctx.same('source', now, before, 'refusal changed the source')
    ctx.event('reject')


def cases(tier):
    q = tier == 'quick'
    out = []
    for _ in range(120 if q else 800):
        for dist in ('uniform', 'gaussian', 'spiked_gaussian'):
            out.append(('inject', dict(dist=dist)))
        for m in ('moving_average', 'savitzky_golay', 'frequency_low_pass'):
            out.append(('denoise', dict(method=m)))
    for _ in range(25 if q else 150):
        out.append(('trip', {}))
        out.append(('refuse', {}))
    return out
