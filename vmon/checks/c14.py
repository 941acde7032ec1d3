"""C14: recurrent constitutive models predict what the material does."""
import numpy as np
import torch
from vmon import mat, rc, ref

PROPERTY = 'C14'
RULE = ('random materials of every family, random strain paths of different '
        'lengths, batches mixing elastic, plastic and unloading paths; the '
        'predicted stress and state histories are compared with a material '
        'point driven step by step; non-trivial: distinct (model, variant, '
        'n_dim, precision, batch, plastic, material)')
ASSUMPTIONS = ['infinitesimal strains', 'CPU device only']
REQUIRED_EVENTS = ('path', 'plastic-path', 'batch', 'state-features',
                   'failure-reported', 'offset-path',
                   'one-step')


def features(name):
    f = {'acc_p_strain': 1} if name != 'elastic' else {}
    return f


def predict(ctx, name, n_dim, vmap, dt, n_path, offset):
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    spec = mat.Spec(ctx.rng, name)
    if dt == 'float32':
        spec = mat.Spec(ctx.rng, name, E=1e4, s0=50.)
    n = len(ref.SYM[n_dim])
    state = {}
    if ctx.rng.random() < .8 and name != 'elastic':
        pool = [('acc_p_strain', 1), ('strain_mf', n), ('e_strain_mf', n),
                ('stress_mf', n)]
        pick = ctx.rng.permutation(len(pool))[:int(ctx.rng.integers(1, 4))]
        state = {pool[i][0]: pool[i][1] for i in pick}
        ctx.event('state-features')
    model = rc.make(spec, n_dim, ctx.tmpdir(), vmap, state=state)
    ctx.same('device', model.get_device(), ('cpu', torch.device('cpu')))
    ctx.same('name', model.get_material_model_name(),
             name + ('_vmap' if vmap else ''))
    ctx.ok('no-learnable', len(list(model.parameters())) == 0)
    point = spec.build(n_dim, vmap)
    length = int(ctx.rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9], p=[
        .12, .12, .12, .12, .12, .1, .1, .1, .1]))
    if n_path < 4 and ctx.rng.random() < .04:
        length = int(ctx.rng.integers(40, 130))
        ctx.event('long-path')
    paths, states = [], []
    while len(paths) < max(n_path, 1):
        p = rc.strain_path(ctx.rng, spec, n_dim, n=length, offset=offset)
        p = p[:length]
        if len(p) < length:
            p = np.concatenate([p, np.repeat(p[-1:], length - len(p), 0)])
        p = torch.tensor(p, dtype=dtype)
        st = rc.drive(point, n_dim, p.double().numpy(), dtype)
        if rc.first_bad(st) < len(st):
            ctx.event('failure-skipped')
            continue
        paths.append(p)
        states.append(st)
    x = torch.stack(paths, dim=1) if n_path else paths[0]
    x0 = x.clone()
    y = model(x)
    tag = f'{name} {n_dim}D vmap={vmap} {dt} {spec.par}'
    ctx.same('input-unchanged', x, x0, msg=tag)
    want_shape = tuple(x.shape[:-1]) + (n + sum(state.values()),)
    ctx.same('output-shape', tuple(y.shape), want_shape, msg=tag)
    ctx.ok('output-precision', y.dtype == dtype, tag)
    if n_path:
        ctx.event('batch')
    if length == 1:
        ctx.event('one-step')
    if offset:
        ctx.event('offset-path')
    tol = 2e-5 if dt == 'float64' else 2e-3
    Y = y.detach().double().numpy()
    if not n_path:
        Y = Y[:, None, :]
    for b, st in enumerate(states):
        S = rc.stress_rows(st, n_dim)
        npl = sum(bool(s['is_plast']) for s in st)
        ctx.event('path')
        if npl:
            ctx.event('plastic-path')
        ctx.state(name, n_dim, vmap, dt, n_path, npl, round(spec.E, 2), b)
        sc = max(spec.law(0.)[0] if spec.laws else 0, abs(S).max(), 1e-9)
        ctx.close('stress-path', Y[:, b, :n], S, rtol=tol, scale=sc,
                  msg=f'{tag} path {b}')
        ctx.same('starts-stress-free', Y[0, b], 0*Y[0, b], msg=tag)
        k = n
        for f, m in state.items():
            if f.endswith('strain_mf'):
                W = np.array([[mat.full(s, f, n_dim)[ref.idx(c)]
                               for c in ref.SYM[n_dim]] for s in st])
            elif m == 1:
                W = np.array([[mat.num(s[f])] for s in st])
            else:
                W = np.array([mat.vec(s[f]) for s in st])
            scale = sc if 'stress' in f else max(spec.yield_strain(),
                                                 abs(W).max())
            ctx.close('state-path', Y[:, b, k:k + m], W, rtol=tol*3,
                      scale=scale, msg=f'{tag} path {b} {f}')
            k += m
    # a prediction depends on its own path only, and repeats
    ctx.close('repeatable', model(x).detach(), y.detach(), rtol=tol,
              scale=sc, msg=tag)
    if n_path > 1:
        b = int(ctx.rng.integers(n_path))
        one = model(x[:, b:b + 1, :])
        ctx.close('batch-independent', one[:, 0], y[:, b], rtol=tol*.1,
                  scale=float(y.abs().max()) + 1e-12, msg=tag)
        single = model(x[:, b, :])
        ctx.close('unbatched-equals-batched', single, y[:, b], rtol=tol*.1,
                  scale=float(y.abs().max()) + 1e-12, msg=tag)
        perm = torch.tensor(ctx.rng.permutation(n_path))
        ctx.close('batch-order', model(x[:, perm]), y[:, perm],
                  rtol=tol*.1, scale=float(y.abs().max()) + 1e-12, msg=tag)
    # causality: the future does not change the past
    if length > 3:
        k = int(ctx.rng.integers(2, length))
        z = model(x[:k])
        ctx.close('causal', z, y[:k], rtol=tol*.1,
                  scale=float(y.abs().max()) + 1e-12, msg=tag)


def failure(ctx, name, n_dim):
    """A state update failure is reported, not returned as a number."""
    torch.set_default_dtype(torch.float64)
    spec = mat.Spec(ctx.rng, name)
    model = rc.make(spec, n_dim, ctx.tmpdir(), False)
    p = torch.tensor(rc.strain_path(ctx.rng, spec, n_dim, 'proportional', 6))
    k = int(ctx.rng.integers(1, len(p)))
    p[k, int(ctx.rng.integers(p.shape[1]))] = float('nan')
    ctx.event('failure-reported')
    ctx.state('failure', name, n_dim, k)
    ctx.raises('failure-reported', lambda: model(p), msg=f'{name} {n_dim}D')
    # the next prediction is not affected
    q = torch.tensor(rc.strain_path(ctx.rng, spec, n_dim, 'uniaxial', 4))
    st = rc.drive(spec.build(n_dim), n_dim, q.numpy())
    if rc.first_bad(st) == len(st):
        S = rc.stress_rows(st, n_dim)
        ctx.close('recovers-after-failure', model(q), S, rtol=2e-5,
                  scale=abs(S).max() + 1e-9)
        ctx.ok('default-precision',
               torch.get_default_dtype() == torch.float64)


def rejects(ctx):
    spec = mat.Spec(ctx.rng, 'von_mises')
    d = ctx.tmpdir()
    model = rc.make(spec, 3, d)
    ctx.raises('array-rejected', lambda: model(np.zeros((3, 6))))
    ctx.raises('shape-rejected', lambda: model(torch.zeros(6)))
    ctx.raises('unknown-model', lambda: rc.make(
        type('S', (), dict(name='nope', code_parameters=lambda s: {}))(), 3,
        d))
    ctx.raises('missing-directory', lambda: rc.make(spec, 3, d + '/no'))
    bad = rc.RecurrentConstitutiveModel(
        6, 9, {}, 'infinitesimal', 4, 'von_mises', spec.code_parameters(), d,
        is_save_model_init_file=False)
    ctx.raises('output-size-rejected', lambda: bad(torch.zeros(3, 6)))
    ctx.raises('device-rejected', lambda: model.set_device('tpu'))


def cases(tier):
    q = tier == 'quick'
    out = [('rejects', {})]
    i = 0
    for r in range(5 if q else 30):
        for name in mat.CLASSES:
            for vmap in ((False,) if name == 'elastic' else (False, True)):
                for n_dim in (2, 3):
                    for n_path in ((0, 3) if r % 2 else (0, 1, 5)):
                        i += 1
                        out.append(('predict', dict(
                            name=name, n_dim=n_dim, vmap=vmap,
                            dt='float32' if i % 4 == 0 else 'float64',
                            n_path=n_path, offset=i % 3 == 0)))
            for n_dim in (2, 3):
                out.append(('failure', dict(name=name, n_dim=n_dim)))
    return out
