"""C08: vectorised constitutive models equal the standard ones, one point at
a time and in batches."""
import numpy as np
import torch
from vmon import mat

PROPERTY = 'C08'
RULE = ('the same random material and strain history is run through the '
        'standard model, the vectorised model, and the vectorised model under '
        'batched mapping with points in different branches (elastic, plastic, '
        'apex, unloading, flagged) in one batch; every state entry is '
        'compared on every step; non-trivial: distinct (model, n_dim, '
        'precision, mix of branches in the batch, material)')
ASSUMPTIONS = ['both variants solve the return mapping to the same relative '
               'tolerance, so their results agree to 1e-4 of the strength',
               'steps that exhaust either iteration budget are not compared',
               'CPU device only']
REQUIRED_EVENTS = ('pair-step', 'batch-point', 'mixed-batch')


def cmp_states(ctx, rule, a, b, spec, tag, tight=False, dt='float64'):
    ctx.ok(rule + '-fields', set(a) <= set(b) | {'is_apex_return'}
           and set(b) <= set(a) | {'is_apex_return'},
           f'{tag}: {set(a) ^ set(b)}')
    ra = 1e-10 if tight else 5e-5
    if dt == 'float32':
        ra = max(ra, 5e-4)
    for k in set(a) & set(b):
        x, y = a[k], b[k]
        x = x.detach() if isinstance(x, torch.Tensor) else torch.tensor(x)
        y = y.detach() if isinstance(y, torch.Tensor) else torch.tensor(y)
        if x.dtype == torch.bool:
            ctx.same(rule + '-flag', x.reshape(()), y.reshape(()),
                     msg=f'{tag}: {k}')
            continue
        if 'stress' in k:
            sc = max(abs(spec.law(0.)[0]), float(y.abs().max()))
        else:
            sc = max(spec.yield_strain(), float(y.abs().max()))
        ctx.close(rule, x, y, rtol=ra, scale=sc, msg=f'{tag}: {k}')


def near_switch(spec, old, inc, n_dim):
    """The two variants may branch differently on a knife edge."""
    o = mat.View(old, n_dim)
    _, s = mat.trial(spec, o, inc)
    f = spec.yield_value(s, o.acc, o.back)
    if abs(f) < 1e-4:
        return True
    if spec.name == 'lou_zhang_yoon':
        _, pr = mat.lou_apex_window(spec, o, s)
        return abs(pr - .95) < 1e-4
    return False


def pair(ctx, name, n_dim, kind, dt, rep=0):
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    spec = mat.Spec(ctx.rng, name)
    ms, mv = spec.build(n_dim), spec.build(n_dim, True)
    a, b = ms.state_init(), mv.state_init()
    for i, inc in enumerate(mat.path(ctx.rng, kind, n_dim,
                                     spec.yield_strain(), 10)):
        t = mat.tens(inc)
        if near_switch(spec, a, t.double().numpy(), n_dim):
            ctx.event('knife-edge-skipped')
            break
        a, ta = mat.update(ms, n_dim, t, a)
        b, tb = mat.update(mv, n_dim, t, b)
        tag = f'{name} {n_dim}D {dt} {kind} step {i} {spec.par}'
        if mat.failed(a) or mat.failed(b):
            ctx.event('failure-skipped')
            break
        if 'acc_p_strain' in a and mat.num(a['acc_p_strain']) < 0:
            break       # known finding lou-apex-window (C05)
        ctx.event('pair-step')
        ctx.state('pair', name, n_dim, dt, kind, bool(a['is_plast']),
                  round(spec.E, 3))
        cmp_states(ctx, 'standard-vs-vectorised', b, a, spec, tag, dt=dt)
        ctx.ok('tangent-presence', (ta is None) == (tb is None), tag)
        if ta is not None and tb is not None:
            ctx.close('tangent', tb, ta, rtol=2e-3, msg=tag)
        # continue both from one state: differences must not be hidden drift
        if i % 3 == 2:
            b = {k: (v.clone() if isinstance(v, torch.Tensor) else v)
                 for k, v in a.items() if k in b}
    ctx.note(material=spec.describe(), path=kind)


def batch(ctx, name, n_dim, dt, rep=0):
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    rng = ctx.rng
    spec = mat.Spec(rng, name)
    model = spec.build(n_dim, True)
    nb = ctx.size(2, 9, 140, .1)
    kinds = [str(rng.choice(mat.KINDS)) for _ in range(nb)]
    paths = [mat.path(rng, k, n_dim, spec.yield_strain(), 9) for k in kinds]
    ns = min(len(p) for p in paths)
    init = model.state_init()
    states = [model.state_init() for _ in range(nb)]
    has_tan = name != 'lou_zhang_yoon'

    def step(inc, st):
        new, tan = model.state_update(inc, st)
        return (new, tan) if has_tan else (new,)
    bst = {k: torch.stack([torch.as_tensor(v)]*nb) for k, v in init.items()}
    for i in range(ns):
        incs = torch.stack([mat.tens(p[i]) for p in paths])
        out = torch.vmap(step)(incs, bst)
        bnew = out[0]
        ctx.ok('default-precision', torch.get_default_dtype() == dtype)
        torch.set_default_dtype(dtype)
        single, tans = [], []
        for j in range(nb):
            new, tan = model.state_update(
                incs[j], {k: v[j] for k, v in bst.items()})
            single.append(new)
            tans.append(tan)
        flags = {(bool(s['is_plast']), mat.failed(s)) for s in single}
        if len(flags) > 1:
            ctx.event('mixed-batch')
        ctx.state('batch', name, n_dim, dt, nb, sorted(flags),
                  round(spec.E, 3), i)
        for j in range(nb):
            ctx.event('batch-point')
            tag = f'{name} {n_dim}D {dt} batch {nb} point {j} ' \
                f'({kinds[j]}) step {i} {spec.par}'
            got = {k: v[j] for k, v in bnew.items()}
            ctx.ok('batch-fields', set(got) == set(single[j]), tag)
            for k in set(got) & set(single[j]):
                x, y = got[k], torch.as_tensor(single[j][k])
                if y.dtype == torch.bool:
                    ctx.same('batch-flag', x.reshape(()), y.reshape(()),
                             msg=f'{tag}: {k}')
                    continue
                sc = float(torch.nan_to_num(y).abs().max())
                sc = max(sc, abs(spec.law(0.)[0]) if 'stress' in k
                         else spec.yield_strain())
                ctx.close('batch-equals-single', x, y, rtol=2e-6
                          if dt == 'float64' else 2e-4, scale=sc,
                          msg=f'{tag}: {k}')
            if has_tan:
                ctx.close('batch-tangent', out[1][j], tans[j], rtol=1e-4,
                          msg=tag)
        # points that failed restart from their previous state
        bst = {k: torch.stack([
            (torch.as_tensor(single[j][k]).detach()
             if not mat.failed(single[j]) else bst[k][j])
            for j in range(nb)]) for k in bst}
    ctx.note(material=spec.describe(), batch=nb, kinds=str(kinds))


def cases(tier):
    rep = 3 if tier == 'quick' else 30
    out = []
    for r in range(rep):
        for name in mat.PLASTIC:
            for n in (2, 3):
                for j, kind in enumerate(mat.KINDS):
                    dt = 'float32' if (j + r) % 4 == 0 else 'float64'
                    out.append(('pair', dict(name=name, n_dim=n, kind=kind,
                                             dt=dt, rep=r)))
                for dt in ('float64', 'float32'):
                    for _ in range(2):
                        out.append(('batch', dict(name=name, n_dim=n, dt=dt,
                                                  rep=r)))
    return out
