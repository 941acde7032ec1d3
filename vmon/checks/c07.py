"""C07: the returned tangent is the derivative of the returned stress."""
import numpy as np
import torch
from vmon import ref, mat

PROPERTY = 'C07'
RULE = ('at every step of random histories of every model that returns a '
        'tangent, the stress is re-evaluated with each strain component '
        'perturbed in both directions and the one-sided and central '
        'difference quotients are compared with the returned operator '
        '(steps where the one-sided quotients disagree sit on a kink and are '
        'not judged); non-trivial: distinct (model, variant, n_dim, branch, '
        'material, step)')
ASSUMPTIONS = ['float64', 'tangents are compared in Kelvin form',
               'Lou-Zhang-Yoon returns no tangent', 'CPU device only']
REQUIRED_EVENTS = ('judged-plastic', 'judged-elastic', 'judged-apex',
                   'judged-mixed', 'judged-cone')


def stress(model, n_dim, inc, st):
    new, _ = mat.update(model, n_dim, mat.tens(inc), st)
    return None if mat.failed(new) else (mat.vec(new['stress_mf']),
                                         bool(new['is_plast']))


def steps(ctx, name, n_dim, vmap, kind, rep=0):
    torch.set_default_dtype(torch.float64)
    spec = mat.Spec(ctx.rng, name)
    model = spec.build(n_dim, vmap)
    C = ref.iso_tensor(spec.E, spec.nu)[:n_dim, :n_dim, :n_dim, :n_dim]
    Cm = ref.mf4(C, ref.SYM[n_dim])
    order = ref.SYM[n_dim]
    for i, inc, old, new, tan in mat.history(ctx, spec, n_dim, vmap, kind,
                                             n=8, model=model):
        if mat.failed(new):
            break
        v = mat.View(new, n_dim)
        tag = f'{name} vmap={vmap} {n_dim}D {kind} step {i} {spec.par}'
        if not v.plast:
            ctx.event('judged-elastic')
            ctx.close('elastic-tangent', tan, Cm, rtol=1e-10, msg=tag)
            ctx.state(name, vmap, n_dim, 'elastic', round(spec.E, 3), i)
            continue
        h = 2e-5*spec.yield_strain()
        base = mat.vec(new['stress_mf'])
        fwd = np.zeros((len(order),)*2)
        bwd = np.zeros_like(fwd)
        good = True
        for c, comp in enumerate(order):
            d = np.zeros(len(order))
            d[c] = h
            dT = ref.unmf2(d, n_dim, order)
            p = stress(model, n_dim, inc + dT, old)
            m = stress(model, n_dim, inc - dT, old)
            if p is None or m is None or not (p[1] and m[1]):
                good = False
                break
            fwd[:, c] = (p[0] - base)/h
            bwd[:, c] = (base - m[0])/h
        if not good:
            ctx.event('kink-skipped')
            continue
        sc = np.abs(Cm).max()
        # Newton tolerance and curvature bound what differences can resolve
        if np.abs(fwd - bwd).max() > 2e-3*sc:
            ctx.event('kink-skipped')
            continue
        branch = 'plastic'
        if name == 'drucker_prager':
            branch = 'apex' if np.linalg.norm(ref.dev(v.sig)) < 1e-6*spec.s0 \
                else 'cone'
            ctx.event('judged-' + branch)
        if name == 'von_mises_mixed':
            ctx.event('judged-mixed')
        ctx.event('judged-plastic')
        ctx.state(name, vmap, n_dim, branch, round(spec.E, 3), i)
        ctx.close('consistent-tangent', tan, .5*(fwd + bwd), rtol=3e-3,
                  scale=sc, msg=tag)
        if name != 'drucker_prager' or spec.etay == spec.etaf:
            t = mat.vec(tan)
            ctx.close('tangent-symmetric', t, t.T, rtol=1e-9, scale=sc,
                      msg=tag)
    ctx.note(material=spec.describe(), path=kind)


def cases(tier):
    rep = 9 if tier == 'quick' else 60
    return [('steps', dict(name=m, n_dim=n, vmap=v, kind=k, rep=r))
            for r in range(rep)
            for m in ('von_mises', 'von_mises_mixed', 'drucker_prager')
            for v in (False, True) for n in (2, 3)
            for k in ('proportional', 'cyclic', 'walk', 'big', 'shear',
                      'hydro', 'uniaxial')]
