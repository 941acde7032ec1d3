"""C09: isotropy (frame indifference) and plane strain as a restriction of
3D, for every constitutive model."""
import numpy as np
import torch
from vmon import ref, mat

PROPERTY = 'C09'
RULE = ('random materials and histories; the same history is run in a '
        'randomly rotated (or reflected, or axis-permuted) frame and, for '
        'in-plane histories, in plane strain and in 3D with zero out-of-plane '
        'strain; all outputs are compared after transforming back; '
        'non-trivial: distinct (relation, model, variant, path, plastic, '
        'material)')
ASSUMPTIONS = ['isotropic elasticity', 'both runs solve to the same '
               'tolerance', 'CPU device only']
REQUIRED_EVENTS = ('rotated-step', 'plane-step', 'plastic')
ALL = ('elastic',) + mat.PLASTIC


def rotation(rng):
    k = rng.random()
    if k < .6:
        return ref.rand_rot(rng)
    if k < .8:
        return ref.rand_rot(rng)@np.diag([1, 1, -1.])
    p = rng.permutation(3)
    return np.eye(3)[p]


def compare(ctx, rule, a, b, spec, Q, tag):
    s0 = abs(spec.law(0.)[0]) if spec.laws else \
        spec.E*spec.yield_strain()
    for k in ('e', 'eps', 'sig', 'back'):
        x, y = getattr(a, k), getattr(b, k)
        if x is None:
            continue
        y = Q.T@y@Q
        sc = max(np.abs(x).max(), s0 if k in ('sig', 'back') else
                 spec.yield_strain())
        ctx.close(rule, y, x, rtol=5e-5, scale=sc, msg=f'{tag}: {k}')
    ctx.close(rule + '-acc', b.acc, a.acc, rtol=2e-4,
              atol=1e-5*spec.yield_strain(), msg=tag)
    ctx.ok(rule + '-flag', a.plast == b.plast, tag)


def edge(spec, o, inc):
    _, s = mat.trial(spec, o, inc)
    if not spec.laws:
        return False
    if abs(spec.yield_value(s, o.acc, o.back)) < 1e-4:
        return True
    if spec.name == 'lou_zhang_yoon':
        _, pr = mat.lou_apex_window(spec, o, s)
        if abs(pr - .95) < 1e-3:
            return True
        # near-hydrostatic states: the invariants lose their digits
        return np.linalg.norm(ref.dev(s)) < 1e-3*spec.s0
    return False


def rotated(ctx, name, vmap, kind, rep=0):
    torch.set_default_dtype(torch.float64)
    spec = mat.Spec(ctx.rng, name)
    model = spec.build(3, vmap)
    Q = rotation(ctx.rng)
    a, b = model.state_init(), model.state_init()
    for i, inc in enumerate(mat.path(ctx.rng, kind, 3, spec.yield_strain(),
                                     9)):
        if edge(spec, mat.View(a, 3), inc):
            ctx.event('knife-edge-skipped')
            break
        a, ta = mat.update(model, 3, mat.tens(inc), a)
        b, tb = mat.update(model, 3, mat.tens(Q@inc@Q.T), b)
        va, vb = mat.View(a, 3), mat.View(b, 3)
        if va.fail or vb.fail or va.acc < 0:
            ctx.event('failure-skipped')
            break
        ctx.event('rotated-step')
        if va.plast:
            ctx.event('plastic')
        ctx.state('rot', name, vmap, kind, va.plast, round(spec.E, 3))
        tag = f'{name} vmap={vmap} {kind} step {i} rotated {spec.par}'
        compare(ctx, 'frame-indifference', va, vb, spec, Q, tag)
        if ta is not None:
            T = ref.unmf4(mat.vec(tb), 3, ref.SYM[3])
            T = np.einsum('ai,bj,ck,dl,abcd->ijkl', Q, Q, Q, Q, T)
            ctx.close('tangent-frame', ref.mf4(T, ref.SYM[3]), ta,
                      rtol=2e-3, msg=tag)
    ctx.note(material=spec.describe(), rotation=Q)


def plane(ctx, name, vmap, kind, rep=0):
    torch.set_default_dtype(torch.float64)
    spec = mat.Spec(ctx.rng, name)
    m2, m3 = spec.build(2, vmap), spec.build(3, vmap)
    a, b = m2.state_init(), m3.state_init()
    pick = [ref.SYM[3].index(c) for c in ref.SYM[2]]
    for i, inc in enumerate(mat.path(ctx.rng, kind, 2, spec.yield_strain(),
                                     9)):
        inc3 = np.zeros((3, 3))
        inc3[:2, :2] = inc
        if edge(spec, mat.View(b, 3), inc3):
            ctx.event('knife-edge-skipped')
            break
        a, ta = mat.update(m2, 2, mat.tens(inc), a)
        b, tb = mat.update(m3, 3, mat.tens(inc3), b)
        va, vb = mat.View(a, 2), mat.View(b, 3)
        if va.fail or vb.fail or va.acc < 0:
            ctx.event('failure-skipped')
            break
        ctx.event('plane-step')
        if va.plast:
            ctx.event('plastic')
        ctx.state('plane', name, vmap, kind, va.plast, round(spec.E, 3))
        tag = f'{name} vmap={vmap} {kind} step {i} plane strain {spec.par}'
        compare(ctx, 'plane-strain', va, vb, spec, np.eye(3), tag)
        if ta is not None:
            ctx.close('plane-tangent', ta, mat.vec(tb)[np.ix_(pick, pick)],
                      rtol=1e-6, msg=tag)
    ctx.note(material=spec.describe())


def cases(tier):
    rep = 6 if tier == 'quick' else 40
    out = []
    for r in range(rep):
        for name in ALL:
            for vmap in ((False, True) if name != 'elastic' else (False,)):
                for kind in mat.KINDS:
                    out.append(('rotated', dict(name=name, vmap=vmap,
                                                kind=kind, rep=r)))
                    out.append(('plane', dict(name=name, vmap=vmap,
                                              kind=kind, rep=r)))
    return out
