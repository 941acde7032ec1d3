"""C15: learnable material parameters - synchronisation, normalisation,
bounds, constraints and exact gradients."""
import copy
import math
import numpy as np
import torch
from vmon import mat, rc, ref
from simulators.fetorch.material.models.standard.lou import LouZhangYoon

PROPERTY = 'C15'
RULE = ('random materials with random subsets of learnable parameters, '
        'normalised or not, under random sequences of parameter changes; '
        'predictions are compared with a material built with the changed '
        'values and gradients with central differences of such materials; '
        'non-trivial: distinct (model, variant, parameters, normalised, '
        'step)')
ASSUMPTIONS = ['gradients are judged away from kinks: steps where the '
               'one-sided difference quotients disagree are skipped',
               'Lou convexity judged with both shape parameters learnable',
               'CPU device only']
REQUIRED_EVENTS = ('prediction', 'gradient', 'bounds', 'convexity',
                   'plastic-gradient', 'friction-gradient')

KEYS = {'von_mises': ['E', 'v', 's0', 'a', 'b'],
        'von_mises_mixed': ['E', 'v', 's0', 'a', 'b', 'kin_s0', 'kin_a',
                            'kin_b'],
        'drucker_prager': ['E', 'v', 's0', 'a', 'b',
                           'yield_cohesion_parameter',
                           'yield_pressure_parameter',
                           'flow_pressure_parameter'],
        'lou_zhang_yoon': ['E', 'v', 's0', 'a', 'b'] + [
            f'yield_{k}_s0' for k in 'abcd'],
        'elastic': ['E', 'v']}


def locate(spec, key):
    """(dictionary, name) of a learnable parameter in the plain material."""
    if key in ('s0', 'a', 'b'):
        return spec.par['hardening_parameters'], key
    if key.startswith('kin_'):
        return spec.par['kinematic_hardening_parameters'], key[4:]
    if key.startswith('yield_') and key[6:7] in 'abcd' and key[7] == '_':
        return spec.par[key[6] + '_hardening_parameters'], key[8:]
    return spec.par, key


def usable(spec):
    out = []
    for k in KEYS[spec.name]:
        d, n = locate(spec, k)
        if n in d and 'hardening_points' not in d:
            if k == 'b' and d.get('b', 0) > .95:
                continue
            out.append(k)
    return out


def with_values(spec, vals):
    s = copy.deepcopy({'p': spec.par})['p']
    new = copy.copy(spec)
    new.par = s
    for k, v in vals.items():
        d, n = locate(new, k)
        d[n] = float(v)
    new.laws = {p: mat.hard_ref(s[p + 'hardening_law'],
                                s[p + 'hardening_parameters'])
                for p in spec.laws}
    return new


def make(ctx, name, vmap, n_dim, norm, keys=None, auto=True):
    kinds = str(ctx.rng.choice(['linear', 'nadai_ludwik']))
    spec = mat.Spec(ctx.rng, name, kinds=kinds)
    if name == 'von_mises_mixed' and \
            spec.par['kinematic_hardening_law'] == 'piecewise_linear':
        spec.add('kinematic_', mat.rand_hardening(ctx.rng, spec.s0, kinds))
    pool = keys or usable(spec)
    if keys is None:
        m = int(ctx.rng.integers(1, len(pool) + 1))
        pool = [pool[i] for i in ctx.rng.permutation(len(pool))[:m]]
    learn, vals = {}, {}
    for k in pool:
        d, n = locate(spec, k)
        v = d[n]
        w = .15*abs(v) if v else .05
        if k == 'v':
            w = min(w, .03)
        lo, hi = v - w*ctx.rng.uniform(.2, 1), v + w*ctx.rng.uniform(.2, 1)
        learn[k] = {'initial_value': float(v), 'bounds': (lo, hi)}
        vals[k] = float(v)
    model = rc.make(spec, n_dim, ctx.tmpdir(), vmap, learnable=learn,
                    norm=norm, is_auto_sync_parameters=auto)
    return spec, model, learn, vals


def stress_of(spec, n_dim, vmap, path):
    st = rc.drive(spec.build(n_dim, vmap), n_dim, path)
    if rc.first_bad(st) < len(st):
        return None, None
    return rc.stress_rows(st, n_dim), [bool(s['is_plast']) for s in st]


def to_norm(v, b):
    return -1 + 2*(v - b[0])/(b[1] - b[0])


def history(ctx, name, vmap, n_dim, norm, steps):
    torch.set_default_dtype(torch.float64)
    spec, model, learn, vals = make(ctx, name, vmap, n_dim, norm)
    P = model.get_model_parameters()
    ctx.same('parameter-names', set(P.keys()), set(learn))
    for k, p in P.items():
        ctx.ok('requires-grad', p.requires_grad and isinstance(
            p, torch.nn.Parameter), k)
    ctx.same('registered', len(list(model.parameters())), len(learn))

    def check_values(tag):
        det = model.get_detached_model_parameters()
        detn = model.get_detached_model_parameters(is_normalized_out=True) \
            if norm else None
        b = model.get_model_parameters_bounds()
        for k in learn:
            ctx.close('detached-value', det[k], vals[k], rtol=1e-9,
                      scale=abs(vals[k]) + .1,
                      msg=f'{tag} {k}')
            ctx.same('bounds-kept', tuple(b[k]), tuple(learn[k]['bounds']))
            if norm:
                ctx.close('normalised-value', detn[k],
                          to_norm(vals[k], learn[k]['bounds']), atol=1e-9,
                          msg=f'{tag} {k}')
                ctx.same('norm-bounds',
                         tuple(model.get_model_parameters_norm_bounds()[k]),
                         (-1., 1.))
                for v in (vals[k], learn[k]['bounds'][0], vals[k]*1.7):
                    n = model.transform_parameter(k, v, 'normalize')
                    ctx.close('normalise', n,
                              to_norm(v, learn[k]['bounds']), rtol=1e-9,
                              scale=10)
                    ctx.close('denormalise-inverts',
                              model.transform_parameter(k, n, 'denormalize'),
                              v, rtol=1e-9, scale=abs(v) + 1e-6)
            ctx.close('parameter-value', P[k], to_norm(
                vals[k], learn[k]['bounds']) if norm else vals[k],
                rtol=1e-9, scale=max(1, abs(vals[k])), msg=f'{tag} {k}')
        # a returned table is the caller's own
        b.clear()
        det.clear()
    tag0 = f'{name} {n_dim}D vmap={vmap} norm={norm} {list(learn)}'
    check_values(tag0)
    for step in range(steps):
        op = str(ctx.rng.choice(['set', 'set', 'bounds']))
        if op == 'set':
            for k in learn:
                if ctx.rng.random() < .6:
                    lo, hi = learn[k]['bounds']
                    vals[k] = float(lo + (hi - lo)*ctx.rng.uniform(.05, .95))
                    with torch.no_grad():
                        P[k].fill_(to_norm(vals[k], (lo, hi)) if norm
                                   else vals[k])
        else:
            ctx.event('bounds')
            for k in learn:
                lo, hi = learn[k]['bounds']
                v = vals[k] + (hi - lo)*ctx.rng.uniform(-1.5, 1.5)
                with torch.no_grad():
                    P[k].fill_(to_norm(v, (lo, hi)) if norm else v)
                vals[k] = min(max(v, lo), hi)
            model.enforce_parameters_bounds()
        tag = f'{tag0} step {step} {op}'
        check_values(tag)
        now = with_values(spec, vals)
        path = rc.strain_path(ctx.rng, now, n_dim, n=6)
        S, pl = stress_of(now, n_dim, vmap, path)
        if S is None:
            continue
        y = model(torch.tensor(path))
        ctx.event('prediction')
        ctx.state(name, vmap, n_dim, norm, tuple(learn), step, sum(pl))
        sc = max(abs(S).max(), now.law(0.)[0] if now.laws else 1e-9)
        ctx.close('prediction-uses-current-values',
                  y.detach().numpy(), S, rtol=2e-5, scale=sc, msg=tag)
        # explicit synchronisation exposes the same values to the material
        model.sync_material_model_parameters()
        mp = model.get_material_model_parameters()
        for k in learn:
            d, n = locate(type('X', (), {'par': mp, 'laws': {}})(), k)
            ctx.close('synchronised', float(d[n]), vals[k], rtol=1e-9,
                      scale=abs(vals[k]) + .1,
                      msg=f'{tag} {k}')
    if learn:
        k = list(learn)[0]
        model.freeze_parameter(k)
        ctx.ok('freeze', not P[k].requires_grad and all(
            P[q].requires_grad for q in learn if q != k), tag0)
        ctx.raises('freeze-unknown', lambda: model.freeze_parameter('zzz'))


def gradients(ctx, name, vmap, n_dim, norm, long=False):
    """d(loss)/d(parameter) by back-propagation equals the difference
    quotient of the physical response."""
    torch.set_default_dtype(torch.float64)
    spec, model, learn, vals = make(ctx, name, vmap, n_dim, norm)
    path = rc.strain_path(ctx.rng, spec, n_dim,
                          str(ctx.rng.choice(['proportional', 'cyclic',
                                              'walk', 'uniaxial',
                                              'reversal'])),
                          n=int(ctx.rng.integers(27, 60)) if long else 5)
    if long:
        ctx.event('long-history')
    if ctx.rng.random() < .5:
        # a step without strain: no response, and no harm to gradients
        path = np.vstack([path[:1], path])
        ctx.event('null-step')
    S, pl = stress_of(spec, n_dim, vmap, path)
    if S is None:
        ctx.event('skipped')
        return
    W = ctx.rng.standard_normal(S.shape)/max(abs(S).max(), 1e-9)
    y = model(torch.tensor(path))
    loss = (torch.tensor(W)*y).sum()
    if loss.requires_grad:
        loss.backward()     # else: judged below as a zero gradient
    for k in learn:
        p = model.get_model_parameters()[k]
        g = float(p.grad) if p.grad is not None else 0.
        lo, hi = learn[k]['bounds']
        if norm:
            g = g*2/(hi - lo)
        h = (abs(vals[k]) or 1.)*1e-4
        q = []
        for s in (-h, h):
            Y, _ = stress_of(with_values(spec, {**vals, k: vals[k] + s}),
                             n_dim, vmap, path)
            q.append(None if Y is None else float((W*Y).sum()))
        if None in q:
            continue
        f0 = float((W*S).sum())
        left, right = (f0 - q[0])/h, (q[1] - f0)/h
        ref_ = .5*(left + right)
        unit = 1/(abs(vals[k]) or 1.)
        sc = max(abs(ref_), .05*unit)
        if abs(left - right) > .02*sc:
            ctx.event('kink-skipped')
            continue
        ctx.event('gradient')
        if any(pl):
            ctx.event('plastic-gradient')
        ctx.state('grad', name, vmap, n_dim, norm, k, sum(pl),
                  round(spec.E, 2))
        ctx.close('parameter-gradient', g, ref_, rtol=.02, scale=sc,
                  msg=f'{name} {n_dim}D vmap={vmap} norm={norm} d/d{k} '
                      f'{spec.par} plastic={pl}')


def cone(spec, phi):
    return with_values(spec, {
        'yield_cohesion_parameter': 2/math.sqrt(3)*math.cos(phi),
        'yield_pressure_parameter': 3/math.sqrt(3)*math.sin(phi),
        'flow_pressure_parameter': 3/math.sqrt(3)*math.sin(phi)})


def friction(ctx, vmap, n_dim, norm=False):
    """A learnable friction angle sets the three cone parameters, and the
    gradient with respect to it goes through all of them."""
    torch.set_default_dtype(torch.float64)
    spec = mat.Spec(ctx.rng, 'drucker_prager', kinds='linear')
    phi = float(ctx.rng.uniform(.1, .5))
    lo, hi = .05, .6
    model = rc.make(spec, n_dim, ctx.tmpdir(), vmap, norm=norm, learnable={
        'friction_angle': {'initial_value': phi, 'bounds': (lo, hi)}})
    for rep in range(2):
        now = cone(spec, phi)
        path = rc.strain_path(ctx.rng, now, n_dim, 'proportional', n=5)
        S, pl = stress_of(now, n_dim, vmap, path)
        if S is None:
            continue
        p = model.get_model_parameters()['friction_angle']
        p.grad = None
        y = model(torch.tensor(path))
        ctx.event('prediction')
        ctx.state('friction', vmap, n_dim, norm, round(phi, 4))
        ctx.close('friction-angle', y.detach().numpy(), S, rtol=2e-5,
                  scale=max(abs(S).max(), 1e-9), msg=f'{phi} {spec.par}')
        W = ctx.rng.standard_normal(S.shape)/max(abs(S).max(), 1e-9)
        loss = (torch.tensor(W)*y).sum()
        if loss.requires_grad:
            loss.backward()
        g = float(p.grad) if p.grad is not None else 0.
        if norm:
            g = g*2/(hi - lo)
        h = 1e-5
        q = [stress_of(cone(spec, phi + s), n_dim, vmap, path)[0]
             for s in (-h, h)]
        if q[0] is not None and q[1] is not None:
            f0, fl, fr = (float((W*Y).sum()) for Y in (S, *q))
            left, right = (f0 - fl)/h, (fr - f0)/h
            sc = max(abs(left + right)/2, .05)
            if abs(left - right) <= .02*sc:
                ctx.event('friction-gradient')
                ctx.close('friction-gradient', g, .5*(left + right),
                          rtol=.02, scale=sc, msg=f'{phi} {spec.par} '
                          f'plastic={pl}')
        phi = float(ctx.rng.uniform(.1, .5))
        with torch.no_grad():
            p.fill_(to_norm(phi, (lo, hi)) if norm else phi)


def manual_sync(ctx, name, vmap, n_dim):
    """Without automatic synchronisation, values reach the material only when
    synchronised."""
    torch.set_default_dtype(torch.float64)
    spec, model, learn, vals = make(ctx, name, vmap, n_dim, False,
                                    keys=['E'], auto=False)
    path = rc.strain_path(ctx.rng, spec, n_dim, 'uniaxial', n=4)
    old, _ = stress_of(spec, n_dim, vmap, path)
    v = vals['E']*1.1
    new, _ = stress_of(with_values(spec, {'E': v}), n_dim, vmap, path)
    if old is None or new is None:
        return
    with torch.no_grad():
        model.get_model_parameters()['E'].fill_(v)
    ctx.event('prediction')
    ctx.state('manual', name, vmap, n_dim)
    y = model(torch.tensor(path)).detach().numpy()
    ctx.close('not-synchronised', y, old, rtol=2e-5, scale=abs(old).max())
    model.sync_material_model_parameters()
    y = model(torch.tensor(path)).detach().numpy()
    ctx.close('synchronised-on-request', y, new, rtol=2e-5,
              scale=abs(new).max())


def convexity(ctx, norm, reps):
    torch.set_default_dtype(torch.float64)
    for r in range(reps):
        spec = mat.Spec(ctx.rng, 'lou_zhang_yoon', kinds='linear')
        c, d = ctx.rng.uniform(-4, 3.5), ctx.rng.uniform(-2, 2)
        if r % 5 == 0:
            d = 0.
        if r % 5 == 1:
            c, d = c*.2, d*.2
        learn = {k: {'initial_value': float(v), 'bounds': (-5., 5.)}
                 for k, v in (('yield_c_s0', c), ('yield_d_s0', d))}
        if r % 2:
            learn['E'] = {'initial_value': spec.E,
                          'bounds': (spec.E*.5, spec.E*2)}
        model = rc.make(spec, 3, ctx.tmpdir(), r % 3 == 0, learnable=learn,
                        norm=norm)
        before = model.get_detached_model_parameters()
        conv = mat.lou_convexity(c, d)
        model.enforce_parameters_constraints()
        v = model.get_detached_model_parameters()
        c2, d2 = v['yield_c_s0'], v['yield_d_s0']
        ctx.event('convexity')
        ctx.state('convex', norm, conv > 0, round(c, 4), round(d, 4))
        tag = f'c={c} d={d} -> {c2} {d2}'
        if conv > 1e-2:
            ctx.close('convex-untouched', (c2, d2), (c, d), rtol=1e-9,
                      scale=5, msg=tag)
        elif conv < -1e-2:
            # moved towards the von Mises point, onto the convex boundary
            ctx.close('same-direction', c2*d - d2*c, 0., atol=1e-5, msg=tag)
            ctx.ok('towards-origin', c2*c + d2*d >= -1e-9 and
                   math.hypot(c2, d2) < math.hypot(c, d), tag)
            ctx.ok('convex-after', mat.lou_convexity(.99*c2, .99*d2) > -1e-2,
                   tag)
            ctx.ok('on-boundary', mat.lou_convexity(1.03*c2, 1.03*d2) < 1e-2,
                   tag)
        if 'E' in learn:
            ctx.close('others-untouched', v['E'], before['E'], rtol=1e-12)


def rejects(ctx):
    spec = mat.Spec(ctx.rng, 'von_mises', kinds='linear')
    ctx.raises('inverted-bounds', lambda: rc.make(
        spec, 3, ctx.tmpdir(), learnable={
            'E': {'initial_value': 1., 'bounds': (2., 1.)}}))
    for name in KEYS:
        s = mat.Spec(ctx.rng, name, kinds='linear')
        m = rc.make(s, 3, ctx.tmpdir(), learnable={
            'nonsense': {'initial_value': 1., 'bounds': (0., 2.)}})
        ctx.raises('unknown-parameter', lambda: m(torch.zeros(2, 6)))
    m = rc.make(spec, 3, ctx.tmpdir(), norm=True, learnable={
        'E': {'initial_value': 1., 'bounds': (0., 2.)}})
    ctx.raises('unknown-transform',
               lambda: m.transform_parameter('E', 1., 'zzz'))


def cases(tier):
    q = tier == 'quick'
    out = [('rejects', {}), ('convexity', dict(norm=False,
                                               reps=12 if q else 150)),
           ('convexity', dict(norm=True, reps=12 if q else 150))]
    for r in range(5 if q else 40):
        i = r
        for name in KEYS:
            for vmap in ((False,) if name == 'elastic' else (False, True)):
                for n_dim in (2, 3):
                    i += 1
                    for norm in (False, True):
                        out.append(('history', dict(
                            name=name, vmap=vmap, n_dim=n_dim, norm=norm,
                            steps=2 if q else 5)))
                    for g in range(1 if q else 2):
                        out.append(('gradients', dict(
                            name=name, vmap=vmap, n_dim=n_dim,
                            norm=bool((i + g) % 2))))
                    if r % 5 == 0:
                        out.append(('gradients', dict(
                            name=name, vmap=vmap, n_dim=n_dim,
                            norm=bool(i % 2), long=True)))
                    out.append(('manual_sync', dict(name=name, vmap=vmap,
                                                    n_dim=n_dim)))
        for vmap in (False, True):
            for n_dim in (2, 3):
                out += [('friction', dict(vmap=vmap, n_dim=n_dim, norm=x))
                        for x in (False, True)]*2
    return out
