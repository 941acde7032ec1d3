"""C05: rate-independent plasticity - admissibility, consistency, flow rule,
hardening measure and back-stress evolution on every step of a history."""
import math
import numpy as np
import torch
from vmon import ref, mat

PROPERTY = 'C05'
RULE = ('random materials of every plastic model (standard and vectorised) '
        'driven through hostile strain histories (proportional, cyclic, '
        'random walks over 3 decades, huge and tiny steps, pure shear, '
        'hydrostatic, exact reversals, steps that touch the yield surface) '
        'in plane strain and 3D; every step is an event judged against the '
        'Kuhn-Tucker conditions; non-trivial: distinct (model, variant, '
        'n_dim, path, branch taken, material)')
ASSUMPTIONS = ['isotropic elasticity; convex yield surfaces; non-softening '
               'hardening, concave curves', 'single Lou-Zhang-Yoon steps '
               'may be flagged as failed (half of the histories may not)', 'CPU device only']
REQUIRED_EVENTS = ('plastic', 'elastic', 'apex', 'cone', 'lou-plastic',
                   'mixed-plastic', 'lou-solved')
KEY = 'lou-apex-window'


def steps(ctx, name, n_dim, vmap, kind, f32=False, **kw):
    dtype = torch.float32 if f32 else torch.float64
    torch.set_default_dtype(dtype)
    spec = mat.Spec(ctx.rng, name)
    judge(ctx, spec, n_dim, vmap, kind, dtype)


def judge(ctx, spec, n_dim, vmap, kind, dtype, model=None):
    name = spec.name
    f32 = dtype == torch.float32
    tf = 4e-6 if not f32 else 2e-4      # on f / current strength
    G = spec.E/2/(1 + spec.nu)
    ctx.note(material=spec.describe(), path=kind, n_dim=n_dim)
    hist = []
    for i, inc, old, new, _ in mat.history(ctx, spec, n_dim, vmap, kind,
                                           dtype=dtype, model=model):
        o, v = mat.View(old, n_dim), mat.View(new, n_dim)
        if v.fail:
            # every hardening curve here is concave, so the return mapping of
            # the one-equation models always has a solution Newton reaches
            ctx.ok('solvable-step-solved', name == 'lou_zhang_yoon',
                   f'{name} vmap={vmap} {n_dim}D {kind} step {i} flagged as '
                   f'failed: {spec.par} inc={inc.tolist()}')
            break
        tag = f'{name} vmap={vmap} {n_dim}D {kind} step {i}: ' \
            f'{spec.par} inc={inc.tolist()} old acc={o.acc}'
        e_tr, s_tr = mat.trial(spec, o, inc)
        f_tr = spec.yield_value(s_tr, o.acc, o.back)
        dacc = v.acc - o.acc
        dep = v.ep - o.ep
        esc = max(np.abs(v.eps).max(), np.abs(v.e).max(), np.abs(inc).max(),
                  np.abs(o.ep).max(), v.acc, 1e-12)
        te = (3e-6 if f32 else 1e-9)*esc
        apex_l, pr = (False, 0.0)
        if name == 'lou_zhang_yoon':
            apex_l, pr = mat.lou_apex_window(spec, o, s_tr)
        window = apex_l and v.plast and pr < 1.0
        # the accumulated plastic strain never decreases, never negative
        ok = ctx.ok('hardening-monotone', dacc >= -te, tag
                    + f' acc {o.acc} -> {v.acc}', key=KEY if window else '')
        if not ok or v.acc < 0:
            break
        f = spec.yield_value(v.sig, v.acc, v.back)
        ctx.ok('admissible', f <= tf, tag + f' f={f:.3e}')
        margin = 1e-5 if not f32 else 3e-4
        if f_tr < -margin or (abs(f_tr) < 1e-12 and not np.any(inc)
                              and name != 'lou_zhang_yoon'):
            ctx.ok('elastic-inside', not v.plast, tag + f' f_trial={f_tr}')
        elif f_tr > margin:
            ctx.ok('plastic-outside', v.plast, tag + f' f_trial={f_tr}')
        if not v.plast:
            ctx.event('elastic')
            ctx.state(name, vmap, n_dim, kind, 'elastic', round(spec.E, 3))
            ctx.close('elastic-acc', v.acc, o.acc, rtol=0, atol=0)
            ctx.close('elastic-no-flow', dep, 0*dep, atol=te, msg=tag)
            if v.back is not None:
                ctx.close('elastic-back', v.back, o.back, rtol=0,
                          atol=1e-9*spec.s0 if not f32 else 1e-5*spec.s0)
            continue
        ctx.event('plastic')
        if dacc <= te:
            ctx.event('plastic-negligible')
        # consistency: a plastic step ends on the yield surface
        ctx.ok('consistency', abs(f) <= tf, tag + f' f={f:.3e}')
        ts = tf*20*max(1e-12, abs(spec.law(v.acc)[0]))
        branch = 'plastic'
        flow = None
        if name in ('von_mises', 'von_mises_mixed'):
            rel = ref.dev(v.sig) - (v.back if v.back is not None else 0)
            q = math.sqrt(1.5)*np.linalg.norm(rel)
            N = 1.5*rel/q
            flow = dacc*N
            ctx.close('isochoric', np.trace(dep), 0.0, atol=10*te, msg=tag)
            if v.back is not None:
                ctx.event('mixed-plastic')
                k1 = spec.laws['kinematic_'](v.acc)[0]
                k0 = spec.laws['kinematic_'](o.acc)[0]
                ctx.close('back-stress', v.back - o.back,
                          2/3*(k1 - k0)*N, atol=ts, msg=tag)
                ctx.close('back-stress-deviatoric', np.trace(v.back), 0.0,
                          atol=ts, msg=tag)
        elif name == 'drucker_prager':
            s = ref.dev(v.sig)
            r = math.sqrt(.5)*np.linalg.norm(s)
            K = spec.E/3/(1 - 2*spec.nu)
            if r > 1e-6*spec.s0:
                branch = 'cone'
                g = dacc/spec.xi
                flow = g*(s/(2*r) + spec.etaf/3*np.eye(3))
            else:
                branch = 'apex'
                dev_ev = np.trace(dep)
                ctx.close('apex-hardening', dacc,
                          spec.xi/spec.etaf*dev_ev, atol=100*te + 1e-4*dacc,
                          msg=tag)
                ctx.ok('apex-dilation', dev_ev >= -te, tag)
                # the apex is only reached when the cone return would leave
                # the cone
                rt = math.sqrt(.5)*np.linalg.norm(ref.dev(s_tr))
                pt = np.trace(s_tr)/3
                lo, hi = 0.0, (rt + spec.etay*max(pt, 0))/G + 1e-30
                for _ in range(80):
                    m = .5*(lo + hi)
                    c = spec.law(o.acc + spec.xi*m)[0]
                    if rt - G*m + spec.etay*(pt - K*spec.etaf*m) \
                            - spec.xi*c > 0:
                        lo = m
                    else:
                        hi = m
                ctx.ok('apex-needed', rt - G*lo <= 1e-5*max(rt, spec.s0),
                       tag + f' sqrtJ2 trial {rt} return {G*lo}')
                flow = None
            ctx.event(branch)
        else:
            ctx.event('lou-plastic')
            if apex_l:
                branch = 'lou-apex'
                ctx.event('lou-apex')
                a0, b0 = (spec.laws[k + '_'](0.0)[0] for k in 'ab')
                eta = 3*a0*b0
                al = 2/math.sqrt(3)*math.sqrt(1 - eta**2/3)/eta \
                    if eta > 1e-6 else None
                ctx.close('apex-hydrostatic', ref.dev(v.sig),
                          np.zeros((3, 3)), atol=ts, msg=tag)
                if al is not None:
                    ctx.close('apex-hardening', dacc, al*np.trace(dep),
                              atol=100*te*max(al, 1) + 1e-4*abs(dacc),
                              msg=tag)
            elif np.linalg.norm(ref.dev(v.sig)) > 1e-4*spec.s0:
                N = spec.lou_normal(v.sig, v.acc)
                nn = float(np.sum(N*N))
                g = float(np.sum(dep*N))/nn
                ctx.ok('flow-sign', g >= -te, tag)
                flow = g*N
                want = g if spec.assoc else \
                    g*math.sqrt(2/3)*math.sqrt(nn)
                ctx.close('hardening-measure', dacc, want,
                          atol=(3e-5 if not f32 else 1e-3)*(g + dacc)
                          + 30*te, msg=tag)
        if flow is not None:
            ctx.close('flow-rule', dep, flow, atol=30*te + (
                3e-5 if not f32 else 1e-3)*np.abs(flow).max()
                + tf*5*abs(spec.law(v.acc)[0])/spec.E, msg=tag)
            # complementary dissipation is non-negative (associative models)
        ctx.state(name, vmap, n_dim, kind, branch, round(spec.E, 3))
        hist.append(branch)


def lou_solved(ctx, vmap, n_dim):
    """Lou-Zhang-Yoon gives up on few ordinary histories only (about one in
    fifty here; half of them would be a solver that does not work)."""
    torch.set_default_dtype(torch.float64)
    bad = plast = 0
    n = 24
    for k in range(n):
        spec = mat.Spec(ctx.rng, 'lou_zhang_yoon')
        kind = ('proportional', 'cyclic', 'shear', 'uniaxial')[k % 4]
        for i, inc, old, new, _ in mat.history(ctx, spec, n_dim, vmap, kind,
                                               n=4):
            plast += bool(new['is_plast'])
            bad += mat.failed(new)
    ctx.event('lou-solved', n - bad)
    ctx.state('lou-solved', vmap, n_dim, plast)
    ctx.le('solvable-history-solved', bad, n/2, msg=f'{bad} of {n} ordinary '
           f'Lou-Zhang-Yoon histories (vmap={vmap}, {n_dim}D) were flagged '
           f'as failed')
    ctx.ok('solvable-history-yields', plast >= n/3, f'{plast} plastic steps')


def apex_window(ctx, vmap):
    """Directed: Lou-Zhang-Yoon trial pressure just below the apex."""
    torch.set_default_dtype(torch.float64)
    spec = mat.Spec(ctx.rng, 'lou_zhang_yoon')
    spec.E, spec.nu, spec.s0 = 1e5, .3, 100.0
    spec.par.update(E=spec.E, v=spec.nu)
    spec.add('', ('linear', {'s0': 100., 'a': 500.}, mat.hard_ref(
        'linear', {'s0': 100., 'a': 500.})))
    for k, x in zip('abcd', (math.sqrt(3), .1, 0., 0.)):
        p = {'s0': x, 'a': 0.}
        spec.add(k + '_', ('linear', p, mat.hard_ref('linear', p)))
    pa = 100/(3*math.sqrt(3)*.1)
    K, G = spec.E/3/(1 - 2*spec.nu), spec.E/2/(1 + spec.nu)
    inc = np.eye(3)*.97*pa/3/K
    inc[0, 1] = inc[1, 0] = 200/2/G
    model = spec.build(3, vmap)
    st0 = model.state_init()
    st, _ = mat.update(model, 3, mat.tens(inc), st0)
    ctx.event('step')
    ctx.state('apex-window', vmap)
    ctx.ok('hardening-monotone', mat.num(st['acc_p_strain']) >= 0,
           f'accumulated plastic strain {mat.num(st["acc_p_strain"])} after '
           f'a virgin step with trial pressure 0.97 of the apex pressure',
           key=KEY)


def cases(tier):
    out = []
    rep = 6 if tier == "quick" else 40
    for r in range(rep):
        for name in mat.PLASTIC:
            for vmap in (False, True):
                for n in (2, 3):
                    for kind in mat.KINDS:
                        out.append(('steps', dict(name=name, n_dim=n,
                                                  vmap=vmap, kind=kind,
                                                  rep=r)))
                    kind = mat.KINDS[(r*2 + n) % len(mat.KINDS)]
                    out.append(('steps', dict(name=name, n_dim=n, vmap=vmap,
                                              kind=kind, f32=True, rep=r)))
    out += [('lou_solved', dict(vmap=v, n_dim=n)) for v in (False, True)
            for n in (2, 3)]
    out += [('apex_window', dict(vmap=v)) for v in (False, True)]
    return out
