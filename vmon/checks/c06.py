"""C06: state-update bookkeeping - additive strain, elastic law, purity,
determinism, precision discipline and honest failure flags."""
import copy
import numpy as np
import torch
from vmon import ref, mat

PROPERTY = 'C06'
RULE = ('every model (standard and vectorised) in both default precisions, '
        'driven through hostile histories including injected NaN/inf '
        'increments and materials whose return mapping cannot converge; the '
        'inputs are snapshotted before and compared bitwise after every call, '
        'two histories are interleaved on one model, and steps are replayed '
        'from copied states; non-trivial: distinct (model, variant, n_dim, '
        'precision, path, outcome, material)')
ASSUMPTIONS = ['isotropic elasticity', 'CPU device only',
               'a call that raises is outside this property']
REQUIRED_EVENTS = ('step', 'interleaved', 'replayed', 'flagged-failure',
                   'fault-injected')
ALL = ('elastic',) + mat.PLASTIC


def same_state(ctx, rule, a, b, msg):
    ctx.ok(rule + '-keys', set(a) == set(b), f'{msg}: {set(a) ^ set(b)}')
    for k in set(a) & set(b):
        x, y = a[k], b[k]
        x = x.detach() if isinstance(x, torch.Tensor) else torch.tensor(x)
        y = y.detach() if isinstance(y, torch.Tensor) else torch.tensor(y)
        ctx.same(rule, x, y, msg=f'{msg}: {k}')


def steps(ctx, name, n_dim, vmap, kind, dt, rep=0):
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    r = 4e-6 if dt == 'float32' else 1e-11
    spec = mat.Spec(ctx.rng, name)
    C = ref.iso_tensor(spec.E, spec.nu)
    model = spec.build(n_dim, vmap)
    twin = spec.build(n_dim, vmap)
    par = copy.deepcopy(model.get_model_parameters())
    st = model.state_init()
    for k, v in st.items():
        ctx.ok('initial-zero', not np.any(
            np.asarray(v.detach() if isinstance(v, torch.Tensor) else v,
                       dtype=float)), f'{name} initial {k} = {v}')
    other = model.state_init()      # second history on the same model
    other_t = twin.state_init()
    incs = mat.path(ctx.rng, kind, n_dim, spec.yield_strain(), 10)
    incs2 = mat.path(ctx.rng, 'walk', n_dim, spec.yield_strain(), len(incs))
    tot = np.zeros((3, 3))
    esc = 0.0
    for i, inc in enumerate(incs):
        tag = f'{name} vmap={vmap} {n_dim}D {dt} {kind} step {i}'
        t = mat.tens(inc)
        inc = t.double().numpy()
        tin, sin = t.clone(), mat.snapshot(st)
        new, tan = mat.update(model, n_dim, t, st)
        ctx.event('step')
        ctx.ok('default-precision', torch.get_default_dtype() == dtype,
               f'{tag}: default precision is {torch.get_default_dtype()}')
        torch.set_default_dtype(dtype)
        ctx.same('strain-unchanged', t, tin, msg=tag)
        same_state(ctx, 'state-unchanged', st, sin, tag)
        ctx.ok('same-fields', set(new) == set(st),
               f'{tag}: {set(new) ^ set(st)}')
        for k, v in new.items():
            if isinstance(v, torch.Tensor) and v.is_floating_point():
                ctx.ok('output-precision', v.dtype == dtype,
                       f'{tag}: {k} has {v.dtype}')
                ctx.ok('output-shape', not isinstance(st[k], torch.Tensor)
                       or v.shape == st[k].shape, f'{tag}: {k} {v.shape}')
        # deterministic and memoryless: replay from copies
        same_params(ctx, model, par, tag)
        rep_, tan2 = mat.update(twin, n_dim, tin, sin)
        ctx.event('replayed')
        same_state(ctx, 'deterministic', rep_, new, tag)
        if tan is not None:
            ctx.same('deterministic-tangent', tan2, tan, msg=tag)
        # a second, interleaved history on the same model
        t2 = mat.tens(incs2[i])
        if not (mat.failed(other) or mat.failed(other_t)):
            other, _ = mat.update(model, n_dim, t2, other)
            other_t, _ = mat.update(twin, n_dim, t2, other_t)
            ctx.event('interleaved')
            same_state(ctx, 'independent-histories', other, other_t, tag)
        v = mat.View(new, n_dim)
        if v.fail:
            flagged(ctx, new, tag)
            break
        finite(ctx, new, tan, tag)
        e = np.zeros((3, 3))
        e[:n_dim, :n_dim] = inc
        tot = tot + e
        esc = max(esc, np.abs(tot).max(), np.abs(inc).max(),
                  np.abs(v.e).max())
        ctx.close('strain-additive', v.eps, tot, rtol=r*4, scale=esc + 1e-300,
                  msg=tag)
        ctx.close('elastic-law', v.sig, np.einsum('ijkl,kl->ij', C, v.e),
                  rtol=r*10, scale=np.abs(C).max()*max(np.abs(v.e).max(),
                                                       1e-300), msg=tag)
        ctx.state(name, vmap, n_dim, dt, kind, v.plast, round(spec.E, 3))
        # a null increment changes nothing
        if i in (3, 7):
            z, _ = mat.update(model, n_dim, torch.zeros_like(t), new)
            w = mat.View(z, n_dim)
            if not w.fail:
                ctx.close('null-step-stress', w.sig, v.sig, rtol=2e-5,
                          scale=np.abs(v.sig).max() + spec.s0*1e-3, msg=tag)
                ctx.close('null-step-strain', w.eps, v.eps, rtol=r,
                          scale=esc, msg=tag)
                ctx.close('null-step-acc', w.acc, v.acc, rtol=1e-4,
                          atol=1e-5*spec.yield_strain()*30, msg=tag)
        st = new
    ctx.note(material=spec.describe(), path=kind)


def same_params(ctx, model, par, tag):
    def eq(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and set(a) == set(b) \
                and all(eq(a[k], b[k]) for k in a)
        if isinstance(a, torch.Tensor):
            return isinstance(b, torch.Tensor) and a.dtype == b.dtype \
                and bool(torch.equal(a, b))
        if callable(a):
            return True
        return type(a) is type(b) and a == b
    now = model.get_model_parameters()
    ctx.ok('parameters-unchanged', eq(par, now),
           f'{tag}: model parameters changed from {par} to {now}')


def finite(ctx, st, tan, tag):
    for k, v in st.items():
        if isinstance(v, torch.Tensor) and v.is_floating_point():
            ctx.ok('finite-unless-flagged', bool(torch.isfinite(v).all()),
                   f'{tag}: {k} = {v} on a step not flagged as failed')
    if tan is not None:
        ctx.ok('finite-tangent', bool(torch.isfinite(tan).all()),
               f'{tag}: tangent not finite')


def flagged(ctx, st, tag):
    ctx.event('flagged-failure')
    s = st['stress_mf']
    ctx.ok('failure-poisons-stress', not bool(torch.isfinite(s).all()),
           f'{tag}: flagged as failed but stress is finite: {s}')
    if 'acc_p_strain' in st:
        ctx.ok('failure-poisons-internal',
               not np.isfinite(mat.num(st['acc_p_strain'])),
               f'{tag}: flagged as failed but the accumulated plastic strain '
               f'is {st["acc_p_strain"]}')


def faults(ctx, name, n_dim, vmap, fault, dt='float64'):
    """A step that cannot be computed is flagged, never silently wrong."""
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    rng = ctx.rng
    spec = mat.Spec(rng, name)
    if fault == 'softening' and name != 'drucker_prager':
        # no solution exists: strength vanishes faster than stress relaxes
        G = spec.E/2/(1 + spec.nu)
        p = {'s0': spec.s0, 'a': -3.0*G*float(rng.uniform(1.5, 6))}
        spec.add('', ('linear', p, mat.hard_ref('linear', p)))
        inc = ref.rand_sym(rng, n_dim)
        inc *= 3*spec.yield_strain()/np.linalg.norm(inc)
        seq = [inc, inc]
    else:
        seq = [x*spec.yield_strain() for x in
               (ref.rand_sym(rng, n_dim), ref.rand_sym(rng, n_dim))]
        bad = seq[1].copy()
        if fault == 'nan':
            bad[0, 0] = np.nan
        elif fault == 'inf':
            bad[0, 0] = np.inf
        elif fault == 'huge':
            bad *= 1e8
        elif fault == 'softening':
            return
        seq[1] = bad
    model = spec.build(n_dim, vmap)
    st = model.state_init()
    for i, inc in enumerate(seq):
        t = mat.tens(inc)
        try:
            new, tan = mat.update(model, n_dim, t, st)
        except torch._C._LinAlgError:
            # refused loudly
            ctx.event('refused')
            break
        ctx.event('fault-injected')
        ctx.state('fault', name, n_dim, vmap, fault, mat.failed(new),
                  round(spec.E, 3))
        ctx.ok('default-precision',
               torch.get_default_dtype() == dtype,
               f'{name} {fault}: default precision is '
               f'{torch.get_default_dtype()}')
        torch.set_default_dtype(dtype)
        tag = f'{name} vmap={vmap} {n_dim}D fault {fault} step {i}'
        if mat.failed(new):
            flagged(ctx, new, tag)
            break
        if np.all(np.isfinite(inc)):
            finite(ctx, new, None, tag)
        else:
            ctx.fail('fault-flagged', tag + ': non-finite increment accepted')
        st = new


def cases(tier):
    rep = 4 if tier == 'quick' else 25
    out = []
    for r in range(rep):
        for name in ALL:
            for vmap in ((False, True) if name != 'elastic' else (False,)):
                for n in (2, 3):
                    for dt in ('float64', 'float32'):
                        for j in range(3):
                            k = mat.KINDS[(3*r + j + n) % len(mat.KINDS)]
                            out.append(('steps', dict(
                                name=name, n_dim=n, vmap=vmap, kind=k, dt=dt,
                                rep=r)))
                    if name != 'elastic':
                        for f in ('nan', 'inf', 'huge', 'softening'):
                            for dt in ('float64', 'float32'):
                                out.append(('faults', dict(
                                    name=name, n_dim=n, vmap=vmap, fault=f,
                                    dt=dt)))
    return out
