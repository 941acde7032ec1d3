"""C01: compact (matricial/Voigt) storage of tensors is faithful."""
import itertools
import numpy as np
import torch
from vmon import ref
from simulators.fetorch.math import matrixops as mo
from simulators.fetorch.math import voigt_notation as vn

PROPERTY = 'C01'
RULE = ('random second/fourth-order tensors (random magnitudes 1e-8..1e8, '
        'canonical and permuted component orders, symmetric and nonsymmetric '
        'storage, Kelvin on/off, both precisions, direct and vectorised '
        'mapping) are stored and recovered; non-trivial: a distinct (storage '
        'kind, order, precision, magnitude decade) with a dense tensor')
ASSUMPTIONS = ['storage is exercised in the session precision (default dtype '
               'equal to the tensor dtype), as every material model does',
               'CPU device only']
REQUIRED_EVENTS = ('store', 'recover', 'embed', 'voigt', 'reject')


def tol(dt):
    return 2e-6 if dt == torch.float32 else 1e-14


def tt(a, dt):
    return torch.tensor(np.asarray(a), dtype=dt)


def pick_order(rng, n, sym):
    base = ref.SYM[n] if sym else ref.NSYM[n]
    if rng.random() < 0.4:
        base = tuple(base[i] for i in rng.permutation(len(base)))
        if sym and rng.random() < 0.5:
            base = tuple(c[::-1] if rng.random() < 0.5 else c for c in base)
    return base


def storage(ctx, n, sym, order4, dt):
    rng = ctx.rng
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    r = tol(dtype)
    for it in range(12):
        order = pick_order(rng, n, sym)
        mag = 10.0**int(rng.integers(-8, 9))
        kelvin = bool(rng.random() < 0.7)
        kw = {} if kelvin and rng.random() < 0.5 else {
            'is_kelvin_notation': kelvin}
        if order4:
            T = ref.rand_minor_sym(rng, n, mag) if sym else \
                rng.standard_normal((n,)*4)*mag
        else:
            T = ref.rand_sym(rng, n, mag) if sym else \
                rng.standard_normal((n, n))*mag
        if rng.random() < 0.3:
            # wildly different component magnitudes
            f = 10.0**rng.integers(-5, 6, size=(n, n)).astype(float)
            f = 0.5*(f + f.T)
            T = T*(np.einsum('ij,kl->ijkl', f, f) if order4 else f)
        x = tt(T, dtype)
        T = x.double().numpy()
        want = (ref.mf4 if order4 else ref.mf2)(T, order, kelvin)
        keep = x.clone()
        got = {}
        got['direct'] = mo.get_tensor_mf(x, n, order, **kw)
        got['mapped'] = mo.vget_tensor_mf(x, n, order, **kw)
        for k, g in got.items():
            ctx.event('store')
            ctx.close(f'store-{k}', g/mag, want/mag, rtol=r,
                      scale=np.abs(want).max()/mag,
                      msg=f'{n}D {order} kelvin={kelvin}')
            e = np.abs(g.double().numpy() - want) <= 4*r*np.abs(want)
            ctx.ok(f'store-componentwise-{k}', e.all(),
                   f'{g} {want} {order} kelvin={kelvin}')
            # precision is kept
            ctx.ok('store-dtype', g.dtype == dtype, f'{g.dtype} {dtype}')
        ctx.same('input-unchanged', x, keep, 'stored tensor modified')
        v = got['direct']
        keepv = v.clone()
        for k, fn in (('direct', mo.get_tensor_from_mf),
                      ('mapped', mo.vget_tensor_from_mf)):
            back = fn(v, n, order, **kw)
            ctx.event('recover')
            key = '' if kelvin or not sym else 'symmetric-order-no-kelvin'
            ctx.ok(f'roundtrip-{k}', back.shape == x.shape and bool(
                ((back - x).abs() <= 4*r*x.abs()).all()),
                f'{n}D order={order} kelvin={kelvin}: {back} from {x}', key)
        ctx.same('input-unchanged', v, keepv, 'stored form modified')
        # products
        if sym and kelvin or not sym:
            U = ref.rand_sym(rng, n) if sym else rng.standard_normal((n, n))
            u = mo.get_tensor_mf(tt(U, dtype), n, order)
            if order4:
                w = mo.get_tensor_mf(
                    tt(np.einsum('ijkl,kl->ij', T/mag, U), dtype), n, order)
                ctx.close('double-contraction-4-2', (v/mag) @ u, w, rtol=60*r,
                          scale=float(((v/mag).abs() @ u.abs()).max()))
                ctx.event('contraction')
            else:
                ctx.close('double-contraction-2-2', torch.dot(v/mag, u),
                          np.sum(T/mag*U), rtol=20*r,
                          scale=np.sum(np.abs(T/mag*U)))
                ctx.close('norm', torch.linalg.norm(v/mag),
                          np.linalg.norm(T/mag), rtol=20*r)
                ctx.event('contraction')
        for a in range(len(order)):
            want_f = ref.R2 if sym and order[a][0] != order[a][1] else 1.0
            ctx.close('kelvin-factor', mo.kelvin_factor(a, order), want_f,
                      rtol=1e-14)
            b = int(rng.integers(len(order)))
            wb = ref.R2 if sym and order[b][0] != order[b][1] else 1.0
            ctx.close('kelvin-factor-pair', mo.kelvin_factor([a, b], order),
                      want_f*wb, rtol=1e-14)
        ctx.state('st', n, sym, order4, dt, kelvin, ','.join(order),
                  int(np.log10(mag)))
    ctx.note(n_dim=n, symmetric=sym, order=order, tensor=T, stored=want)


def mapped(ctx, n, sym, order4, dt):
    """Vectorised mapping over batches equals item-wise conversion, and
    derivatives pass through the conversions exactly."""
    rng = ctx.rng
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    order = pick_order(rng, n, sym)
    B = int(rng.integers(1, 9))
    if order4:
        T = np.stack([ref.rand_minor_sym(rng, n) if sym
                      else rng.standard_normal((n,)*4) for _ in range(B)])
    else:
        T = np.stack([ref.rand_sym(rng, n) if sym
                      else rng.standard_normal((n, n)) for _ in range(B)])
    x = tt(T, dtype)
    r = tol(dtype)
    f = torch.vmap(lambda a: mo.vget_tensor_mf(a, n, order))
    g = torch.vmap(lambda a: mo.vget_tensor_from_mf(a, n, order))
    want = np.stack([(ref.mf4 if order4 else ref.mf2)(t, order) for t in T])
    v = f(x)
    ctx.close('mapped-store', v, want, rtol=r)
    ctx.close('mapped-recover', g(v), T, rtol=4*r)
    ctx.event('store', B)
    ctx.event('recover', B)
    # gradient of <store(x), c>: chain rule through the conversion
    for fn in (mo.get_tensor_mf, mo.vget_tensor_mf):
        a = x[0].clone().requires_grad_(True)
        c = torch.randn(v[0].shape, dtype=dtype)
        (fn(a, n, order)*c).sum().backward()
        d = torch.zeros_like(a)
        i = tuple(int(rng.integers(n)) for _ in range(4 if order4 else 2))
        d[i] = 1.0
        fd = ((fn(x[0] + d, n, order) - fn(x[0], n, order))*c).sum()
        ctx.close('gradient-store', a.grad[i], fd, rtol=1e-4, atol=1e-5)
        ctx.event('gradient')
    for fn in (mo.get_tensor_from_mf, mo.vget_tensor_from_mf):
        a = v[0].detach().clone().requires_grad_(True)
        c = torch.randn(x[0].shape, dtype=dtype)
        (fn(a, n, order)*c).sum().backward()
        d = torch.zeros_like(a)
        i = tuple(int(rng.integers(k)) for k in a.shape)
        d[i] = 1.0
        fd = ((fn(v[0] + d, n, order) - fn(v[0], n, order))*c).sum()
        ctx.close('gradient-recover', a.grad[i], fd, rtol=1e-4, atol=1e-5)
        ctx.event('gradient')
    ctx.state('vm', n, sym, order4, dt, B, ','.join(order))


def embed(ctx, sym, dt):
    """2D <-> 3D compact forms address the same tensor."""
    rng = ctx.rng
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    r = tol(dtype)
    o2, o3 = (ref.SYM if sym else ref.NSYM)[2], \
        (ref.SYM if sym else ref.NSYM)[3]
    for it in range(10):
        mag = 10.0**int(rng.integers(-6, 7))
        T2 = ref.rand_sym(rng, 2, mag) if sym else \
            rng.standard_normal((2, 2))*mag
        c33 = float(rng.standard_normal()*mag) if rng.random() < .8 else 0.0
        T3 = np.zeros((3, 3))
        T3[:2, :2] = T2
        T3[2, 2] = c33
        m2 = tt(ref.mf2(T2, o2), dtype)
        keep = m2.clone()
        want3 = ref.mf2(T3, o3)
        for c in (c33, torch.tensor(c33)):
            a = mo.get_state_3Dmf_from_2Dmf(1, m2, c)
            b = mo.vget_state_3Dmf_from_2Dmf(m2, c)
            ctx.close('embed-direct', a, want3, rtol=2*r)
            ctx.close('embed-mapped', b, want3, rtol=2*r)
        full = tt(ref.mf2(ref.rand_sym(rng, 3, mag) if sym else
                          rng.standard_normal((3, 3))*mag, o3), dtype)
        F = ref.unmf2(full.double().numpy(), 3, o3)
        want2 = ref.mf2(F[:2, :2], o2)
        ctx.close('restrict-direct', mo.get_state_2Dmf_from_3Dmf(1, full),
                  want2, rtol=2*r)
        ctx.close('restrict-mapped', mo.vget_state_2Dmf_from_3Dmf(full),
                  want2, rtol=2*r)
        D = ref.rand_minor_sym(rng, 3, mag) if sym else \
            rng.standard_normal((3,)*4)*mag
        Dm = tt(ref.mf4(D, o3), dtype)
        wantD = ref.mf4(D[:2, :2, :2, :2], o2)
        ctx.close('restrict4-direct', mo.get_state_2Dmf_from_3Dmf(1, Dm),
                  wantD, rtol=2*r)
        ctx.close('restrict4-mapped', mo.vget_state_2Dmf_from_3Dmf(Dm),
                  wantD, rtol=2*r)
        B = int(rng.integers(1, 6))
        bm = torch.stack([m2*k for k in range(1, B + 1)])
        cb = torch.arange(1., B + 1)*c33
        got = torch.vmap(mo.vget_state_3Dmf_from_2Dmf)(bm, cb)
        ctx.close('embed-batched', got,
                  np.stack([want3*k for k in range(1, B + 1)]), rtol=4*r)
        ctx.close('embed-restrict', torch.vmap(
            mo.vget_state_2Dmf_from_3Dmf)(got), bm, rtol=r)
        ctx.same('input-unchanged', m2, keep, '2D state modified')
        ctx.event('embed')
        ctx.state('emb', sym, dt, mag, c33 == 0.0)


def voigt(ctx, n, dt):
    rng = ctx.rng
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    r = tol(dtype)
    for it in range(10):
        order = pick_order(rng, n, True)
        mag = 10.0**int(rng.integers(-6, 7))
        e = ref.rand_sym(rng, n, mag)
        s = ref.rand_sym(rng, n, 1/mag)
        evec = np.array([e[ref.idx(c)]*(2 if c[0] != c[1] else 1)
                         for c in order])
        svec = np.array([s[ref.idx(c)] for c in order])
        te, ts = tt(evec, dtype), tt(s, dtype)
        ke, ks = te.clone(), ts.clone()
        for k, f in (('direct', vn.get_strain_from_vmf),
                     ('mapped', vn.vget_strain_from_vmf)):
            g = f(te, n, order)
            ctx.close('voigt-strain-' + k, g, e, rtol=2*r)
            ctx.close('voigt-strain-symmetric', g, g.T, rtol=r, msg='strain')
        for k, f in (('direct', vn.get_stress_vmf),
                     ('mapped', vn.vget_stress_vmf)):
            g = f(ts, n, order)
            ctx.close('voigt-stress-' + k, g, svec, rtol=2*r)
            # work conjugacy
            ctx.close('voigt-work', torch.dot(g, te), np.sum(s*e), rtol=20*r,
                      scale=np.sum(np.abs(s*e)))
        ctx.same('input-unchanged', te, ke, 'voigt strain')
        ctx.same('input-unchanged', ts, ks, 'stress')
        B = int(rng.integers(1, 6))
        be = torch.stack([te*(k + 1) for k in range(B)])
        ctx.close('voigt-strain-batched', torch.vmap(
            lambda a: vn.vget_strain_from_vmf(a, n, order))(be),
            np.stack([e*(k + 1) for k in range(B)]), rtol=4*r)
        bs = torch.stack([ts*(k + 1) for k in range(B)])
        ctx.close('voigt-stress-batched', torch.vmap(
            lambda a: vn.vget_stress_vmf(a, n, order))(bs),
            np.stack([svec*(k + 1) for k in range(B)]), rtol=4*r)
        vol, dv = vn.get_projection_tensors_vmf(n, order)
        ident = np.eye(len(order))
        ctx.close('projection-sum', vol + dv, ident, rtol=4*r)
        ctx.close('projection-idempotent', vol @ vol, vol, rtol=8*r)
        ctx.close('projection-orthogonal', vol @ dv, 0*ident, atol=8*r)
        ctx.close('projection-vol', vol @ tt(svec, dtype), np.array(
            [np.trace(s)/n if c[0] == c[1] else 0.0 for c in order]),
            rtol=20*r, scale=np.abs(s).max())
        ctx.event('voigt')
        ctx.state('voigt', n, dt, ','.join(order), mag)


def reject(ctx):
    """Malformed requests are refused instead of silently misplacing
    components; the problem type tables are consistent."""
    T3, T2 = torch.randn(3, 3), torch.randn(2, 2)
    bad = [
        (mo.get_tensor_mf, (T3, 3, ('11', '22', '33', '12', '23'))),
        (mo.get_tensor_mf, (T3, 3, ('11', '22', '33', '12', '23', '23'))),
        (mo.get_tensor_mf, (T3, 3, ('11', '22', '33', '12', '23', '14'))),
        (mo.get_tensor_mf, (T2, 3, ref.SYM[3])),
        (mo.get_tensor_mf, (torch.randn(3, 3, 3), 3, ref.SYM[3])),
        (mo.get_tensor_from_mf, (torch.randn(5), 3, ref.SYM[3])),
        (mo.get_tensor_from_mf, (torch.randn(6, 5), 3, ref.SYM[3])),
        (mo.get_tensor_from_mf, (torch.randn(6), 3,
                                 ('11', '22', '33', '12', '23', '23'))),
        (mo.get_tensor_from_mf, (torch.randn(3), 2, ('11', '22', '13'))),
        (mo.vget_tensor_mf, (T3, 3, ('11', '22'))),
        (mo.vget_tensor_from_mf, (torch.randn(6), 3, ('11', '22'))),
        (vn.get_strain_from_vmf, (torch.randn(6), 3,
                                  ('11', '22', '33', '12', '23', '23'))),
        (vn.get_stress_vmf, (T3, 3, ('11', '22', '33', '12', '23', '14'))),
        (mo.get_problem_type_parameters, (2,)),
        (mo.get_problem_type_parameters, (7,)),
        (mo.kelvin_factor, ('a', ref.SYM[3])),
        (mo.get_state_3Dmf_from_2Dmf, (4, torch.randn(3), 0.0)),
        (mo.vget_state_2Dmf_from_3Dmf, (torch.randn(6, 6, 6),)),
    ]
    for f, a in bad:
        ctx.raises('malformed-rejected', lambda: f(*a),
                   msg=f'{f.__name__} {a}')
        ctx.event('reject')
    for p, n in ((1, 2), (4, 3)):
        got = mo.get_problem_type_parameters(p)
        ctx.same('problem-table', tuple(got), (n, ref.SYM[n], ref.NSYM[n]))
        ctx.state('reject', p)


def cases(tier):
    rep = 40 if tier == 'quick' else 200
    out = [('reject', {})]
    for _ in range(rep):
        for n, s, o, d in itertools.product(
                (2, 3), (True, False), (False, True),
                ('float64', 'float32')):
            out.append(('storage', dict(n=n, sym=s, order4=o, dt=d)))
            out.append(('mapped', dict(n=n, sym=s, order4=o, dt=d)))
        for s, d in itertools.product((True, False),
                                      ('float64', 'float32')):
            out.append(('embed', dict(sym=s, dt=d)))
        for n, d in itertools.product((2, 3), ('float64', 'float32')):
            out.append(('voigt', dict(n=n, dt=d)))
    return out
