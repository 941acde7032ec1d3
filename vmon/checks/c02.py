"""C02: tensor algebra operators obey their index definitions."""
import itertools
import numpy as np
import torch
from vmon import ref
from simulators.fetorch.math import tensorops as to

PROPERTY = 'C02'
RULE = ('random dense tensors (2D/3D, both precisions, magnitudes over 16 '
        'decades, ill-conditioned inverses, batched through vectorised '
        'mapping) are pushed through every operator and compared with '
        'explicit index sums; non-trivial: distinct (operator, dimension, '
        'precision, magnitude)')
ASSUMPTIONS = ['CPU device only', 'deviatoric projectors remove one third of '
               'the trace in 2D too (in-plane part of a 3D tensor), as '
               'documented']
REQUIRED_EVENTS = ('operator', 'identity', 'dinv')

# operator -> (orders of a, b, (free indices a, b -> out)) as index loops
SPEC = {
    'dyad11': ('i', 'j', 'ij'),
    'dyad22_1': ('ij', 'kl', 'ijkl'),
    'dyad22_2': ('ik', 'jl', 'ijkl'),
    'dyad22_3': ('il', 'jk', 'ijkl'),
    'dot21_1': ('ij', 'j', 'i'),
    'dot12_1': ('i', 'ij', 'j'),
    'dot42_1': ('ijkm', 'lm', 'ijkl'),
    'dot42_2': ('ipkl', 'jp', 'ijkl'),
    'dot42_3': ('ijkm', 'ml', 'ijkl'),
    'dot24_1': ('im', 'mjkl', 'ijkl'),
    'dot24_2': ('jm', 'imkl', 'ijkl'),
    'dot24_3': ('km', 'ijml', 'ijkl'),
    'dot24_4': ('lm', 'ijkm', 'ijkl'),
    'ddot22_1': ('ij', 'ij', ''),
    'ddot42_1': ('ijkl', 'kl', 'ij'),
    'ddot44_1': ('ijmn', 'mnkl', 'ijkl'),
    'ddot24_1': ('kl', 'klij', 'ij'),
}


def loops(sa, sb, so, a, b, n):
    letters = sorted(set(sa + sb))
    out = np.zeros((n,)*len(so))
    for v in itertools.product(range(n), repeat=len(letters)):
        m = dict(zip(letters, v))
        out[tuple(m[c] for c in so)] += \
            a[tuple(m[c] for c in sa)]*b[tuple(m[c] for c in sb)]
    return out


def operator(ctx, name, n, dt):
    rng = ctx.rng
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    r = 4e-6 if dt == 'float32' else 1e-14
    sa, sb, so = SPEC[name]
    fn = getattr(to, name)
    for it in range(4):
        mag = 10.0**int(rng.integers(-8, 9))
        a = torch.tensor(rng.standard_normal((n,)*len(sa))*mag, dtype=dtype)
        b = torch.tensor(rng.standard_normal((n,)*len(sb)), dtype=dtype)
        ka, kb = a.clone(), b.clone()
        got = fn(a, b)
        an, bn = a.double().numpy(), b.double().numpy()
        want = loops(sa, sb, so, an, bn, n)
        bound = loops(sa, sb, so, np.abs(an), np.abs(bn), n)
        ctx.ok('operator', tuple(got.shape) == want.shape and bool(np.all(
            np.abs(got.double().numpy() - want) <= 4*r*bound)),
            f'{name} {n}D: {got} want {want}', key=name)
        ctx.ok('operator-dtype', got.dtype == dtype)
        ctx.same('input-unchanged', a, ka)
        ctx.same('input-unchanged', b, kb)
        B = int(rng.integers(2, 6))
        ab = torch.stack([a*(k + 1) for k in range(B)])
        gb = torch.vmap(fn, in_dims=(0, None))(ab, b)
        for k in range(B):
            ctx.ok('operator-batched', bool(np.all(
                np.abs(gb[k].double().numpy() - want*(k + 1))
                <= 8*r*bound*(k + 1))), f'{name} batch item {k}', key=name)
        ctx.event('operator')
        ctx.state(name, n, dt, mag)
    ctx.note(operator=name, n_dim=n, a=an, b=bn, result=want)


def identity(ctx, n, dt):
    rng = ctx.rng
    torch.set_default_dtype(getattr(torch, dt))
    r = 4e-6 if dt == 'float32' else 1e-14
    soid, foid, fot, fosym, fodt, fodev, fodevs = \
        [np.asarray(x.double()) for x in to.get_id_operators(n)]
    I = np.eye(n)
    ctx.same('soid', soid, I)
    for it in range(5):
        A = rng.standard_normal((n, n))
        app = (lambda F: np.einsum('ijkl,kl->ij', F, A))
        ctx.close('identity', app(foid), A, rtol=r)
        ctx.close('transposition', app(fot), A.T, rtol=r)
        ctx.close('symmetric-projection', app(fosym), .5*(A + A.T), rtol=r)
        ctx.close('diagonal-trace', app(fodt), np.trace(A)*I, rtol=10*r,
                  scale=np.abs(A).max())
        ctx.close('deviatoric-projection', app(fodev),
                  A - np.trace(A)/3*I, rtol=10*r)
        ctx.close('symmetric-deviatoric-projection', app(fodevs),
                  .5*(A + A.T) - np.trace(A)/3*I, rtol=10*r)
        ctx.event('identity')
        ctx.state('id', n, dt, it)
    for i, j in itertools.product(range(n), repeat=2):
        ctx.same('kronecker', to.dd(i, j), 1 if i == j else 0)
    ctx.raises('kronecker-rejects', lambda: to.dd(1.5, 1))


def dinv(ctx, n, dt):
    """Derivative of the inverse of a symmetric tensor, against the directional
    derivative -A^-1 H A^-1."""
    rng = ctx.rng
    torch.set_default_dtype(getattr(torch, dt))
    r = 4e-6 if dt == 'float32' else 1e-13
    for it in range(4):
        cond = 10.0**rng.uniform(0, 4)
        Q, _ = np.linalg.qr(rng.standard_normal((n, n)))
        lam = np.geomspace(1, cond, n)*rng.choice([-1, 1], n)
        A = Q @ np.diag(lam) @ Q.T
        inv = np.linalg.inv(A)
        inv = .5*(inv + inv.T)
        tin = torch.tensor(inv, dtype=getattr(torch, dt))
        keep = tin.clone()
        d = to.fo_dinv_sym(tin).double().numpy()
        ctx.same('input-unchanged', tin, keep)
        H = ref.rand_sym(rng, n)
        want = -inv @ H @ inv
        sc = np.abs(inv).max()**2*np.abs(H).max()*n*n
        ctx.close('inverse-derivative', np.einsum('ijkl,kl->ij', d, H), want,
                  rtol=10*r, scale=sc)
        # minor and major symmetry
        for p in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1)):
            ctx.close('inverse-derivative-symmetry', d, d.transpose(p),
                      rtol=10*r)
        B = torch.stack([tin, 2*tin])
        vb = torch.vmap(to.fo_dinv_sym)(B)
        ctx.close('inverse-derivative-batched', vb[1], 4*d, rtol=10*r)
        ctx.event('dinv')
        ctx.state('dinv', n, dt, float(cond))


def cases(tier):
    rep = 20 if tier == 'quick' else 100
    out = []
    for _ in range(rep):
        for n, d in itertools.product((2, 3), ('float64', 'float32')):
            out += [('operator', dict(name=k, n=n, dt=d)) for k in SPEC]
            out += [('identity', dict(n=n, dt=d)), ('dinv', dict(n=n, dt=d))]
    return out
