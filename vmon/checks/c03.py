"""C03: linear elastic stiffness and stress of every declared symmetry."""
import numpy as np
import torch
from vmon import ref, mat
from simulators.fetorch.material.models.standard.elastic import Elastic

PROPERTY = 'C03'
RULE = ('random admissible moduli of each symmetry class (positive definite '
        'and indefinite, any key order, major-symmetric spellings) and random '
        'strain histories; non-trivial: distinct (symmetry, n_dim, precision, '
        'spelling, sample)')
ASSUMPTIONS = ['Kelvin matrix form, component order 11,22,33,12,23,13',
               'CPU device only']
REQUIRED_EVENTS = ('stiffness', 'isotropic-step')

ISO = {'isotropic': ('E1111', 'E1122'),
       'transverse_isotropic': ('E1111', 'E3333', 'E1122', 'E1133', 'E2323'),
       'orthotropic': ('E1111', 'E2222', 'E3333', 'E1122', 'E1133', 'E2233',
                       'E1212', 'E2323', 'E1313'),
       'monoclinic': ('E1111', 'E2222', 'E3333', 'E1122', 'E1133', 'E2233',
                      'E1112', 'E2212', 'E3312', 'E1212', 'E2323', 'E1313',
                      'E2313'),
       'triclinic': ('E1111', 'E1122', 'E1133', 'E1112', 'E1123', 'E1113',
                     'E2222', 'E2233', 'E2212', 'E2223', 'E2213', 'E3333',
                     'E3312', 'E3323', 'E3313', 'E1212', 'E1223', 'E1213',
                     'E2323', 'E2313', 'E1313')}


def put(C, key, val):
    i, j, k, l = (int(c) - 1 for c in key[1:])
    for a, b in ((i, j), (j, i)):
        for c, d in ((k, l), (l, k)):
            C[a, b, c, d] = C[c, d, a, b] = val


def expected(sym, m):
    """Full 4th-order tensor from the independent moduli."""
    C = np.zeros((3,)*4)
    m = dict(m)
    if sym == 'isotropic':
        for k in ('E2222', 'E3333'):
            m[k] = m['E1111']
        for k in ('E1133', 'E2233'):
            m[k] = m['E1122']
        for k in ('E1212', 'E2323', 'E1313'):
            m[k] = .5*(m['E1111'] - m['E1122'])
    if sym == 'transverse_isotropic':
        m['E2222'] = m['E1111']
        m['E2233'] = m['E1133']
        m['E1313'] = m['E2323']
        m['E1212'] = .5*(m['E1111'] - m['E1122'])
    for k, v in m.items():
        put(C, k, v)
    return C


GROUP = {  # material symmetry: rotations/reflections leaving C unchanged
    'transverse_isotropic': 'z', 'isotropic': 'all',
    'orthotropic': [np.diag(d) for d in ((-1, 1, 1), (1, -1, 1),
                                         (1, 1, -1))],
    'monoclinic': [np.diag((1, 1, -1.))], 'triclinic': [-np.eye(3)]}


def symmetric_elements(sym, rng):
    g = GROUP[sym]
    if isinstance(g, str):
        out = []
        for _ in range(4):
            if g == 'all':
                out.append(ref.rand_rot(rng))
            else:
                t = rng.uniform(0, 2*np.pi)
                c, s = np.cos(t), np.sin(t)
                out.append(np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]]))
        return out
    return g


def stiffness(ctx, sym, dt):
    rng = ctx.rng
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    r = 2e-6 if dt == 'float32' else 1e-13
    for it in range(6):
        mag = 10.0**rng.uniform(-2, 6)
        m = {k: float(mag*rng.uniform(.1, 2)*(rng.choice([-1, 1])
                                              if k[1:3] != k[3:5] else 1))
             for k in ISO[sym]}
        given = {}
        keys = list(m)
        rng.shuffle(keys)
        nsw = 0
        for k in keys:
            sw = 'E' + k[3:5] + k[1:3]
            if it % 2 and sw not in ISO['triclinic'] and rng.random() < .5:
                given[sw] = m[k]
                nsw += 1
            else:
                given[k] = m[k]
        if it % 3 == 0:       # unrelated keys must be ignored
            given['density'] = 3.0
            given['euler_angles'] = (0., 0., 0.)
        before = dict(given)
        got = Elastic.elastic_tangent_modulus(given, sym)
        C = expected(sym, m)
        ctx.event('stiffness')
        ctx.state(sym, dt, nsw, it, round(mag, 6))
        ctx.close('stiffness', got, ref.mf4(C, ref.SYM[3]), rtol=r,
                  msg=f'{sym} moduli {given}')
        ctx.close('stiffness-symmetric', got, got.T.clone(), rtol=r, msg=sym)
        ctx.ok('input-unchanged', before == given, 'properties were changed')
        # symmetry group, judged on the returned operator itself
        T = ref.unmf4(got.double().numpy(), 3, ref.SYM[3])
        for Q in symmetric_elements(sym, rng):
            TQ = np.einsum('ai,bj,ck,dl,ijkl->abcd', Q, Q, Q, Q, T)
            ctx.close('symmetry-group', TQ, T, rtol=20*r,
                      msg=f'{sym} under {Q.tolist()}')
        # a missing modulus is reported
        k = str(rng.choice(list(ISO[sym])))
        miss = {q: v for q, v in m.items() if q != k}
        ctx.raises('missing-modulus',
                   lambda: Elastic.elastic_tangent_modulus(miss, sym),
                   msg=f'{sym} without {k}')
    ctx.note(symmetry=sym, moduli=str(given))
    ctx.raises('unknown-symmetry',
               lambda: Elastic.elastic_tangent_modulus(m, 'cubicish'))


def isotropic(ctx, n_dim, dt):
    """(E, v) and (E1111, E1122) describe the same material; the model is
    path independent and linear and its stress is Hooke's law."""
    rng = ctx.rng
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    r = 5e-6 if dt == 'float32' else 1e-12
    E = float(10**rng.uniform(-1, 6))
    nu = float(rng.uniform(-.5, .48))
    lam, mu = ref.lame(E, nu)
    C = ref.iso_tensor(E, nu)
    tech = Elastic.get_technical_from_elastic_moduli(
        'isotropic', {'E1111': lam + 2*mu, 'E1122': lam})
    ctx.close('technical-E', float(tech['E']), E, rtol=1e-9/(1 - 2*nu)/(1+nu))
    ctx.close('technical-v', float(tech['v']), nu, rtol=0,
              atol=1e-10)
    T1 = Elastic.elastic_tangent_modulus({'E': E, 'v': nu}, 'isotropic')
    ctx.close('stiffness-iso', T1, ref.mf4(C, ref.SYM[3]), rtol=r)
    pars = [{'E': E, 'v': nu}, {'E1111': lam + 2*mu, 'E1122': lam}]
    for p in pars:
        p.update(elastic_symmetry='isotropic', euler_angles=(0., 0., 0.))
        model = Elastic('infinitesimal', mat.PT[n_dim], p)
        st = model.state_init()
        for k, v in st.items():
            ctx.ok('initial-zero', not np.any(np.asarray(v, dtype=float)), k)
        tot = np.zeros((n_dim, n_dim))
        top = 0.0
        for step in range(8):
            inc = ref.rand_sym(rng, n_dim)*10.0**rng.uniform(-8, -1)
            if step == 5:
                inc = -tot        # back to the origin
            t = mat.tens(inc)
            inc = t.double().numpy()
            snap, tsnap = mat.snapshot(st), t.clone()
            new, tan = mat.update(model, n_dim, t, st)
            ctx.same('input-strain-unchanged', t, tsnap)
            for k in snap:
                if isinstance(snap[k], torch.Tensor):
                    ctx.same('input-state-unchanged', st[k], snap[k], msg=k)
            tot = tot + inc
            top = max(top, np.abs(tot).max(), np.abs(inc).max())
            st = new
            e = np.zeros((3, 3))
            e[:n_dim, :n_dim] = tot
            s = np.einsum('ijkl,kl->ij', C, e)
            sc = np.abs(C).max()*top
            ctx.event('isotropic-step')
            ctx.state('iso', n_dim, dt, step, round(E, 3), 'E' in p)
            ctx.close('hooke-stress', mat.full(st, 'stress_mf', n_dim), s,
                      rtol=10*r, scale=sc, msg=f'E={E} v={nu} step {step}')
            ctx.close('strain', mat.full(st, 'strain_mf', n_dim), e, rtol=r,
                      scale=top)
            ctx.close('elastic-strain', mat.full(st, 'e_strain_mf', n_dim),
                      e, rtol=r, scale=top)
            ctx.ok('never-plastic', not bool(st['is_plast'])
                   and not bool(st['is_su_fail']))
            ctx.close('tangent', tan, ref.mf4(
                C[:n_dim, :n_dim, :n_dim, :n_dim], ref.SYM[n_dim]), rtol=r)
    ctx.note(E=E, nu=nu)


def cases(tier):
    rep = 8 if tier == 'quick' else 60
    out = []
    for _ in range(rep):
        for dt in ('float64', 'float32'):
            out += [('stiffness', dict(sym=s, dt=dt)) for s in ISO]
            out += [('isotropic', dict(n_dim=n, dt=dt)) for n in (2, 3)
                    for _ in range(3)]
    return out
