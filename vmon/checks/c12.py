"""C12: element internal forces."""
import copy
import numpy as np
import torch
from vmon import fem, mat, ref
from simulators.fetorch.element.integrations.internal_forces import \
    compute_element_internal_forces

PROPERTY = 'C12'
RULE = ('random elements of every type and rule, every material family, '
        'random nodal displacement histories with plastic steps; forces are '
        'compared with an independent integration of the stress of one '
        'material point per integration point; non-trivial: distinct '
        '(element, rule, material, step, plastic points)')
ASSUMPTIONS = ['infinitesimal strains', 'CPU device only']
REQUIRED_EVENTS = ('force', 'plastic-point', 'rigid', 'patch')


def T(a):
    return torch.tensor(np.asarray(a), dtype=torch.get_default_dtype())


def N(t):
    return t.detach().double().numpy()


def forces(el, model, st, X, u, du):
    n = X.shape[1]
    return compute_element_internal_forces(
        'infinitesimal', mat.PT[n], el, model, st, T(X), T(u), T(du))


def init(el, model):
    return {str(i + 1): model.state_init() for i in range(el.get_n_gauss())}


def snap(st):
    return {k: mat.snapshot(v) for k, v in st.items()}


def same_states(ctx, rule, a, b, tag):
    ctx.same(rule, set(a), set(b), msg=tag)
    for k in a:
        for f in b[k]:
            ctx.same(rule, a[k][f], b[k][f], msg=f'{tag} {k} {f}')


def run(ctx, name, g, mname, vmap, dt, steps):
    torch.set_default_dtype(getattr(torch, dt))
    tol = 1e-8 if dt == 'float64' else 2e-3
    dim = fem.DIM[name]
    el = fem.CLS[name](n_gauss=g)
    spec = mat.Spec(ctx.rng, mname)
    model, twin = spec.build(dim, vmap), spec.build(dim, vmap)
    size = float(10**ctx.rng.uniform(-1, 2))
    X = N(T(fem.rand_nodes(ctx.rng, name, size=size)))
    ys = spec.yield_strain()
    st = init(el, model)
    pts = init(el, twin)
    u = np.zeros_like(X)
    tag0 = f'{name} g={g} {spec.name} vmap={vmap} {dt} size={size:.3g}'
    mode = ctx.rng.choice(['affine', 'arbitrary', 'mixed'])
    for k in range(steps):
        H = ctx.rng.standard_normal((dim, dim))*ys*10**ctx.rng.uniform(-1, .7)
        du = (X - X.mean(0)) @ H.T + size*ctx.rng.standard_normal(dim)*ys
        if mode != 'affine':
            du += size*ys*.4*ctx.rng.standard_normal(X.shape)
        if k == steps - 1:
            du = -u*.3
        du = N(T(du))
        u = u + du
        old = snap(st)
        Xt = X.copy()
        f, new = forces(el, model, st, X, u, du)
        tag = f'{tag0} step {k} {spec.par}'
        same_states(ctx, 'old-state-unchanged', snap(st), old, tag)
        ctx.same('coords-unchanged', X, Xt)
        ctx.same('force-shape', tuple(f.shape), (X.size,), msg=tag)
        ctx.same('points', set(new), set(st), msg=tag)
        # independent strains -> one real material point each -> stresses
        E = fem.gauss_strain(name, g, X, du)
        sig, fail = [], False
        npl = 0
        for i, e in enumerate(E):
            s, _ = mat.update(twin, dim, T(e), pts[str(i + 1)])
            fail |= mat.failed(s)
            pts[str(i + 1)] = s
            npl += bool(s['is_plast'])
            sig.append(mat.full(s, 'stress_mf', dim))
        if fail:
            ctx.event('failure-skipped')
            return
        if spec.name == 'lou_zhang_yoon' and any(
                mat.num(s['acc_p_strain']) < 0 for s in pts.values()):
            return
        sc_s = max(spec.law(0.)[0] if spec.laws else spec.E*ys,
                   max(abs(s).max() for s in sig))
        loose = tol if not spec.laws else max(tol, 2e-5)
        if mname == 'lou_zhang_yoon' and dt == 'float32':
            loose = 1e-2
        for i in range(g):
            got = mat.full(new[str(i + 1)], 'stress_mf', dim)
            # the return mapping amplifies rounding up to its own tolerance
            ctx.close('point-stress', got, sig[i], rtol=loose, scale=sc_s,
                      msg=f'{tag} point {i + 1}')
            eps = ref.unmf2(mat.vec(new[str(i + 1)]['strain_mf']), dim,
                            ref.SYM[dim])
            want = fem.gauss_strain(name, g, X, u)[i]
            ctx.close('point-strain', eps, want, rtol=max(tol, 1e-9),
                      scale=max(abs(want).max(), ys)*(k + 1)*3,
                      msg=f'{tag} point {i + 1}')
        area = size**(dim - 1)*10
        F = N(f).reshape(X.shape)
        own = [mat.full(new[str(i + 1)], 'stress_mf', dim)
               for i in range(g)]
        ctx.close('internal-force', F,
                  fem.element_forces(name, g, X, own), rtol=tol,
                  scale=sc_s*area, msg=tag)
        ctx.event('force')
        if npl:
            ctx.event('plastic-point', npl)
        ctx.state(name, g, spec.name, vmap, dt, k, npl, round(spec.E, 2))
        # self-equilibrium: zero resultant force and moment
        ctx.close('resultant-force', F.sum(0), np.zeros(dim), rtol=tol,
                  scale=sc_s*area*10, msg=tag)
        Y = X - X.mean(0)
        M = Y.T @ F
        ctx.close('resultant-moment', M - M.T, np.zeros((dim, dim)),
                  rtol=tol, scale=sc_s*area*size*10, msg=tag)
        # virtual work of any virtual displacement
        V = ctx.rng.standard_normal(X.shape)*size
        P, W = fem.quad_points(name, g)
        work = 0.0
        for p, w, s, e in zip(P, W, own, fem.gauss_strain(name, g, X, V)):
            work += w*np.linalg.det(fem.dshape(name, p).T @ X) \
                * np.sum(s[:dim, :dim]*e)
        ctx.close('virtual-work', np.sum(F*V), work, rtol=tol,
                  scale=sc_s*area*size*30, msg=tag)
        # the same evaluation again gives the same answer
        f2, new2 = forces(el, model, st, X, u, du)
        ctx.same('repeatable', f2, f, msg=tag)
        same_states(ctx, 'repeatable', new2, new, tag)
        # results are independent of the other points' states: tamper the
        # state of one point and only that point's new state changes
        if g > 1 and k == 1:
            t = copy.deepcopy(st)
            j = str(1 + int(ctx.rng.integers(g)))
            t[j] = model.state_init()
            _, new3 = forces(el, model, t, X, u, du)
            for q in new3:
                if q != j:
                    same_states(ctx, 'point-isolation', {q: new3[q]},
                                {q: new[q]}, tag)
        st = new


def rigid(ctx, name, g, mname, dt):
    """Translations and infinitesimal rotations create no stress or force;
    an element at rest exerts none."""
    torch.set_default_dtype(getattr(torch, dt))
    tol = 1e-8 if dt == 'float64' else 3e-3
    dim = fem.DIM[name]
    el = fem.CLS[name](n_gauss=g)
    spec = mat.Spec(ctx.rng, mname)
    model = spec.build(dim)
    size = float(10**ctx.rng.uniform(-1, 2))
    X = fem.rand_nodes(ctx.rng, name, size=size)
    ys = spec.yield_strain()
    A = ctx.rng.standard_normal((dim, dim))
    for what, u in (('rest', 0*X),
                    ('translation', 0*X + ctx.rng.standard_normal(dim)*size),
                    ('rotation', (X - X[0]) @ (A - A.T).T*ys)):
        if what != 'rest' and dt == 'float32':
            u = u*.1
        f, new = forces(el, model, init(el, model), X, u, u)
        ctx.event('rigid')
        ctx.state('rigid', name, g, mname, dt, what)
        sc = spec.E*max(ys, abs(u).max()/size)*size**(dim - 1)
        ctx.close('rigid-no-force', f, np.zeros(X.size),
                  atol=0. if what == 'rest' else tol*sc*10,
                  msg=f'{name} {what}')
        for s in new.values():
            ctx.ok('rigid-not-plastic', not bool(s['is_plast']) or
                   what == 'rotation' and dt == 'float32',
                   f'{name} {mname} {what}')


def patch(ctx, name, mname, dt):
    """Patch test: an affine displacement of a distorted mesh gives uniform
    stress, and the assembled forces vanish at interior nodes."""
    torch.set_default_dtype(getattr(torch, dt))
    tol = 1e-8 if dt == 'float64' else 2e-3
    dim = fem.DIM[name]
    spec = mat.Spec(ctx.rng, mname, kinds='linear')
    model = spec.build(dim)
    el = fem.CLS[name]()
    # The 4-point rule is not exact on curved tetrahedra: straight edges there
    X, conn = fem.grid_mesh(ctx.rng, name, (2,)*dim,
                            distort=0. if name == 'tetra10' else .15)
    ys = spec.yield_strain()
    H = ctx.rng.standard_normal((dim, dim))*ys*.9
    u = X @ H.T
    F = np.zeros_like(X)
    ref_sig = None
    for k, nodes in conn.items():
        ix = [i - 1 for i in nodes]
        f, new = forces(el, model, init(el, model), X[ix], u[ix], u[ix])
        F[ix] += N(f).reshape(-1, dim)
        for s in new.values():
            if mat.failed(s):
                return
            sig = mat.full(s, 'stress_mf', dim)
            if ref_sig is None:
                ref_sig = sig
            ctx.close('uniform-stress', sig, ref_sig,
                      rtol=tol if not spec.laws else max(tol, 2e-5),
                      scale=max(abs(ref_sig).max(), spec.E*ys), msg=name)
    inner = np.all((X > X.min(0) + 1e-6) & (X < X.max(0) - 1e-6), axis=1)
    ctx.event('patch')
    ctx.state('patch', name, mname, dt, int(inner.sum()))
    ctx.close('interior-equilibrium', F[inner], 0*F[inner],
              rtol=max(tol, 3e-5), scale=max(abs(ref_sig).max(), 1e-9),
              msg=f'{name} {mname}')
    # resultant traction on the boundary: sum X (x) F = stress * volume
    vol = sum(fem.volume(name, X[[i - 1 for i in c]])
              for c in conn.values())
    ctx.close('boundary-traction', X.T @ F, ref_sig[:dim, :dim]*vol,
              rtol=max(tol*10, 1e-4), scale=abs(ref_sig).max()*vol,
              msg=f'{name} {mname}')


RULES = [(k, g) for k in fem.CLS for g in fem.GAUSS[k]]


def cases(tier):
    out = []
    names = list(mat.CLASSES)
    q = tier == 'quick'
    reps = 3 if q else 20
    for r in range(reps):
        for i, (k, g) in enumerate(RULES):
            if q and k == 'hexa20' and g == 27:
                out.append(('run', dict(name=k, g=g, mname='von_mises',
                                        vmap=True, dt='float64', steps=2)))
                continue
            for j in range(2):
                m = names[(i + 2*j + r) % len(names)]
                v = (i + r + j) % 2 == 1 and m != 'elastic'
                out.append(('run', dict(
                    name=k, g=g, mname=m, vmap=v, steps=3 if q else 5,
                    dt='float32' if (i + j + r) % 3 == 0 else 'float64')))
        for i, (k, g) in enumerate(RULES):
            out.append(('rigid', dict(name=k, g=g,
                                      mname=names[(i + r) % 5],
                                      dt=('float64', 'float32')[(i + r) % 2]))
                       )
        for i, k in enumerate(fem.CLS):
            if q and k == 'hexa20':
                continue
            out.append(('patch', dict(name=k, mname=('elastic', 'von_mises',
                                                     'drucker_prager')[
                (i + r) % 3], dt='float64')))
    return out
