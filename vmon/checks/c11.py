"""C11: isoparametric map, discrete gradient operators and Voigt forms."""
import numpy as np
import torch
from vmon import fem, ref
from simulators.fetorch.element.derivatives.jacobian import eval_jacobian
from simulators.fetorch.element.derivatives import gradients as gr
from simulators.fetorch.math import voigt_notation as vn

PROPERTY = 'C11'
RULE = ('random distorted, translated, rescaled elements of every type; '
        'random linear, polynomial and arbitrary nodal displacement fields; '
        'random component orders; standard and vectorised routines; '
        'non-trivial: distinct (element, precision, geometry, point)')
ASSUMPTIONS = ['elements with a positive Jacobian unless stated',
               'CPU device only']
REQUIRED_EVENTS = ('jacobian', 'gradient', 'sym-gradient', 'volume',
                   'inverted-rejected', 'voigt')


def T(a):
    return torch.tensor(np.asarray(a), dtype=torch.get_default_dtype())


def N(t):
    return t.detach().double().numpy()


def rand_order(rng, n, sym):
    o = list(ref.SYM[n] if sym else ref.NSYM[n])
    rng.shuffle(o)
    if sym:
        o = [c[::-1] if rng.random() < .3 else c for c in o]
    return tuple(o)


def voigt_strain(E, order):
    return np.array([E[ref.idx(c)]*(1. if c[0] == c[1] else 2.)
                     for c in order])


def element(ctx, name, dt, n):
    torch.set_default_dtype(getattr(torch, dt))
    tol = 1e-9 if dt == 'float64' else 2e-4
    el = fem.CLS[name]()
    dim = fem.DIM[name]
    for rep in range(n):
        size = float(10**ctx.rng.uniform(-3, 3))
        X = fem.rand_nodes(ctx.rng, name, size=size)
        if dt == 'float64' and rep % 3 == 1:
            # slender element: aspect ratio up to 1e4
            ax = int(ctx.rng.integers(dim))
            X = X - X.mean(0)
            X[:, ax] *= 10**ctx.rng.uniform(-4, -1)
        x = T(X)
        Xq = N(x)
        p = fem.rand_local(ctx.rng, name)
        q = T(p)
        p = N(q)
        tag = f'{name} {dt} size={size:.3g}'
        d = fem.dshape(name, p)
        J = d.T @ Xq
        j, det, ld = eval_jacobian(el, x, q, is_check_det=True)
        ctx.event('jacobian')
        ctx.state(name, dt, round(size, 6), *np.round(p, 4))
        ctx.close('jacobian', j, J, rtol=tol, scale=abs(Xq).max(), msg=tag)
        ctx.close('jacobian-det', det, np.linalg.det(J), rtol=tol,
                  scale=abs(Xq).max()**dim, msg=tag)
        ctx.close('local-derivative', ld, d, rtol=tol, scale=10., msg=tag)
        g, j2, det2 = gr.eval_shapefun_deriv(el, x, q)
        G = np.linalg.solve(J, d.T).T
        gs = abs(G).max()*(1 + (3 if dt == 'float32' else 0))
        ctx.close('shape-gradient', g, G, rtol=10*tol, scale=gs, msg=tag)
        ctx.close('jacobian', j2, J, rtol=tol, scale=abs(Xq).max(), msg=tag)
        ctx.close('jacobian-det', det2, np.linalg.det(J), rtol=tol,
                  scale=abs(Xq).max()**dim, msg=tag)
        # affine displacement fields: exact gradient, hence exact strain
        H = ctx.rng.standard_normal((dim, dim))
        U = (Xq - Xq.mean(0)) @ H.T + ctx.rng.standard_normal(dim)*size
        gn = N(g)
        ctx.close('affine-field-gradient', U.T @ gn, H, rtol=20*tol,
                  scale=10*abs(H).max(), msg=tag)
        # rigid translation produces no gradient
        ctx.close('translation-no-gradient', gn.sum(0)*size, np.zeros(dim),
                  atol=tol*100, msg=tag)
        V = ctx.rng.standard_normal(U.shape)*size
        HV = V.T @ gn
        for u, want in ((U, U.T @ gn), (V, HV)):
            uf = T(u.flatten())
            for order in (ref.SYM[dim], rand_order(ctx.rng, dim, True)):
                E = .5*(want + want.T)
                for f in (gr.build_discrete_sym_gradient,
                          gr.vbuild_discrete_sym_gradient):
                    B = f(g, order)
                    ctx.event('sym-gradient')
                    ctx.same('operator-shape', tuple(B.shape),
                             (len(order), X.size), msg=tag)
                    ctx.close('sym-gradient', B @ uf, voigt_strain(E, order),
                              rtol=tol, scale=10*abs(E).max(),
                              msg=f'{tag} {f.__name__} {order}')
            for order in (ref.NSYM[dim], rand_order(ctx.rng, dim, False),
                          None):
                o = order or ref.NSYM[dim]
                for f in (gr.build_discrete_gradient,
                          gr.vbuild_discrete_gradient):
                    B = f(g, order)
                    ctx.event('gradient')
                    ctx.close('gradient', B @ uf,
                              np.array([want[ref.idx(c)] for c in o]),
                              rtol=tol, scale=10*abs(want).max(),
                              msg=f'{tag} {f.__name__} {order}')
        if dim == 2:
            B = gr.vbuild_discrete_sym_gradient(g, ref.SYM[2])
            B3 = gr.vexpand_grad_operator_sym_2d_to_3d(B)
            ctx.same('expanded-shape', tuple(B3.shape), (6, 3*len(X)))
            W = np.concatenate([V, ctx.rng.standard_normal((len(X), 1))], 1)
            E3 = np.zeros((3, 3))
            E3[:2, :2] = .5*(HV + HV.T)
            ctx.close('plane-strain-expansion', B3 @ T(W.flatten()),
                      voigt_strain(E3, ref.SYM[3]), rtol=tol,
                      scale=10*abs(E3).max(), msg=tag)
            ctx.close('expand-reduce',
                      gr.vreduce_grad_operator_sym_3d_to_2d(B3), B, atol=0.,
                      msg=tag)
        else:
            B = gr.vbuild_discrete_sym_gradient(g, ref.SYM[3])
            B2 = gr.vreduce_grad_operator_sym_3d_to_2d(B)
            W = V.copy()
            W[:, 2] = 0
            HW = W.T @ gn
            ctx.close('plane-reduction', B2 @ T(W[:, :2].flatten()),
                      voigt_strain(.5*(HW + HW.T)[:2, :2], ref.SYM[2]),
                      rtol=tol, scale=10*abs(HW).max(), msg=tag)
        # inverted element: the determinant check refuses it
        Y = Xq.copy()
        Y[:, 0] *= -1
        ctx.event('inverted-rejected')
        ctx.raises('inverted-element-rejected',
                   lambda: eval_jacobian(el, T(Y), q, is_check_det=True),
                   msg=tag)
        _, detn, _ = eval_jacobian(el, T(Y), q)
        ctx.ok('inverted-det-negative', float(detn) < 0, tag)
        # degenerate element
        Z = Xq.copy()
        Z[:, 0] = 0.
        ctx.raises('degenerate-element-rejected',
                   lambda: eval_jacobian(el, T(Z), q, is_check_det=True),
                   msg=tag)


def volume(ctx, name, g, dt, n):
    """Quadrature of det(J) is the volume of the element (exact for rules of
    sufficient degree on affinely mapped elements)."""
    torch.set_default_dtype(getattr(torch, dt))
    tol = 1e-9 if dt == 'float64' else 2e-4
    el = fem.CLS[name](n_gauss=g)
    for rep in range(n):
        size = float(10**ctx.rng.uniform(-2, 2))
        dim = fem.DIM[name]
        A = np.eye(dim) + .3*ctx.rng.standard_normal((dim, dim))
        if np.linalg.det(A) < .2:
            continue
        X = (fem.NODES[name] @ A.T)*size + size*ctx.rng.standard_normal(dim)
        pc, pw = el.get_gauss_integration_points()
        v = sum(float(pw[k]*eval_jacobian(el, T(X), pc[k])[1]) for k in pc)
        ctx.event('volume')
        ctx.state('volume', name, g, dt, round(size, 5))
        ctx.close('volume-affine', v, fem.volume(name, X), rtol=30*tol,
                  msg=f'{name} {g} {dt}')
        full = g == fem.DEFAULT[name]
        if full and name not in ('tetra10', 'tri6'):
            X = fem.rand_nodes(ctx.rng, name, size=size)
            v = sum(float(pw[k]*eval_jacobian(el, T(X), pc[k])[1])
                    for k in pc)
            ctx.close('volume-distorted', v, fem.volume(name, X),
                      rtol=30*tol, msg=f'{name} {g} {dt}')


def voigt(ctx, n, dt, reps):
    torch.set_default_dtype(getattr(torch, dt))
    tol = 1e-12 if dt == 'float64' else 1e-5
    for rep in range(reps):
        sc = float(10**ctx.rng.uniform(-6, 6))
        E, S = ref.rand_sym(ctx.rng, n, sc), ref.rand_sym(ctx.rng, n)
        order = ref.SYM[n] if rep % 3 == 0 else \
            rand_order(ctx.rng, n, True)
        ev = T(voigt_strain(E, order))
        ctx.state('voigt', n, dt, order, round(sc, 8))
        ctx.event('voigt')
        for f in (vn.get_strain_from_vmf, vn.vget_strain_from_vmf):
            ctx.close('voigt-strain', f(ev, n, order), E, rtol=tol,
                      scale=sc*3, msg=f'{f.__name__} {order}')
        sv = []
        for f in (vn.get_stress_vmf, vn.vget_stress_vmf):
            v = f(T(S), n, order)
            sv.append(v)
            ctx.close('voigt-stress', v,
                      np.array([S[ref.idx(c)] for c in order]), rtol=tol,
                      scale=3., msg=f'{f.__name__} {order}')
            # power conjugacy: the Voigt product is the double contraction
            ctx.close('power-conjugacy', (ev.double() @ v.double()),
                      np.sum(E*S), rtol=10*tol, scale=10*sc,
                      msg=f'{f.__name__} {order}')
        ctx.same('standard-vs-vectorised-voigt', sv[0], sv[1])
        # batches
        Es = [ref.rand_sym(ctx.rng, n, sc) for _ in range(4)]
        b = torch.stack([T(voigt_strain(e, order)) for e in Es])
        r = torch.vmap(vn.vget_strain_from_vmf,
                       in_dims=(0, None, None))(b, n, order)
        ctx.close('voigt-batch', r, np.array(Es), rtol=tol, scale=3*sc)
        # volumetric/deviatoric split
        pv, pd = vn.get_projection_tensors_vmf(n, order)
        ctx.close('projection-sum', pv + pd, np.eye(len(order)), atol=tol)
        ctx.close('projection-idempotent', pv @ pv, pv, atol=3*tol)
        ctx.close('projection-orthogonal', pv @ pd, 0*pv, atol=3*tol)
        t = np.trace(S)/n
        ctx.close('volumetric-part', pv @ sv[0],
                  np.array([t if c[0] == c[1] else 0. for c in order]),
                  rtol=3*tol, scale=3., msg=f'{order}')


def cases(tier):
    n = 36 if tier == "quick" else 200
    out = []
    for dt in ('float64', 'float32'):
        out += [('element', dict(name=k, dt=dt, n=n)) for k in fem.CLS]
        out += [('volume', dict(name=k, g=g, dt=dt, n=n)) for k in fem.CLS
                for g in fem.GAUSS[k]]
        out += [('voigt', dict(n=d, dt=dt, reps=6*n)) for d in (2, 3)]
    return out
