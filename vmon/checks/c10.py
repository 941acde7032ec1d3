"""C10: shape functions and quadrature rules of every element type."""
import itertools
import math
import numpy as np
import torch
from vmon import fem
from simulators.fetorch.element.type.quadratures import gauss_quadrature

PROPERTY = 'C10'
RULE = ('every element type at nodes, vertices, faces, interior and exterior '
        'random points, both precisions; every monomial up to the declared '
        'degree of every quadrature rule and one degree beyond the domain '
        'measure; non-trivial: distinct (element, precision, kind of point, '
        'point)')
ASSUMPTIONS = ['node ordering as documented in the element classes',
               'CPU device only']
REQUIRED_EVENTS = ('shape', 'derivative', 'quadrature', 'interpolation',
                   'rejected-rule')


def element(ctx, name, dt, n):
    torch.set_default_dtype(getattr(torch, dt))
    tol = 1e-10 if dt == 'float64' else 3e-5
    el = fem.CLS[name]()
    dim = fem.DIM[name]
    N = fem.NODES[name]
    ctx.same('n-node', el.get_n_node(), len(N))
    ctx.same('n-dof', el.get_n_dof_node(), dim)
    ctx.same('default-n-gauss', el.get_n_gauss(), fem.DEFAULT[name])
    ctx.same('device', el.get_device(), ('cpu', torch.device('cpu')))
    pts = [('node', p) for p in N]
    for _ in range(n):
        p = fem.rand_local(ctx.rng, name)
        pts.append(('inside', p))
        q = p.copy()
        q[int(ctx.rng.integers(dim))] = ctx.rng.choice([-1., 0., 1.])
        pts.append(('face', q))
        pts.append(('outside', ctx.rng.uniform(-2, 2, dim)))
    for kind, p in pts:
        x = torch.tensor(p, dtype=torch.get_default_dtype())
        x0 = x.clone()
        s, d = el.eval_shapefun(x), el.eval_shapefun_local_deriv(x)
        ctx.same('arguments-unchanged', x, x0)
        ctx.event('shape')
        ctx.event('derivative')
        ctx.state(name, dt, kind, *np.round(p, 4))
        tag = f'{name} {dt} {kind} {p}'
        ctx.close('shape-function', s, fem.shape(name, p), rtol=tol,
                  scale=10., msg=tag)
        ctx.close('shape-derivative', d, fem.dshape(name, p), rtol=tol,
                  scale=10., msg=tag)
        ctx.close('partition-of-unity', s.sum(), 1., atol=10*tol, msg=tag)
        ctx.close('derivatives-sum-to-zero', d.sum(0), np.zeros(dim),
                  atol=20*tol, msg=tag)
        # geometry reproduces itself; linear fields are interpolated exactly
        ctx.close('isoparametric-identity', s.double().numpy() @ N, p,
                  atol=20*tol, msg=tag)
        ctx.event('interpolation')
        # automatic differentiation of the shape functions agrees with the
        # supplied derivatives
        J = torch.autograd.functional.jacobian(el.eval_shapefun, x)
        ctx.close('derivative-vs-autograd', d, J, rtol=tol, scale=10.,
                  msg=tag)
    # vectorised evaluation equals pointwise evaluation
    xs = torch.tensor(np.array([p for _, p in pts]),
                      dtype=torch.get_default_dtype())
    vs = torch.vmap(el.eval_shapefun)(xs)
    vd = torch.vmap(el.eval_shapefun_local_deriv)(xs)
    for k in range(len(pts)):
        ctx.close('batched-shape', vs[k], el.eval_shapefun(xs[k]),
                  rtol=tol, scale=10.)
        ctx.close('batched-derivative', vd[k],
                  el.eval_shapefun_local_deriv(xs[k]), rtol=tol, scale=10.)


def exact(domain, e):
    if domain in ('triangular', 'tetrahedral'):
        n = len(e)
        return math.prod(math.factorial(k) for k in e) \
            / math.factorial(sum(e) + n)
    return math.prod(0.0 if k % 2 else 2.0/(k + 1) for k in e)


RULES = [('linear', 1), ('linear', 2), ('linear', 3),
         ('quadrilateral', 1), ('quadrilateral', 4), ('quadrilateral', 9),
         ('triangular', 1), ('triangular', 3),
         ('hexahedral', 1), ('hexahedral', 8), ('hexahedral', 27),
         ('tetrahedral', 1), ('tetrahedral', 4)]
NDIM = {'linear': 1, 'quadrilateral': 2, 'triangular': 2, 'hexahedral': 3,
        'tetrahedral': 3}


def inside(domain, p):
    if domain in ('triangular', 'tetrahedral'):
        return min(p) > 0 and sum(p) < 1
    return max(abs(p)) < 1


def check_rule(ctx, domain, g, coords, weights, tol, tag):
    n = NDIM[domain]
    keys = [str(i + 1) for i in range(g)]
    ctx.same('rule-labels', set(coords), set(keys), msg=tag)
    ctx.same('rule-labels', set(weights), set(keys), msg=tag)
    P = np.array([coords[k].double().numpy() for k in keys])
    W = np.array([float(weights[k]) for k in keys])
    ctx.ok('points-inside', all(inside(domain, p) for p in P), tag)
    ctx.ok('weights-positive', bool((W > 0).all()), tag)
    ctx.ok('points-distinct', len({tuple(np.round(p, 5)) for p in P}) == g,
           tag)
    m = round(g**(1/n)) if domain in ('linear', 'quadrilateral',
                                      'hexahedral') else None
    for e in itertools.product(range(6), repeat=n):
        if m is not None:
            if max(e) > 2*m - 1:
                continue
        elif sum(e) > (1 if g == 1 else 2):
            continue
        q = sum(w*np.prod(p**np.array(e)) for p, w in zip(P, W))
        ctx.event('quadrature')
        ctx.close('quadrature-exact', q, exact(domain, e), atol=tol,
                  msg=f'{tag} monomial {e}')


def quadrature(ctx, domain, g, dt):
    torch.set_default_dtype(getattr(torch, dt))
    tol = 1e-12 if dt == 'float64' else 5e-6
    c, w = gauss_quadrature(g, domain)
    ctx.state('rule', domain, g, dt)
    check_rule(ctx, domain, g, c, w, tol, f'{domain} {g} {dt}')
    # the rule returned is the caller's own
    c['1'] += 7.
    w['1'] += 7.
    c, w = gauss_quadrature(g, domain)
    check_rule(ctx, domain, g, c, w, tol, f'{domain} {g} {dt} second call')


def element_rule(ctx, name, g, dt):
    """The rule an element hands out is the one it was built with, and every
    accessor agrees."""
    torch.set_default_dtype(getattr(torch, dt))
    tol = 1e-12 if dt == 'float64' else 5e-6
    el = fem.CLS[name](n_gauss=g)
    ctx.same('n-gauss', el.get_n_gauss(), g, msg=name)
    c, w = el.get_gauss_integration_points()
    dom = fem.DOMAIN[fem.family(name)]
    ctx.state('element-rule', name, g, dt)
    check_rule(ctx, dom, g, c, w, tol, f'{name} {g} {dt}')
    for k in c:
        c[k] += 1.
        w[k] *= 3.
    c, w = el.get_gauss_integration_points()
    check_rule(ctx, dom, g, c, w, tol, f'{name} {g} {dt} after tampering')
    bc, bw = el.get_batched_gauss_integration_points()
    for i in range(g):
        ctx.close('batched-rule', bc[i], c[str(i + 1)], atol=0.)
        ctx.close('batched-rule', bw[i], w[str(i + 1)], atol=0.)
    # reference element measure
    meas = {'tri': .5, 'quad': 4., 'tetra': 1/6, 'hexa': 8.}
    ctx.close('reference-measure', bw.sum(), meas[fem.family(name)],
              rtol=1e-5)


def rejected(ctx):
    for dom in NDIM:
        for g in list(range(0, 30)) + [64]:
            if (dom, g) in RULES:
                continue
            ctx.event('rejected-rule')
            ctx.raises('unknown-rule-rejected',
                       lambda: gauss_quadrature(g, dom), msg=f'{dom} {g}')
    ctx.raises('unknown-domain-rejected', lambda: gauss_quadrature(1, 'disk'))
    for name in fem.CLS:
        for g in (0, 2, 3, 5, 6, 7, 10, 16, 64):
            if g not in fem.GAUSS[name]:
                ctx.event('rejected-rule')
                ctx.raises('unknown-rule-rejected',
                           lambda: fem.CLS[name](n_gauss=g),
                           msg=f'{name} {g}')


def cases(tier):
    n = 40 if tier == 'quick' else 300
    out = [('rejected', {})]
    for dt in ('float64', 'float32'):
        out += [('element', dict(name=k, dt=dt, n=n)) for k in fem.CLS]
        out += [('quadrature', dict(domain=d, g=g, dt=dt)) for d, g in RULES]
        out += [('element_rule', dict(name=k, g=g, dt=dt))
                for k in fem.CLS for g in fem.GAUSS[k]]
    return out
