"""Finite element references (numpy) and random meshes."""
import itertools
import numpy as np
from simulators.fetorch.element.type.tri3 import FETri3
from simulators.fetorch.element.type.tri6 import FETri6
from simulators.fetorch.element.type.quad4 import FEQuad4
from simulators.fetorch.element.type.quad8 import FEQuad8
from simulators.fetorch.element.type.tetra4 import FETetra4
from simulators.fetorch.element.type.tetra10 import FETetra10
from simulators.fetorch.element.type.hexa8 import FEHexa8
from simulators.fetorch.element.type.hexa20 import FEHexa20

Q4 = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
H8 = [(x, y, z) for z in (-1, 1) for x, y in Q4]
T3 = [(0, 0), (1, 0), (0, 1)]
T4 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
NODES = {
    'tri3': T3, 'tri6': T3 + [(.5, 0), (.5, .5), (0, .5)],
    'quad4': Q4, 'quad8': Q4 + [(0, -1), (1, 0), (0, 1), (-1, 0)],
    'tetra4': T4, 'tetra10': T4 + [(.5, 0, 0), (.5, .5, 0), (0, .5, 0),
                                   (0, 0, .5), (.5, 0, .5), (0, .5, .5)],
    'hexa8': H8, 'hexa20': H8 + [
        (0, -1, -1), (1, 0, -1), (0, 1, -1), (-1, 0, -1), (-1, -1, 0),
        (1, -1, 0), (1, 1, 0), (-1, 1, 0), (0, -1, 1), (1, 0, 1), (0, 1, 1),
        (-1, 0, 1)]}
NODES = {k: np.array(v, float) for k, v in NODES.items()}


def _expo(n, ok):
    return [e for e in itertools.product(range(4), repeat=n) if ok(e)]


# Serendipity spaces: superlinear degree (linear variables not counted) <= 2
MONO = {
    'tri3': _expo(2, lambda e: sum(e) <= 1),
    'tri6': _expo(2, lambda e: sum(e) <= 2),
    'quad4': _expo(2, lambda e: max(e) <= 1),
    'quad8': _expo(2, lambda e: sum(x for x in e if x > 1) <= 2),
    'tetra4': _expo(3, lambda e: sum(e) <= 1),
    'tetra10': _expo(3, lambda e: sum(e) <= 2),
    'hexa8': _expo(3, lambda e: max(e) <= 1),
    'hexa20': _expo(3, lambda e: sum(x for x in e if x > 1) <= 2)}
CLS = {'tri3': FETri3, 'tri6': FETri6, 'quad4': FEQuad4, 'quad8': FEQuad8,
       'tetra4': FETetra4, 'tetra10': FETetra10, 'hexa8': FEHexa8,
       'hexa20': FEHexa20}
GAUSS = {'tri3': (1,), 'tri6': (1, 3), 'quad4': (1, 4), 'quad8': (4, 9),
         'tetra4': (1, 4), 'tetra10': (4,), 'hexa8': (1, 8),
         'hexa20': (8, 27)}
DEFAULT = {'tri3': 1, 'tri6': 3, 'quad4': 4, 'quad8': 9, 'tetra4': 4,
           'tetra10': 4, 'hexa8': 8, 'hexa20': 27}
DOMAIN = {'tri': 'triangular', 'quad': 'quadrilateral',
          'tetra': 'tetrahedral', 'hexa': 'hexahedral'}
DIM = {k: v.shape[1] for k, v in NODES.items()}


def family(name):
    return name.rstrip('0123456789')


def is_simplex(name):
    return family(name) in ('tri', 'tetra')


def mono(x, e):
    return np.prod([x[i]**e[i] for i in range(len(e))])


def dmono(x, e):
    g = []
    for k in range(len(e)):
        if e[k] == 0:
            g.append(0.0)
            continue
        f = list(e)
        f[k] -= 1
        g.append(e[k]*mono(x, f))
    return g


_C = {}


def coef(name):
    if name not in _C:
        V = np.array([[mono(x, e) for e in MONO[name]] for x in NODES[name]])
        assert V.shape[0] == V.shape[1]
        _C[name] = np.linalg.inv(V)
    return _C[name]


def shape(name, x):
    return np.array([mono(x, e) for e in MONO[name]]) @ coef(name)


def dshape(name, x):
    """(n_node, n_dim)"""
    return (np.array([dmono(x, e) for e in MONO[name]]).T @ coef(name)).T


def rand_local(rng, name):
    n = DIM[name]
    if is_simplex(name):
        p = rng.dirichlet(np.ones(n + 1))
        return p[:n]
    return rng.uniform(-1, 1, n)


def rand_nodes(rng, name, distort=.12, size=1.0):
    """A valid (positively oriented, mildly distorted) physical element."""
    n = DIM[name]
    X = NODES[name]
    while True:
        A = rng.standard_normal((n, n))*.35 + np.eye(n)
        h = .5 if is_simplex(name) else 1.0
        Y = X @ A.T + rng.uniform(-distort, distort, X.shape)*h
        pts = list(X)*1 + [rand_local(rng, name) for _ in range(12)] \
            + [quad_points(name, g)[0][i] for g in GAUSS[name]
               for i in range(g)]
        d = [np.linalg.det(dshape(name, p).T @ Y) for p in pts]
        if min(d) > .15*max(d) and min(d) > .05:
            return (Y + rng.uniform(-3, 3, n))*size


def quad_points(name, g):
    f = family(name)
    n = DIM[name]
    if f in ('quad', 'hexa'):
        m = round(g**(1/n))
        x, w = np.polynomial.legendre.leggauss(m)
        P, W = [], []
        for k in itertools.product(range(m), repeat=n):
            k = k[::-1]        # first coordinate fastest
            P.append([x[i] for i in k])
            W.append(np.prod([w[i] for i in k]))
        return np.array(P), np.array(W)
    if f == 'tri':
        if g == 1:
            return np.array([[1/3, 1/3]]), np.array([.5])
        return np.array([[1/6, 1/6], [2/3, 1/6], [1/6, 2/3]]), \
            np.full(3, 1/6)
    if g == 1:
        return np.full((1, 3), .25), np.array([1/6])
    a, b = (5 - 5**.5)/20, (5 + 3*5**.5)/20
    return np.array([[a, a, a], [b, a, a], [a, b, a], [a, a, b]]), \
        np.full(4, 1/24)


def volume(name, X, m=4):
    """Exact (high-order) volume of an isoparametric element."""
    x, w = np.polynomial.legendre.leggauss(m)
    n = DIM[name]
    v = 0.0
    for k in itertools.product(range(m), repeat=n):
        p = np.array([x[i] for i in k])
        ww = np.prod([w[i] for i in k])
        if is_simplex(name):
            u = (p + 1)/2          # Duffy
            if n == 2:
                q = np.array([u[0], u[1]*(1 - u[0])])
                jac = (1 - u[0])/4
            else:
                q = np.array([u[0], u[1]*(1 - u[0]),
                              u[2]*(1 - u[0])*(1 - u[1])])
                q[2] = u[2]*(1 - q[0] - q[1])
                jac = (1 - u[0])*(1 - q[0] - q[1])/8
            p, ww = q, ww*jac
        v += ww*np.linalg.det(dshape(name, p).T @ X)
    return v


# -------------------------------------------------------------------- meshes
def grid_mesh(rng, name, div, size=1.0, distort=.15, shuffle=True):
    """Structured mesh of a box with distorted interior nodes and randomly
    renumbered nodes and elements -> (coords, connectivities (1-based))."""
    n = DIM[name]
    ids, coords, conn = {}, [], []

    def node(p):
        key = tuple(np.round(np.asarray(p)*1e6).astype(int))
        if key not in ids:
            ids[key] = len(coords)
            coords.append(np.asarray(p, float))
        return ids[key]
    for cell in itertools.product(*[range(d) for d in div]):
        c = np.array(cell, float)
        if is_simplex(name):
            if n == 2:
                simp = [[(0, 0), (1, 0), (0, 1)], [(1, 1), (0, 1), (1, 0)]]
            else:
                simp = []
                for perm in itertools.permutations(range(3)):
                    v = [np.zeros(3)]
                    for k in perm:
                        w = v[-1].copy()
                        w[k] += 1
                        v.append(w)
                    M = np.array([v[i] - v[0] for i in (1, 2, 3)])
                    if np.linalg.det(M) < 0:
                        v[1], v[2] = v[2], v[1]
                    simp.append(v)
            for s in simp:
                s = np.array(s, float)
                T = np.array([s[i] - s[0] for i in range(1, n + 1)])
                conn.append([node(c + s[0] + x @ T) for x in NODES[name]])
        else:
            conn.append([node(c + (x + 1)/2) for x in NODES[name]])
    X = np.array(coords)
    lo, hi = X.min(0), X.max(0)
    inner = np.all((X > lo + 1e-9) & (X < hi - 1e-9), axis=1)
    amp = distort*(.25 if len(NODES[name]) > 2**n else 1)
    X = X + inner[:, None]*rng.uniform(-amp, amp, X.shape)
    X = X*size*np.array([rng.uniform(.7, 1.4) for _ in range(n)])
    if shuffle:
        p = rng.permutation(len(X))
        inv = np.argsort(p)
        X = X[p]
        conn = [[int(inv[i]) for i in e] for e in conn]
        conn = [conn[i] for i in rng.permutation(len(conn))]
    return X, {str(i + 1): [int(k) + 1 for k in e]
               for i, e in enumerate(conn)}


# -------------------------------------------------------------- strain/forces
def strain_sym(G, n):
    """Symmetric strain tensor of a displacement gradient."""
    return .5*(G + G.T)


def element_forces(name, g, X, stresses):
    """sum_g w det(J) sigma . grad N  -> (n_node, n_dim)"""
    P, W = quad_points(name, g)
    F = np.zeros_like(X)
    for p, w, s in zip(P, W, stresses):
        d = dshape(name, p)
        J = d.T @ X
        dx = np.linalg.solve(J, d.T).T
        n = X.shape[1]
        F += w*np.linalg.det(J)*dx @ s[:n, :n]
    return F


def gauss_strain(name, g, X, U):
    out = []
    for p in quad_points(name, g)[0]:
        d = dshape(name, p)
        dx = np.linalg.solve(d.T @ X, d.T).T
        out.append(strain_sym(U.T @ dx, X.shape[1]))
    return out


def plain_container(S):
    """Standard constitutive models need a plain model container (the code's
    own error message says so); find it by kind, not by name."""
    import torch
    for k, v in list(S._modules.items()):
        if isinstance(v, torch.nn.ModuleDict) and len(v) == 0:
            del S._modules[k]
            object.__setattr__(S, k, {})
    return S
