"""Independent numpy float64 reference definitions (never import /repo)."""
import itertools
import math
import numpy as np

SYM = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
NSYM = {2: ('11', '21', '12', '22'),
        3: ('11', '21', '31', '12', '22', '32', '13', '23', '33')}
R2 = math.sqrt(2.0)


def idx(c):
    return int(c[0]) - 1, int(c[1]) - 1


def is_sym_order(n, order):
    return len(order) == n*(n + 1)//2


def mf2(T, order, kelvin=True):
    n = T.shape[0]
    k = kelvin and is_sym_order(n, order)
    return np.array([T[idx(c)]*(R2 if k and c[0] != c[1] else 1.0)
                     for c in order])


def mf4(T, order, kelvin=True):
    n = T.shape[0]
    k = kelvin and is_sym_order(n, order)

    def f(c):
        return R2 if k and c[0] != c[1] else 1.0
    return np.array([[T[idx(a) + idx(b)]*f(a)*f(b) for b in order]
                     for a in order])


def unmf2(v, n, order, kelvin=True):
    s = is_sym_order(n, order)
    T = np.zeros((n, n))
    for a, c in enumerate(order):
        i, j = idx(c)
        x = v[a]/(R2 if kelvin and s and i != j else 1.0)
        T[i, j] = x
        if s:
            T[j, i] = x
    return T


def unmf4(m, n, order, kelvin=True):
    s = is_sym_order(n, order)
    T = np.zeros((n,)*4)
    for (a, ca), (b, cb) in itertools.product(enumerate(order), repeat=2):
        i, j = idx(ca)
        k, l = idx(cb)
        x = m[a, b]
        if kelvin and s:
            x = x/(R2 if i != j else 1.0)/(R2 if k != l else 1.0)
        T[i, j, k, l] = x
        if s:
            T[j, i, k, l] = T[i, j, l, k] = T[j, i, l, k] = x
    return T


def rand_sym(rng, n, scale=1.0):
    a = rng.standard_normal((n, n))*scale
    return 0.5*(a + a.T)


def rand_minor_sym(rng, n, scale=1.0):
    a = rng.standard_normal((n,)*4)*scale
    a = 0.5*(a + a.transpose(1, 0, 2, 3))
    return 0.5*(a + a.transpose(0, 1, 3, 2))


def lame(E, nu):
    return E*nu/((1 + nu)*(1 - 2*nu)), E/(2*(1 + nu))


def iso_tensor(E, nu, n=3):
    """Isotropic elasticity tensor; n=2 is the in-plane part of plane
    strain."""
    lam, G = lame(E, nu)
    I = np.eye(n)
    return (lam*np.einsum('ij,kl->ijkl', I, I)
            + G*(np.einsum('ik,jl->ijkl', I, I)
                 + np.einsum('il,jk->ijkl', I, I)))


def dev(s):
    return s - np.trace(s)/3.0*np.eye(3)


def rand_rot(rng):
    q = rng.standard_normal(4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2*(y*y + z*z), 2*(x*y - z*w), 2*(x*z + y*w)],
        [2*(x*y + z*w), 1 - 2*(x*x + z*z), 2*(y*z - x*w)],
        [2*(x*z - y*w), 2*(y*z + x*w), 1 - 2*(x*x + y*y)]])
