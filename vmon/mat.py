"""Material workloads: random constitutive models and strain histories, and
readers of the states the models return."""
import copy
import math
import numpy as np
import torch
from vmon import ref
from simulators.fetorch.material.models.standard import hardening as hd
from simulators.fetorch.material.models.standard.elastic import Elastic
from simulators.fetorch.material.models.standard.von_mises import VonMises
from simulators.fetorch.material.models.standard.von_mises_mixed import \
    VonMisesMixed
from simulators.fetorch.material.models.standard.drucker_prager import \
    DruckerPrager
from simulators.fetorch.material.models.standard.lou import LouZhangYoon
from simulators.fetorch.material.models.vmap.von_mises import VonMisesVMAP
from simulators.fetorch.material.models.vmap.von_mises_mixed import \
    VonMisesMixedVMAP
from simulators.fetorch.material.models.vmap.drucker_prager import \
    DruckerPragerVMAP
from simulators.fetorch.material.models.vmap.lou import LouZhangYoonVMAP
from simulators.fetorch.material.material_su import material_state_update

CLASSES = {
    'elastic': (Elastic, None),
    'von_mises': (VonMises, VonMisesVMAP),
    'von_mises_mixed': (VonMisesMixed, VonMisesMixedVMAP),
    'drucker_prager': (DruckerPrager, DruckerPragerVMAP),
    'lou_zhang_yoon': (LouZhangYoon, LouZhangYoonVMAP)}
PLASTIC = ('von_mises', 'von_mises_mixed', 'drucker_prager',
           'lou_zhang_yoon')
PT = {2: 1, 3: 4}


# ----------------------------------------------------------------- hardening
def rand_hardening(rng, s0, kind=None, soft=False):
    """-> (kind, parameters, numpy law acc -> (yield stress, slope))."""
    kind = kind or rng.choice(['linear', 'nadai_ludwik', 'piecewise_linear',
                               'perfect'])
    if kind == 'perfect':
        p = {'s0': s0, 'a': 0.0}
        kind = 'linear'
    elif kind == 'linear':
        p = {'s0': s0, 'a': float(s0*rng.uniform(0.05, 5))}
    elif kind == 'nadai_ludwik':
        p = {'s0': s0, 'a': float(s0*rng.uniform(.1, 1)),
             'b': float(rng.uniform(.3, 1.0)),
             'ep0': float(10**rng.uniform(-4, -2))}
    else:
        n = int(rng.integers(2, 7))
        x = np.concatenate(([0.], np.sort(rng.uniform(0.002, 0.3, n - 1))))
        while n > 2 and np.min(np.diff(x)) < 2e-3:
            x = np.concatenate(([0.], np.sort(rng.uniform(.002, .3, n - 1))))
        sl = np.sort(rng.uniform(0, 4, n - 1))[::-1]*s0
        y = s0 + np.concatenate(([0.], np.cumsum(sl*np.diff(x))))
        p = {'hardening_points': np.stack([x, y], 1).tolist()}
    return kind, p, hard_ref(kind, p)


def hard_ref(kind, p):
    if kind == 'linear':
        return lambda e: (p['s0'] + p['a']*e, p['a'])
    if kind == 'nadai_ludwik':
        return lambda e: (p['s0'] + p['a']*(e + p['ep0'])**p['b'],
                          p['a']*p['b']*(e + p['ep0'])**(p['b'] - 1))
    pts = np.asarray(p['hardening_points'])

    def f(e):
        y = float(np.interp(e, pts[:, 0], pts[:, 1]))
        if e < pts[0, 0] or e >= pts[-1, 0]:
            return y, 0.0
        i = int(np.searchsorted(pts[:, 0], e, side='right')) - 1
        return y, float((pts[i+1, 1] - pts[i, 1])/(pts[i+1, 0] - pts[i, 0]))
    return f


def code_params(kind, p):
    q = dict(p)
    if 'hardening_points' in q:
        q['hardening_points'] = torch.tensor(q['hardening_points'])
    return q


def lou_convexity(c, d):
    """min over the Lode angle of (g + g'')/g, where g is the effective stress
    on the unit circle of the deviatoric plane (convex iff >= 0)."""
    th = np.linspace(0, 2*np.pi, 721)[:-1]
    j3 = 2/(3*math.sqrt(3))*np.cos(3*th)
    w4 = 1 - c*j3**2
    if w4.min() <= .05:
        return -1.0
    w5 = np.sqrt(w4) - d*j3
    if w5.min() <= .1:
        return -1.0
    g = np.cbrt(w5)
    h = th[1] - th[0]
    g2 = (np.roll(g, 1) - 2*g + np.roll(g, -1))/h**2
    return float(((g + g2)/g).min())


# -------------------------------------------------------------------- models
class Spec:
    """A random material: plain numbers plus builders of the real models."""

    def __init__(self, rng, name, E=None, nu=None, s0=None, kinds=None,
                 assoc=None, tame=False):
        self.name = name
        if not E:
            # any consistent units: GPa, MPa, kPa, Pa
            u = rng.random()
            E = float(10**(rng.uniform(1, 3) if u < .2 else
                           rng.uniform(5.3, 11) if u < .35 else
                           rng.uniform(3, 5.3)))
        self.E = E
        self.nu = nu if nu is not None else float(rng.uniform(0.05, 0.45))
        self.s0 = s0 or float(self.E*10**rng.uniform(-3.3, -2))
        self.par = {'elastic_symmetry': 'isotropic', 'E': self.E,
                    'v': self.nu, 'euler_angles': (0.0, 0.0, 0.0)}
        self.laws = {}
        if name in ('von_mises', 'von_mises_mixed', 'lou_zhang_yoon'):
            self.add('', rand_hardening(rng, self.s0, kinds))
        if name == 'von_mises_mixed':
            k = rng.choice(['linear', 'nadai_ludwik', 'piecewise_linear'])
            self.add('kinematic_', rand_hardening(rng, self.s0, k))
        if name == 'drucker_prager':
            phi = math.radians(float(rng.uniform(5, 35)))
            psi = phi if rng.random() < .5 else \
                phi*float(rng.uniform(.3, 1.0))

            def eta(t):
                return (6*math.sin(t))/(math.sqrt(3)*(3 - math.sin(t)))
            self.xi = (6*math.cos(phi))/(math.sqrt(3)*(3 - math.sin(phi)))
            self.etay, self.etaf = eta(phi), eta(psi)
            self.par.update(yield_cohesion_parameter=self.xi,
                            yield_pressure_parameter=self.etay,
                            flow_pressure_parameter=self.etaf)
            self.add('', rand_hardening(rng, self.s0/self.xi, kinds))
        if name == 'lou_zhang_yoon':
            c = d = 0.0
            if rng.random() > .25:
                c, d = float(rng.uniform(-2.5, 2.2)), \
                    float(rng.uniform(-1.0, 1.0))
                while lou_convexity(c, d) < .15:
                    c, d = float(rng.uniform(-2.5, 2.2)), \
                        float(rng.uniform(-1.0, 1.0))
            b = 0.0 if rng.random() < .3 else float(rng.uniform(.01, .1))
            a = math.sqrt(3.0)
            self.abcd = {}
            for k, v0 in zip('abcd', (a, b, c, d)):
                slope = 0.0 if rng.random() < .7 or v0 == 0 else \
                    float(v0*rng.uniform(-.1, .1))
                kind, p = 'linear', {'s0': v0, 'a': slope}
                self.add(k + '_', (kind, p, hard_ref(kind, p)))
            self.assoc = bool(rng.random() < .5) if assoc is None else assoc
            self.par['is_associative_hardening'] = self.assoc

    def add(self, prefix, law):
        kind, p, f = law
        self.par[prefix + 'hardening_law'] = kind
        self.par[prefix + 'hardening_parameters'] = p
        self.laws[prefix] = f

    @property
    def law(self):
        return self.laws['']

    def code_parameters(self, **kw):
        q = {}
        for k, v in self.par.items():
            if k.endswith('hardening_law'):
                q[k] = hd.get_hardening_law(v)
            elif k.endswith('hardening_parameters'):
                q[k] = code_params(None, v)
            else:
                q[k] = copy.copy(v)
        q.update(kw)
        return q

    def build(self, n_dim, vmap=False, **kw):
        cls = CLASSES[self.name][1 if vmap else 0]
        return cls('infinitesimal', PT[n_dim], self.code_parameters(), **kw)

    def yield_strain(self):
        return self.law(0.0)[0]/self.E if self.laws else 1e-3

    def describe(self):
        return f'{self.name} {self.par}'

    # yield function value of a 3D stress, normalised by the current strength
    def yield_value(self, sig, acc, back=None):
        if self.name == 'von_mises':
            s = ref.dev(sig)
            y = self.law(acc)[0]
            return (math.sqrt(1.5)*np.linalg.norm(s) - y)/y
        if self.name == 'von_mises_mixed':
            s = ref.dev(sig) - back
            y = self.law(acc)[0]
            return (math.sqrt(1.5)*np.linalg.norm(s) - y)/y
        if self.name == 'drucker_prager':
            s = ref.dev(sig)
            c = self.law(acc)[0]
            return (math.sqrt(.5)*np.linalg.norm(s)
                    + self.etay*np.trace(sig)/3 - self.xi*c)/c
        y = self.law(acc)[0]
        return (self.lou_effective(sig, acc) - y)/y

    def lou_effective(self, sig, acc):
        a, b, c, d = (self.laws[k + '_'](acc)[0] for k in 'abcd')
        s = ref.dev(sig)
        j2 = .5*np.sum(s*s)
        j3 = np.linalg.det(s)
        w4 = max(j2**3 - c*j3**2, 0.0)
        return a*(b*np.trace(sig) + np.cbrt(math.sqrt(w4) - d*j3))

    def lou_normal(self, sig, acc):
        """Analytical gradient of the effective stress (via dJ3 = dev(s.s)),
        independent of any matrix inverse."""
        a, b, c, d = (self.laws[k + '_'](acc)[0] for k in 'abcd')
        s = ref.dev(sig)
        j2 = .5*np.sum(s*s)
        j3 = np.linalg.det(s)
        dj3 = s @ s - 2.0/3.0*j2*np.eye(3)
        w4 = j2**3 - c*j3**2
        w5 = math.sqrt(w4) - d*j3
        dw4 = 3*j2**2*s - 2*c*j3*dj3
        dw5 = .5/math.sqrt(w4)*dw4 - d*dj3
        return a*(b*np.eye(3) + np.cbrt(w5)**-2/3.0*dw5)


# -------------------------------------------------------------------- states
def num(x):
    return float(x.detach()) if isinstance(x, torch.Tensor) else float(x)


def vec(x):
    return x.detach().double().numpy()


def full(state, key, n_dim):
    """Full 3x3 tensor of a symmetric state entry."""
    v = vec(state[key])
    t = np.zeros((3, 3))
    t[:n_dim, :n_dim] = ref.unmf2(v, n_dim, ref.SYM[n_dim])
    if n_dim == 2:
        k33 = {'e_strain_mf': 'e_strain_33', 'stress_mf': 'stress_33',
               'back_stress_mf': 'back_stress_33'}.get(key)
        if k33:
            t[2, 2] = num(state[k33])
    return t


def snapshot(state):
    return {k: (v.detach().clone() if isinstance(v, torch.Tensor) else
                copy.deepcopy(v)) for k, v in state.items()}


def update(model, n_dim, inc, state):
    return material_state_update('infinitesimal', PT[n_dim], model, inc,
                                 state)


def tens(a):
    return torch.tensor(np.asarray(a), dtype=torch.get_default_dtype())


# --------------------------------------------------------------------- paths
KINDS = ('proportional', 'cyclic', 'walk', 'big', 'tiny', 'shear',
         'hydro', 'reversal', 'uniaxial', 'touch')


def path(rng, kind, n_dim, scale, n=12):
    """List of n strain increments (n_dim x n_dim); scale ~ yield strain."""
    def dirn():
        d = ref.rand_sym(rng, n_dim)
        return d/np.linalg.norm(d)
    I = np.eye(n_dim)
    if kind == 'proportional':
        d = dirn()
        return [d*scale*rng.uniform(.1, 3) for _ in range(n)]
    if kind == 'cyclic':
        d = dirn()
        return [d*scale*1.3*(1 if (k//3) % 2 == 0 else -1)
                for k in range(n)]
    if kind == 'walk':
        return [dirn()*scale*10**rng.uniform(-2, 1) if rng.random() > .1
                else 0*I for _ in range(n)]
    if kind == 'big':
        return [dirn()*scale*rng.uniform(5, 40) for _ in range(max(2, n//3))]
    if kind == 'tiny':
        d = dirn()
        return [d*scale*1.05] + [dirn()*scale*10**rng.uniform(-5, -2)
                                 for _ in range(n - 1)]
    if kind == 'shear':
        d = np.zeros((n_dim, n_dim))
        i, j = (0, 1) if n_dim == 2 else [(0, 1), (1, 2), (0, 2)][
            int(rng.integers(3))]
        d[i, j] = d[j, i] = 1.0
        return [d*scale*rng.uniform(-1, 2) for _ in range(n)]
    if kind == 'hydro':
        return [(I*rng.uniform(-.5, 2) + dirn()*.2*rng.random())*scale
                for _ in range(n)]
    if kind == 'reversal':
        out = []
        for k in range(n//2):
            d = dirn()*scale*rng.uniform(.5, 4)
            out += [d, -d]
        return out
    if kind == 'uniaxial':
        d = np.zeros((n_dim, n_dim))
        i = int(rng.integers(n_dim))
        d[i, i] = 1.0
        return [d*scale*rng.uniform(-1, 3) for _ in range(n)]
    if kind == 'touch':
        # stays right at / around first yield
        d = dirn()
        return [d*scale*f for f in (.5, .3, .1, .05, .02, .02, 0, -.1, .1,
                                    -.5, .5, .2)][:n]
    raise ValueError(kind)


# ------------------------------------------------------------------- stepping
def history(ctx, spec, n_dim, vmap, kind, n=12, dtype=torch.float64,
            model=None, scale=None):
    """Drive one strain history through the real model; yields
    (step, increment, old state, new state, tangent)."""
    model = model or spec.build(n_dim, vmap)
    st = model.state_init()
    sc = scale or spec.yield_strain()
    for i, inc in enumerate(path(ctx.rng, kind, n_dim, sc, n)):
        t = torch.tensor(inc, dtype=dtype)
        new, tan = update(model, n_dim, t, st)
        ctx.event('step')
        yield i, t.double().numpy(), st, new, tan
        if failed(new):
            ctx.event('flagged-failure')
            return
        st = new


def failed(st):
    return bool(st['is_su_fail'])


class View:
    """Numbers of one state: full 3x3 tensors."""

    def __init__(self, st, n_dim):
        self.e = full(st, 'e_strain_mf', n_dim)
        self.eps = full(st, 'strain_mf', n_dim)
        self.sig = full(st, 'stress_mf', n_dim)
        self.ep = self.eps - self.e      # plane strain: ep33 = -e33
        self.acc = num(st['acc_p_strain']) if 'acc_p_strain' in st else 0.0
        self.plast = bool(st['is_plast'])
        self.fail = failed(st)
        self.back = full(st, 'back_stress_mf', n_dim) \
            if 'back_stress_mf' in st else None


def trial(spec, old, inc):
    """Elastic trial stress from the previous state."""
    e = old.e.copy()
    n = inc.shape[0]
    e[:n, :n] += inc
    return e, np.einsum('ijkl,kl->ij', ref.iso_tensor(spec.E, spec.nu), e)


def lou_apex_window(spec, old, sig_trial):
    """Trial pressure at or above 95 % of the apex pressure, and whether it
    is still below the apex."""
    y = spec.law(old.acc)[0]
    a, b = (spec.laws[q + '_'](old.acc)[0] for q in 'ab')
    p = np.trace(sig_trial)/3
    pa = y/(3*a*max(abs(b), 1e-6))
    return p > .95*pa, p/pa
