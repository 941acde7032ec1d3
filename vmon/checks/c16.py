"""C16: the material model finder's loss is the force imbalance of the
specimen."""
import os
import numpy as np
import torch
from vmon import fem, mat, nn, rc, ref
from material_model_finder.data.specimen_data import SpecimenNumericalData
from material_model_finder.model.material_discovery import \
    MaterialModelFinder
from simulators.fetorch.structure.structure_state import \
    StructureMaterialState
from time_series_data.time_dataset import load_dataset

PROPERTY = 'C16'
RULE = ('random meshes of every element type, materials, displacement and '
        'reaction histories, boundary conditions, weights and scalings; the '
        'loss of every forward mode is compared with an independent numpy '
        'integration and assembly driving one material point per '
        'integration point; non-trivial: distinct (element, material, mode, '
        'loss type, options, plastic points)')
ASSUMPTIONS = ['infinitesimal strains', 'CPU device only',
               'plots are not drawn (they need a LaTeX installation)']
REQUIRED_EVENTS = ('loss', 'plastic', 'equilibrium', 'gradient',
                   'local-path', 'specimen', 'sets', 'normalised', 'neural',
                   'mixed-types', 'many-elements', 'hybrid')


def T(a):
    return torch.tensor(np.asarray(a), dtype=torch.get_default_dtype())


def N(t):
    return t.detach().double().numpy()


ELEMS = [('tri3', (2, 1)), ('tri6', (1, 1)), ('quad4', (2, 2)),
         ('quad8', (2, 1)), ('tetra4', (1, 1, 1)), ('tetra10', (1, 1, 1)),
         ('hexa8', (2, 1, 1)), ('hexa20', (1, 1, 1))]


def split_quads(rng, conn):
    """Some quadrilaterals become pairs of triangles."""
    cs = list(conn.values()) if isinstance(conn, dict) else list(conn)
    out, cut = [], rng.random(len(cs)) < .5
    cut[int(rng.integers(len(cs)))] = True
    if cut.all():
        cut[int(rng.integers(len(cs)))] = False
    for c, x in zip(cs, cut):
        c = [int(q) for q in c]
        if x:
            out += [('tri3', [c[0], c[1], c[2]]),
                    ('tri3', [c[0], c[2], c[3]])]
        else:
            out.append(('quad4', c))
    out = [out[i] for i in rng.permutation(len(out))]
    return [c for _, c in out], [k for k, _ in out]


class Case:
    """A specimen: mesh, materials, displacements, reactions, boundary."""

    def __init__(self, ctx, name, mname, n_time=4, two=False, div=None,
                 affine=False, g=None, mixed=False):
        rng = ctx.rng
        self.name, self.dim = name, fem.DIM[name]
        self.g = g or fem.DEFAULT[name]
        size = float(10**rng.uniform(-.5, 1.5))
        self.X, self.conn = fem.grid_mesh(
            rng, name, div or dict(ELEMS)[name], size=size)
        self.X = N(T(self.X))
        if mixed:
            self.conn, self.kinds = split_quads(rng, self.conn)
        else:
            self.kinds = [name]*len(self.conn)
        self.n_elem = len(self.conn)
        self.gs = [self.g if k == name else fem.DEFAULT[k]
                   for k in self.kinds]
        self.specs = [mat.Spec(rng, mname)]
        self.owner = [0]*self.n_elem
        if two:
            self.specs.append(mat.Spec(rng, mname))
            self.owner = [int(k) for k in rng.integers(0, 2, self.n_elem)]
            self.owner[0], self.owner[-1] = 0, 1
        ys = min(s.yield_strain() for s in self.specs)
        self.n_time = n_time
        u = np.zeros_like(self.X)
        U = [u]
        for k in range(1, n_time):
            H = rng.standard_normal((self.dim, self.dim))*ys*10**rng.uniform(
                -.6, .5)
            du = self.X @ H.T + size*rng.standard_normal(self.dim)*ys
            if not affine:
                du += size*ys*.3*rng.standard_normal(self.X.shape)
            if k == n_time - 1 and n_time > 2:
                du = -.3*u
            u = u + du
            U.append(u)
        self.U = N(T(np.stack(U, -1)))
        self.t = np.cumsum(rng.uniform(.1, 2, n_time)) - .1

    def types(self):
        return {str(i + 1): fem.CLS[self.kinds[i]](n_gauss=self.gs[i])
                for i in range(self.n_elem)}

    def elem_conn(self, i):
        c = self.conn[str(i + 1)] if isinstance(self.conn, dict) \
            else self.conn[i]
        return np.asarray(c) - 1

    def solve(self, vmap, specs=None):
        """Independent response: strains, stresses per element and point and
        nodal forces over time (None after a failed update)."""
        specs = specs or self.specs
        F = np.zeros_like(self.U)
        self.E, self.S = [], []
        self.plastic = 0
        for i in range(self.n_elem):
            c = self.elem_conn(i)
            X = self.X[c]
            sp = specs[self.owner[i]]
            name, g = self.kinds[i], self.gs[i]
            eps = [fem.gauss_strain(name, g, X, self.U[c][:, :, k])
                   for k in range(self.n_time)]
            sig = []
            for p in range(g):
                m = sp.build(self.dim, vmap)
                path = np.array([[eps[k][p][ref.idx(x)]
                                  for x in ref.SYM[self.dim]]
                                 for k in range(self.n_time)])
                st = rc.drive(m, self.dim, path)
                if rc.first_bad(st) < len(st):
                    return None
                self.plastic += sum(bool(s.get('is_plast', False))
                                    for s in st)
                sig.append([mat.full(s, 'stress_mf', self.dim)[
                    :self.dim, :self.dim] for s in st])
            self.E.append(eps)
            self.S.append(sig)
            for k in range(self.n_time):
                f = fem.element_forces(name, g, X,
                                       [sig[p][k] for p in range(g)])
                for a, n in enumerate(c):
                    F[n, :, k] += f[a]
        return F


def boundary(ctx, case, sets, full=False):
    shape = case.X.shape
    if not sets:
        bc = (ctx.rng.random(shape) < (1 if full else .5)).astype(int)
        if not full:
            bc[0, 0], bc[-1, -1] = 1, 0
        return bc
    # every label belongs to one direction
    bc = np.zeros(shape, int)
    label = int(ctx.rng.integers(1, 4))
    for j in range(case.dim):
        for _ in range(int(ctx.rng.integers(1, 3))):
            free = [i for i in range(shape[0]) if bc[i, j] == 0]
            if full:
                for i in free:
                    if ctx.rng.random() < .6:
                        bc[i, j] = label
            else:
                for i in free[1:]:
                    if ctx.rng.random() < .35:
                        bc[i, j] = label
            label += int(ctx.rng.integers(1, 3))
        if full:
            for i in range(shape[0]):
                if bc[i, j] == 0:
                    bc[i, j] = label
            label += 1
    return bc


def reference(F, R, bc, sets, w, scale, a):
    """Weighted squared imbalance."""
    out = 0.
    for k in range(F.shape[-1]):
        r = (F[:, :, k] - R[:, :, k]*(bc != 0))*a
        if not sets:
            out += w[k]*(r**2).sum()
        else:
            v = (r[bc == 0]**2).sum()
            for lab in set(bc.ravel()) - {0}:
                v += r[bc == lab].sum()**2
            out += w[k]*v
    return out*scale


def specimen(case, bc, R):
    d = SpecimenNumericalData()
    conn = {str(i + 1): [int(x) for x in case.elem_conn(i) + 1]
            for i in range(case.n_elem)}
    d.set_specimen_mesh(T(case.X), case.types(), conn,
                        torch.tensor((bc != 0).astype(int)))
    hist = torch.tensor(bc)[:, :, None].repeat(1, 1, case.n_time)
    d.set_specimen_data(T(case.U), T(R), hist, T(case.t))
    return d


def materials(ctx, case, kind, learn=None, norm=False, in_norm=False,
              sync=True):
    """kind: 'plain', 'rc' or 'rc_vmap'."""
    S = StructureMaterialState('infinitesimal', mat.PT[case.dim],
                               case.n_elem)
    types = case.types()
    if kind == 'plain':
        fem.plain_container(S)
    n = len(ref.SYM[case.dim])
    for m, sp in enumerate(case.specs):
        ids = [i + 1 for i in range(case.n_elem) if case.owner[i] == m]
        if kind == 'plain':
            S.init_elements_model(sp.name, sp.code_parameters(), ids, types)
            continue
        full = sp.name + ('_vmap' if kind == 'rc_vmap' else '')
        S.init_elements_model('rc_' + full, sp.code_parameters(), ids, types,
                              model_kwargs=dict(
            n_features_in=n, n_features_out=n,
            learnable_parameters=(learn or [{}, {}])[m],
            material_model_name=full, state_features_out={},
            is_auto_sync_parameters=sync, is_check_su_fail=False,
            model_directory=ctx.tmpdir(), is_normalized_parameters=norm,
            is_model_in_normalized=in_norm, is_model_out_normalized=in_norm,
            device_type='cpu'))
    return S


def finder(ctx, data, S, sets=False, norm=None, scale=None, w=None, **kw):
    f = MaterialModelFinder(
        ctx.tmpdir(),
        force_equilibrium_loss_type='dirichlet_sets' if sets else 'pointwise',
        is_force_normalization=norm is not None, **kw)
    f.set_specimen_data(
        data, S, force_minimum=None if norm is None else T(norm[0]),
        force_maximum=None if norm is None else T(norm[1]),
        loss_scaling_factor=scale, loss_time_weights=w)
    return f


def options(ctx, case, F):
    """Random weights, scale factor and force normalisation."""
    rng = ctx.rng
    w = rng.uniform(0, 2, case.n_time) if rng.random() < .5 else None
    s = float(10**rng.uniform(-3, 1)) if rng.random() < .5 else None
    nm = None
    a = np.ones(case.dim)
    if rng.random() < .5:
        top = max(abs(F).max(), 1e-9)
        hi = rng.uniform(.2, 2, case.dim)*top
        lo = -hi if rng.random() < .4 else \
            -rng.uniform(.1, 2, case.dim)*top
        nm = (lo, hi)
        a = 2/(hi - lo)
        ctx.event('normalised')
    return w, s, nm, a


def loss(ctx, name, mname, kind, mode, sets=False, two=False, full=False,
         mixed=False, div=None):
    torch.set_default_dtype(torch.float64)
    case = Case(ctx, name, mname, n_time=int(ctx.rng.integers(2, 6)),
                two=two, mixed=mixed, div=div)
    vm = kind == 'rc_vmap'
    F = case.solve(vm)
    if F is None:
        ctx.event('failure-skipped')
        return
    bc = boundary(ctx, case, sets, full)
    R = F*ctx.rng.uniform(.5, 1.5, F.shape) \
        + abs(F).max()*.1*ctx.rng.standard_normal(F.shape)
    w, s, nm, a = options(ctx, case, F)
    data = specimen(case, bc, R)
    keep = (data.nodes_disps_mesh_hist.clone(),
            data.reaction_forces_mesh_hist.clone())
    f = finder(ctx, data, materials(ctx, case, kind), sets, nm, s,
               None if w is None else T(w))
    tag = (f'{name} {case.specs[0].name} {kind} {mode} sets={sets} two={two} '
           f'mixed={mixed} elements={case.n_elem} '
           f'n_time={case.n_time} weights={w is not None} scale={s} '
           f'norm={nm} {[sp.par for sp in case.specs]}')
    want = reference(F, R, bc, sets, w if w is not None
                     else np.ones(case.n_time), s if s is not None else 1.,
                     a)
    sc = reference(abs(F) + abs(R), 0*R, bc, False,
                   w if w is not None else np.ones(case.n_time),
                   s if s is not None else 1., a)
    try:
        got = f(sequential_mode=mode)
    except RuntimeError as e:
        if (two or mixed) and 'share' in str(e):
            ctx.event('refused')       # several materials are refused
            return
        raise
    ctx.event('loss')
    if mixed:
        ctx.event('mixed-types')
    if case.n_elem > 10:
        ctx.event('many-elements')
    if sets:
        ctx.event('sets')
    if case.plastic:
        ctx.event('plastic')
    ctx.state(name, mname, kind, mode, sets, two, nm is not None,
              case.n_time, case.plastic)
    ctx.close('loss', N(got), want, rtol=2e-5, scale=max(abs(want), sc*.05),
              msg=tag)
    ctx.same('displacements-unchanged', N(data.nodes_disps_mesh_hist),
             N(keep[0]), msg=tag)
    ctx.same('reactions-unchanged', N(data.reaction_forces_mesh_hist),
             N(keep[1]), msg=tag)
    if kind != 'plain':
        # evaluating again gives the same loss: no hidden memory
        ctx.close('loss-repeatable', N(f(sequential_mode=mode)), N(got),
                  rtol=1e-9, scale=sc, msg=tag)
    if mode == 'sequential_element_vmap':
        components(ctx, f, case, F, R, bc, sets, w, s, a, N(got), sc, tag)
    if mixed or div or two or ctx.rng.random() < .5:
        return
    # the same finder given another specimen forgets the first one
    case = Case(ctx, name, mname, n_time=int(ctx.rng.integers(2, 6)))
    F = case.solve(vm)
    if F is None:
        return
    bc = boundary(ctx, case, sets, full)
    R = F*ctx.rng.uniform(.5, 1.5, F.shape)
    n2 = None if nm is None else (-abs(F).max()*np.ones(case.dim),
                                  abs(F).max()*np.arange(2, case.dim + 2))
    a = np.ones(case.dim) if nm is None else 2/(n2[1] - n2[0])
    f.set_specimen_data(
        specimen(case, bc, R), materials(ctx, case, kind),
        force_minimum=None if nm is None else T(n2[0]),
        force_maximum=None if nm is None else T(n2[1]))
    one = np.ones(case.n_time)
    want = reference(F, R, bc, sets, one, 1., a)
    sc = reference(abs(F) + abs(R), 0*R, bc, False, one, 1., a)
    ctx.event('next-specimen')
    ctx.close('next-specimen', N(f(sequential_mode=mode)), want, rtol=2e-5,
              scale=max(abs(want), sc*.05), msg=tag)


def components(ctx, f, case, F, R, bc, sets, w, s, a, total, sc, tag):
    """The recorded per-time loss components add up to the loss."""
    h = torch.tensor(bc)[:, :, None].repeat(1, 1, case.n_time)
    c = N(f.force_equilibrium_loss_components_hist(
        T(F), torch.zeros_like(T(F)), T(R), h))
    ctx.close('components-total', c[0].sum(), total, rtol=1e-4,
              scale=max(abs(total), sc*.05), msg=tag)
    if sets:
        ctx.close('components-parts', c[0], c[1] + c[2], rtol=1e-9,
                  scale=max(abs(c).max(), 1e-300), msg=tag)
        free = np.array([((F[:, :, k]*a)[bc == 0]**2).sum()
                         for k in range(case.n_time)])
        free = free*(w if w is not None else 1)*(s if s is not None else 1)
        ctx.close('components-free', c[1], free, rtol=1e-6,
                  scale=max(abs(free).max(), sc*.01), msg=tag)
        X = F*ctx.rng.uniform(-1, 1, F.shape)*(ctx.rng.random() < .6)
        r = N(f.compute_dirichlet_sets_reaction_hist(T(F), T(X), h))
        labs = sorted(set(bc.ravel()))
        ctx.same('set-reaction-shape', r.shape, (len(labs), 1, case.n_time))
        for q, lab in enumerate(labs):
            if lab:
                ctx.close('set-reaction', r[q, 0],
                          [(F - X)[:, :, k][bc == lab].sum()
                           for k in range(case.n_time)], rtol=1e-9,
                          scale=max(abs(F).max(), 1e-300)*10, msg=tag)


def equilibrium(ctx, name, mname, kind, mode, sets, full):
    """Consistent data has no loss; perturbed data has one."""
    torch.set_default_dtype(torch.float64)
    case = Case(ctx, name, mname, affine=not full)
    F = case.solve(kind == 'rc_vmap')
    if F is None or abs(F).max() == 0:
        ctx.event('failure-skipped')
        return
    if full:
        bc = boundary(ctx, case, sets, full=True)
    else:
        # affine deformation: inner nodes are in balance, boundary is known
        out = abs(F).max((1, 2)) > 1e-9*abs(F).max()
        bc = np.repeat(out[:, None], case.dim, 1).astype(int)
        if sets:
            bc = bc*(np.arange(case.dim) + 1)[None, :]
    w, s, nm, a = options(ctx, case, F)
    f = finder(ctx, specimen(case, bc, F), materials(ctx, case, kind), sets,
               nm, s, None if w is None else T(w))
    sc = reference(F, 0*F, 0*bc, False, w if w is not None
                   else np.ones(case.n_time), s if s is not None else 1., a)
    got = float(f(sequential_mode=mode))
    ctx.event('equilibrium')
    ctx.state('eq', name, mname, kind, mode, sets, full, nm is not None)
    ctx.le('zero-loss-at-equilibrium', got, 1e-8*sc,
           msg=f'{name} {mname} {kind} {mode} sets={sets} full={full} '
               f'norm={nm} {case.specs[0].par}')
    ctx.le('non-negative', -got, 0.)


GRAD = {'von_mises': ['E', 'v', 's0', 'a'],
        'von_mises_mixed': ['E', 'v', 's0', 'a', 'kin_s0', 'kin_a'],
        'drucker_prager': ['E', 'v', 's0', 'a', 'yield_pressure_parameter'],
        'lou_zhang_yoon': ['E', 'v', 's0', 'a', 'yield_c_s0']}


def gradient(ctx, name, mname, kind, mode, norm):
    """Loss gradients lead where the loss changes; bounds hold."""
    from vmon.checks import c15
    torch.set_default_dtype(torch.float64)
    case = Case(ctx, name, mname, n_time=4)
    vm = kind == 'rc_vmap'
    F = case.solve(vm)
    if F is None:
        ctx.event('failure-skipped')
        return
    sp = case.specs[0]
    keys = [k for k in GRAD[mname] if k in c15.usable(sp)]
    keys = [str(k) for k in ctx.rng.choice(
        keys, min(len(keys), int(ctx.rng.integers(1, 4))), replace=False)]
    vals = {}
    learn = {}
    for k in keys:
        d, n = c15.locate(sp, k)
        v = vals[k] = float(d[n])
        r = max(abs(v), 1e-3)
        learn[k] = {'initial_value': v, 'bounds': (v - r*.5, v + r*.7)}
    bc = boundary(ctx, case, False)
    R = F*ctx.rng.uniform(.7, 1.3, F.shape)
    w, s, nm, a = options(ctx, case, F)
    S = materials(ctx, case, kind, [learn], norm)
    f = finder(ctx, specimen(case, bc, R), S, False, nm, s,
               None if w is None else T(w))
    ww = w if w is not None else np.ones(case.n_time)
    ss = s if s is not None else 1.
    tag = f'{name} {mname} {kind} {mode} norm={norm} {sp.par}'
    # reported parameters
    det = f.get_detached_model_parameters()
    ctx.same('parameter-labels', set(det), {f'model_1_{k}' for k in keys})
    bnd = f.get_model_parameters_bounds()
    ctx.same('bounds-labels', set(bnd), set(det))
    for k in keys:
        ctx.close('parameter-value', float(det[f'model_1_{k}']), vals[k],
                  rtol=1e-9, scale=max(abs(vals[k]), 1e-3), msg=tag)
        ctx.same('bounds-value', tuple(float(x) for x in bnd[f'model_1_{k}']),
                 learn[k]['bounds'], msg=tag)
    L = f(sequential_mode=mode)
    if L.requires_grad:      # else no parameter acts: gradients are zero
        L.backward()
    pars = f.get_material_models()['1'].get_model_parameters()
    l0 = reference(F, R, bc, False, ww, ss, a)
    for k in keys:
        g = float(pars[k].grad) if pars[k].grad is not None else 0.
        lo, hi = learn[k]['bounds']
        if norm:
            g *= 2/(hi - lo)
        h = max(abs(vals[k]), 1e-3)*1e-4
        q = []
        for dlt in (-h, h):
            Fp = case.solve(vm, [c15.with_values(sp, {**vals,
                                                      k: vals[k] + dlt})])
            q.append(None if Fp is None else
                     reference(Fp, R, bc, False, ww, ss, a))
        if None in q:
            continue
        left, right = (l0 - q[0])/h, (q[1] - l0)/h
        want = .5*(left + right)
        sc = max(abs(want), .05*l0/max(abs(vals[k]), 1e-3))
        if abs(left - right) > .03*sc:
            ctx.event('kink-skipped')
            continue
        ctx.event('gradient')
        ctx.state('grad', name, mname, kind, mode, norm, k)
        ctx.close('loss-gradient', g, want, rtol=.03, scale=sc,
                  msg=f'{tag} d/d{k}')
    # bounds: push parameters out, enforce, and only those move
    inside = {}
    for k in keys:
        lo, hi = (-1., 1.) if norm else learn[k]['bounds']
        mv = str(ctx.rng.choice(['below', 'above', 'in']))
        x = {'below': lo - (hi - lo)*.3, 'above': hi + (hi - lo)*.3,
             'in': lo + (hi - lo)*float(ctx.rng.random())}[mv]
        pars[k].data.fill_(x)
        inside[k] = min(max(x, lo), hi)
    f.enforce_parameters_bounds()
    now = f.get_material_models()['1'].get_model_parameters()
    for k in keys:
        ctx.close('bounds-enforced', float(now[k]), inside[k], rtol=1e-9,
                  scale=max(abs(inside[k]), 1e-3), msg=tag)


def local_paths(ctx, name, mname, kind, mode, some, mixed=False,
                div=None):
    """Stored local response paths are the strains and stresses."""
    torch.set_default_dtype(torch.float64)
    case = Case(ctx, name, mname, mixed=mixed, div=div)
    if case.solve(kind == 'rc_vmap') is None:
        ctx.event('failure-skipped')
        return
    els = None
    if some:
        els = sorted(int(x) for x in ctx.rng.choice(
            np.arange(1, case.n_elem + 1),
            int(ctx.rng.integers(1 if div is None else case.n_elem - 2,
                                 case.n_elem + 1)), replace=False))
    bc = boundary(ctx, case, False)
    f = finder(ctx, specimen(case, bc, 0*case.U),
               materials(ctx, case, kind), is_store_local_paths=True,
               local_paths_elements=els)
    f(sequential_mode=mode)
    d = os.path.join(f.model_directory, 'local_response_dataset')
    files = sorted(os.listdir(d))
    ctx.same('one-dataset', len(files), 1)
    ds = load_dataset(os.path.join(d, files[0]))
    who = els if els is not None else range(1, case.n_elem + 1)
    order = ref.SYM[case.dim]
    want = []
    for e in who:
        for p in range(case.gs[e-1]):
            want.append((
                [[case.E[e-1][k][p][ref.idx(c)] for c in order]
                 for k in range(case.n_time)],
                [[case.S[e-1][p][k][ref.idx(c)] for c in order]
                 for k in range(case.n_time)]))
    ctx.same('samples', len(ds), len(want))
    sE = max(np.abs(w[0]).max() for w in want) + 1e-300
    sS = max(np.abs(w[1]).max() for w in want) + 1e-300
    for q in range(len(want)):
        s = ds[q]
        tag = f'{name} {mname} {kind} {mode} sample {q}'
        ctx.event('local-path')
        ctx.state('path', name, mname, kind, mode, some, q)
        ctx.same('path-order', (tuple(s['strain_comps_order']),
                                tuple(s['stress_comps_order'])),
                 (tuple(order), tuple(order)))
        ctx.close('path-strain', N(s['strain_path']), want[q][0], rtol=1e-9,
                  scale=sE, msg=tag)
        ctx.close('path-stress', N(s['stress_path']), want[q][1], rtol=2e-5,
                  scale=sS, msg=tag)
        ctx.close('path-time', N(s['time_hist']).ravel(), case.t, rtol=1e-12,
                  scale=1)


def neural(ctx, name, mode, n_layers, flags, scaling, paths):
    """Neural materials: scaled inputs, descaled outputs, physical paths."""
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(int(ctx.rng.integers(1 << 30)))
    case = Case(ctx, name, 'elastic', n_time=int(ctx.rng.integers(2, 6)))
    n = len(ref.SYM[case.dim])
    ins, outs = flags
    eps = [[fem.gauss_strain(name, case.g, case.X[case.elem_conn(i)],
                             case.U[case.elem_conn(i)][:, :, k])
            for k in range(case.n_time)] for i in range(case.n_elem)]
    rows = np.array([[[[eps[i][k][p][ref.idx(x)] for x in ref.SYM[case.dim]]
                       for p in range(case.g)] for k in range(case.n_time)]
                     for i in range(case.n_elem)])
    ys = max(abs(rows).max(), 1e-12)
    if scaling == 'min-max':
        par = {'features_in': {'minimum': -ys*ctx.rng.uniform(.2, 2, n),
                               'maximum': ys*ctx.rng.uniform(.2, 2, n)},
               'features_out': {'minimum': -ctx.rng.uniform(10, 300, n),
                                'maximum': ctx.rng.uniform(10, 300, n)}}
    else:
        par = {'features_in': {'mean': ys*ctx.rng.uniform(-1, 1, n),
                               'std': ys*ctx.rng.uniform(.2, 2, n)},
               'features_out': {'mean': ctx.rng.uniform(-99, 99, n),
                                'std': ctx.rng.uniform(10, 300, n)}}
    S = StructureMaterialState('infinitesimal', mat.PT[case.dim],
                               case.n_elem)
    S.init_elements_model(
        'gru_material_model', {}, list(range(1, case.n_elem + 1)),
        case.types(), model_kwargs=dict(
            n_features_in=n, n_features_out=n,
            hidden_layer_size=int(ctx.rng.integers(1, 6)),
            n_recurrent_layers=n_layers, dropout=0,
            model_directory=ctx.tmpdir(), is_model_in_normalized=ins,
            is_model_out_normalized=outs, gru_model_source='custom',
            device_type='cpu', scaling_type=scaling,
            scaling_parameters={a: {b: T(c) for b, c in d.items()}
                                for a, d in par.items()}))
    m = next(iter(S.get_material_models().values()))
    F = np.zeros_like(case.U)
    sig = np.zeros_like(rows)
    for i in range(case.n_elem):
        c = case.elem_conn(i)
        x = rows[i]
        if ins:
            x = nn.scale(scaling, par['features_in'], x)
        y, _ = nn.model(m, x)
        if outs:
            y = nn.scale(scaling, par['features_out'], y, back=True)
        sig[i] = y
        for k in range(case.n_time):
            st = [rc.tensor_of(y[k, p], case.dim)[:case.dim, :case.dim]
                  for p in range(case.g)]
            f = fem.element_forces(name, case.g, case.X[c], st)
            for a, q in enumerate(c):
                F[q, :, k] += f[a]
    bc = boundary(ctx, case, False)
    R = F*ctx.rng.uniform(.5, 1.5, F.shape)
    f = finder(ctx, specimen(case, bc, R), S, is_store_local_paths=paths)
    tag = (f'gru {name} {mode} layers={n_layers} normalised={flags} '
           f'{scaling} {par}')
    want = reference(F, R, bc, False, np.ones(case.n_time), 1.,
                     np.ones(case.dim))
    got = f(sequential_mode=mode)
    ctx.event('neural')
    ctx.state('gru', name, mode, n_layers, flags, scaling, paths)
    ctx.close('neural-loss', N(got), want, rtol=2e-5,
              scale=max(abs(want), 1e-3*(abs(F)**2).sum()), msg=tag)
    if not paths:
        return
    d = os.path.join(f.model_directory, 'local_response_dataset')
    ds = load_dataset(os.path.join(d, sorted(os.listdir(d))[0]))
    ctx.same('samples', len(ds), case.n_elem*case.g)
    for i in range(case.n_elem):
        for p in range(case.g):
            s = ds[i*case.g + p]
            ctx.event('local-path')
            ctx.close('path-strain', N(s['strain_path']), rows[i, :, p],
                      rtol=1e-9, scale=ys, msg=tag)
            ctx.close('path-stress', N(s['stress_path']), sig[i, :, p],
                      rtol=2e-5, scale=max(abs(sig).max(), 1e-12), msg=tag)


def hybrid(ctx, name, mode):
    """Constitutive candidate plus network correction."""
    from model_architectures.rnn_base_model.model.gru_model import \
        GRURNNModel
    from model_architectures.rc_base_model.model.recurrent_model import \
        RecurrentConstitutiveModel
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(int(ctx.rng.integers(1 << 30)))
    mname = str(ctx.rng.choice(['von_mises', 'drucker_prager']))
    case = Case(ctx, name, mname, n_time=int(ctx.rng.integers(2, 5)))
    F = case.solve(True)
    if F is None:
        ctx.event('failure-skipped')
        return
    n = len(ref.SYM[case.dim])
    sp = case.specs[0]
    g = GRURNNModel(n, n, int(ctx.rng.integers(1, 5)), ctx.tmpdir(),
                    gru_model_source='custom')
    with torch.no_grad():        # corrections comparable to the stresses
        for k, p in g.named_parameters():
            if 'linear' in k:
                p.mul_(max(abs(np.array(case.S[0])).max(), 1e-9))
    S = StructureMaterialState('infinitesimal', mat.PT[case.dim],
                               case.n_elem)
    sub = {'correction': {'hyb_model': g, 'hyb_indices': (1, 0),
                          'is_input_residual': False},
           'candidate': {'hyb_model': RecurrentConstitutiveModel(
               n, n, {}, 'infinitesimal', mat.PT[case.dim],
               mname + '_vmap', sp.code_parameters(), ctx.tmpdir(),
               is_check_su_fail=False),
               'hyb_indices': (0, 0), 'is_input_residual': False}}
    S.init_elements_model(
        'hybrid_material_model', {}, list(range(1, case.n_elem + 1)),
        case.types(), model_kwargs=dict(
            n_features_in=n, n_features_out=n, hyb_models_dict=sub,
            hybridization_type='additive', model_directory=ctx.tmpdir(),
            is_model_in_normalized=False, is_model_out_normalized=False,
            device_type='cpu'))
    order = ref.SYM[case.dim]
    for i in range(case.n_elem):
        c = case.elem_conn(i)
        x = np.array([[[case.E[i][k][p][ref.idx(o)] for o in order]
                       for p in range(case.g)] for k in range(case.n_time)])
        y, _ = nn.model(g, x)
        for k in range(case.n_time):
            st = [rc.tensor_of(y[k, p], case.dim)[:case.dim, :case.dim]
                  for p in range(case.g)]
            f = fem.element_forces(name, case.g, case.X[c], st)
            for a, q in enumerate(c):
                F[q, :, k] += f[a]
    bc = boundary(ctx, case, False)
    R = F*ctx.rng.uniform(.5, 1.5, F.shape)
    w, s, nm, a = options(ctx, case, F)
    f = finder(ctx, specimen(case, bc, R), S, False, nm, s,
               None if w is None else T(w))
    ww = w if w is not None else np.ones(case.n_time)
    ss = s if s is not None else 1.
    want = reference(F, R, bc, False, ww, ss, a)
    sc = reference(abs(F) + abs(R), 0*R, bc, False, ww, ss, a)
    ctx.event('hybrid')
    ctx.state('hybrid', name, mname, mode, nm is not None)
    ctx.close('hybrid-loss', N(f(sequential_mode=mode)), want, rtol=2e-5,
              scale=max(abs(want), .05*sc), msg=f'{name} {mname} {mode}')


def specimen_history(ctx, name):
    """Specimen data: configuration at a time and validation."""
    torch.set_default_dtype(torch.float64)
    case = Case(ctx, name, 'elastic', n_time=5)
    bc = boundary(ctx, case, False)
    R = ctx.rng.standard_normal(case.U.shape)
    d = SpecimenNumericalData()
    hist = torch.tensor(bc)[:, :, None].repeat(1, 1, case.n_time)
    ctx.raises('mesh-first', lambda: d.set_specimen_data(
        T(case.U), T(R), hist, T(case.t)))
    d = specimen(case, bc, R)
    ctx.same('n-dim', d.get_n_dim(), case.dim)
    for _ in range(12):
        k = int(ctx.rng.integers(0, case.n_time))
        up = bool(ctx.rng.random() < .5)
        # coordinates follow only when requested
        before = [N(d.specimen_mesh.get_mesh_configuration(time=t)[0])
                  for t in ('last', 'current')]
        d.update_specimen_mesh_configuration(k, is_update_coords=up)
        ctx.event('specimen')
        ctx.state('spec', name, k, up)
        for q, (tm, kk) in enumerate((('last', max(0, k - 1)),
                                      ('current', k))):
            x, u = d.specimen_mesh.get_mesh_configuration(time=tm)
            ctx.close('configuration-disps', N(u), case.U[:, :, kk],
                      rtol=1e-12, scale=1)
            ctx.close('configuration-coords', N(x),
                      case.X + case.U[:, :, kk] if up else before[q],
                      rtol=1e-12, scale=abs(case.X).max())
    for up in (True, False):
        xs, us = d.get_batched_mesh_configuration_hist(is_update_coords=up)
        for i in range(case.n_elem):
            c = case.elem_conn(i)
            ctx.close('batched-disps', N(us[i]), case.U[c], rtol=1e-12,
                      scale=1)
            X = np.repeat(case.X[c][:, :, None], case.n_time, 2)
            ctx.close('batched-coords', N(xs[i]), X + case.U[c]*up,
                      rtol=1e-12, scale=abs(case.X).max())
    for bad in (-1, case.n_time, case.n_time + 3):
        ctx.raises('time-range', lambda: d.update_specimen_mesh_configuration(
            bad))
    good = [T(case.U), T(R), hist, T(case.t)]
    for q in range(3):
        for cut in ((slice(1, None),), (slice(None), slice(1, None)),
                    (slice(None), slice(None), slice(1, None))):
            a = list(good)
            a[q] = a[q][cut]
            ctx.raises('shape-rejected', lambda: d.set_specimen_data(*a),
                       msg=f'argument {q} {cut}')
        a = list(good)
        a[q] = a[q][:, :, 0]
        ctx.raises('shape-rejected', lambda: d.set_specimen_data(*a))
        a[q] = good[q].numpy()
        ctx.raises('type-rejected', lambda: d.set_specimen_data(*a))
    a = list(good)
    a[3] = list(case.t)
    ctx.raises('type-rejected', lambda: d.set_specimen_data(*a))
    # boundary labels
    d.set_specimen_data(*good)
    d.check_dirichlet_bc_mesh_hist('pointwise')
    ctx.raises('loss-type', lambda: d.check_dirichlet_bc_mesh_hist('other'))
    i, k = (int(ctx.rng.integers(n)) for n in (len(case.X), case.n_time))
    for v, sets_ok in ((2, True), (-1, False)):
        h = torch.zeros_like(hist)
        h[i, 0, k] = v
        d.set_specimen_data(good[0], good[1], h, good[3])
        ctx.raises('pointwise-labels',
                   lambda: d.check_dirichlet_bc_mesh_hist('pointwise'),
                   msg=f'label {v}')
        if sets_ok:
            d.check_dirichlet_bc_mesh_hist('dirichlet_sets')
            j = int(ctx.rng.integers(len(case.X)))
            kk = int(ctx.rng.integers(case.n_time))
            h[j, 1, kk] = v
            d.set_specimen_data(good[0], good[1], h, good[3])
            ctx.raises('set-one-direction',
                       lambda: d.check_dirichlet_bc_mesh_hist(
                           'dirichlet_sets'), msg='label in two directions')
        else:
            ctx.raises('set-labels',
                       lambda: d.check_dirichlet_bc_mesh_hist(
                           'dirichlet_sets'), msg=f'label {v}')


def rejects(ctx):
    torch.set_default_dtype(torch.float64)
    case = Case(ctx, 'quad4', 'von_mises', n_time=3)
    bc = boundary(ctx, case, False)
    d = specimen(case, bc, 0*case.U)
    S = materials(ctx, case, 'rc_vmap')
    f = finder(ctx, d, S)
    ctx.event('specimen')
    ctx.raises('unknown-mode', lambda: f(sequential_mode='other'))
    ctx.raises('unknown-loss-type', lambda: MaterialModelFinder(
        ctx.tmpdir(), force_equilibrium_loss_type='other'))
    ctx.raises('missing-directory', lambda: MaterialModelFinder(
        os.path.join(ctx.tmpdir(), 'missing')))
    ctx.raises('weights-length', lambda: finder(ctx, d, S, w=torch.ones(4)))
    ctx.raises('weights-shape', lambda: finder(ctx, d, S,
                                               w=torch.ones(3, 1)))
    g = MaterialModelFinder(ctx.tmpdir(), is_force_normalization=True)
    ctx.raises('normalisation-range', lambda: g.set_specimen_data(d, S))
    h = MaterialModelFinder(ctx.tmpdir())
    lab = torch.tensor(bc*2)[:, :, None].repeat(1, 1, 3)
    d.set_specimen_data(T(case.U), T(0*case.U), lab, T(case.t))
    ctx.raises('labels', lambda: h.set_specimen_data(d, S))


def vbar(ctx, name):
    """Volumetric and deviatoric gradient parts make up the gradient, and
    the averaged operator carries the mean volume change."""
    torch.set_default_dtype(torch.float64)
    dim = fem.DIM[name]
    g = fem.DEFAULT[name]
    f = MaterialModelFinder(ctx.tmpdir())
    el = fem.CLS[name](n_gauss=g)
    X = fem.rand_nodes(ctx.rng, name)
    U = ctx.rng.standard_normal((len(X), dim, 2))*.01
    order = ref.SYM[dim]
    P, W = fem.quad_points(name, g)
    Xh = np.repeat(X[:, :, None], 2, 2)
    avg = f.vcompute_element_vol_grad_hist(
        T(Xh), T(U), 'infinitesimal', mat.PT[dim], el, T([0., 1.]))
    vols, trs = [], []
    for p, wt in zip(P, W):
        d = fem.dshape(name, p)
        J = d.T @ X
        dx = np.linalg.solve(J, d.T).T
        vols.append(wt*np.linalg.det(J))
        trs.append([np.trace(U[:, :, k].T @ dx) for k in range(2)])
    mean = np.array(vols) @ np.array(trs)/sum(vols)
    for p in P:
        _, B = f.vcompute_local_gradient(T(X), T(p), order, el, True)
        vol = f.vcompute_local_vol_sym_gradient(B, dim)
        dev = f.vcompute_local_dev_sym_gradient(B, dim)
        ctx.event('vbar')
        ctx.close('volumetric-deviatoric', N(vol + dev), N(B), rtol=1e-10,
                  scale=abs(N(B)).max(), msg=f'{name} at {p}')
        for k in range(2):
            e, _ = f.vcompute_local_strain_vbar(
                T(X), T(U[:, :, k]), avg[k], T(p), 'infinitesimal', dim,
                order, el)
            d = fem.dshape(name, p)
            dx = np.linalg.solve(d.T @ X, d.T).T
            full = fem.strain_sym(U[:, :, k].T @ dx, dim)
            want = full + (mean[k] - np.trace(full))/3*np.eye(dim)
            ctx.close('averaged-strain', N(e), want, rtol=1e-9,
                      scale=abs(U).max()*10, msg=f'{name} at {p}')


MODES = [('plain', 'sequential_time'), ('plain', 'sequential_element'),
         ('rc', 'sequential_element'), ('rc_vmap', 'sequential_element'),
         ('rc_vmap', 'sequential_element_vmap')]
MN = ['elastic', 'von_mises', 'von_mises_mixed', 'drucker_prager',
      'lou_zhang_yoon']


def ok(m, kind):
    if kind == 'plain':
        return m != 'lou_zhang_yoon'
    return not (kind == 'rc_vmap' and m == 'elastic')


def cases(tier):
    q = tier == 'quick'
    out = [('rejects', {})]
    j = 0
    for r in range(1 if q else 8):
        for name in ('tri3', 'quad4', 'tetra4', 'hexa8', 'quad8'):
            for mode in ('sequential_element', 'sequential_element_vmap'):
                for flags in ((True, True), (True, False), (False, True)):
                    j += 1
                    out.append(('neural', {
                        'name': name, 'mode': mode, 'n_layers': 1 + j % 3,
                        'flags': flags, 'paths': j % 2 == 0,
                        'scaling': ('min-max', 'mean-std')[(j//2) % 2]}))
    names = [e for e, _ in ELEMS]
    small = ['tri3', 'quad4', 'quad8', 'hexa8', 'tetra4']
    k = 0
    for r in range(1 if q else 6):
        for name in names:
            out.append(('specimen_history', {'name': name}))
            out.append(('vbar', {'name': name}))
            for kind, mode in MODES:
                for m in MN:
                    if not ok(m, kind):
                        continue
                    k += 1
                    if q and k % 3:
                        continue
                    out.append(('loss', {'name': name, 'mname': m,
                                         'kind': kind, 'mode': mode}))
            for m in MN[1:]:
                k += 1
                out.append(('loss', {'name': name, 'mname': m,
                                     'kind': 'rc_vmap', 'sets': True,
                                     'mode': 'sequential_element_vmap',
                                     'full': k % 4 == 0}))
        for kind, mode in MODES:
            for name in small[:3]:
                out.append(('loss', {'name': name, 'mname': 'von_mises',
                                     'kind': kind, 'mode': mode,
                                     'two': True}))
            for name in small:
                for full in (False, True):
                    m = MN[(k := k + 1) % 4]
                    if not ok(m, kind):
                        m = 'drucker_prager'
                    out.append(('equilibrium', {
                        'name': name, 'mname': m, 'kind': kind, 'mode': mode,
                        'sets': mode.endswith('vmap') and k % 2 == 0,
                        'full': full}))
            if kind != 'plain':
                for m in MN[1:]:
                    out.append(('gradient', {
                        'name': small[(k := k + 1) % 5], 'mname': m,
                        'kind': kind, 'mode': mode, 'norm': k % 2 == 0}))
            if mode != 'sequential_time':
                for m in ('von_mises', 'drucker_prager'):
                    out.append(('local_paths', {
                        'name': small[(k := k + 1) % 5], 'mname': m,
                        'kind': kind, 'mode': mode, 'some': k % 2 == 0}))
            # element types side by side, and more than ten elements
            for two in (False, True):
                out.append(('loss', {'name': 'quad4', 'mname': 'von_mises',
                                     'kind': kind, 'mode': mode,
                                     'mixed': True, 'two': two,
                                     'div': (2, 2)}))
            if mode != 'sequential_time':
                for some in (False, True):
                    out.append(('local_paths', {
                        'name': 'tri3', 'mname': 'von_mises', 'kind': kind,
                        'mode': mode, 'some': some, 'div': (3, 2)}))
                if not mode.endswith('vmap'):
                    out.append(('local_paths', {
                        'name': 'quad4', 'mname': 'von_mises',
                        'kind': kind, 'mode': mode, 'some': k % 2 == 1,
                        'mixed': True, 'div': (2, 2)}))
            out.append(('loss', {'name': 'tri3', 'mname': 'von_mises',
                                 'kind': kind, 'mode': mode,
                                 'sets': mode.endswith('vmap'),
                                 'div': (3, 2)}))
            out.append(('loss', {'name': 'tri3', 'mname': 'drucker_prager',
                                 'kind': kind, 'mode': mode, 'two': True,
                                 'div': (2, 3)}))
        for name in small:
            out.append(('hybrid', {'name': name,
                                   'mode': 'sequential_element_vmap'}))
            out.append(('hybrid', {'name': name,
                                   'mode': 'sequential_element'}))
    return out
