"""C13: mesh configurations, assembly/extraction and per-element material
states, under random operation histories."""
import copy
import numpy as np
import torch
from vmon import fem, mat
from simulators.fetorch.structure.structure_mesh import StructureMesh
from simulators.fetorch.structure.structure_state import \
    StructureMaterialState

PROPERTY = 'C13'
RULE = ('random histories of mesh and state operations on random meshes, '
        'mirrored by a plain model of the two configurations and of every '
        'element state; after every operation all observable data is '
        'compared; non-trivial: distinct (element, mesh size, operation, '
        'step)')
ASSUMPTIONS = ['nodes and elements labelled from 1, in any order',
               'standard constitutive models are held in a plain container, '
               'as the error message of the code prescribes',
               'CPU device only']
REQUIRED_EVENTS = ('mesh-op', 'assemble', 'extract', 'state-op', 'converged',
                   'rejected')


def T(a):
    return torch.tensor(np.asarray(a), dtype=torch.get_default_dtype())


def build(ctx, name, div):
    X, conn = fem.grid_mesh(ctx.rng, name, div)
    keys = list(conn)
    ctx.rng.shuffle(keys)
    conn = {k: tuple(conn[k]) for k in keys}
    el = fem.CLS[name]()
    types = {k: el for k in sorted(conn, key=int)}
    bc = torch.tensor(ctx.rng.integers(0, 2, X.shape))
    given = (T(X), dict(types), {k: list(v) for k, v in conn.items()},
             bc.clone())
    m = StructureMesh(*given)
    # what was handed in may be reused for something else
    given[0].add_(7.)
    given[1].pop('1')
    given[2]['1'][:] = [1]*len(conn['1'])
    given[3].fill_(3)
    return X, conn, types, bc, m


def observe(ctx, m, X, model, conn, tag):
    for time in ('init', 'last', 'current'):
        c, u = model[time]
        mc, mu = m.get_mesh_configuration(time)
        ctx.close('mesh-coords', mc, c, rtol=1e-12, scale=10.,
                  msg=f'{tag} {time}')
        ctx.close('mesh-disps', mu, u, rtol=1e-12, scale=10.,
                  msg=f'{tag} {time}')
        for k, nodes in conn.items():
            ix = [n - 1 for n in nodes]
            ec, eu = m.get_element_configuration(
                k if int(k) % 2 else int(k), time)
            ctx.close('element-coords', ec, c[ix], rtol=1e-12, scale=10.,
                      msg=f'{tag} {time} {k}')
            ctx.close('element-disps', eu, u[ix], rtol=1e-12, scale=10.,
                      msg=f'{tag} {time} {k}')


def mesh_ops(ctx, name, div, steps):
    torch.set_default_dtype(torch.float64)
    X, conn, types, bc, m = build(ctx, name, div)
    dim = fem.DIM[name]
    ctx.same('n-dim', m.get_n_dim(), dim)
    ctx.same('n-node', m.get_n_node_mesh(), len(X))
    ctx.same('n-elem', m.get_n_elem(), len(conn))
    ctx.same('n-type', m.get_n_element_type(), 1)
    ctx.same('dirichlet', m.get_dirichlet_bool_mesh(), bc)
    ctx.same('n-dirichlet', int(m.get_n_dirichlet_dof()), int(bc.sum()))
    model = {t: (X.copy(), 0*X) for t in ('init', 'last', 'current')}
    observe(ctx, m, X, model, conn, 'initial')
    for k in range(steps):
        op = ctx.rng.choice(['current', 'last', 'tamper', 'bad'])
        ctx.event('mesh-op')
        ctx.state(name, len(conn), op, k)
        if op in ('current', 'last'):
            u = ctx.rng.standard_normal(X.shape)
            upd = bool(ctx.rng.random() < .7)
            t = T(u)
            if upd and ctx.rng.random() < .5:
                m.update_mesh_configuration(t, time=str(op))
            else:
                m.update_mesh_configuration(t, time=str(op),
                                            is_update_coords=upd)
            t += 9.     # the mesh must not share the caller's array
            c, _ = model[op]
            model[op] = (X + u if upd else c, u)
        elif op == 'tamper':
            for time in ('init', 'last', 'current'):
                for a in m.get_mesh_configuration(time):
                    a += 5.
                for a in m.get_element_configuration(1, time):
                    a += 5.
            m.get_connectivities()['1'] = (99,)
            m.get_elements_type().clear()
            d = m.get_dirichlet_bool_mesh()
            d += 1
        else:
            ctx.event('rejected')
            ctx.raises('unknown-time-rejected',
                       lambda: m.get_mesh_configuration('now'))
            ctx.raises('unknown-time-rejected',
                       lambda: m.get_element_configuration(1, 'now'))
            ctx.raises('unknown-time-rejected',
                       lambda: m.update_mesh_configuration(T(X), 'init'))
        observe(ctx, m, X, model, conn, f'{name} op {op} step {k}')
    ctx.same('dirichlet', m.get_dirichlet_bool_mesh(), bc)
    ctx.same('connectivities', {k: tuple(v) for k, v in
                                m.get_connectivities().items()}, conn)
    ct = m.get_connectivities_tensor()
    ctx.same('connectivities-tensor', ct.numpy(),
             np.array([conn[str(i + 1)] for i in range(len(conn))]))


def assembly(ctx, name, div, reps):
    torch.set_default_dtype(torch.float64)
    X, conn, types, bc, m = build(ctx, name, div)
    nn = len(fem.NODES[name])
    for r in range(reps):
        nd = int(ctx.rng.integers(1, 5))
        arr = {k: ctx.rng.standard_normal(nn*nd) for k in conn}
        sub = arr
        if r % 3 == 2:      # a subset of the elements
            ks = [k for k in arr if ctx.rng.random() < .6] or ['1']
            sub = {k: arr[k] for k in ks}
        want = np.zeros((len(X), nd))
        for k, a in sub.items():
            for i, node in enumerate(conn[k]):
                want[node - 1] += a[i*nd:(i + 1)*nd]
        got = m.element_assembler({k: T(a) for k, a in sub.items()})
        ctx.event('assemble')
        ctx.state('assemble', name, len(conn), nd, len(sub))
        ctx.close('assemble', got, want.flatten(), rtol=1e-12, scale=10.,
                  msg=f'{name} {nd}')
        # conservation: nothing is lost or counted twice
        ctx.close('assembly-conserves-total',
                  got.reshape(-1, nd).sum(0),
                  sum(a.reshape(-1, nd).sum(0) for a in sub.values()),
                  rtol=1e-11, scale=100.)
        g = ctx.rng.standard_normal(len(X)*nd)
        ext = {}
        for k in conn:
            e = m.element_extractor(T(g), int(k))
            ix = [n - 1 for n in conn[k]]
            ctx.event('extract')
            ctx.close('extract', e, g.reshape(-1, nd)[ix].flatten(), atol=0.,
                      msg=f'{name} {nd} element {k}')
            ext[k] = e
        # duality: <assemble(a), g> = sum <a_e, extract(g)_e>
        full = m.element_assembler({k: T(a) for k, a in arr.items()})
        ctx.close('assembly-duality', full.numpy() @ g,
                  sum(arr[k] @ ext[k].numpy() for k in conn), rtol=1e-10,
                  scale=100.)
        # flat indices scatter to the same mesh vector
        ix = m.build_elements_mesh_indexing(nd).long()
        ctx.same('indexing-shape', tuple(ix.shape), (len(conn), nn*nd))
        flat = torch.zeros(len(X)*nd)
        flat.index_add_(0, ix.flatten(), torch.cat(
            [T(arr[str(i + 1)]) for i in range(len(conn))]))
        ctx.close('indexing-assembles', flat, full, rtol=1e-12, scale=10.)
    ctx.raises('assemble-2d-rejected',
               lambda: m.element_assembler({'1': torch.zeros(nn, 2)}))
    ctx.raises('extract-2d-rejected',
               lambda: m.element_extractor(torch.zeros(len(X), 2), 1))
    ctx.event('rejected')


def mixed_types(ctx):
    """Meshes mixing element types assemble correctly."""
    torch.set_default_dtype(torch.float64)
    X = ctx.rng.standard_normal((7, 2))
    conn = {'1': (1, 2, 3, 4), '2': (2, 5, 3), '3': (5, 6, 7)}
    q, t = fem.CLS['quad4'](), fem.CLS['tri3']()
    types = {'1': q, '2': t, '3': t}
    m = StructureMesh(T(X), types, conn, torch.zeros(7, 2))
    ctx.same('n-type', m.get_n_element_type(), 2)
    for order in (('1', '2', '3'), ('3', '2', '1'), ('2', '1', '3')):
        arr = {k: ctx.rng.standard_normal(2*len(conn[k])) for k in order}
        want = np.zeros((7, 2))
        for k, a in arr.items():
            for i, n in enumerate(conn[k]):
                want[n - 1] += a[2*i:2*i + 2]
        ctx.event('assemble')
        ctx.state('mixed', order)
        ctx.close('assemble-mixed', m.element_assembler(
            {k: T(a) for k, a in arr.items()}), want.flatten(), rtol=1e-12,
            scale=10.)
    ctx.raises('mixed-tensor-rejected', m.get_connectivities_tensor)


def rejects(ctx, name):
    X, conn, types, bc, m = build(ctx, name, (1,)*fem.DIM[name])

    def bad(tag, X=T(X), types=types, conn=conn):
        ctx.event('rejected')
        ctx.raises('invalid-mesh-rejected',
                   lambda: StructureMesh(X, types, conn, bc), msg=tag)
    bad('array', X=X)
    bad('shape', X=T(X).flatten())
    bad('labels', types={str(int(k) + 1): v for k, v in types.items()})
    bad('missing-type', types={k: types[k] for k in list(types)[1:]})
    bad('type', types={k: name for k in types})
    bad('missing-conn', conn={k: conn[k] for k in list(conn)[1:]})
    c = dict(conn)
    k = list(c)[int(ctx.rng.integers(len(c)))]
    c[k] = c[k][:-1]
    bad('short-conn', conn=c)
    c = dict(conn)
    c[k] = c[k] + (1,)
    bad('long-conn', conn=c)


# ------------------------------------------------------------------- states
def eq_state(ctx, rule, a, b, tag):
    ctx.same(rule, set(a), set(b), msg=tag)
    for g in a:
        for f in b[g]:
            ctx.same(rule, a[g][f], b[g][f], msg=f'{tag} {g} {f}')


def states(ctx, dim, steps):
    torch.set_default_dtype(torch.float64)
    name = {2: 'quad4', 3: 'tetra4'}[dim]
    n_elem = ctx.size(2, 6, 40, .1)
    types = {str(i + 1): fem.CLS[name]() for i in range(n_elem)}
    S = StructureMaterialState('infinitesimal', mat.PT[dim], n_elem)
    fem.plain_container(S)
    ctx.same('formulation', S.get_strain_formulation(), 'infinitesimal')
    ctx.same('problem-type', S.get_problem_type(), mat.PT[dim])
    ids = list(range(1, n_elem + 1))
    cut = int(ctx.rng.integers(1, n_elem))
    ctx.rng.shuffle(ids)
    groups = [(ids[:cut], 'von_mises'), (ids[cut:], str(ctx.rng.choice(
        ['elastic', 'von_mises_mixed', 'drucker_prager'])))]
    owner = {}
    for g, nm in groups:
        spec = mat.Spec(ctx.rng, nm)
        # element ids may be given as numbers or labels
        gi = [i if ctx.rng.random() < .5 else str(i) for i in g]
        S.init_elements_model(nm, spec.code_parameters(), gi, types)
        for i in g:
            owner[str(i)] = (nm, spec)
    em = S.get_elements_material()
    ctx.same('material-per-element', {k: type(v) for k, v in em.items()},
             {k: mat.CLASSES[owner[k][0]][0] for k in em})
    ctx.same('n-materials', S.get_n_element_material_type(),
             len({v[0] for v in owner.values()}))
    model = {'current': {}, 'last': {}}
    for k, (nm, spec) in owner.items():
        ctx.same('not-recurrent', S.get_element_model_recurrency(k), False)
        s0 = spec.build(dim).state_init()
        for t in model:
            model[t][k] = {str(g + 1): mat.snapshot(s0)
                           for g in range(types[k].get_n_gauss())}

    def observe(tag):
        for t in model:
            for k in model[t]:
                eq_state(ctx, 'element-state',
                         S.get_element_state(int(k) if int(k) % 2 else k, t),
                         model[t][k], f'{tag} {t} element {k}')
    observe('initial')
    for step in range(steps):
        op = str(ctx.rng.choice(['update', 'update', 'last', 'converge',
                                 'tamper', 'bad', 'share']))
        ctx.event('state-op')
        ctx.state('state', dim, n_elem, op, step)
        k = str(1 + int(ctx.rng.integers(n_elem)))
        if op in ('update', 'last'):
            t = 'current' if op == 'update' else 'last'
            st = S.get_element_state(k, 'last')
            new = {}
            for g, s in st.items():
                inc = mat.tens(mat.ref.rand_sym(ctx.rng, dim)
                               * owner[k][1].yield_strain()*2)
                new[g], _ = mat.update(em[k], dim, inc, s)
            model[t][k] = {g: mat.snapshot(s) for g, s in new.items()}
            S.update_element_state(k, new, time=t)
            for s in new.values():     # caller keeps and changes its copy
                s['stress_mf'] += 1e9
                s['is_plast'] = 'x'
        elif op == 'converge':
            ctx.event('converged')
            S.update_converged_elements_state()
            model['last'] = {e: {g: mat.snapshot(s) for g, s in v.items()}
                             for e, v in model['current'].items()}
        elif op == 'tamper':
            for t in model:
                st = S.get_element_state(k, t)
                for s in st.values():
                    s['strain_mf'] += 1e9
                    s['is_su_fail'] = 'x'
        elif op == 'bad':
            ctx.event('rejected')
            ctx.raises('unknown-time-rejected',
                       lambda: S.get_element_state(k, 'init'))
            ctx.raises('unknown-time-rejected',
                       lambda: S.update_element_state(k, {}, 'init'))
        else:
            # no copy requested: same values, no conversion
            st = S.get_element_state(k, 'current', is_copy=False)
            S.update_element_state(k, st, 'current', is_copy=False)
            # work in place on the current state: the last converged state
            # is a copy and keeps its values
            for g, v in st.items():
                v['stress_mf'] += float(1 + int(g))
                model['current'][k][g] = mat.snapshot(v)
            ctx.event('in-place')
        observe(f'{dim}D op {op} step {step}')


def unknown_model(ctx):
    S = StructureMaterialState('infinitesimal', 4, 1)
    types = {'1': fem.CLS['hexa8']()}
    ctx.event('rejected')
    ctx.raises('unknown-model-rejected', lambda: S.init_elements_model(
        'nonexistent', {}, [1], types))


def cases(tier):
    q = tier == 'quick'
    reps = 8 if q else 40
    out = [('mixed_types', {}), ('unknown_model', {})]
    DIV = {2: [(1, 1), (2, 3), (3, 2)], 3: [(1, 1, 1), (2, 1, 2), (1, 2, 2)]}
    for r in range(reps):
        for k in fem.CLS:
            for div in DIV[fem.DIM[k]]:
                if q and k == 'hexa20' and div != (1, 1, 1):
                    continue
                if q and k == 'tetra10' and div == (1, 2, 2):
                    continue
                out.append(('mesh_ops', dict(name=k, div=div,
                                             steps=6 if q else 12)))
                out.append(('assembly', dict(name=k, div=div,
                                             reps=3 if q else 6)))
            out.append(('rejects', dict(name=k)))
        for d in (2, 3):
            out += [('states', dict(dim=d, steps=12 if q else 40))
                    for _ in range(4)]
    return out
