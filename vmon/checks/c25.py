"""C25: generated material patches obey their request: structured mesh,
admissible deformed boundary, prescribed displacements of every boundary
node."""
import numpy as np
import shapely.geometry
from data_generation.spdg.patch import FiniteElementPatch, \
    rotation_angle_2d, mean_rotation_angle_2d
from data_generation.spdg.patch_generator import \
    FiniteElementPatchGenerator, rotation_tensor_from_euler_angles
from simulators.links.discretization.finite_element import FiniteElement

PROPERTY = 'C25'
RULE = ('random patch requests (dimension, size, element type, mesh, fixed '
        'corners, corner ranges, edge orders and ranges, rigid motions, '
        'noise); every patch returned is checked against the request, node '
        'by node; non-trivial: distinct request classes')
ASSUMPTIONS = ['corner displacement ranges of edges of order zero overlap',
               'patch sizes between 1e-2 and 1e3',
               'seeds of the global numpy generator define a patch']
REQUIRED_EVENTS = ('2d', '3d', 'admissible', 'inadmissible', 'fixed-corner',
                   'curved', 'straight', 'translated', 'rotated', 'noise',
                   'no-motion', 'serendipity', 'face-node', 'affine',
                   'refused', 'outward', 'angles', 'elements', 'edge-middle')
ELEMS = {2: ('SQUAD4', 'SQUAD8', 'SQUAD12', 'LQUAD4', 'LQUAD9', 'LQUAD16'),
         3: ('SHEXA8', 'SHEXA20')}
NEDGE = {'SQUAD4': 2, 'SQUAD8': 3, 'SQUAD12': 4, 'LQUAD4': 2, 'LQUAD9': 3,
         'LQUAD16': 4, 'SHEXA8': 2, 'SHEXA20': 3}
CORNERS = {2: ((0, 0), (1, 0), (1, 1), (0, 1)),
           3: ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
               (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))}
# Labels of the edges of a two-dimensional patch
EDGE2 = {'1': (0, 1), '2': (3, 2), '3': (0, 3), '4': (1, 2)}


def grid(dims, elem, nel):
    """Expected nodes: grid index -> reference coordinates."""
    d, ne = len(dims), NEDGE[elem]
    n = [k*(ne - 1) + 1 for k in nel]
    out = {}
    for rev in np.ndindex(*n[::-1]):
        g = rev[::-1]
        inner = [x % (ne - 1) != 0 for x in g]
        if elem[0] == 'S' and sum(inner) > 1:
            continue
        out[g] = np.array([x*L/(m - 1) for x, L, m in zip(g, dims, n)])
    return out, n


def check_mesh(ctx, patch, dims, elem, nel, tag):
    want, n = grid(dims, elem, nel)
    M = np.asarray(patch.get_mesh_nodes_matrix())
    X = patch.get_mesh_nodes_coords_ref()
    ctx.same('mesh', M.shape, tuple(n), f'{tag}: mesh nodes matrix')
    ctx.same('mesh', tuple(patch.get_n_edge_nodes_per_dim()), tuple(n), tag)
    labels = {}
    for g in np.ndindex(*M.shape):
        if g in want:
            labels[g] = int(M[g])
        else:
            ctx.ok('mesh', M[g] == 0, f'{tag}: node at {g} of no element')
    ctx.same('mesh', sorted(labels.values()), list(range(1, len(want) + 1)),
             f'{tag}: node labels')
    ctx.same('mesh', sorted(int(k) for k in X), sorted(labels.values()),
             f'{tag}: nodes with coordinates')
    for g, x in want.items():
        ctx.close('mesh', np.asarray(X[str(labels[g])]), x, rtol=1e-9,
                  scale=float(max(dims)), msg=f'{tag}: coordinates of {g}')
    bnd = {g for g in want if any(x in (0, m - 1) for x, m in zip(g, n))}
    ctx.same('boundary', sorted(int(x) for x in
                                patch.get_boundary_nodes_labels()),
             sorted(labels[g] for g in bnd), f'{tag}: boundary nodes')
    rim = {g for g in bnd if sum(x in (0, m - 1) for x, m in zip(g, n))
           >= len(n) - 1}
    ctx.same('boundary', sorted(int(x) for x in
                                patch.get_boundary_edges_nodes_labels()),
             sorted(labels[g] for g in rim), f'{tag}: boundary edges nodes')
    ctx.close('mesh', np.array(patch.get_elem_size_dims()),
              np.array([a/b for a, b in zip(dims, nel)]), rtol=1e-12,
              msg=tag)
    if len(dims) == 2:
        pairs = {tuple(sorted((labels[g], labels[h]))) for g in want
                 for h in ((g[0] + 1, g[1]), (g[0], g[1] + 1)) if h in want}
        got = [tuple(sorted(int(x) for x in p))
               for p in patch.get_mesh_connected_nodes()]
        ctx.same('connected', sorted(got), sorted(pairs), tag)
    U = patch.get_mesh_boundary_nodes_disps()
    ctx.same('prescribed', sorted(int(k) for k in U),
             sorted(labels[g] for g in bnd), f'{tag}: prescribed nodes')
    disp = {g: np.asarray(U[str(labels[g])], dtype=float) for g in bnd}
    for g, u in disp.items():
        ctx.ok('prescribed', u.shape == (len(dims),) and
               np.all(np.isfinite(u)), f'{tag}: displacement {u} of {g}')
    return want, n, disp


def request(ctx, d, big=False):
    rng = ctx.rng
    elem = str(rng.choice(ELEMS[d]))
    size = 10**rng.uniform(-2, 3)
    dims = tuple(float(size*rng.uniform(.5, 1.5)) for _ in range(d))
    hi = 9 if d == 2 else 4
    nel = tuple(int(rng.integers(1, hi)) for _ in range(d))
    nc = 2**d
    kw = {}
    amp = size*(rng.uniform(.3, .9) if big else 10**rng.uniform(-4, -1))
    bc = {}
    if rng.random() < .5:
        for c in range(nc):
            if rng.random() < .4:
                bc[str(c + 1)] = tuple(int(rng.integers(2))
                                       for _ in range(d))
        kw['corners_lab_bc'] = dict(bc)
    rngs = {}
    if rng.random() < .85:
        for c in range(nc):
            if rng.random() < .85:
                r = []
                for _ in range(d):
                    k = rng.random()
                    a = float(amp*rng.uniform(.1, 1))
                    r.append((-a, a) if k < .7 else (0., a) if k < .85
                             else (-a, 0.))
                rngs[str(c + 1)] = tuple(r)
        kw['corners_lab_disp_range'] = dict(rngs)
    ne = 4 if d == 2 else 24
    k = rng.random()
    orders = {str(e + 1): 0 for e in range(ne)}
    if k < .3:
        o = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 8]))
        kw['edges_lab_def_order'] = o
        orders = {e: o for e in orders}
    elif k < .9:
        sel = {e: int(rng.choice([0, 1, 2, 3, 4, 5, 6, 8])) for e in orders
               if rng.random() < .8}
        kw['edges_lab_def_order'] = dict(sel)
        orders.update(sel)
    ranges = {e: (0., 0.) for e in orders}
    if rng.random() < .85:
        sel = {}
        side = rng.choice(['both', 'out', 'in'])
        for e in orders:
            if rng.random() < .9:
                a = float(amp*rng.uniform(.1, 1))
                b = float(a*rng.uniform(.1, 1))
                sel[e] = {'both': (-a, b), 'out': (b*.5, a + b),
                          'in': (-a - b, -b*.5)}[str(side)]
        kw['edges_lab_disp_range'] = dict(sel)
        ranges.update(sel)
    return elem, dims, nel, kw, bc, rngs, orders, ranges, size


def motion(ctx, d, size, kw):
    rng = ctx.rng
    k = rng.random()
    tr, ro = {}, {}
    if k < .35:
        ctx.event('no-motion')
    elif k < .5:
        kw['translation_range'], kw['rotation_angles_range'] = {}, {}
    else:
        if rng.random() < .7:
            for i in range(d):
                if rng.random() < .8:
                    a = float(rng.normal()*size)
                    tr[str(i + 1)] = (a, a + abs(float(rng.normal()*size)))
            kw['translation_range'] = dict(tr)
        if rng.random() < .7:
            for a in ('alpha', 'beta', 'gamma'):
                if rng.random() < .8:
                    x = float(rng.uniform(-180, 150))
                    ro[a] = (x, x + float(rng.uniform(0, 30)))
            kw['rotation_angles_range'] = dict(ro)
    return tr, ro


def bunge(a, b, c):
    """Rotation tensor of Bunge angles (degrees)."""
    def z(t):
        t = np.radians(t)
        return np.array([[np.cos(t), -np.sin(t), 0],
                         [np.sin(t), np.cos(t), 0], [0, 0, 1.]])
    t = np.radians(b)
    x = np.array([[1., 0, 0], [0, np.cos(t), -np.sin(t)],
                  [0, np.sin(t), np.cos(t)]])
    return z(a) @ x @ z(c)


def polygon(want, n, disp):
    gs = [(i, 0) for i in range(n[0])] + \
        [(n[0] - 1, j) for j in range(1, n[1])] + \
        [(i, n[1] - 1) for i in range(n[0] - 2, -1, -1)] + \
        [(0, j) for j in range(n[1] - 2, 0, -1)]
    return np.array([want[g] + disp[g] for g in gs])


def edge_nodes(n, a, b, d):
    """Grid indexes of the nodes from corner a to corner b."""
    A = [x*(m - 1) for x, m in zip(CORNERS[d][a], n)]
    B = [x*(m - 1) for x, m in zip(CORNERS[d][b], n)]
    k = max(abs(q - p) for p, q in zip(A, B))
    return [tuple(p + (q - p)*s//k for p, q in zip(A, B))
            for s in range(k + 1)]


def check_edge2(ctx, P, order, rng_, out, scale, tag):
    """One edge of a 2D patch: deformed nodes P, polynomial of the order in
    the chord frame, control points in range, evenly spaced nodes."""
    a, b = P[0], P[-1]
    L = np.linalg.norm(b - a)
    t = (b - a)/L
    m = np.array([-t[1], t[0]])
    if m @ out < 0:
        m = -m
    x, y = (P - a) @ t, (P - a) @ m
    if order <= 1:
        ctx.le('edge', np.abs(y).max(), 1e-9*scale, msg=f'{tag}: straight')
        ctx.close('edge', x, np.linspace(0, L, len(P)), rtol=1e-6, scale=L,
                  msg=f'{tag}: node positions')
        ctx.event('straight')
        return
    ctx.event('curved')
    if len(P) < order + 1:
        return
    q = np.polynomial.Chebyshev.fit(x, y, order, domain=[0, L])
    ctx.le('edge', np.abs(q(x) - y).max(), 1e-6*scale,
           msg=f'{tag}: polynomial of order {order}')
    cp = q(np.linspace(0, L, order + 1))
    tol = 1e-5*(rng_[1] - rng_[0] + np.abs(rng_).max()) + 1e-9*scale
    ctx.ok('edge', cp[1:-1].min() >= rng_[0] - tol and
           cp[1:-1].max() <= rng_[1] + tol,
           f'{tag}: control points {cp[1:-1]} out of {rng_}')
    if rng_[0] > 0 or rng_[1] < 0:
        ctx.event('outward')
    s = np.linspace(0, L, 4001)
    arc = np.concatenate([[0], np.cumsum(np.hypot(np.diff(s),
                                                  np.diff(q(s))))])
    ctx.close('spacing', np.interp(x, s, arc)/arc[-1],
              np.linspace(0, 1, len(P)), rtol=1e-4, scale=1.,
              msg=f'{tag}: node spacing')


def patch2(ctx, big=False):
    one(ctx, 2, big)


def patch3(ctx):
    one(ctx, 3, False)


def one(ctx, d, big):
    rng = ctx.rng
    elem, dims, nel, kw, bc, rngs, orders, ranges, size = \
        request(ctx, d, big)
    tr, ro = motion(ctx, d, size, kw)
    noise = float(10**rng.uniform(-4, -2)) if rng.random() < .2 else 0.
    if noise:
        kw['deformation_noise'] = noise
    tag = f'{d}D {elem} {nel} {kw}'
    gen = FiniteElementPatchGenerator(d, dims)
    before = repr(kw)
    np.random.seed(int(rng.integers(1 << 30)))
    state = np.random.get_state()
    adm, patch = gen.generate_deformed_patch(elem, nel, **kw)
    ctx.ok('request', repr(kw) == before, f'{tag}: request changed')
    ctx.event(f'{d}d')
    ctx.same('status', bool(adm), patch is not None, f'{tag}: status')
    ctx.state(d, elem, bool(bc), bool(rngs), bool(tr), bool(ro), noise > 0,
              tuple(sorted(set(orders.values()))) if d == 2 else 0, big)
    if patch is None:
        ctx.event('inadmissible')
        ctx.ok('status', d == 2, f'{tag}: 3D patch refused')
        return
    ctx.event('admissible')
    ctx.same('patch', (patch.get_n_dim(), patch.get_elem_type(),
                       tuple(patch.get_n_elems_per_dim())), (d, elem, nel),
             tag)
    want, n, disp = check_mesh(ctx, patch, dims, elem, nel, tag)
    if elem[0] == 'S' and NEDGE[elem] > 2:
        ctx.event('serendipity')
    # Repeatable under the generator state, also on the same generator
    np.random.set_state(state)
    adm2, patch2_ = gen.generate_deformed_patch(elem, nel, **kw)
    d2 = patch2_.get_mesh_boundary_nodes_disps()
    d1 = patch.get_mesh_boundary_nodes_disps()
    ctx.ok('seeded', set(d1) == set(d2) and all(
        np.allclose(d1[k], d2[k], rtol=1e-7, atol=1e-9*max(dims))
        for k in d1), f'{tag}: repeated')
    if d == 2:
        B = polygon(want, n, disp)
        P = shapely.geometry.Polygon(B)
        ctx.ok('admissible', P.is_valid and P.exterior.is_ccw,
               f'{tag}: self-intersecting or inverted patch')
    # Rigid motion: same sampling without motion
    if tr or ro:
        np.random.set_state(state)
        kw0 = {**kw, 'translation_range': {}, 'rotation_angles_range': {},
               'max_iter': 1}
        adm0, patch0 = gen.generate_deformed_patch(elem, nel, **kw0)
        if not adm0:
            return
        _, _, disp0 = check_mesh(ctx, patch0, dims, elem, nel, tag)
        gs = sorted(disp)
        Y0 = np.array([want[g] + disp0[g] for g in gs])
        Y1 = np.array([want[g] + disp[g] for g in gs])
        D0 = np.linalg.norm(Y0[:, None] - Y0[None], axis=-1)
        D1 = np.linalg.norm(Y1[:, None] - Y1[None], axis=-1)
        ctx.close('rigid', D1, D0, rtol=1e-8, scale=float(D0.max()),
                  msg=f'{tag}: rigid motion changes shape')
        if d == 2:
            c0 = np.array(shapely.geometry.Polygon(
                polygon(want, n, disp0)).centroid.coords).ravel()
            c1 = np.array(shapely.geometry.Polygon(B).centroid.coords).ravel()
        else:
            cg = [tuple(x*(m - 1) for x, m in zip(c, n)) for c in CORNERS[3]]
            c0 = np.mean([want[g] + disp0[g] for g in cg], 0)
            c1 = np.mean([want[g] + disp[g] for g in cg], 0)
        sz = max(size, *(abs(v) for b in tr.values() for v in b)) if tr \
            else size
        for i in range(d):
            lo, hi = tr.get(str(i + 1), (0., 0.))
            v = (c1 - c0)[i]
            ctx.ok('translation', lo - 1e-8*sz <= v <= hi + 1e-8*sz,
                   f'{tag}: translation {v} along {i + 1}')
        if tr:
            ctx.event('translated')
        H = (Y0 - c0).T @ (Y1 - c1)
        u, _, vt = np.linalg.svd(H)
        R = vt.T @ np.diag([1]*(d - 1) + [np.linalg.det(vt.T @ u.T)]) @ u.T
        if d == 2:
            ang = np.degrees(np.arctan2(R[1, 0], R[0, 0]))
            lo, hi = ro.get('alpha', (0., 0.))
            k = (ang - lo) % 360
            ctx.ok('rotation', k <= hi - lo + 1e-4 or k > 360 - 1e-4,
                   f'{tag}: rotation {ang}')
        else:
            # extract Bunge angles and rebuild
            s2 = np.hypot(R[2, 0], R[2, 1])
            got = []
            if s2 > 1e-3:
                for sg in (1, -1):
                    got.append((np.arctan2(sg*R[0, 2], -sg*R[1, 2]),
                                np.arctan2(sg*s2, R[2, 2]),
                                np.arctan2(sg*R[2, 0], sg*R[2, 1])))

                def inside(v, b):
                    k = (np.degrees(v) - b[0]) % 360
                    return k <= b[1] - b[0] + 1e-3 or k > 360 - 1e-3
                ctx.ok('rotation', any(all(
                    inside(v, ro.get(k, (0., 0.))) for v, k in zip(
                        g, ('alpha', 'beta', 'gamma'))) for g in got),
                    f'{tag}: rotation {np.degrees(got)}')
        if ro:
            ctx.event('rotated')
        disp = disp0
    # Corners
    cg = [tuple(x*(m - 1) for x, m in zip(c, n)) for c in CORNERS[d]]
    for c, g in enumerate(cg):
        fixed = bc.get(str(c + 1), (0,)*d)
        for i in range(d):
            lo, hi = rngs.get(str(c + 1), ((0., 0.),)*d)[i]
            if fixed[i]:
                lo = hi = 0.
                ctx.event('fixed-corner')
            v = disp[g][i]
            ctx.ok('corner', lo - 1e-9*size <= v <= hi + 1e-9*size,
                   f'{tag}: corner {c + 1} moves {v} along {i + 1}, '
                   f'range {(lo, hi)}')
    if noise:
        ctx.event('noise')
        return
    # Edges
    if d == 2:
        C = np.array([want[g] + disp[g] for g in cg])
        mid = C.mean(0)
        # outward is told by the corners while they are in convex position
        v = np.roll(C, -1, 0) - C
        w = np.roll(v, -1, 0)
        convex = np.all(v[:, 0]*w[:, 1] - v[:, 1]*w[:, 0] > 0)
        for lab, (a, b) in EDGE2.items():
            if not convex and orders[lab] > 1:
                continue
            gs = edge_nodes(n, a, b, 2)
            Pn = np.array([want[g] + disp[g] for g in gs])
            check_edge2(ctx, Pn, orders[lab], ranges[lab],
                        Pn[[0, -1]].mean(0) - mid, size,
                        f'{tag}: edge {lab}')
            if orders[lab] == 0:
                k = 1 if lab in '12' else 0
                ctx.le('zero-order', abs(disp[gs[0]][k] - disp[gs[-1]][k]),
                       1e-9*size, msg=f'{tag}: edge {lab} of order zero '
                       'is not parallel to itself')
        return
    top = max(max(abs(v) for v in r) for r in ranges.values())
    side = min(r[0] for r in ranges.values()), \
        max(r[1] for r in ranges.values())
    mid = np.mean([want[g] + disp[g] for g in cg], 0)
    omax, omin = max(orders.values()), min(orders.values())
    for a in range(8):
        for b in range(8):
            e = np.subtract(CORNERS[3][b], CORNERS[3][a])
            if e.sum() != 1 or np.abs(e).sum() != 1:
                continue
            gs = edge_nodes(n, a, b, 3)
            Pn = np.array([want[g] + disp[g] for g in gs])
            L = np.linalg.norm(Pn[-1] - Pn[0])
            t = (Pn[-1] - Pn[0])/L
            x = (Pn - Pn[0]) @ t
            dev = Pn - Pn[0] - np.outer(x, t)
            if omax <= 1 or omax == omin == 0:
                ctx.le('edge', np.abs(dev).max(), 1e-9*size,
                       msg=f'{tag}: edge {a}-{b} is straight')
                ctx.close('edge', x, np.linspace(0, L, len(x)), rtol=1e-6,
                          scale=L, msg=tag)
                ctx.event('straight')
            elif omax == 2:
                ctx.le('edge', np.linalg.norm(dev, axis=1).max(),
                       top*(1 + 1e-6) + 1e-9*size,
                       msg=f'{tag}: edge {a}-{b} out of range')
            o = Pn[[0, -1]].mean(0) - mid
            o = o - (o @ t)*t
            if omin == omax == 2 and len(x) > 2:
                s = dev[1:-1] @ o
                if side[0] > 0 or side[1] < 0:
                    ctx.ok('outward', np.all(s*np.sign(side[0]) > 0)
                           if side[0]*side[1] > 0 else True,
                           f'{tag}: edge {a}-{b} bends the wrong way')
                ctx.event('curved')
    faces(ctx, want, n, disp, size, tag)


# Faces of a three-dimensional patch: axis, side, edges (axis, corners)
FACE3 = {}
for _f, (_ax, _sd) in enumerate(((2, 0), (2, 1), (0, 0), (0, 1), (1, 0),
                                 (1, 1))):
    _p, _q = [_i for _i in range(3) if _i != _ax]

    def _c(**k):
        return CORNERS[3].index(tuple(k[f'a{_i}'] for _i in range(3)))
    _k = 0
    for _run, _oth in ((_p, _q), (_q, _p)):
        for _side in (0, 1):
            _k += 1
            FACE3[str(4*_f + _k)] = (
                _ax, _oth, _side,
                _c(**{f'a{_ax}': _sd, f'a{_run}': 0, f'a{_oth}': _side}),
                _c(**{f'a{_ax}': _sd, f'a{_run}': 1, f'a{_oth}': _side}))


def edges3(ctx):
    """Three-dimensional patch with corners at rest: the middle of each edge
    moves, in each of its two faces, by half the amplitude asked for there
    (mean over both faces), outwards positive."""
    rng = ctx.rng
    size = 10**rng.uniform(-2, 3)
    dims = tuple(float(size*rng.uniform(.6, 1.5)) for _ in range(3))
    nel = tuple(2*int(rng.integers(1, 3)) for _ in range(3))
    elem = str(rng.choice(ELEMS[3]))
    orders, ranges = {}, {}
    for e in FACE3:
        orders[e] = int(rng.choice([0, 1, 2], p=[.08, .22, .7]))
        a, b = np.sort(size*.1*rng.uniform(.2, 1, 2))
        if rng.random() < .5:
            a, b = -b, -a
        ranges[e] = (float(a), float(b))
    gen = FiniteElementPatchGenerator(3, dims)
    np.random.seed(int(rng.integers(1 << 30)))
    adm, patch = gen.generate_deformed_patch(
        elem, nel, edges_lab_def_order=dict(orders),
        edges_lab_disp_range=dict(ranges))
    tag = f'edges3 {elem} {nel} {orders} {ranges}'
    ctx.ok('status', adm, f'{tag}: refused')
    if not adm:
        return
    want, n, disp = check_mesh(ctx, patch, dims, elem, nel, tag)
    pairs = {}
    for e, (_, _, _, a, b) in FACE3.items():
        pairs.setdefault((a, b), []).append(e)
    for (a, b), es in pairs.items():
        gs = edge_nodes(n, a, b, 3)
        u = disp[gs[len(gs)//2]]
        none = any(orders[e] == 0 for e in es)
        run = [i for i in range(3) if CORNERS[3][a][i] != CORNERS[3][b][i]][0]
        ctx.le('edge-middle', abs(u[run]), 1e-6*size,
               msg=f'{tag}: middle of edge {es} slides')
        for e in es:
            _, oth, side, _, _ = FACE3[e]
            v = 2*u[oth]*(1 if side else -1)
            lo, hi = ranges[e] if orders[e] == 2 and not none else (0., 0.)
            ctx.ok('edge-middle', lo - 1e-6*size <= v <= hi + 1e-6*size,
                   f'{tag}: middle of edge {e} moves {v}, asked {(lo, hi)}')
            ctx.event('edge-middle')
    faces(ctx, want, n, disp, size, tag)
    ctx.state('edges3', elem, nel)


def faces(ctx, want, n, disp, size, tag):
    """Nodes inside a face: mean of both linear interpolations between
    opposite edges."""
    for ax in range(3):
        for end in (0, n[ax] - 1):
            p, q = [i for i in range(3) if i != ax]
            for g in disp:
                if g[ax] != end or g[p] in (0, n[p] - 1) or \
                        g[q] in (0, n[q] - 1):
                    continue

                def at(i, v):
                    h = list(g)
                    h[i] = v
                    return disp[tuple(h)]
                r, s = g[p]/(n[p] - 1), g[q]/(n[q] - 1)
                w = .5*((1 - r)*at(p, 0) + r*at(p, n[p] - 1) +
                        (1 - s)*at(q, 0) + s*at(q, n[q] - 1))
                ctx.close('face', disp[g], w, rtol=1e-9, scale=size,
                          msg=f'{tag}: node {g} inside a face')
                ctx.event('face-node')


def affine(ctx, d):
    """Corner ranges collapsed to an affine deformation: every boundary node
    follows it."""
    rng = ctx.rng
    elem = str(rng.choice(ELEMS[d]))
    dims = tuple(float(rng.uniform(.5, 3)) for _ in range(d))
    nel = tuple(int(rng.integers(1, 5)) for _ in range(d))
    F = .1*rng.normal(size=(d, d))
    c = .1*rng.normal(size=d)
    rngs = {}
    for i, k in enumerate(CORNERS[d]):
        u = F @ (np.array(k)*dims) + c
        rngs[str(i + 1)] = tuple((float(v), float(v)) for v in u)
    gen = FiniteElementPatchGenerator(d, dims)
    adm, patch = gen.generate_deformed_patch(
        elem, nel, corners_lab_disp_range=rngs, edges_lab_def_order=1,
        edges_lab_disp_range={'1': (.1, .2)})
    tag = f'affine {d}D {elem} {nel} {dims}'
    ctx.ok('status', adm, f'{tag}: refused')
    if not adm:
        return
    want, n, disp = check_mesh(ctx, patch, dims, elem, nel, tag)
    for g, u in disp.items():
        ctx.close('affine', u, F @ want[g] + c, rtol=1e-8, scale=1.,
                  msg=f'{tag}: node {g}')
    ctx.event('affine')


def refused(ctx):
    rng = ctx.rng
    d = int(rng.integers(2, 4))
    dims = (1.,)*d
    ctx.raises('refused', lambda: FiniteElementPatchGenerator(
        int(rng.choice([0, 1, 4])), dims), RuntimeError, 'dimensions')
    gen = FiniteElementPatchGenerator(d, dims)
    nel = (2,)*d
    e = ELEMS[d][0]
    for kw in ({'corners_lab_bc': {'1': (1,)*(d + 1)}},
               {'corners_lab_bc': {'1': [1]*d}},
               {'corners_lab_disp_range': {'1': ((0., 1.),)*(d - 1)}},
               {'corners_lab_disp_range': {'2': ((0., 1., 2.),)*d}},
               {'corners_lab_disp_range': [0.]},
               {'edges_lab_def_order': {'1': 1.5}},
               {'edges_lab_def_order': 'x'},
               {'edges_lab_disp_range': {'1': [0., 1.]}},
               {'edges_lab_disp_range': (0., 1.)}):
        ctx.raises('refused', lambda: gen.generate_deformed_patch(
            e, nel, **kw), RuntimeError, f'{kw}')
    ctx.raises('refused', lambda: gen.generate_deformed_patch('X4', nel),
               RuntimeError, 'element type')
    # Displacements prescribed inside the patch
    want, n = grid(dims, e, (3,)*d)
    M = np.zeros(n, dtype=int)
    X = {}
    for i, (g, x) in enumerate(want.items()):
        M[g] = i + 1
        X[str(i + 1)] = x
    inner = str(M[(1,)*d])
    ctx.raises('refused', lambda: FiniteElementPatch(
        d, dims, e, (3,)*d, M, X, {inner: np.zeros(d)}), RuntimeError,
        'inner node')
    p = FiniteElementPatch(d, dims, e, (3,)*d, M, X, {'1': np.zeros(d)})
    # Returned data are copies
    p.get_mesh_nodes_matrix()[:] = 0
    p.get_mesh_nodes_coords_ref().clear()
    p.get_mesh_boundary_nodes_disps().clear()
    ctx.ok('copies', np.array_equal(p.get_mesh_nodes_matrix(), M) and
           len(p.get_mesh_nodes_coords_ref()) == len(X) and
           list(p.get_mesh_boundary_nodes_disps()) == ['1'], 'copies')
    at = p.get_patch_attributes()
    ctx.ok('attributes', at['n_dim'] == d and tuple(at['patch_dims']) == dims
           and at['elem_type'] == e and np.array_equal(
               at['mesh_nodes_matrix'], M) and
           tuple(at['n_elems_per_dim']) == (3,)*d and
           tuple(at['n_edge_nodes_per_dim']) == tuple(n), f'{at.keys()}')
    ctx.event('refused')


def angles(ctx):
    rng = ctx.rng
    x = rng.normal(size=2)
    a = float(rng.uniform(-179, 179))
    R = bunge(a, 0, 0)[:2, :2]
    y = R @ x*rng.uniform(.1, 10)
    ctx.close('angle', rotation_angle_2d(x, y), a, rtol=1e-9, scale=180.)
    n = int(rng.integers(1, 8))
    X = rng.normal(size=(n, 2))
    A = rng.uniform(-170, 170, size=n)
    Y = np.array([bunge(t, 0, 0)[:2, :2] @ v for t, v in zip(A, X)])
    ctx.close('angle', mean_rotation_angle_2d(X, Y), A.mean(), rtol=1e-9,
              scale=180.)
    e = rng.uniform(-180, 180, size=3)
    ctx.close('euler', rotation_tensor_from_euler_angles(tuple(e)),
              bunge(*e), rtol=1e-12, scale=1., msg=f'{e}')
    ctx.event('angles')


def elements(ctx):
    for d in (2, 3):
        for e in ELEMS[d]:
            f = FiniteElement(e)
            want, n = grid((1.,)*d, e, (1,)*d)
            M = f.get_nodes_matrix()
            ctx.same('element', (f.get_n_dim(), f.get_n_edge_nodes(),
                                 f.get_n_nodes(), M.shape),
                     (d, NEDGE[e], len(want), tuple(n)), e)
            ctx.same('element', sorted(M[M > 0].tolist()),
                     list(range(1, len(want) + 1)), e)
            ctx.ok('element', {tuple(int(v) for v in g) for g in
                               np.argwhere(M)} == set(want), e)
            for g in want:
                ctx.same('element', tuple(f.get_node_label_index(
                    int(M[g]))), g, e)
            # Serendipity corners and edges run around the element
            if d == 2 and e[0] == 'S':
                seq = [f.get_node_label_index(k + 1) for k in
                       range(len(want))]
                P = shapely.geometry.Polygon(seq)
                ctx.ok('element', P.is_valid and P.exterior.is_ccw and
                       abs(P.area - (NEDGE[e] - 1)**2) < 1e-9,
                       f'{e}: {seq}')
            if e[0] == 'L':
                seq = [f.get_node_label_index(k + 1)[::-1] for k in
                       range(len(want))]
                ctx.ok('element', seq == sorted(seq), f'{e}: {seq}')
            ctx.event('elements')


def cases(tier):
    k = 1 if tier == 'quick' else 15
    out = [('patch2', {})]*(110*k) + [('patch2', {'big': True})]*(40*k) + \
        [('patch3', {})]*(30*k)
    out += [('affine', {'d': 2})]*(20*k) + [('affine', {'d': 3})]*(20*k)
    out += [('edges3', {})]*(24*k)
    out += [('refused', {})]*(4*k) + [('angles', {})]*(20*k)
    return out + [('elements', {})]
