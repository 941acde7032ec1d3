"""C27: specimen data sets hold the mesh, constraints and histories of their
files, and local paths are the strains and stresses of those histories."""
import copy
import os
import random
import numpy as np
import pandas
import torch
from vmon import fem, mat, rc, ref
from vmon.checks import c16, c26
from vmon.checks.c16 import N
from user_scripts.global_model_update.material_finder import \
    gen_specimen_data as gs
from user_scripts.global_model_update.material_finder.\
    gen_specimen_local_paths import gen_specimen_local_dataset
from user_scripts.global_model_update.utilities.process_specimen_data import \
    build_dirichlet_sets_reaction_history, copy_dbc_labels
from user_scripts.synthetic_data.build_local_paths_dataset import (
    build_local_paths_dataset, get_patch_analysis_dirs)

PROPERTY = 'C27'
RULE = ('random meshes, constraints and displacement histories written as '
        'mesh and time step files (stray files, unordered steps, several '
        'element blocks, dof ranges) and read back through every step of '
        'the specimen and material patch pipelines; tensors are compared '
        'with what was written and local paths with an independent strain '
        'integration driving one material per point; non-trivial: distinct '
        '(element, sizes, material, options)')
ASSUMPTIONS = ['nodes are labelled and listed from 1 to n in every file',
               'C3D20R connectivities in the node order of the repository '
               '(its own converters write that order)',
               'plots are not drawn (they need a LaTeX installation)']
REQUIRED_EVENTS = ('mesh', 'mixed-mesh', 'dof-range', 'refused', 'history',
                   'many-steps', 'stray-file', 'specimen', 'plastic',
                   'local-path', 'sets', 'copied-labels', 'patches',
                   'unsaved', 'single-precision')
ABAQUS = {'tri3': ('CPE3', 1), 'quad4': ('CPE4', 4), 'tetra4': ('C3D4', 4),
          'hexa8': ('C3D8', 8), 'hexa8r': ('C3D8R', 1),
          'hexa20': ('C3D20R', 8)}
DIV = {'tri3': (2, 1), 'quad4': (2, 2), 'tetra4': (1, 1, 1),
       'hexa8': (2, 1, 1), 'hexa8r': (2, 2, 1), 'hexa20': (1, 1, 1)}
COLS = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3',
        'DBC1', 'DBC2', 'DBC3']


def write_inp(ctx, path, X, blocks, bc):
    """blocks: list of (type, {label: nodes}); bc: list of (node, first dof,
    last dof, value)."""
    rng = ctx.rng
    up = rng.random() < .3
    blank = '\n' if rng.random() < .5 else ''

    def key(s):
        return s.upper() if up else s
    with open(path, 'w') as f:
        f.write('Some heading\n')
        if rng.random() < .3:
            f.write(key('*Heading') + '\njob\n')
        f.write(key('*Node') + '\n')
        for i, x in enumerate(X):
            f.write(f'{i + 1:>5d}, ' + ', '.join(f'{v:.16e}' for v in x)
                    + '\n')
        f.write(blank)
        for typ, conn in blocks:
            f.write(key('*Element, type=') + typ + '\n')
            for e, c in conn.items():
                f.write(f'{e}, ' + ', '.join(str(n) for n in c) + '\n')
            f.write(blank)
        if rng.random() < .5:
            f.write(key('*Nset, nset=SET-1') + '\n1, 2, 3\n' + blank)
        half = len(bc)//2 if rng.random() < .4 else len(bc)
        for part in (bc[:half], bc[half:]):
            if part or half == len(bc):
                f.write(key('*Boundary') + '\n')
                for n, a, b, v in part:
                    f.write(f'{n}, {a}, {b}, {v}\n')
                f.write(blank)
        if rng.random() < .5:
            f.write(key('*Step') + '\n1.0, 1.0\n' + key('*Node Output')
                    + '\nU\n')


def rand_bc(ctx, n_node, dim):
    """Constraint lines and the constrained dofs."""
    rng = ctx.rng
    lines, on = [], np.zeros((n_node, dim))
    for i in rng.permutation(n_node)[:int(rng.integers(1, n_node + 1))]:
        a = int(rng.integers(1, 4))
        b = int(rng.integers(a, 4))
        if b > a:
            ctx.event('dof-range')
        lines.append((int(i) + 1, a, b, float(rng.choice(
            [0., round(float(rng.standard_normal()), 6)]))))
        on[i, a - 1:b] = 1
    return lines, on


def mesh_file(ctx):
    rng = ctx.rng
    dt = torch.float64 if rng.random() < .6 else torch.float32
    torch.set_default_dtype(dt)
    kind = str(rng.choice(list(ABAQUS)))
    name = kind.rstrip('r')
    dim = fem.DIM[name]
    div = tuple(int(rng.integers(1, 4 if dim == 2 else 3))
                for _ in range(dim))
    X, conn = fem.grid_mesh(rng, name, div, size=10**rng.uniform(-2, 2))
    conn = {int(k): v for k, v in conn.items()}
    typ = {e: ABAQUS[kind] + (name,) for e in conn}
    blocks = [(ABAQUS[kind][0], conn)]
    if name == 'hexa8' and rng.random() < .5 and len(conn) > 1:
        k = int(rng.integers(1, len(conn)))
        a = {e: c for e, c in conn.items() if e <= k}
        b = {e: c for e, c in conn.items() if e > k}
        other = 'hexa8r' if kind == 'hexa8' else 'hexa8'
        blocks = [(ABAQUS[kind][0], a), (ABAQUS[other][0], b)]
        typ.update({e: ABAQUS[other] + (name,) for e in b})
        ctx.event('mixed-mesh')
    bc, on = rand_bc(ctx, len(X), dim)
    p = os.path.join(ctx.tmpdir(), 'spec.inp')
    write_inp(ctx, p, X, blocks, bc)
    tag = f'{kind} {div} {dt}'
    x, types, con, dirichlet = gs.get_specimen_mesh_from_inp_file(p, dim)
    ctx.event('mesh')
    if dt == torch.float32:
        ctx.event('single-precision')
    ctx.state(kind, div, len(blocks), len(bc))
    ctx.ok('precision', x.dtype == dt, tag)
    ctx.close('coordinates', N(x), X, rtol=1e-15 if dt == torch.float64
              else 1e-6, scale=abs(X).max(), msg=tag)
    ctx.same('connectivities', {int(k): list(v) for k, v in con.items()},
             conn, tag)
    ctx.same('types', sorted(int(k) for k in types), sorted(conn), tag)
    for e, t in types.items():
        _, g, nm = typ[int(e)]
        ctx.ok('types', isinstance(t, fem.CLS[nm]) and t.get_n_gauss() == g,
               f'{tag}: element {e}')
    ctx.same('constraints', N(dirichlet), on, tag)
    # Refusals
    bad = os.path.join(ctx.tmpdir(), 'bad.inp')
    how = int(rng.integers(4))
    c2 = {e: list(c) for e, c in conn.items()}
    e = int(rng.choice(list(c2)))
    tb = [(ABAQUS[kind][0], c2)]
    X2 = X
    if how == 0:
        c2[e][int(rng.integers(len(c2[e])))] = len(X) + 1
    elif how == 1:
        X2 = np.concatenate([X, X[:1] + 1])
    elif how == 2:
        tb = [('C3D10', c2)]
    write_inp(ctx, bad, X2, tb, bc)
    if how == 3:
        with open(bad) as f:
            s = f.read()
        with open(bad, 'w') as f:
            f.write(s.replace('*Node', '*Nodal').replace('*NODE', '*NODAL'))
    ctx.raises('refused', lambda: gs.get_specimen_mesh_from_inp_file(
        bad, dim), RuntimeError, f'{tag}: how={how}')
    ctx.event('refused')


# ------------------------------------------------------------------- history
def write_csv(directory, name, data, first=0):
    """data: (n_time, n_node, 12)."""
    os.makedirs(directory, exist_ok=True)
    for t, A in enumerate(data):
        df = pandas.DataFrame(
            np.concatenate([np.arange(1, len(A) + 1)[:, None], A], 1),
            columns=COLS)
        for c in ('NODE', 'DBC1', 'DBC2', 'DBC3'):
            df[c] = df[c].astype(int)
        df.to_csv(os.path.join(directory, f'{name}_tstep_{t + first}.csv'),
                  index=False)


def rand_hist(ctx, n_time, n_node, labels=4):
    A = ctx.rng.standard_normal((n_time, n_node, 12))
    A[:, :, 9:] = ctx.rng.integers(0, labels, (n_node, 3))
    return A


def history(ctx):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    name = str(rng.choice(['spec', 'Ti6242_HIP2', 'a1']))
    n_time, n_node = ctx.size(1, 25, 140), ctx.size(2, 20, 300)
    dim = int(rng.integers(2, 4))
    A = rand_hist(ctx, n_time, n_node)
    d = os.path.join(ctx.tmpdir(), 'hist')
    first = int(rng.integers(0, 3))
    write_csv(d, name, A, first)
    stray = ['notes.txt', f'x{name}_tstep_0.csv', f'{name}_tstep_a.csv',
             f'{name}b_tstep_1.csv', f'{name}_tstep_1.csv.bak',
             f'{name}_tstep_1.csv~', f'{name}_tstep_1.txt',
             f'{name}_tstep.csv']
    for x in stray:
        if rng.random() < .5:
            with open(os.path.join(d, x), 'w') as f:
                f.write('x\n')
            ctx.event('stray-file')
    paths = gs.get_specimen_history_paths(d, name)
    tag = f'{name} {n_time} steps {n_node} nodes {dim}D'
    ctx.event('history')
    if n_time > 10:
        ctx.event('many-steps')
    ctx.state(name, n_time, n_node, dim)
    ctx.same('steps', [os.path.basename(p) for p in paths],
             [f'{name}_tstep_{t + first}.csv' for t in range(n_time)], tag)
    u, r, b, t = gs.get_specimen_numerical_data(paths, dim, n_node)
    ctx.close('history', N(u), np.moveaxis(A[:, :, 3:3 + dim], 0, 2),
              rtol=1e-13, scale=1, msg=f'{tag}: displacements')
    ctx.close('history', N(r), np.moveaxis(A[:, :, 6:6 + dim], 0, 2),
              rtol=1e-13, scale=1, msg=f'{tag}: reactions')
    ctx.same('history', b.numpy(), np.moveaxis(A[:, :, 9:9 + dim], 0, 2)
             .astype(int), f'{tag}: constraints')
    ctx.same('time', N(t), np.arange(n_time, dtype=float), tag)
    # Reactions of the constrained sets
    H, labels, disp, nodes = build_dirichlet_sets_reaction_history(
        name, d, dim)
    want = []
    for i in range(dim):
        for lab in np.unique(A[0, :, 9 + i]):
            m = A[0, :, 9 + i] == lab
            want.append((f'dim_{i + 1}_label_{int(lab)}',
                         A[:, m, 6 + i].sum(1), (np.where(m)[0] + 1)
                         .tolist()))
    ctx.same('sets', list(labels), [w[0] for w in want], tag)
    ctx.same('sets', [list(x) for x in nodes], [w[2] for w in want], tag)
    ctx.close('sets', np.asarray(H)[:, 0, :], np.array([w[1] for w in want]),
              rtol=1e-12, scale=10, msg=f'{tag}: set reactions')
    ctx.close('sets', disp, np.moveaxis(A[:, :, 3:3 + dim], 0, 2),
              rtol=1e-13, scale=1, msg=tag)
    ctx.event('sets')
    # Constraints taken from another history, nothing else
    B = rand_hist(ctx, n_time, n_node, 6)
    src = os.path.join(ctx.tmpdir(), 'src')
    write_csv(src, name, B, int(rng.integers(0, 3)))
    copy_dbc_labels(name, src, d)
    u2, r2, b2, _ = gs.get_specimen_numerical_data(
        gs.get_specimen_history_paths(d, name), dim, n_node)
    ctx.same('copied-labels', b2.numpy(), np.moveaxis(
        B[:, :, 9:9 + dim], 0, 2).astype(int), tag)
    ctx.close('copied-labels', N(u2), N(u), rtol=1e-13, scale=1, msg=tag)
    ctx.close('copied-labels', N(r2), N(r), rtol=1e-13, scale=1, msg=tag)
    ctx.event('copied-labels')
    # Refusals
    ctx.raises('refused', lambda: gs.get_specimen_numerical_data(
        paths, dim, n_node + 1), RuntimeError, 'number of nodes')
    ctx.raises('refused', lambda: gs.get_specimen_history_paths(
        d, 'other'), RuntimeError, 'no steps')
    ctx.raises('refused', lambda: gs.get_specimen_history_paths(
        os.path.join(d, 'absent'), name), RuntimeError, 'no directory')
    short = os.path.join(ctx.tmpdir(), 'short')
    write_csv(short, name, A[:-1] if n_time > 1 else np.repeat(A, 2, 0))
    ctx.raises('refused', lambda: copy_dbc_labels(name, short, d),
               RuntimeError, 'different lengths')
    df = pandas.read_csv(paths[-1])
    df.drop(columns=['DBC3']).to_csv(paths[-1], index=False)
    ctx.raises('refused', lambda: gs.get_specimen_numerical_data(
        paths, dim, n_node), RuntimeError, 'missing column')


# ------------------------------------------------------------------ specimen
def kwargs_of(case, model_dir):
    sp = case.specs[0]
    n = len(ref.SYM[case.dim])
    full = sp.name + '_vmap'
    return 'rc_' + full, sp.code_parameters(), dict(
        n_features_in=n, n_features_out=n, learnable_parameters={},
        strain_formulation='infinitesimal', problem_type=mat.PT[case.dim],
        material_model_name=full,
        material_model_parameters=sp.code_parameters(),
        state_features_out={}, is_auto_sync_parameters=False,
        is_check_su_fail=False, model_directory=model_dir,
        model_name='rc_' + full, is_normalized_parameters=True,
        is_model_in_normalized=False, is_model_out_normalized=False,
        device_type='cpu')


def specimen(ctx, kind, mname):
    """Files -> specimen data and material state -> local paths."""
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    name = kind.rstrip('r')
    case = c16.Case(ctx, name, mname, n_time=int(rng.integers(2, 6)),
                    div=DIV[kind], g=ABAQUS[kind][1])
    F = case.solve(True)
    if F is None:
        ctx.event('failure-skipped')
        return
    if case.plastic:
        ctx.event('plastic')
    tmp = ctx.tmpdir()
    bc = c16.boundary(ctx, case, False)
    R = F*rng.uniform(.5, 1.5, F.shape)
    lines = [(i + 1, j + 1, j + 1, 0.) for i, j in zip(*np.nonzero(bc))]
    conn = {i + 1: [int(x) for x in case.elem_conn(i) + 1]
            for i in range(case.n_elem)}
    inp = os.path.join(tmp, 'spec.inp')
    write_inp(ctx, inp, case.X, [(ABAQUS[kind][0], conn)], lines)
    A = np.zeros((case.n_time, len(case.X), 12))
    d = case.dim
    A[:, :, :d] = case.X + np.moveaxis(case.U, 2, 0)
    A[:, :, 3:3 + d] = np.moveaxis(case.U, 2, 0)
    A[:, :, 6:6 + d] = np.moveaxis(R, 2, 0)
    A[:, :, 9:9 + d] = bc
    hist = os.path.join(tmp, 'specimen_history_data')
    write_csv(hist, 'spec', A)
    out = os.path.join(tmp, '1_training_dataset')
    mdir = os.path.join(out, 'material_models_init', 'model_1')
    os.makedirs(mdir)
    save = (True, True) if rng.random() < .8 else \
        tuple(bool(x) for x in rng.integers(0, 2, 2))
    model, par, kw = kwargs_of(case, mdir)
    tag = f'{kind} {mname} {case.n_time} steps'
    dp, sp = gs.gen_specimen_dataset(
        'spec', tmp, inp, gs.get_specimen_history_paths(hist, 'spec'),
        'infinitesimal', mat.PT[d], d, model, par, kw, out, *save)
    for p, s, f in ((dp, save[0], 'specimen_data.pt'),
                    (sp, save[1], 'specimen_material_state.pt')):
        q = os.path.join(out, f)
        ctx.same('files', os.path.isfile(q), s, f'{tag}: {f}')
        if s:
            ctx.same('files', p, q, tag)
    ctx.event('specimen')
    ctx.state(kind, mname, case.n_time, save)
    if not all(save):
        ctx.event('unsaved')
        return
    data = torch.load(dp)
    mesh = data.specimen_mesh
    ctx.same('mesh', (mesh.get_n_node_mesh(), mesh.get_n_elem(),
                      data.get_n_dim()), (len(case.X), case.n_elem, d), tag)
    ctx.close('mesh', N(mesh.get_mesh_configuration(time='init')[0]),
              case.X, rtol=1e-14, scale=abs(case.X).max(), msg=tag)
    ctx.close('history', N(data.nodes_disps_mesh_hist), case.U, rtol=1e-12,
              scale=abs(case.U).max(), msg=f'{tag}: displacements')
    ctx.close('history', N(data.reaction_forces_mesh_hist), R, rtol=1e-12,
              scale=abs(R).max() + 1e-300, msg=f'{tag}: reactions')
    ctx.same('history', data.dirichlet_bc_mesh_hist.numpy(),
             np.repeat(bc[:, :, None], case.n_time, 2), tag)
    md = os.path.join(tmp, '3_model')
    os.makedirs(md)
    ds, loss = gen_specimen_local_dataset(
        dp, sp, md, force_equilibrium_loss_type='pointwise')
    # Hard-coded scaling: 1/(E^2 L^4 T) with E=110e3, L=40, T=1
    s = 1/(110e3**2*40.**4)
    want = c16.reference(F, R, bc, False, np.ones(case.n_time), s,
                         np.ones(d))
    sc = c16.reference(abs(F) + abs(R), 0*R, bc, False,
                       np.ones(case.n_time), s, np.ones(d))
    ctx.close('loss', N(loss), want, rtol=2e-5, scale=max(want, .05*sc),
              msg=tag)
    pts = [(e, p) for e in range(case.n_elem) for p in range(case.g)]
    ctx.same('local-paths', len(ds), len(pts), tag)
    order = ref.SYM[d]
    E = np.array([[[case.E[e][k][p][ref.idx(c)] for c in order]
                   for k in range(case.n_time)] for e, p in pts])
    S = np.array([[[case.S[e][p][k][ref.idx(c)] for c in order]
                   for k in range(case.n_time)] for e, p in pts])
    for q in range(len(pts)):
        ctx.event('local-path')
        ctx.close('local-paths', N(ds[q]['strain_path']), E[q], rtol=1e-9,
                  scale=abs(E).max(), msg=f'{tag}: strain {pts[q]}')
        ctx.close('local-paths', N(ds[q]['stress_path']), S[q], rtol=2e-5,
                  scale=abs(S).max(), msg=f'{tag}: stress {pts[q]}')


# ------------------------------------------------------------------- patches
def patches(ctx):
    """Material patch simulations -> one data set of local paths."""
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    base = ctx.tmpdir()
    pname = str(rng.choice(['random_specimen', 'patch']))
    ids = sorted(int(x) for x in rng.choice(
        [0, 1, 2, 3, 9, 10, 11, 20], int(rng.integers(1, 4)), replace=False))
    name = str(rng.choice(['hexa8', 'tetra4', 'hexa20']))
    g = c26.LINKS[name][1]
    n_time = int(rng.integers(2, 5))
    seed = int(rng.integers(1 << 30))
    random.seed(seed)
    models = [gs.set_material_model_parameters() for _ in ids]
    todo = []
    for i in rng.permutation(len(ids)):
        pd = os.path.join(base, f'{pname}_{ids[i]}')
        sim = os.path.join(pd, 'simulations')
        os.makedirs(sim)
        X, conn = fem.grid_mesh(rng, name, DIV[name],
                                size=10**rng.uniform(-1, 1))
        U = np.zeros((n_time,) + X.shape)
        for t in range(1, n_time):
            H = rng.standard_normal((3, 3))*6e-3
            U[t] = U[t - 1] + X @ H.T
        nodes = {int(k) + 1: ([1, 1, 1], [0., 0., 0.]) for k in
                 rng.permutation(len(X))[:int(rng.integers(1, len(X) + 1))]}
        c26.write_dat(ctx, os.path.join(sim, pname + '.dat'), name, X, conn,
                      nodes, False)
        nd = os.path.join(sim, pname, 'NODE_DATA')
        os.makedirs(nd)
        for t in range(n_time):
            D = rng.standard_normal((len(X), 18))
            D[:, 0] = np.arange(1, len(X) + 1)
            D[:, 3:6] = X + U[t]
            D[:, 6:9] = U[t]
            np.savetxt(os.path.join(nd, f'{pname}_tstep_{t}.nodedata'), D,
                       fmt='%d' + ' %.16e'*17)
        todo.append((i, X, conn, U))
    for x in (f'{pname}_x', f'{pname}', f'other_{ids[0]}', 'plots'):
        os.makedirs(os.path.join(base, x), exist_ok=True)
    tag = f'{pname} {ids} {name} {n_time} steps'
    dirs = get_patch_analysis_dirs(base, pname)
    ctx.same('patches', [os.path.basename(x) for x in dirs],
             [f'{pname}_{i}' for i in ids], tag)
    random.seed(seed)
    ds = build_local_paths_dataset(base, pname)
    ctx.event('patches')
    ctx.state(pname, name, len(ids), n_time)
    todo.sort(key=lambda z: z[0])
    n = 0
    order = ref.SYM[3]
    for i, X, conn, U in todo:
        form, pt, dim, mname, par, kw = models[i]
        par = copy.deepcopy(kw['material_model_parameters'])
        for k, v in kw['learnable_parameters'].items():
            tgt = par if k in par else par['hardening_parameters']
            tgt[k] = v['initial_value']
        cls = mat.CLASSES['von_mises'][0]
        for e in range(1, len(conn) + 1):
            c = np.asarray(conn[str(e)]) - 1
            eps = [fem.gauss_strain(name, g, X[c], U[t][c])
                   for t in range(n_time)]
            for p in range(g):
                ctx.abort_unless('patches', n < len(ds),
                                 f'{tag}: {len(ds)} samples')
                s = ds[n]
                n += 1
                E = np.array([[eps[t][p][ref.idx(q)] for q in order]
                              for t in range(n_time)])
                ctx.close('patch-strain', N(s['strain_path']), E, rtol=1e-5,
                          scale=max(abs(E).max(), 1e-9),
                          msg=f'{tag}: patch {i} element {e} point {p}')
                st = rc.drive(cls(form, pt, copy.deepcopy(par)), 3, E)
                if rc.first_bad(st) < len(st):
                    ctx.event('failure-skipped')
                    continue
                S = rc.stress_rows(st, 3)
                ctx.close('patch-stress', N(s['stress_path']), S, rtol=1e-4,
                          scale=max(abs(S).max(), 1e-9),
                          msg=f'{tag}: patch {i} element {e} point {p}')
                ctx.event('local-path')
    ctx.same('patches', n, len(ds), f'{tag}: samples')
    ctx.raises('refused', lambda: get_patch_analysis_dirs(base, 'none'),
               RuntimeError, 'no patches')


def cases(tier):
    k = 24 if tier == 'thorough' else 2
    out = [('mesh_file', {})]*(60*k) + [('history', {})]*(40*k)
    for kind in ABAQUS:
        for m in ('von_mises', 'drucker_prager', 'lou_zhang_yoon'):
            if kind == 'hexa20' and m == 'lou_zhang_yoon':
                continue
            out += [('specimen', {'kind': kind, 'mname': m})]*k
    out += [('specimen', {'kind': 'tri3', 'mname': 'von_mises'})]*(8*k)
    out += [('patches', {})]*(12*k)
    return out
