"""C26: the finite element simulator adapters neither lose nor change data:
input files say what the patch says, results are read in order, and file
format conversions preserve meshes, constraints and histories."""
import os
import re
import numpy as np
import pandas
import torch
from vmon import fem, mat
from data_generation.spdg.patch import FiniteElementPatch
from data_generation.spdg.patch_generator import FiniteElementPatchGenerator
from simulators.links.links import LinksSimulator
from simulators.links.utilities.links_data_to_adimu import (
    gen_adimu_data_from_links, extract_mesh_dirichlet_from_links_data,
    generate_pointwise_sets, update_adimu_mesh_hist_data_files_dirichlet)
from simulators.links.utilities.links_dat_to_inp import (
    links_dat_to_abaqus_inp, abaqus_inp_to_links_dat)
from simulators.links.utilities.links_nodedata_to_csv import \
    links_node_output_to_csv
from simulators.links.utilities.links_out_to_dataset import \
    build_dataset as out_dataset
from simulators.links.utilities.links_specimen_dirichlet import (
    build_specimen_dbc, write_links_dirichlet_bc_file,
    read_links_nodes_coords_mesh)
from simulators.fetorch.material.models.standard.hardening import \
    get_hardening_law

PROPERTY = 'C26'
RULE = ('random patches, material distributions, voids, constraints and '
        'constitutive models written to simulator input files that are '
        'parsed back by an independent reader; stand-in simulator runs; '
        'random result directories read and converted and compared with '
        'what was written; non-trivial: distinct (element, sizes, options)')
ASSUMPTIONS = ['simulator files are judged in the format the repository '
               'reads and writes (no simulator is available)',
               'numbers in files carry nine significant digits']
REQUIRED_EVENTS = ('2d', '3d', 'voids', 'refused-voids', 'free-dof',
                   'many-nodes', 'material', 'hardening', 'kept-file',
                   'load-scaled', 'run-success', 'run-failure', 'run-missing',
                   'results', 'dat-inp', 'inp-dat', 'adimu', 'csv',
                   'pointwise', 'specimen-dbc', 'negative', 'gauss-path',
                   'update-dbc', 'handwritten', 'dof-range', 'nodes-removed',
                   'boundary-void')
KIND = {'SQUAD4': ('quad4', 'QUAD4', 4), 'SQUAD8': ('quad8', 'QUAD8', 4),
        'SHEXA8': ('hexa8', 'HEXA8', 8), 'SHEXA20': ('hexa20', 'HEXA20', 8)}
ANALYSIS = {'plane_stress': '1', 'plane_strain': '2', 'axisymmetric': '3',
            'tridimensional': '6'}
ABAQUS = {'quad4': 'CPE4', 'hexa8': 'C3D8', 'hexa20': 'C3D20R',
          'tri3': 'CPE3', 'tetra4': 'C3D4'}
LINKS = {'quad4': ('QUAD4', 4), 'hexa8': ('HEXA8', 8),
         'hexa20': ('HEXA20', 8), 'tri3': ('TRI3', 1),
         'tetra4': ('TETRA4', 4)}
DIG = 2e-8


# ------------------------------------------------------------------- readers
def section(lines, key):
    """Header words and lines of a keyword section up to a blank line."""
    at = [i for i, x in enumerate(lines)
          if x.split() and x.split()[0].upper() == key]
    assert len(at) >= 1, f'keyword {key} not found'
    out = []
    for x in lines[at[0] + 1:]:
        if not x.strip():
            break
        out.append(x)
    return lines[at[0]].split()[1:], out


def read_dat(path):
    with open(path) as f:
        lines = f.read().split('\n')
    D = {}
    for k in ('TITLE', 'ANALYSIS_TYPE', 'LARGE_STRAIN_FORMULATION',
              'SOLUTION_ALGORITHM', 'SOLVER', 'PARALLEL_SOLVER'):
        D[k] = section(lines, k)
    h, b = section(lines, 'INCREMENTS')
    D['inc'] = (int(h[0]), [[float(x) for x in r.split()] for r in b])
    h, b = section(lines, 'ELEMENT_GROUPS')
    D['groups'] = (int(h[0]), [[int(x) for x in r.split()] for r in b])
    h, b = section(lines, 'ELEMENT_TYPES')
    D['type'] = (int(h[0]), b[0].split(), b[1].split())
    h, b = section(lines, 'MATERIALS')
    D['mat'] = (int(h[0]), b)
    mesh(lines, D)
    return D


def mesh(lines, D):
    h, b = section(lines, 'ELEMENTS')
    D['elem'] = {int(r.split()[0]): (int(r.split()[1]),
                                     [int(x) for x in r.split()[2:]])
                 for r in b}
    D['n_elem'] = (int(h[0]), len(b))
    h, b = section(lines, 'NODE_COORDINATES')
    D['node'] = {int(r.split()[0]): np.array([float(x)
                                              for x in r.split()[1:]])
                 for r in b}
    D['n_node'] = (int(h[0]), len(b))
    h, b = section(lines, 'NODES_WITH_PRESCRIBED_DISPLACEMENTS')
    D['dbc'] = {}
    for r in b:
        w = r.split()
        D['dbc'][int(w[0])] = ([int(c) for c in w[1]],
                               np.array([float(x) for x in w[2:5]]))
    D['n_dbc'] = (int(h[0]), len(b))


def counts(ctx, D, tag):
    for k, q in (('n_elem', 'elem'), ('n_node', 'node'), ('n_dbc', 'dbc')):
        ctx.ok('counts', D[k][0] == D[k][1] == len(D[q]),
               f'{tag}: {k} announced {D[k][0]}, {D[k][1]} lines, '
               f'{len(D[q])} labels')
    for q in ('elem', 'node'):
        ctx.same('labels', sorted(D[q]), list(range(1, len(D[q]) + 1)),
                 f'{tag}: labels of {q}')


def read_inp(path):
    with open(path) as f:
        lines = f.read().split('\n')
    out = {'node': {}, 'elem': {}, 'dbc': {}, 'type': None}
    cur = None
    for x in lines:
        if x.startswith('*'):
            w = x[1:].split(',')
            cur = {'node': 'node', 'element': 'elem',
                   'boundary': 'dbc'}.get(w[0].strip().lower())
            if cur == 'elem':
                out['type'] = w[1].split('=')[1].strip()
        elif not x.strip():
            cur = None
        elif cur == 'node':
            w = x.split(',')
            out['node'][int(w[0])] = np.array([float(v) for v in w[1:]])
        elif cur == 'elem':
            w = x.split(',')
            out['elem'][int(w[0])] = [int(v) for v in w[1:]]
        elif cur == 'dbc':
            w = x.split(',')
            for d in range(int(w[1]), int(w[2]) + 1):
                out['dbc'][(int(w[0]), d)] = float(w[3])
    return out


# ----------------------------------------------------------------- materials
def rand_material(rng, fixed=None):
    name = fixed or str(rng.choice(['ELASTIC', 'VON_MISES', 'DRUCKER_PRAGER',
                                    'LOU']))
    E = float(10**rng.uniform(2, 6))
    d = {'name': name, 'density': float(rng.uniform(0, 8)), 'young': E,
         'poisson': float(rng.uniform(-.2, .45))}
    rows = [[d['density']], [d['young'], d['poisson']]]
    law = None
    if name != 'ELASTIC':
        kind, par, _ = mat.rand_hardening(rng, E*10**rng.uniform(-4, -2))
        law = mat.hard_ref(kind, par)
        d.update(n_hard_point=int(rng.integers(2, 30)),
                 hardening_law=get_hardening_law(kind),
                 hardening_parameters=mat.code_params(kind, par))
    if name == 'DRUCKER_PRAGER':
        d.update(friction_angle_deg=float(rng.uniform(1, 40)),
                 dilatancy_angle_deg=float(rng.uniform(1, 40)))
        rows[1] += [d['friction_angle_deg'], d['dilatancy_angle_deg'], 3.]
    if name == 'LOU':
        for q in 'abcd':
            d[f'yield_{q}_init'] = float(rng.uniform(-2, 2))
            d[f'{q}_hard_slope'] = float(rng.uniform(-2, 2))
            rows.append([d[f'yield_{q}_init'], d[f'{q}_hard_slope']])
    return d, rows, law


def check_materials(ctx, lines, mats, tag):
    it = iter(lines)
    seen = []
    for r in it:
        ph, name = r.split()
        ctx.ok('material', ph in mats and ph not in seen,
               f'{tag}: phase {ph}')
        seen.append(ph)
        d, rows, law = mats[ph]
        ctx.same('material', name, d['name'], f'{tag}: phase {ph}')
        ctx.event('material')
        for want in rows:
            got = [float(x) for x in next(it).split()]
            ctx.same('material', len(got), len(want),
                     f'{tag}: {name} row {got} for {want}')
            ctx.close('material', np.array(got), np.array(want), rtol=DIG,
                      atol=1e-300, msg=f'{tag}: {name} row')
        if law is None:
            continue
        n = int(next(it).split()[0])
        ctx.same('hardening', n, d['n_hard_point'], f'{tag}: points')
        pts = np.array([[float(x) for x in next(it).split()]
                        for _ in range(n)])
        ctx.event('hardening')
        ctx.close('hardening', pts[:, 0], np.linspace(0, 2, n), rtol=1e-6,
                  scale=1., msg=f'{tag}: accumulated plastic strain')
        want = np.array([law(x)[0] for x in pts[:, 0]])
        ctx.close('hardening', pts[:, 1], want, rtol=2e-5,
                  scale=abs(want).max(), msg=f'{tag}: {d["name"]} '
                  'yield stress')
    return seen


# --------------------------------------------------------------- input files
def rand_patch(ctx, d, elem=None, big=False):
    rng = ctx.rng
    elem = elem or str(rng.choice([k for k in KIND if (k[1] == 'Q') ==
                                   (d == 2)]))
    dims = tuple(float(10**rng.uniform(-1, 2)*rng.uniform(.5, 1.5))
                 for _ in range(d))
    hi = 8 if d == 2 else 5
    nel = tuple(int(rng.integers(1, hi)) for _ in range(d))
    if big:
        nel = (32, 33) if d == 2 else (9, 10, 10)
    amp = .05*min(dims)
    np.random.seed(int(rng.integers(1 << 30)))
    adm, patch = FiniteElementPatchGenerator(d, dims).generate_deformed_patch(
        elem, nel, corners_lab_disp_range={
            str(c + 1): tuple((-amp, amp) for _ in range(d))
            for c in range(2**d)})
    ctx.abort_unless('inadmissible', adm)
    U = patch.get_mesh_boundary_nodes_disps()
    if rng.random() < .4:
        # Free degrees of freedom, and free boundary nodes
        for k in list(U):
            r = rng.random()
            if r < .2:
                U[k] = np.array([None if rng.random() < .5 else x
                                 for x in U[k]], dtype=object)
            elif r < .4:
                del U[k]
        patch = FiniteElementPatch(d, dims, elem, nel,
                                   patch.get_mesh_nodes_matrix(),
                                   patch.get_mesh_nodes_coords_ref(), U)
    return patch, elem, dims, nel, U


def local_nodes(name):
    """Local coordinates; the 8-node quadrilateral goes around its
    boundary, as the simulator does."""
    X = fem.NODES[name]
    return X[[0, 4, 1, 5, 2, 6, 3, 7]] if name == 'quad8' else X


def input_file(ctx, d, big=False):
    rng = ctx.rng
    patch, elem, dims, nel, U = rand_patch(
        ctx, d, (None, None, 'SQUAD4', 'SHEXA8')[d] if big else None, big)
    name, ltype, ng = KIND[elem]
    ctx.event(f'{d}d')
    nph = int(rng.integers(1, 4))
    phases = sorted(int(x) for x in rng.permutation(9)[:nph] + 1)
    M = rng.choice(phases, nel)
    mats = {str(p): rand_material(rng) for p in phases}
    used = sorted(set(int(x) for x in M.flatten()))
    analysis = 'tridimensional' if d == 3 else str(
        rng.choice(['plane_stress', 'plane_strain', 'axisymmetric']))
    form = str(rng.choice(['infinitesimal', 'finite']))
    sim = LinksSimulator('/nonexistent/links', form, analysis)
    directory = os.path.join(ctx.tmpdir(), 'new')
    kw = {}
    params = {}
    if rng.random() < .5:
        params = {'title': 'some title', 'solver': 'SUPERLU',
                  'parallel_solver': int(rng.integers(1, 9)),
                  'unknown': 1}
        kw['links_input_params'] = dict(params)
    X = patch.get_mesh_nodes_coords_ref()
    size = max(dims)
    where = {tuple(np.round(np.asarray(x)/size*1e5).astype(int)): k
             for k, x in X.items()}
    cells = list(np.ndindex(*nel[::-1]))
    remove = set()
    tag = f'{elem} {nel} {analysis} {form}'
    inner = [i + 1 for i, c in enumerate(cells)
             if all(0 < a < m - 1 for a, m in zip(c, nel[::-1]))]
    if rng.random() < .5:
        if inner and (big or rng.random() < .7):
            remove = set(inner) if rng.random() < .5 else {
                int(x) for x in rng.permutation(inner)
                [:int(rng.integers(1, len(inner) + 1))]}
            side = [i + 1 for i, c in enumerate(cells) if elem in
                    ('SQUAD4', 'SHEXA8') and i + 1 not in inner and
                    sum(0 < a < m - 1 for a, m in zip(c, nel[::-1]))
                    == d - 1]
            if side and rng.random() < .3:
                # All nodes of one such element belong to others, too
                remove = {int(rng.choice(side))}
                ctx.event('boundary-void')
        else:
            # A corner element owns its corner node
            remove = {1}
        kw['remove_elements_labels'] = tuple(remove)
    wrong = [k for k, c in enumerate(cells) if k + 1 in remove and
             k == 0]
    desc = {p: v[0] for p, v in mats.items()}
    mdata = {'mesh_elem_material': M.copy(), 'mat_phases_descriptors': desc}
    if wrong:
        ctx.raises('boundary-voids', lambda: sim.generate_input_data_file(
            'case', directory, patch, mdata, **kw), RuntimeError, tag)
        ctx.event('refused-voids')
        return
    np.random.seed(int(rng.integers(1 << 30)))
    path = sim.generate_input_data_file('case', directory, patch, mdata,
                                        is_save_increm_file=True, **kw)
    ctx.same('path', path, os.path.join(directory, 'case.dat'), tag)
    ctx.ok('request', np.array_equal(mdata['mesh_elem_material'], M), tag)
    D = read_dat(path)
    ctx.same('title', [x.strip() for x in D['TITLE'][1]],
             [params.get('title', 'Links input data file generated '
                         'automatically.')], tag)
    ctx.same('analysis', D['ANALYSIS_TYPE'][0], [ANALYSIS[analysis]], tag)
    ctx.same('analysis', D['LARGE_STRAIN_FORMULATION'][0],
             ['OFF' if form == 'infinitesimal' else 'ON'], tag)
    ctx.same('parameters', D['SOLVER'][0],
             [params.get('solver', 'PARDISO')], tag)
    ctx.same('parameters', D['PARALLEL_SOLVER'][0],
             [str(params.get('parallel_solver', 1))], tag)
    ctx.same('type', D['type'], (1, ['1', ltype], [str(ng), 'GP']), tag)
    counts(ctx, D, tag)
    # Materials and groups
    g = {r[0]: r[1:] for r in D['groups'][1]}
    ctx.same('groups', (D['groups'][0], g),
             (len(used), {p: [1, p] for p in used}), tag)
    ctx.same('material', D['mat'][0], len(used), tag)
    seen = check_materials(ctx, D['mat'][1], mats, tag)
    ctx.same('material', sorted(int(x) for x in seen), used, tag)
    # Elements: geometry and phase of every cell that remains
    h = np.array(dims)/np.array(nel)
    left = [c for i, c in enumerate(cells) if i + 1 not in remove]
    ctx.same('elements', len(D['elem']), len(left), tag)
    ctx.state(elem, nel, len(remove), nph, analysis, form)
    want = {}
    for c in left:
        c = c[::-1]
        pts = (np.array(c) + (local_nodes(name) + 1)/2)*h
        want[tuple(c)] = (int(M[c]), pts)
    hit = set()
    for e, (ph, nodes) in D['elem'].items():
        P = np.array([D['node'][n] for n in nodes])
        c = tuple(int(x) for x in np.round(P.mean(0)/h - .5))
        ctx.ok('elements', c in want and c not in hit,
               f'{tag}: element {e} at cell {c}')
        hit.add(c)
        ctx.same('phase', ph, want[c][0], f'{tag}: phase of cell {c}')
        ctx.close('elements', P, want[c][1], rtol=3e-8, scale=size,
                  msg=f'{tag}: nodes of element {e}')
    if not remove:
        order = [D['elem'][e][1] for e in range(1, len(left) + 1)]
        first = np.array([D['node'][n[0]] for n in order])
        ctx.close('elements', first, np.array(
            [np.array(c[::-1])*h for c in left]), rtol=3e-8, scale=size,
            msg=f'{tag}: order of elements')
    owned = {n for _, ns in D['elem'].values() for n in ns}
    ctx.same('nodes', sorted(owned), sorted(D['node']),
             f'{tag}: nodes of elements')
    if remove:
        ctx.event('voids')
        if len(D['node']) < len(X):
            ctx.event('nodes-removed')
    if len(D['node']) > 999:
        ctx.event('many-nodes')
    # Prescribed displacements
    ctx.same('prescribed', len(D['dbc']), len(U), f'{tag}: prescribed nodes')
    for n, (code, val) in D['dbc'].items():
        x = D['node'][n]
        k = where.get(tuple(np.round(x/size*1e5).astype(int)))
        ctx.ok('prescribed', k in U, f'{tag}: node {n} at {x} prescribed')
        u = list(U[k]) + ([0.] if d == 2 else [])
        if None in u:
            ctx.event('free-dof')
        ctx.same('prescribed', code, [0 if v is None else 1 for v in u],
                 f'{tag}: code of node {n}')
        ctx.close('prescribed', val, np.array([0. if v is None else v
                                               for v in u]), rtol=DIG,
                  scale=size, msg=f'{tag}: displacement of node {n}')
    # Loading: total load factor stays within bounds
    n, rows = D['inc']
    ctx.same('loading', len(rows), n, f'{tag}: increments')
    t = np.cumsum([r[1] for r in rows])
    ctx.le('loading', np.abs(t).max(), 1 + 1e-6, msg=f'{tag}: load factor')
    if np.abs(t).max() > 1 - 1e-6:
        ctx.event('load-scaled')
    ctx.ok('loading', all(len(r) == 4 and r[2] > 0 and r[3] >= 1
                          for r in rows), f'{tag}: increments')
    with open(os.path.join(directory, 'loading_incrementation.dat')) as f:
        own = section(f.read().split('\n'), 'INCREMENTS')
    ctx.same('loading', [[float(x) for x in r.split()] for r in own[1]],
             rows, f'{tag}: incrementation file')
    # Existing file is kept unless told otherwise
    with open(path) as f:
        text = f.read()
    over = bool(rng.random() < .3)
    p2 = sim.generate_input_data_file('case', directory, patch, mdata,
                                      is_overwrite_file=over, **kw)
    ctx.same('kept-file', p2 == path, over, f'{tag}: path of second file')
    if not over:
        with open(path) as f:
            ctx.ok('kept-file', f.read() == text, f'{tag}: file changed')
        ctx.event('kept-file')
        E = read_dat(p2)
        ctx.same('kept-file', E['dbc'].keys(), D['dbc'].keys(), tag)


def materials(ctx):
    """Each constitutive model and the requests that must be refused."""
    rng = ctx.rng
    patch, elem, dims, nel, U = rand_patch(ctx, 2, 'SQUAD4')
    sim = LinksSimulator('/x', 'infinitesimal', 'plane_strain')
    M = np.ones(nel, dtype=int)*7
    for k in ('ELASTIC', 'VON_MISES', 'DRUCKER_PRAGER', 'LOU'):
        m = rand_material(rng, k)
        data = {'mesh_elem_material': M,
                'mat_phases_descriptors': {'7': m[0]}}
        D = read_dat(sim.generate_input_data_file('m', ctx.tmpdir(), patch,
                                                  data))
        check_materials(ctx, D['mat'][1], {'7': m}, k)
        ctx.state(k, m[0].get('n_hard_point'))
        q = str(rng.choice([x for x in m[0] if x != 'name']))
        bad = {'mesh_elem_material': M, 'mat_phases_descriptors': {
            '7': {a: b for a, b in m[0].items() if a != q}}}
        ctx.raises('refused', lambda: sim.generate_input_data_file(
            'm', ctx.tmpdir(), patch, bad), RuntimeError, f'{k} without {q}')
    bad = {'mesh_elem_material': M, 'mat_phases_descriptors': {'1': m[0]}}
    ctx.raises('refused', lambda: sim.generate_input_data_file(
        'm', ctx.tmpdir(), patch, bad), RuntimeError, 'missing phase')
    bad = {'mesh_elem_material': M, 'mat_phases_descriptors': {
        '7': {**m[0], 'name': 'OTHER'}}}
    ctx.raises('refused', lambda: sim.generate_input_data_file(
        'm', ctx.tmpdir(), patch, bad), RuntimeError, 'unknown model')
    p9 = FiniteElementPatchGenerator(2, dims).generate_deformed_patch(
        str(rng.choice(['LQUAD9', 'SQUAD12', 'LQUAD16'])), nel)[1]
    ctx.raises('refused', lambda: sim.generate_input_data_file(
        'm', ctx.tmpdir(), p9, data), RuntimeError, 'element type')


# ----------------------------------------------------------------------- run
def run(ctx, how):
    d = ctx.tmpdir()
    name = str(ctx.rng.choice(['case', 'a_1', 'x.y']))
    dat = os.path.join(d, name + '.dat')
    open(dat, 'w').close()
    out = os.path.join(d, name)
    ok = 'Program L I N K S successfully completed.'
    body = '#!/bin/sh\necho "$1" > "' + os.path.join(d, 'args') + '"\n'
    if how != 'no-directory':
        body += f'mkdir "{out}"\n'
        text = {'success': f'abc\\n  {ok}  \\nend\\n', 'failure':
                'abc\\nProgram L I N K S aborted.\\n', 'empty': ''}.get(how)
        if text is not None:
            body += f'printf "{text}" > "{out}/{name}.screen"\n'
    body += f'exit {int(ctx.rng.integers(0, 3))}\n'
    prog = os.path.join(d, 'links')
    with open(prog, 'w') as f:
        f.write(body)
    os.chmod(prog, 0o755)
    sim = LinksSimulator(prog, 'infinitesimal', 'plane_strain')
    ctx.state(how, name)
    if how in ('no-directory', 'no-screen'):
        ctx.raises('missing', lambda: sim.run_links_simulation(dat),
                   RuntimeError, how)
        ctx.event('run-missing')
    else:
        got = sim.run_links_simulation(dat)
        ctx.same('status', (bool(got[0]), got[1]), (how == 'success', out),
                 f'{how} {name}')
        ctx.event('run-success' if how == 'success' else 'run-failure')
    with open(os.path.join(d, 'args')) as f:
        ctx.same('command', f.read().strip(), dat, how)


# ------------------------------------------------------------------- results
def rand_results(ctx, d, n_node, n_time, name, first=0):
    """Write node results; data (n_time, n_node, 18)."""
    rng = ctx.rng
    nd = os.path.join(d, name, 'NODE_DATA')
    os.makedirs(nd)
    A = rng.standard_normal((n_time, n_node, 18))*10**rng.uniform(-6, 6)
    A[:, :, 0] = np.arange(1, n_node + 1)
    for t in rng.permutation(n_time):
        np.savetxt(os.path.join(nd, f'{name}_tstep_{t + first}.nodedata'),
                   A[t], fmt='%d' + ' %.16e'*17)
    for x in ('notes.txt', f'{name}_tstep_3.vtk', 'other_tstep_1.nodedata'):
        with open(os.path.join(nd, x), 'w') as f:
            f.write('1 2 3\n')
    return A


def rel(ctx, rule, got, want, msg):
    got = np.asarray(got, float)
    ctx.ok(rule, got.shape == want.shape and
           np.all(np.abs(got - want) <= 1e-12*np.abs(want)),
           f'{msg}: got {got} want {want}')


def results(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    name = str(rng.choice(['case', 'patch_12', 'a0']))
    n_time, n_node = ctx.size(1, 25, 140), ctx.size(2, 30, 300)
    A = rand_results(ctx, d, n_node, n_time, name, int(rng.integers(0, 3)))
    out = os.path.join(d, name)
    gd = os.path.join(out, 'GLOBAL_DATA')
    os.makedirs(gd)
    k = int(rng.integers(1, 6))
    G = rng.standard_normal((n_time, k))
    for t in rng.permutation(n_time):
        np.savetxt(os.path.join(gd, f'{name}_tstep_{t}.globaldata'),
                   G[t:t + 1], fmt='%.16e')
    sim = LinksSimulator('/x', 'infinitesimal', 'plane_strain')
    keys = [('node_data',), ('global_data',), ('node_data', 'global_data'),
            ()][int(rng.integers(4))]
    R = sim.read_links_simulation_results(out, keys)
    tag = f'{name} {n_time} times, {n_node} nodes, {keys}'
    ctx.same('results', sorted(R), sorted(keys), tag)
    if 'node_data' in keys:
        ctx.same('results', R['node_data'], np.moveaxis(A, 0, 2), tag)
        ctx.event('results')
        ctx.state(n_time > 10, n_node, k)
    if 'global_data' in keys:
        ctx.same('results', R['global_data'], G.T[None], tag)
    ctx.raises('missing', lambda: sim.read_links_simulation_results(
        os.path.join(d, 'absent'), keys), RuntimeError, 'missing results')
    # Node data as .csv, one file per time step in order
    csv = links_node_output_to_csv(out)
    ctx.event('csv')
    ctx.same('csv', len(os.listdir(csv)), n_time, tag)
    cols = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3']
    for t in range(n_time):
        df = pandas.read_csv(os.path.join(csv, f'{name}_tstep_{t}.csv'))
        ctx.same('csv', list(df.columns), cols, tag)
        rel(ctx, 'csv', df.values,
            A[t][:, [0, 3, 4, 5, 6, 7, 8, 15, 16, 17]], f'{tag}: time {t}')


# --------------------------------------------------------------- conversions
def write_dat(ctx, path, name, X, conn, dbc, words):
    rng = ctx.rng
    typ, ng = LINKS[name]
    with open(path, 'w') as f:
        f.write('TITLE\nsome title\n\nANALYSIS_TYPE 6\n\nELEMENT_GROUPS 1\n'
                f'1 1 1\n\nELEMENT_TYPES 1\n1 {typ}\n  {ng} GP\n\n')
        f.write(f'MATERIALS 1\n1 ELASTIC\n  0.0\n  1.0 0.3\n\n'
                f'ELEMENTS {len(conn)}\n')
        for e in range(1, len(conn) + 1):
            f.write(f'{e:>3d}  1  ' + ' '.join(str(n) for n in conn[str(e)])
                    + '\n')
        f.write(f'\nNODE_COORDINATES {len(X)} CARTESIAN\n')
        for i, x in enumerate(X):
            f.write(f'{i + 1} ' + ' '.join(f'{v:16.8e}' for v in x) + '\n')
        key = 'NODES_WITH_PRESCRIBED_DISPLACEMENTS'
        f.write(f'\n{key} {len(dbc)}\n')
        for n, (code, val) in dbc.items():
            f.write(f'  {n} ' + ''.join(str(c) for c in code) + ' '
                    + ' '.join(f'{v:16.8e}' for v in val) + '\n')
        if words:
            f.write('\nNODE_GROUPS 1\n1 2\n1\n2\n')


def rand_mesh(ctx):
    rng = ctx.rng
    name = str(rng.choice(list(LINKS)))
    d = fem.DIM[name]
    div = tuple(int(rng.integers(1, 4 if d == 2 else 3)) for _ in range(d))
    X, conn = fem.grid_mesh(rng, name, div, size=10**rng.uniform(-2, 2))
    dbc = {}
    for i in rng.permutation(len(X))[:int(rng.integers(1, len(X) + 1))]:
        code = [int(rng.integers(2)) for _ in range(3)]
        val = [float(rng.choice([0, rng.standard_normal()])) if c else 0.
               for c in code]
        dbc[int(i) + 1] = (code, val)
    return name, d, X, conn, dbc


def check_inp(ctx, path, name, X, conn, dbc, tag):
    I = read_inp(path)
    ctx.same('element-type', I['type'], ABAQUS[name], tag)
    ctx.same('nodes', sorted(I['node']), list(range(1, len(X) + 1)), tag)
    for i, x in enumerate(X):
        ctx.close('coordinates', I['node'][i + 1], x, rtol=DIG,
                  scale=abs(X).max(), msg=f'{tag}: node {i + 1}')
    ctx.same('connectivities', I['elem'], {int(k): list(v) for k, v in
                                           conn.items()}, tag)
    want = {(n, j + 1): v for n, (c, u) in dbc.items()
            for j, v in enumerate(u) if c[j]}
    ctx.same('constraints', sorted(I['dbc']), sorted(want), tag)
    for k, v in want.items():
        ctx.close('constraints', I['dbc'][k], v, rtol=DIG, atol=1e-12,
                  msg=f'{tag}: {k}')


def convert(ctx):
    rng = ctx.rng
    name, d, X, conn, dbc = rand_mesh(ctx)
    tmp = ctx.tmpdir()
    dat = os.path.join(tmp, 'case.dat')
    write_dat(ctx, dat, name, X, conn, dbc, rng.random() < .5)
    tag = f'{name} {len(X)} nodes'
    ctx.state(name, len(X), len(dbc))
    inp = links_dat_to_abaqus_inp(dat)
    ctx.event('dat-inp')
    ctx.same('path', inp, os.path.join(tmp, 'case.inp'), tag)
    check_inp(ctx, inp, name, X, conn, dbc, tag)
    # And back
    abaqus_inp_to_links_dat(inp, n_dim=d)
    back = os.path.join(tmp, 'case_links.dat')
    D = {}
    with open(back) as f:
        mesh(f.read().split('\n'), D)
    ctx.event('inp-dat')
    counts(ctx, D, f'{tag}: back')
    ctx.same('connectivities', {k: v[1] for k, v in D['elem'].items()},
             {int(k): list(v) for k, v in conn.items()}, f'{tag}: back')
    ctx.close('coordinates', np.array([D['node'][i + 1]
                                       for i in range(len(X))]), X,
              rtol=2*DIG, scale=abs(X).max(), msg=f'{tag}: back')
    want = {n: v for n, v in dbc.items() if any(v[0])}
    ctx.same('constraints', {n: v[0] for n, v in D['dbc'].items()},
             {n: v[0] for n, v in want.items()}, f'{tag}: back')
    for n, (_, val) in want.items():
        ctx.close('constraints', D['dbc'][n][1], np.array(val), rtol=2*DIG,
                  atol=1e-12, msg=f'{tag}: back, node {n}')
    ctx.raises('missing', lambda: links_dat_to_abaqus_inp(
        os.path.join(tmp, 'absent.dat')), RuntimeError, 'missing file')


def handwritten(ctx):
    """Mesh file written by others: dof ranges, several blocks."""
    rng = ctx.rng
    name, d, X, conn, _ = rand_mesh(ctx)
    tmp = ctx.tmpdir()
    inp = os.path.join(tmp, 'mesh.inp')
    want = {}
    rows = []
    for i in rng.permutation(len(X))[:int(rng.integers(1, len(X) + 1))]:
        a = int(rng.integers(1, d + 1))
        b = int(rng.integers(a, d + 1))
        v = float(rng.choice([0., rng.standard_normal()]))
        rows.append((int(i) + 1, a, b, v))
        if rng.random() < .3 and a > 1:
            rows.append((int(i) + 1, 1, a - 1, v + 1.))
    for n, a, b, v in rows:
        if b > a:
            ctx.event('dof-range')
        for k in range(a, b + 1):
            want.setdefault(n, {})[k] = v
    cut = sorted(int(x) for x in rng.integers(0, len(rows) + 1, 2))
    blocks = [r for r in (rows[:cut[0]], rows[cut[0]:cut[1]], rows[cut[1]:])
              if r]
    kw = [str(rng.choice(x)) for x in (('*Node', '*NODE'),
                                       ('*Element', '*ELEMENT'),
                                       ('*Boundary', '*BOUNDARY'))]
    with open(inp, 'w') as f:
        f.write('*Heading\nmesh\n')
        f.write(f'{kw[0]}\n')
        for i, x in enumerate(X):
            f.write(f'{i + 1}, ' + ', '.join(f'{v:.12e}' for v in x) + '\n')
        f.write(f'{kw[1]}, type={ABAQUS[name]}\n')
        for e in range(1, len(conn) + 1):
            f.write(f'{e}, ' + ', '.join(str(n) for n in conn[str(e)])
                    + '\n')
        for b in blocks:
            if rng.random() < .5:
                f.write('*Nset, nset=a\n1, 2\n')
            f.write(f'{kw[2]}\n')
            for r in b:
                f.write('{}, {}, {}, {:.12e}\n'.format(*r))
        f.write('*End Step\n')
    abaqus_inp_to_links_dat(inp, n_dim=d)
    D = {}
    with open(os.path.join(tmp, 'mesh_links.dat')) as f:
        mesh(f.read().split('\n'), D)
    ctx.event('handwritten')
    tag = f'{name} {len(X)} nodes, blocks {[len(b) for b in blocks]}'
    ctx.state('hand', name, len(X), len(blocks))
    counts(ctx, D, tag)
    ctx.same('connectivities', {k: v[1] for k, v in D['elem'].items()},
             {int(k): list(v) for k, v in conn.items()}, tag)
    ctx.close('coordinates', np.array([D['node'][i + 1]
                                       for i in range(len(X))]), X,
              rtol=DIG, scale=abs(X).max(), msg=tag)
    ctx.same('constraints', {n: list(v[0]) for n, v in D['dbc'].items()},
             {n: [int(k in v) for k in (1, 2, 3)] for n, v in want.items()},
             tag)
    for n, v in want.items():
        ctx.close('constraints', np.array(D['dbc'][n][1])[:3], np.array(
            [v.get(k, 0.) for k in (1, 2, 3)]), rtol=DIG, atol=1e-12,
            msg=f'{tag}: node {n}')


def adimu(ctx):
    rng = ctx.rng
    name, d, X, conn, dbc = rand_mesh(ctx)
    tmp = ctx.tmpdir()
    save = ctx.tmpdir()
    case = str(rng.choice(['case', 'patch_1']))
    dat = os.path.join(tmp, case + '.dat')
    write_dat(ctx, dat, name, X, conn, dbc, False)
    n_time = ctx.size(1, 14, 120)
    A = rand_results(ctx, tmp, len(X), n_time, case, int(rng.integers(2)))
    tag = f'{name} {len(X)} nodes {n_time} times'
    ctx.event('adimu')
    ctx.state(name, len(X), n_time)
    for rep in range(2):
        # A second conversion replaces the first
        inp, hist = gen_adimu_data_from_links(
            dat, os.path.join(tmp, case), save)
        ctx.same('path', inp, os.path.join(save, case + '.inp'), tag)
        check_inp(ctx, inp, name, X, conn, dbc, tag)
        ctx.same('history', sorted(os.listdir(hist)),
                 sorted(f'{case}_tstep_{t}.csv' for t in range(n_time)), tag)
    codes = np.zeros((len(X), 3), int)
    for n, (c, _) in dbc.items():
        codes[n - 1] = c
    check_hist(ctx, hist, case, A, codes, tag)
    ctx.event('pointwise')
    got = generate_pointwise_sets(len(X),
                                  extract_mesh_dirichlet_from_links_data(dat))
    ctx.same('pointwise', got, codes, tag)
    # New constraints replace those stored and nothing else
    new = rng.integers(0, 4, codes.shape)
    update_adimu_mesh_hist_data_files_dirichlet(
        tuple(os.path.join(hist, f'{case}_tstep_{t}.csv')
              for t in range(n_time)), new)
    check_hist(ctx, hist, case, A, new, f'{tag}: updated')
    ctx.event('update-dbc')
    absent = os.path.join(tmp, 'absent')
    for args in ((absent, os.path.join(tmp, case), save),
                 (dat, absent, save), (dat, os.path.join(tmp, case),
                                       absent)):
        ctx.raises('missing', lambda: gen_adimu_data_from_links(*args),
                   RuntimeError, 'missing data')


def check_hist(ctx, hist, case, A, codes, tag):
    cols = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3',
            'DBC1', 'DBC2', 'DBC3']
    for t in range(len(A)):
        df = pandas.read_csv(os.path.join(hist, f'{case}_tstep_{t}.csv'))
        ctx.same('history', list(df.columns), cols, f'{tag}: time {t}')
        rel(ctx, 'history', df.values[:, :10],
            A[t][:, [0, 3, 4, 5, 6, 7, 8, 15, 16, 17]], f'{tag}: time {t}')
        ctx.same('constraints', df.values[:, 10:].astype(int), codes,
                 f'{tag}: time {t}')


# ------------------------------------------------------------------ specimen
def specimen(ctx):
    rng = ctx.rng
    label = str(rng.choice(['3d_tensile_double_notched',
                            '3d_tensile_dogbone']))
    top = float(10**rng.uniform(0, 2))
    disp = float(rng.choice([-1, 1])*10**rng.uniform(-3, 1))
    g = [np.linspace(0, top*rng.uniform(.2, .6), int(rng.integers(2, 4))),
         np.linspace(0, top, int(rng.integers(2, 5))),
         np.linspace(0, top*rng.uniform(.1, .3), int(rng.integers(2, 4)))]
    X = np.array([[x, y, z] for x in g[0] for y in g[1] for z in g[2]])
    X = X[rng.permutation(len(X))]
    tmp = ctx.tmpdir()
    dat = os.path.join(tmp, 'mesh.dat')
    with open(dat, 'w') as f:
        f.write(f'TITLE\nx\n\nNODE_COORDINATES {len(X)} CARTESIAN\n')
        for i, x in enumerate(X):
            f.write(f'{i + 1} ' + ' '.join(f'{v:.16e}' for v in x) + '\n')
        f.write('\nEND\n')
    Y = read_links_nodes_coords_mesh(dat)
    ctx.close('coordinates', Y, X, rtol=1e-14, scale=top, msg=label)
    B = build_specimen_dbc(label, top, disp, Y)
    got = {int(r[0]): (r[1:4].astype(int).tolist(), r[4:7]) for r in B}
    tag = f'{label} top={top} disp={disp}'
    # One eighth of a specimen: symmetry planes x=0, y=0 and z=0, the top
    # face moves by the prescribed displacement
    loaded = []
    want = {}
    for i, x in enumerate(X):
        code = [int(abs(x[0]) < 1e-8), int(abs(x[1]) < 1e-8),
                int(abs(x[2]) < 1e-8)]
        u = np.zeros(3)
        if abs(x[1] - top) < 1e-8:
            code[1], u[1] = 1, disp
            loaded.append(i + 1)
        if any(code):
            want[i + 1] = (code, u)
    ctx.same('specimen', sorted(got), sorted(want), tag)
    for n in want:
        ctx.same('specimen', got[n][0], want[n][0], f'{tag}: {X[n - 1]}')
        ctx.same('specimen', got[n][1], want[n][1], f'{tag}: {X[n - 1]}')
    ctx.event('specimen-dbc')
    ctx.event('negative' if disp < 0 else 'positive')
    ctx.state(label, len(X), disp < 0)
    group = bool(rng.random() < .8)
    write_links_dirichlet_bc_file(tmp, B, is_reaction_group=group)
    with open(os.path.join(tmp, 'specimen_dirichlet_bc.dat')) as f:
        lines = f.read().split('\n')
    h, b = section(lines, 'NODES_WITH_PRESCRIBED_DISPLACEMENTS')
    ctx.same('specimen-file', (int(h[0]), len(b)), (len(want),)*2, tag)
    D = extract_mesh_dirichlet_from_links_data(
        os.path.join(tmp, 'specimen_dirichlet_bc.dat'))
    ctx.same('specimen-file', sorted(int(k) for k in D), sorted(want), tag)
    for n, (code, u) in want.items():
        ctx.same('specimen-file', sorted(D[str(n)]),
                 [str(j + 1) for j in range(3) if code[j]], tag)
        for j in range(3):
            if code[j]:
                ctx.close('specimen-file', D[str(n)][str(j + 1)], u[j],
                          rtol=1e-4, atol=1e-300,
                          msg=f'{tag}: node {n} dof {j}')
    has = any(x.split()[:1] == ['NODE_GROUPS'] for x in lines)
    ctx.same('reaction-group', has, group, tag)
    if group:
        _, b = section(lines, 'NODE_GROUPS')
        ctx.same('reaction-group', b[0].split(), ['1', str(len(loaded))],
                 tag)
        ctx.same('reaction-group', sorted(int(x) for x in b[1:]),
                 sorted(loaded), tag)
    ctx.raises('refused', lambda: build_specimen_dbc('other', top, disp, Y),
               RuntimeError, 'unknown specimen')


def gauss(ctx):
    """Gauss point output files: engineering shear strain is halved."""
    rng = ctx.rng
    tmp = ctx.tmpdir()
    paths, want = [], []
    dt = torch.float64 if rng.random() < .5 else torch.float32
    torch.set_default_dtype(dt)
    for i in range(int(rng.integers(1, 4))):
        n = int(rng.integers(2, 12))
        A = rng.standard_normal((n, 65))
        A[:, 0] = np.arange(n)
        p = os.path.join(tmp, f'case_ELEM_{i}_GP_1.out')
        with open(p, 'w') as f:
            f.write('some header line\n')
            f.write(' '.join(f'c{k}' for k in range(65)) + '\n')
            for r in A:
                f.write(' '.join(f'{v:.16e}' for v in r) + '\n')
        paths.append(p)
        e = A[:, 53:59].copy()
        e[:, 3:] *= .5
        want.append((A[:, :1], e, A[:, 11:17]))
    ds = out_dataset(tuple(paths), 3)
    ctx.same('gauss-path', len(ds), len(want))
    tol = 1e-14 if dt == torch.float64 else 1e-6
    comps = ('11', '22', '33', '12', '23', '13')
    for i, (t, e, s) in enumerate(want):
        r = ds[i]
        ctx.same('gauss-path', (tuple(r['strain_comps_order']),
                                tuple(r['stress_comps_order'])),
                 (comps, comps))
        for k, w in (('time_hist', t), ('strain_path', e),
                     ('stress_path', s)):
            ctx.ok('gauss-path', r[k].dtype == dt, k)
            ctx.close('gauss-path', r[k].double().numpy(), w, rtol=tol,
                      scale=max(1., abs(w).max()), msg=f'{k} of {i}')
    ctx.event('gauss-path')
    ctx.state(len(want), str(dt))
    ctx.raises('missing', lambda: out_dataset((os.path.join(tmp, 'q'),), 3),
               RuntimeError, 'missing file')


def cases(tier):
    k = 12 if tier == 'thorough' else 1
    out = [('input_file', {'d': 2})]*(90*k) + \
        [('input_file', {'d': 3})]*(60*k)
    out += [('input_file', {'d': 2, 'big': True}),
            ('input_file', {'d': 3, 'big': True})]*k
    out += [('materials', {})]*(15*k)
    for how in ('success', 'failure', 'empty', 'no-directory', 'no-screen'):
        out += [('run', {'how': how})]*(4*k)
    out += [('results', {})]*(30*k) + [('convert', {})]*(50*k)
    out += [('handwritten', {})]*(30*k)
    out += [('adimu', {})]*(30*k) + [('specimen', {})]*(30*k)
    out += [('gauss', {})]*(15*k)
    return out
