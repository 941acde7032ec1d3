"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

F = 'src/hookeai/simulators/fetorch/'
M = 'src/hookeai/model_architectures/'
D = 'src/hookeai/time_series_data/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         note, technique):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w)
                                          for n, w in mech],
                               observe_at=observe, hook_needed=None),
                  _note=note, _tech=technique))


prop('C01', 'Compact tensor storage is faithful',
     'Storing a second- or fourth-order tensor in matricial or Voigt form and '
     'recovering it returns the same tensor for every component order, with '
     'or without Kelvin weights, directly or through vectorised mapping. '
     'Stored products equal the tensor products they stand for (norms, double '
     'contractions, stress power), and 2D/3D embedding and restriction keep '
     'exactly the in-plane components.',
     ['inputs', 'configurations'],
     'all tensors, component orders, precisions and batch shapes',
     'Existing tests convert one or two fixed arrays; a wrong weight or index '
     'for one component order, precision or batch is invisible to them.',
     [F + 'math/matrixops.py', F + 'math/voigt_notation.py'],
     [('matricial form conversions', F + 'math/matrixops.py'),
      ('Voigt conversions', F + 'math/voigt_notation.py')],
     ['values returned by the conversion functions'],
     'Round trips and products of random tensors compared with explicit '
     'component loops in float64 numpy; CPU only.',
     'runtime monitor: reference oracle on random tensors')

prop('C02', 'Tensor algebra follows its index definitions',
     'Every tensor operator (dyadic products, contractions, traces, '
     'transposes, projections, identities, derivative of the inverse) '
     'returns the value of its index definition for any tensors, in 2D and '
     '3D, singly or in batches, and leaves its arguments unchanged.',
     ['inputs', 'configurations'], 'all tensors, dimensions and precisions',
     'No existing test covers most operators; symmetric sample inputs hide '
     'swapped indices.',
     [F + 'math/tensorops.py'], [('operators', F + 'math/tensorops.py')],
     ['values returned by the operators'],
     'Dense random non-symmetric tensors against explicit index sums; CPU '
     'only.', 'runtime monitor: reference oracle on random tensors')

prop('C03', 'Elastic stiffness matches the declared symmetry',
     'For every supported elastic symmetry the stiffness built from the '
     'independent moduli is the fourth-order tensor with exactly those '
     'moduli: symmetric, invariant under the symmetry group of the material, '
     'and independent of how moduli are named or ordered. Linear elastic '
     'stress is that stiffness applied to the total strain after any history '
     'of increments, in plane strain and in 3D.',
     ['inputs', 'histories', 'configurations'],
     'all admissible moduli, spellings, strain histories',
     'No existing test builds an anisotropic stiffness or follows a history.',
     [F + 'material/models/standard/elastic.py',
      F + 'material/material_su.py'],
     [('stiffness builder', F + 'material/models/standard/elastic.py')],
     ['stiffness matrices and material states returned'],
     'Independent 4th-order tensors and symmetry-group rotations; CPU only.',
     'runtime monitor: reference oracle on random moduli and histories')

prop('C04', 'Hardening laws return curve and true slope',
     'A hardening law returns, for any accumulated plastic strain, the yield '
     'stress of its curve and the derivative of that curve there, continuous '
     'and non-decreasing for hardening parameters, constant beyond a '
     'tabulated range. Scalars, batches and automatic differentiation agree, '
     'and malformed data is rejected when checking is requested.',
     ['inputs', 'configurations'],
     'all parameters and plastic strains, including the tabulated points, '
     'zero, and values outside the table',
     'No existing test evaluates a hardening law.',
     [F + 'material/models/standard/hardening.py',
      'src/hookeai/utilities/type_conversion.py'],
     [('hardening laws', F + 'material/models/standard/hardening.py')],
     ['returned yield stress and slope'],
     'Closed forms, finite differences and autograd; CPU only.',
     'runtime monitor: reference oracle and finite differences')

prop('C05', 'Plastic steps satisfy the Kuhn-Tucker conditions',
     'After every successful state update the stress lies inside or on the '
     'current yield surface; a step is elastic (no plastic flow, no '
     'hardening) exactly when the trial stress is admissible, and otherwise '
     'the stress is on the surface, the plastic strain increment follows the '
     'declared flow rule and the accumulated plastic strain grows by the '
     'matching amount. Back-stress stays deviatoric and evolves with the '
     'kinematic hardening curve, and pressure-sensitive models return to the '
     'apex only when the cone cannot be reached. Steps of ordinary '
     'materials are solved, not flagged as failed.',
     ['histories', 'inputs', 'configurations'],
     'all strain histories and materials of the plastic models, standard and '
     'vectorised, plane strain and 3D',
     'No existing test runs a plastic step; defects appear only on particular '
     'histories (unloading, reversal, apex, large steps).',
     [F + 'material/models/standard/von_mises.py',
      F + 'material/models/standard/von_mises_mixed.py',
      F + 'material/models/standard/drucker_prager.py',
      F + 'material/models/standard/lou.py', F + 'material/models/vmap/'],
     [('return mapping', F + 'material/models/')],
     ['every material state produced along a history'],
     'Every step of hostile random histories is judged from returned states '
     'only, with independent yield functions and flow directions; one known '
     'finding (Lou apex window).',
     'runtime monitor: trace checker over strain histories')

prop('C06', 'State updates are pure, additive and honest about failure',
     'A material state update adds the strain increment to the total strain, '
     'keeps stress equal to the elastic law applied to the elastic strain, '
     'changes none of its inputs nor the session precision, depends on '
     'nothing but its arguments, and returns entries of the same names, '
     'shapes and precision. A null increment changes nothing, and whenever '
     'the result is not finite the state is flagged as failed.',
     ['histories', 'inputs', 'fault_sequences'],
     'all histories, interleavings of histories on one model, and corrupted '
     'increments',
     'Purity and failure reporting depend on call history and on faults that '
     'tests never inject.',
     [F + 'material/material_su.py', F + 'material/models/'],
     [('state update driver', F + 'material/material_su.py')],
     ['inputs before and after, outputs of every update'],
     'Bitwise snapshots, interleaving, replay, injected NaN/inf increments.',
     'runtime monitor: state snapshots, replay and fault injection')

prop('C07', 'Returned tangent is the derivative of the stress',
     'Wherever a constitutive model returns a tangent, it is the derivative '
     'of the returned stress with respect to the strain increment of that '
     'step, in elastic, plastic and apex steps.',
     ['histories', 'inputs', 'configurations'],
     'all differentiable steps of all histories',
     'A wrong tangent changes no stress, so value tests never see it.',
     [F + 'material/models/'], [('consistent tangents',
                                 F + 'material/models/')],
     ['tangent and stress of every step and of perturbed steps'],
     'Central and one-sided difference quotients of the real update; kinks '
     'excluded.', 'runtime monitor: finite-difference oracle on histories')

prop('C08', 'Vectorised models equal the standard ones',
     'The vectorised constitutive models produce the same states, flags and '
     'tangents as the standard ones on every history, and a batch of points '
     'gives each point exactly what it would get alone, whatever branches '
     'the other points take.',
     ['histories', 'inputs', 'configurations'],
     'all histories, batch compositions and precisions',
     'Requires mixed-branch batches along histories; tests run neither '
     'variant.',
     [F + 'material/models/standard/', F + 'material/models/vmap/'],
     [('vectorised return mapping', F + 'material/models/vmap/')],
     ['states of both variants'],
     'Differential runs; knife-edge steps within 1e-4 of the yield surface '
     'skipped.', 'runtime monitor: differential execution')

prop('C09', 'Isotropy and plane strain as restricted 3D',
     'Rotating, reflecting or relabelling the axes of a strain history '
     'rotates the stresses and internal variables of every isotropic model '
     'and leaves scalars unchanged. Plane strain gives exactly the in-plane '
     'and out-of-plane results of the 3D model with zero out-of-plane '
     'strain.',
     ['histories', 'inputs', 'configurations'],
     'all rotations, histories and models',
     'Metamorphic relations over histories; no test relates two runs.',
     [F + 'material/models/', F + 'material/material_su.py'],
     [('2D/3D state conversion', F + 'math/matrixops.py')],
     ['states of both runs'], 'Paired runs compared after rotating back.',
     'runtime monitor: metamorphic trace comparison')

prop('C10', 'Shape functions and quadrature rules are exact',
     'Each finite element type interpolates: its shape functions are one at '
     'their node and zero at the others, sum to one and reproduce the full '
     'polynomial space of the element at every point, and the supplied local '
     'derivatives are their derivatives. Every quadrature rule integrates '
     'exactly the polynomials its order promises, with points inside the '
     'domain and positive weights, and unknown rules are refused.',
     ['inputs', 'configurations'],
     'all elements, rules, local points and precisions',
     'The existing test checks sums at one random point, which scaled or '
     'swapped derivatives and wrong quadrature points survive.',
     [F + 'element/type/'], [('element types', F + 'element/type/'),
                             ('quadratures',
                              F + 'element/type/quadratures.py')],
     ['returned values and derivatives'],
     'Vandermonde references built from node coordinates; all monomials of '
     'the promised degree.', 'runtime monitor: reference oracle')

prop('C11', 'Isoparametric gradients and strains are exact',
     'For every valid element geometry the Jacobian, its determinant and the '
     'shape function gradients are those of the isoparametric map, affine '
     'displacement fields give their exact gradient and translations none, '
     'and inverted or degenerate elements are refused when checked. The '
     'discrete gradient operators and Voigt forms, plain or vectorised and '
     'for any component order, turn nodal displacements into the strain and '
     'conserve stress power.',
     ['inputs', 'configurations'],
     'all element geometries, displacement fields and component orders',
     'Existing tests use one regular geometry per routine.',
     [F + 'element/derivatives/', F + 'math/voigt_notation.py'],
     [('jacobian', F + 'element/derivatives/jacobian.py'),
      ('gradients', F + 'element/derivatives/gradients.py')],
     ['returned operators'],
     'Random distorted elements against independent numpy references.',
     'runtime monitor: reference oracle on random geometries')

prop('C12', 'Element internal forces balance and do the right work',
     'The internal forces of an element are the exact work conjugates of its '
     'stresses: their virtual work equals the stress power at the '
     'integration points, their resultant force and moment vanish, and rigid '
     'motions create none. Each integration point evolves exactly as an '
     'isolated material point under its own strain increment, earlier states '
     'are left unchanged, and an affinely deformed mesh is in equilibrium at '
     'its interior nodes.',
     ['histories', 'inputs', 'configurations'],
     'all elements, rules, materials and displacement histories',
     'No existing test evaluates internal forces.',
     [F + 'element/integrations/internal_forces.py'],
     [('element integration',
       F + 'element/integrations/internal_forces.py')],
     ['forces and states returned on every step'],
     'Independent integration, virtual work, patch test along plastic '
     'histories.', 'runtime monitor: conservation checks on histories')

prop('C13', 'Mesh and material state bookkeeping is consistent',
     'After any sequence of updates a mesh reports the initial, last and '
     'current coordinates and displacements it was given, per node and per '
     'element, and element material states are those last stored for that '
     'element and time, unaffected by later changes to data handed in or '
     'out. Assembly adds every element contribution to its nodes exactly '
     'once, extraction is its transpose, and inconsistent meshes are '
     'refused.',
     ['histories', 'inputs', 'configurations'],
     'all operation sequences, numberings and element types',
     'Existing tests assemble one fixed mesh and never interleave updates.',
     [F + 'structure/structure_mesh.py', F + 'structure/structure_state.py'],
     [('mesh', F + 'structure/structure_mesh.py'),
      ('material states', F + 'structure/structure_state.py')],
     ['all getters after every operation'],
     'Model-based monitor over random operation histories.',
     'runtime monitor: model-based history checker')


def more():
    import importlib.util
    here = os.path.dirname(os.path.abspath(__file__))
    f = os.path.join(here, 'props_more.py')
    if os.path.exists(f):
        src = open(f).read()
        exec(compile(src, f, 'exec'), globals())


def main():
    more()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            q = {k: v for k, v in p.items() if not k.startswith('_')}
            f.write(json.dumps(q) + '\n')
    man = {'version': 1, 'setup_cmd': 'true', 'checks': [
        {'property': p['id'],
         'quick_cmd': f'bash check.sh {p["id"]} quick',
         'thorough_cmd': f'bash check.sh {p["id"]} thorough',
         'evidence_file': f'evidence/{p["id"]}.json',
         'technique': p['_tech'], 'level': 'exploration',
         'level_note': p['_note']} for p in P], 'not_applicable': NA}
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


NA = []
if __name__ == '__main__':
    main()
