# executed by props.py
RC = M + 'rc_base_model/model/'
prop('C14', 'A recurrent constitutive model is the material it wraps',
     'A recurrent constitutive model maps a strain path to exactly the '
     'stresses, and requested state features, that updating its material '
     'model step by step along that path gives, for every material, path, '
     'problem dimension, batch and normalisation setting, in its plain and '
     'vectorised forms, without depending on earlier predictions or on the '
     'other paths of a batch.',
     ['histories', 'inputs', 'configurations'],
     'all materials, strain paths, batches and model options',
     'No existing test predicts a path with a recurrent constitutive model.',
     [RC + 'recurrent_model.py'],
     [('prediction', RC + 'recurrent_model.py')],
     ['predicted feature paths'],
     'Predictions compared with direct state updates of the same material.',
     'runtime monitor: differential trace checker')

prop('C15', 'Learnable material parameters act, stay admissible and learn',
     'The learnable parameters of a recurrent constitutive model are the '
     'values its predictions use: changing one changes the response to that '
     'of a material built with the new value, normalised values map to and '
     'from physical ones, bounds and the admissibility constraints of the '
     'yield surfaces are enforced without touching admissible values, and '
     'back-propagated gradients are finite and equal the change of the '
     'response, including at steps without strain.',
     ['histories', 'inputs', 'configurations'],
     'all parameter subsets, values, histories of changes and strain paths',
     'No existing test changes a parameter or differentiates a response.',
     [RC + 'recurrent_model.py', F + 'material/models/'],
     [('parameter synchronisation', RC + 'recurrent_model.py'),
      ('differentiable state updates', F + 'material/models/')],
     ['parameters, predictions and gradients'],
     'Changed models compared with materials built with the values; '
     'gradients with central differences, away from kinks.',
     'runtime monitor: differential trace checker with gradient oracle')

FD = 'src/hookeai/material_model_finder/'
prop('C16', "The finder's loss is the force imbalance of the specimen",
     'For every specimen (mesh, element type, materials, displacement and '
     'reaction history, boundary conditions) the loss of the material model '
     'finder is the weighted, scaled sum of squared differences between the '
     'internal forces of its materials and the measured reactions, node by '
     'node or per Dirichlet set, identically in each forward propagation '
     'mode it accepts; it vanishes at equilibrium, its gradients follow the '
     'change of the loss, parameter bounds are enforced, and the recorded '
     'loss components and local strain-stress paths are those of the '
     'physical response, also for normalised neural materials.',
     ['histories', 'inputs', 'configurations'],
     'all specimens, materials, loss options and propagation modes',
     'No existing test evaluates the loss of a specimen.',
     [FD + 'model/material_discovery.py', FD + 'data/specimen_data.py',
      F + 'structure/', F + 'element/'],
     [('forward propagation and loss', FD + 'model/material_discovery.py'),
      ('specimen history', FD + 'data/specimen_data.py'),
      ('element materials', F + 'structure/structure_state.py')],
     ['loss, components, gradients and stored local paths'],
     'Independent numpy integration and assembly drives one material point '
     'per integration point.',
     'runtime monitor: differential trace checker against an independent '
     'assembly')

PR = M + 'procedures/'
HY = M + 'hybrid_base_model/model/'
RN = M + 'rnn_base_model/'
UT = 'src/hookeai/utilities/'
prop('C17', 'Feature scaling is the fitted affine map and is undone exactly',
     'A data scaler fitted to data, or given its statistics, maps features '
     'to the promised range or to zero mean and unit deviation, feature by '
     'feature and sample by sample, inverts that map, keeps shape, precision '
     'and input, and stays finite for constant features; statistics fitted '
     'from a data set are those of all time steps of all its samples in any '
     'container, and the scalers of a model survive writing and reading it.',
     ['inputs', 'histories', 'configurations'],
     'all feature tables, magnitudes, shapes, containers and fitting routes',
     'No existing test scales a feature.',
     [UT + 'data_scalers.py', UT + 'fit_data_scalers.py',
      PR + 'model_data_scaling.py'],
     [('scalers', UT + 'data_scalers.py'),
      ('fitting', UT + 'fit_data_scalers.py'),
      ('model scalers', PR + 'model_data_scaling.py')],
     ['statistics and transformed features'],
     'Statistics and transforms recomputed in double precision.',
     'runtime monitor: online oracle on recorded transforms')

prop('C18', 'Network and hybrid models compute the composition they describe',
     'A recurrent network model, native or custom, computes the gated '
     'recurrent unit equations with a linear read-out for every size, batch, '
     'length and initial hidden state, causally, without memory between '
     'calls and without mixing samples; a hybrid model chains its models per '
     'channel in index order, with residual inputs, scaling and additive or '
     'identity combination as declared; its elastic, volumetric-deviatoric '
     'and polynomial layers compute their laws without altering their '
     'input; and a model read back from its files has the same options, '
     'scalers and predictions.',
     ['inputs', 'histories', 'configurations'],
     'all architectures, orders of declaration, batches and sequences',
     'No existing test runs a neural or hybrid model.',
     [RN + 'model/gru_model.py', RN + 'custom/gru_vmap.py',
      HY + 'hybrid_model.py', HY + 'hybridized_layers.py',
      HY + 'transfer_learning.py', HY + 'hybridization.py'],
     [('gated recurrent units', RN + 'custom/gru_vmap.py'),
      ('hybrid composition', HY + 'hybrid_model.py'),
      ('layers', HY + 'hybridized_layers.py'),
      ('model files', RN + 'model/gru_model.py')],
     ['outputs, hidden states and reloaded models'],
     'Outputs compared with numpy recomputation from the weights.',
     'runtime monitor: differential trace checker')

TS = 'src/hookeai/time_series_data/'
prop('C19', 'Data set operations keep every sample and every feature',
     'Through any history of operations on a time series data set kept in '
     'memory or in files (relabel, add, concatenate, sum, remove, save and '
     'load, move, split, append) it holds exactly the samples and features '
     'those operations define, in order, value for value; untouched '
     'features and source data stay as they were, subsets partition the '
     'data set reproducibly under a seed, file-based and in-memory data '
     'sets behave alike, refused operations leave data and files unchanged, '
     'and data loaders deliver each sample once per pass.',
     ['histories', 'inputs', 'configurations'],
     'all operation sequences, containers, labels, shapes and split sizes',
     'No existing test builds a data set.',
     [TS + 'time_dataset.py'],
     [('containers and operations', TS + 'time_dataset.py')],
     ['samples, labels, files, subsets and batches after each operation'],
     'A plain list-of-dictionaries model is driven in lockstep.',
     'runtime monitor: stateful model-based trace checker')

prop('C20', 'Model state files are found, kept and restored as asked',
     'Over any history of saves, loads and removals in a model directory '
     'the state loaded is the one requested (best, last, a given epoch, '
     'initial or default), with the epoch it was saved at and the parameters '
     'and optimizer state it was saved with; at most one best state exists, '
     'only the posterior states a restart has to discard are removed, files '
     'of other models and other files are untouched, and a request for a '
     'state that does not exist is refused without changing anything.',
     ['histories', 'configurations'],
     'all sequences of saves and loads, names, epochs and directories',
     'No existing test saves a model.',
     [PR + 'model_state_files.py', M + 'procedures/model_training.py',
      RN + 'train/training.py'],
     [('model state files', PR + 'model_state_files.py'),
      ('training state', RN + 'train/training.py')],
     ['directory listing, loaded parameters and returned epochs'],
     'A dictionary of expected files and contents follows each history.',
     'runtime monitor: stateful model-based trace checker')

prop('C21', 'Training is the descent it reports and restarts faithfully',
     'For every model family, data set and training options, training is '
     'mini-batch descent on the stated loss of the (normalised) outputs '
     'over every sample once per epoch, with parameter bounds enforced and '
     'the learning rate schedule applied; the loss and learning rate '
     'histories, best loss and epoch, stopping epoch, validation history, '
     'state files and returned model are those of that descent, a seed '
     'makes it reproducible, a restart continues it, null targets do not '
     'corrupt it, and each fold of a cross-validation is trained and '
     'validated on complementary samples with its own scalers.',
     ['histories', 'configurations', 'inputs'],
     'all models, batch sizes, losses, schedules, stopping rules, restarts',
     'No existing test trains a model.',
     [RN + 'train/', M + 'rc_base_model/train/', M + 'hybrid_base_model/train/',
      PR, UT + 'loss_functions.py'],
     [('training loops', RN + 'train/training.py'),
      ('cross-validation', RN + 'train/cross_validation.py'),
      ('training procedures', PR)],
     ['order of samples, losses, histories, state files and parameters'],
     'An independent loop replays the training from the stored initial '
     'state and the recorded sample order.',
     'runtime monitor: offline replay of the recorded training trace')

DG = 'src/hookeai/data_generation/'
US = 'src/hookeai/user_scripts/'
prop('C22', 'Predictions and their metrics are those of the model asked for',
     'For every model family, stored state and data set, with or without '
     'ground-truth and for any batch size, a prediction stores for each '
     'sample exactly what the requested model state answers for that sample '
     'alone, with its loss computed as stated against its own ground-truth; '
     'the average loss is that of the samples, earlier prediction sets are '
     'kept, and the metrics, their files and the truth/prediction tables '
     'built from a prediction set (null ground-truth included) are those of '
     'the stored samples.',
     ['inputs', 'configurations'],
     'all models, states, data sets, batch sizes, losses and metrics',
     'No existing test makes a prediction.',
     [RN + 'predict/', M + 'rc_base_model/predict/',
      M + 'hybrid_base_model/predict/', M + 'materials/process_predictions.py',
      PR + 'model_prediction.py', UT + 'prediction_metrics.py',
      UT + 'output_prediction_metrics.py'],
     [('prediction', RN + 'predict/prediction.py'),
      ('prediction data', M + 'materials/process_predictions.py'),
      ('metrics', UT + 'prediction_metrics.py')],
     ['stored samples, losses, directories, tables and metric files'],
     'Each sample is run alone through the stored state and rescored in '
     'numpy.',
     'runtime monitor: differential offline checker over stored results')

prop('C23', 'Strain paths obey their request and pair with their response',
     'For every request, a generated strain path has the requested times, '
     'components, bounds, control points, increment norm, noise and cycles, '
     'starts from the null strain, is finite and is reproduced by its seed; '
     'impossible requests are refused. A response data set holds one sample '
     'per admissible path whose stress, state variables and invariants are '
     'those the material model answers along the stored strains, whether '
     'paths are generated, read from .csv files or taken from a data set.',
     ['inputs', 'configurations'],
     'all generation requests, materials, containers and sources',
     'No existing test generates a path.',
     [DG + 'strain_paths/', US + 'synthetic_data/gen_response_dataset.py'],
     [('strain path generators', DG + 'strain_paths/'),
      ('response data sets', US + 'synthetic_data/gen_response_dataset.py')],
     ['generated paths and stored samples'],
     'Paths are checked against the request; a fresh material is driven '
     'along the stored strains.',
     'runtime monitor: request/response trace checker')

prop('C24', 'Added noise and denoising do what they state',
     'For every distribution and parameters, generated noise has the stated '
     'moments, range and spike rate, independently per component and scaled '
     'as asked; noisy response data sets hold strains that are the original '
     'ones plus the stored noise and the stress the material answers along '
     'them; null noise changes nothing, initial strain is kept, and each '
     'denoising filter is the stated linear filter of each feature in the '
     'precision of its input.',
     ['inputs', 'configurations'],
     'all noise distributions and parameters, signals, filters, precisions',
     'No existing test adds or removes noise.',
     [DG + 'strain_paths/noise_generator.py', UT + 'data_denoisers.py',
      US + 'synthetic_data/gen_noisy_response_dataset.py'],
     [('noise', DG + 'strain_paths/noise_generator.py'),
      ('denoisers', UT + 'data_denoisers.py'),
      ('noisy data sets', US + 'synthetic_data/gen_noisy_response_dataset.py')],
     ['noise samples, noisy samples, filtered signals'],
     'Statistical bounds (failure probability below 1e-9), stored noise '
     'replayed, filters recomputed as direct sums and fits.',
     'runtime monitor: statistical and differential checker')

prop('C25', 'Material patches deform as requested and stay well posed',
     'For every request the patch generator answers a finite element patch '
     'whose mesh tiles the patch (sizes, element type, connectivity), whose '
     'corner displacements realise the requested average deformation within '
     'the requested ranges, whose edges follow the requested polynomial '
     'shapes, whose boundary displacements (rotation included) are consistent '
     'on shared corners and edges and interpolated over faces, and whose '
     'rigid body motions are fixed; inadmissible requests and deformed '
     'configurations are refused, and the same seed gives the same patch.',
     ['inputs', 'configurations'],
     'all dimensions, sizes, element types, ranges, orders and rotations',
     'No existing test generates a patch.',
     [DG + 'spdg/'],
     [('patch generator', DG + 'spdg/patch_generator.py'),
      ('patch', DG + 'spdg/patch.py')],
     ['patch mesh, deformed and boundary displacements'],
     'Boundary data are recomputed from the recorded geometry.',
     'runtime monitor: geometric invariant checker of generated patches')

LK = 'src/hookeai/simulators/links/'

prop('C26', 'Simulator adapters neither lose nor change data',
     'For every patch, material distribution, set of voids, constraint and '
     'constitutive model, the simulator input file states exactly that mesh '
     '(element geometry, phase and consecutive labels, voids included), the '
     'prescribed and the free degrees of freedom, the materials with points '
     'of their hardening curve and a load history within bounds, and never '
     'replaces a file unasked; run status and results are those of the '
     'simulator, in time order; every file format conversion preserves '
     'nodes, elements, constraints and histories, and specimen constraints '
     'are those of its planes; invalid requests are refused.',
     ['inputs', 'configurations'],
     'all patches, materials, voids, constraints, results and formats',
     'No existing test writes or reads a simulator file.',
     [LK],
     [('input files', LK + 'links.py'), ('materials', LK + 'models/'),
      ('conversions', LK + 'utilities/')],
     ['written files, parsed independently', 'results read'],
     'Files are parsed by an independent reader and compared with the '
     'request.',
     'runtime monitor: round-trip checker over recorded files')

prop('C27', 'Specimen data and local paths are those of the specimen files',
     'For every mesh file and time step history, the specimen data set holds '
     'the nodes, elements (type and integration), constraints, displacements '
     'and reactions of the files, steps in numeric order and files of '
     'nothing else; set reactions are the sums over each constrained set; '
     'copying constraint labels changes nothing else; the local path data '
     'set of a specimen, or of many material patches, has one path per '
     'integration point, in order, whose strain follows from the '
     'displacements and whose stress is the material response to it; '
     'inconsistent files are refused.',
     ['inputs', 'configurations', 'histories'],
     'all meshes, element types, histories, materials and patches',
     'No existing test reads a specimen.',
     [US + 'global_model_update/', US + 'synthetic_data/'
      'build_local_paths_dataset.py', 'src/hookeai/material_model_finder/data/specimen_data.py'],
     [('specimen data', US + 'global_model_update/material_finder/'
       'gen_specimen_data.py'),
      ('local paths', US + 'global_model_update/material_finder/'
       'gen_specimen_local_paths.py'),
      ('patches', US + 'synthetic_data/build_local_paths_dataset.py')],
     ['tensors read from files', 'stored local paths'],
     'Independent finite element strains drive one material per point.',
     'runtime monitor: differential checker of the data pipeline')

prop('C28', 'Discovery descends the force imbalance and records that descent',
     'For every specimen, material (constitutive, neural or hybrid), loss, '
     'scaling, weights, schedule and stopping rule, training the material '
     'model finder takes exactly the optimiser steps on the specimen force '
     'imbalance, starting from the given parameters; learnable parameters '
     'stay in their bounds after every step; loss, learning rate and '
     'parameter histories, stored force components, checkpoints, best state '
     'and returned best loss and epoch all describe that same descent; it '
     'stops exactly when its parameters have settled or epochs are used up; '
     'the same seed gives the same discovery.',
     ['inputs', 'configurations', 'histories'],
     'all specimens, materials, losses, schedules, bounds and epochs',
     'No existing test trains the material model finder.',
     ['src/hookeai/material_model_finder/train/training.py',
      'src/hookeai/material_model_finder/model/material_discovery.py'],
     [('training', 'src/hookeai/material_model_finder/train/training.py'),
      ('finder', 'src/hookeai/material_model_finder/model/'
       'material_discovery.py')],
     ['loss, rate and parameter records', 'state files', 'stored forces'],
     'An independent optimiser loop replays each recorded discovery.',
     'runtime monitor: replay checker over recorded training histories')

prop('C29', 'Derived strain and stress features are the invariants they name',
     'For every strain or stress path, order of components, precision and '
     'data set container, adding a feature stores in every sample of the '
     'data set (files and subsets included) exactly the first or second '
     'principal invariant of the strain, the mean (volumetric) stress or '
     'the traceless deviatoric stress, which together make up the stress '
     'again; nothing else in the data set changes, and features of missing '
     'data, plane states or unknown names are refused.',
     ['inputs', 'configurations'],
     'all tensors, component orders, containers and precisions',
     'No existing test derives a feature.',
     [M + 'materials/'],
     [('strain features', M + 'materials/strain_features.py'),
      ('stress features', M + 'materials/stress_features.py'),
      ('composition', M + 'hybrid_base_model/model/hybridized_layers.py')],
     ['feature histories stored in the samples'],
     'Invariants are recomputed from principal values.',
     'runtime monitor: differential and metamorphic checker of derived data')

prop('C30', 'Figures show exactly the data they are given',
     'For every set of data series (of any number, length and magnitude, '
     'labelled or not, with missing points), each plotting routine draws '
     'exactly those points, means, ranges, bars, boxes or histograms, with '
     'the labels, scales and limits asked for and statistics computed '
     'correctly from the data (coefficient of determination, error bands, '
     'averages); figures of training and parameter histories, predictions, '
     'strain paths and stress invariants, principal stresses, triaxiality, '
     'Lode parameter and equivalent quantities show those of the given '
     'data; data is left unchanged and inconsistent data is refused.',
     ['inputs', 'configurations'],
     'all data series, options and figure types',
     'No existing test draws a figure.',
     ['src/hookeai/ioput/plots.py', PR,
      'src/hookeai/data_generation/strain_paths/interface.py',
      US + 'synthetic_data/gen_response_dataset.py'],
     [('figures', 'src/hookeai/ioput/plots.py'),
      ('training', PR + 'model_training.py'),
      ('predictions', PR + 'model_prediction.py'),
      ('strain paths', 'src/hookeai/data_generation/strain_paths/'
       'interface.py'),
      ('responses', US + 'synthetic_data/gen_response_dataset.py')],
     ['artists of the figures created'],
     'Figures are read back and compared with recomputed data.',
     'runtime monitor: read-back checker of created figures')

PRUN = 'src/hookeai/miscellaneous/pruning/pruning_dataset.py'
prop('C31', 'Data set pruning sets aside the easiest unseen samples only',
     'For every data set, schedule, split and limits, a pruning process '
     'starts from the full data set; at each step the remaining samples are '
     'partitioned into training, validation and testing sets, a model is '
     'trained on the first two without ever seeing the third, and exactly '
     'the scheduled number of testing samples that this model predicts best '
     'is moved to the unused set; every sample stays, unchanged, in exactly '
     'one of the two sets; each iteration trains and tests a model on the '
     'sets it reports; the process stops at precisely the first limit '
     'reached and names it; returned, stored, displayed, previewed and '
     'plotted figures agree with what happened; the base data sets are left '
     'untouched.',
     ['inputs', 'configurations', 'histories'],
     'all data sets, schedules, split sizes, limits, testing types and '
     'losses',
     'No existing test prunes a data set.',
     [PRUN, 'src/hookeai/time_series_data/time_dataset.py'],
     [('pruning', PRUN),
      ('split', 'src/hookeai/time_series_data/time_dataset.py')],
     ['samples handed to training and prediction', 'pruning records',
      'files and figures'],
     'An offline checker decides the log of every process.',
     'runtime monitor: offline checker over recorded pruning processes')

NOISY = 'src/hookeai/miscellaneous/noisy_data/'
prop('C32', 'Noise enters and leaves measured displacements only',
     'For every set of nodal data files of a specimen (any number of nodes '
     'and time steps, numbered in any way), noise injection writes a file '
     'per time step where only the displacements after the first step '
     'differ, each by its own noise of the given distribution and size, and '
     'denoising writes one where the displacement history of every node and '
     'component, in time order, is filtered as asked and starts at zero; '
     'node labels, coordinates, reaction forces, row order and the source '
     'files never change, earlier results are replaced, foreign files are '
     'ignored, and malformed data or settings are refused.',
     ['inputs', 'configurations'],
     'all specimens, time step numbers, distributions, filters and cycles',
     'No existing test reads or writes a nodal data file.',
     [NOISY, 'src/hookeai/utilities/data_denoisers.py'],
     [('injection', NOISY + 'inject_disp_noise_csv.py'),
      ('denoising', NOISY + 'denoise_disp_noise_csv.py')],
     ['nodal data files written'],
     'Files are read back by an own reader and filtered by an own filter.',
     'runtime monitor: read-back and differential checker of data files')

CONV = PR + 'convergence_plots.py'
CONVS = US + 'convergence_analyses/'
prop('C33', 'Convergence studies pair every result with its own training size',
     'For every convergence study on disk (models trained with any sizes, '
     'in any order, alone or as ensembles with any number of members and '
     'gaps in their numbering), each model\'s testing loss, best parameters, '
     'predictions or their ensemble mean and range are shown and stored '
     'against the size of its own training data set; paths and scatter '
     'plots show, for each requested testing sample, prediction type and '
     'component, the ground-truth and every model\'s prediction under the '
     'label of its size, in one figure per component (and sample for paths) '
     'named after it; ensembles of several noise cases are kept apart; a '
     'missing data set, summary, loss, parameter or prediction file, '
     'testing data sets of different sizes and unknown plots are refused.',
     ['inputs', 'configurations'],
     'all studies, ensembles, prediction types, sample selections and noise '
     'cases',
     'No existing test runs a convergence study.',
     [CONV, CONVS, 'src/hookeai/model_architectures/materials/'
      'process_predictions.py'],
     [('study', CONV),
      ('script', CONVS + 'plot_convergence_analysis.py'),
      ('noise cases', CONVS + 'plot_noisy_convergence_analysis.py')],
     ['artists of the figures created', 'stored plot data', 'file names'],
     'Figures and files are read back and compared with the study written.',
     'runtime monitor: read-back checker of created figures and files')

UT = 'src/hookeai/utilities/'
prop('C34', 'Basic services keep what they are given and do what they promise',
     'For every input: a new directory or file name never collides with or '
     'loses existing data unless overwriting was asked for, and then only '
     'the named directory is emptied; a file search returns a matching file '
     'of the directory whenever there is one, earlier patterns first; a '
     'summary file holds every item given; conversions of (nested) '
     'dictionaries to tensors or another precision change exactly what they '
     'name, in place only when asked; loss functions return the mean squared '
     'or mean relative error with the chosen handling of small targets; '
     'optimizers and learning rate schedules follow their parameters; '
     'parameter counts and dictionaries cover every model parameter once, '
     'by identity; load factor histories accumulate the increments of the '
     'input file; random specimens are stored in their own directories, are '
     'reloaded unchanged and leave neighbours alone; invalid requests are '
     'refused.',
     ['inputs', 'configurations', 'histories'],
     'all directory trees, names, dictionaries, tensors, schedules, modules '
     'and load factor tables',
     'No existing test calls these services.',
     ['src/hookeai/ioput/iostandard.py', UT, 'src/hookeai/simulators/links/'
      'utilities/links_plot_tfact.py', US + 'synthetic_data/'
      'gen_random_specimen.py'],
     [('files', 'src/hookeai/ioput/iostandard.py'),
      ('conversions', UT + 'type_conversion.py'),
      ('losses', UT + 'loss_functions.py'),
      ('schedules', UT + 'optimizers.py'),
      ('parameters', 'src/hookeai/material_model_finder/utilities/'
       'torch_parameters.py'),
      ('load factors', 'src/hookeai/simulators/links/utilities/'
       'links_plot_tfact.py'),
      ('specimens', US + 'synthetic_data/gen_random_specimen.py')],
     ['directory snapshots', 'returned values', 'files and figures'],
     'Snapshots, deep copies and formulas decide every call.',
     'runtime monitor: differential and conservation checks of services')

MM = 'src/hookeai/miscellaneous/materials/'
HO = 'src/hookeai/model_architectures/rnn_base_model/optimization/'
prop('C35', 'Material and optimisation studies show what they compare',
     'For every principal stress state and material parameters, the yield '
     'functions of the yield surface study take the value of the von Mises, '
     'Drucker-Prager and Lou-Zhang-Yoon yield functions (hydrostatic and '
     'repeated stresses included), do not depend on the order of the '
     'principal stresses and vanish at stresses of the material models while '
     'they yield; plotted surfaces and pi-plane contours are the null sets '
     'of each model\'s own function, closed, under its own label; '
     'comparisons of material models show, for each stress component in any '
     'order, the response each model has to the given strain path and the '
     'given reference; comparisons of hardening laws show each law over the '
     'plastic strain, displayed or only saved; optimisation histories show '
     'each process\'s own jobs in order and the best value so far, and '
     'incomplete histories are refused; comparisons of stored predictions '
     'show every model and the ground-truth per component.',
     ['inputs', 'configurations'],
     'all stress states, parameters, sets of materials, strain paths, '
     'hardening laws and optimisation processes',
     'No existing test runs these studies.',
     [MM, HO + 'hydra_optimization_plots.py',
      'src/hookeai/miscellaneous/file_processing/plot_prediction_files.py'],
     [('yield surfaces', MM + 'plot_yield_surface.py'),
      ('responses', MM + 'compare_material_models.py'),
      ('hardening laws', MM + 'compare_hardening_laws.py'),
      ('optimisation histories', HO + 'hydra_optimization_plots.py')],
     ['returned values', 'recorded surfaces', 'artists of the figures'],
     'Own formulas, material points and read-back of figures decide.',
     'runtime monitor: differential formulas and read-back of figures')

CP = US + 'complete_pipelines/'
LU = US + 'local_model_update/'
prop('C36', 'Model updating pipelines pair materials, data, models and '
     'predictions',
     'Material data generated for a grid of temperatures and compositions '
     'holds, per pair and data set type and in the directory of that pair, '
     'the requested number of distinct samples, first of random and then of '
     'proportional strain paths, whose stresses are the response of the '
     'material of the temperature and composition stored with them (the '
     'pair itself for training, values between the neighbouring grid values '
     'otherwise), also when stress paths fail and are repeated; assembled '
     'data sets hold every sample of their sources exactly once, or the '
     'requested fraction of each source, without changing the sources; '
     'every member of an ensemble of recurrent, constitutive or hybrid '
     'models keeps the model of its own training and the predictions of '
     'that model on the testing data, is predicted again without training '
     'when asked, and its loss, parameters and predicted paths are what the '
     'ensemble figures and stored data show; material parameters follow the '
     'regression within its bounds and are refused outside; uniaxial paths '
     'follow the given axial strain with null lateral stress, and stored '
     'recurrent models receive strain, temperature and composition.',
     ['inputs', 'configurations', 'histories'],
     'all grids, sample numbers, failing paths, fractions, ensembles and '
     'materials',
     'No existing test runs a pipeline or an ensemble.',
     [CP, LU],
     [('material data', CP + 'local_model_update.py'),
      ('uniaxial paths', CP + 'evaluate_gru_model.py'),
      ('ensembles', LU + 'rnn_material_model/uncertainty_quantification.py'),
      ('constitutive ensembles', LU + 'rc_material_model/'
       'uncertainty_quantification.py')],
     ['stored data sets', 'directories of models and predictions',
      'artists of the figures'],
     'Own radial return, tagged samples and tracing stand-ins decide.',
     'runtime monitor: differential response and exactly-once trace checker')
