#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLE = 'bet/sample.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=list(observe), state=list(state)))


prop('C01', 'Inverse measure puts each output event on exactly its own input cells',
     'After inverting an output measure through a discretized map, the input cells that map into an output event '
     'of positive probability carry together exactly the probability of that event, divided among them in '
     'proportion to their volumes, whenever they have positive total volume; every other input cell carries '
     'probability zero. This holds whether the volumes are supplied or are counted from emulated points, whatever '
     'the scale of the volumes, and also when the inversion is repeated with a new output measure.',
     ['inputs', 'configurations', 'histories'],
     'all maps from input cells to output events, all volume and probability patterns (zeros, tiny and large values), all kinds of output partition, all process counts, repeated inversions',
     'the tests invert a few random or regular grids on a few maps and compare with stored or approximate values; they never enumerate empty events, zero volumes, uneven process splits or re-inversion',
     ['bet/calculateP/calculateP.py', SAMPLE],
     [('event-wise split loop', 'bet/calculateP/calculateP.py prob, prob_with_emulated_volumes'),
      ('output pointer', 'bet/sample.py discretization.set_io_ptr')],
     'exhaustive enumeration of small discretizations and process counts on the real code vs closed-form oracle',
     'All configurations within the stated bounds are executed on the real code under the controlled communicator; the oracle is recomputed from the descriptor. Assumes the small-scope hypothesis beyond the bounds.',
     ['input sample set probabilities'])

prop('C02', 'Emulated inverse divides each event equally among its emulated points',
     'When the inverse measure is computed on emulated input points, each point gets the probability of the output '
     'event of the model sample nearest to it divided by the number of emulated points (over all processes) that '
     'share this event, and zero if that event has probability zero. The points of an event that has any point '
     'therefore carry exactly the probability of the event.',
     ['inputs', 'configurations', 'histories'],
     'all assignments of emulated points to samples and of samples to events, all probability patterns, all partitions, all process counts',
     'tests check only that probabilities sum to about one on a few grids in serial',
     ['bet/calculateP/calculateP.py', SAMPLE],
     [('equal split loop', 'bet/calculateP/calculateP.py prob_on_emulated_samples'),
      ('pointers', 'bet/sample.py set_io_ptr, set_emulated_ii_ptr')],
     'exhaustive enumeration of small discretizations and process counts on the real code vs counting oracle',
     'As C01; every assignment within the bounds is executed.',
     ['emulated input sample set probabilities'])

prop('C03', 'Moving probabilities to another partition conserves and localizes mass',
     'Transferring probabilities from an old sample set to a new one gives each new cell exactly the mass of the old '
     'points (or of the emulated points, each holding an equal share of its old cell) that lie in it. The total is '
     'conserved; if an old cell with mass contains no emulated point, the remaining mass is rescaled so that the '
     'total is one.',
     ['inputs', 'configurations'],
     'all assignments of old points / emulated points to old and new cells, probability patterns, kinds of new partition, process counts',
     'tests transfer between a handful of regular or random sets and compare coarse totals',
     ['bet/calculateP/calculateP.py', SAMPLE],
     [('transfer loops', 'bet/calculateP/calculateP.py prob_from_sample_set, prob_from_sample_set_with_emulated_volumes, prob_from_discretization_input')],
     'exhaustive enumeration of small transfers and process counts on the real code vs counting oracle',
     'As C01.', ['new sample set probabilities'])

prop('C04', 'Global results do not depend on the number of processes',
     'Running the same deterministic program on any number of processes yields, on every process, the same global '
     'results (values, volumes, pointers, probabilities, marginals, selected quantities, error estimates) as running it on one '
     'process, up to floating-point rounding. This includes numbers of processes that do not divide the number of '
     'samples or exceed it.',
     ['configurations', 'schedules', 'inputs'],
     'all process counts up to the bound, for every parallel-aware operation and for enumerated sample counts',
     'the test suite only ever runs with one process',
     [SAMPLE, 'bet/util.py', 'bet/calculateP/calculateP.py', 'bet/calculateP/calculateError.py',
      'bet/calculateP/simpleFunP.py', 'bet/postProcess/plotP.py', 'bet/postProcess/postTools.py', 'bet/sensitivity/chooseQoIs.py',
      'bet/sampling/basicSampling.py', 'bet/surrogates.py'],
     [('local/global arrays', 'bet/sample.py local_to_global, global_to_local'), ('gathers', 'bet/util.py get_global_values')],
     'exhaustive execution over process counts under a controlled communicator; differential against the one-process run',
     'The real code runs under a simulated communicator (validated against real MPI runs by setup/thorough). Deterministic collectives make the result schedule-independent, which is checked for two extreme schedules.',
     ['global arrays on every rank'])

prop('C05', 'Parallel operations complete with matching communication on every process',
     'In every parallel-aware operation, called with the same arguments on all processes, all processes take part in the same sequence of collective communications '
     'with compatible arguments, so that the operation finishes on all processes or fails on all of them. No data '
     'distribution, including empty local parts, makes a process wait forever.',
     ['configurations', 'schedules', 'inputs'],
     'all process counts up to the bound, all sample counts including fewer samples than processes, every parallel-aware operation, run-to-block schedules from each rank order',
     'the test suite only ever runs with one process, where no communication can mismatch',
     [SAMPLE, 'bet/util.py', 'bet/calculateP/calculateP.py', 'bet/calculateP/simpleFunP.py', 'bet/calculateP/calculateError.py',
      'bet/sensitivity/chooseQoIs.py', 'bet/postProcess/plotP.py', 'bet/sampling/basicSampling.py'],
     [('collective calls', 'bet/Comm.py and its users')],
     'exhaustive enumeration of rank programs and rank orders under a controlled communicator with deadlock detection',
     'The communicator model matches the k-th collective of all ranks; mismatch, truncation and early exit are errors as in MPI.',
     ['completion of every rank'])

prop('C06', 'Distributing and re-gathering a sample set loses and reorders nothing',
     'Splitting the global arrays of a sample set or discretization over any number of processes and gathering them '
     'again restores every array with its shape and order; the local parts are disjoint, contiguous and together cover all '
     'samples, and corresponding arrays are split identically. Locally set arrays become the concatenation, in process '
     'order, of the local parts.',
     ['configurations', 'inputs', 'histories'],
     'all sample counts and process counts up to the bound, all subsets of per-sample arrays, sequences of split and gather',
     'tests run on one process, where split and gather are identities',
     [SAMPLE, 'bet/util.py'],
     [('split', 'bet/sample.py global_to_local'), ('gather', 'bet/sample.py local_to_global; bet/util.py get_global_values')],
     'exhaustive enumeration of array sets, sample counts, process counts and split/gather sequences',
     'As C04.', ['local and global arrays'])

prop('C07', 'Saved objects load back unchanged whatever else is on disk',
     'An object saved to a file and loaded again equals the saved object in all of its data, for every kind of sample '
     'set and discretization and every combination of optional data, and saving again replaces the earlier content. Files of other '
     'objects whose names are similar, and the directory in which the file is placed, do not affect it; loading does not modify the file.',
     ['histories', 'inputs', 'configurations'],
     'all save/modify/load histories up to the depth, all object kinds, all subsets of neighbouring files with confusable names, file names with and without directories',
     'tests save one object of each kind in the current directory and load it back once',
     ['bet/util.py', SAMPLE],
     [('pickle save/load', 'bet/util.py save_object, load_object, load_object_parallel')],
     'exhaustive exploration of save/load histories and directory contents on the real code',
     'Runs in scratch directories; file system operations are real.', ['loaded object, file content'])

prop('C08', 'Parallel save and load are correct under every interleaving',
     'When several processes save an object, globally or one part each, and load it, then under every interleaving of '
     'their file operations every process obtains the complete saved data (or its own part) and no process ever reads a '
     'missing or partially written file. Loading parts with a different number of processes than saved them is refused (part files left over from other runs excepted).',
     ['schedules', 'configurations', 'histories'],
     'all interleavings (up to a preemption bound) of the open, write, close and test operations of all processes; all process counts for the part/whole combinations',
     'tests run one process; a race on the shared file cannot occur there',
     ['bet/util.py', SAMPLE],
     [('barriers around the dump', 'bet/util.py save_object'), ('part discovery', 'bet/util.py load_object_parallel')],
     'stateless model checking: enumeration of all file-operation interleavings of simulated ranks with a torn-write file model',
     'File operations are intercepted; writes are visible in chunks, so a reader overlapping a writer sees a torn file.',
     ['files, loaded objects'])

prop('C09', 'Derived data always reflects the current samples',
     'Queries, bounding boxes, pointers, volumes, densities and inverse probabilities obtained from a sample set or discretization '
     'depend only on its current contents: after any sequence of replacing or appending values, replacing component sets or '
     'normalizing the domain, they equal what a freshly built object with the same contents gives (pointers follow replaced sets and explicit recomputation).',
     ['histories', 'inputs'],
     'all sequences up to the depth of modifying and querying operations on sample sets and discretizations',
     'tests perform each operation on freshly built objects; stale caches only show after modify-after-query histories',
     [SAMPLE, 'bet/calculateP/calculateP.py', 'bet/calculateP/simpleFunP.py'],
     [('nearest-neighbour tree cache', 'bet/sample.py set_kdtree, query'), ('pointer caches', 'bet/sample.py set_io_ptr, set_emulated_ii_ptr, set_emulated_oo_ptr')],
     'breadth-first exploration of operation histories on the real objects, differential against fresh objects',
     'Every history up to the depth is executed.', ['query results, bounding box, pointers, probabilities'])

prop('C10', 'Normalizing a domain is the exact affine map and is undone exactly',
     'Normalizing a sample set maps its domain to the unit box and its values, cell bounds and reference value by the '
     'same affine map, once, whatever combination of global and local data it holds, and scales Jacobians by the chain rule; undoing it restores the original data (error estimates and ball radii are not part of the map). '
     'Nearest-cell queries made after normalization use the normalized values.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of localize, globalize, normalize, undo and query; all subsets of optional data; integer and float inputs; domains of different scale and offset',
     'tests normalize one freshly built set per dimension',
     [SAMPLE], [('affine map', 'bet/sample.py normalize_domain, undo_normalize_domain')],
     'breadth-first exploration of operation histories on the real objects against an exact affine reference model',
     'Reference model is a few lines of exact arithmetic bound to the implementation on every explored history.', ['values, domain, jacobians'])

prop('C11', 'Point location returns the cell that contains the point',
     'For any sample set, locating a point returns for nearest-point sets the samples in order of increasing distance in the '
     'chosen norm, and for rectangle, ball and grid sets exactly the distinct cells that contain the point, followed by the remainder cell when fewer '
     'cells than requested contain it, with distance zero inside and infinite for the remainder.',
     ['inputs', 'configurations'],
     'all query points on a grid covering interiors, gaps and faces; all small cell layouts (disjoint, nested, overlapping); numbers of neighbours; norms; dimensions',
     'tests query a few points of one layout per class, mostly with one neighbour',
     [SAMPLE], [('query methods', 'bet/sample.py query of each class')],
     'exhaustive enumeration of layouts and query points on the real code vs definition-level oracle',
     'Points at equal distance accept any order.', ['dist, ptr'])

prop('C12', 'Cell volumes are exact and partition the domain',
     'Exact volume computations return each cell\'s fraction of the domain, attached to the right sample and summing to one, for any order of '
     'the samples, position and scale of the domain and number of processes (in two dimensions for a reflected width that reaches every cell at the boundary). Emulated and Monte Carlo estimates equal the fraction of '
     'emulated points that fall in each cell, and the equal-volume assumption gives every cell the same fraction.',
     ['inputs', 'configurations', 'histories'],
     'all sample subsets and orderings of a small lattice, domain offsets/scales, norms, rectangle and ball layouts, emulated point sets, process counts',
     'tests compare a few regular layouts with stored values',
     [SAMPLE], [('volume computations', 'bet/sample.py exact_volume_1D, exact_volume_2D, exact_volume_lebesgue, exact_volume, estimate_volume, estimate_volume_emulated, estimate_volume_mc')],
     'exhaustive enumeration of small layouts on the real code vs exact rational geometry',
     'Exact rational Voronoi areas by half-plane clipping; random points are replaced by enumerated lattices.', ['volumes'])

prop('C13', 'Clipping, merging and selecting keep inputs and outputs in correspondence',
     'Taking the first samples of a set or discretization, merging two of them, or selecting some inputs and outputs yields a new object in '
     'which each sample\'s data is that of the same original sample, all per-sample data of a set have the same length, and the '
     'operands are unchanged. Merged inputs and outputs stay paired for any number of processes.',
     ['inputs', 'histories', 'configurations'],
     'all clip counts, all index selections (reordering included), all sizes of merged sets, presence of optional data, process counts, local-only data',
     'tests clip or merge once with one size',
     [SAMPLE], [('restructuring', 'bet/sample.py clip, merge, choose_inputs_outputs')],
     'exhaustive enumeration of restructuring operations on tagged data vs list-slicing oracle',
     'Samples carry unique tags, so any mispairing is visible.', ['values, probabilities, volumes'])

prop('C14', 'Copies are equal and independent; equality detects every difference',
     'A copy compares equal to its original and never shares mutable data with it. Comparing two objects of the same class answers true when '
     'all their data agree and false as soon as one item differs in presence, shape or value, and it never fails.',
     ['inputs', 'histories'],
     'all object kinds, all single-field perturbations (absent, shape, value), all pairs of small states, mutation after copy',
     'tests compare a few pairs differing in one field',
     [SAMPLE], [('equality', 'bet/sample.py __eq__'), ('copy', 'bet/sample.py copy')],
     'exhaustive enumeration of object states and single-field differences',
     'Fields are those reachable through public setters.', ['equality verdicts'])

prop('C15', 'Inconsistent shapes and lengths are always rejected',
     'Data whose dimension or number of samples contradicts the rest of an object is reported by an exception when it is set through a setter, when the object is '
     'checked or when a discretization is built, and consistent data is always accepted with its number of samples reported correctly. A rejected dimension '
     'change leaves the discretization as it was.',
     ['inputs', 'histories'],
     'all pairs of per-sample arrays with all pairs of lengths; all pairs of set dimensions in a discretization; all setter orders',
     'tests check a few mismatching pairs',
     [SAMPLE], [('consistency checks', 'bet/sample.py check_num, check_num_local, check_nums, setters')],
     'exhaustive enumeration of array subsets, lengths and dimensions', 'Full product of the stated alphabets.', ['exceptions, reported counts'])

prop('C16', 'Gradient estimates are exact on maps of the order they resolve',
     'Forward differences return the exact Jacobian of every affine map and central differences that of every quadratic map, and radial-basis '
     'estimates return the derivative at the centre of the radial-basis interpolant of its nearest samples, for all sample centres, dimensions and step sizes, with rows and columns in the order of outputs and inputs. The '
     'returned discretization holds the centres and the outputs that belong to these centres.',
     ['inputs', 'configurations', 'histories'],
     'all small integer coefficient maps, dimensions, numbers of centres and outputs, step sizes',
     'tests use random affine data and check shapes or a single linear map',
     ['bet/sensitivity/gradients.py'],
     [('stencils', 'bet/sensitivity/gradients.py calculate_gradients_ffd, calculate_gradients_cfd, calculate_gradients_rbf')],
     'exhaustive enumeration of integer coefficient maps and stencils vs exact derivative', 'Full product of stated alphabets.', ['jacobians, values'])

prop('C17', 'Stencil and cluster points have the documented layout',
     'Cluster generators return the centres first, followed by each centre\'s own points in centre order: forward and central difference points at exactly the given step along '
     'each axis, and random cluster points within the given radius (or radii per axis) in the given norm of their centre and inside the domain of the set when one is given, spread uniformly over that part of the ball.',
     ['inputs', 'configurations'],
     'all centre lattices, radii, dimensions, norms and enumerated random answers',
     'tests check shapes or one layout',
     ['bet/sensitivity/gradients.py', 'bet/sampling/LpGeneralizedSamples.py'],
     [('cluster generators', 'bet/sensitivity/gradients.py pick_ffd_points, pick_cfd_points, pick_lpball_points')],
     'exhaustive enumeration of centres, steps and seeds vs layout oracle', 'Random draws are enumerated over a fixed list of generator states.', ['values'])

prop('C18', 'Optimal quantities of interest are really optimal and measured correctly',
     'Skewness, condition number and inverse-measure values reported for a set of outputs equal the definitions averaged over the samples, the reported best sets '
     'are the best among all combinations of the required size in the right order, and screening returns only sets within the tolerance; '
     'this holds for any number of processes.',
     ['inputs', 'configurations'],
     'all small integer Jacobian sets, all combinations, tolerances, numbers of returned sets, process counts',
     'tests check shapes and a few hand-made Jacobians in serial',
     ['bet/sensitivity/chooseQoIs.py'],
     [('measures', 'bet/sensitivity/chooseQoIs.py calculate_avg_skewness, calculate_avg_measure'), ('search', 'bet/sensitivity/chooseQoIs.py chooseOptQoIs*, find_*')],
     'exhaustive enumeration of small Jacobians, process counts vs brute-force search with independent formulas',
     'Ties accept any order.', ['returned index sets and measures'])

prop('C19', 'Surrogates reproduce the data and follow the piecewise polynomial rule',
     'A piecewise-constant surrogate gives every point the output (and error) of its nearest sample and a piecewise-linear surrogate the first-order expansion '
     'about it using the stored Jacobian, so that affine models are reproduced exactly; at the samples both give the sample outputs. The surrogate of an event gives each '
     'evaluation to the right region for any number of processes.',
     ['inputs', 'configurations'],
     'all small integer affine maps, sample layouts, evaluation points, orders, process counts',
     'tests evaluate one map and check shapes',
     ['bet/surrogates.py'], [('evaluation', 'bet/surrogates.py generate_for_input_set')],
     'exhaustive enumeration of affine maps and evaluation lattices vs nearest-sample oracle', 'Ties excluded.', ['surrogate output values'])

prop('C20', 'Ranking and thresholding by probability select the right samples',
     'Sorting by probability density orders samples by decreasing density and permutes values, volumes and probabilities alike; taking the most (least) '
     'probable samples up to a fraction takes samples in order of density (or in the given order without sorting) as long as their accumulated probability stays within the fraction, '
     'and the returned indices identify them in the original set.',
     ['inputs', 'configurations'],
     'all small probability and volume assignments, fractions, sort flags, global or local data, process counts',
     'tests use one random set and check sums',
     ['bet/postProcess/postTools.py'], [('ranking', 'bet/postProcess/postTools.py sort_by_rho, sample_prob, sample_highest_prob, sample_lowest_prob')],
     'exhaustive enumeration of small weighted sets vs definition-level oracle', 'Ties accept any order.', ['selected values and indices'])

prop('C21', 'Marginals collect exactly the probability of each bin',
     'One- and two-dimensional marginals give each bin exactly the probability of the samples whose coordinates fall in it, for the dimensions they are labelled with, so '
     'that they sum to the probability of the samples inside the domain; smoothing is the convolution with the Gaussian exp(-(x/sigma)^2) and gives total mass one. They are identical on all processes.',
     ['inputs', 'configurations'],
     'all small sample placements over bins in 1-3 dimensions, bin counts, domains, process counts, smoothing widths',
     'tests bin a single grid of points',
     ['bet/postProcess/plotP.py'], [('binning', 'bet/postProcess/plotP.py calculate_1D_marginal_probs, calculate_2D_marginal_probs, smooth_marginals_1D, smooth_marginals_2D')],
     'exhaustive enumeration of sample placements vs bin-count oracle', 'Points on bin edges are excluded except the outer faces.', ['marginals, bins'])

prop('C22', 'Sampling designs cover the domain as designed',
     'A regular design of given counts places exactly one sample at the centre of each cell of the corresponding grid; random and Latin hypercube designs place the '
     'requested total number of samples inside the domain (or the support of the given distribution), and a Latin hypercube design has exactly one sample in each of the equal '
     'slices of every coordinate (for the criteria for which the installed design package returns a design), for any number of processes. Random and Latin hypercube designs fill the set handed in, regular designs are a new set and leave it as it was; the design is recorded as the initial measure and the '
     'distributions handed in are unchanged. Samples drawn from an Lp ball lie in the ball of the given '
     'centre and radius and follow its uniform (generalized) law.',
     ['inputs', 'configurations', 'schedules'],
     'all per-dimension counts, dimensions, domains, sample counts, process counts, generator seeds from a fixed list',
     'tests check shapes and a stored regular grid in serial',
     ['bet/sampling/basicSampling.py'], [('designs', 'bet/sampling/basicSampling.py random_sample_set, regular_sample_set, lhs_sample_set')],
     'exhaustive enumeration of design parameters and process counts vs stratification oracle', 'Generator states from an enumerated list.', ['sample values'])

prop('C23', 'Every model output is stored with the input that produced it',
     'Building a discretization from a model pairs each output row with the input row it was computed from, evaluates the model on every sample exactly once (and additionally at a reference value when there is one), '
     'and stores the outputs, errors and Jacobians the model returns under the right samples; this holds for any number of processes, sample count and output layout, and after adding or copying samples.',
     ['inputs', 'configurations', 'histories'],
     'all sample counts, output dimensions, model return forms, process counts, local/global histories',
     'tests run serially and compare with one model',
     ['bet/sampling/basicSampling.py', SAMPLE], [('evaluation', 'bet/sampling/basicSampling.py sampler.compute_qoi_and_create_discretization, create_random_discretization')],
     'exhaustive enumeration of model programs and process counts with an instrumented model', 'The model records every row it is asked for.', ['output values, call log'])

prop('C24', 'Simple-function approximations of the output measure are probability measures',
     'Every simple-function approximation of an output measure returns a set of cells whose probabilities are non-negative, sum to one, and vanish outside the support; uniform measures on a '
     'rectangle give each cell its share of the rectangle (exactly on regular partitions, as counted by the emulated points otherwise), normal measures give each cell the fraction of the emulated normal points it holds, and user distributions give each cell its fraction of the points. Generators of random partitions are distinct and lie in the documented region around the reference. All processes get the same cells and probabilities, and the '
     'discretization uses them for the next inversion.',
     ['inputs', 'configurations', 'schedules'],
     'all rectangle sizes and placements, cell counts, dimensions, given data sets, process counts, generator seeds from a fixed list',
     'tests check sums and shapes with fixed parameters in serial',
     ['bet/calculateP/simpleFunP.py'], [('approximations', 'bet/calculateP/simpleFunP.py (all public functions)')],
     'exhaustive enumeration of parameters, seeds and process counts vs measure oracle', 'Generator states from an enumerated list.', ['probabilities, domain, cells'])

prop('C25', 'Density-based updates weigh samples by observed over predicted density',
     'The density-based update gives each sample the weight observed density over predicted density of its own output (within its cluster), and the returned updated measure is built from exactly these '
     'weights: Gaussian mixture components have the weighted mean and covariance of their cluster, kernel and fitted marginals use the weights, and component weights are the observed cluster proportions and sum to one; pooled updates weigh each sample by its normalised ratio times its cluster\'s proportion.',
     ['inputs', 'configurations'],
     'all small output layouts, cluster assignments and initial weights, input dimensions, update methods',
     'tests check a single linear problem statistically',
     ['bet/calculateP/calculateR.py'], [('updates', 'bet/calculateP/calculateR.py invert, invert_to_kde, invert_to_gmm, invert_to_multivariate_gaussian, invert_to_random_variable, invert_rejection_sampling')],
     'exhaustive enumeration of small data sets, clusterings and methods vs independent formulas', 'Kernel densities are recomputed with the statistics library.', ['weights, measure parameters'])

prop('C26', 'Sampling an updated measure returns the requested number of proper samples',
     'Drawing from an updated measure returns exactly the requested number of samples of the right dimension over all processes, each drawn from the stored measure: components are used in proportion to their weights (counts within one of their share) and '
     'coordinates are not exchanged; measures that cannot be sampled are refused.',
     ['inputs', 'configurations'],
     'all measure kinds, dimensions, component weights, requested counts and process counts, including counts equal to the dimension',
     'tests draw one large sample from one measure in serial',
     ['bet/sampling/basicSampling.py', 'bet/calculateP/calculateR.py'], [('drawing', 'bet/sampling/basicSampling.py sample_from_updated')],
     'exhaustive enumeration of measures with separated components, counts, process counts', 'Generator states from an enumerated list.', ['drawn samples'])

prop('C27', 'Probability densities and their marginals agree with the stored measure',
     'Evaluating the density of a stored measure at any points returns the definition (product of marginals, mixture of Gaussians, or probability over volume of the containing cell), integrates to one, and evaluating a '
     'marginal integrates the density over the other coordinates (for Voronoi measures, is the kernel estimate of the probability weighted samples); points are treated independently of each other, and densities of wrong dimension or unknown kind are refused.',
     ['inputs', 'configurations', 'histories'],
     'all measure kinds, dimensions, parameters from a small alphabet, evaluation points and batch sizes, marginal indices',
     'tests evaluate at random points and compare shapes',
     [SAMPLE], [('evaluation', 'bet/sample.py evaluate_pdf, evaluate_pdf_marginal, pdf, marginal_pdf')],
     'exhaustive enumeration of measures and evaluation points vs independent formulas and exact cell sums', 'Quadrature on fine lattices for marginal consistency.', ['pdf values'])

prop('C28', 'Distances between measures are metrics of the current measures',
     'The distance between two measures is zero between identical measures, symmetric, non-negative and at most the bound of the chosen (normalized) metric, equals the definition on the comparison points, and '
     'depends only on the current measures and comparison points, not on earlier evaluations.',
     ['inputs', 'histories', 'configurations'],
     'all pairs of small measures, metrics, comparison sets, orders of evaluation and resets',
     'tests of identity and symmetry do not run on current library versions; the rest sample random sets',
     ['bet/postProcess/compareP.py'], [('comparison', 'bet/postProcess/compareP.py compare')],
     'exhaustive enumeration of measure pairs and evaluation histories vs definition-level oracle', 'Comparison points are enumerated lattices where possible.', ['distance values'])

prop('C29', 'Error estimates bound and correct event probabilities as defined',
     'Cell neighbourhoods are exactly the pairs of adjacent cells, the sampling error bounds follow from the cells all of whose neighbours lie in the event and the cells with a neighbour in it, and the model error estimate equals the change of the event '
     'probability caused by shifting outputs by their error, for any sample order and number of processes.',
     ['inputs', 'configurations'],
     'all small sample layouts and orders, region subsets, error assignments, process counts',
     'three of the tests do not run on current library versions; the rest use one layout',
     ['bet/calculateP/calculateError.py'], [('estimates', 'bet/calculateP/calculateError.py')],
     'exhaustive enumeration of layouts and regions vs adjacency and measure oracle', 'Exact adjacency by rational geometry.', ['bounds, neighbours, error estimates'])

prop('C30', 'Library calls never modify the caller\'s data',
     'Arrays, lists and sample sets that a user passes to a library function, apart from the object whose update (or filling) is the purpose of the call, have the same contents afterwards, whatever the data type; repeating a '
     'call with the same arguments gives the same deterministic result.',
     ['inputs', 'histories', 'configurations'],
     'all public functions over enumerated argument types (integer, float, lists) and repeated calls',
     'tests never look at their arguments again',
     [SAMPLE, 'bet/util.py', 'bet/sensitivity/gradients.py', 'bet/calculateP/calculateP.py', 'bet/postProcess/compareP.py', 'bet/postProcess/postTools.py', 'bet/surrogates.py'],
     [('copies before in-place arithmetic', 'bet/sample.py normalize_domain; bet/util.py clean_data')],
     'exhaustive enumeration of public calls with frozen snapshots of all arguments', 'Full product of the stated call table.', ['argument contents'])

prop('C31', 'The built-in serial communicator behaves like one-process MPI',
     'Without an MPI library the package works in serial, and every communication operation and every parallel-aware operation gives the result of a one-process MPI run (scattering takes a sequence with one entry).',
     ['inputs', 'configurations'],
     'all communicator operations with enumerated payloads; all parallel-aware operations of the program library',
     'tests of the fallback are few and the rest of the suite runs with the real library',
     ['bet/Comm.py', 'bet/util.py'], [('fallback classes', 'bet/Comm.py comm_for_no_mpi4py, MPI_for_no_mpi4py')],
     'exhaustive differential execution of communicator operations and programs with and without MPI', 'Fresh interpreter per environment.', ['return values'])

prop('C32', 'Array shaping utilities keep every number in its place',
     'The shaping utilities return arrays of the documented shape in which every number keeps its sample and coordinate, for scalars, lists, tuples and arrays of every layout, and reject impossible layouts; multi-dimensional grids list every combination exactly once in row-major order, '
     'cleaning data replaces only undefined and infinite entries, and gathering keeps process order for arrays of every type.',
     ['inputs'],
     'all layouts and sizes up to the bound for each utility',
     'tests check a few layouts',
     ['bet/util.py'], [('utilities', 'bet/util.py meshgrid_ndim, fix_dimensions_*, clean_data')],
     'exhaustive enumeration of layouts vs definition-level oracle', 'Full product of the stated alphabets.', ['returned arrays'])

prop('C34', 'Figures show exactly the data they are given',
     'Every figure a plotting function saves or shows contains exactly the requested data: the selected samples with their own colour values, reference markers, marginal densities at their own bins, cells with their own probability or density, data '
     'domains and density curves, under the axis labels of the coordinates drawn and the requested file name, whatever options are combined. The figure of a call does not depend on earlier plotting calls and leaves the caller\'s own figures alone.',
     ['inputs', 'histories', 'configurations'],
     'all combinations of the plotting options on small data sets, all ordered pairs of plotting calls, process counts for the calls that gather data',
     'tests only check that plotting does not fail, for a few option combinations',
     ['bet/postProcess/plotP.py', 'bet/postProcess/plotDomains.py', 'bet/postProcess/plotVoronoi.py'],
     [('drawing', 'bet/postProcess/plotP.py plot_*; bet/postProcess/plotDomains.py scatter_*, show_data_domain_*; bet/postProcess/plotVoronoi.py plot_*')],
     'exhaustive enumeration of option combinations and call histories vs the artists of the figures at save and show time',
     'The contents of the figure objects are judged, not rasterised pixels.', ['artists of the saved and shown figures, file names'])

prop('C35', 'The LUQ wrapper hands learned quantities over faithfully',
     'The wrapper of the external learning package evaluates the model at exactly the given samples and times, hands series, times and options on unchanged, and returns discretizations that hold the given inputs '
     'together with the labels and learned values the package computed for each sample; without observation samples only the prediction discretization is built, and a missing package is reported.',
     ['inputs', 'histories'],
     'all small cluster assignments of predictions and observations, output dimensions and ways of supplying the series',
     'the tests are skipped because the external package is not installed',
     ['bet/sampling/useLUQ.py'], [('wrapper', 'bet/sampling/useLUQ.py useLUQ, myModel')],
     'exhaustive enumeration of cluster assignments and supply routes with a recording stand-in for the external package',
     'The external package is not installed; a stand-in with its documented interface records and answers.', ['arguments handed on, discretizations returned'])

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=None, note=None, observe=[], state=[]))
    NA.append({'property': id, 'reason': reason})


na('C33', 'Monte Carlo volumes and inverse probabilities converge to the true measure',
   'As the number of random samples grows, estimated volumes and the probability of any fixed event under the computed inverse measure converge to their exact values.',
   ['inputs'], 'all problems, almost every random sequence, in the limit of infinitely many samples',
   'tests use one seed and fixed sample counts', [SAMPLE, 'bet/calculateP/calculateP.py'],
   [('estimators', 'bet/sample.py estimate_volume, estimate_local_volume')],
   'A limit statement over infinite random sequences: no bounded space of executions decides it; the finite-sample identities behind it (exact counting, conservation) are decided by C01-C03 and C12.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'state': p['state'], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
    checks = []
    notyet = []
    for p in P:
        if p['technique'] is None:
            continue
        if not os.path.exists(os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py')):
            notyet.append({'property': p['id'], 'reason': 'check not built yet'})
            continue
        checks.append({'property': p['id'], 'quick_cmd': './run.py %s quick' % p['id'],
                       'thorough_cmd': './run.py %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': 'model checking: ' + p['technique'],
                       'level': 'model_checking', 'level_note': p['note']})
    man = {'version': 1, 'setup_cmd': './setup.sh',
           'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the checks substitute the mpi4py module before importing bet', 'source_commits': []},
           'checks': checks, 'not_applicable': NA + notyet,
           'notes': 'All checks run the real code of /repo (imported from the working tree) under /verif/mc. See DESIGN.md; known_findings.txt lists repaired and recorded defects.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
