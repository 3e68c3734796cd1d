"""The properties: statement, how each is decided, manifest data."""
PROPS, NA = [], []
O = 'include/qlpeps/optimizer/'
T = 'include/qlpeps/two_dim_tn/'
V = 'include/qlpeps/vmc_basic/'
U = 'include/qlpeps/utility/'
A = 'include/qlpeps/algorithm/'

W_TECH = 'compile-time obligations over the repository headers, discharged by the compiler\'s dataflow analysis (dead violating calls in optimised IR)'
W_NOTE = ('Each obligation is a function with universally quantified arguments that includes the repository\'s current header; it is discharged when the '
          'optimiser removes every violating call from the intermediate code. Nothing is executed and no solver is used. Trusted: clang/gcc optimisers, '
          'libstdc++, the environment models in witness/. ')


def P(id, title, statement, over, qtext, why, files, mech, how, witness=(), rules=(), level='proof', note='', technique=W_TECH, assumptions=(), observe=(), flags=()):
    PROPS.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)),
                      how=how, witness=list(witness), rules=list(rules), level=level, note=(W_NOTE if witness else '') + note, technique=technique,
                      assumptions=list(assumptions), flags=list(flags)))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None)), reason=reason))


P('C01', 'Learning-rate schedules follow their documented law at every iteration',
  'Every learning-rate scheduler returns exactly the value its documented formula gives for the iteration asked and for the energies reported so far: constant, '
  'exponential decay, step decay, multi-step decay (each milestone reached multiplies by gamma), cosine annealing (eta_min + (eta0-eta_min)(1+cos(pi t/T))/2, frozen after T), linear warm-up '
  '(reaches the base rate at the last warm-up step and stays there), and plateau reduction (only after `patience` consecutive non-improving steps, best energy tracked). '
  'A zero interval (decay steps, step size, T, warm-up steps) never divides by zero. A cloned scheduler continues exactly like its original and independently of it.',
  ['inputs', 'histories'], 'all constructor arguments, all iteration numbers, all energy sequences (plateau: inductive step from every state)',
  'The tests sample one parameter set per scheduler and a few iterations; boundary iterations, zero intervals, clones in mid-history and unsorted milestones are not reached.',
  [O + 'lr_schedulers.h'], [('GetLearningRate / Step / Clone of each scheduler class', O + 'lr_schedulers.h')],
  'For each scheduler, obligations state the documented formula for symbolic arguments; boundary cases are separate obligations; the compiler must prove the returned value bit-equal (or equal up to reassociation) to the formula.',
  witness=['lr_laws.cpp'])
P('C02', 'Spike statistics are exact exponential moving averages; spike labels are unique',
  'The running mean and variance used for spike detection start empty, take the first observation as the mean with zero variance, and then follow mean += a(x-mean), '
  'var = (1-a)(var + a(x-mean)^2) with a = 2/(window+1); the standard deviation is the square root of the variance and Reset forgets every observation but keeps the window. '
  'Every spike signal and recovery action has its own documented label in the logs.',
  ['inputs', 'histories'], 'all windows, all observation sequences (inductive step from every state)',
  'The tests feed one short sequence; the recurrence for arbitrary states and reset in mid-history is not pinned.',
  [O + 'spike_detection.h'], [('EMATracker::Update/Reset', O + 'spike_detection.h'), ('SignalName/ActionName', O + 'spike_detection.h')],
  'Obligations state the recurrence from an arbitrary state; label tables are compared pairwise.',
  witness=['spike.cpp', 'names.cpp'])
P('C03', 'Boundary directions and lattice coordinates form a consistent algebra',
  'Opposite exchanges left/right and up/down, is an involution without fixed point and preserves the orientation; Orientation maps left/right to horizontal and up/down to vertical; '
  'Rotate exchanges the two orientations; the leg index of a position follows the left, down, right, up tensor-leg order. A site index exposes its row as component 0 and its column as component 1.',
  ['inputs'], 'all directions, orientations and site coordinates',
  'No stable test touches these functions; every contraction depends on them.',
  ['include/qlpeps/basic.h', T + 'framework/site_idx.h'], [('Opposite/Orientation/Rotate/MPOIndex', 'include/qlpeps/basic.h'), ('SiteIdx', T + 'framework/site_idx.h')],
  'The finite domains are enumerated in obligations and compared with the documented tables.',
  witness=['geometry.cpp'])
P('C05', 'Observable matrices address cells row-major and reject every out-of-range access',
  'An observable matrix of R rows and C columns has R*C cells; (row, col) and the equivalent site index always address the row-major cell row*C+col, for reads, writes and accumulation, and no other cell changes. '
  'An access with row >= R or col >= C throws, even when row*C+col would fall inside the storage. Resizing resets geometry and every cell; extracting hands out all cells in row-major order and later accesses throw.',
  ['inputs', 'histories'], 'all shapes, indices and values (cell contents: shapes up to 3x3)',
  'The tests use one 2x3 matrix and in-range indices.',
  [U + 'observable_matrix.h'], [('operator(), Add, Resize, Extract', U + 'observable_matrix.h')],
  'Address equalities and out-of-range non-return are proved for a matrix in an arbitrary state; value laws for symbolic contents on small shapes.',
  witness=['observable_matrix.cpp'])
P('C06', 'Copying or moving optimizer parameters preserves every setting',
  'Copy construction, copy assignment, move construction and move assignment of optimizer parameters carry over every setting: iteration limit, tolerances, patience, learning rate, scheduler, clipping, step selectors, log path, algorithm, checkpoint and spike recovery. '
  'The source of a copy is unchanged, scheduler objects are never shared between copies, and self-assignment changes nothing.',
  ['inputs', 'histories'], 'all values of all settings, each optional setting present or absent',
  'No stable test copies parameters; a forgotten field in a hand-written copy member changes runs silently.',
  [O + 'optimizer_params.h'], [('OptimizerParams::BaseParams copy/move members', O + 'optimizer_params.h'), ('OptimizerParams constructors', O + 'optimizer_params.h')],
  'Obligations fill every field with arbitrary values, copy, and require every field equal; strings and schedulers are identity tokens.',
  witness=['optparams_copy.cpp'])
P('C07', 'Optimizer factories and parameter structs forward every argument faithfully',
  'Each optimizer factory function yields parameters of its own algorithm in which every argument given reaches exactly the setting it names and every setting not given has its documented default; the simple variants disable tolerance- and plateau-based stopping. '
  'Parameter structs store each constructor argument in its own field. First-order (clippable) algorithms are exactly SGD, AdaGrad and Adam, checkpointing is enabled exactly with a positive period and a path, and asking for another algorithm\'s parameters throws.',
  ['inputs'], 'all arguments of all factory functions and parameter constructors',
  'No stable test calls the factories; same-typed arguments (tolerances, rates) can be swapped without a type error.',
  [O + 'optimizer_params.h'], [('OptimizerFactory', O + 'optimizer_params.h'), ('SGDParams, AdamParams, LBFGSParams, AdaGradParams, MinSRParams', O + 'optimizer_params.h')],
  'Obligations call every factory with symbolic arguments and require every resulting field.',
  witness=['optparams_factory.cpp'])
P('C08', 'The optimizer parameter builder is order independent and never drops a setting',
  'On the optimizer parameter builder each setter changes exactly its own setting, whatever was configured before, and the defaults of settings never given do not depend on which setter was called first; the last algorithm chosen wins. '
  'Incomplete configurations (no base settings, no algorithm, clipping or step selector before any base setting) are rejected with an exception. Building does not change the builder.',
  ['inputs', 'histories'], 'all setter arguments, from the empty and from every fully configured builder state',
  'No stable test uses the builder; order dependence shows up only for particular call sequences.',
  [O + 'optimizer_params.h'], [('OptimizerParamsBuilder', O + 'optimizer_params.h')],
  'Each setter is analysed as the first call and on an arbitrary fully configured state; every field of the built result is compared.',
  witness=['optparams_builder.cpp'])
F = T + 'framework/'
P('C11', 'Tensor matrices own their elements: no leak, no double release, deep copies',
  'Every element placed in a DuoMatrix or TenMatrix belongs to exactly one matrix and is released exactly once. Copies are deep (same shape, equal elements, missing elements stay missing, nothing shared), copy assignment releases the elements it replaces and takes the shape of the source, '
  'moves transfer the elements without cloning and leave the source without elements, and self-assignment (copy or move) changes nothing. alloc replaces an element by a fresh default one, dealloc removes it, clear removes all and keeps the shape; '
  'non-const element access creates a missing element in place, const access never creates one.',
  ['inputs', 'histories'], 'element values symbolic; shapes up to 2x2 with every kind of fill pattern, all pairs of source and target shapes listed in the unit',
  'The tests build one matrix and never assign, move or leak-check; ownership errors are silent until memory corrupts.',
  [F + 'duomatrix.h', F + 'ten_matrix.h'], [('copy/move members, destructor, alloc, dealloc, clear', F + 'duomatrix.h'), ('TenMatrix copy/move members', F + 'ten_matrix.h')],
  'The real class templates are instantiated with an element type whose allocator is a model pool; every allocation, release and element value is followed through the optimised code by the compiler, for symbolic values.',
  witness=['duomatrix_own.cpp', 'ten_matrix_own.cpp'], assumptions=['shapes up to 2x2; std::vector replaced by an equivalent inline model'])
P('C12', 'A tensor matrix is one row-major grid through every view and iterator',
  'rows, cols, size, length, element access, row, column and slice extraction, raw data and iteration of a DuoMatrix all address the same grid: element (r, c) is the same object through each of them. Iteration visits each cell exactly once in row-major order and terminates for every shape, including matrices without rows or columns; '
  'pre- and post-increment, const and non-const iterators agree. Two matrices are equal exactly when they have the same shape and all elements exist and are equal.',
  ['inputs'], 'increment law and size law: every shape and position; views, full iteration and equality: shapes up to 3x3',
  'The tests iterate over one shape; row/column confusions vanish on square matrices and empty shapes are not tried.',
  [F + 'duomatrix.h'], [('DuoMatrix accessors, Iterator, ConstIterator, operator==', F + 'duomatrix.h')],
  'Obligations compare element addresses obtained through each view; the iterator successor law is proved for a matrix of arbitrary size.',
  witness=['duomatrix_geom.cpp', 'duomatrix_law.cpp'], assumptions=['views and equality: shapes up to 3x3'])
P('C13', 'Dumping and loading a tensor reports success truthfully',
  'TenMatrix::DumpTen returns true exactly when the requested element has been written completely to the requested file (binary mode; opening, writing and flushing all succeeded) and releases the element only if asked to and only after that; otherwise the matrix is unchanged. '
  'LoadTen returns true exactly when the element was read from the requested file, the element then is what was read, and no other element changes.',
  ['inputs', 'fault_sequences'], 'every combination of open, write, flush and read failures; every element value and file name',
  'No stable test performs I/O; write errors that appear at flush time cannot be provoked in a unit test without a full disk.',
  [F + 'ten_matrix.h'], [('TenMatrix::DumpTen/LoadTen', F + 'ten_matrix.h')],
  'File streams are replaced by a model whose operations may fail arbitrarily; the obligations relate the returned value to what reached the file.',
  witness=['ten_matrix_io.cpp'], assumptions=['file stream model in witness/qlv_fstream.h'])
P('C14', 'Amplitude consistency summary: sign alignment, mean and relative radius',
  'The consistency summary of a list of amplitudes takes the amplitude of largest magnitude as reference, flips the sign of exactly those amplitudes whose overlap with it has negative real part (nothing is flipped when the reference is below 1e-14), and returns the arithmetic mean of the aligned amplitudes and '
  'the largest distance from that mean divided by the magnitude of the mean (at least machine epsilon). An empty list gives zero mean and zero radius. The printed list shows the first elements in order, separated by commas, and the total count when elements are left out.',
  ['inputs'], 'all complex amplitudes; list lengths 0 to 3, all magnitude orderings and sign patterns; printed lists up to 3 elements with every limit',
  'No stable test covers this header; sign patterns and reference position combine to many cases.',
  [A + 'vmc_update/psi_consistency.h'], [('ComputePsiConsistencySummaryAligned, FormatPsiListTruncated', A + 'vmc_update/psi_consistency.h')],
  'The template is instantiated with a complex-number model; each magnitude ordering and sign pattern is one obligation comparing mean and radius with the definition.',
  witness=['psi.cpp', 'psi_format.cpp'], assumptions=['list lengths up to 3'])
P('C15', 'Suwa-Todo update realises the ring construction exactly',
  'The Suwa-Todo state update draws exactly one random point, from the interval of the current state on the weight ring shifted by the largest weight (wrapped once around the total weight), and returns the unique state whose interval contains the point: the largest weight (first of equals) trades places with state 0 on the ring and is mapped back in the result. '
  'The result is always a valid state index and the caller\'s weights are not changed.',
  ['inputs'], 'all weights, every current state, every drawn point; 1, 2 and 3 states',
  'Sampling tests only bound frequencies statistically; a slightly wrong ring keeps frequencies plausible but breaks balance.',
  [V + 'monte_carlo_tools/suwa_todo_update.h'], [('SuwaTodoStateUpdate', V + 'monte_carlo_tools/suwa_todo_update.h')],
  'The distribution is a model returning an arbitrary number and recording its interval; one obligation per position of the largest weight, current state, target interval and wrap.',
  witness=['suwa_todo.cpp'], assumptions=['up to 3 states', 'std::max_element, std::upper_bound specification models'])
P('C16', 'Directory creation reports truthfully whether the directory is there',
  'CreatePath and EnsureDirectoryExists return true exactly when the path is a directory afterwards: also when it existed before or another process creates it meanwhile, never when a plain file stands there, and false for the empty path or on an error. IsPathExist returns whether anything stands at the path and changes nothing.',
  ['inputs', 'fault_sequences', 'schedules'], 'every initial state of the path, another process creating the directory at any point, errors at any file-system call',
  'Concurrent creation by other MPI ranks happens between two system calls and cannot be scheduled by a unit test.',
  [U + 'filesystem_utils.h'], [('CreatePath/EnsureDirectoryExists/IsPathExist', U + 'filesystem_utils.h')],
  'std::filesystem is replaced by a one-path model with an adversarial second process and arbitrary errors.',
  witness=['fsutil.cpp'], assumptions=['file-system model in witness/fsutil.cpp'])

P('C18', 'Sample statistics and their errors over ranks follow their definitions',
  'Means, variances, standard errors and per-column averages of samples are the textbook values (no data: zero mean; one sample: infinite error). The binned estimate cuts every rank\'s series into bins of floor(sqrt(n)) consecutive samples, drops only the incomplete tail, and the master returns mean and standard error over the bins of all ranks; '
  'gathered single values and lists likewise give, on the master, mean and standard error over ranks entry by entry, every rank takes part in the same collectives, and the variance inflation factor is never below one. Writing data to a text file either writes every number in order and flushes or throws.',
  ['inputs', 'fault_sequences'], 'all sample values; up to 5 samples, 1 to 3 ranks (master and others), lists up to 3 entries; a file failure at any operation',
  'No stable test covers this header; the errors reported with every observable rest on it and a wrong normalisation looks plausible.',
  [V + 'monte_carlo_tools/statistics.h'], [('Mean, Variance, StandardError, AveListOfData, MeanAndBinnedErrorSqrtNUniformBin, GatherStatistic*, IPSInflationFactor, DumpVecData', V + 'monte_carlo_tools/statistics.h')],
  'The templates are instantiated with an MPI model in which the other ranks contribute arbitrary values; the returned values are compared with the definitions for symbolic samples.',
  witness=['statistics.cpp', 'statistics_io.cpp'], assumptions=['series up to 5 samples, up to 3 ranks', 'MPI model in witness/qlv_mpi.h; equality up to reassociation of real arithmetic'])

P('C17', 'Configurations keep occupation numbers, survive transport and reload exactly',
  'A configuration drawn with given occupation numbers (list or map) has exactly that many sites in each state, and numbers that do not add up to the lattice size are rejected; drawn with a local dimension, every site is its own draw from 0..dim-1. Sum, occupation counts and validity describe the sites exactly. '
  'Sending, receiving, exchanging and broadcasting between ranks move every site to the same site, unchanged on the sender or root. Saving either writes the whole configuration or throws; loading returns true exactly when a complete configuration of the same shape was read back and otherwise returns false without throwing.',
  ['inputs', 'fault_sequences', 'histories'], 'all site values; lattices up to 2x3/3x2, occupation patterns listed in the unit under several permutations; rank, tag and root symbolic; failures of opening, each write and closing',
  'No stable test covers this class; a lost or misplaced site breaks conservation laws silently in the middle of a run.',
  [V + 'configuration.h'], [('Configuration::Random, Sum, CountOccupancy, IsValid, Dump, Load', V + 'configuration.h'), ('MPI_Send/Recv/Sendrecv/BCast overloads', V + 'configuration.h')],
  'The real class on the real DuoMatrix is analysed with models of random numbers (arbitrary draw, representative permutations), text files that keep what is written, and MPI; payloads and reloaded sites are compared for symbolic values.',
  witness=['configuration.cpp', 'configuration_io.cpp', 'configuration_mpi.cpp'], assumptions=['lattices up to 6 sites', 'file names, permutations and occupation patterns are representatives', 'models in witness/qlv_io.h, witness/configuration_common.h'])

P('C19', 'Jastrow factor keeps one symmetric value per pair of sites',
  'A Jastrow factor on an Ly x Lx lattice holds one independent value for every pair of distinct sites, zero at the start: a value written through any accessor (linear or lattice indices, either order of the sites, Set, reference or Fill) is read back through every accessor and changes no other pair. '
  'The diagonal reads zero. The field at a site is the sum over all other sites of pair value times density, sites being numbered row by row.',
  ['inputs'], 'all values and densities; lattices up to 2x2, 1x4 and 3x1 for pairs, up to 2x3 for fields',
  'No stable test covers this header; an index collision in the packed triangle appears only for some lattice sizes and pairs.',
  [V + 'jastrow_factor.h'], [('JastrowFactor accessors, Fill, JastrowFieldAtSite', V + 'jastrow_factor.h')],
  'Each writing accessor is combined with each reading accessor for symbolic values; the field is compared with the sum over the other sites.',
  witness=['jastrow.cpp'], assumptions=['lattices up to 6 sites', 'std::vector replaced by an equivalent inline model'])

FLATN = ('The optimizer is analysed whole: every function an obligation reaches is inlined, then the compiler\'s dataflow passes alternate with value numbering modulo the laws of real arithmetic and '
         'propagation of implied conditions (engine/ring.py). Equality is real-number equality; rounding and overflow are outside. ')
OPTA = ['state model: elements form a commutative algebra over the reals with uninterpreted norm, clipping, square root and reciprocal (witness/optimizer_common.h)', 'MPI and solver models in witness/optimizer_common.h', 'runs of up to 3 or 4 steps']
OI = O + 'optimizer_impl.h'
P('C20', 'First-order updates follow their formulas, clipping and learning rate included',
  'On the master every SGD step is v = mu v + g, theta = (1 - eta lambda) theta - eta (v, or mu v + g with Nesterov); AdaGrad accumulates |g|^2 from its initial value and divides by the regularised root; Adam uses bias-corrected moments with decoupled weight decay; each state element has its own accumulators. '
  'Gradients are clipped element-wise and then by global norm before any of these updates; eta is the scheduler\'s value for the step (told the previous energy) or the base rate. A new run starts without velocity or accumulators, and the other ranks change nothing.',
  ['inputs', 'histories'], 'all states, gradients, energies and hyper-parameters; two or three consecutive steps',
  'No stable test runs the optimizer; a wrong bias correction, a velocity kept over runs or a clip applied twice still converges.',
  [OI], [('SGDUpdate, AdaGradUpdate, AdamUpdate, GetCurrentLearningRate, gradient clipping', OI)],
  'Obligations run the real optimizer on a model wave function with symbolic gradients and compare the resulting elements with the formulas.',
  witness=['optimizer_first.cpp', 'optimizer_first_c.cpp', 'optimizer_first_d.cpp'], note=FLATN, assumptions=OPTA)
P('C21', 'An optimization run stops when told to and reports exactly what happened',
  'A run evaluates, records and updates step by step: energies, errors, gradient norms and learning rates list every accepted step in order, the lowest state is the one whose measurement gave the lowest energy (first of equals), final energy, iteration count and convergence flag describe the last step, and callbacks see each step in order and can stop the run. '
  'It stops, without a further update, at the first step after the first whose gradient norm or energy change is below tolerance or which completes the allowed number of steps without a new lowest energy, and not before. All ranks follow the decision of the master, and a second run of the same optimizer equals a run of a fresh one.',
  ['inputs', 'histories', 'schedules'], 'all energies, errors, gradients, tolerances and patience values; runs of up to three steps; master and other ranks',
  'No stable test runs the optimizer; off-by-one stops and a lowest state taken after the update need a particular energy sequence.',
  [OI], [('IterativeOptimize, ShouldStop, LogOptimizationStep, ClearUp', OI)],
  'The real driver loop is analysed with symbolic energies and gradients, each stopping criterion alone and together, on master and worker.',
  witness=['optimizer_run.cpp'], note=FLATN, assumptions=OPTA)
P('C22', 'Spike recovery redoes rejected measurements and never records them',
  'With spike recovery on, a measurement whose error bar or gradient norm exceeds its factor times the running mean, or whose energy exceeds mean + k sigma, is rejected: the same state is measured again while retries remain, then the run goes back to the previous accepted state if rollback is enabled and there is one, otherwise the measurement is accepted with a warning. '
  'Only accepted measurements enter running means, trajectories and the lowest state; a rollback restores the state (not optimizer accumulators) and is not repeated without progress, every action is counted and logged, the first iteration is never judged, and all ranks take the action of the master.',
  ['histories', 'inputs', 'schedules'], 'all energies, errors, gradients and factors; sequences of up to four or five measurements; master and other ranks',
  'A spike at a particular step with a particular retry history is needed to reach each path; no stable test contains one.',
  [OI, O + 'spike_detection.h'], [('DetectS1S2_, DetectS4_, DecideAction_, BroadcastAction_, IterativeOptimize', OI)],
  'Measurement sequences are symbolic; the number and place of evaluations, the counters and the final state are compared with the specified policy.',
  witness=['optimizer_spike.cpp'], note=FLATN, assumptions=OPTA)
P('C23', 'Automatic step selection measures the candidates and keeps the right one',
  'The initial selector measures the states reached with eta, 2 eta, ..., k eta (each the step that would really be made, momentum, weight decay, clipping and natural gradient included), keeps the multiple of lowest energy as base rate for the whole run and selects once. The periodic selector compares eta with eta/2 every n steps: before the phase switch the lower energy wins, after it only an improvement above the larger error bar; trials leave no trace in optimizer state or result. '
  'Unsupported algorithms or schedulers, zero counts, a ratio outside [0,1], a non-positive rate, missing error bars (unless allowed) and non-finite candidate measurements raise an exception on all ranks; every rank measures the same candidates and uses the master\'s choice.',
  ['inputs', 'histories', 'schedules'], 'all energies, errors, gradients and rates; up to three candidates, up to three steps; master and other ranks',
  'No stable test runs a selector; a preview that disagrees with the later step or a trial that advances the velocity is invisible in results.',
  [OI], [('IterativeOptimize (step selectors), PreviewUpdate', OI)],
  'Candidate energies are symbolic and split by order; visited states, chosen rate and resulting state are compared with the specified policy.',
  witness=['optimizer_select.cpp'], note=FLATN, assumptions=OPTA)
P('C24', 'Stochastic reconfiguration solves and applies exactly the specified linear problem',
  'Every stochastic-reconfiguration step hands the solver the unclipped gradient, the samples and mean of this step, the configured shift and limits, and a starting point; the state moves by -eta times the solution (divided by its norm when normalisation is requested), and iteration counts and norms are those of this solve. Missing samples or mean raise an exception. '
  'A natural gradient whose norm exceeds its factor times the running mean, or a solve that used suspiciously few iterations, is treated as a spike like any other; worker ranks take part in the solve and change nothing.',
  ['inputs', 'histories'], 'all states, gradients, samples, solver outcomes and parameters; up to three steps',
  'No stable test runs this path; clipping the gradient or reusing a stale solution still lowers the energy.',
  [OI], [('StochasticReconfigurationUpdate, CalculateNaturalGradient, DetectS3_', OI)],
  'The linear solver is a model returning an arbitrary solution and recording what it was asked; recorded problem and resulting state are compared with the specification.',
  witness=['optimizer_sr.cpp'], note=FLATN, assumptions=OPTA)

P('C25', 'L-BFGS builds the limited-memory BFGS direction from accepted steps only',
  'The L-BFGS direction is -H g, H being the BFGS inverse updates of (s.y/y.y) I by the kept pairs s = theta\' - theta, y = g\' - g of consecutive accepted measurements (steepest descent without pairs, or when -H g does not descend, in which case the pairs are forgotten); '
  'a pair is kept only if its curvature exceeds the minimum (after damping, when enabled), the oldest pair goes when the history is full, and the direction is scaled down to its maximum norm. '
  'Pairs never come from rejected measurements or from an earlier run, a zero history size is rejected on every rank, and worker ranks follow the same collectives without changing their state.',
  ['inputs', 'histories'], 'all states, gradients and parameters in two dimensions; up to four steps, histories of up to three pairs; resampling, rollback (history size one), second run; master and other ranks',
  'No stable test runs the optimizer; a stale pair or a transposed recursion still descends, only worse.',
  [OI], [('ComputeLBFGSSearchDirection_, UpdateLBFGSHistoryFromAnchor_, ApplyFixedLBFGSStep_, snapshots', OI)],
  'The direction of the real two-loop recursion is compared with the explicit matrix product of the BFGS updates, both built from the same symbolic pairs.',
  witness=['optimizer_lbfgs.cpp'], note=FLATN, assumptions=OPTA)
P('C26', 'A strong-Wolfe step is accepted only at a point meeting both conditions',
  'The strong-Wolfe search tries the clamped learning rate first, doubles the step while the energy falls and the slope stays steep, and bisects the bracket otherwise; it accepts a point only if its energy is at most E + c1 a phi\'(0), and, in a bracket or after the first trial, below the best earlier end, and its slope is at most max(-c2 phi\'(0), tolerance) in magnitude. '
  'The state and rate reported are those of the accepted point, no more than max_eval points are measured, and when none qualifies the run throws or, if allowed, takes the scaled fixed step (at least min_step). '
  'Meaningless parameters are rejected on all ranks before anything is measured, and all ranks decide on the numbers of the master.',
  ['inputs', 'histories', 'schedules'], 'all energies, slopes, constants and rates; up to four measurements per search; master and other ranks',
  'No stable test runs a line search; accepting the wrong end of a bracket needs a particular energy profile.',
  [OI], [('StrongWolfeLBFGSStep_', OI)],
  'Energies and slopes at the trial points are symbolic; each path of the search is one obligation on the points visited, the decision and the resulting state.',
  witness=['optimizer_wolfe.cpp'], note=FLATN, assumptions=OPTA)

UPD = V + 'configuration_update_strategies/'
WFC = V + 'wave_function_component.h'
P('C27', 'Monte-Carlo updaters realise their transition rule and keep the sample consistent',
  'An exchange move swaps the two states of a bond with probability min(1, |psi_new/psi|^2) and does nothing when they are equal; the full-space, three-site and Hubbard moves offer each reachable local state exactly once (all pairs; all distinct permutations; all pairs with the same numbers of up and of down electrons) with weights in the ratio of |psi|^2 and adopt the state drawn. '
  'After every move configuration, projected tensors, contractor (environments erased or trial committed) and amplitude belong to the same configuration, a rejected move changes nothing, and the same holds for construction, global replacement and trials of a wave-function component. '
  'An open-boundary sweep visits every bond (or straight triple) exactly once with the environments at that place, a periodic sweep draws as many uniformly random bonds as there are bonds, and the reported rate is accepted/attempted.',
  ['inputs', 'histories'], 'all amplitudes and draws, all pairs of states, all Hubbard pairs, every ordering pattern of three states; both orientations; lattices up to 4x4 for sweeps',
  'The updaters need the tensor library, so no stable test compiles them; a wrong acceptance ratio or a stale environment biases samples silently.',
  [UPD + 'square_nn_updater.h', UPD + 'square_3site_updater.h', UPD + 'square_hubbard_u1u1_updater.h', WFC],
  [('TwoSiteNNUpdateLocalImpl', UPD + 'square_nn_updater.h'), ('TNN3SiteUpdateImpl', UPD + 'square_3site_updater.h'), ('UpdateLocal/BeginTrial/AcceptTrial', WFC)],
  'The real updaters and wave-function component are compiled on a model lattice whose amplitudes are uninterpreted functions of the tensors asked for and whose contractor requires its window at the place asked; each transition is an obligation over all amplitudes and draws.',
  witness=['updaters_exchange.cpp', 'updaters_states.cpp', 'updaters_sweep.cpp', 'updaters_component.cpp'], note=FLATN,
  assumptions=['Amplitudes are real in the model; the contraction itself is uninterpreted', 'The Suwa-Todo rule is C15; a draw is arbitrary in its interval', 'The Jastrow-dressed t-J updater is not covered (cannot be instantiated in the repository)'])

EVU = 'include/qlpeps/algorithm/vmc_update/'
P('C28', 'Energy and gradient estimates are the stated averages, on any number of ranks',
  'A Monte-Carlo evaluation returns the energy mean of its samples, the gradient mean(conj(E_loc) O*) - conj(E) mean(O*) for every site and component (O* = conj(1/psi) hole, or the parity-corrected ratio for fermions, in the component of the sampled configuration only), the averaged acceptance rates, the local energies in order and, exactly when asked for, each O* and their mean; the energy-only evaluation averages the same energies. '
  'Every rank samples the state of the master, broadcast before the component is refreshed, all ranks return its energy and only the master an error, and a mean over ranks is the sum of every rank\'s tensor divided by their number. '
  'The exact summation gives sum(w E)/sum(w) and the gradient (sum(w conj(E) O*) - conj(E) sum(w O*))/sum(w) with every configuration counted by exactly one rank, and the enumeration yields every distinct arrangement exactly once, row by row.',
  ['inputs', 'configurations', 'schedules'], 'all complex amplitudes, energies, holes and rates; one or two samples, all basis states of a 1x2 lattice with two states per site; 1-4 ranks; bosons and fermions',
  'The evaluators need the tensor library, so no stable test compiles them; a missing conjugate vanishes for real tensors and a wrong normalisation for one rank.',
  [EVU + 'mc_energy_grad_evaluator.h', EVU + 'exact_summation_energy_evaluator.h', V + 'statistics_tensor.h', 'include/qlpeps/utility/helpers.h'],
  [('MCEnergyGradEvaluator::Evaluate', EVU + 'mc_energy_grad_evaluator.h'), ('ExactSumEnergyEvaluatorMPI', EVU + 'exact_summation_energy_evaluator.h'), ('MPIMeanTensor', V + 'statistics_tensor.h')],
  'Tensors are complex numbers that know whether they have a shape; samples, energies and holes are symbolic and the results are compared with the defining formulas in the polynomial normal form.',
  witness=['estimator_mc.cpp', 'estimator_exact.cpp', 'estimator_mean.cpp'], note=FLATN,
  assumptions=['Tensors are one number each; contraction and parity are uninterpreted or scalar', 'Floating-point sums are compared as real algebra', 'The binned mean of the energies is C18'])

ENG = EVU + 'monte_carlo_engine.h'
P('C29', 'The sampling engine starts, warms up, rescues and normalises alike on all ranks',
  'A rank whose first configuration cannot be used (its component throws or its amplitude is outside the thresholds) adopts the configuration of the lowest-numbered usable rank and is no longer taken as warmed up, the others keep theirs, and the run ends when rescue is disabled, no rank is usable or the adopted configuration fails. '
  'Every normalisation scales the state of every rank by the sites-th root of one over the largest |amplitude| over the ranks and rebuilds the component; warm-up makes the configured sweeps once unless already warmed up and ends the run on an illegal amplitude; sampling makes the configured sweeps, refreshing keeps configuration and truncation, every rank draws ceil(total/ranks) samples, a directory is created by the master only and waited for by all, and all ranks take part in the same collectives on the communicator given at construction. '
  'A boundary condition, contractor, parameter set or lattice size (2^k or 3*2^k, square, bosonic for TRG) that do not fit are refused with an exception before any collective.',
  ['inputs', 'configurations', 'fault_sequences'], 'all amplitudes, thresholds and remote contributions, 1-3 ranks, every position of unusable ranks modelled; component construction and directory creation fail or succeed',
  'The engine needs the tensor library and several MPI ranks, so no stable test compiles it; rescue paths only run when a rank fails.',
  [ENG, 'include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h'],
  [('MonteCarloEngine', ENG), ('EnsureConfigurationValidity', ENG), ('NormalizeStateOrder1', ENG), ('SelectTruncateParams_', ENG)],
  'The real engine is compiled on a model state and component whose amplitude is an uninterpreted function and whose constructor may throw, with collectives modelled for one rank against arbitrary remote ones; each claim is an obligation over all of these.',
  witness=['engine.cpp'], note=FLATN,
  assumptions=['MPI collectives and MPI_Abort behave as the standard says', 'In the try blocks of the engine only std::exception types are thrown', 'Amplitudes are real in the model; pow is uninterpreted'])

P('C30', 'Every header can be included by any number of translation units',
  'The library is header-only: no header defines a function or variable with external linkage that is not inline, so a program of several translation units including any of them links. '
  'Every header is guarded against double inclusion by a guard no other header uses, so including one never hides another, and every project header that is included exists.',
  ['programs', 'configurations'], 'all programs of several translation units that include any of the headers',
  'Every test is a single translation unit and includes a few headers.',
  ['include/qlpeps'], [('ComplexConjugate', 'include/qlpeps/utility/helpers.h'), ('GenerateAllPermutationConfigs', EVU + 'exact_summation_energy_evaluator.h'), ('unit_even_distribution', 'include/qlpeps/consts.h')],
  'A scope parser over the tokens of every header (comments, literals and directives removed; both sides of every conditional group) lists the declarations at namespace scope and classifies each by linkage: template, inline, constexpr, static, const, anonymous namespace, declaration only, or an external definition, which is reported; guards and includes are compared over all headers.',
  rules=[('headers', {})], note='A lexical rule: complete for declarations written out in the headers, blind to what macros expand to.', technique='custom lint over the declaration structure: linkage of every namespace-scope declaration of every header, uniqueness of include guards, resolution of includes',
  assumptions=['Macros do not expand to namespace-scope definitions', 'Headers of the tensor library and of the standard library are not examined'])

P('C31', 'A stop signal to any rank is seen by all ranks at the next check',
  'After MPISignalGuard::Register, SIGINT and SIGTERM (and no other signal) request a stop on the rank that gets them, however often they arrive; EmergencyStopRequested, called by all ranks, does one collective and returns true on every rank exactly when some rank has a request, changes nothing, and answers the same when asked again; '
  'LocalStopRequested tells the request of this rank, Reset takes only that back and a later signal requests again. The signal handler does nothing but async-signal-safe work: no stream or stdio output, no MPI call.',
  ['schedules', 'fault_sequences'], 'every set of ranks that got a signal (1 to 3 ranks), either signal, once or twice, before or after a reset',
  'No test raises a signal; a rank that stops alone leaves the others hanging in their next collective.',
  ['include/qlpeps/base/mpi_signal_guard.h'], [('MPISignalGuard', 'include/qlpeps/base/mpi_signal_guard.h')],
  'The class is instantiated with a model of the signal table, of std::atomic and of MPI_Allreduce in which the other ranks have arbitrary requests; stream, stdio and MPI calls made while a handler runs are recorded.',
  witness=['signal_guard.cpp'], note=FLATN,
  assumptions=['MPI collectives behave as the standard says', 'A signal interrupts between operations on the atomic flag; that the flag is atomic is not examined'])

CONTR = T + 'tensor_network_2d/'
N('N01', 'Boundary-MPS and TRG contractions approximate the exact amplitude',
  'For bond dimensions large enough the contracted amplitude equals the exact contraction of the projected network, and truncation errors stay within the requested bounds.',
  ['inputs'], 'all tensors and truncation parameters', 'Tests sample a few small networks.',
  [CONTR + 'bmps/bmps_contractor.h', CONTR + 'trg/trg_contractor.h'], [('Trace / ReplaceNNSiteTrace', CONTR + 'bmps/bmps_contractor.h')],
  'Singular-value truncation errors depend on the tensor contents; no static argument in reach bounds them, and the tensor library is not installed.')
N('N02', 'Monte-Carlo sampling converges to |psi|^2 and is ergodic in its sector',
  'Repeated sweeps sample configurations with probability proportional to |psi|^2 from any starting configuration.',
  ['histories'], 'all wave functions and chain lengths', 'Tests look at a few averages.',
  [V + 'monte_carlo_tools/suwa_todo_update.h'], [('SuwaTodoStateUpdate', V + 'monte_carlo_tools/suwa_todo_update.h')],
  'Stationarity of one transition is decided (C15, C27); ergodicity and mixing are properties of the amplitude landscape, a runtime quantity.')
N('N03', 'Conjugate gradient reaches its tolerance within the iteration limit on every SR system',
  'The solver converges for every positive semi-definite S matrix met in stochastic reconfiguration.',
  ['inputs'], 'all S matrices', 'Tests solve a few small systems.',
  [U + 'conjugate_gradient_solver.h'], [('ConjugateGradientSolver', U + 'conjugate_gradient_solver.h')],
  'Convergence depends on the spectrum and on rounding.')
N('N04', 'Optimised energies approach the ground-state energy',
  'Variational optimisation lowers the energy towards the known ground-state energies of the model Hamiltonians.',
  ['histories'], 'all models and schedules', 'Tests compare a few energies.',
  [O + 'optimizer_impl.h'], [('IterativeOptimize', O + 'optimizer_impl.h')],
  'A statistical and numerical outcome; no static argument bounds it.')

BY_ID = {e['prop']['id']: e for e in PROPS}
