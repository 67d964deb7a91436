#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; the outputs are committed)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
I = "include/qlpeps/"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[I + f for f in files], mechanism=[dict(name=n, where=I + w) for n, w in mech]),
                  _tech=tech, _note=note))


TRUST = "Trusts the compiler, the generator's reach and the tolerances stated in DESIGN.md. "

prop("C01", "Learning-rate schedules follow their closed-form law at every iteration",
     "Every stateless learning-rate schedule (constant, exponential, step, cosine annealing, linear warm-up, multi-step with milestones in any order) returns exactly the rate its documented closed form gives, at every iteration and for every legal parameter set, whatever was asked before. The rate stays inside the schedule's bounds and is monotone in its documented direction. A clone is the same kind of schedule with the same parameters and behaviour, and the description names the parameters that were set.",
     ["inputs", "histories"], "all schedule kinds, parameters, iteration numbers 0..4e9 and orders of queries",
     "The unit tests check a handful of iterations of one parameter set per schedule; unsorted milestones, zero-length horizons, clones, descriptions and large iterations are never sampled.",
     ["optimizer/lr_schedulers.h"], [("LearningRateScheduler subclasses", "optimizer/lr_schedulers.h")],
     "property-based testing: generated schedules against a long-double reference law", TRUST + "Steps/horizons of at least one where the law divides by them.")
prop("C02", "Plateau schedule decays exactly when progress stalls, and clones are isolated",
     "The plateau schedule multiplies its rate by its factor exactly when the given number of consecutive energy reports failed to improve on the best energy by more than the threshold, then starts counting afresh from the current energy; the rate never rises. Cloning copies the full state reached so far, and afterwards original and clone evolve independently.",
     ["histories", "inputs"], "all energy sequences, parameters and clone points",
     "One fixed energy sequence is tested; exact-threshold ties, repeated decays and clones taken mid-history are not.",
     ["optimizer/lr_schedulers.h"], [("PlateauLR", "optimizer/lr_schedulers.h")],
     "stateful property-based testing against a plateau state-machine model", TRUST + "Energies finite, patience at least one.")
prop("C03", "Energy moving average and variance equal the weighted-history definition",
     "After any sequence of observations the tracker's mean is the exponentially weighted mean with smoothing 2/(window+1) started at the first observation, and its variance is the matching exponentially weighted variance: never negative, zero for constant series, equivariant under affine maps of the data. Resetting forgets everything, copies are independent, and each spike signal and action has its own fixed log name.",
     ["histories", "inputs"], "all observation sequences, window lengths, resets and copies",
     "Tests use one window and constant or step data and only check loose inequalities on the deviation.",
     ["optimizer/spike_detection.h"], [("EMATracker", "optimizer/spike_detection.h"), ("SignalName/ActionName", "optimizer/spike_detection.h")],
     "stateful and metamorphic property-based testing against a long-double model", TRUST + "Window at least one, finite data.")
prop("C04", "2D containers own their elements exactly once and read back what was written",
     "After any history of element writes, allocations, deallocations, copies, moves, assignments and clears, a lattice container holds at each site exactly the last value written there or nothing; copies are deep and independent, moves leave the source without elements, and no element is leaked, freed twice or shared. Rows, columns, slices, iteration, emptiness, equality and allocation queries all describe that same content.",
     ["histories"], "all operation histories over several containers of any shape",
     "Tests allocate and copy a few fixed shapes once; aliasing, double frees and stale state need longer histories.",
     ["two_dim_tn/framework/duomatrix.h", "two_dim_tn/framework/ten_matrix.h", "basic.h"],
     [("DuoMatrix", "two_dim_tn/framework/duomatrix.h"), ("TenMatrix", "two_dim_tn/framework/ten_matrix.h")],
     "stateful property-based testing against a value model under ASan/UBSan", TRUST + "Self-assignment and indexing an empty site by value are outside the contract.")
prop("C05", "A dumped lattice element loads back unchanged, and failures are reported",
     "Writing an element of a lattice container to a file and reading it back at any site gives an equal element, with or without releasing the memory on dump; the stored file keeps its content whatever happens to the container afterwards. A dump to an unwritable path and a load of a missing or truncated file return failure instead of claiming success.",
     ["histories", "fault_sequences"], "all histories of writes, dumps, loads and file damage", "No available test reads or writes element files at all.",
     ["two_dim_tn/framework/ten_matrix.h"], [("TenMatrix::DumpTen/LoadTen", "two_dim_tn/framework/ten_matrix.h")],
     "stateful property-based testing with injected file faults", TRUST + "The element type is a stand-in with variable-length binary stream operators.")
prop("C06", "Observable grids accumulate at the right site, bounds-checked, row-major",
     "Values set or added at a site of an observable grid are read back at that same site only, by coordinates or by site index, and flattening or extracting yields all values row by row. Any access outside the current shape raises an out-of-range error and changes nothing, and resizing sets the new shape with every element at the given initial value.",
     ["histories", "inputs"], "all shapes, histories and (in- and out-of-range) sites", "Tests use one square-ish shape and a few fixed cells.",
     ["utility/observable_matrix.h", "two_dim_tn/framework/site_idx.h"], [("ObservableMatrix", "utility/observable_matrix.h"), ("SiteIdx", "two_dim_tn/framework/site_idx.h")],
     "stateful property-based testing against a vector model under ASan/UBSan", TRUST)
prop("C07", "Amplitude consistency summary is the sign-aligned mean and relative spread",
     "For any list of repeated amplitude evaluations the summary's mean is the mean after flipping each value onto the sign branch of a largest-magnitude value, and its spread is the largest distance to that mean divided by the mean's magnitude; it does not depend on the order or on individual signs, scales with the data, and is zero for empty, single or all-zero lists (magnitudes below about 1e-11 count as noise). The printable list shows the first values up to the limit and, only when some are left out, the total count. Warnings and configuration rescue are on by default with their documented limits.",
     ["inputs"], "all real and complex lists with any spread, sign pattern and scale", "No available test calls it.",
     ["algorithm/vmc_update/psi_consistency.h"], [("ComputePsiConsistencySummaryAligned", "algorithm/vmc_update/psi_consistency.h")],
     "property-based testing against the definition plus metamorphic relations", TRUST + "Values below the internal 1e-14 floor are not asserted.")
prop("C08", "Rejection-minimised local update keeps the target distribution stationary",
     "For any non-negative weights with positive weight on the current state, the state update returns a valid state of positive weight, its transition probabilities satisfy global balance with respect to the weights, and a state is kept only with the unavoidable probability (zero unless it outweighs all others together). Rescaling all weights changes nothing and the caller's weights are left untouched.",
     ["inputs"], "all weight vectors incl. zeros, ties and dominant states, all current states and random numbers incl. the extremes", "The existing statistical test needs the unavailable tensor library and samples one weight vector.",
     ["vmc_basic/monte_carlo_tools/suwa_todo_update.h"], [("SuwaTodoStateUpdate", "vmc_basic/monte_carlo_tools/suwa_todo_update.h")],
     "property-based testing with a stratified random source measuring the transition matrix", TRUST)
prop("C09", "Optimizer parameters carry exactly what was requested, copies independent",
     "Whatever the order of calls, parameters made by the builder or by a factory contain exactly the values given and the documented defaults for everything else; incomplete or misordered requests are rejected with an error. Copies and successive products are independent of each other, including the state of their learning-rate schedules.",
     ["histories", "inputs"], "all builder call orders, factory arguments and copies", "No available test builds parameters.",
     ["optimizer/optimizer_params.h"], [("OptimizerParamsBuilder", "optimizer/optimizer_params.h"), ("OptimizerFactory", "optimizer/optimizer_params.h")],
     "stateful property-based testing against a record model", TRUST)
prop("C10", "Directory helpers report exactly whether the directory exists afterwards",
     "Ensuring or creating a directory makes it and all missing parents, returns true exactly when a directory is there afterwards, and returns false, without throwing, when a file or broken link is in the way or the path is empty. The existence query agrees with the file system.",
     ["histories", "fault_sequences"], "all path shapes and directory histories", "No available test calls them.",
     ["utility/filesystem_utils.h"], [("CreatePath/EnsureDirectoryExists/IsPathExist", "utility/filesystem_utils.h")],
     "stateful property-based testing against std::filesystem", TRUST + "Runs in a scratch directory.")
STAND = "The tensor library is absent here: a small dense stand-in (validated by running the repository's own tests against it) supplies tensors. "
B2 = "two_dim_tn/tensor_network_2d/"
prop("C11", "Boundary-MPS contraction of a finite network is exact when nothing is truncated",
     "When the bond cap is large enough that nothing is discarded, every way of contracting an open-boundary tensor network by boundary MPS gives the exact value of the network: traces from any row or column after growing environments in any order, traces with one, two or three neighbouring tensors replaced, hole environments closed with any tensor, moving windows in either direction, and boundary walkers stepped over layers. After tensors are changed and the affected environments invalidated, the results are those of the changed network, and a cloned or copied contractor or walker never disturbs the original.",
     ["inputs", "histories"], "all lattice sizes, bond dimensions, tensors (real, complex, with or without U(1) symmetry), compression schemes and histories of growth, update, window move and trace", "The repository's contraction tests need the unavailable tensor library and follow one fixed path on one fixed model.",
     [B2 + "bmps/bmps_contractor.h", B2 + "bmps/bmps_contractor_impl.h", "one_dim_tn/boundary_mps/bmps_impl.h", B2 + "tensor_network_2d.h"],
     [("grow/evolve", B2 + "bmps/impl/bmps_contractor_grow.h"), ("traces", B2 + "bmps/impl/bmps_contractor_trace.h"), ("walker", B2 + "bmps/impl/bmps_walker.h"), ("boundary tensors", B2 + "bmps/impl/bten_operations.h"), ("init/invalidate", B2 + "bmps/impl/bmps_contractor_init.h")],
     "stateful property-based testing against an exact dense contraction", TRUST + STAND + "Variational compression is required to be exact only for boundaries with at most two states.")
prop("C12", "Boundary-MPS truncation respects its cap and loses only the discarded weight",
     "Under any bond cap and truncation error, no boundary MPS ever has a bond larger than the cap; a network whose boundaries have rank at most the cap is contracted exactly whatever the full dimension was, and otherwise the error of a compressed boundary state is bounded by the weight that was discarded.",
     ["inputs"], "all networks, caps, truncation errors and compression schemes", "Tests compare one model against stored numbers.",
     ["one_dim_tn/boundary_mps/bmps_impl.h", "one_dim_tn/boundary_mps/bmps.h"], [("BMPS::MultiplyMPO*", "one_dim_tn/boundary_mps/bmps_impl.h"), ("truncation parameters", "one_dim_tn/boundary_mps/bmps.h")],
     "property-based testing with low-rank constructions and an exact oracle", TRUST + STAND)
prop("C13", "Configurations keep requested occupancies and survive files and messages",
     "A configuration randomised with prescribed occupancies contains every state exactly as often as asked, at any site, and a request whose total does not match the lattice is rejected without change. Sum, occupancy count, validity and equality describe the content. Dumping and loading, or sending between ranks by any of the message functions on any communicator, reproduces the configuration exactly; a missing, truncated, unreadable or differently shaped file makes loading return false without throwing.",
     ["histories", "inputs", "fault_sequences"], "all lattice shapes, occupancies, histories of files and damages, rank counts 2-4 and message patterns", "Its tests need the unavailable libraries and use one configuration.",
     ["vmc_basic/configuration.h"], [("Configuration", "vmc_basic/configuration.h"), ("MPI_Send/Recv/Sendrecv/BCast", "vmc_basic/configuration.h")],
     "stateful property-based testing against a grid model, with file faults and MPI runs", TRUST + "A failed load of damaged data may leave partial content.")
prop("C14", "Jastrow coefficients are symmetric and the field is the weighted density sum",
     "A Jastrow coefficient written for a pair of sites, in either order and by any of the setters, is read back for both orders and for no other pair, and the diagonal is zero. The field at a site is the sum over all other sites of coefficient times density.",
     ["histories", "inputs"], "all lattice shapes, write histories and densities", "No test available here exercises it.",
     ["vmc_basic/jastrow_factor.h"], [("JastrowFactor", "vmc_basic/jastrow_factor.h")],
     "stateful property-based testing against a map model", TRUST)
prop("C15", "Monte Carlo means and errors equal their definitions on any number of ranks",
     "Means, variances, standard errors, list averages and the autocorrelation inflation factor equal their textbook definitions for all real and complex data, including constant series, large offsets, one sample (infinite error) and no samples. Gathered over ranks, the master obtains the mean and the non-negative finite standard error of all ranks' values (or of the square-root-size bin means), whatever the communicator, and tensors are averaged element by element.",
     ["inputs", "schedules"], "all series, lengths, rank counts 1-4 and communicators", "Tests use one fixed series and need unavailable libraries; cancellation only shows for special data.",
     ["vmc_basic/monte_carlo_tools/statistics.h", "vmc_basic/statistics_tensor.h"], [("Mean/Variance/StandardError", "vmc_basic/monte_carlo_tools/statistics.h"), ("MeanAndBinnedErrorSqrtNUniformBin", "vmc_basic/monte_carlo_tools/statistics.h"), ("MPIMeanTensor", "vmc_basic/statistics_tensor.h")],
     "property-based testing against long-double definitions, under MPI", TRUST)
prop("C16", "Conjugate gradient solves positive systems and reports failure truthfully",
     "For every self-adjoint positive-definite operator the solver, serial or distributed over ranks with the operator split in any way, converges to a solution whose true residual meets the requested tolerance, within about as many iterations as there are distinct eigenvalues. The reported residual is the true one; an unconverged result is never worse than the start and says why it stopped (negative operators as indefinite). Broken products (NaN, infinity) at any iteration end the solve with a finite iterate and no rank left waiting.",
     ["inputs", "fault_sequences", "schedules"], "all operators up to dimension 8 and condition 1e3 at any scale, starts, tolerances, operator splits, faults at any product", "Tests solve three fixed systems.",
     ["utility/conjugate_gradient_solver.h"], [("ConjugateGradientSolver", "utility/conjugate_gradient_solver.h"), ("ConjugateGradientSolverMaster/Slave", "utility/conjugate_gradient_solver.h")],
     "property-based testing with constructed spectra and injected faults, serial and MPI", TRUST)
prop("C17", "Tensor-product-state arithmetic is element-wise and keeps the lattice",
     "Sums, differences, negation, scalar multiples (real and complex), their in-place forms, copies and moves, site normalisation and scaling, element-wise square, squared norm, square root, inverse and clipping, and global-norm clipping act on every stored component of every site exactly as on plain numbers, for real and complex, symmetric and fermionic tensors; a missing component acts as zero. Inner product is the sum of conj(a)*b, NormSquare the sum of squared moduli. Results keep lattice size, physical dimension and boundary condition, operands stay unchanged, and bond-dimension queries describe the inner bonds of any lattice, including single rows and columns.",
     ["histories", "inputs"], "all lattice shapes up to 4x4, open and periodic, element and symmetry types, histories of up to nine operations", "Its tests need unavailable libraries and use one 2x2 state.",
     ["two_dim_tn/tps/split_index_tps.h", "two_dim_tn/tps/split_index_tps_impl.h", "two_dim_tn/tps/tps_impl.h"], [("SplitIndexTPS operators", "two_dim_tn/tps/split_index_tps.h"), ("ElementWise*/Clip*/Normalize*", "two_dim_tn/tps/split_index_tps_impl.h"), ("bond dimension queries", "two_dim_tn/tps/split_index_tps_impl.h")],
     "stateful property-based testing against an array model", TRUST + STAND)
prop("C18", "Tensor-product states survive files and messages, and failed writes are reported",
     "Dumping a state and loading it, into any object, gives the same lattice, boundary condition, legs and numbers, with or without releasing memory and over an older dump; older metadata formats load as documented. A missing tensor, metadata or directory makes the load fail, and a tensor or metadata file that cannot be written makes the dump raise an error. Send/receive (from a named or any source) and broadcast from any root deliver the state unchanged to every receiver whatever it held before, missing components included.",
     ["histories", "fault_sequences", "schedules"], "all lattices up to 3x3, faults at any tensor file, rank counts 2-4, any root", "Tests write one state and inject no fault.",
     ["two_dim_tn/tps/split_index_tps_impl.h", "two_dim_tn/tps/tps_impl.h"], [("SplitIndexTPS::Dump/Load", "two_dim_tn/tps/split_index_tps_impl.h"), ("MPI_Send/MPI_Recv/MPI_Bcast", "two_dim_tn/tps/split_index_tps_impl.h"), ("TPS::Dump/Load", "two_dim_tn/tps/tps_impl.h")],
     "property-based testing with injected file faults and MPI runs", TRUST + STAND)
prop("C19", "Conversions and superposition preserve the wave function",
     "Splitting the physical index of a state gives components equal to the slices of its tensors, regrouping is the inverse, and both keep the boundary condition. Projecting on a configuration selects exactly the component of every site, single-site updates follow, and a configuration outside the physical dimension or support, or an uninitialised site, is reported with the documented exception. The amplitude of a weighted wave-function sum on every configuration is the weighted sum of the amplitudes, for any real or complex coefficients, open or periodic.",
     ["inputs", "histories"], "all lattices up to 3x3, physical dimensions up to 3, up to three states, any coefficients; amplitudes by exact contraction", "Tests only look at bond dimensions of the sum.",
     ["two_dim_tn/tps/tps_impl.h", "two_dim_tn/tps/split_index_tps.h", "two_dim_tn/tensor_network_2d/tensor_network_2d_basic_impl.h", "api/conversions.h"], [("SplitIndexTPS::FromTPS/GroupIndices", "two_dim_tn/tps/split_index_tps_impl.h"), ("WaveFunctionSum", "two_dim_tn/tps/tps_impl.h"), ("TensorNetwork2D", "two_dim_tn/tensor_network_2d/tensor_network_2d_basic_impl.h")],
     "property-based testing against slices and exact contraction", TRUST + STAND)
prop("C20", "Monte Carlo sweeps keep walkers consistent and sample |psi|^2",
     "After any history of sweeps, trial moves, local and global configuration changes, a walker's amplitude is the amplitude of its configuration and its network is the projection on it; copies are independent. Exchange and three-site sweeps conserve the number of sites in every state, Hubbard sweeps the number of up and of down electrons, and acceptance rates are fractions of the attempted moves. Every sweep of every updater (nearest-neighbour exchange, full space, three-site, Hubbard; open, and periodic for the first two) leaves the distribution |psi|^2 invariant within its sector, whatever the overall scale of psi, and from any start reaches every configuration of appreciable probability. A rejected trial changes nothing.",
     ["histories", "inputs", "schedules"], "open lattices 2x2 to 4x4, periodic 2x2 to 4x4, physical dimension up to 4, any tensors and seeds; statistical test at 6.5 sigma", "A handful of sampled sweeps cannot show a distribution; its tests need unavailable libraries.",
     ["vmc_basic/configuration_update_strategies/square_nn_updater.h", "vmc_basic/configuration_update_strategies/square_3site_updater.h", "vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h", "vmc_basic/wave_function_component.h"],
     [("NN updaters", "vmc_basic/configuration_update_strategies/square_nn_updater.h"), ("3-site", "vmc_basic/configuration_update_strategies/square_3site_updater.h"), ("Hubbard", "vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h"), ("TPSWaveFunctionComponent", "vmc_basic/wave_function_component.h")],
     "stateful property-based testing against tabulated exact amplitudes, with chi-square stationarity tests", TRUST + STAND)
prop("C21", "TRG contraction of a periodic network is exact when nothing is truncated",
     "When nothing is discarded, tracing a periodic network of supported size gives its exact value; evaluating or starting a trial with replaced tensors gives the value of the changed network without changing anything, committing a trial makes it current whichever of several pending trials is chosen, and clearing the cache, re-initialising or copying leads to the value of the network at hand. Holes closed with their own tensor give the value, and with any tensor on 2x2 and 3x3. A cap at or above the true rank loses nothing. Unsupported shapes, open networks and calls in the wrong order raise an error.",
     ["histories", "inputs"], "lattices 1,2,3,4,6,8, real/complex, with and without U(1) symmetry, distinct bonds, histories of up to six operations", "Its tests use one Ising model and the unavailable tensor library.",
     [B2 + "trg/trg_contractor.h", B2 + "trg/trg_contractor_impl.h"], [("Trace/trials/holes", B2 + "trg/trg_contractor_impl.h"), ("parameters", B2 + "trg/trg_contractor.h")],
     "stateful property-based testing against an exact torus contraction", TRUST + STAND + "Holes on larger tori are checked only by closing them with their own tensor, as the documentation promises.")
MS = "algorithm/vmc_update/model_solvers/"
prop("C22", "Open-boundary spin models report the exact local energy and observables",
     "For every open-boundary spin model (square XXZ with pinning field, square J1-J2 XXZ, transverse-field Ising, triangular Heisenberg and triangular J1-J2 on the square PEPS), every sampled configuration with a non-vanishing amplitude and an untruncated contraction: the local energy is sum over S' of conj(psi(S')/psi(S)) <S'|H|S>; each hole is the conjugated derivative of the amplitude by that site's tensor; measuring gives the same energy and the exact bond energies, spins, row and all-to-all correlators and transverse magnetisation, under the keys, lengths and order that the solver describes; the amplitude summary holds the sample's amplitude; and the sample itself is left unchanged, however often and in which order it is evaluated. With the lower boundaries grown, the structure-factor measurement lists every S+S- pair of different rows with its exact flipped amplitude.",
     ["inputs", "histories"], "all five models, couplings of either sign or zero, lattices up to 4x4 / 2x6, random real and complex wave functions, walkers mid-history", "Integration tests run one optimised state through a long Monte Carlo average with loose tolerance and need the unavailable tensor library.",
     [MS + "square_spin_onehalf_xxz_obc.h", MS + "square_spin_onehalf_j1j2_xxz_obc.h", MS + "transverse_field_ising_square_obc.h", MS + "spin_onehalf_triangle_heisenberg_sqrpeps.h", MS + "spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h", MS + "base/square_nnn_energy_solver.h", MS + "base/square_nnn_model_measurement_solver.h", MS + "base/bond_traversal_mixin.h", MS + "base/structure_factor_measurement_mixin.h", "algorithm/vmc_update/model_energy_solver.h", "algorithm/vmc_update/model_measurement_solver.h"],
     [("bond terms", MS + "square_spin_onehalf_xxz_obc.h"), ("traversal", MS + "base/bond_traversal_mixin.h"), ("J1-J2 triangle", MS + "spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h")],
     "property-based testing against the dense Hamiltonian applied to exact amplitudes", TRUST + STAND + "sigma_x at zero field is not asserted (the solvers define it as 0 there).")
prop("C23", "Periodic spin models report the exact local energy and observables on the torus",
     "For every periodic spin model (Heisenberg, J1-J2 XXZ with pinning field, transverse-field Ising) on an n x n torus, every sampled configuration with a non-vanishing amplitude and an untruncated contraction: the local energy is sum over S' of conj(psi(S')/psi(S)) <S'|H|S> with every wrap-around bond counted; each hole is the conjugated derivative of the amplitude by that site's tensor; measuring gives the same energy and the exact bond energies, spins, row correlators and transverse magnetisation under the keys, lengths and order the solver describes; the amplitude summary holds the sample's amplitude; and the sample is left unchanged, however often it is evaluated. A periodic solver refuses an open-boundary wave function.",
     ["inputs", "histories"], "all three models, couplings of either sign or zero, 2x2 to 4x4 tori, random real and complex wave functions, walkers mid-history", "The repository's PBC integration tests average one state over a long Monte Carlo run with loose tolerance and need the unavailable tensor library.",
     [MS + "heisenberg_square_pbc.h", MS + "square_spin_onehalf_j1j2_xxz_pbc.h", MS + "transverse_field_ising_square_pbc.h", "algorithm/vmc_update/model_energy_solver.h", "algorithm/vmc_update/model_measurement_solver.h"],
     [("Heisenberg", MS + "heisenberg_square_pbc.h"), ("J1-J2", MS + "square_spin_onehalf_j1j2_xxz_pbc.h"), ("Ising", MS + "transverse_field_ising_square_pbc.h")],
     "property-based testing against the dense torus Hamiltonian applied to exact amplitudes", TRUST + STAND + "sigma_x at zero field is not asserted; the Ising model is run on 2x2 and 3x3 only.")
OP = "optimizer/"
ORC = "property-based testing: the real optimiser runs against a recorded evaluator and the recording is replayed by an independent dense model"
prop("C24", "First-order optimisers follow their published update rule and bookkeeping",
     "For every run of IterativeOptimize with SGD (momentum, Nesterov, decoupled weight decay), AdaGrad or Adam, with any learning-rate schedule, clipping, stopping rule and callback: each next state is the documented update of the previous one with that iteration's scheduled step (a plateau schedule sees each iteration's own energy once); element clipping precedes norm clipping and touches only first-order methods; the run stops exactly when a tolerance, the patience or the callback says so; the result's trajectories, lowest state, final state, minimum and iteration count are those of the accepted steps; a second run on the same optimiser starts fresh; and nothing depends on the number of ranks.",
     ["inputs", "histories", "schedules"], "random small states (trivial and U1, real and complex), all first-order algorithms and schedules, scripted and quadratic energies, zero gradients, one to three ranks", "Unit tests check one or two steps of one algorithm; compounding state (moments, counters, best state, stop rules) needs whole generated histories.",
     [OP + "optimizer_impl.h", OP + "optimizer.h", OP + "optimizer_params.h", OP + "lr_schedulers.h"],
     [("loop", OP + "optimizer_impl.h")], ORC, TRUST + STAND + "Adam/AdaGrad: both readings of epsilon (added or used as cut-off) are accepted.")
prop("C25", "SR and MinSR move along the exact natural gradient of the samples",
     "For every set of samples O*, local energies and gradient: the SR step solves (S + shift) d = g with S the covariance of O* over all ranks' samples (optionally normalised), and the MinSR step is the pseudo-inverse solution in sample space with the documented hard or soft (sixth-power) eigenvalue cut-off; both equal the dense solution; the S operator and the T matrix equal their definitions however the samples are distributed over ranks; clipping never applies; and the whole trajectory, norms and results are those of these steps.",
     ["inputs", "histories", "schedules"], "designed sample spectra (gaps, offsets, scales), one to five samples per rank, one to three ranks, shifts, cut-offs, schedules", "A unit test fixes one sample set; the relation must hold for every spectrum and distribution over ranks.",
     [OP + "optimizer_impl.h", OP + "stochastic_reconfiguration_smatrix.h", OP + "minsr_tmatrix.h", OP + "minsr_eigensolve.h"],
     [("SR", OP + "stochastic_reconfiguration_smatrix.h"), ("MinSR", OP + "minsr_tmatrix.h")], ORC + " (exact solution by construction of the samples' singular vectors)", TRUST + STAND + "Eigenvalues closer than 1e-6 to a hard cut-off are not judged. The distributed ScaLAPACK path is not built here.")
prop("C26", "Spike recovery resamples, rolls back or accepts as configured and always ends",
     "For every history of energies, error bars and gradients and every spike setting: a step whose error bar, gradient norm or natural-gradient norm exceeds its factor times the moving average of accepted steps is re-evaluated at the same state up to the retry limit, then rolled back to the previous accepted state if that is enabled and available, and otherwise accepted with a warning; an upward energy jump beyond k sigma rolls back when a state is stored; averages, trajectories and the lowest state see accepted steps only; optimiser state is as if rejected evaluations had not happened; every event is counted, logged and written to the CSV; and the run always terminates.",
     ["inputs", "histories", "faults"], "injected spikes of all four kinds, isolated and persistent, retry limits 0-3, rollback on/off, windows 1-400, all algorithms, reused optimisers, one to three ranks", "Unit tests sample a few scripted spikes; retry, rollback and persistence interact over whole histories.",
     [OP + "optimizer_impl.h", OP + "spike_detection.h"],
     [("detection", OP + "optimizer_impl.h"), ("averages", OP + "spike_detection.h")], ORC, TRUST + STAND + "Values within 1e-6 of a threshold are not judged; rollback with momentum, Adam or AdaGrad is not judged (accumulators are documented as a known limitation); after an L-BFGS rollback the pair leading to the restored state may be stored twice.")
prop("C27", "L-BFGS takes the BFGS direction and line searches satisfy strong Wolfe",
     "For every objective: the L-BFGS direction is minus the BFGS inverse-Hessian built from the last m curvature pairs (damped or dropped as configured, scaled by s.y/y.y, capped in norm) applied to the gradient, falling back to steepest descent when it is not a descent direction; the fixed mode takes the scheduled step; the strong-Wolfe mode evaluates at most max_eval points, all on the search line and within the step bounds, accepts only a step satisfying both Wolfe conditions, never fails when its lowest trial satisfies them nor on a convex parabola whose minimum is in range, and on failure takes the configured fallback step or throws; invalid Wolfe parameters are refused; a second run starts without history.",
     ["inputs", "histories"], "convex, flat, concave and wavy landscapes, scripted gradients, history sizes 1-5, damping, caps, budgets, real and complex, one to three ranks", "Unit tests run one quadratic; the two-loop recursion, damping and bracketing must be right for every curvature history.",
     [OP + "optimizer_impl.h", OP + "optimizer_params.h"],
     [("direction and line search", OP + "optimizer_impl.h")], ORC + " (explicit BFGS matrix; Wolfe conditions re-measured)", TRUST + STAND + "Nearly singular curvature pairs are not judged.")
prop("C28", "Step selectors, JSONL log and checkpoints record and choose the true step",
     "For every run: the initial selector evaluates eta, 2 eta, ..., k eta from the starting state and keeps the lowest; the periodic selector compares eta and eta/2 every n-th step, halving on lower energy early and only beyond the error bar late; trials change neither momentum nor trajectories, use the energy-only evaluator when given, and non-finite trial energies or invalid settings are refused; every accepted step appends one valid JSON line with its own energy, error, gradient norm, step, selector decision and acceptance rates (earlier runs' lines are kept); and every n-th step writes a checkpoint that loads back bit-for-bit as the state that step produced, with matching metadata and trajectory files and no other directory.",
     ["inputs", "histories", "faults"], "both selectors with SGD, SR and MinSR, valid and invalid settings, ties, non-finite trials, spikes, checkpoint intervals, repeated runs, one to three ranks", "Unit tests cover single selector decisions; logs and checkpoints must agree with the run at every step of every history.",
     [OP + "optimizer_impl.h", OP + "optimizer_params.h"],
     [("selectors, log, checkpoint", OP + "optimizer_impl.h")], ORC + "; files read back", TRUST + STAND + "Non-finite values in the log are not judged.")
VU = "include/qlpeps/algorithm/vmc_update/"
prop("C29", "Exact summation gives the exact energy, gradient and observable means",
     "For every state, model and list of configurations: the exact-summation evaluator returns the |psi|^2-weighted mean of the local energies and the energy gradient <E* O*> - E* <O*> over exactly that list, and the exact-summation measurer the weighted mean of every observable, on any number of ranks (more ranks than configurations included) and using the master's state only; and the enumeration helpers list every configuration of the given occupation, or every binary one, exactly once in Ly x Lx layout and refuse sizes that do not fit.",
     ["inputs", "schedules"], "random real and complex states on open 2x2..3x2 and periodic 2x2 lattices, spin and fermion models with random couplings, full and partial lists, scales 1e-48..1e48, 1-4 ranks, permuted communicators", "Tests use a few fixed states and pinned numbers; the sums must be right for every state, list and number of ranks.",
     [VU + "exact_summation_energy_evaluator.h", VU + "exact_summation_measurer.h"],
     [("weighted sums and reductions", VU + "exact_summation_energy_evaluator.h"), ("observable sums", VU + "exact_summation_measurer.h")], ORC + " (dense Hamiltonian, derivatives by multilinearity)", TRUST + STAND + "Configurations with unresolved amplitude are not summed.")
prop("C30", "The sampling engine and MC evaluator report exactly what the chain visited",
     "For every state, chain, sample count and number of ranks: the engine starts every rank from its own configuration or, where its amplitude is invalid, from that of the first valid rank (then warmed up anew), runs exactly the requested warm-up and sampling sweeps, draws at least the total samples with ceil(total/ranks) per rank, and rescales only by a uniform factor that makes the largest amplitude one; an evaluation uses the master's state unscaled and returns the mean local energy (equal on all ranks), its binned standard error, the gradient and its norm, per-rank energy and O* samples, mean O* and acceptance rates of exactly the configurations visited; amplitude-inconsistency warnings follow their settings; and a boundary condition, lattice or truncation that does not fit the contractor is refused.",
     ["inputs", "histories", "schedules", "faults"], "spins and fermions, scripted chains, random engine histories, injected zero and out-of-range amplitudes, repeated evaluations with different states, stale states on other ranks, 1-4 ranks, permuted communicators", "Tests run one chain and compare energies statistically; exact bookkeeping for every history and rank layout is out of their reach.",
     [VU + "monte_carlo_engine.h", VU + "mc_energy_grad_evaluator.h"],
     [("engine", VU + "monte_carlo_engine.h"), ("evaluator", VU + "mc_energy_grad_evaluator.h")], ORC + " over scripted chains", TRUST + STAND + "Aborting paths (no valid rank) are not exercised.")
prop("C31", "A measurement run reports and saves the statistics of its samples",
     "For every state, model, chain and number of ranks, also when any rank receives SIGINT or SIGTERM at any sweep: all ranks stop after the same number of complete samples; every observable's reported mean is the mean over ranks of per-rank sample means and its error the standard error between ranks; the CSV files read back to exactly these numbers in the described shape, the metadata states what was requested and collected, per-sample psi and particle-number files list every sample, the particle-number distribution counts configurations by total occupation, and each rank's dumped configuration is its final one; a state loaded from disk measures the same; amplitude-inconsistency warnings appear when enabled, above the threshold, on the ranks asked for and at most the given number of times per measurer; and the replica test records the overlap with the neighbouring rank for every sample count.",
     ["inputs", "histories", "schedules", "faults"], "spin and fermion models, scripted chains with random observables sets, 1-4 ranks, permuted communicators, stop signals at random sweeps of random ranks, sample counts from one", "Tests run a handful of fixed measurements; stop timing, rank layouts and file contents must be right for all.",
     [VU + "monte_carlo_peps_measurer.h", VU + "monte_carlo_peps_measurer_impl.h", "include/qlpeps/base/mpi_signal_guard.h"],
     [("statistics and dumps", VU + "monte_carlo_peps_measurer_impl.h"), ("stop signal", "include/qlpeps/base/mpi_signal_guard.h")], ORC + " over scripted chains; files read back; signals injected", TRUST + STAND + "Repeated Execute calls on one measurer are not judged.")
prop("C32", "An optimisation run is its parts put together, reported and saved faithfully",
     "For every state, model, chain, optimisation algorithm and number of ranks: a run warms up and evaluates exactly as often as its iterations and trial steps require; the energy, error and gradient-norm trajectories are those of the evaluations; the lowest energy is the trajectory's minimum and the lowest state the one it was observed in; the final state is the optimiser's last state rescaled so that the largest sampled amplitude is one; all ranks end with the same states; the trajectory, log, final/lowest state and configuration files read back to these values and nothing else is written (nothing at all for an empty name); callbacks and evaluators set by the user are used; a start state loaded from disk gives the same run; the one-call functions return what the executors give; and boundary-condition or parameter mismatches, empty sample budgets and missing files are refused with the documented exception.",
     ["inputs", "histories", "schedules"], "spin and fermion models, scripted chains with six algorithms, step selectors, checkpoints, custom evaluators and callbacks, early stops, 1-4 ranks and permuted communicators", "Tests run a few fixed optimisations and look at the final energy only; wiring and files must be right for all.",
     [VU + "vmc_peps_optimizer.h", VU + "vmc_peps_optimizer_impl.h", "include/qlpeps/api/vmc_api.h"],
     [("optimisation executor", VU + "vmc_peps_optimizer_impl.h"), ("one-call interface", "include/qlpeps/api/vmc_api.h")], ORC + " over scripted chains: differential against engine, evaluator and optimiser run separately; files read back", TRUST + STAND + "The parts themselves are judged by C24-C31. Repeated Execute calls on one executor are not judged.")
prop("C33", "Fermion models report the exact local energy and observables with correct signs",
     "For spinless fermions (t, t2, V), the t-J models (nearest-neighbour, next-nearest-neighbour and t-J-V, with pinning fields and Jastrow dressing) and the Hubbard model on open lattices, every sampled configuration of even fermion parity with a non-vanishing amplitude and an untruncated contraction: the modulus of the amplitude is exact; the local energy is sum over n' of conj(psi(n')/psi(n)) <n'|H|n> with the fermionic sign of every hop, diagonal hops included; each hole gives the conjugated derivative of the amplitude; measuring gives the same energy and the exact bond energies, densities, spins, doublon counts and singlet-pair amplitudes in the described layout; singlet-pair correlations, when asked for, are refused with an error or right, never wrong in silence; Jastrow factors multiply each term by the exact ratio of the dressing; traces do not depend on the side from which environments were grown; and the sample is left unchanged however often it is evaluated.",
     ["inputs", "histories"], "all models, couplings of either sign or zero, lattices up to 3x4 and 2x6 (spinless) and 3x3 and 2x5, random real and complex fermionic tensors, walkers mid-history", "Integration tests average one optimised state over a long run; the sign of every hop on every configuration is out of their reach.",
     [MS + "square_spinless_fermion.h", MS + "square_tJ_model.h", MS + "square_hubbard_model.h", MS + "base/square_nnn_energy_solver.h", MS + "base/square_nnn_model_measurement_solver.h", MS + "base/singlet_pair_correlation_measurement_mixin.h"],
     [("spinless", MS + "square_spinless_fermion.h"), ("t-J", MS + "square_tJ_model.h"), ("Hubbard", MS + "square_hubbard_model.h")],
     "property-based testing against Fock-space operators applied to exactly contracted fermionic amplitudes", TRUST + STAND + "Fermionic tensors use the stand-in's graded contraction. The overall sign of an amplitude is a convention and only its modulus is asserted.")
PE = "include/qlpeps/two_dim_tn/peps/"
SU = "include/qlpeps/algorithm/simple_update/"
prop("C34", "Gamma-lambda states keep their wave function through conversion, disk and copies",
     "For every SquareLatticePEPS (any lattice, open or periodic, any physical space, bosonic or fermionic, any bond weights and arrow directions): Initial gives exactly the requested product state with bonds of dimension one; ToTPS and ToSplitIndexTPS give the same wave function and leave the state alone; RegularizeIndexDir and NormalizeAllTensor change only the representation, the latter by the returned factor; bond-dimension queries tell the truth; Dump followed by Load gives back the identical state whatever the spelling of the folder, writes nothing outside it, and a missing tensor file makes Load report failure; copies and moves are equal and independent, and states differing in one tensor or in shape compare unequal.",
     ["inputs", "histories", "faults"], "lattices up to 9 sites, real/complex, no symmetry / U(1) / fermion parity, states stirred by gates, histories of up to 14 operations with files removed", "Tests check a few fixed states; conversion must be right for every weight and arrow pattern.",
     [PE + "square_lattice_peps.h", PE + "square_lattice_peps_basic_impl.h", "include/qlpeps/api/conversions.h"],
     [("state", PE + "square_lattice_peps.h"), ("basics and disk", PE + "square_lattice_peps_basic_impl.h")], "property-based testing (stateful) against the densely contracted wave function and a bitwise model of the state", TRUST + STAND + "The overall sign of a fermionic product state is not asserted.")
prop("C35", "Projecting a gate applies exactly that gate; norm, energy and error are true",
     "For every state and every two-site gate on any horizontal or vertical bond and every three-site gate on any of the four triangle shapes, open or periodic, bosonic or fermionic: without truncation the new state times the reported norm is exactly the gate applied to the old wave function; the norm, and the local energy when a Hamiltonian is given, are those of the gated state in its mean-field environment; only the tensors on the path change; new bond weights are diagonal and non-zero; with truncation the bond dimension respects the bounds, the reported error is the weight discarded and no more states are dropped or kept than the limits ask for.",
     ["inputs", "histories"], "histories of up to four gates (evolution gates and arbitrary matrices) on lattices up to 9 sites, D up to 4 and more, random weights", "Tests compare energies of a few evolutions; every site, direction, triangle and symmetry has its own code path.",
     [PE + "square_lattice_peps_projection_impl.h", PE + "square_lattice_peps_projection4_impl.h"],
     [("two-site projection", PE + "square_lattice_peps_projection_impl.h"), ("three-site projections", PE + "square_lattice_peps_projection4_impl.h")], "property-based testing (stateful): differential against dense application of the gate, with Jordan-Wigner signs for fermions", TRUST + STAND + "States with weights below 1e-5 are not judged (amplitudes are no longer determined to working precision).")
prop("C36", "Simple update evolves by the given Hamiltonian and reports its run faithfully",
     "For every nearest-neighbour (uniform or bond-dependent), next-nearest-neighbour and triangular-lattice Hamiltonian with optional uniform or site-dependent on-site terms, on open and periodic lattices, bosonic or fermionic: one sweep of step tau multiplies the wave function by 1 - tau H + O(tau^2) with every term counted once (twice for the two-pass triangular executor), exactly exp(-tau H) for commuting terms; both energy estimates of a product state tend to <H>; a run makes the requested number of sweeps or stops exactly when the documented convergence rule says so, and its summary, step records, callbacks and printed metrics all tell this same story; bond dimensions never exceed Dmax; a run split in two, or with the step length set later, ends in the same state; results dumped can be read back; and invalid parameters or wrongly sized Hamiltonians are refused without touching the state.",
     ["inputs", "histories"], "random Hamiltonians, lattices up to 3x3 (4x3 for energies), steps of either sign, runs of up to eight sweeps with all stopping rules", "Tests check final energies of three models to two digits; a missing or doubled boundary term on one lattice shape hides in that.",
     [SU + "simple_update_impl.h", SU + "simple_update.h", SU + "square_lattice_nn_simple_update.h", SU + "square_lattice_nnn_simple_update.h", SU + "triangle_nn_on_sqr_peps_simple_update.h"],
     [("run loop", SU + "simple_update_impl.h"), ("nearest neighbour", SU + "square_lattice_nn_simple_update.h"), ("next-nearest neighbour", SU + "square_lattice_nnn_simple_update.h"), ("triangular", SU + "triangle_nn_on_sqr_peps_simple_update.h")],
     "property-based testing: dense Hamiltonian differential (derivative of a sweep, exact commuting evolution) and a reference model of the stopping rule", TRUST + STAND + "One-row and one-column lattices are not judged; the three-site executors need a bond Hamiltonian symmetric under exchange.")
prop("C37", "Loop update applies every plaquette gate and reports its run faithfully",
     "For bosonic states without charges on open and even periodic lattices: a four-site plaquette gate applied without truncation multiplies the wave function by the gate (the returned norm being the scale taken out), changes only the four site tensors and four bond weights of the plaquette, and returns the overlap of the state with the gate applied to it; with truncation bonds stay within the cap, tensors and weights are normalised, and the truncation typically keeps most of what the gate changed. A sweep applies the gate of every plaquette exactly once; the estimated energy is minus the logarithm (or one minus) the overlaps divided by tau, summed over plaquettes, and for product states tends to <H>. A run makes the requested number of sweeps or stops exactly when the documented convergence rule says so; summary, step records, callbacks and printed metrics agree; wrong gate-array shapes, odd periodic lattices and plaquettes across an open boundary are refused.",
     ["inputs", "histories"], "random gates as four-tensor loops, lattices up to 3x3 (open) and 2x2..4x2 (periodic), runs of up to five sweeps with all stopping rules", "The tests run one model on one lattice and compare an energy to a few digits; a plaquette skipped at one corner parity or a transposed leg passes that.",
     [SU.replace("simple_update", "loop_update") + "loop_update_impl.h", PE + "square_lattice_peps_projection4_impl.h"],
     [("run loop", SU.replace("simple_update", "loop_update") + "loop_update_impl.h"), ("plaquette projection", PE + "square_lattice_peps_projection4_impl.h")],
     "property-based testing: dense wave-function differential, derivative of a sweep and a reference model of the stopping rule", TRUST + STAND + "Only bosons without charges: the weighted-trace gauge is reducible with several charge sectors, and the fermionic loop update is documented as unfinished upstream.")
prop("C38", "Run and truncation records carry what was asked and refuse a wrong backend",
     "Every record that configures a run (Monte Carlo sampling, PEPS contraction, measurement, optimisation, boundary-MPS, TRG, simple-update and loop-update truncation) holds exactly the numbers given to its constructor or named factory and the documented defaults for the rest; copies are independent. A PEPS record knows which contraction backend it configures, hands out those parameters only, and refuses the other backend's; the one-call interfaces refuse a state whose boundary condition disagrees with the record. A sampling record built from a configuration saved on disk starts from exactly that configuration (treated as warmed up unless told otherwise), and a missing or damaged file is an error, never an empty start.",
     ["inputs", "histories"], "all record kinds, constructors, factories, argument values, assignment histories, and saved, damaged or missing configuration files of any shape",
     "The tests build a few records with fixed numbers and never load a start configuration from disk; a swapped pair of arguments or an unloadable file passes them.",
     ["algorithm/vmc_update/monte_carlo_peps_params.h", "algorithm/vmc_update/vmc_peps_optimizer_params.h", "one_dim_tn/boundary_mps/bmps.h", "api/vmc_api.h", "algorithm/simple_update/simple_update.h", "algorithm/loop_update/loop_update.h", "two_dim_tn/peps/square_lattice_peps.h"],
     [("run records", "algorithm/vmc_update/monte_carlo_peps_params.h"), ("boundary-MPS truncation", "one_dim_tn/boundary_mps/bmps.h"), ("backend agreement", "api/vmc_api.h")],
     "stateful property-based testing against a field-by-field model, with injected file damage", TRUST + STAND + "Configuration files without their shape sidecar may be refused or loaded, but never loaded wrongly.")
#MORE#

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {"version": 1, "setup_cmd": "python3 -c \"import shutil,sys; sys.exit(0 if shutil.which('g++') and shutil.which('mpicxx') else 1)\"",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["_tech"], "level": "exploration", "level_note": p["_note"]} for p in P],
       "not_applicable": [],
       "notes": "No hooks in /repo. Fixes in /repo are 'fix:' commits listed in known_findings.json."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
