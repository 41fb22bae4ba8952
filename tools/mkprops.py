"""Writes properties.jsonl (kept as a script so that the statements stay reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

G = "GPSKet/"
prop("C01", "Fermionic hops carry the right sign, amplitude and target",
 "Moving an electron between any two orbitals yields exactly the configuration with that electron moved, or a vanishing element if the move is impossible, and the element's sign is minus one to the number of same-spin electrons strictly between the two orbitals in the fixed ordering. Every place that needs such a sign, including two-electron excitations and moves evaluated on an already changed configuration, uses the same ordering and the same parity.",
 ["inputs", "configurations"], "every configuration, spin channel, pair (or quadruple) of orbitals, and every batch",
 "Test files never call the fermionic operators; a sign error only shows for particular occupations between the two orbitals.",
 [G+"operator/fermion.py", G+"operator/hamiltonian/ab_initio.py", G+"operator/hamiltonian/ab_initio_sparse.py", G+"operator/hamiltonian/hubbard.py"],
 [("hop application with cumulative electron count", G+"operator/fermion.py:apply_hopping"), ("jax parity multiplicator", G+"operator/hamiltonian/ab_initio.py:get_parity_multiplicator_hop")])
prop("C02", "Electron number and spin are conserved by every generated configuration",
 "In a particle-number constrained space, random initial configurations, Monte Carlo proposals, autoregressively drawn configurations and configurations connected by a Hamiltonian all have exactly the prescribed number of electrons (or particles) of each spin, and every site holds an allowed local occupation. The space's own constraint accepts exactly these configurations and its local-state indexing is consistent with them.",
 ["inputs", "histories", "configurations"], "every space, seed, chain history and configuration",
 "Tests sample one or two small unconstrained or half-filled spaces; leaving the sector needs specific occupations, fillings or cluster lists.",
 [G+"hilbert/discrete_fermion.py", G+"hilbert/random/discrete_fermion.py", G+"hilbert/random/discrete_asep.py", G+"sampler/rules/fermionic_hopping.py", G+"sampler/rules/exchange_with_update.py", G+"operator/fermion.py", G+"operator/asep.py"],
 [("sum constraint", G+"hilbert/discrete_fermion.py:FermionicSumConstraint"), ("random_state overloads", G+"hilbert/random"), ("hopping proposal", G+"sampler/rules/fermionic_hopping.py:transition_function"), ("count-based masking in autoregressive models", G+"models/autoreg_qGPS.py")])
prop("C03", "Fermionic Hamiltonians list exactly their non-zero connections",
 "For every batch of configurations, the connected configurations and matrix elements reported by the molecular and Hubbard Hamiltonians are those of the second-quantised operator with the user's integrals: every contributing single and double excitation of either spin and the diagonal appear once, with the right coefficient. The per-configuration boundaries returned with them attribute each connection to the configuration it belongs to.",
 ["inputs"], "every configuration batch, integral set and edge list",
 "No test builds a fermionic Hamiltonian; exchanged integral indices, a dropped spin channel or a wrong boundary need asymmetric integrals or batches to show.",
 [G+"operator/hamiltonian/ab_initio.py", G+"operator/hamiltonian/hubbard.py", G+"operator/fermion.py"],
 [("numba enumeration", G+"operator/hamiltonian/ab_initio.py:AbInitioHamiltonian.get_conn_flattened"), ("numba enumeration", G+"operator/hamiltonian/hubbard.py:FermiHubbard.get_conn_flattened")])
prop("C04", "On-the-fly local energies equal the listed-connection local energies",
 "The on-the-fly evaluation of local energies gives, for every wave function and configuration, the sum over connected configurations of matrix element times amplitude ratio of the same Hamiltonian, both with and without fast amplitude updates and in the dense and sparse integral variants. Both spin channels, the same-spin and opposite-spin two-body parts, diagonal and constant terms are all included exactly once.",
 ["inputs", "configurations"], "every configuration, parameter set, integral set, batching and use of fast updates",
 "No test evaluates an on-the-fly Hamiltonian; errors hide in terms vanishing for symmetric integrals or special occupations.",
 [G+"operator/hamiltonian/ab_initio.py", G+"operator/hamiltonian/ab_initio_sparse.py", G+"operator/hamiltonian/hubbard.py", G+"operator/hamiltonian/J1J2.py"],
 [("local_en_on_the_fly", G+"operator/hamiltonian/*.py")])
prop("C05", "Spin and exclusion-process operators have their defined matrix elements",
 "The J1-J2/Heisenberg builders produce the exchange couplings of every nearest and next-nearest neighbour bond with the requested couplings and sign rule, and the exclusion-process generator has the defined rates for bulk hops and boundary injection/removal with columns that conserve probability. Matrix elements depend only on the occupations of the sites involved.",
 ["inputs", "configurations"], "every lattice, coupling/rate choice and configuration",
 "Tests use the J1-J2 builder only as an input to drivers and never the exclusion process; asymmetric rates or couplings are not sampled.",
 [G+"operator/hamiltonian/J1J2.py", G+"operator/hamiltonian/asep.py", G+"operator/asep.py"],
 [("bond operators", G+"operator/hamiltonian/J1J2.py:get_J1_J2_Hamiltonian"), ("hop/creation/annihilation kernels", G+"operator/asep.py")])
prop("C06", "Expectation values use the local estimator that belongs to the operator",
 "Estimating an operator with a Monte Carlo state evaluates that operator's own local estimator on the state's samples with the operator's own data and the state's parameters, for every chunk size and every kind of state. Chunked and unchunked evaluation, and the different state classes, give the same per-sample local values.",
 ["inputs", "configurations"], "every operator/state class combination, chunk size and sample count",
 "Tests take one operator with one state; wrong overload resolution, argument order or chunk boundaries need other combinations.",
 [G+"vqs/mc/mc_state/expect.py", G+"vqs/mc/mc_state/state_unique_samples.py", G+"operator/hamiltonian/ab_initio.py", G+"operator/hamiltonian/ab_initio_sparse.py", G+"operator/hamiltonian/hubbard.py", G+"operator/hamiltonian/J1J2.py"],
 [("kernel and argument overloads", G+"operator/hamiltonian/*.py:get_local_kernel"), ("chunked expectation", G+"vqs/mc/mc_state/expect.py")])
prop("C07", "Markov-chain sampling satisfies detailed balance for the target distribution",
 "Each Metropolis step accepts a proposal with the ratio of target probabilities including the proposal-asymmetry correction, and on acceptance replaces configuration, stored log-probability and cached model state together, on rejection none of them. Acceptance counters, sweep length and chain batching are unaffected by whether fast updates are used.",
 ["inputs", "histories"], "every chain history, proposal rule, model, machine power and batch",
 "No test runs the fast Metropolis samplers; a biased acceptance only shows statistically.",
 [G+"sampler/metropolis_fast.py", G+"sampler/rules/fermionic_hopping.py", G+"sampler/rules/exchange_with_update.py", G+"sampler/fermionic_hopping.py"],
 [("fast sampling loop", G+"sampler/metropolis_fast.py:MetropolisFastSampler._sample_next"), ("symmetric hop proposal", G+"sampler/rules/fermionic_hopping.py:transition_function")],
 [("log_prob", "log probability of the current configuration", G+"sampler/metropolis_fast.py")])
prop("C08", "Fast amplitude updates agree with evaluating from scratch",
 "For every model offering fast updates, the amplitude computed from cached intermediate values plus the list of changed sites equals the amplitude computed from the new configuration alone. After any sequence of updates, accepted or rejected, the cached values describe the configuration they are stored with.",
 ["inputs", "histories"], "every model, parameter set, update-site list (including repeated sites) and update history",
 "Tests evaluate models from scratch; cache corruption needs a history of updates with particular sites.",
 [G+"models/qGPS.py", G+"models/plaquetteqGPS.py", G+"models/segmented_qGPS.py", G+"models/slater.py", G+"models/slater_qGPS.py", G+"models/backflow.py", G+"models/cpd_backflow.py", G+"models/jastrow.py", G+"models/asymm_qGPS.py", G+"sampler/metropolis_fast.py", G+"operator/hamiltonian/hubbard.py"],
 [("intermediates_cache variables", G+"models/*.py"), ("cache carried with the chain", G+"sampler/metropolis_fast.py")])
prop("C09", "Autoregressive conditionals depend only on earlier sites",
 "In every autoregressive model the conditional amplitude of a site depends on the configuration only through the sites that precede it in the model's ordering, with the same ordering in the site-by-site and all-at-once evaluation. Masked convolutions never let a later (or, where excluded, the current) site reach an output.",
 ["inputs", "configurations"], "every model, parameter set, configuration, site and filter geometry",
 "Existing tests compare normalisation on tiny systems; a leak that keeps normalisation for those sizes stays unnoticed.",
 [G+"models/autoreg_qGPS.py", G+"models/autoreg_qGPS_full.py", G+"models/autoreg_plaquetteqGPS.py", G+"models/pixelcnn.py", G+"nn/causal_conv.py"],
 [("running context products", G+"models/autoreg_qGPS*.py"), ("plaquette masks", G+"models/autoreg_plaquetteqGPS.py"), ("kernel masks", G+"nn/causal_conv.py")])
prop("C10", "Autoregressive wave functions are normalised and correctly symmetrised",
 "For every parameter set the squared conditionals of each site sum to one over the allowed local states, so the squared amplitudes sum to one over the (possibly constrained) space, and the amplitude is the product of the conditionals of the observed values. Symmetrisation averages probabilities over the given symmetry images and keeps the model's phase convention.",
 ["inputs", "configurations"], "every model, parameter set, machine power, constraint and symmetry group",
 "Tests check two lattice sizes and one constraint at random parameters; masking errors at particular counts and phase/symmetry mistakes stay hidden.",
 [G+"models/autoreg_qGPS.py", G+"models/autoreg_qGPS_full.py", G+"models/autoreg_plaquetteqGPS.py", G+"models/pixelcnn.py"],
 [("conditional normalisation", G+"models/autoreg_qGPS.py:_normalize"), ("spin/electron count masks", G+"models/autoreg_qGPS.py")])
prop("C11", "The direct sampler draws from the autoregressive conditionals",
 "Direct sampling visits the sites in the model's order, draws every site from the model's conditional probabilities given the sites already drawn, and stores the drawn local value at that site; chains are independent. Sampling leaves the caller's variables usable and starts from a fresh cache each time.",
 ["inputs", "histories"], "every model, seed, chain count, chain length and number of devices",
 "Tests compare a handful of draws' shapes; wrong conditionals or re-used caches change only the distribution.",
 [G+"sampler/autoreg.py", G+"models/autoreg_qGPS.py", G+"models/autoreg_qGPS_full.py"],
 [("site scan", G+"sampler/autoreg.py:_sample_chain"), ("categorical draw", G+"sampler/autoreg.py:batch_choice")])
prop("C12", "Random keys are never reused and every random draw is reproducible",
 "Every pseudo-random draw (initial states, proposals, acceptance, direct sampling, stratified resampling, initialisation) uses a key that no other draw uses, so draws are independent across chains, steps and purposes. Given the same seed the sequence of draws is the same, and each sampler or state advances its key on every use.",
 ["inputs", "histories"], "every seed, chain count, number of steps and call sequence",
 "A reused key gives plausible-looking numbers; no test compares draws across call sites.",
 [G+"sampler/autoreg.py", G+"sampler/metropolis_fast.py", G+"sampler/rules/fermionic_hopping.py", G+"sampler/rules/exchange_with_update.py", G+"hilbert/random/discrete_fermion.py", G+"hilbert/random/discrete_asep.py", G+"vqs/mc/mc_state/state_stratified_sampling.py", G+"driver/autoreg_state_fitting.py"],
 [("key splitting", "all of the anchored files")])
prop("C13", "Determinant and Pfaffian models are antisymmetric in the electrons",
 "Slater, backflow and Pfaffian amplitudes are the logarithm of the determinant or Pfaffian of the orbital (or pairing) entries at the occupied orbitals, with rows ordered by site so that the sign convention matches that of the Hamiltonians; both spin channels contribute, restricted orbitals are shared and unrestricted ones are not. Multiplying in Jastrow or GPS factors, symmetrising and summing determinants combine these amplitudes exactly as sums and products.",
 ["inputs", "configurations"], "every configuration, orbital set, spin filling and symmetry group",
 "One test compares a Slater model on tiny systems; sign, spin-block or symmetry errors at other fillings and in the other models stay hidden.",
 [G+"models/slater.py", G+"models/slater_qGPS.py", G+"models/slater_jastrow.py", G+"models/backflow.py", G+"models/backflow_jastrow.py", G+"models/cpd_backflow.py", G+"models/jastrow.py", G+"models/pfaffian.py"],
 [("occupied-orbital lookup", G+"models/slater.py:occupancies_to_electrons"), ("log-determinant", G+"models/slater.py"), ("log-Pfaffian and its derivative", G+"models/pfaffian.py")])
prop("C14", "GPS amplitudes are the symmetrised sums of site products they are defined as",
 "For every configuration the amplitude of a GPS-type model is the support-dimension sum of products over sites of the parameters selected by the local occupations, symmetrised over the supplied translations and spin flips in the documented way (inside or outside the exponential, with the right sign or character) and passed through the requested output transformation. Invariance under a supplied symmetry therefore holds for every parameter set.",
 ["inputs", "configurations"], "every configuration, parameter set, symmetry group and model option",
 "One model has a small-shape test; an error in occupation lookup or symmetrisation depends on site, local state or group element.",
 [G+"models/qGPS.py", G+"models/asymm_qGPS.py", G+"models/plaquetteqGPS.py", G+"models/segmented_qGPS.py", G+"nn/initializers.py"],
 [("site product and support sum", G+"models/qGPS.py:qGPS"), ("symmetry transformations", G+"models/qGPS.py:get_sym_transformation_spin")])
prop("C15", "Unique and stratified samples carry weights of the right distribution",
 "A set of unique samples contains each distinct configuration once with a relative weight equal to its share of the draws, padding entries carry zero weight, and the weights over all processes sum to one. Stratified sampling keeps the deterministic part with its exact probability and weights the randomly drawn remainder so that estimates stay unbiased.",
 ["inputs", "histories"], "every sampler, number of samples, number of processes and collision pattern",
 "No test constructs these states; weights are wrong only for particular multiplicities or remainders.",
 [G+"vqs/mc/mc_state/state_unique_samples.py", G+"vqs/mc/mc_state/state_stratified_sampling.py", G+"optimizer/qgt/qgt_jacobian_dense_unique_samples.py"],
 [("collection of unique configurations", G+"vqs/mc/mc_state/state_unique_samples.py:samples_with_counts"), ("strata", G+"vqs/mc/mc_state/state_stratified_sampling.py")],
 [("relative counts", "weight of each unique sample", G+"vqs/mc/mc_state/state_unique_samples.py")])
prop("C16", "Energy statistics and gradients are the weighted covariances they stand for",
 "Expectation values, their error estimates and the energy gradient use the same samples and weights, the gradient being the covariance of centred local energies with the conjugate log-derivatives, for real and complex parameters, any chunking and any number of processes. Cached samples are dropped whenever parameters or the sampler change.",
 ["inputs", "histories", "configurations"], "every state class, parameter dtype, chunk size, process count and sequence of parameter updates",
 "Tests run a single process with one model; weighting, conjugation or stale samples need other combinations.",
 [G+"vqs/mc/mc_state/state_unique_samples.py", G+"vqs/mc/mc_state/expect.py", G+"vqs/mc/mc_state/state_stratified_sampling.py", G+"driver/VMC_SRRMSProp.py", G+"driver/minSR.py"],
 [("gradient kernels", G+"vqs/mc/mc_state/state_unique_samples.py"), ("sample cache reset", G+"vqs/mc/mc_state/state_unique_samples.py:reset")])
prop("C17", "The metric operators act as the regularised, centred metric they represent",
 "Applying a metric (quantum geometric tensor) operator to a vector, converting it to a dense matrix and solving with it all refer to the same matrix: the sample-weighted centred covariance of log-derivatives plus the configured diagonal shift, interpolated with the running gradient scale where that variant asks for it. This holds for real, complex and holomorphic modes, any chunking, and the running scale is updated with the configured decay.",
 ["inputs", "configurations"], "every parameter tree, vector, sample set, mode, shift and decay",
 "Tests compare modes of one driver on one model; the operator, dense and solve paths are not compared in general.",
 [G+"optimizer/qgt/qgt_jacobian_dense_rmsprop.py", G+"optimizer/qgt/qgt_jacobian_dense_unique_samples.py", G+"optimizer/qgt/qgt_onthefly_rmsprop.py", G+"optimizer/sr_rmsprop.py", G+"optimizer/sr_dense.py", G+"optimizer/solvers.py"],
 [("mat_vec / to_dense / _solve", G+"optimizer/qgt/*.py"), ("preconditioner", G+"optimizer/sr_rmsprop.py")])
prop("C18", "Optimisation drivers take the stochastic-reconfiguration step they advertise",
 "One driver step samples afresh, computes energy and gradient with the current parameters, solves the configured (regularised, possibly sample-space) linear system and hands the optimiser the resulting update with the parameter structure and dtype of the state. Learning-rate, shift, decay and mode options passed by the user take effect, including step-dependent schedules.",
 ["inputs", "configurations", "histories"], "every model, option combination, schedule and step number",
 "Tests check that options are accepted and two modes agree on one model; wrong weighting, stale state or a dropped option on other paths is invisible.",
 [G+"driver/VMC_SRRMSProp.py", G+"driver/minSR.py", G+"optimizer/sr_rmsprop.py", G+"optimizer/sr_dense.py"],
 [("_forward_and_backward", G+"driver/*.py"), ("option handling", G+"driver/VMC_SRRMSProp.py")])
prop("C19", "State-fitting drivers minimise the loss they report",
 "When fitting an autoregressive state to target data, the gradient handed to the optimiser is the gradient of the reported loss on the drawn mini-batch, mini-batches are drawn from the data set with configuration and target amplitude kept together, and the reported value is aggregated over processes. Resetting restarts the loss record and step count.",
 ["inputs", "histories"], "every data set, batch size, seed, process count and step",
 "No test runs the fitting driver.",
 [G+"driver/autoreg_state_fitting.py", G+"driver/abstract_state_fitting.py"],
 [("loss and gradient", G+"driver/autoreg_state_fitting.py:ARStateFitting._forward_and_backward")])
prop("C20", "Bayesian GPS regression solves the posterior it sets up",
 "In supervised learning the kernel features, regularised normal equations, posterior weights, marginal likelihood and its derivatives all refer to the same model, data weighting, precision parameters and noise, for every number type, site subset, bias and process count. Updating site products incrementally equals recomputing them, and writing weights back changes exactly the active parameters.",
 ["inputs", "configurations", "histories"], "every data set, weighting, complex/real expansion, site order and fit history",
 "No test imports the supervised-learning code.",
 [G+"supervised/supervised_qgps.py"],
 [("feature matrices", G+"supervised/supervised_qgps.py:QGPSLearning"), ("posterior and evidence", G+"supervised/supervised_qgps.py:QGPSLearningExp")],
 [("alpha_mat", "prior precisions", G+"supervised/supervised_qgps.py"), ("site_prod", "product over the other sites", G+"supervised/supervised_qgps.py")])
prop("C21", "Imaginary-time targets equal the propagated amplitudes and leave states intact",
 "The target amplitude of an imaginary-time step is the log of the current amplitude times one minus the time step times the local energy (or its documented exponential/shifted form) at the same configuration. Evaluating targets for given configurations does not change the samples, parameters or sampler of the state that was used to compute them, whatever the outcome.",
 ["inputs", "fault_sequences", "histories"], "every state, configuration batch, time step, chunk size, and failure during evaluation",
 "No test imports this code; a leaked substitution shows only in later calls.",
 [G+"supervised/imag_time_step.py"],
 [("temporary sample substitution", G+"supervised/imag_time_step.py:get_local_energies")])
prop("C22", "Multi-process runs take part in the same collectives and agree",
 "All processes execute the same sequence of collective operations with compatible shapes whatever their local data, and quantities that must be global (means, norms, gradients, matrices, updates, counts) are reduced over all processes exactly once with the right reduction. Work done on one process only is distributed before others use it.",
 ["schedules", "inputs"], "every number of processes, distribution of samples and local outcome",
 "Tests run a single process, where every reduction is the identity.",
 [G+"driver/VMC_SRRMSProp.py", G+"driver/minSR.py", G+"driver/autoreg_state_fitting.py", G+"vqs/mc/mc_state/state_unique_samples.py", G+"vqs/mc/mc_state/state_stratified_sampling.py", G+"vqs/mc/mc_state/expect.py", G+"optimizer/qgt/qgt_jacobian_dense_rmsprop.py", G+"optimizer/qgt/qgt_onthefly_rmsprop.py", G+"supervised/supervised_qgps.py", G+"datasets/h2o.py"],
 [("mpi_sum / mpi_mean / Bcast / Allreduce calls", "all of the anchored files")])
prop("C23", "Cached data sets are complete or absent",
 "A stored data set is read back only if it was completely written, holds exactly what was computed for the requested settings, and a run interrupted at any point leaves either nothing that later runs accept or a complete data set. Computing and loading give the same arrays.",
 ["crash_points", "schedules", "configurations"], "every interruption point, directory state, setting and process count",
 "No test touches the data sets; an interruption between two files is never exercised.",
 [G+"datasets/h2o.py"],
 [("existence guard before loading", G+"datasets/h2o.py:get_H2O_dataset")])
prop("C24", "Public names, call signatures, defaults and precision stay as relied upon",
 "Everything importable from the package's public namespaces stays importable and refers to the same construct, can be called or constructed with the same positional order, keywords and default behaviour, and builder functions hand every argument to the object they build. Importing the package enables double precision, and defaults select the documented variant.",
 ["programs", "configurations"], "every user program using the public interface",
 "Tests import and construct only a fraction of the public classes with a few argument combinations.",
 [G+"__init__.py", G+"models/__init__.py", G+"sampler/__init__.py", G+"sampler/metropolis_fast.py", G+"sampler/fermionic_hopping.py", G+"operator/hamiltonian/__init__.py", G+"optimizer/__init__.py", G+"driver/__init__.py", G+"nn/__init__.py"],
 [("re-exports", G+"*/__init__.py"), ("dataclass fields", "all classes"), ("x64 switch", G+"__init__.py")])
prop("C25", "Caller-owned data is left unmodified and intended updates are not lost",
 "Configurations, weights, integrals, variables and other arrays passed in by the caller are not modified unless that is the documented purpose of the call, and objects handed out do not change behind the caller's back. Updates the code makes to its own state reach that state rather than a temporary copy.",
 ["inputs", "histories"], "every call, array layout and call sequence",
 "Aliasing shows only when the caller re-uses its arrays afterwards; tests never do.",
 [G+"operator/fermion.py", G+"operator/asep.py", G+"operator/hamiltonian/ab_initio.py", G+"operator/hamiltonian/hubbard.py", G+"operator/hamiltonian/asep.py", G+"sampler/autoreg.py", G+"sampler/metropolis_fast.py", G+"supervised/supervised_qgps.py", G+"supervised/imag_time_step.py", G+"vqs/mc/mc_state/state_unique_samples.py"],
 [("copies before in-place kernels", "all of the anchored files")])
NA = [("C26", "Optimisations converge and sampled estimates reach the stated accuracy",
 "Given enough steps and samples, optimisations reach the ground-state energy within statistical error, Markov chains mix and error bars cover the exact value.",
 ["inputs", "histories"], "every Hamiltonian, model and run length", "Convergence is a statistical, asymptotic statement.",
 [G+"driver/VMC_SRRMSProp.py", G+"driver/minSR.py", G+"sampler/metropolis_fast.py"], [("drivers and samplers", G+"driver")]),
 ("C27", "Amplitudes and energies stay finite in floating point",
 "No reachable parameter values or configurations make log-amplitudes, determinants, normalisations or local energies overflow, become NaN or lose all precision.",
 ["inputs"], "every parameter value and configuration", "Depends on magnitudes reached at run time.",
 [G+"models/slater.py", G+"models/pfaffian.py", G+"models/autoreg_qGPS.py"], [("log-domain evaluation", G+"models")]),
 ("C28", "Fast updates and chunking deliver their promised cost",
 "Evaluating local energies with fast updates scales better with system size than evaluation from scratch, and chunked evaluation bounds peak memory by the chunk size.",
 ["inputs", "configurations"], "every system and chunk size", "Cost is a property of the compiled program.",
 [G+"operator/hamiltonian/ab_initio.py", G+"vqs/mc/mc_state/expect.py"], [("chunking", G+"vqs/mc/mc_state/expect.py")])]
for a in NA: prop(*a)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
