"""Writes properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook, **({"state": state} if state else {}))))

p("S01", "Unique-sample state pools all ranks' draws into one exact weighted set",
  "After a unique-sample variational state is sampled on any number of MPI processes, the rows held by all processes together contain every distinct configuration of the pooled draws (batches pooled in process order) up to the requested number of distinct configurations, each exactly once, with weights proportional to how often it was drawn and summing to one over all processes. Rows left over when the limit on sampling rounds is reached carry weight zero. The set is the same on repeated access and is drawn afresh after a reset or a parameter change.",
  ["schedules", "configurations", "histories", "inputs"],
  "any number of processes, any interleaving of their steps, any batch size, any limit on sampling rounds, any sequence of sample / reset / parameter-change calls",
  "No test instantiates this state, and no test runs with more than one MPI process; the merge and the re-split over processes only exist for several processes.",
  ["GPSKet/vqs/mc/mc_state/state_unique_samples.py"],
  [("allgather of each batch and counting in the pooled order", "MCStateUniqueSamples.samples_with_counts"),
   ("contiguous split of the unique rows over processes", "MCStateUniqueSamples.samples_with_counts"),
   ("cache invalidation", "MCStateUniqueSamples.reset")],
  ["MCStateUniqueSamples.samples_with_counts", "MCStateUniqueSamples.samples", "MCState.sample"])

p("S02", "Unique-sample estimates equal the pooled weighted averages on every rank",
  "For a unique-sample (or stratified) variational state the reported energy mean and variance, the energy gradient and the unique-sample quantum geometric tensor equal the weighted averages over the samples of all MPI processes together, using each sample's own weight. Every process reports the same values, and neither the number of processes nor the chunk size changes them.",
  ["schedules", "configurations", "inputs"],
  "any number of processes, interleaving, chunk size, real or complex parameters, any weights including zero-weight padding rows",
  "No test evaluates expectation values of this state, and none runs on several processes.",
  ["GPSKet/vqs/mc/mc_state/state_unique_samples.py", "GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py"],
  [("weighted mean, variance and vector-Jacobian product with MPI sums", "grad_expect_hermitian_chunked"),
   ("dispatch of expect / expect_and_grad", "state_unique_samples.expect, expect_and_grad"),
   ("weighted centred Jacobian", "QGTJacobianDenseUniqueSamples")],
  ["vstate.expect", "vstate.expect_and_grad", "QGTJacobianDenseUniqueSamples(vstate).to_dense / @"])

p("S03", "Stratified state: deterministic set exact, complement sampled, weights one",
  "A stratified-sampling state distributes the deterministic configurations over the MPI processes so that each appears exactly once, and the sampled configurations never belong to the deterministic set. Deterministic configurations carry their probability under one norm that is the same on all processes, the sampled ones share the remaining probability equally, and all weights over all processes sum to one. The sampled configurations are chains which move through the complement by the moves of the sampler, distributed like the probabilities of the state restricted to it, and the norm of the complement is its size times the plain mean of the probabilities drawn for it by all processes together.",
  ["schedules", "configurations", "histories", "inputs"],
  "any number of processes (including more processes than deterministic configurations or uneven splits), chains per process, interleaving, normalisation mode, sequence of sample/reset",
  "The class has no test at all, and the split and the global norm only exist on several processes.",
  ["GPSKet/vqs/mc/mc_state/state_stratified_sampling.py"],
  [("array_split of the deterministic set", "MCStateStratifiedSampling.__init__"),
   ("rejection of configurations in the deterministic set", "MCStateStratifiedSampling.sample_step"),
   ("global norm estimate", "MCStateStratifiedSampling.samples_with_counts")],
  ["MCStateStratifiedSampling.samples_with_counts"])

p("D01", "minSR step equals the pooled serial minSR step on every rank",
  "Each step of the minSR driver changes the parameters by the update obtained from the samples, weights and local energies of all MPI processes pooled (the minimum-norm solution with the chosen solver), independent of the chunk size and the number of processes. The energy mean and variance it reports are the pooled weighted ones, all processes end every step with identical parameters, and the step always completes.",
  ["schedules", "configurations", "inputs", "histories"],
  "any number of processes, chunk size, interleaving, Jacobian mode, plain or unique-sample state, any number of steps",
  "The existing tests do not run this driver, and never with several processes; the gather/scatter bookkeeping is only exercised with several processes and chunks.",
  ["GPSKet/driver/minSR.py"],
  [("index bookkeeping of the kernel matrix blocks", "minSRVMC._forward_and_backward"),
   ("scatter of the solution back to the ranks", "minSRVMC._forward_and_backward"),
   ("weighted statistics", "minSR._statistics")],
  ["driver.advance, driver.energy, driver.state.parameters on every rank"])

p("D02", "RMSProp-regularised SR driver: pooled update and history on every rank",
  "Each step of the SR driver with RMSProp regularisation changes the parameters by the solution of the linear system built from the samples of all MPI processes pooled, with the diagonal regularisation given by the bias-corrected running average of the squared pooled gradients of all previous steps. All processes end every step with identical parameters and the step always completes, for any number of processes, chunk size and real or complex parameters.",
  ["schedules", "configurations", "inputs", "histories"],
  "any number of processes, interleaving, chunk size, number of steps (history of gradients), real and complex models, scheduled shifts",
  "The three existing tests run this driver on one process only, where the gather and the broadcast are the identity.",
  ["GPSKet/driver/VMC_SRRMSProp.py"],
  [("gather to the root, solve, broadcast", "VMC_SRRMSProp.SRRMSProp"),
   ("running average of squared gradients", "VMC_SRRMSProp.SRRMSProp, VMC_SRRMSProp._ema")],
  ["driver.advance, driver.energy, driver.state.parameters on every rank"])

p("D03", "RMSProp preconditioners equal the pooled regularised system on every rank",
  "The RMSProp-regularised quantum geometric tensors (dense; on-the-fly for real parameters) applied to any vector, converted to a dense matrix or used in a solve, act as (1 - shift) times the covariance of the log-derivatives over the samples of all MPI processes plus shift times the diagonal made from the given running average. The RMSProp preconditioner built on them returns the same pooled solution on every process at every step, with the running average accumulated over all previous gradients.",
  ["schedules", "configurations", "inputs", "histories"],
  "any number of processes, interleaving, chunk size, sampled state (plain, unique-sample, exact summation), sequence of gradients and steps",
  "Existing tests never build these objects with several processes and use a history of at most a few steps on one process.",
  ["GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py", "GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py", "GPSKet/optimizer/sr_rmsprop.py"],
  [("MPI sums in matrix-vector products", "mat_vec in both QGT modules"),
   ("running average and bias correction", "SRRMSProp.__call__")],
  ["QGT.to_dense, QGT @ v, QGT.solve, preconditioner(vstate, gradient, step)"])

p("D04", "State fitting uses every data point and one consistent loss and gradient",
  "The state-fitting driver distributes the data set over the MPI processes so that every (configuration, amplitude) pair is owned by exactly one process, and each step's mini-batch contains only distinct owned pairs. The reported loss is the mean over all processes' mini-batches of the squared amplitude error, the parameters move along the gradient of exactly that loss, all processes stay identical, and a reset reproduces the same sequence of mini-batches.",
  ["schedules", "configurations", "inputs", "histories"],
  "any number of processes (also not dividing the data set), interleaving, batch size, number of steps, sequence of steps and resets",
  "The state-fitting drivers have no test.",
  ["GPSKet/driver/abstract_state_fitting.py", "GPSKet/driver/autoreg_state_fitting.py"],
  [("splitting and broadcast of the data set", "AbstractStateFittingDriver.__init__"),
   ("per-process mini-batch keys", "ARStateFitting._forward_and_backward"),
   ("reduction of loss and gradient", "autoreg_state_fitting._loss_and_grad")],
  ["driver.advance, driver.loss, driver.state.parameters, driver.reset"])

p("E01", "Fermionic energy estimates do not depend on implementation or sharding",
  "For every fermionic Hamiltonian (Hubbard; ab initio dense, on-the-fly or sparse) the local energy of any configuration equals the row of the second-quantised operator's matrix applied to the wavefunction divided by its amplitude, with or without incremental amplitude updates. The estimated energy and gradient are the averages of these over all MPI processes' samples, identical on every process and independent of the chunk size.",
  ["inputs", "configurations", "schedules"],
  "any integrals, hopping lists and electron numbers, any configuration, any number of processes, chunk size and interleaving",
  "The existing tests contain no check of these operators (only model normalisation tests), and none with several processes.",
  ["GPSKet/operator/hamiltonian/ab_initio.py", "GPSKet/operator/hamiltonian/ab_initio_sparse.py", "GPSKet/operator/hamiltonian/hubbard.py", "GPSKet/operator/fermion.py", "GPSKet/vqs/mc/mc_state/expect.py"],
  [("parity bookkeeping by cumulative electron counts", "get_parity_multiplicator_hop, apply_hopping"),
   ("on-the-fly kernels with incremental updates", "local_en_on_the_fly"),
   ("expectation dispatch", "GPSKet/vqs/mc/mc_state/expect.py")],
  ["vstate.local_estimators, vstate.expect, vstate.expect_and_grad, operator.get_conn_padded"])

p("E02", "Spin and exclusion-process energies do not depend on implementation or sharding",
  "For the J1-J2 Heisenberg Hamiltonians (evaluated on the fly or by the standard operator) and the exclusion-process generator, the local energy of any configuration equals the row of the model's matrix applied to the wavefunction divided by its amplitude, with or without incremental amplitude updates, for every coupling, lattice, boundary condition and sign rule. The estimated energy and gradient are the averages of these over all MPI processes' samples, identical on every process and independent of the chunk size.",
  ["inputs", "configurations", "schedules"],
  "any couplings and rates, lattice shapes and boundary conditions, magnetisation sector, any configuration, any number of processes, chunk size and interleaving",
  "The existing tests contain no check of these operators and none runs with several processes.",
  ["GPSKet/operator/hamiltonian/J1J2.py", "GPSKet/operator/hamiltonian/asep.py", "GPSKet/operator/asep.py", "GPSKet/vqs/mc/mc_state/expect.py"],
  [("on-the-fly kernel with incremental updates", "J1J2.local_en_on_the_fly"),
   ("connected configurations of the exclusion process", "AsymmetricSimpleExclusionProcess._get_conn_flattened_kernel"),
   ("expectation dispatch", "GPSKet/vqs/mc/mc_state/expect.py")],
  ["vstate.local_estimators, vstate.expect, vstate.expect_and_grad, operator.to_dense"])

p("M01", "Fast-update Metropolis sampling follows the same chain as plain sampling",
  "Started from the same configurations and random state, the Metropolis sampler with incremental amplitude updates visits the same configurations, with the same acceptance counts, as Metropolis sampling that evaluates every proposed amplitude from scratch: a proposal is accepted exactly when the uniform draw is below the ratio of squared amplitudes. This holds through any history of accepted and rejected moves, sweeps, resets and parameter changes, on every MPI process.",
  ["histories", "inputs", "configurations", "schedules"],
  "any seed (proposal and acceptance history), number of chains, sweep length, model with incremental updates, resets and parameter changes between sweeps, number of processes",
  "No test runs the fast sampler; a stale cache entry shows only after particular sequences of accepts and rejects.",
  ["GPSKet/sampler/metropolis_fast.py", "GPSKet/sampler/fermionic_hopping.py", "GPSKet/sampler/rules/fermionic_hopping.py", "GPSKet/sampler/rules/exchange_with_update.py", "GPSKet/models/qGPS.py", "GPSKet/models/slater.py"],
  [("selection of the cache by acceptance", "MetropolisFastSampler._sample_next"),
   ("reported update sites", "transition_function / ExchangeRuleWithUpdate.transition")],
  ["sampler.sample / MCState.samples, sampler_state.acceptance"])

p("M02", "Fermionic sampling conserves electron numbers and proposes symmetrically",
  "Every configuration produced by random initialisation or by any sequence of hopping or exchange moves contains exactly the prescribed numbers of up and down electrons and only valid site occupations. Each move changes at most the two sites it reports, by one electron hop or one spin exchange, and moves between any two configurations are proposed equally often in both directions. Random initialisation draws all configurations with these electron numbers equally often, and (with the default transition probabilities) every possible hop, and every possible exchange if exchanges are enabled, can be proposed.",
  ["histories", "inputs", "configurations"],
  "any electron numbers including empty, full and fully polarised lattices, any hop/exchange probability and transition matrix, any seed and number of moves, any number of processes",
  "No test runs the hopping sampler; conservation must hold for every random history, including boundary fillings.",
  ["GPSKet/sampler/rules/fermionic_hopping.py", "GPSKet/hilbert/discrete_fermion.py", "GPSKet/hilbert/random/discrete_fermion.py", "GPSKet/sampler/fermionic_hopping.py"],
  [("guard against disallowed moves", "transition_function"),
   ("choice without replacement", "random_state for FermionicDiscreteHilbert")],
  ["rule.transition, sampler.sample, hilbert.random_state"])

p("M03", "Incrementally updated amplitudes equal amplitudes computed from scratch",
  "For every model that offers incremental amplitude updates, the amplitude obtained by any sequence of cached local updates (including repeated, overlapping and no-change updates and updates that are discarded) equals the amplitude of the resulting configuration evaluated from scratch; a site listed twice in one update takes the first of its two occupations, the second being its previous one. Evaluating without caching never alters a stored cache.",
  ["histories", "inputs", "configurations"],
  "any model configuration (symmetries, support dimension, real/complex), any sequence of updates with any number of sites, accepted or discarded",
  "Tests evaluate amplitudes of whole configurations; only long update histories expose a stale intermediate.",
  ["GPSKet/models/qGPS.py", "GPSKet/models/slater.py", "GPSKet/models/slater_jastrow.py", "GPSKet/models/slater_qGPS.py", "GPSKet/models/jastrow.py", "GPSKet/models/pfaffian.py", "GPSKet/models/backflow.py", "GPSKet/models/cpd_backflow.py"],
  [("site-product cache", "qGPS.__call__ with update_sites"),
   ("cached configuration and determinant updates", "Slater.__call__ with update_sites")],
  ["model.apply(..., cache_intermediates=True / update_sites=...)"])

p("M04", "Autoregressive direct sampling follows the model's own conditionals",
  "The direct sampler draws every configuration site by site from the model's (normalised) conditional probabilities given the sites already drawn, as they are when computed from scratch and never of sites not yet drawn, so each draw is the inverse-transform sample of the exact conditional distribution and, for normalised models, the frequencies follow the squared amplitudes. Draws respect the model's particle-number or magnetisation constraint, repeated sampling from one state never reuses random numbers, and processes draw independent samples.",
  ["histories", "inputs", "configurations", "schedules"],
  "any seed, batch and chain count, model (plain, full, plaquette, convolutional; with or without symmetries and constraints), sequence of sampling calls, number of processes",
  "The existing sampler tests are not even among the stable ones and compare frequencies statistically on one process.",
  ["GPSKet/sampler/autoreg.py", "GPSKet/models/autoreg_qGPS.py", "GPSKet/models/autoreg_qGPS_full.py", "GPSKet/models/autoreg_plaquetteqGPS.py", "GPSKet/models/pixelcnn.py", "GPSKet/nn/causal_conv.py"],
  [("scan over sites with a mutable cache", "autoreg._sample_chain"),
   ("cached context products and counts", "_conditional of the AR models")],
  ["sampler.sample, MCState.samples, model.conditionals, model log-amplitude"])

p("F01", "Molecular data-set cache survives crashes and concurrent use",
  "Requesting the water data set returns the same configurations and amplitudes as computing them from scratch with the given basis and method, whatever happened before to the cache directory: earlier runs killed at any point, failed writes, or several processes requesting it at the same time. A request that is not itself interrupted never fails because of such leftovers and never returns a mixture of different or partial data.",
  ["crash_points", "schedules", "fault_sequences", "histories"],
  "any kill point during cache construction, any interleaving of concurrent requests, failing or short writes, any sequence of requests with different basis and method",
  "There is no test of the data-set module, and tests do not kill the process between two file operations.",
  ["GPSKet/datasets/h2o.py"],
  [("existence checks of cache files", "datasets.h2o._H2O_raw"), ("cache file naming", "datasets.h2o._H2O_raw")],
  ["get_H2O_dataset"])

p("F02", "Molecular integral cache: crash-consistent and identical on all ranks",
  "Building a molecular system in a work directory yields on every MPI process the Hamiltonian with exactly the integrals of the configured molecule and orbital basis, and reference orbitals that belong to the same basis, whether the integrals are computed or reloaded; with an exchange cutoff, the environment of every orbital consists of the orbitals it has the largest Hartree-Fock exchange with in that basis. This holds after earlier runs were killed at any point or had failing writes in the same directory, and never ends in a failure caused by such leftovers.",
  ["crash_points", "schedules", "fault_sequences", "histories"],
  "any kill point or failing write during the set-up of an earlier run, any number of processes and interleaving, any number of restarts",
  "The training programs have no tests; crash points between the four cache files are never visited.",
  ["scripts/cpd-backflow/cpd_backflow/systems.py", "scripts/cpd-backflow/cpd_backflow/models.py"],
  [("all-files-exist check before loading", "systems.get_molecular_system"), ("broadcast of integrals from the root", "systems.get_molecular_system"),
   ("reference orbitals reloaded from the work directory", "models.py")],
  ["get_system, get_model, the Hamiltonian and reference orbitals on every rank"])

p("F03", "Backflow training survives kills and resumes exactly once per step",
  "A backflow training run killed at any point and restarted with the same command until it finishes completes, performs exactly the configured number of optimisation steps after the checkpoint it resumes from, and resumes with the parameters, optimiser state and regularisation history of a checkpoint that was really reached. The recorded best parameters are always a complete record of a step with lower energy and variance than the previous record, the stored configuration and metrics stay readable, and all MPI processes use the same state.",
  ["crash_points", "schedules", "fault_sequences", "histories"],
  "any kill point (between any two file operations), any number of kills and restarts, failing writes, any number of processes, any interleaving, every optimiser choice, with or without finishing and evaluation phases",
  "The training program has no tests; the restart logic is only reached after a crash.",
  ["scripts/cpd-backflow/cpd_backflow/vmc.py", "scripts/cpd-backflow/cpd_backflow/utils.py"],
  [("checkpoint serialisation", "vmc.serialize_* / deserialize_*"), ("resume step arithmetic", "vmc.main"),
   ("best-parameter record", "utils.save_best_params"), ("config and metrics files", "utils.save_config, utils.CSVLogger")],
  ["files in the work directory, sequence of optimisation steps per rank"])

p("F04", "Autoregressive training survives kills and resumes exactly once per step",
  "An autoregressive training run killed at any point and restarted with the same command until it finishes completes, performs exactly the configured number of optimisation steps after the checkpoint it resumes from, and resumes with the parameters, optimiser state and regularisation history of a checkpoint that was really reached. The stored configuration and metrics stay readable and all MPI processes use the same state.",
  ["crash_points", "schedules", "fault_sequences", "histories"],
  "any kill point (between any two file operations), any number of kills and restarts, any number of processes, any interleaving",
  "The training program has no tests; the restart logic is only reached after a crash.",
  ["scripts/ARGPS/argps/vmc.py", "scripts/ARGPS/argps/utils.py"],
  [("checkpoint serialisation", "vmc.serialize_VMC / deserialize_VMC"), ("resume step arithmetic", "vmc.main"), ("config and metrics files", "utils.save_config, utils.CSVLogger")],
  ["files in the work directory, sequence of optimisation steps per rank"])

p("F05", "Ab initio benchmark runs survive kills and continue where they stopped",
  "An ab initio benchmark run (hydrogen chain, water, hydrogen cube) killed at any point and started again in the same directory never fails because of files left behind and continues with the parameters of the last step it evaluated or their update, identical on all MPI processes. The integrals are those of the molecule in the stored orthonormal basis, the same on all processes and in all restarts. out.txt has one complete row (energy including nuclear repulsion, error, variance) for every finished step, at most the row of the last step before a kill missing. The run ends, restarted or not, exactly when the variance has not improved for 100 (chain), 200 (water) or 250 (cube, counting only steps after the first 1000) consecutive recorded steps; best_pars.pickle then holds the parameters of the counted step with the smallest variance (or of a better one whose row was lost in a kill), and oneBRDM_k.npy the spin-resolved one-body density matrix <c+_i c_j> averaged over all processes' samples of recorded step k.",
  ["crash_points", "schedules", "fault_sequences", "histories"],
  "any kill point (between any two file operations), failing writes, any number of kills and restarts, any number of processes, any interleaving, any sequence of variances",
  "The benchmark programs have no tests; restart and stopping logic is only reached after a crash or hundreds of steps.",
  ["scripts/GPS_for_ab_initio/H50_1D.py", "scripts/GPS_for_ab_initio/H2O.py", "scripts/GPS_for_ab_initio/H4x4x4.py"],
  [("integrals computed once and broadcast", "basis.npy, h1.npy, h2.npy"), ("restart and stopping logic", "'Set up checkpointing' and 'Optimization loop'"), ("density matrix", "H4x4x4.get_1RDM")],
  ["files in the run directory, parameters of every evaluation on every rank"])

p("F06", "Training programs set up the configured system, the same on all processes",
  "From its configuration a training program builds, on every MPI process, the same Hamiltonian: the configured lattice model (J1-J2 couplings and sign rule; Hubbard hopping, interaction, lattice, electron numbers and open, periodic or antiperiodic boundaries, where chains whose length is a multiple of four are antiperiodic when closed, 'PBC-APBC' is antiperiodic along x and 'PBC-OBC' open along y) or hydrogen molecule in the configured canonical or local basis, up to signs of basis functions. Seed and initial parameters are the same on all processes and when the run is set up again from the stored configuration, also where orbital signs and random numbers differ between hosts. The samples drawn have the configured magnetisation or electron numbers, amplitudes of symmetrised spin models have the configured lattice and spin-flip symmetries, the Hubbard reference orbitals are a converged mean-field solution (restricted ones for closed shells), and a backflow run starts, up to the configured noise, from the determinant of its reference orbitals, with local energies which belong to its Hamiltonian and amplitudes.",
  ["schedules", "configurations", "histories"],
  "any configuration of the programs' systems and models, any number of processes, interleaving, orbital signs and random streams differing between processes, repeated set-up from the stored configuration",
  "The programs have no tests, and differences between processes only matter with several of them.",
  ["scripts/ARGPS/argps/systems.py", "scripts/ARGPS/argps/models.py", "scripts/ARGPS/argps/configs", "scripts/cpd-backflow/cpd_backflow/systems.py", "scripts/cpd-backflow/cpd_backflow/models.py"],
  [("systems from a configuration", "argps get_Heisenberg_system, get_Hubbard_system, get_molecular_system; cpd_backflow get_FermiHubbard_system"),
   ("mean-field orbitals", "cpd_backflow.models.get_hf_orbitals"), ("seed", "configs.resolve")],
  ["hamiltonian, samples, parameters and config.yaml of a set-up run"])

p("L01", "Distributed supervised fit equals the serial fit of the pooled data",
  "A supervised fit (log-space, exponential or generalised-linear-model flavour) whose training configurations are distributed over MPI processes in any way produces the same parameters, hyper-parameters, marginal likelihood, derivatives and errors as one process fitting all the data, for any sequence of fit steps. All processes hold identical results after every step and the inputs supplied by the user are left unchanged.",
  ["schedules", "configurations", "inputs", "histories"],
  "any distribution of the data over any number of processes, any interleaving, weightings, priors, bias, real/complex models, hyper-parameter optimisation, any sequence of fit steps",
  "The supervised module has no tests.",
  ["GPSKet/supervised/supervised_qgps.py"],
  [("MPI sums of the normal equations", "QGPSLearningExp.setup_fit_noise_dep, QGPSLogSpaceFit.setup_fit, QGPSGenLinMod.setup_fit_alpha_dep"),
   ("broadcast of the solution", "QGPSLearning.setup_fit_alpha_dep")],
  ["fit_step, predict, log_marg_lik, epsilon, alpha_mat, noise_tilde on every rank"])

p("L02", "Supervised kernel caches stay coherent through any call history",
  "After any sequence of fits, predictions, reference-site changes, data-set changes and parameter assignments, predictions and kernel matrices of a supervised model equal those of a freshly constructed model with the same parameters. A prediction does not depend on which sites or data were used before, including when arrays passed in earlier calls were reused and overwritten by the caller.",
  ["histories", "inputs"],
  "any sequence of calls, any reference sites (one or one per support point), any data sets (with symmetry copies), parameters containing zeros or very small entries",
  "The supervised module has no tests; stale caches appear only after particular call sequences.",
  ["GPSKet/supervised/supervised_qgps.py"],
  [("incremental update of site products", "QGPSLearning.update_site_prod_fast"), ("cache validity tests", "QGPSLearning.set_kernel_mat"), ("invalidation", "QGPSLearning.epsilon setter, reset")],
  ["predict, set_kernel_mat, K"])

p("L03", "Imaginary-time helper returns exact targets and leaves the state untouched",
  "The imaginary-time helpers return log amplitudes of (1 - tau H) applied to the state for exactly the given configurations, and leave the variational state's own samples, parameters and sampler state as they were. This also holds when an evaluation fails or is interrupted part-way, and for repeated or nested steps.",
  ["fault_sequences", "histories", "inputs", "schedules"],
  "any configurations, tau, Hamiltonian and chunk size, an interruption or failure at any point of the evaluation, any number of processes",
  "The helper has no test; the failure path is only taken when an evaluation raises.",
  ["GPSKet/supervised/imag_time_step.py"],
  [("temporary replacement of the samples", "ImagTimeStep.get_local_energies"), ("time-evolved model", "get_imag_time_step_vstate")],
  ["ImagTimeStep.log_imag_time_step, get_imag_time_step_vstate, vstate.samples"])

p("R01", "Density matrices from the sampling program are the pooled averages",
  "The density-matrix program writes one- and two-body matrices equal to the averages over the samples of all MPI processes and chunks of the local estimators, in the documented index order, so that contracting them with the integrals gives the mean local energy. The result does not depend on how the samples are divided into processes and chunks, and the program loads the recorded best parameters on every process. The spin correlations evaluated from the two files are, for every pair of orbitals, a third of <S_a.S_b> over these samples (<Sz_a Sz_b> in a singlet).",
  ["schedules", "configurations", "inputs"],
  "any number of processes and chunks, interleaving, model and integrals",
  "The program has no tests and the reduction only matters on several processes.",
  ["scripts/cpd-backflow/cpd_backflow/rdms.py", "scripts/cpd-backflow/cpd_backflow/corrfunc.py", "GPSKet/operator/hamiltonian/ab_initio.py"],
  [("accumulation with MPI sums", "rdms.main"), ("spin correlations", "corrfunc.get_correlations"), ("local density matrices", "local_en_on_the_fly(return_local_RDMs=True)")],
  ["rdm_1.npy, rdm_2.npy in the work directory"])

p("A01", "Autoregressive models are normalised",
  "For any parameters, the squared amplitudes of an autoregressive model sum to one over its Hilbert space and vanish outside the constrained sector.",
  ["inputs", "configurations"], "any parameters, lattice size, symmetry set and constraint",
  "Tests sample a handful of parameter values.",
  ["GPSKet/models/autoreg_qGPS.py", "GPSKet/models/autoreg_qGPS_full.py", "GPSKet/models/autoreg_plaquetteqGPS.py"],
  [("normalisation of conditionals", "normalize / _conditional")], ["model.apply"])

p("A02", "Model amplitudes have the declared symmetries",
  "Symmetrised models give amplitudes invariant under the supplied symmetry operations, and determinant and Pfaffian based models change sign under the exchange of two electrons.",
  ["inputs", "configurations"], "any parameters, configuration and symmetry group",
  "Tests sample a handful of configurations.",
  ["GPSKet/models/qGPS.py", "GPSKet/models/slater.py", "GPSKet/models/pfaffian.py"],
  [("symmetry orbit reduction", "qGPS.__call__")], ["model.apply"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
