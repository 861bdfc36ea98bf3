EXP = " Exhaustive within the bounds recorded in the evidence file; nothing is claimed beyond them."
TECH = {
 "C01": "explicit-state exploration of API histories on the real objects, differential oracle",
 "C02": "explicit-state exploration of query batches and prediction-call sequences on the real objects",
 "C03": "explicit-state exploration of set/update/train/predict interleavings on the real objects against the last trained twin",
 "C04": "exhaustive enumeration of (operation, array layout, mutation point) histories with byte-level monitors on caller objects",
 "C05": "exhaustive enumeration of trained configurations and query lattices, derivatives compared with differences of the real predictions",
 "C06": "exhaustive enumeration of single-datum perturbation histories (perturb, retrain, compare) on the real models",
 "C07": "exhaustive enumeration of trained states reached through a scripted optimizer, compared with an independent reference model",
 "C08": "exhaustive exploration of the captured objective/gradient over a parameter lattice against a reference model and finite differences",
 "C09": "exhaustive fault injection: all sequences of optimizer outcomes up to a length, run on the real training",
 "C12": "explicit-state exploration of setup/solve histories and of a lattice of systems and profiles under an evaluation budget",
 "C10": 'exhaustive enumeration of designs, options and query lattices, differential oracle against independent definitions',
 "C11": 'exhaustive enumeration of spline configurations and query lattices, differential oracle against an independent spline model',
 "C13": 'exhaustive crash-point, torn-file and writer/reader schedule exploration of the real training cache (kernel-stopped writers)',
 "C14": 'bounded exhaustive exploration of API histories of the native models (pairs of data shapes x option variants x intermediate steps) under AddressSanitizer and under two heap-fill patterns, on the real C++ code',
 "C15": 'explicit-state exploration of option-dictionary operation sequences, real object in lockstep with a reference model; exhaustive class x option x typed-value table',
 "C16": 'explicit-state exploration of the set/train/predict protocol: every malformed call in every protocol state on the real objects, complete observable state compared; pairs of malformed calls inserted at every point of the history',
 "C17": 'stateless model checking of the samplers under a scripted random generator: exhaustive exploration of deviation-bounded schedules of random draws; exhaustive sizes for the full factorial',
 "C18": 'exhaustive interleaving exploration: every sequence of disturbances of the process-wide random generator, and a disturbance at every function call of the real seeded computation',
 "C19": 'explicit-state exploration of encode/decode operations: every list of variable types up to a length x every lattice point, compared with a per-variable reference model',
 "C20": 'explicit-state exploration: every list of types x surrogate x form x training history, with the plain surrogate on cast points as the reference model',
 "C21": 'stateless model checking of EGO.optimize: depth-first enumeration of every sequence of answers of the internal optimizer, compared with a model of the loop',
 "C22": "stateless model checking of EGO's step: every sequence of optimizer answers, plus exhaustive lattice of surrogate means and deviations, against closed-form criteria",
 "C23": 'explicit-state exploration: every bounded configuration, order of supplying levels and retraining history of the real co-Kriging against an independent recursive reference model',
 "C24": 'explicit-state exploration: every pair of models x bridge x derivative option x order of operations of the real VFM against the composition of separately trained models',
 "C25": 'explicit-state exploration of the real mixture with scripted experts: every matrix of expert errors, every subset of experts and capabilities, indicator experts observing the weights on a lattice',
 "C26": 'explicit-state exploration of the real network: all depths, widths, batchings, normalisations and derivative options over small data, the optimizer followed step by step',
 "C27": 'exhaustive enumeration of every benchmark problem x dimension x output derivative x lattice point and of every composition of problem wrappers up to a depth',
 "C28": 'explicit-state exploration of all nested reporting programs against a printer model, and of every write of every report failing',
 "C29": 'enumeration of every configuration and parameter lattice point of GEKPLS and MGP against independent models',
 "C30": 'exhaustive enumeration of the symmetry group (row permutations, renumberings, output subsets and orders, units) of every surrogate configuration on the real code',
 "C31": 'exhaustive enumeration of kernels x parameter x difference lattices and of every row count around the block boundaries on the real functions, against closed forms',
 "C32": 'exhaustive fault injection: every library call made by training and prediction fails in turn, over training histories, on the real code',
 "C33": 'stateless exploration of thread schedules (all with one preemption, two for short operations) of the real code under a controlled scheduler',
}
NOTE = {
 "C01": "All bounded histories are executed on the implementation and compared with a fresh object of the same code." + EXP,
 "C02": "All row arrangements and call sequences of the bound are executed; the reference is the single-row answer of a pristine twin." + EXP,
 "C03": "After every operation of every bounded history the answers must be those of the last trained state or an exception." + EXP,
 "C04": "Snapshots of every caller-owned object around every operation; undisturbed twins for aliasing." + EXP,
 "C05": "The oracle is the real prediction itself, differenced along every axis at every lattice point of every configuration." + EXP,
 "C06": "The oracle is the real retraining on each perturbed datum of each configuration." + EXP,
 "C07": "The reference model (universal-Kriging equations) is independent code; each of its states is replayed against the trained implementation." + EXP,
 "C08": "The reference likelihood is independent code; gradients are compared with differences of the objective the training hands over." + EXP,
 "C09": "All outcome sequences are run on the real training loop with a scripted scipy.optimize.minimize." + EXP,
 "C12": "Direct numpy solution and the definition of the decrease condition are the oracles." + EXP,
 "C10": 'The references (least squares, log-domain inverse-distance weights, linear system) are independent code; each state is replayed on the trained implementation.' + EXP,
 "C11": 'The reference spline (1-D bases, Kronecker assembly, direct solution of the stated problem) is independent code; every trained state is compared with it.' + EXP,
 "C13": 'Every crash point of a real writer process, every truncation/byte change and every file-access schedule of the bound is run and the next training is compared with an uncached one.' + EXP,
 "C14": 'histories of at most two trainings; undefined results that do not influence any answer are not seen' + EXP,
 "C15": 'option values from a typed pool of 26 plus every documented value; option interactions in pairs for constructors' + EXP,
 "C16": 'default model configurations; MGP not in 1-D' + EXP,
 "C17": 'random draws deviate from the default stream in at most one or two draws, each to its extreme outcomes' + EXP,
 "C18": 'Real LHS, EGO, GENN and mixed-integer sampling; each result compared bit for bit with the undisturbed run and with runs in other processes.' + EXP,
 "C19": 'Feasibility, idempotence and inverses checked at every lattice point of the real functions.' + EXP,
 "C20": 'Conformance by replaying the same history on the plain surrogate.' + EXP,
 "C21": "The optimizer is the controlled environment; every history is replayed on the real EGO and compared with the model's batches, budget and data." + EXP,
 "C22": 'Objectives handed to the optimizer, chosen points and virtual values compared with closed forms on every explored history.' + EXP,
 "C23": "The reference recursion is replayed on the implementation's parameters for every configuration (frozen and real optimizers)." + EXP,
 "C24": 'Reference composition replayed for every configuration and operation order.' + EXP,
 "C25": 'Oracle: smallest held-out error, Gaussian mixture densities, stated combination; conformance on real experts and training histories.' + EXP,
 "C26": 'Oracle: an independent network with exact gradients; normalisation, regularisation, Adam steps and save/load histories are replayed against it.' + EXP,
 "C27": 'Oracle: the published formulas written independently and finite differences of the real values.' + EXP,
 "C28": 'Conformance: every program and every report with every combination of switches and each failing write runs on the real code.' + EXP,
 "C29": 'Oracle: closed-form directions and independent Kriging on the Taylor-augmented data; published marginal variance with derivatives by finite differences.' + EXP,
 "C30": 'Oracle: the answers of the untransformed model, transformed; scripted hyperparameters, and the real optimizers under changes of unit.' + EXP,
 "C31": 'Oracle: independently derived closed forms; the analytic first PLS direction for GEKPLS expansions.' + EXP,
 "C32": 'Oracle: state and answers before the failure and those of a fresh object.' + EXP,
 "C33": 'Oracle: the operation run alone, bit for bit.' + EXP,
}
NA = {}
