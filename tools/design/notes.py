# property -> (oracle, deliberate limits / false alarms that were corrected)
N = {
"C01": ("a freshly built object with the same options, trained once on the final data; differential, tolerance 1e-6 relative",
        "Defects that affect a first training equally are invisible here; they are judged by C05-C11, C23-C30. Option changes are only made between rounds. VFM is not retrained after option changes (it builds its sub-models once per training from its own options)."),
"C02": ("the answers of a pristine twin to single-row queries", "Equality is up to 1e-7 because BLAS sums in another order for other batch sizes. Known finding: MGP returns 1-D arrays."),
"C03": ("the last trained twin; an exception is accepted, any other answer is not", "Crashes of the worker process count as violations."),
"C04": ("byte snapshots of every object of the caller before and after; an undisturbed twin for aliasing", "A surrogate object handed to EGO or MixedIntegerSurrogateModel is meant to be trained by it, so its state is not frozen."),
"C05": ("4th-order central differences of the model's own predictions at two steps; a point is judged when the two agree", "Kinks (knots of linear splines, IDW points with p<=1) are excluded and counted; KPLS/GEKPLS kernels for which derivatives are announced as unavailable raise and are excluded."),
"C06": ("the real model retrained with one datum moved", "Ill-conditioned RBF/RMTS systems are skipped and counted; iterative solvers are not judged for approx_order > 2 (their tolerance dominates)."),
"C07": ("`vlib/gpref.py`, an independent universal-Kriging implementation (QR-free, direct solves)", "Correlation matrices with condition above 1e11 are judged for sign and finiteness only."),
"C08": ("independent concentrated likelihood from `gpref`, order of every pair of lattice points; finite differences for gradients", "MGP's posterior mixes a base-10 likelihood with a natural-log prior; its objective is taken as documented in the code (only the gradient is judged against it)."),
"C09": ("the textbook model at the parameters reported, and the best in-bounds candidate any optimizer call returned", "TNC raising KeyError after a failed Cholesky factorisation is an error and accepted as such."),
"C10": ("least-squares residual orthogonality, log-domain inverse-distance weights, direct linear system", "Beyond condition 1e13 only the residual of the stated system is judged."),
"C11": ("independent 1-D bases, Kronecker assembly and direct solution of the regularised problem", "Smoother-type solvers (gs, jacobi, mg, null) are not expected to reach the solution; iterative solvers are not judged for approx_order > 2; ill-conditioned systems skipped and counted."),
"C12": ("numpy direct solution; Armijo/Wolfe conditions evaluated at the returned step; an evaluation budget for termination", "Known finding: GMRES breakdown in scipy at tolerance 1e-15."),
"C13": ("the same training without a cache", "POSIX rename/write semantics; the writer is a real process stopped by the kernel (RLIMIT_FSIZE)."),
"C14": ("AddressSanitizer build of the current C++ sources, and bitwise equality of two runs with different heap-fill patterns", "Uninitialised values that never influence an answer are not seen. The instrumented build lives in a scratch directory that the check removes."),
"C15": ("a reference dictionary; the documented option tables frozen in `vlib/data/options.json`", "MGP's defaults for corr/hyper_opt are its own; combinations the class rejects with ValueError are accepted as rejections. Known finding: MGP with eval_noise=True."),
"C16": ("declared flags, documented shapes, complete observable state before and after a refused call", "MGP also accepts queries of the width of its embedding. Known finding: MGP 1-D shapes."),
"C17": ("definition of each design", "Exactly collinear jitter is not scripted for the correlation criterion (pyDOE2 fails there)."),
"C18": ("bitwise equality with the undisturbed run and with other processes", "Same machine and single BLAS thread."),
"C19": ("a per-variable cast oracle", "`cast_to_mixed_integer` truncates floats with int(); only integral values are handed to it, as documented."),
"C20": ("the plain surrogate trained on the cast data", "Queries are compared row by row with the plain surrogate (batch answers of ill-conditioned KPLS differ in rounding)."),
"C21": ("a model of EGO's loop: batches, budget, data", "The surrogate is a cheap KRG subclass; real surrogates are covered in C18 and C04."),
"C22": ("closed forms of EI/SBO/UCB, virtual-point rules", "At zero variance EI must be exactly zero."),
"C23": ("independent recursive co-Kriging with the parameters found", "TNC with eval_noise is excluded (the class refuses it); the row-order check uses well-conditioned parameters; for the PLS variants the discrepancy variance factor 1/2 or 1 is accepted."),
"C24": ("two plain surrogates trained separately", "RBF as a bridge is not judged for interpolation (regularised default)."),
"C25": ("held-out error by scripted experts, Gaussian mixture densities", "Real experts are compared row by row."),
"C26": ("an independent network with complex-step gradients and an independent Adam", "'Progress' is not claimed from stationary starts (constant inputs); GENN's Adam moments are updated at every line-search trial - followed as it is."),
"C27": ("independently written formulas, complex step", "Where docs and code disagree (Rosenbrock factor, torsion thickness) the code's formula, which agrees with the cited source, is followed; finite-difference options are judged within their accuracy; norms at zero are judged for value only."),
"C28": ("a printer model; the quiet run", "Warnings do not belong to a section; times are masked; the unused Silence2 is not claimed."),
"C29": ("independent Kriging with Taylor points; independent Gaussian process with numerical Hessian", "Only the first PLS component is judged (Taylor data are exactly linear, later directions are rounding noise); the marginal variance is judged where two step sizes agree, 'not below' where the Hessian is negative definite."),
"C30": ("the same code on transformed data; the group element undone on the answers", "RMTC with regularization_weight 1e-6 and dense-lu; RMTS scaling only for approx_order=2; no shift for RBF without constant or regularised RMTS; no renumbering for GENN."),
"C31": ("per-dimension closed forms of value, first and second derivative, multiplied over dimensions; analytic PLS direction of a first-order expansion", "abs_exp is not differentiated where a difference is 0. act_exp in embedding space (d_x) is judged through C29; scale_X_to_unit is not judged on constant inputs (division by a zero range; nothing in SMT uses it so)."),
"C32": ("the answers, options and data of the object before the failure, and those of a fresh object", "Failures arrive at calls into numpy, scipy, scikit-learn, the compiled extensions and the optimizer made directly by SMT code (observed with sys.monitoring, so no source line is named in the check); not inside SMT's own clean-up, which makes no such calls. Within RMTS and MOE the quick tier identifies places by their three innermost source lines. VFM has no second training."),
"C33": ("the result of each operation run alone, bit for bit", "Stateless exploration of the real code under a scheduler: sys.monitoring LINE events of SMT code are the scheduling points. One preemption: the first operation is stopped before its i-th line and the second runs to its end inside that callback. Two preemptions: two real threads handed over with semaphores. Points: every line event in the thorough tier, the first and last event of each line otherwise (the first event of each function for trainings of RMTS and GENN models). Schedules in which the second thread would wait for a lock of scipy (cg) are not feasible and are counted as skipped. A cache kind shares one data directory. Library calls and the compiled extensions run as units (they hold the interpreter lock or work on buffers of their own call)."),
}
