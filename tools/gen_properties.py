#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run me after editing)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
	P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
		anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
			mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

RND, EST, STA, TRC, DIA, OPS, LAN = ["src/primate/" + f for f in ("random.py", "estimators.py", "stats.py", "trace.py", "diagonal.py", "operators.py", "lanczos.py")]
CPP = ["src/primate/_lanczos.cpp", "src/primate/include/lanczos.h", "src/primate/include/pylinop.h", "src/primate/include/eigen_operators.h"]
TRI, INT, TQL, FTT = ["src/primate/" + f for f in ("tridiag.py", "integrate.py", "tqli.py", "fttr.py")]

# ---------------------------------------------------------------- random sampling
prop("R01", "Parallel block sampling does not depend on the thread schedule",
	"For a given shape, distribution, seed and thread count, what the multi-threaded block sampler holds after each of its fills is a fixed function of those arguments and of how many fills have been made: the order, speed, stalls and interleaving of its workers never matter, nor do other samplers or other users of random numbers. With one thread it equals what the sequential sampler draws from the same seed.",
	["schedules", "inputs", "histories"], "every interleaving and stall pattern of the worker threads; shapes from 1x1 up incl. fewer columns than threads; all distribution names; integer, SeedSequence and Generator seeds; any number of successive fills; concurrently active samplers",
	"The only test of the parallel sampler compares wall-clock times and is deselected; no test looks at the values it produces, under any schedule.",
	[RND], [("per-worker generators spawned from one seed; each worker owns a disjoint column range", RND + ": Isotropic.__init__/fill")],
	[("block values", "shared output block that the workers write", RND + ": Isotropic.values")], ["Isotropic.values after fill()"])
prop("R02", "A parallel fill refreshes the whole block or raises",
	"When a fill of the multi-threaded block sampler returns normally, every entry of the block has been replaced by a new draw from the requested distribution (right support and column norm), whatever the ratio of columns to threads. If any worker fails while filling, or cannot be started, that fill raises the failure instead of returning a partly stale block; once failures stop, the next fill refreshes everything again.",
	["fault_sequences", "schedules", "inputs"], "every worker and every point at which it may fail (before, in the middle of, after writing part of its columns), failures to start a thread, every interleaving; all shapes, thread counts and distributions",
	"No test makes a worker fail; a swallowed exception leaves plausible-looking stale numbers that no unit test on the happy path can see.",
	[RND], [("futures of the submitted column ranges are collected before fill returns", RND + ": Isotropic.fill")],
	[("futures", "outcome of each column range", RND + ": Isotropic.fill")], ["Isotropic.fill() outcome", "Isotropic.values"])
prop("R03", "A finished fill is quiescent and samplers shut down cleanly",
	"Once a fill has returned, or raised because of a worker, nothing modifies the block until the next fill is requested, however slow or faulty individual workers were, and samplers used side by side never touch each other's blocks. Dropping a sampler, idle, after failed fills, or after a failed construction, ends all of its worker threads without any error, and no sequence of creating, filling and dropping samplers ever deadlocks.",
	["schedules", "fault_sequences", "histories"], "every interleaving of workers with their caller and with other samplers, stalled and failing workers, arbitrary create/fill/drop histories",
	"Late writers and leaked or deadlocked workers only appear under particular schedules; the tests run one arbitrary schedule and never look after the fill.",
	[RND], [("fill waits for all submitted work; executor is shut down when the sampler is dropped", RND + ": Isotropic.fill/__del__")],
	[("worker threads", "threads owned by one sampler", RND + ": Isotropic.executor")], ["Isotropic.values over time", "live threads after drop"])
prop("R04", "A sampler shared by threads hands out every draw exactly once",
	"When several threads draw vectors concurrently from one shared sampler, or from samplers sharing one generator, each column of the seeded random stream is delivered to exactly one caller, once: no column is lost, duplicated, torn or overwritten after it was delivered, for draws returned as new arrays as well as draws into the caller's own buffer.",
	["schedules", "inputs"], "every interleaving of up to several caller threads and draws; all distributions, both returning and in-place forms, any batch widths",
	"All tests draw from one thread.",
	[RND], [("one generator per sampler, each draw fills a fresh or caller-owned array in a single generator call", RND + ": isotropic/_*_inplace")],
	[("generator stream", "position in the seeded stream", RND + ": isotropic closure")], ["arrays returned by the sampler"])
prop("R05", "Seeded generation depends only on its arguments",
	"Random vectors and random matrices generated from an explicit seed are a function of the arguments alone: repeating the call, having made any other calls before, running other generators concurrently, or reseeding or consuming the process-wide random state never changes them, and generating them never disturbs that process-wide state, the arguments, or results already returned. Passing a generator consumes it exactly as the same calls made one after the other would. Every symmetric matrix so generated is symmetric and has the requested eigenvalues.",
	["schedules", "histories", "inputs"], "every history of other calls and every interleaving with concurrent callers; all distributions, matrix sizes, eigenvalue choices and seed kinds",
	"Tests check single calls (shape, support, spectrum); none checks repeatability across histories or threads.",
	[RND], [("every entry point builds its own generator from the seed", RND + ": isotropic/symmetric/haar")], [], ["return values of isotropic, symmetric, haar", "numpy global random state"])

prop("R06", "Unseeded calls draw fresh, independent randomness",
	"A sampler, random matrix, trace or diagonal estimate or Lanczos start vector requested without a seed draws from fresh entropy: no vector drawn by one unseeded call, fill or closure is ever drawn again by another, whatever was seeded, restored or consumed in between, from any thread, and in processes forked from one another. Such calls leave the process-wide random states undisturbed, and when no entropy can be obtained they fail rather than return predictable numbers; the next call is unaffected.",
	["histories", "schedules", "fault_sequences"], "every history of unseeded calls among calls that seed, restore or consume generators, in one process, in forked children of any of its states and in concurrent threads; every entry point and distribution; failing and slow entropy source",
	"Tests seed their generators, or look at a single draw: two runs that secretly share their randomness look fine one by one, and nothing forks or fails the entropy source.",
	[RND, TRC, DIA, LAN], [("each entry point builds its generator with default_rng(seed) at every call", RND + ": isotropic/symmetric/haar/Isotropic.__init__; " + LAN + ": lanczos")], [],
	["values drawn by unseeded calls", "numpy and random global states"])

# ---------------------------------------------------------------- streaming estimators
prop("E01", "Streaming statistics are independent of how samples are batched",
	"After any history of updates, in batches of any sizes including empty ones, the running mean, covariance, last-change and sample count, and the recorded history when requested, equal (to rounding) those computed directly from the concatenated samples, and the last change is the difference between the last two estimates. This holds for every dimension, sample scale and offset, with or without covariance tracking.",
	["histories", "inputs"], "every sequence of updates (batch sizes 0..many, scalars, vectors, matrices, lists, views, float32), dimensions, magnitudes and offsets",
	"Tests use one fixed batch size of well-scaled data.",
	[STA, EST], [("Welford-style merging of batch moments", STA + ": Mean.update/Covariance.update"), ("delta, n_samples and values bookkeeping", EST + ": MeanEstimator.update")],
	[("n, mu, S", "running moments", STA)], ["estimate/mean/delta/len/values of estimators", "Mean(), Covariance()"])
prop("E02", "A rejected update leaves an estimator exactly as it was",
	"If an update fails because its samples are malformed (wrong dimension, not numeric, or the sample source raises while being converted), the error reaches the caller and the estimator's count, estimate, covariance, last change and recorded history are what they were before, so that the stream can continue with correct samples as though the failed update had never been attempted.",
	["fault_sequences", "histories"], "every position of failing updates within any update history, every kind of malformed or failing sample source, all estimators",
	"No test feeds a failing update.",
	[STA, EST], [("validation precedes mutation", STA + ": Mean.update/Covariance.update; " + EST + ": *.update")], [], ["estimator state after a failed update"])
prop("E03", "Results already handed out never change afterwards",
	"An estimate, mean, covariance, last-change or recorded sample obtained from an estimator, and arrays returned by trace, diagonal or operator routines, keep their values when the estimator or operator is used further, and the recorded history is unaffected when the caller reuses the buffer a batch was passed in; equally, modifying a returned array never corrupts later estimates.",
	["histories", "schedules"], "every interleaving of updates, reads, buffer reuse and writes to returned arrays; all dimensions and estimator kinds; callbacks that keep what they are shown",
	"Tests read an estimate once, at the end.",
	[STA, EST, DIA, OPS], [("values returned are copies or immutable", STA + ": Mean.__call__/mean; " + EST + ": MeanEstimator.mean")],
	[("mu", "running mean updated in place", STA + ": Mean.mu")], ["previously returned arrays"])
prop("E04", "The control-variate estimate does not depend on batching",
	"For any history of joint samples of a quantity and its control variables, with given or estimated coefficients, the estimate equals the one computed directly from all samples at once, however the samples were batched and even if single samples arrive one at a time; when too few samples, or too degenerate ones, have arrived to estimate coefficients it is undefined rather than an error. The sample count and the recorded samples, when requested, are exact, and the last change is the difference between its last two estimates.",
	["histories", "inputs"], "every batching of every sample sequence incl. single-sample first batches, one or more control variables, given or estimated coefficients",
	"The one test feeds a single batch of 250 samples.",
	[EST, STA], [("joint covariance tracked by streaming updates; coefficients re-estimated after each batch", EST + ": ControlVariableEstimator.update")], [], ["ControlVariableEstimator.estimate/alpha/len"])
prop("E05", "Stopping criteria are pure observers and compose as boolean logic",
	"Evaluating a stopping criterion, or asking for its message, never changes the estimator or the criterion: the answer is a function of the estimator's present state and the criterion's parameters only, whatever was evaluated before, by which thread, and on which other estimators. And/or/not combinations evaluate to exactly the boolean combination of their parts at every point of every history, the count criterion holds exactly from its count on, the tolerance criterion exactly when the last change is below a tolerance, the confidence criterion, from three samples on, when the margin of error at its level or the relative standard error is within its tolerance, and an error inside a part reaches the caller.",
	["histories", "schedules", "fault_sequences"], "every expression over count, tolerance, confidence, knee and user-supplied criteria; every update history; criteria shared among threads and estimators; parts that raise",
	"Tests evaluate one AND and one OR on one history from one thread.",
	[EST], [("criteria hold only parameters; composition is lazy", EST + ": ConvergenceCriterion")], [], ["criterion(est)", "criterion.message(est)"])
prop("E06", "Checkpoints restore exactly, in any process, and are independent",
	"An estimator, a simple stopping criterion, the full result of a trace or diagonal estimate, or a data-defined operator, copied (deeply) or pickled at any point of its history and restored in the same or another process, shows the same estimate, statistics, recorded history, last change, criterion decisions, messages and products as the original did, and continues from there exactly as one that was never interrupted, also when the original was lost half-way through an update. Taking a checkpoint changes nothing, and neither the original, its copies nor the checkpoint ever influence one another.",
	["crash_points", "histories", "fault_sequences"], "every history of updates and products, every point of checkpointing, copying, crashing (also inside an update) and migrating between processes; all estimator kinds, batch forms, pickle protocols",
	"No test copies, pickles or restores anything: state kept outside the object (in a class, module or closure) is invisible as long as one object lives in one process.",
	[EST, STA, TRC, OPS], [("all state lives in plain instance attributes owned by one estimator", EST + "; " + STA)], [], ["estimate/mean/delta/len/values/covariance, criterion(est), operator @ x, EstimatorResult fields"])

# ---------------------------------------------------------------- trace / diagonal estimation
prop("T01", "The stochastic trace estimate is the mean of what was actually sampled",
	"The Girard-Hutchinson estimate equals the mean of the quadratic forms over exactly the random vectors that were applied to the operator, those vectors are the seeded stream of the requested distribution in order, each used exactly once, and sampling stops at the first batch boundary at which the stopping criterion holds: not before, not after, and not at all if it holds at the start. This is so for every operator, batch size, distribution (named or user-supplied), criterion and seed, and the reported sample count agrees.",
	["histories", "inputs", "configurations"], "every operator behaviour, batch size, sampler (incl. user samplers that reuse one buffer), criterion incl. arbitrary scripted ones, seed kinds, float32/float64",
	"Tests compare one estimate with the true trace within loose statistical tolerances, which cannot see skipped, repeated or mis-weighted samples or late stopping.",
	[TRC, EST, RND], [("sampling loop", TRC + ": hutch")], [("estimator", "mean of quadratic forms so far", TRC)], ["operator call log", "hutch return value"])
prop("T02", "Failures during estimation surface and leave nothing behind",
	"If the operator, the sampler, the stopping criterion or the callback raises at any point of a trace or diagonal estimation, or the run is interrupted there, that very error reaches the caller: no estimate is returned and the operator is not called again. Repeating the call afterwards with the same operator, criterion and seed gives exactly the result of a run that never failed.",
	["fault_sequences", "crash_points", "inputs"], "every call at which operator, sampler, criterion or callback can fail and every line at which the run can be interrupted, for every estimator (plain, ++, exchangeable, diagonal) and option",
	"No test injects a failure.",
	[TRC, DIA, OPS], [("no handler between the sampling loop and the caller; all state is per call", TRC + ", " + DIA)], [], ["exception identity", "operator call log", "result of the retry"])
prop("T03", "Callbacks see a consistent, current result after each batch",
	"A callback is invoked exactly once after each batch, in order, with a result whose estimator, criterion, estimate and number of iterations agree with each other and with the samples drawn so far; the result finally returned carries the returned estimate, and installing a callback on a call that returns the full result, or recording samples, changes neither the vectors drawn nor the estimate. What the callback does to its own copies, including calling the library again, does not alter the run.",
	["histories", "inputs", "schedules"], "every number of batches, criterion, batch size, re-entrant or slow callbacks, for the plain, exchangeable and diagonal estimators",
	"Tests only count that a callback ran at all.",
	[TRC, DIA, EST], [("result object refreshed each batch", TRC + ": hutch/xtrace; " + DIA + ": diag")], [("result", "what callbacks are shown", EST + ": EstimatorResult")], ["callback arguments", "returned result"])
prop("T04", "The exchangeable trace estimator honours its model, budget and criterion",
	"After every batch, the exchangeable estimator's value equals the leave-one-out estimate defined from exactly the vectors drawn so far (with the scaling belonging to the requested distribution), independent of how the draws were batched; it stops at the first batch boundary at which the user's stopping criterion holds and in any case never uses more random vectors than the operator has columns.",
	["histories", "inputs", "configurations"], "every batching, operator, distribution, stopping criterion incl. ones that never hold, seeds",
	"Tests run to the full budget, where every variant returns the exact trace.",
	[TRC, "src/primate/linalg.py"], [("incremental QR and inverse updates; leave-one-out formula", TRC + ": xtrace/_xtrace")], [("W, Q, R, R^-1", "sketch so far", TRC + ": xtrace")], ["operator call log", "xtrace value after each batch"])
prop("T05", "Diagonal estimates are exactly the ratio of what was sampled",
	"The stochastic diagonal estimate is derived from exactly the vectors applied to the operator: the running ratio of summed products v*(Av) to summed squares v*v, averaged over iterations as documented by its estimator, using the seeded stream (or the user's own sampler) in order, stopping at the first iteration at which the criterion holds; the sketched diagonal estimator uses no more operator applications than its budget (rounded up to even) and returns the average, over its sampled vectors, of the leave-one-out estimates built from exactly those vectors.",
	["histories", "inputs", "configurations"], "every operator, sampler, criterion, seed, budget",
	"Tests check a convergence trend with loose bounds.",
	[DIA, EST], [("numerator/denominator accumulation", DIA + ": diag"), ("sketch and leave-one-out correction", DIA + ": xdiag")], [], ["operator call log", "diag/xdiag return values"])
prop("T06", "Concurrent estimations do not influence one another",
	"Any number of trace and diagonal estimations running at the same time in different threads, sharing an operator and stopping criteria but each with its own seed, return exactly what each returns when run alone, in every interleaving and however slow individual operator calls are.",
	["schedules", "inputs"], "every interleaving of concurrent calls to all estimators at operator calls and inside the library",
	"Tests are single-threaded.",
	[TRC, DIA, EST, RND, "src/primate/linalg.py"], [("all state is local to a call; no module-level mutable state", TRC + ", " + DIA)], [], ["results of concurrent calls"])

prop("T07", "The Hutch++ estimate is built from exactly the vectors drawn",
	"The Hutch++ estimate equals the trace of the operator restricted to the range of its sketch plus the mean, over the residual vectors, of the quadratic forms of their parts orthogonal to that range; sketch and residual vectors are consecutive parts of the seeded stream (or of the user's own sampler), equally many, at least the requested number, each used exactly once; what the user's sampler returned is not modified; and at most three operator applications are made per sketch vector. With at least as many sketch vectors as columns the estimate is the exact trace. This is so for every operator, in either mode, after any earlier calls including failed ones, and the full result carries the same estimate, the number of vectors and their quadratic forms.",
	["histories", "inputs", "configurations", "fault_sequences"], "every operator representation and spectrum, number of vectors, mode, distribution, seed kind, sequence of calls sharing a generator, failure of operator or sampler",
	"Tests compare one estimate with the true trace within a loose tolerance; mis-weighted residuals, reused vectors or wrong samples stay within it.",
	[TRC, RND], [("sketch, projection and residual forms", TRC + ": hutchpp")], [("Q, G", "basis of the sketch, residual vectors", TRC + ": hutchpp")], ["operator call log", "hutchpp return value"])

# ---------------------------------------------------------------- operators / Lanczos
prop("M01", "Matrix-function operators do not depend on their history",
	"Applying a matrix-function operator to vectors or blocks, and evaluating its quadratic forms, gives the same results as a freshly built operator would, whatever was evaluated on it before: vectors and quadratic forms in any order, changes of the function, and actions that failed or were interrupted half-way included. With full degree and orthogonalization the result is f(A)v and v'f(A)v, for the zero vector too, and inputs are never modified.",
	["histories", "fault_sequences", "inputs"], "every sequence of products, quadratic forms and failed or interrupted ones; dense, sparse and abstract operators; degrees, orthogonalization depths, functions, dtypes; vectors inside small invariant subspaces",
	"Tests evaluate a fresh operator once or repeat an orthogonalization setting that hides stale state.",
	[OPS, LAN] + CPP, [("the Lanczos workspace of an evaluation is local to it; the operator holds parameters only", OPS + ": MatrixFunction")],
	[("fun, degree, orthogonalization depth, wrapped operator", "parameters of the operator", OPS + ": MatrixFunction")], ["M @ v, M @ V, M.quad(v)"])
prop("M02", "Lanczos output is exactly what the operator answered, or an error",
	"The tridiagonal matrix and basis returned by the Lanczos routine satisfy the Lanczos relation for the vectors the operator was actually given and what it returned, for every operator representation (dense, sparse, abstract) with equal results, using no more than the requested number of steps and ending early only once the residual is below its tolerance. If the operator fails at any step the error reaches the caller, nothing the caller passed in (matrix, start vector) has been modified, and a repetition gives the result of a run that never failed.",
	["fault_sequences", "inputs", "histories"], "every operator call at which a failure can occur; degrees, orthogonalization depths, start vectors incl. eigenvectors, dtypes, output options",
	"Tests look at successful runs on well-conditioned dense matrices.",
	[LAN] + CPP, [("Paige A27 recurrence over a copied start vector", "src/primate/include/lanczos.h: lanczos_recurrence; " + LAN + ": lanczos")], [], ["operator call log", "lanczos/rayleigh_ritz outputs"])
prop("M03", "Toeplitz products are exact for any history and any sharing threads",
	"A matrix-free Toeplitz operator multiplies vectors and blocks exactly like the dense Toeplitz matrix with that first column and row, symmetric or not, in every order of use, also when several threads use one operator at the same time, after failed products, and without modifying its inputs or results already returned.",
	["schedules", "histories", "inputs", "fault_sequences"], "every interleaving of concurrent products on one shared operator and every history of products, shapes, dtypes",
	"The operator has no test.",
	[OPS], [("FFT of a circulant embedding; zero-padded input", OPS + ": Toeplitz._matvec")], [("first column and row, transform of the embedding", "parameters of the operator", OPS + ": Toeplitz")], ["T @ v, T @ V"])

prop("M04", "Normalized operators are affine images with unit spectrum",
	"Normalizing a nonzero symmetric operator of any size and representation gives an affine image of it, of nonzero slope, whose spectrum lies in [-1, 1]. This is so whatever was normalized, applied or failed before and whatever the process-wide random state, which is left alone; the given operator is only ever applied, later products follow that affine map, operators normalized earlier do not change, and a failure of the operator, while normalizing or later, reaches the caller and a repetition succeeds.",
	["histories", "fault_sequences", "inputs"], "every sequence of normalizations and products of dense, sparse and abstract operators, sizes from 1 up, spectra of either sign, tied, shifted, degenerate and widely scaled; every operator call and library line at which a failure can occur",
	"The function has no test.",
	[OPS], [("spectral radius by an iterative solver; affine combination with the identity", OPS + ": normalize_unit")], [], ["normalize_unit result applied to vectors and to the identity"])

# ---------------------------------------------------------------- tridiagonal solvers
prop("Q01", "Tridiagonal eigenproblems survive failure of the primary solver",
	"When the primary (LAPACK) tridiagonal eigensolver fails to converge on any call, the automatic method still returns correct eigenvalues and, where requested, orthonormal eigenvectors paired with them, for single and double precision, and so do the quadrature rules, Ritz values and matrix functions built on it; any error other than non-convergence reaches the caller.",
	["fault_sequences", "inputs", "histories"], "every call at which the primary solver may fail, within any sequence of calls; tridiagonal matrices with clustered, repeated, zero, widely scaled and sign-mixed entries, sizes from 1 up, both dtypes",
	"LAPACK practically never fails in tests, so the fallback is never taken.",
	[TRI, TQL, INT], [("failover from LAPACK to implicit QL", TRI + ": _eigh_tridiag"), ("implicit QL with shifts", TQL + ": tqli")], [], ["eigh_tridiag/eigvalsh_tridiag/quadrature/rayleigh_ritz results"])
prop("Q02", "Solvers and quadrature leave inputs intact and outputs all-or-nothing",
	"The tridiagonal eigensolvers and the quadrature routine never modify the arrays they are given, whether they succeed, fall back or fail, with every method; calls running concurrently on the same arrays give what each gives alone; and caller-supplied node and weight buffers receive exactly the returned rule on success and are untouched when the computation fails.",
	["fault_sequences", "schedules", "inputs"], "every point of solver failure, every interleaving of concurrent calls sharing input arrays, all methods, dtypes and sizes",
	"Tests never re-examine inputs, never share them, and never fail a solver.",
	[TRI, INT, TQL, FTT], [("defensive copies before the in-place solver; copy-out after success", TRI + ": eigh_tridiag; " + INT + ": quadrature")], [], ["input arrays after calls", "nodes/weights buffers"])

# ---------------------------------------------------------------- spectral functions
prop("S01", "Spectral functions are fixed by their parameters when made",
	"A built-in spectral function, requested by name or from its maker, has for as long as it lives the values its definition gives for the parameters it was made with (or their documented defaults), point by point, for floating-point points given singly, as vectors or as blocks of any length, layout and precision, whatever other spectral functions were made or evaluated before or meanwhile, from whichever thread, through matrix-function operators too, and also after evaluations that were interrupted. Evaluating never modifies the given points, the function's parameters, or results already returned, and modifying a returned array never affects later evaluations.",
	["histories", "schedules", "fault_sequences", "inputs"], "every history of making and evaluating functions of equal and different names and parameters, by any threads on shared points, with interrupts",
	"Tests make one function at a time and evaluate it once on a fresh array.",
	["src/primate/special.py", OPS], [("closures over the parameters", "src/primate/special.py: param_callable, exp, smoothstep, softsign, step")], [], ["values of the functions", "points passed", "results kept"])

# ---------------------------------------------------------------- diagnostics
prop("D01", "Convergence figures show the recorded history and only observe",
	"A convergence figure drawn from an estimator that records, or from its samples, at any point of its history shows exactly the (defined) samples so far, their running means, and the true error against a given value (absolute or relative) or the confidence bound where none is given, each against the sample index. Drawing, whether it succeeds or fails, in one thread or several, never changes the estimator or the samples, and a failure of the plotting backend reaches the caller.",
	["histories", "fault_sequences", "schedules"], "every history of updates and figures, undefined samples, with and without reference values, failing plotting backend, several threads and estimators",
	"Nothing tests the figures: the plotting library is not even installed with the tests.",
	["src/primate/plotting.py", EST], [("running means and errors recomputed from the recorded samples", "src/primate/plotting.py: figure_sequence/figure_error")], [], ["glyphs handed to the plotting backend", "estimator state"])

# ---------------------------------------------------------------- not applicable to this family (pure functions of their input)
prop("N01", "Trace and diagonal estimators are unbiased and reach their confidence",
	"Over the randomness of the sampled vectors, the trace and diagonal estimators are unbiased and confidence-based stopping attains its nominal coverage.",
	["inputs"], "every symmetric operator; expectation over random vectors", "Tests use loose tolerances on a few seeds.", [TRC, DIA, EST], [("isotropy of the sampled vectors; CLT margin", TRC + ", " + EST + ": ConfidenceCriterion")])
prop("N02", "Random matrices have the prescribed distribution",
	"Eigenvectors of generated symmetric matrices are distributed as documented; those of Haar matrices uniformly over the orthogonal group.",
	["inputs"], "every size and spectrum", "Tests check one size.", [RND], [("conjugation of a diagonal by an orthogonal matrix", RND + ": symmetric/haar")])
prop("N03", "Quadrature rules integrate polynomials exactly",
	"A degree-k rule computed from a tridiagonal matrix integrates polynomials up to degree 2k-1 exactly, by either weight method.",
	["inputs"], "every Jacobi matrix and degree", "Tests check a few well-conditioned matrices.", [INT, FTT], [("Golub-Welsch and three-term recurrence weights", INT)])
prop("N04", "Triangular-inverse updates and intervals match definitions",
	"The triangular inverse update and the confidence-interval helper agree with their mathematical definitions for every argument.",
	["inputs"], "every argument", "Tests sample a few arguments.", ["src/primate/linalg.py", STA], [("closed formulas", "src/primate/linalg.py, src/primate/stats.py")])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
try:
	import jsonschema
	sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
	for p in P: jsonschema.validate(p, sch)
except ImportError: pass
print(len(P), "properties")
