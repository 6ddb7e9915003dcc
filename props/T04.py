"""T04: the exchangeable trace estimator equals its leave-one-out definition after every batch, stops when it should, and keeps its budget."""
QUICK = (9000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.operators import MatrixFunction, Toeplitz
from primate.trace import xtrace


def gen_call(rng, n, scale):
	cap = rng.choice([1, 2, 4, n, n, 2 * n])
	o = {"pdf": rng.choice(["sphere", "sphere", "normal", "gaussian", "rademacher", "signs"]), "seed": rng.randrange(1 << 30), "via": rng.choice(["int", "int", "gen", "seq", "np", "shared"]),
		"batch": rng.choice([1, 1, 2, 3, 5, n, max(1, n - 1), n + 1, 32]), "full": rng.random() < 0.6, "cb": rng.random() < 0.6, "record": rng.random() < 0.3, "conv": gen_criterion(rng, cap, n, scale)}
	if rng.random() < 0.25:
		o["pdf"] = dict(gen_userpdf(rng), dist=rng.choice(["normal", "uniform", "signs"]))
	if o["conv"]["k"] == "knee" or rng.random() < 0.15:
		o["conv"] = {"k": "default", "cap": n}
	return o


def mk_op(c, sites):
	n = c["n"]
	M = singular_matrix(c["sing"], n, c["seed"]) if c["sing"] else sym_matrix(n, c["seed"], signs=c["signs"] and c["k"] != "mf", reuse=c["k"] in OPS and c["reuse"])
	M = M * c["scale"]
	if c["k"] in ("lin", "duck"):
		op = OPS[c["k"]](M, sites, reuse=c["reuse"])
		return op, M, op
	if c["k"] == "array":
		if c["sing"] == "laplacian" and c["scale"] == 1.0 and c["seed"] % 2:
			return M.astype(np.int64), M, None
		return M, M, None
	if c["k"] == "toeplitz":
		import scipy.linalg
		col = np.r_[2.0 * n, np.random.default_rng(c["seed"]).normal(size=n - 1)] * c["scale"]
		return Toeplitz(col), scipy.linalg.toeplitz(col), None
	w, U = np.linalg.eigh(M)
	return MatrixFunction(SimOp(M, sites), fun="exp", deg=max(n, 2), orth=n), (U * np.exp(w)) @ U.T, None


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		k = rng.choice(["lin", "lin", "lin", "duck", "duck", "array", "toeplitz", "mf"])
		n = gen_size(rng, [1, 2, 3, 4, 5, 7, 10, 16, 24], (40, 70)) if k != "mf" else rng.choice([2, 3, 4, 6])
		c = {"k": k, "n": n, "seed": rng.randrange(1 << 30), "reuse": gen_reuse(rng, 0.4), "signs": rng.random() < 0.5, "scale": rng.choice([1.0, 1.0, 1e-3, 100.0]) if k != "mf" else 1.0}
		c["sing"] = rng.choice(SINGULAR + ["decay"] * 4) if k in ("lin", "duck", "array") and c["reuse"] != "alias" and rng.random() < 0.4 else None
		ops = [gen_call(rng, n, c["scale"]) for _ in range(rng.choice([1, 1, 2, 3]))]
		if len(ops) > 1 and rng.random() < 0.5:
			ops[1] = dict(ops[0], batch=rng.choice([1, 2, 3, n]), record=not ops[0]["record"])  # the same vectors, batched otherwise
		faults = []
		for _ in range(rng.choice([0, 0, 1, 1, 2])):
			if rng.random() < 0.5:
				faults.append({"kind": "call", "site": rng.choice(["op", "pdf", "callback"]), "n": rng.randrange(1, 12), "delay": rng.choice([0.01, 5.0, 3600.0])})
			else:
				faults.append({"kind": "call", "site": rng.choice(["op", "op", "pdf", "callback", "criterion"]), "n": rng.randrange(1, 12), "exc": rng.choice(EXC_NAMES), "torn": rng.random() < 0.3})
		return {"cfg": {"kind": k, "op": c, "gseed": rng.randrange(1 << 30)}, "ops": ops, "faults": faults, "gran": "off"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		c = cfg["op"]
		sites = Sites(sim, plan)
		op, A, logged = mk_op(c, sites)
		shared = np.random.default_rng(cfg["gseed"])
		crits = {}
		todo = list(enumerate(plan["ops"]))
		while todo:
			j, o = todo[0]
			key = repr(o["conv"])
			if o["conv"]["k"] != "default" and key not in crits:
				crits[key] = criterion(o["conv"], sites)
			conv, kw = crits.get(key, ("default", {}))
			nr = len(sites.raised)
			try:
				self.call(sim, sites, c, op, A, logged, j, o, conv, kw, shared)
			except BaseException as e:  # an injected failure ends the call; the next attempt must be as good as new
				if len(sites.raised) == nr or root(e) is not sites.raised[-1]:
					raise
				scrub(e)
				sim.probe("failed-then-retried")
				continue
			todo.pop(0)

	def call(self, sim, sites, c, op, A, logged, j, o, conv, kw, shared):
		n, b = c["n"], o["batch"]
		what = lambda: f"call {j} {o} on {c}"
		user = isinstance(o["pdf"], dict)
		pdf = UserPdf(o["pdf"], sites) if user else o["pdf"]
		if o["via"] == "shared":
			seed, g_ref = shared, np.random.Generator(type(shared.bit_generator)())
			g_ref.bit_generator.state = shared.bit_generator.state
		else:
			seed, g_ref = mk_seed(o["via"], o["seed"]), np.random.default_rng(o["seed"])
		if logged is not None:
			logged.log.clear()
		W0 = None if user else stream_from(g_ref, o["pdf"], n, n)
		sphere = o["pdf"] == "sphere"
		state = {"k": 0, "bad": False, "last": None, "ests": []}
		magA = float(np.abs(np.linalg.eigvalsh(A)).sum())

		def drawn():
			W = np.array(pdf.given).T.reshape(n, -1) if user else W0[:, : state["k"]]
			return W

		def boundary(r, k):
			"""The run has k samples and an estimate: compare with the definition."""
			W = drawn()
			check(W.shape[1] == k, "vectors-unused", lambda: f"{what()}: {W.shape[1]} vectors were drawn but the estimator counts {k}")
			if logged is not None:
				cols = [X[:, i] for X, _ in logged.log for i in range(X.shape[1])]
				for i in range(k):
					check(any(same(W[:, i], x, 1e-10) for x in cols), "vector-not-applied", lambda: f"{what()}: sample vector {i} was never given to the operator")
			if state["bad"]:
				return None
			with quiet(sim), np.errstate(all="ignore"):
				t, cond, uu = loo_trace(A, W, sphere)
				if not cond < 1e6:
					state["bad"] = True
					return None
				if c["sing"]:
					sim.probe("singular-compared")
			tol = 1e-11 * (cond + n / max(uu, 1e-300))
			if not tol < 1e-4:
				state["bad"] = True
				return None
			sc = max(magA, float(np.max(np.abs(t))))
			est = float(np.ravel(r.estimate)[0])
			check(abs(est - t.mean()) <= tol * sc, "not-leave-one-out", lambda: f"{what()}: after {k} vectors the estimate is {est}, the leave-one-out estimate {t.mean()} (tolerance {tol * sc:.1e})")
			if o["record"] and r.estimator is not None:
				V = np.ravel(r.estimator.values)
				check(len(V) == k and np.max(np.abs(V - t)) <= 10 * tol * sc * k, "record-differs", lambda: f"{what()}: {diff(V, t)}")
			state["tol"] = tol
			return t

		def holds(t, k, last):
			if o["conv"]["k"] == "default":
				return False
			if t is None and k:
				return None

			def est_of():
				e = MeanEstimator(covariance=True, record=o["record"])
				e.update(t)
				if last is not None:
					e.delta = np.atleast_1d(e.estimate - last)
				return e

			with quiet(sim), np.errstate(all="ignore"):
				if k and o["conv"]["k"] in ("pred", "tol", "tolstr", "conf", "confstr") and state.get("tol", 1) > 1e-8:
					return True if k >= o["conv"]["cap"] and not o["conv"]["k"].endswith("str") else None
				return answer(o["conv"], k, est_of, 1e-4)

		a0 = holds(None, 0, None)
		trail = [a0]

		def at(r):
			k = min(state["k"] + b, n)
			check(len(r.estimator) == k, "batch-size", lambda: f"{what()}: after {state['k']} samples the next boundary has {len(r.estimator)}")
			check(trail[-1] is not True, "went-on", lambda: f"{what()}: the criterion held at {state['k']} samples but the run went on to {k}")
			check(state["k"] < n, "over-budget", lambda: f"{what()}: went on after {n} vectors")
			state["k"] = k
			t = boundary(r, k)
			trail.append(holds(t, k, state["last"]))
			state["last"] = None if t is None else float(t.mean())

		def cb(r):
			sites.hit("callback")
			at(r)

		with np.errstate(all="ignore"):
			try:
				r = xtrace(op, batch=b, pdf=pdf, converge=conv, seed=seed, full=o["full"], callback=cb if o["cb"] else None, record=o["record"], **kw)
			except (Violation, SimAbort, HarnessError):
				raise
			except BaseException as e:
				if is_injected(e):
					raise
				raise Violation("estimation-failed", f"{what()}: {type(e).__name__}: {e}")
		tup = isinstance(r, tuple)
		check(tup == o["full"], "no-result", lambda: f"{what()}: returned {r!r}")
		est = r[0] if tup else r
		if not o["cb"]:
			# reconstruct the boundaries passed from what was drawn
			if tup:
				k = len(r[1].estimator)
			elif user:
				k = len(pdf.given)
			elif logged is not None and n > 1 and o["pdf"] not in ("rademacher", "signs"):  # (sign vectors repeat)
				cols = [X[:, i] for X, _ in logged.log for i in range(X.shape[1])]
				k = 0
				while k < n and any(same(W0[:, k], x, 1e-10) for x in cols):
					k += 1
			else:
				return
			check(k <= n, "over-budget", lambda: f"{what()}: {k} vectors for {n} columns")
			check(k % b == 0 or k == n, "batch-size", lambda: f"{what()}: stopped with {k} samples")
			if k:
				given = list(pdf.given) if user else None
				while state["k"] < k:
					kk = min(state["k"] + b, n)
					check(trail[-1] is not True, "went-on", lambda: f"{what()}: the criterion held at {state['k']} samples but the run went on to {k}")
					if kk < k:
						W = (np.array(given).T if user else W0)[:, :kk]
						with quiet(sim), np.errstate(all="ignore"):
							t, cond, _ = loo_trace(A, W, sphere)
							t = t if cond < 1e4 else None
						state["tol"] = 1e-7 if sphere else 1e-9
						state["k"] = kk
						trail.append(holds(t, kk, state["last"]) if not (sphere and o["conv"]["k"] in ("pred", "tol", "tolstr", "conf", "confstr")) else None)
						state["last"] = None if t is None else float(t.mean())
						if t is None:
							state["bad"] = True
					else:
						class R:
							estimate, estimator = est, r[1].estimator if tup else None
						state["k"] = kk
						rec, o["record"] = o["record"], o["record"] and tup
						t = boundary(R, kk)
						o["record"] = rec
						trail.append(holds(t, kk, state["last"]))
						state["last"] = None if t is None else float(t.mean())
		k = state["k"]
		sim.event("xtrace", j, k)
		if user:
			pdf.intact(what())
			check(len(pdf.given) <= n, "over-budget", lambda: f"{what()}: drew {len(pdf.given)} vectors for {n} columns")
		if k < n:
			check(trail[-1] is not False, "stopped-early", lambda: f"{what()}: stopped after {k} samples although the criterion did not hold")
		if tup and k:
			check(len(r[1].estimator) == k == r[1].nit, "sample-count", lambda: f"{what()}: nit={r[1].nit}, {len(r[1].estimator)} samples, {k} vectors")
			check(np.array_equal(est, r[1].estimate, equal_nan=True), "estimate-differs", lambda: f"{what()}: {est} but result.estimate {r[1].estimate}")
		if k == 0:
			check(np.isnan(est), "estimate-without-samples", lambda: f"{what()}: {est}")
		elif o["cb"] and state["last"] is not None:
			check(abs(float(est) - state["last"]) <= state["tol"] * max(magA, abs(state["last"]), 1e-300) * 100, "estimate-differs", lambda: f"{what()}: returned {est}, the definition gives {state['last']}")
		if logged is not None and k:
			cols = sum(X.shape[1] for X, _ in logged.log)
			check(cols <= 2 * n, "over-budget", lambda: f"{what()}: the operator was applied to {cols} columns for {k} sample vectors of length {n}")
		sim.probe(f"checked:{'bad' if state['bad'] else 'ok'}")
