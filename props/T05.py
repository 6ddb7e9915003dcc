"""T05: diagonal estimates are exactly the ratio of what was sampled; the sketched one is the leave-one-out average within its budget."""
QUICK = (9000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.diagonal import diag, xdiag
from primate.operators import MatrixFunction, Toeplitz


def gen_call(rng, n, scale, k):
	if k in ("lin", "array") and rng.random() < 0.35:
		return {"fn": "xdiag", "pdf": rng.choice(["sphere", "normal", "gaussian", "rademacher", "sphere"]), "seed": rng.randrange(1 << 30), "via": rng.choice(["int", "gen", "seq", "np", "shared"]),
			"m": rng.choice([None, 1, 2, 3, 4, 5, n, n + 1, 2 * n, 2 * n + 1, 5 * n])}
	cap = rng.choice([1, 3, 7, 20])
	o = {"fn": "diag", "pdf": rng.choice(PDF_NAMES), "seed": rng.randrange(1 << 30), "via": rng.choice(["int", "int", "gen", "seq", "np", "shared"]), "full": rng.random() < 0.5, "cb": rng.random() < 0.35, "record": rng.random() < 0.35,
		"conv": gen_criterion(rng, cap, n, scale)}
	while o["conv"]["k"] in ("conf", "confstr", "knee"):
		o["conv"] = gen_criterion(rng, cap, n, scale)
	if rng.random() < 0.25:
		o["pdf"] = gen_userpdf(rng)
	return o


def mk_op(c, sites):
	n = c["n"]
	M = singular_matrix(c["sing"], n, c["seed"]) if c["sing"] else sym_matrix(n, c["seed"], signs=c["signs"] and c["k"] != "mf", reuse=c["k"] in OPS and c["reuse"])
	if c.get("skew"):
		M = M + c["skew"] * np.triu(np.random.default_rng(c["seed"] + 1).normal(size=(n, n)), 1)
	M = M * c["scale"]
	dt = np.dtype(c["dtype"])
	M = M.astype(dt)
	if c["k"] in OPS:
		op = OPS[c["k"]](M, sites, dtype=dt, reuse=c["reuse"])
		return op, M.astype(float), op
	if c["k"] == "array":
		return M, M.astype(float), None
	if c["k"] == "toeplitz":
		import scipy.linalg
		col = np.random.default_rng(c["seed"]).normal(size=n) * c["scale"]
		return Toeplitz(col), scipy.linalg.toeplitz(col), None
	w, U = np.linalg.eigh(M)
	return MatrixFunction(SimOp(M, sites), fun="exp", deg=max(n, 2), orth=n), (U * np.exp(w)) @ U.T, None


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		k = rng.choice(["lin", "lin", "lin", "duck", "nodtype", "array", "array", "toeplitz", "mf"])
		n = gen_size(rng, [1, 2, 3, 4, 5, 7, 10, 16], (40, 70)) if k != "mf" else rng.choice([2, 3, 4, 6])
		c = {"k": k, "n": n, "seed": rng.randrange(1 << 30), "reuse": gen_reuse(rng, 0.4), "signs": rng.random() < 0.5, "scale": rng.choice([1.0, 1.0, 1e-3, 100.0]) if k != "mf" else 1.0,
			"dtype": rng.choice(["f8", "f8", "f4"]) if k in ("lin", "duck", "nodtype", "array") else "f8"}
		c["sing"] = rng.choice(SINGULAR) if k in ("lin", "duck", "array", "nodtype") and c["reuse"] != "alias" and rng.random() < 0.25 else None
		c["skew"] = rng.choice([0.1, 1.0]) if k in ("lin", "array") and not c["sing"] and c["reuse"] != "alias" and rng.random() < 0.25 else 0
		ops = [gen_call(rng, n, c["scale"], k) for _ in range(rng.choice([1, 1, 2, 3]))]
		if len(ops) > 1 and rng.random() < 0.4:
			ops[1] = dict(ops[0])
		faults = []
		for _ in range(rng.choice([0, 0, 1, 1, 2])):
			if rng.random() < 0.5:
				faults.append({"kind": "call", "site": rng.choice(["op", "callback"]), "n": rng.randrange(1, 12), "delay": rng.choice([0.01, 5.0, 3600.0])})
			else:
				faults.append({"kind": "call", "site": rng.choice(["op", "op", "op", "callback", "criterion", "pdf"]), "n": rng.randrange(1, 12), "exc": rng.choice(EXC_NAMES), "torn": rng.random() < 0.3})
		return {"cfg": {"kind": k + ("32" if c["dtype"] == "f4" else ""), "op": c, "gseed": rng.randrange(1 << 30)}, "ops": ops, "faults": faults, "gran": "off"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		c = cfg["op"]
		sites = Sites(sim, plan)
		op, A, logged = mk_op(c, sites)
		shared = np.random.default_rng(cfg["gseed"])
		crits = {}
		todo = list(enumerate(plan["ops"]))
		while todo:
			j, o = todo[0]
			nr = len(sites.raised)
			if o["via"] == "shared":
				seed, g_ref = shared, np.random.Generator(type(shared.bit_generator)())
				g_ref.bit_generator.state = shared.bit_generator.state
			else:
				seed, g_ref = mk_seed(o["via"], o["seed"]), np.random.default_rng(o["seed"])
			if logged is not None:
				logged.log.clear()
			try:
				if o["fn"] == "xdiag":
					self.xdiag(sim, c, op, A, logged, j, o, seed, g_ref)
				else:
					key = repr(o["conv"])
					if key not in crits:
						crits[key] = criterion(o["conv"], sites)
					self.diag(sim, sites, c, op, A, logged, j, o, *crits[key], seed, g_ref)
			except (Violation, SimAbort, HarnessError):
				raise
			except BaseException as e:  # an injected failure ends the call; the next attempt must be as good as new
				if len(sites.raised) == nr or root(e) is not sites.raised[-1]:
					import traceback
					raise Violation("estimation-failed", f"call {j} {o} on {c}: {type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
				scrub(e)
				sim.probe("failed-then-retried")
				continue
			todo.pop(0)

	def diag(self, sim, sites, c, op, A, logged, j, o, conv, kw, seed, g_ref):
		n = c["n"]
		f4 = c["dtype"] == "f4"
		what = lambda: f"call {j} {o} on {c}"
		seen = []

		def cb(r):
			sites.hit("callback")
			seen.append((len(r.estimator), np.array(r.estimate)))

		user = UserPdf(o["pdf"], sites) if isinstance(o["pdf"], dict) else None
		with np.errstate(all="ignore"):
			r = diag(op, pdf=user or o["pdf"], converge=conv, seed=seed, full=o["full"], callback=cb if o["cb"] else None, record=o["record"], **kw)
		tup = isinstance(r, tuple)
		check(tup or not o["full"], "no-result", lambda: f"{what()}: returned {r!r}")
		est = np.asarray(r[0] if tup else r, dtype=float)
		est = est.ravel()
		known = None
		if logged is not None:
			xs, ys = logged.columns()
			known = len(xs)
		elif tup:
			known = len(r[1].estimator)
		# replay the estimation from the stream
		most = known + 1 if known is not None else 1300
		if user is not None:
			user.intact(what())
			check(known is None or known == len(user.given), "draws-unused", lambda: f"{what()}: {len(user.given)} vectors were drawn, {known} used")
			V = np.array(user.given + [np.ones(n)] * (known is not None)).reshape(-1, n).T.astype(c["dtype"]).astype(float)
			known, most = len(user.given), len(user.given) + 1
		else:
			V = stream_from(g_ref, o["pdf"], n, most).astype(c["dtype"]).astype(float)
		if logged is not None:
			for i in range(known):
				check(same(xs[i], V[:, i], 1e-6 if f4 else 1e-12), "wrong-vector", lambda: f"{what()}: vector {i}: {diff(xs[i], V[:, i])}")
		inc = MeanEstimator(dim=n)
		absA = np.abs(A)
		nu, de, rs, mag, k = np.zeros(n), np.zeros(n), [], 0.0, 0
		slack = 1e-3 if f4 else 1e-6
		sure = True
		while True:
			with quiet(sim), np.errstate(all="ignore"):
				a = answer(o["conv"], k, lambda: inc, slack) if k or o["conv"]["k"] not in ("tol", "tolstr") else False
			if a is None:
				sure = False
			if known is not None:
				if k == known:
					check(a is not False, "stopped-early", lambda: f"{what()}: stopped after {k} vectors although the criterion did not hold")
					break
				check(a is not True, "went-on", lambda: f"{what()}: the criterion held after {k} vectors but {known} were applied")
			elif a or k >= most - 1:
				break
			v = V[:, k]
			u = ys[k] if logged is not None else A @ v
			nu, de, k = nu + u * v, de + v * v, k + 1
			rs.append(nu / de)
			mag = max(mag, float(np.max(np.abs(v) * (absA @ np.abs(v)) / de)), float(np.max(np.abs(u * v) / de)), float(np.max(np.abs(rs[-1]))))
			inc.update(rs[-1][None, :])
		if known is None and (not sure or k >= most - 1):
			return
		sim.event("diag", j, k)
		if tup:
			check(len(r[1].estimator) == k and r[1].nit == k, "sample-count", lambda: f"{what()}: nit={r[1].nit}, {len(r[1].estimator)} samples, {k} vectors applied")
		if k == 0:
			check(np.isnan(est).all(), "estimate-without-samples", lambda: f"{what()}: {est}")
			return
		check(est.size == n, "estimate-shape", lambda: f"{what()}: {est.shape}")
		tol = (3e-5 if f4 else 1e-6 if c["k"] == "mf" else 1e-10) * max(mag, 1e-300)
		exp = np.mean(rs, axis=0)
		check(np.max(np.abs(est - exp)) <= tol, "estimate-differs", lambda: f"{what()}: after {k} vectors: {diff(est, exp)}")
		if o["cb"]:
			check([s[0] for s in seen] == list(range(1, k + 1)), "callbacks", lambda: f"{what()}: callbacks at {[s[0] for s in seen]} of {k}")
			for i, e in seen:
				check(np.max(np.abs(e.ravel() - np.mean(rs[:i], axis=0))) <= tol, "callback-estimate", lambda: f"{what()}: at iteration {i}: {diff(e.ravel(), np.mean(rs[:i], axis=0))}")
		if tup and o["record"]:
			R = np.array(r[1].estimator.values).reshape(-1, n)
			check(len(R) == k and np.max(np.abs(R - np.array(rs))) <= tol, "record-differs", lambda: f"{what()}: {diff(R, np.array(rs))}")

	def xdiag(self, sim, c, op, A, logged, j, o, seed, g_ref):
		n, m = c["n"], o["m"]
		what = lambda: f"call {j} {o} on {c}"
		k = n if m is None else min((m + 1) // 2, n)
		W = stream_from(g_ref, o["pdf"], n, k)
		with np.errstate(all="ignore"):
			d = xdiag(op, m=m, pdf=o["pdf"], seed=seed)
		sim.event("xdiag", j, k)
		check(np.shape(d) == (n,), "estimate-shape", lambda: f"{what()}: {np.shape(d)}")
		if logged is not None:
			cols = sum(X.shape[1] for X, _ in logged.log)
			check(cols <= 2 * k, "over-budget", lambda: f"{what()}: the operator was applied to {cols} vectors, the budget is {2 * k}")
			X = np.concatenate([X for X, _ in logged.log], axis=1)
			for i in range(k):
				check(any(same(W[:, i], x, 1e-10) for x in X.T), "vector-not-applied", lambda: f"{what()}: sample vector {i} was never given to the operator")
		f4 = c["dtype"] == "f4"
		D, cond = loo_diag(A, W)
		if not cond < (1e3 if f4 else 1e6) or (f4 and c["sing"]):
			sim.probe("ill-conditioned")
			return
		if c["sing"]:
			sim.probe("singular-compared")
		tol = (1e-6 if f4 else 1e-11) * cond * max(np.abs(A).max(), float(np.max(np.abs(D)))) * n
		check(np.max(np.abs(d - D)) <= tol, "not-leave-one-out", lambda: f"{what()}: {diff(d, D)} (tolerance {tol:.1e})")
		sim.probe("xdiag-checked")
