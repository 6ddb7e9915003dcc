"""T01: the stochastic trace estimate is the mean of the quadratic forms of exactly the vectors that were applied, and stops when it should."""
QUICK = (6500, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.operators import MatrixFunction, Toeplitz
from primate.random import isotropic
from primate.trace import hutch


def gen_call(rng, n, cap, scale=1.0):
	o = {"fn": "hutch", "pdf": rng.choice(PDF_NAMES), "seed": rng.choice([0, 1, 7, rng.randrange(1 << 30)]), "via": rng.choice(["int", "int", "gen", "seq", "np", "shared"]), "batch": rng.choice([1, 1, 2, 3, 5, 8, 32, rng.randrange(1, 65), rng.randrange(64, 300)]),
		"full": rng.random() < 0.55, "cb": rng.random() < 0.3, "record": rng.random() < 0.3, "conv": gen_criterion(rng, cap, n, scale)}
	if rng.random() < 0.2:
		o["pdf"] = gen_userpdf(rng)
	if rng.random() < 0.06:
		o["conv"] = {"k": "default", "cap": 200, "confidence": 0.95, "atol": 1.0, "rtol": 0.0}
	if o["conv"]["k"] == "knee":
		o["record"] = rng.random() < 0.8
	return o


def gen_op(rng, kinds=("lin", "lin", "duck", "quad", "nodtype", "array", "mf", "mfquad", "toeplitz")):
	n = gen_size(rng, [1, 2, 3, 4, 5, 7, 11, 20])
	k = rng.choice(kinds)
	if k in ("mf", "mfquad"):
		n = rng.choice([2, 3, 4, 6])
	return {"k": k, "n": n, "seed": rng.randrange(1 << 30), "dtype": rng.choice(["f8", "f8", "f8", "f4"]) if k in ("lin", "duck", "quad", "array", "nodtype") else "f8", "reuse": gen_reuse(rng, 0.3),
		"scale": rng.choice([1.0, 1.0, 1e-3, 100.0]) if k not in ("mf", "mfquad") else 1.0, "signs": rng.random() < 0.5}


def mk_op(c, sites):
	"""(operator, dense matrix whose trace it has, object with the log or None)"""
	n = c["n"]
	M = sym_matrix(n, c["seed"], signs=c["signs"] and c["k"] not in ("mf", "mfquad"), reuse=c["k"] in OPS and c["reuse"]) * c["scale"]
	dt = np.dtype(c["dtype"])
	M = M.astype(dt)
	if c["k"] in OPS:
		op = OPS[c["k"]](M, sites, dtype=dt, reuse=c["reuse"])
		return op, M.astype(float), op
	if c["k"] == "array":
		return M, M.astype(float), None
	if c["k"] == "toeplitz":
		col = np.random.default_rng(c["seed"]).normal(size=n) * c["scale"]
		import scipy.linalg
		return Toeplitz(col), scipy.linalg.toeplitz(col), None
	inner = SimOp(M, sites) if c["k"] == "mf" else M
	w, U = np.linalg.eigh(M)
	return MatrixFunction(inner, fun="log", deg=max(n, 2), orth=n), (U * np.log(w)) @ U.T, None


class Scenario(ScenarioBase):
	INT_MIN = {"ncalls": 1}

	def gen(self, rng, tier, i):
		c = gen_op(rng)
		cap = rng.choice([3, 7, 20, 40]) if c["k"] not in ("mf", "mfquad") else rng.choice([3, 7])
		calls = [gen_call(rng, c["n"], cap, c["scale"]) for _ in range(rng.choice([1, 1, 2, 3]))]
		if c["k"] in ("mf", "mfquad"):
			for o in calls:
				o["batch"] = min(o["batch"], 8)
				if o["conv"]["k"] in ("default", "tolstr", "confstr"):
					o["conv"] = {"k": "count", "count": rng.randrange(0, 9), "cap": 9}
		if len(calls) > 1 and rng.random() < 0.5:
			calls[1] = dict(calls[0])  # the same call twice
		noise = rng.random() < 0.35
		faults = gen_stalls(rng, [0, 1], most=2)
		for _ in range(rng.choice([0, 0, 1, 2])):
			faults.append({"kind": "call", "site": "op", "n": rng.randrange(1, 12), "delay": rng.choice([0.01, 5.0, 3600.0])})
		if rng.random() < 0.08 and c["k"] in OPS and all(o["conv"]["k"] not in ("tolstr", "confstr") for o in calls):
			faults.append({"kind": "call", "site": "op", "n": rng.randrange(1, 6), "nan": True})
		return {"cfg": {"noise": noise, "before": rng.random() < 0.25, "kind": c["k"] + ("32" if c["dtype"] == "f4" else ""), "op": c, "gseed": rng.randrange(1 << 30)}, "ops": calls, "faults": faults, "sched": gen_sched(rng, victims=1),
			"gran": "line" if noise else "off"}

	def run(self, plan, sim):
		if not plan["cfg"]["noise"]:
			return self.main(plan, sim)
		# somebody else in the process draws random numbers and estimates traces meanwhile
		done = []

		def noise():
			g = np.random.default_rng(5)
			for i in range(40):
				if done:
					break
				np.random.seed(i)
				np.random.normal(size=3)
				v = isotropic((3, 2), PDF_NAMES[i % 5], seed=i)
				hutch(np.eye(3) * i, converge="count", count=3, batch=2, full=bool(i % 2), seed=g)
				MeanEstimator(record=True).update(v[0])
				sim.yield_point("noise")

		def main():
			try:
				self.main(plan, sim)
			finally:
				done.append(1)

		run_clients(sim, [main, noise])

	def main(self, plan, sim):
		cfg = plan["cfg"]
		c = cfg["op"]
		sites = Sites(sim, plan)
		op, A, logged = mk_op(c, sites)
		n = c["n"]
		dt = np.dtype(c["dtype"])
		shared = np.random.default_rng(cfg["gseed"])
		if cfg["before"] and c["k"] in OPS:  # another operator of this kind, in the other precision
			d = np.dtype("f8" if c["dtype"] == "f4" else "f4")
			lib("failed", hutch, OPS[c["k"]](sym_matrix(3, 5).astype(d), None, dtype=d), converge="count", count=2, batch=1, seed=1)
		crits = {}
		for j, o in enumerate(plan["ops"]):
			key = repr(o["conv"])
			if o["conv"]["k"] == "default":
				conv, kw = "default", {}
			else:
				if key not in crits:
					crits[key] = criterion(o["conv"])
				conv, kw = crits[key]
			user = isinstance(o["pdf"], dict)
			pdf = UserPdf(o["pdf"]) if user else o["pdf"]
			if o["via"] == "shared":
				seed = shared
				g_ref = np.random.Generator(type(shared.bit_generator)())
				g_ref.bit_generator.state = shared.bit_generator.state
			else:
				seed = mk_seed(o["via"], o["seed"])
				g_ref = np.random.default_rng(o["seed"])
			if logged is not None:
				logged.log.clear()
			seen = []
			kw = dict(kw, record=o["record"])
			cb = (lambda r: seen.append(len(r.estimator))) if o["cb"] else None
			with np.errstate(all="ignore"):
				r = lib("estimation-failed", hutch, op, batch=o["batch"], pdf=pdf, converge=conv, seed=seed, full=o["full"], callback=cb, **kw)
			tup = isinstance(r, tuple)
			check(tup or not o["full"], "no-result", lambda: f"full=True returned {r!r}")
			est = r[0] if tup else r
			check(np.ndim(est) == 0, "estimate-shape", lambda: repr(est))
			what = lambda: f"call {j} {o} on {c}"
			if user:
				pdf.intact(what())
			# what was applied
			if logged is not None:
				xs, ys = logged.columns()
				check(all(X.shape[0] == n for X, _ in logged.log), "vector-shape", what)
				k = len(xs)
			elif tup:
				k = len(r[1].estimator)
				xs = ys = None
			else:
				xs = ys = None
				k = None
			if k is None and user:
				k = len(pdf.given)
			# the vectors that should have been applied
			if user:
				exp = pdf.given
			elif k is not None:
				exp = list(stream_from(g_ref, o["pdf"], n, k, np.float64).T)
			else:
				exp = None
			if exp is not None:
				exp = [e.astype(dt).astype(float) for e in exp]
				check(len(exp) == k, "vectors-unused", lambda: f"{what()}: {len(exp)} vectors were drawn but {k} applied")
			if xs is not None:
				for i, (x, e) in enumerate(zip(xs, exp)):
					check(same(x, e, 1e-6 if dt == np.float32 else 1e-12), "wrong-vector", lambda: f"{what()}: vector {i}: {diff(x, e)}")
			if tup:
				check(len(r[1].estimator) == k, "sample-count", lambda: f"{what()}: the estimator counts {len(r[1].estimator)} samples but {k} vectors were applied")
			sim.event("hutch", j, k)
			rtol = 3e-5 if dt == np.float32 else 1e-6 if c["k"] in ("mf", "mfquad") else 1e-11
			full = o["full"] or o["cb"]
			if exp is None:  # nothing to look at but the value: it must be the mean over some boundary's vectors
				with quiet(sim):
					ks = [self.boundary(o, A, g_ref, n, dt, b, rtol) for b in sorted({1, o["batch"]})]
				cand = []
				for kk, Q, amb in ks:
					if amb:
						cand = None
						break
					cand.append(np.nan if kk == 0 else float(np.mean(Q[:kk])))
				if cand is not None:
					sc = max([np.max(np.abs(Q)) if len(Q) else 0 for _, Q, _ in ks])
					check(any((np.isnan(est) and np.isnan(v)) or abs(est - v) <= rtol * max(sc, abs(v)) * 10 for v in cand), "estimate-differs", lambda: f"{what()}: {est} but the stream gives {cand}")
				continue
			# the estimate
			E = np.array(exp) if k else np.zeros((0, n))
			Q = np.einsum("ij,ij->i", E, E @ A.T)
			if ys is not None and k:
				Q2 = np.array([x @ y for x, y in zip(xs, ys)])
				Q = Q2
			mag = float(np.max(np.sum(np.abs(E * (E @ A.T)), axis=1))) if k else 0.0
			if k == 0:
				check(np.isnan(est), "estimate-without-samples", lambda: f"{what()}: {est}")
			elif np.isnan(Q).any():
				check(np.isnan(est), "estimate-differs", lambda: f"{what()}: estimate {est} although one of the operator's answers was not a number")
			else:
				check(abs(est - Q.mean()) <= rtol * max(mag, 1e-300) * 4, "estimate-differs", lambda: f"{what()}: estimate {est} but the {k} vectors applied give {Q.mean()}")
			# when it stopped
			ok, stop = [], None
			for b in ([o["batch"]] if full else sorted({1, o["batch"]})):
				with quiet(sim):
					ok.append(self.stop(o, Q, b, rtol))
			if None not in ok:
				check(k in ok, "stopped-elsewhere", lambda: f"{what()}: {k} samples, but the criterion first holds after {ok}")
			if o["cb"]:
				check(seen == list(range(o["batch"], k + 1, o["batch"])) or not full, "callbacks", lambda: f"{what()}: callbacks at {seen} of {k}")
			if tup and o["record"]:
				V = np.array([np.ravel(v)[0] for v in r[1].estimator.values]) if k else np.zeros(0)
				check(len(V) == k and (k == 0 or np.isnan(Q).any() or np.max(np.abs(V - Q)) <= rtol * mag * 4), "record-differs", lambda: f"{what()}: {diff(V, Q)}")

	def stop(self, o, Q, b, rtol):
		"""First multiple of b at which the criterion holds for the samples Q; None if too close to call or beyond them."""
		k, inc = 0, MeanEstimator(covariance=True, record=o["record"])

		def est_of():
			while len(inc) < k:
				inc.update(Q[len(inc) : len(inc) + b])
			return inc

		while True:
			if k > len(Q):
				return k
			a = answer(o["conv"], k, est_of, 1e-3 if rtol > 1e-6 else 1e-6) if o["conv"]["k"] != "default" else (k >= 200 or answer(dict(o["conv"], k="confstr"), k, est_of, 1e-3 if rtol > 1e-6 else 1e-6))
			if a is None:
				return None
			if a:
				return k
			k += b

	def boundary(self, o, A, g_ref, n, dt, b, rtol):
		most = 1200
		g = np.random.Generator(type(g_ref.bit_generator)())
		g.bit_generator.state = g_ref.bit_generator.state
		if o["conv"]["k"] in ("count", "countstr"):
			most = o["conv"]["count"] + b
		elif o["conv"]["k"] not in ("tolstr", "confstr", "default"):
			most = o["conv"]["cap"] + b
		E = stream_from(g, o["pdf"], n, most, np.float64).astype(dt).astype(float).T
		Q = np.einsum("ij,ij->i", E, E @ A.T)
		s = self.stop(o, Q, b, rtol)
		return s, Q, s is None or s > len(Q)
