"""T07: the Hutch++ estimate is the projected trace plus the mean residual form, of exactly the vectors drawn."""
QUICK = (9000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np
import scipy.sparse

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.operators import MatrixFunction, Toeplitz
from primate.trace import hutchpp

FUNS = {"exp": np.exp, "log": np.log, "sqrt": np.sqrt, "inv": lambda x: 1.0 / x}


def gen_call(rng, n):
	o = {"m": rng.choice([None, None, 1, 1, 2, 3, 4, 5, 6, n // 2 + 1, n - 1 or 1, n, n + 1, 2 * n]), "mode": rng.choice(["reduced", "reduced", "full"]), "full": rng.random() < 0.5, "seed": rng.randrange(1 << 30),
		"via": rng.choice(["int", "gen", "seq", "np", "shared", "shared", "sim"]), "batch": rng.choice([None, None, 1, 2, 7, 32])}
	o["pdf"] = rng.choice(PDF_NAMES) if rng.random() < 0.75 else gen_userpdf(rng)
	return o


def mk_op(c, sites):
	"""operator, the matrix it stands for, its log (or None)"""
	n, dt = c["n"], np.dtype(c["dtype"])
	if c["k"] == "toeplitz":
		from scipy.linalg import toeplitz
		g = np.random.default_rng(c["seed"])
		col, row = g.normal(size=n) * c["scale"], None
		if c["signs"]:
			row = g.normal(size=n) * c["scale"]
			row[0] = col[0]
		return Toeplitz(col, row), toeplitz(col, row), None
	pos = c["k"] in ("mf", "mfarray")
	M = singular_matrix(c["sing"], n, c["seed"]) if c["sing"] else sym_matrix(n, c["seed"], signs=c["signs"] and not pos, reuse=c["reuse"])
	M = M * (1.0 if pos else c["scale"])
	if c["spec"] == "low" and not pos:  # few dominant directions, what the sketch is for
		w, U = np.linalg.eigh(M)
		w[: n - max(1, n // 4)] *= 1e-3
		M = (U * w) @ U.T
		M = (M + M.T) / 2
	if c["spec"] == "general" and not pos:
		M = M + np.random.default_rng(c["seed"] + 1).normal(size=(n, n)) * c["scale"] * 0.3
	M = M.astype(dt)
	if c["k"] in OPS:
		op = OPS[c["k"]](M, sites, dtype=dt, reuse=c["reuse"])
		return op, M.astype(float), op
	if c["k"] == "array":
		A = np.asfortranarray(M) if c["reuse"] else M.copy()
		return A, M.astype(float), None
	if c["k"] == "sparse":
		return sparse_matrix(M, ("csr", "csc", "coo")[c["seed"] % 3], c["seed"]), M.astype(float), None
	w, U = np.linalg.eigh(M)
	inner = M if c["k"] == "mfarray" else SimOp(M, sites)
	return MatrixFunction(inner, fun=FUNS[c["fun"]], deg=max(n, 2), orth=n), (U * FUNS[c["fun"]](w)) @ U.T, None


class Scenario(ScenarioBase):
	INT_MIN = {}

	def gen(self, rng, tier, i):
		k = rng.choice(["lin", "lin", "duck", "quad", "quad", "nodtype", "array", "array", "sparse", "toeplitz", "mf", "mfarray"])
		n = gen_size(rng, [1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 25]) if k not in ("mf", "mfarray") else rng.choice([2, 3, 4, 6])
		c = {"k": k, "n": n, "seed": rng.randrange(1 << 30), "reuse": gen_reuse(rng, 0.4), "signs": rng.random() < 0.5, "scale": rng.choice([1.0, 1.0, 1e-3, 100.0]), "spec": rng.choice(["flat", "low", "low", "general"]),
			"dtype": rng.choice(["f8", "f8", "f8", "f4"]) if k in ("lin", "duck", "nodtype", "array", "sparse", "quad") else "f8", "fun": rng.choice(sorted(FUNS))}
		c["sing"] = rng.choice(SINGULAR) if k not in ("toeplitz", "mf", "mfarray") and c["reuse"] != "alias" and rng.random() < 0.2 else None
		c["spec"] = "flat" if c["sing"] else c["spec"]
		ops = [gen_call(rng, n) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
		if len(ops) > 1 and rng.random() < 0.5:
			ops[1] = dict(ops[0], mode=rng.choice(["reduced", "full"]), full=rng.random() < 0.5)
		faults = []
		for _ in range(rng.choice([0, 0, 1, 1, 2])):
			if rng.random() < 0.3:
				faults.append({"kind": "call", "site": rng.choice(["op", "pdf", "rng"]), "n": rng.randrange(1, 20), "delay": rng.choice([0.01, 5.0, 3600.0])})
			elif rng.random() < 0.3:
				faults.append({"kind": "line", "tid": 0, "at": rng.choice([rng.randrange(1, 60), rng.randrange(1, 300)]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
			else:
				faults.append({"kind": "call", "site": rng.choice(["op", "op", "op", "pdf", "rng"]), "n": rng.choice([1, 2, 3, rng.randrange(1, 30)]), "exc": rng.choice(EXC_NAMES), "torn": rng.random() < 0.3})
		return {"cfg": {"kind": k + ("32" if c["dtype"] == "f4" else ""), "op": c, "gseed": rng.randrange(1 << 30)}, "ops": ops, "faults": faults, "gran": "line" if any(f["kind"] == "line" for f in faults) else "off"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		c = cfg["op"]
		sites = Sites(sim, plan)
		with quiet(sim):
			op, A, logged = mk_op(c, sites)
		A0 = content(op) if c["k"] in ("array", "sparse") else None
		shared = np.random.default_rng(cfg["gseed"])
		todo = list(enumerate(plan["ops"]))
		while todo:
			j, o = todo[0]
			sim.injected = None
			g_ref = np.random.default_rng(o["seed"])
			if o["via"] == "shared":
				seed, g_ref = shared, np.random.Generator(type(shared.bit_generator)())
				g_ref.bit_generator.state = shared.bit_generator.state
			elif o["via"] == "sim":
				seed = SimGenerator.make(np.random.SeedSequence(o["seed"]), sites, "rng")
			else:
				seed = mk_seed(o["via"], o["seed"])
			user = UserPdf(o["pdf"], sites) if isinstance(o["pdf"], dict) else None
			if logged is not None:
				logged.log.clear()
			kw = {} if o["batch"] is None else {"batch": o["batch"]}
			nr = len(sites.raised)
			try:
				with np.errstate(all="ignore"):
					r = hutchpp(op, m=o["m"], mode=o["mode"], pdf=user or o["pdf"], seed=seed, full=o["full"], **kw)
			except (Violation, SimAbort, HarnessError):
				raise
			except BaseException as e:
				if not (e is sim.injected or (len(sites.raised) > nr and root(e) is sites.raised[-1])):
					import traceback
					raise Violation("estimation-failed", f"call {j} {o} on {c}: {type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
				scrub(e)
				sim.probe("failed-then-retried")
				continue
			check(len(sites.raised) == nr and sim.injected is None, "failure-swallowed", lambda: f"call {j} {o} on {c}: returned {r!r} although {sites.raised[nr:] or sim.injected!r} was raised during it")
			todo.pop(0)
			if user is not None:
				user.intact(f"call {j} {o} on {c}")
			with quiet(sim), np.errstate(all="ignore"):
				self.judge(sim, c, A, logged, j, o, r, user, g_ref)
				if A0 is not None:
					check(content(op) == A0, "operator-modified", lambda: f"call {j} {o} on {c}: the matrix was modified")

	def judge(self, sim, c, A, logged, j, o, r, user, g_ref):
		n = c["n"]
		f4 = c["dtype"] == "f4" or (user is not None and user.spec["form"] == "f32")
		what = lambda: f"call {j} {o} on {c}"
		check(isinstance(r, tuple) == bool(o["full"]), "no-result", lambda: f"{what()}: returned {r!r}")
		est = np.asarray(r[0] if o["full"] else r, dtype=float)
		check(est.size == 1, "estimate-shape", lambda: f"{what()}: {est!r}")
		est = float(est.ravel()[0])
		base = max(n // 3, 1) if o["m"] is None else o["m"]
		if user is not None:
			V = np.array(user.given).T
			check(V.shape[1] % 2 == 0 and base <= V.shape[1] // 2 <= base + 2, "vectors-drawn", lambda: f"{what()}: {V.shape[1]} vectors were drawn from the user's sampler")
			nbs = [V.shape[1] // 2]
		else:
			V = stream_from(g_ref, o["pdf"], n, 2 * (base + 2))
			nbs = [base, base + 1, base + 2]
		V = V.astype(c["dtype"]).astype(float)
		rt = 1e-6 if f4 else 1e-12
		if logged is not None:  # how many columns the sketch had shows in what was applied
			X = np.array(logged.columns()[0]).T  # a zero vector only asks for the result type
			fits = []
			for nb in nbs:
				if X.shape[1] <= 3 * nb and all(any(same(V[:, i], x, rt) for x in X.T) for i in range(nb)):
					fits.append(nb)
			check(fits, "sketch-vectors", lambda: f"{what()}: with {nbs} sketch vectors, {X.shape[1]} vectors applied: not the stream, or more than three per sketch vector")
			nbs = fits
		sim.event("hutchpp", j, len(nbs))
		bad = []
		for nb in nbs:
			W, G = V[:, :nb], V[:, nb : 2 * nb]
			Y = A @ W
			cond = np.linalg.cond(Y) if nb <= n else np.linalg.cond(Y @ Y.T) ** 0.5
			if not cond < (1e3 if f4 else 1e6):
				s = np.linalg.svd(Y, compute_uv=False) / max(np.linalg.norm(A, 2) * np.linalg.norm(W, 2), 1e-300)
				sA = np.linalg.svd(A, compute_uv=False) / max(np.linalg.norm(A, 2), 1e-300)
				clear = not f4 and c["k"] not in ("mf", "mfarray") and not np.any((s > 1e-13) & (s < 1e-2)) and not np.any((sA > 1e-13) & (sA < 1e-2))
				if clear and (nb >= n or (s > 1e-2).sum() == (sA > 1e-2).sum()):  # the sketch captures all there is
					tol = 1e-9 * (n + np.mean(np.sum(G * G, axis=0))) * np.linalg.norm(A, 2)
					check(abs(est - np.trace(A)) <= tol, "not-exact", lambda: f"{what()}: {est}, but the sketch of {nb} vectors captures the whole range of the operator, so the trace {np.trace(A)} is known exactly (tolerance {tol:.1e})")
					sim.probe("singular-exact")
				sim.probe("ill-conditioned")
				return
			Q = np.linalg.qr(Y)[0]
			forms = np.einsum("ij,ij->j", Q, A @ Q)
			H = G - Q @ (Q.T @ G)
			res = np.einsum("ij,ij->j", H, A @ H)
			exp = forms.sum() + res.mean()
			tol = (3e-5 if f4 else 1e-7 if c["k"] in ("mf", "mfarray") else 1e-11) * cond * np.linalg.norm(A, 2) * (n + np.mean(np.sum(G * G, axis=0)))
			if not abs(est - exp) <= tol:
				bad.append(f"{est} but {exp} with {nb} sketch vectors (tolerance {tol:.1e})")
				continue
			if nb >= n:
				sim.probe("exact")
			if o["full"]:
				R = r[1]
				ok = np.size(R.estimate) == 1 and abs(float(np.ravel(R.estimate)[0]) - est) <= 1e-12 * max(1.0, abs(est)) and R.nit == 2 * nb
				s = np.ravel(np.asarray(R.samples, dtype=float))
				ok = ok and s.size == Q.shape[1] + nb
				ok = ok and abs(s[: Q.shape[1]].sum() + s[Q.shape[1] :].mean() - est) <= tol and np.max(np.abs(np.sort(s[Q.shape[1] :]) - np.sort(res))) <= tol * max(1, nb)
				if not ok:
					bad.append(f"the full result disagrees: estimate {R.estimate!r} nit {R.nit} samples {s[:6]} with {nb} sketch vectors")
					continue
			sim.probe("checked")
			return
		raise Violation("estimate-differs", f"{what()}: {'; '.join(bad)}")
