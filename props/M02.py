"""M02: what Lanczos returns satisfies its relation for exactly what the operator was given and answered, or is an error."""
QUICK = (7500, 30)
THOROUGH = (3_000_000, 900)
import numpy as np
import scipy.sparse
from scipy.sparse.linalg import LinearOperator

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.lanczos import lanczos, rayleigh_ritz

FORMS = ["fresh", "fresh", "reuse", "strided", "col", "rev", "ro", "other"]


class Party:
	"""The operator: logs what it gets and answers, in whatever memory layout, with noise if it is told to."""

	def __init__(self, M, c, sites):
		self.M, self.c, self.sites, self.log, self.kept = M, c, sites, [], []
		self.shape, self.dtype = M.shape, M.dtype
		self.g = np.random.default_rng(c["seed"] + 1)
		self.buf = None

	def answer(self, x):
		f = self.sites.hit("op") if self.sites is not None else None
		x = np.asarray(x)
		x0 = np.array(x, dtype=np.float64).ravel()
		if self.c.get("busy"):
			side_work(3 + len(self.log) % 3, "f4" if len(self.log) % 4 == 3 else "f8" if len(self.log) % 4 else self.dtype, len(self.log))
		y = (self.M @ x.ravel()).astype(self.dtype)
		if self.c["noise"]:
			y = (y + self.c["noise"] * self.g.normal(size=len(y))).astype(self.dtype)
		if f is not None and f.get("torn"):
			self.sites.throw(f, "op")
		if f is not None and f.get("size"):
			self.sites.sim.count("wrong-size")
			self.short = True
			return np.resize(y, max(0, len(y) + f["size"]))
		if f is not None and f.get("nan"):
			self.sites.sim.count("nan:op")
			y = np.full_like(y, np.nan)
		self.log.append((x0, np.array(y, dtype=np.float64)))
		if self.sites is not None and self.sites.sim is not None:
			self.sites.sim.yield_point("answered")
		if self.c["scribble"] and x.flags.writeable:
			x[...] = np.nan  # its argument is the operator's to use
		else:
			self.kept.append((x, x0))
		form = self.c["form"]
		n = len(y)
		if form == "reuse":
			self.buf = np.empty_like(y) if self.buf is None else self.buf
			self.buf[...] = y
			return self.buf
		if form == "strided":
			b = np.full(3 * n, 7.0, dtype=y.dtype)
			b[::3] = y
			return b[::3]
		if form == "col":
			return y[:, None]
		if form == "rev":
			return y[::-1].copy()[::-1]
		if form == "ro":
			y.flags.writeable = False
		if form == "other":
			return y.astype(np.float64 if y.dtype == np.float32 else np.longdouble)
		return y


class DuckParty(Party):
	def matvec(self, x):
		return self.answer(x)

	def __matmul__(self, x):
		y = np.asarray(self.M @ x)
		return y.astype(self.dtype)


class LinParty(LinearOperator):
	def __init__(self, M, c, sites):
		self.p = Party(M, c, sites)
		super().__init__(M.dtype, M.shape)

	log = property(lambda s: s.p.log)
	kept = property(lambda s: s.p.kept)

	def _matvec(self, x):
		return self.p.answer(x)


class NoDtypeParty(DuckParty):
	def __init__(self, M, c, sites):
		super().__init__(M, c, sites)
		self.__dict__.pop("dtype")
		self._dt = M.dtype

	def __getattribute__(self, k):
		if k == "dtype":
			import sys
			if sys._getframe(1).f_code.co_filename.endswith("M02.py"):
				return object.__getattribute__(self, "_dt")
			raise AttributeError(k)
		return object.__getattribute__(self, k)


def mk_M(c):
	n = c["n"]
	M = sym_matrix(n, c["seed"], signs=c["signs"])
	if c["spec"] == "eye":
		M = np.eye(n) * 1.5
	elif c["spec"] == "low":
		U = np.linalg.qr(np.random.default_rng(c["seed"]).normal(size=(n, n)))[0]
		M = (U * np.where(np.arange(n) < 1 + n // 2, 0.7, 1.8)) @ U.T
		M = (M + M.T) / 2
	elif c["spec"] == "out":  # outliers are found early, and then their vectors come back
		U = np.linalg.qr(np.random.default_rng(c["seed"]).normal(size=(n, n)))[0]
		M = (U * np.r_[np.linspace(0.1, 1, n - n // 5), np.geomspace(3, c["far"], n // 5)]) @ U.T
		M = (M + M.T) / 2
	return (M * c["scale"]).astype(c["dtype"])


def mk(c, sites):
	M, k, n = mk_M(c), c["k"], c["n"]
	if k in ("lin", "duck", "nodtype"):
		return {"lin": LinParty, "duck": DuckParty, "nodtype": NoDtypeParty}[k](M, c, sites)
	if k == "array":
		return M
	if k == "farray":
		return np.asfortranarray(M)
	if k == "strided":
		B = np.full((2 * n, 3 * n), 7.0, dtype=M.dtype)
		B[::2, ::3] = M
		return B[::2, ::3]
	if k == "readonly":
		M.flags.writeable = False
		return M
	return sparse_matrix(M, k, c["seed"])


def start(o, c):
	n, g = c["n"], np.random.default_rng(o["vseed"])
	v = g.normal(size=n)
	if o["v0"] == "eig":
		v = np.linalg.eigh(mk_M(c).astype(float))[1][:, g.integers(0, n)] * 3
	if o["v0"] == "unit":
		v = np.eye(n)[g.integers(0, n)]
	lay = o["lay"]
	if lay == "list":
		return v.tolist()
	if lay == "int":
		v = np.round(v * 4).astype(int)
		v[0] += not v.any()
	if lay == "f4":
		v = v.astype(np.float32)
	if lay == "strided":
		b = np.full(4 * n, 5.0)
		b[::4] = v
		v = b[::4]
	if lay == "ro":
		v = v.copy()
		v.flags.writeable = False
	return v


def tri(a, b):
	return np.diag(a) + (np.diag(b, 1) + np.diag(b, -1) if len(b) else 0)


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		k = rng.choice(["lin", "lin", "lin", "duck", "duck", "duck", "nodtype", "array", "farray", "strided", "readonly", "csr", "csc", "coo"])
		n = gen_size(rng, [1, 2, 3, 4, 5, 6, 8, 12])
		c = {"k": k, "n": n, "seed": rng.randrange(1 << 30), "dtype": rng.choice(["f8", "f8", "f8", "f4"]), "spec": rng.choice(["gen", "gen", "gen", "eye", "low"]), "signs": rng.random() < 0.5, "scale": rng.choice([1.0, 1.0, 50.0]),
			"form": rng.choice(FORMS), "noise": rng.choice([0, 0, 0, 0, 1e-3, 0.5]), "scribble": rng.random() < 0.2, "busy": rng.random() < 0.15}
		if rng.random() < 0.12:
			n = c["n"] = rng.choice([15, 20, 30, 40, 60])
			c.update(spec="out", far=rng.choice([30.0, 300.0, 3000.0]), noise=0)
		nt = rng.choice([1, 1, 1, 2, 3])
		ops = []
		for _ in range(rng.choice([1, 2, 3, 4])):
			if ops and rng.random() < 0.25:
				ops.append(dict(ops[-1], t=rng.randrange(nt)))
				continue
			o = {"t": rng.randrange(nt), "fn": rng.choice(["lanczos", "lanczos", "lanczos", "lanczos", "rr"]), "deg": rng.choice([None, 1, 2, 3, n, n + 3, max(1, n - 1)]), "orth": rng.choice([0, 0, 1, 2, rng.randrange(n + 1), n, -1, 30]), "rtol": rng.choice([1e-8, 1e-8, 1e-8, 1e-4, 0.1, 0.0]),
				"sparse": rng.random() < 0.25, "basis": rng.random() < 0.6, "v0": rng.choice(["gen", "gen", "eig", "unit", None]), "lay": rng.choice(["C", "C", "list", "int", "f4", "strided", "ro"]), "vseed": rng.randrange(1 << 30),
				"dtype": rng.choice([None, None, None, "f4", "f8"]), "bufs": rng.choice([None, None, None, None, "zero", "stale", "kept", "kept", "odd"])}
			if o["v0"] == "eig" and o["lay"] == "int":
				o["lay"] = "C"
			ops.append(o)
		faults = gen_stalls(rng, list(range(1, nt + 1)), most=2, horizon=100) if nt > 1 else []
		for _ in range(rng.choice([0, 1, 1, 2])):
			r = rng.random()
			at = rng.choice([1, 2, 3, rng.randrange(1, 20)])
			if r < 0.25:
				faults.append({"kind": "line", "tid": rng.randrange(1, nt + 1) if nt > 1 else 0, "at": rng.choice([rng.randrange(1, 20), rng.randrange(1, 120)]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
			elif r < 0.45 and k in ("duck", "nodtype", "lin"):
				faults.append({"kind": "call", "site": "op", "n": at, "size": rng.choice([-1, 1, -n, n])})
			elif r < 0.55 and k in ("duck", "nodtype", "lin"):
				faults.append({"kind": "call", "site": "op", "n": at, "nan": True})
			else:
				faults.append({"kind": "call", "site": "op", "n": at, "exc": rng.choice(EXC_NAMES), "torn": rng.random() < 0.3})
		return {"cfg": {"kind": f"{k}/{c['dtype']}", "op": c, "nt": nt}, "ops": ops, "faults": faults, "sched": gen_sched(rng, victims=nt), "gran": "line"}

	def call(self, A, o, v0, c, bufs=None):
		kw = dict(deg=o["deg"], rtol=o["rtol"], orth=o["orth"], seed=o["vseed"], dtype=None if o["dtype"] is None else np.dtype(o["dtype"]), v0=v0)
		with np.errstate(all="ignore"):
			if o["fn"] == "rr":
				return rayleigh_ritz(A, return_eigenvectors=True, return_basis=o["basis"], **kw)
			return lanczos(A, sparse_mat=o["sparse"], return_basis=o["basis"], **kw, **(bufs or {}))

	def run(self, plan, sim):
		cfg = plan["cfg"]
		c = cfg["op"]
		M64 = mk_M(c).astype(float)
		n = c["n"]
		loggy = c["k"] in ("lin", "duck", "nodtype")
		sites = Sites(sim, plan)
		shared = None if loggy else mk(c, None)
		before = None if loggy else content(shared)
		v0s = {j: (None if o["v0"] is None else start(o, c)) for j, o in enumerate(plan["ops"])}
		results = {}
		kept = {}

		def arrays(t, how, deg, ncv, dt):
			"""Output arrays of the caller: new, with rubbish in them, those of an earlier call, or of an unusual form."""
			key = (t, deg, ncv, dt)
			if how == "kept" and key in kept:
				sim.probe("arrays-kept")
				return kept[key]
			g = np.random.default_rng(deg + 7 * ncv)
			fill = np.zeros if how == "zero" else g.normal
			b = {"alpha": fill(size=deg + 1) if how != "zero" else np.zeros(deg + 1), "beta": fill(size=deg + 1) if how != "zero" else np.zeros(deg + 1)}
			b = {k: x.astype(dt) for k, x in b.items()}
			b["Q"] = np.asfortranarray((g.normal(size=(n, ncv)) if how != "zero" else np.zeros((n, ncv))).astype(dt))
			if not b["Q"].flags["OWNDATA"]:
				b["Q"] = b["Q"].copy(order="F")
			if how == "odd":
				o = g.integers(0, 3)
				if o < 2:
					w = np.full((deg + 1, 3), 7.0, dtype=dt)
					b[["alpha", "beta"][o]] = w[:, 1]
				else:
					b["Q"] = b["Q"].astype(np.float32 if dt == np.float64 else np.float64)
			else:
				kept[key] = b
			return b

		def client(t):
			def body():
				A = mk(c, sites) if loggy else shared
				for j, o in enumerate(plan["ops"]):
					if o["t"] == t:
						step(A, j, o, t)
			return body

		def step(A, j, o, t):
			what = lambda: f"call {j} {o} on {c}"
			v0 = v0s[j]
			vc = None if v0 is None else np.array(v0)
			dt = np.dtype(o["dtype"] or c["dtype"])
			deg = n if o["deg"] is None else min(o["deg"], n)
			if o["fn"] == "rr":
				deg = int(np.clip(deg, 2, n))
			bufs = None
			if o["bufs"] and o["fn"] != "rr":
				orth = deg if o["orth"] < 0 or o["orth"] > deg else o["orth"]
				bufs = arrays(t, o["bufs"], deg, deg if o["basis"] else int(np.clip(orth, 2, deg)), dt)
			for attempt in range(len(plan["faults"]) + 1):
				if loggy:
					A.log.clear(), A.kept.clear()
					(A.p if c["k"] == "lin" else A).short = False
				nans = sim.fired.get("nan:op", 0)
				err = r = None
				try:
					r = self.call(A, o, v0, c, bufs)
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as e:
					err = e
				if vc is not None:
					check(np.array_equal(np.array(v0), vc), "start-vector-modified", lambda: f"{what()}: {diff(np.array(v0), vc)}")
				if not loggy:
					check(content(shared) == before, "operator-modified", lambda: f"{what()}: the matrix was changed")
				if err is not None:
					err = root(err)
					if is_injected(err):
						check(getattr(err, "injected", False) and (cfg["nt"] == 1 or getattr(err, "who", t + 1) == t + 1), "failure-disguised", lambda: f"{what()}: an injected failure came back as {type(err).__name__}: {err}")
						sim.probe("failed")
					elif loggy and (A.p if c["k"] == "lin" else A).short:
						sim.probe("wrong-size-refused")
					elif sim.fired.get("nan:op", 0) != nans:
						sim.probe("nonsense-refused")
					elif o["bufs"] == "odd" and bufs is not None and isinstance(err, (AssertionError, TypeError)):
						sim.probe("arrays-refused")
						scrub(err)
						return
					else:
						raise Violation("call-failed", f"{what()}: {type(err).__name__}: {err}")
					scrub(err)
					continue
				check(not (loggy and (A.p if c["k"] == "lin" else A).short), "wrong-size-accepted", lambda: f"{what()}: the operator answered with the wrong number of elements, and nobody noticed")
				if sim.fired.get("nan:op", 0) != nans and any(np.isnan(y).any() for _, y in A.log):
					sim.probe("nonsense")
					self.nonsense(what, o, r, A)
					continue
				break
			if o["fn"] == "rr":
				return self.ritz(what, c, o, r, A, deg, dt, sim, j)
			T = r[0] if o["basis"] else r
			Q = r[1] if o["basis"] else None
			if o["sparse"]:
				D = np.asarray(T.toarray(), dtype=float)
				check(D.shape == (deg, deg), "shape", lambda: f"{what()}: T is {D.shape}, not {deg} x {deg}")
				a, b = np.diag(D).copy(), np.diag(D, 1).copy()
				check(np.array_equal(D, tri(a, b)), "not-tridiagonal", lambda: f"{what()}: {D}")
			else:
				a, b = np.array(T[0], dtype=float), np.array(T[1], dtype=float)
				check(a.shape == (deg,) and b.shape == (deg - 1,), "shape", lambda: f"{what()}: alpha {a.shape} beta {b.shape} for degree {deg}")
				check(T[0].dtype == dt and T[1].dtype == dt, "precision", lambda: f"{what()}: {T[0].dtype} instead of {dt}")
			if Q is not None:
				check(Q.shape == (n, deg) and Q.dtype == dt, "shape", lambda: f"{what()}: Q is {Q.shape} {Q.dtype}")
				Q = np.array(Q, dtype=float)
			if bufs is not None:
				check(np.array_equal(bufs["alpha"][:deg], a) and np.array_equal(bufs["beta"][1:deg], b) and (Q is None or np.array_equal(bufs["Q"], Q)), "buffers", lambda: f"{what()}: the caller's buffers hold {bufs['alpha']} {bufs['beta']}, returned were {a} {b}")
			sim.event("lanczos", j, deg)
			results[j] = (a, b, Q)
			low = dt == np.float32 or c["dtype"] == "f4" or (c["form"] == "other" and dt == np.float32)
			eps = 3e-6 if low else 1e-13
			orth = deg if o["orth"] < 0 or o["orth"] > deg else o["orth"]
			stop = np.sqrt(n) * o["rtol"]
			if loggy:
				k = len(A.log)
				check(1 <= k <= deg, "too-many-steps", lambda: f"{what()}: the operator was applied {k} times for degree {deg}")
				for x, x0 in A.kept:
					check(np.array_equal(np.asarray(x, dtype=float).ravel(), x0, equal_nan=True), "given-vector-changed", lambda: f"{what()}: a vector given to the operator changed after the operator had answered")
				X, Y = [np.array(z) for z in zip(*A.log)]
				if vc is not None:
					v = vc.astype(dt).astype(float).ravel()
					check(np.max(np.abs(X[0] - v / np.linalg.norm(v))) <= eps * 10, "wrong-start", lambda: f"{what()}: {diff(X[0], v / np.linalg.norm(v))}")
				sc = np.max(np.abs(Y)) * np.sqrt(n) + 1e-300
				if Q is not None:
					check(np.max(np.abs(Q[:, :k] - X.T)) <= eps, "basis-differs", lambda: f"{what()}: {diff(Q[:, :k], X.T)}")
				full_a = np.r_[a, 0.0]
				bb = np.r_[0.0, b, 0.0]
				for i in range(k):
					q, y = X[i], Y[i]
					check(abs(np.linalg.norm(q) - 1) <= eps * 10 * n, "not-normalized", lambda: f"{what()}: step {i} has norm {np.linalg.norm(q)}")
					w = y - (bb[i] * X[i - 1] if i else 0)
					check(abs(q @ w - full_a[i]) <= eps * 20 * sc, "alpha-differs", lambda: f"{what()}: alpha[{i}] = {full_a[i]}, the operator's answers give {q @ w}")
					w = w - full_a[i] * q
					if i + 1 < k:
						d = w - bb[i + 1] * X[i + 1]
						if orth:
							P = np.linalg.qr(X[: i + 1].T)[0]
							d = d - P @ (P.T @ d)
						check(np.max(np.abs(d)) <= eps * 40 * sc * (i + 1) * (1 if not orth else 1e2), "relation-violated", lambda: f"{what()}: step {i}: A q - b q' - a q = b q'' is off by {np.max(np.abs(d))}")
						check(bb[i + 1] >= stop * (1 - 1e-4), "went-on", lambda: f"{what()}: step {i} left a residual of {bb[i + 1]} < {stop}, but the run went on")
					elif k < deg:
						if not orth:
							check(abs(bb[i + 1] - np.linalg.norm(w)) <= eps * 40 * sc, "beta-differs", lambda: f"{what()}: beta {bb[i + 1]} but the residual is {np.linalg.norm(w)}")
						check(bb[i + 1] <= stop * (1 + 1e-4), "stopped-early", lambda: f"{what()}: stopped after {k} of {deg} steps with a residual of {bb[i + 1]} > {stop}")
				check(not np.any(a[k:]) and not np.any(b[k:]), "trailing-entries", lambda: f"{what()}: after {k} steps: {a} {b}")
				if Q is not None and k < deg:
					check(not np.any(Q[:, k:]), "trailing-entries", lambda: f"{what()}: after {k} steps the basis has further columns")
				sim.probe("early" if k < deg else "complete")
			if not c["noise"] and orth >= deg and o["rtol"] == 1e-8 and not low and Q is not None:
				k = len(A.log) if loggy else int(np.count_nonzero(Q.any(axis=0)))
				G = Q[:, :k]
				check(np.max(np.abs(G.T @ G - np.eye(k))) <= 1e-6, "not-orthonormal", lambda: f"{what()}: {np.max(np.abs(G.T @ G - np.eye(k)))}")
				TT = tri(a, b)[:k, :k]
				check(np.max(np.abs(G.T @ M64 @ G - TT)) <= 1e-6 * np.abs(M64).max() * n, "not-a-compression", lambda: f"{what()}: {diff(G.T @ M64 @ G, TT)}")
			if not c["noise"] and orth and not low and Q is not None and o["rtol"]:  # each vector is orthogonal to the orth before it
				k = len(A.log) if loggy else int(np.count_nonzero(Q.any(axis=0)))
				H = np.abs(Q[:, :k].T @ Q[:, :k])
				for i in range(1, k):
					wo = H[i, max(0, i - orth):i].max()
					check(wo * b[i - 1] <= 1e-10 * np.abs(M64).max() * n, "window-not-orthogonal", lambda: f"{what()}: vector {i} is orthogonal to the {orth} before it only up to {wo}")
				sim.probe("window")
			# every representation of the operator gives the same
			if not c["noise"] and not low and (orth >= deg or deg <= 3) and c["spec"] == "gen" and o["v0"] in ("gen", None) and o["rtol"]:
				with quiet(sim):
					was, sites.enabled = sites.enabled, False
					msk, sim.mask_line_faults = getattr(sim, "mask_line_faults", False), True
					alt = self.call(M64, dict(o, sparse=False, basis=False), v0, c)
					sites.enabled, sim.mask_line_faults = was, msk
				x, y = np.r_[a, b], np.r_[alt[0], alt[1]]
				bmin = min(list(b) + [1.0])
				if bmin > 1e-2 * c["scale"]:
					check(np.max(np.abs(x - y)) <= 1e-8 * c["scale"] / min(1, bmin / c["scale"]) ** 2, "representations-differ", lambda: f"{what()}: {diff(x, y)} with the dense matrix")
					sim.probe("representations")

		if cfg["nt"] == 1:
			client(0)()
		else:
			run_clients(sim, [client(t) for t in range(cfg["nt"])])
		# the same call gives the same result, whatever happened in between
		for j, o in enumerate(plan["ops"]):
			if j and j in results and j - 1 in results and dict(plan["ops"][j - 1], t=0) == dict(o, t=0) and not c["noise"] and o["rtol"]:  # without a tolerance it goes on with what rounding left
				for x, y in zip(results[j - 1], results[j]):
					check((x is None) == (y is None) and (x is None or same(x, y, 1e-5 if c["dtype"] == "f4" or o["dtype"] == "f4" else 1e-9)), "repetition-differs", lambda: f"call {j} {o} on {c}: {diff(x, y)}")

	def nonsense(self, what, o, r, A):
		"""The operator answered NaN: so do, from there on, all the results that depend on it."""
		i = next(i for i, (x, y) in enumerate(A.log) if np.isnan(y).any())
		if o["fn"] == "rr":
			check(not np.isfinite(np.asarray(r[0])).all(), "nonsense-hidden", lambda: f"{what()}: the operator answered NaN at step {i}, the Ritz values are {r[0]}")
			return
		T = r[0] if o["basis"] else r
		a, b = (T.toarray().diagonal(), T.toarray().diagonal(1)) if o["sparse"] else T
		check(not np.isfinite(a[i:]).any() and not np.isfinite(b[i:]).any(), "nonsense-hidden", lambda: f"{what()}: the operator answered NaN at step {i}, but alpha = {a}, beta = {b}")

	def ritz(self, what, c, o, r, A, deg, dt, sim, j):
		n = c["n"]
		rw, Y = np.asarray(r[0], dtype=float), np.asarray(r[1], dtype=float)
		check(rw.shape == (deg,) and Y.shape == (deg, deg), "shape", lambda: f"{what()}: {rw.shape} {Y.shape}")
		sim.event("ritz", j)
		low = dt == np.float32 or c["dtype"] == "f4"
		check(np.max(np.abs(Y.T @ Y - np.eye(deg))) <= (1e-3 if low else 1e-8), "ritz-not-orthonormal", lambda: f"{what()}: {np.max(np.abs(Y.T @ Y - np.eye(deg)))}")
		orth = deg if o["orth"] < 0 or o["orth"] > deg else o["orth"]
		if not c["noise"] and orth >= deg and not low and o["rtol"] == 1e-8 and c["spec"] == "gen" and o["v0"] in ("gen", None) and deg == n:
			M = mk_M(c).astype(float)
			w = np.linalg.eigvalsh(M)
			check(np.max(np.abs(np.sort(rw) - w)) <= 1e-5 * np.abs(w).max(), "ritz-values-differ", lambda: f"{what()}: {np.sort(rw)} {w}")
		if o["basis"] and not c["noise"] and not low and orth >= deg and o["rtol"]:
			Q = np.asarray(r[2], dtype=float)
			M = mk_M(c).astype(float)
			k = int(np.count_nonzero(Q.any(axis=0)))
			if k == deg:
				V = Q @ Y
				check(np.max(np.abs(np.einsum("ij,ij->j", V, M @ V) - rw)) <= 1e-6 * np.abs(M).max() * n, "ritz-pairs-differ", lambda: f"{what()}: {diff(np.einsum('ij,ij->j', V, M @ V), rw)}")
