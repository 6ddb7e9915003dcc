"""Q01: tridiagonal eigenproblems, and what is built on them, survive non-convergence of the LAPACK solver; other errors reach the caller."""
QUICK = (10500, 30)
THOROUGH = (3_000_000, 900)
import numpy as np
import scipy.linalg
import scipy.linalg._decomp as _decomp

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.integrate import quadrature
from primate.lanczos import rayleigh_ritz
from primate.operators import MatrixFunction
from primate.trace import hutch
from primate.tridiag import eigh_tridiag, eigvalsh_tridiag

SOLVERS = {"stevd", "stev", "stemr", "sterf", "stebz", "stein"}
REAL = _decomp.get_lapack_funcs
NOW = {"lapack": None}


def get_lapack_funcs(names, *a, **k):
	funcs = REAL(names, *a, **k)
	L = NOW["lapack"]
	if L is None or isinstance(names, str):
		return funcs
	return [L.wrap(nm, f) if nm in SOLVERS else f for nm, f in zip(names, funcs)]


_decomp.get_lapack_funcs = get_lapack_funcs


class Lapack:
	"""The primary solver as a simulated party: the n-th call may not converge, be refused, or die."""

	def __init__(self, sim, plan):
		self.sim, self.n, self.hard, self.soft = sim, 0, [], 0
		self.softby, self.illegal = set(), set()
		self.f = [f for f in plan["faults"] if f["kind"] == "lapack"]
		self.on = True

	def wrap(self, name, fn):
		def call(*a, **k):
			if not self.on:
				return fn(*a, **k)
			self.n += 1
			self.sim.yield_point("lapack")
			for f in self.f:
				if f["at"] <= self.n < f["at"] + f.get("span", 1):
					if f.get("exc"):
						self.f.remove(f)
						self.sim.count("lapack:" + f["exc"])
						e = EXCS[f["exc"]](f"injected {f['exc']} in {name}")
						e.injected = True
						e.who = self.sim.me().tid
						self.hard.append(e)
						raise e
					self.sim.count("lapack:no-convergence" if f["info"] > 0 else "lapack:illegal-argument")
					self.sim.event("lapack", name, f["info"])
					out = list(fn(*a, **k))
					for i, x in enumerate(out[:-1]):
						if isinstance(x, np.ndarray) and x.dtype.kind == "f":
							out[i] = np.full_like(x, np.nan) if f["info"] % 2 else x * 0.5  # whatever it had got to
					out[-1] = f["info"]
					if f["info"] > 0:
						self.soft += 1
						self.softby.add(self.sim.me().tid)
					else:
						self.hard.append("illegal")
						self.illegal.add(self.sim.me().tid)
						self.f.remove(f)
					return tuple(out)
			return fn(*a, **k)
		return call


def mk_T(o):
	n, g = o["n"], np.random.default_rng(o["seed"])
	d, e = g.normal(size=n), g.normal(size=n - 1)
	s = o["spec"]
	if s == "pos":
		d, e = g.uniform(2, 4, size=n), g.uniform(0.1, 0.9, size=n - 1)
	elif s == "split":
		e[g.random(n - 1) < 0.4] = 0.0
	elif s == "wilkinson":
		d, e = np.abs(np.arange(n) - (n - 1) / 2), np.ones(n - 1)
	elif s == "laplace":
		d, e = np.full(n, 2.0), np.full(n - 1, -1.0)
	elif s == "graded":
		q = 10.0 ** -np.linspace(0, 6, n)
		d, e = d * q, e * np.sqrt(q[1:] * q[:-1])
	elif s == "diag":
		e = np.zeros(n - 1)
	elif s == "zero":
		d, e = np.zeros(n), np.zeros(n - 1)
	elif s == "hollow":  # as of the classical symmetric weights
		d, e = d * 0, np.abs(e) + 0.3
	elif s == "neg":
		d, e = -np.abs(d) - 3, -np.abs(e)
	elif s == "int":
		d, e = np.round(d * 3), np.round(e * 3)
	d, e = d * o["scale"], e * o["scale"]
	dt = np.dtype(o["dtype"])
	if s == "int" and o["scale"] == 1.0 and dt == np.float64 and o["seed"] % 2:
		dt = np.dtype(np.int64)
	d, e = d.astype(dt), e.astype(dt)
	if o["lead"]:
		e = np.r_[np.zeros(1, dtype=dt), e]
	if o["lay"] == "strided":
		D, E = np.full(2 * len(d), 9, dtype=dt), np.full(2 * len(e), 9, dtype=dt)
		D[::2], E[::2] = d, e
		d, e = D[::2], E[::2]
	elif o["lay"] == "ro":
		d.flags.writeable = e.flags.writeable = False
	return d, e


def dense(d, e):
	n = len(d)
	e = np.asarray(e, dtype=float)[len(e) - n + 1 :] if n > 1 else np.zeros(0)
	return np.diag(np.asarray(d, dtype=float)) + (np.diag(e, 1) + np.diag(e, -1) if n > 1 else 0)


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		ops = []
		for _ in range(rng.choice([1, 1, 2, 3, 4])):
			fn = rng.choice(["eigh", "eigh", "eigh", "eigvalsh", "eigvalsh", "quad", "quad", "rr", "mf", "mfquad", "hutch"])
			o = {"fn": fn, "n": gen_size(rng, [rng.randrange(1, 14), rng.randrange(1, 14), rng.randrange(14, 41)], (70, 130)), "seed": rng.randrange(1 << 30), "spec": rng.choice(["gen", "gen", "pos", "split", "wilkinson", "laplace", "graded", "diag", "zero", "neg", "int", "hollow"]),
				"scale": rng.choice([1.0, 1.0, 1e-6, 1e5]), "dtype": rng.choice(["f8", "f8", "f4"]), "lead": rng.random() < 0.5, "lay": rng.choice(["C", "C", "strided", "ro"]), "method": rng.choice(["auto", "auto", "auto", "auto", "default", "default", "mrrr", "tqli"]),
				"rule": rng.choice(["gw", "gw", "golub_welsch", "fttr"])}
			if fn == "quad" and o["rule"] == "fttr":
				o.update(spec=rng.choice(["pos", "pos", "hollow"]), n=rng.choice([1, min(o["n"], 8), min(o["n"], 8)]))
			if fn in ("rr", "mf", "mfquad", "hutch"):
				o.update(n=rng.choice([2, 3, 4, 5, 6, 7, 8, 9]), ops=rng.choice([2, 3]), dtype=rng.choice(["f8", "f8", "f4"]), fun=rng.choice(["log", "exp", "sqrt"]))
			ops.append(o)
		faults = []
		for _ in range(rng.choice([1, 1, 1, 2, 3])):
			f = {"kind": "lapack", "at": rng.choice([1, 1, 2, 3, rng.randrange(1, 8)])}
			if rng.random() < 0.75:
				f.update(info=rng.choice([1, 2, 3, 7]), span=rng.choice([1, 1, 2, 5, 1000]))
			elif rng.random() < 0.25:
				f.update(info=-2)
			else:
				f.update(exc=rng.choice([x for x in EXC_NAMES if x != "LinAlgError"]))
			faults.append(f)
		return {"cfg": {"kind": "+".join(sorted({o["fn"] for o in ops}))}, "ops": ops, "faults": faults, "gran": "off"}

	def run(self, plan, sim):
		L = Lapack(sim, plan)
		NOW["lapack"] = L
		try:
			for j, o in enumerate(plan["ops"]):
				for attempt in range(len(plan["faults"]) + 1):
					if self.step(sim, L, j, o):
						break
		finally:
			NOW["lapack"] = None

	def guarded(self, sim, L, j, o, fn):
		"""(ok, result): not ok when a hard failure was injected and reached the caller, or the method asked for cannot fall back."""
		L.hard.clear()
		L.soft = 0
		err = r = None
		try:
			with np.errstate(all="ignore"):
				r = fn()
		except (Violation, SimAbort, HarnessError):
			raise
		except BaseException as e:
			err = root(e)
		what = f"call {j} {o}"
		sim.event("call", j, type(err).__name__, len(L.hard), L.soft)
		if L.hard:
			h = L.hard[0]
			check(err is not None, "failure-swallowed", lambda: f"{what}: returned although the solver failed with {h!r}")
			if h == "illegal":
				check(isinstance(err, ValueError), "failure-disguised", lambda: f"{what}: illegal argument came back as {type(err).__name__}: {err}")
			else:
				check(err is h, "failure-disguised", lambda: f"{what}: {h!r} came back as {err!r}")
			sim.probe("hard-failure")
			scrub(err)
			return False, None
		if L.soft and o.get("method") == "mrrr" and err is not None:
			check(isinstance(err, np.linalg.LinAlgError), "failure-disguised", lambda: f"{what}: non-convergence came back as {type(err).__name__}: {err}")
			scrub(err)
			L.f[:] = [f for f in L.f if f.get("exc")]
			return False, None
		check(err is None, "call-failed", lambda: f"{what}: {L.soft} solver calls did not converge: {type(err).__name__}: {err}")
		if L.soft:
			sim.probe("fell-back:" + o["fn"])
		return True, r

	def step(self, sim, L, j, o):
		what = lambda: f"call {j} {o} ({L.soft} solver calls did not converge)"
		kw = {} if o["method"] == "default" else {"method": o["method"]}
		if o["fn"] in ("eigh", "eigvalsh", "quad"):
			d, e = mk_T(o)
			dc, ec = d.copy(), e.copy()
			T = dense(d, e)
			sc = float(np.abs(T).max()) or 1.0
			low = d.dtype == np.float32
			tol = (2e-6 if low else 1e-13) * sc * (len(d) + 3)
			if o["fn"] == "eigh":
				ok, r = self.guarded(sim, L, j, o, lambda: eigh_tridiag(d, e, **kw))
			elif o["fn"] == "eigvalsh":
				ok, r = self.guarded(sim, L, j, o, lambda: eigvalsh_tridiag(d, e, **kw))
			else:
				ok, r = self.guarded(sim, L, j, o, lambda: quadrature(d, e, quad=o["rule"], **kw))
			check(np.array_equal(d, dc) and np.array_equal(e, ec), "input-modified", what)
			if not ok:
				return False
			w0, U = np.linalg.eigh(T)
			w = np.asarray(r if o["fn"] == "eigvalsh" else r[0], dtype=float)
			check(w.shape == w0.shape and np.max(np.abs(np.sort(w) - w0)) <= tol, "eigenvalues-differ", lambda: f"{what()}: {diff(np.sort(w), w0)}")
			if o["fn"] == "eigh":
				Y = np.asarray(r[1], dtype=float)
				n = len(d)
				check(Y.shape == (n, n), "shape", what)
				check(np.max(np.abs(Y.T @ Y - np.eye(n))) <= (1e-5 if low else 1e-12) * (n + 3), "not-orthonormal", lambda: f"{what()}: off by {np.max(np.abs(Y.T @ Y - np.eye(n)))}")
				check(np.max(np.abs(T @ Y - Y * w)) <= tol * 10, "pairs-differ", lambda: f"{what()}: T y - w y is off by {np.max(np.abs(T @ Y - Y * w))}")
			if o["fn"] == "quad":
				t = np.asarray(r[1], dtype=float)
				check(np.all(t >= -tol) and abs(t.sum() - 1) <= (1e-5 if low else 1e-8), "weights", lambda: f"{what()}: weights {t} sum to {t.sum()}")
				for p in (lambda x: x, np.square, lambda x: np.sin(x * 2), lambda x: np.abs(x - 0.3)):
					x, y = p(w / sc) @ t, p(w0 / sc) @ U[0] ** 2
					check(abs(x - y) <= (1e-4 if low or o["rule"] == "fttr" else 1e-10) * (len(d) + 3), "rule-differs", lambda: f"{what()}: integrates to {x}, not {y}")
			return True
		n = o["n"]
		A = sym_matrix(n, o["seed"], signs=False).astype(o["dtype"])
		if o["fn"] == "rr" and n > 1 and np.min(np.diff(np.linalg.eigvalsh(A.astype(float)))) < (5e-3 if o["dtype"] == "f4" else 1e-6):
			A = (A + np.diag(np.arange(n) * 2.0)).astype(o["dtype"])  # Lanczos cannot tell eigenvalues apart that agree to within its rounding errors
		low = o["dtype"] == "f4"
		v = np.random.default_rng(o["seed"] + 1).normal(size=n)
		w, U = np.linalg.eigh(A.astype(float))
		if o["fn"] == "rr":
			ok, r = self.guarded(sim, L, j, o, lambda: (rayleigh_ritz(A, orth=n, seed=1, return_eigenvectors=o["lead"])))
			if not ok:
				return False
			rw = np.asarray(r[0] if o["lead"] else r, dtype=float)
			check(np.max(np.abs(np.sort(rw) - w)) <= (2e-3 if low else 1e-6), "ritz-values-differ", lambda: f"{what()}: {np.sort(rw)} but the eigenvalues are {w}")
			if o["lead"]:
				Y = np.asarray(r[1], dtype=float)
				check(np.max(np.abs(Y.T @ Y - np.eye(len(rw)))) <= (1e-4 if low else 1e-8), "not-orthonormal", lambda: f"{what()}: {np.max(np.abs(Y.T @ Y - np.eye(len(rw))))}")
			return True
		f = {"log": np.log, "exp": np.exp, "sqrt": np.sqrt}[o["fun"]]
		fA = (U * f(w)) @ U.T
		M = MatrixFunction(A, fun=f, deg=max(2, n), orth=n, dtype=np.dtype(o["dtype"]))
		rt = 2e-3 if low else 1e-6
		if o["fn"] == "mf":
			ok, r = self.guarded(sim, L, j, o, lambda: M @ v)
			if ok:
				check(np.max(np.abs(r - fA @ v)) <= rt * np.abs(fA).max() * np.linalg.norm(v) * 2, "action-differs", lambda: f"{what()}: {diff(r, fA @ v)}")
			return ok
		if o["fn"] == "mfquad":
			ok, r = self.guarded(sim, L, j, o, lambda: M.quad(v))
			if ok:
				check(abs(np.ravel(r)[0] - v @ fA @ v) <= rt * np.abs(fA).max() * (v @ v) * 2, "quadratic-form-differs", lambda: f"{what()}: {r} not {v @ fA @ v}")
			return ok
		ok, r = self.guarded(sim, L, j, o, lambda: hutch(M, seed=5, converge="count", count=3, batch=2, full=True)[1])
		if ok:
			k = len(r.estimator)
			V = stream("rademacher", n, k, 5)
			x = np.mean(np.einsum("ij,ij->j", V, fA @ V))
			check(abs(r.estimate - x) <= rt * np.abs(fA).max() * n * 4, "trace-differs", lambda: f"{what()}: {r.estimate}, the same vectors give {x}")
		return ok
