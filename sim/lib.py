"""Shared pieces of the scenarios: generators of schedules and faults, simulated operators, samplers and oracles."""
import copy, os, pickle, threading

import numpy as np
import scipy.sparse
from scipy.sparse.linalg import LinearOperator

from . import kernel
from .kernel import Deadlock, HarnessError, SimAbort, Violation  # noqa

EXCS = {
	"OSError": OSError, "RuntimeError": RuntimeError, "ValueError": ValueError, "FloatingPointError": FloatingPointError, "LinAlgError": np.linalg.LinAlgError,
	"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "TypeError": TypeError, "IndexError": IndexError, "AssertionError": AssertionError,
	"KeyError": KeyError, "TimeoutError": TimeoutError, "ZeroDivisionError": ZeroDivisionError, "InterruptedError": InterruptedError, "StopIteration": StopIteration, "SystemExit": SystemExit, "BufferError": BufferError,
}
EXC_NAMES = sorted(EXCS)


# ------------------------------------------------------------------ plan generation
def gen_sched(rng, serial=0.1, victims=4):
	seed = rng.getrandbits(32)
	if rng.random() < serial:
		return {"kind": "serial", "seed": seed}
	k = rng.choice(["random", "random", "burst", "pct", "starve"])
	s = {"kind": k, "seed": seed, "p": rng.choice([0.03, 0.1, 0.3, 0.6])}
	if k == "pct":
		s.update(d=rng.choice([1, 2, 3, 5]), horizon=rng.choice([60, 300, 1500]))
	if k == "starve":
		s.update(victim=rng.randrange(0, victims + 1))
	return s


def gen_stalls(rng, tids, most=3, horizon=60):
	return [{"kind": "stall", "tid": rng.choice(tids), "at": rng.randrange(1, horizon), "dur": rng.choice([1e-4, 0.01, 1.0, 60.0, 3600.0])} for _ in range(rng.randrange(0, most + 1))]


class ScenarioBase:
	INT_MIN = {}  # cfg key -> smallest meaningful value
	CHOICE_MIN = {}  # cfg key -> preferred simple values
	OP_INTS = ("n", "k", "w")  # what may be made smaller in an operation

	def simplifications(self, plan):
		cfg = plan.get("cfg", {})
		for k, lo in self.INT_MIN.items():
			if isinstance(cfg.get(k), int) and cfg[k] > lo:
				v = cfg[k]
				yield (["cfg", k], sorted({lo, (lo + v) // 2, v - 1} & set(range(lo, v))))
		for k, vs in self.CHOICE_MIN.items():
			if k in cfg:
				yield (["cfg", k], [x for x in vs][: (vs.index(cfg[k]) if cfg[k] in vs else None)])
		for i, f in enumerate(plan.get("faults", [])):
			if "dur" in f and f["dur"] != 0.01:
				yield (["faults", i, "dur"], [0.01])
			if f.get("n", 1) > 1:
				yield (["faults", i, "n"], [1, f["n"] // 2, f["n"] - 1])
		for i, o in enumerate(plan.get("ops", [])):
			if isinstance(o, dict):
				for k in self.OP_INTS:
					if isinstance(o.get(k), int) and o[k] > 1:
						yield (["ops", i, k], sorted({1, o[k] // 2, o[k] - 1} & set(range(1, o[k]))))


# ------------------------------------------------------------------ faults at call sites
class Sites:
	"""Call sites of simulated parties: the n-th call at a site may fail, stall or misbehave, as the plan says."""

	def __init__(self, sim, plan, enabled=True):
		self.sim, self.enabled = sim, enabled
		self.n = {}
		self.f = {}
		self.raised = []
		self.snap = None
		for f in plan.get("faults", []):
			if f["kind"] == "call":
				self.f.setdefault((f["site"], f["n"]), []).append(f)

	def hit(self, site, where="before"):
		"""Count a call; yields to the scheduler; raises what the plan injects here. Returns the fault (for torn effects) or None."""
		self.n[site] = n = self.n.get(site, 0) + 1
		s = self.sim
		if s is not None:
			s.yield_point(site)
		if not self.enabled or s is None:
			return None
		fs = self.f.get((site, n))
		if not fs:
			return None
		f = fs.pop()
		if f.get("delay"):
			s.count("slow:" + site.split("#")[0])
			s.sleep(f["delay"])
		if f.get("exc"):
			if f.get("torn"):
				return f
			self.throw(f, site)
		return f

	def throw(self, f, site):
		self.sim.count(f"{'torn' if f.get('torn') else 'raise'}:{site.split('#')[0]}")
		self.sim.event("inject", site, f["exc"])
		e = EXCS[f["exc"]](f"injected {f['exc']} at {site}")
		e.injected = True
		e.who = self.sim.me().tid if self.sim.me() is not None else -1
		self.raised.append(e)
		self.snap = dict(self.n)
		raise e


def is_injected(e, seen=None):
	"""e, or something in its cause/context chain, was injected by the simulator."""
	seen = seen or set()
	while e is not None and id(e) not in seen:
		seen.add(id(e))
		if getattr(e, "injected", False):
			return True
		if e.__cause__ is not None and is_injected(e.__cause__, seen):
			return True
		e = e.__context__
	return False


def root(e):
	"""The error itself, where the language had to wrap it: a StopIteration cannot leave a generator as such."""
	while isinstance(e, RuntimeError) and isinstance(e.__cause__, StopIteration) and "StopIteration" in str(e):
		e = e.__cause__
	return e


def scrub(e):
	seen = set()
	while e is not None and id(e) not in seen:
		seen.add(id(e))
		e.__traceback__ = None
		n = e.__cause__ or e.__context__
		e.__cause__ = e.__context__ = None
		e = n


# ------------------------------------------------------------------ running library calls
def lib(sig, fn, *a, **k):
	"""A library call that must succeed: any error it raises is a violation of the property."""
	try:
		return fn(*a, **k)
	except (Violation, SimAbort, HarnessError):
		raise
	except BaseException as e:
		if kernel.SIM is not None and isinstance(kernel.SIM.failure, Violation):
			raise kernel.SIM.failure
		import traceback
		tb = traceback.extract_tb(e.__traceback__)
		raise Violation(sig, f"{type(e).__name__}: {e} (at {tb[-1].filename.split('/')[-1]}:{tb[-1].name})")


def check(cond, sig, msg=""):
	if not cond:
		raise Violation(sig, msg() if callable(msg) else msg)


class quiet:
	"""The oracle's own use of the library is not simulated."""

	def __init__(self, sim):
		self.sim = sim

	def __enter__(self):
		self.was, self.sim.active = self.sim.active, False

	def __exit__(self, *a):
		self.sim.active = self.was


def pristine(fn):
	"""Run fn in a fork of this still single-threaded process and return its (pickled) result: an oracle untouched by this run's history."""
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		try:
			os.close(r)
			try:
				out = (True, fn())
			except BaseException as e:
				v = e if isinstance(e, Violation) else None
				import traceback
				out = (False, (v.sig, v.msg) if v else ("reference-failed", traceback.format_exc()[-1500:]))
			data = pickle.dumps(out)
			while data:
				data = data[os.write(w, data):]
		finally:
			os._exit(0)
	os.close(w)
	buf = b""
	while True:
		b = os.read(r, 1 << 16)
		if not b:
			break
		buf += b
	os.close(r)
	_, st = os.waitpid(pid, 0)
	if not buf:
		raise Violation("process-crash", f"the same call crashes a fresh process (wait status {st})")
	ok, val = pickle.loads(buf)
	if not ok:
		raise Violation(val[0], "in a fresh, fault-free, single-threaded process: " + val[1])
	return val


def run_clients(sim, fns, main_too=False):
	"""Run the callables in simulated threads; propagate the first violation; harness errors keep their own class."""
	errs = []

	def wrap(f):
		def body():
			try:
				f()
			except SimAbort:
				raise
			except Violation as v:  # threading would swallow it
				sim.failure = sim.failure or v
			except BaseException as e:
				import traceback
				errs.append((e, traceback.format_exc()))
		return body

	ts = [threading.Thread(target=wrap(f), name=f"client{i}") for i, f in enumerate(fns)]
	for t in ts:
		t.start()
	for t in ts:
		t.join()
	if sim.failure is not None:
		raise sim.failure
	if errs:
		raise HarnessError(errs[0][1])


def same(a, b, rtol=1e-10, atol=0.0):
	a, b = np.asarray(a), np.asarray(b)
	if a.shape != b.shape:
		return False
	if a.size == 0:
		return True
	if a.dtype.kind in "fc" or b.dtype.kind in "fc":
		fin = np.isfinite(a) & np.isfinite(b)
		if not np.array_equal(np.isnan(a), np.isnan(b)):
			return False
		if not np.array_equal(a[~fin & ~np.isnan(a)], b[~fin & ~np.isnan(a)]):
			return False
		if not fin.any():
			return True
		sc = max(np.max(np.abs(a[fin])), np.max(np.abs(b[fin])))
		return bool(np.max(np.abs(a[fin] - b[fin])) <= rtol * sc + atol)
	return np.array_equal(a, b)


def diff(a, b):
	a, b = np.asarray(a), np.asarray(b)
	if a.shape != b.shape:
		return f"shapes {a.shape} vs {b.shape}"
	with np.errstate(all="ignore"):
		d = np.abs(a.astype(float) - b.astype(float))
	return f"max diff {np.nanmax(d) if d.size else 0:.3g} of scale {np.nanmax(np.abs(b)) if b.size else 0:.3g} nan {int(np.isnan(a).sum())}/{int(np.isnan(b).sum())}; got {np.ravel(a)[:4]} expected {np.ravel(b)[:4]}"


# ------------------------------------------------------------------ simulated generator (the sampler's entropy)
class SimGenerator(np.random.Generator):
	"""A numpy Generator whose draws are scheduling points and can fail, stall or be torn."""

	sites = None
	label = "rng"
	kids = 0

	@classmethod
	def make(cls, seed, sites, label="rng"):
		g = cls(np.random.PCG64(seed))
		g.sites, g.label, g.kids = sites, label, 0
		return g

	def spawn(self, k):
		out = []
		for ss in self.bit_generator.seed_seq.spawn(k):
			g = type(self)(type(self.bit_generator)(ss))
			g.sites, g.label, g.kids = self.sites, f"{self.label}#{self.kids}", 0
			self.kids += 1
			out.append(g)
		return out

	def _draw(self, meth, a, k):
		f = self.sites.hit(self.label) if self.sites is not None else None
		if f is not None and f.get("torn"):
			out = k.get("out")
			if out is not None and out.ndim == 2 and out.shape[1] > 1:
				h = out[:, : out.shape[1] // 2]
				k2 = dict(k, out=h)
				meth(*a, **k2)
			self.sites.throw(f, self.label)
		r = meth(*a, **k)
		if self.sites is not None and self.sites.sim is not None:
			self.sites.sim.yield_point("drawn")
		return r

	def random(self, *a, **k):
		return self._draw(super().random, a, k)

	def standard_normal(self, *a, **k):
		return self._draw(super().standard_normal, a, k)


def stream(pdf, n, k, seed, dtype=np.float64):
	"""The first k columns of length n of the seeded stream, straight from numpy."""
	return stream_from(np.random.default_rng(seed), pdf, n, k, dtype)


def stream_from(g, pdf, n, k, dtype=np.float64):
	pdf = {"signs": "rademacher", "gaussian": "normal"}.get(pdf, pdf)
	W = np.empty((n, k), order="F")
	if pdf == "rademacher":
		g.random(out=W)
		return np.where(W >= 0.5, 1.0, -1.0).astype(dtype)
	g.standard_normal(out=W)
	if pdf == "sphere":
		W = W * (np.sqrt(n) / np.sqrt(np.sum(W * W, axis=0, keepdims=True)))
	return W.astype(dtype)


# ------------------------------------------------------------------ simulated operators
def gen_size(rng, usual, big=(40, 70, 130), p=0.03):
	"""Mostly small, and now and then past the sizes at which an implementation may switch to another path."""
	return rng.choice(big) if rng.random() < p else rng.choice(usual)


def gen_reuse(rng, p=0.3):
	"""What an operator does with the array it answers in: a new one each time, one buffer for all answers, one kept per question, or the very array it was given."""
	return (rng.choice([True, True, "memo", "memo", "alias"]) if rng.random() < p else False)


def sym_matrix(n, seed, lo=0.5, hi=2.0, signs=True, reuse=False):
	if reuse == "alias":
		return np.eye(n)
	g = np.random.default_rng(seed)
	Q, _ = np.linalg.qr(g.normal(size=(n, n)))
	ew = g.uniform(lo, hi, size=n)
	if signs:
		ew = ew * g.choice([-1.0, 1.0], size=n)
	A = (Q * ew) @ Q.T
	return (A + A.T) / 2


def singular_matrix(kind, n, seed):
	"""A symmetric matrix with a null space, as they come up: of low rank, the Laplacian of a graph, or nothing but zeros."""
	g = np.random.default_rng(seed)
	if kind == "zero":
		return np.zeros((n, n))
	if kind == "laplacian":
		G = np.triu(g.random((n, n)) < min(1.0, 3.0 / n), 1).astype(float)
		G[np.arange(n - 1), np.arange(1, n)] = 1.0  # a path, so that it is connected
		G = G + G.T
		return np.diag(G.sum(axis=0)) - G
	if kind == "decay":  # not singular, but not far from it
		Q, _ = np.linalg.qr(g.normal(size=(n, n)))
		A = (Q * (10.0 ** -(g.uniform(0, g.choice([3.0, 5.0, 6.0]), size=n)) * g.choice([-1.0, 1.0], size=n))) @ Q.T
		return (A + A.T) / 2
	r = 1 if kind == "rank1" else int(g.integers(1, max(2, n)))
	Q, _ = np.linalg.qr(g.normal(size=(n, min(r, n))))
	A = (Q * (g.uniform(0.5, 2.0, size=Q.shape[1]) * g.choice([-1.0, 1.0], size=Q.shape[1]))) @ Q.T
	return (A + A.T) / 2


SINGULAR = ["zero", "laplacian", "laplacian", "lowrank", "lowrank", "rank1", "decay", "decay"]


def sparse_matrix(M, fmt, seed):
	"""M in a sparse format as users assemble it: entries in any order, some in two halves, some zeros stored."""
	g = np.random.default_rng(seed)
	i, j = np.nonzero(M)
	if g.random() < 0.3:
		i, j = np.indices(M.shape).reshape(2, -1)
	v = M[i, j]
	if g.random() < 0.6 and v.dtype.kind == "f":
		two = np.flatnonzero(g.random(len(v)) < 0.3)
		v = v.copy()
		v[two] /= 2
		i, j, v = np.r_[i, i[two]], np.r_[j, j[two]], np.r_[v, v[two]]
	if g.random() < 0.7:
		p = g.permutation(len(v))
		i, j, v = i[p], j[p], v[p]
	array = g.random() < 0.5 and not (fmt == "coo" and len(M) == 1)  # SciPy's 1 x 1 coo_array answers a vector with a number
	if fmt == "coo":
		return (scipy.sparse.coo_array if array else scipy.sparse.coo_matrix)((v, (i, j)), shape=M.shape)
	major, minor = (i, j) if fmt == "csr" else (j, i)
	p = np.argsort(major, kind="stable")
	ptr = np.searchsorted(major[p], np.arange(len(M) + 1))
	cls = getattr(scipy.sparse, fmt + ("_array" if array else "_matrix"))
	return cls((v[p], minor[p].astype(np.int32), ptr.astype(np.int32)), shape=M.shape)


def content(A):
	"""All that is in a matrix of the user, to the bit and in the order it is stored."""
	if scipy.sparse.issparse(A):
		arrs = (A.row, A.col, A.data) if A.format == "coo" else (A.indptr, A.indices, A.data)
		return (type(A), A.shape) + tuple((x.dtype.str, x.tobytes()) for x in arrs)
	return (type(A), A.shape, A.dtype.str, A.flags.writeable, A.strides, A.tobytes())


class SimOp(LinearOperator):
	"""Matrix behind a simulated party: logs what it was given and what it answered; calls are scheduling and fault points."""

	def __init__(self, M, sites, site="op", dtype=None, reuse=False, log=None):
		self.M = np.array(M, dtype=dtype or M.dtype)
		super().__init__(self.M.dtype, self.M.shape)
		self.sites, self.site, self.log, self.reuse = sites, site, [] if log is None else log, reuse
		self._buf = {}
		self.calls = 0
		self._alias = reuse == "alias" and np.array_equal(self.M, np.eye(len(self.M)))

	def _apply(self, X, M):
		self.calls += 1
		if self.calls > 20000:
			raise kernel.StepLimit(f"operator applied more than {self.calls - 1} times")
		f = self.sites.hit(self.site) if self.sites is not None else None
		X = np.asarray(X)
		Xc = np.array(X, dtype=np.float64, copy=True).reshape(X.shape[0], -1)
		Y = np.asarray(M @ X)
		if f is not None and f.get("torn"):
			self.sites.throw(f, self.site)
		if not np.array_equal(Xc, np.asarray(X, dtype=np.float64).reshape(Xc.shape)) and not np.isnan(Xc).any():
			raise HarnessError("operator input changed during the call")
		if f is not None and f.get("nan"):
			self.sites.sim.count("nan:" + self.site)
			Y = np.full_like(Y, np.nan)
		self.log.append((Xc, np.array(Y, dtype=np.float64, copy=True).reshape(Y.shape[0], -1)))
		if self.sites is not None and self.sites.sim is not None:
			self.sites.sim.yield_point("answered")
		if self._alias and X.dtype == Y.dtype and np.array_equal(X, Y):
			return X
		if self.reuse == "memo" and not (f is not None and f.get("nan")):
			key = (X.shape, X.dtype.str, M is self.M, Xc.tobytes())
			Z, Z0 = self._buf.setdefault(key, (Y, Y.copy()))
			check(np.array_equal(Z, Z0, equal_nan=True), "operator-answer-modified", lambda: f"an answer that the operator keeps was changed since it gave it: {diff(Z, Z0)}")
			return Z
		if self.reuse is True:
			b = self._buf.setdefault((Y.shape, threading.get_ident()), np.empty_like(Y))
			b[...] = Y
			return b
		return Y

	def _matvec(self, x):
		return self._apply(x, self.M)

	def _matmat(self, X):
		return self._apply(X, self.M)

	def _rmatvec(self, x):
		return self._apply(x, self.M.T)

	def _rmatmat(self, X):
		return self._apply(X, self.M.T)

	def columns(self):
		"""All non-zero columns applied, in order, with the answers."""
		xs, ys = [], []
		for X, Y in self.log:
			for j in range(X.shape[1]):
				if np.any(X[:, j] != 0):
					xs.append(X[:, j])
					ys.append(Y[:, j])
		return xs, ys


def side_work(m, dtype, salt):
	"""What an operator may do in the middle of its answer: a small product of its own, with the library's own routines."""
	from primate.lanczos import lanczos
	from primate.operators import MatrixFunction
	from scipy.sparse.linalg import aslinearoperator

	d = np.linspace(0.5, 2.0, m)
	A = aslinearoperator(np.diag(d).astype(dtype))
	v = np.cos(salt + np.arange(m)).astype(dtype)
	with np.errstate(all="ignore"):
		if salt % 3 == 0:
			a, _ = lanczos(A, v0=v, deg=m, orth=m)
			got, want = np.sum(a), np.sum(d)
		else:
			F = MatrixFunction(A, fun=np.sqrt, deg=m, orth=m, dtype=np.dtype(dtype))
			got, want = (F.quad(v), np.sum(np.sqrt(d) * v * v)) if salt % 3 == 1 else (F @ v, np.sqrt(d) * v)
	check(np.allclose(got, want, rtol=1e-3, atol=1e-3), "nested-call-wrong", lambda: f"a product within the operator's answer: {got}, not {want}")


class BusyOp(SimOp):
	"""An operator that uses the library itself to answer."""

	def _apply(self, X, M):
		side_work(3 + self.calls % 3, "f4" if self.calls % 4 == 3 else "f8" if self.calls % 4 else self.dtype, self.calls)
		return super()._apply(X, M)


class DuckOp:
	"""The least an operator needs: shape, dtype, matvec and @."""

	def __init__(self, M, sites, site="op", dtype=None, reuse=False, log=None):
		self._o = SimOp(M, sites, site, dtype, reuse, log)
		self.shape, self.dtype, self.log = self._o.shape, self._o.dtype, self._o.log

	def matvec(self, x):
		return self._o._apply(x, self._o.M)

	def __matmul__(self, X):
		return self._o._apply(X, self._o.M)

	def columns(self):
		return self._o.columns()


class QuadOp(DuckOp):
	"""An operator that evaluates quadratic forms itself."""

	def quad(self, V):
		V = np.asarray(V)
		V2 = V[:, None] if V.ndim == 1 else V
		Y = self._o._apply(V2, self._o.M)
		return np.einsum("ij,ij->j", V2, Y)


class NoDtypeOp(DuckOp):
	def __init__(self, *a, **k):
		super().__init__(*a, **k)
		del self.dtype

	def matvec(self, x):
		return super().matvec(x).astype(self._o.dtype, copy=False)

	def __matmul__(self, X):
		return super().__matmul__(X).astype(self._o.dtype, copy=False)


OPS = {"lin": SimOp, "duck": DuckOp, "quad": QuadOp, "nodtype": NoDtypeOp}
