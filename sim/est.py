"""What the trace and diagonal scenarios share: stopping criteria, user samplers, reference estimators."""
import numpy as np

from .lib import *  # noqa
from primate.estimators import ConfidenceCriterion, ConvergenceCriterion, CountCriterion, KneeCriterion, MeanEstimator, ToleranceCriterion, convergence_criterion

PDF_NAMES = ["rademacher", "normal", "sphere", "signs", "gaussian"]


class PredCriterion(ConvergenceCriterion):
	"""A user's own criterion: a pure function of the estimator's count and estimate.  Calls are logged and may be made to fail."""

	def __init__(self, pred, sites=None, site="criterion"):
		self.pred, self.sites, self.site, self.calls = pred, sites, site, []

	def __call__(self, est):
		if self.sites is not None:
			self.sites.hit(self.site)
		r = bool(self.pred(len(est), est))
		self.calls.append((len(est), r))
		return r


def gen_criterion(rng, cap, n=8, scale=1.0):
	"""Criterion spec.  Every one holds at the latest when `cap` samples have arrived (so runs end)."""
	k = rng.choice(["count", "count", "countstr", "set", "set", "pred", "tol", "tolstr", "conf", "confstr", "knee", "and", "not", "never", "false-then"])
	c = {"k": k, "cap": cap}
	if k in ("count", "countstr"):
		c["count"] = rng.choice([0, 1, 1, 2, 3, rng.randrange(1, cap + 1), cap, cap + 1, 2 * cap])
	elif k == "set":
		c["set"] = sorted(rng.sample(range(0, cap + 1), min(cap + 1, rng.randrange(1, 5))))
	elif k == "pred":
		c["q"] = rng.choice([0.2, 0.5, 0.8])
	elif k in ("tol", "tolstr"):
		c.update(rtol=rng.choice([0.0, 1e-3, 0.05, 0.3]), atol=rng.choice([0.0, 1e-6, 0.05, 0.5]))
		if k == "tolstr":
			c.update(rtol=rng.choice([0.05, 0.2, 0.5]), atol=rng.choice([0.05, 0.5]) * n)
	elif k in ("conf", "confstr"):
		c.update(confidence=rng.choice([0.5, 0.9, 0.95, 0.99]), atol=rng.choice([0.1, 1.0, 3.0]) * n**0.5, rtol=rng.choice([0.0, 0.01, 0.2]))
		if k == "confstr":
			c["atol"] = rng.choice([0.7, 1.5, 3.0]) * n**0.5
	elif k == "knee":
		c["S"] = rng.choice([0.5, 1.0, 3.0])
	elif k == "and":
		c.update(a=rng.randrange(0, cap + 1), b=rng.randrange(0, cap + 1))
	elif k == "not":
		c["a"] = rng.randrange(1, cap + 1)
	elif k == "false-then":
		c["a"] = rng.randrange(1, 4)
	if "atol" in c:
		c["atol"] *= scale
	return c


def criterion(c, sites=None, site="criterion"):
	"""(what is passed as converge, extra keyword arguments)"""
	k, cap = c["k"], c["cap"]
	if k == "count":
		return CountCriterion(count=c["count"]), {}
	if k == "countstr":
		return "count", {"count": c["count"]}
	if k == "set":
		S = set(c["set"])
		return PredCriterion(lambda n, e: n in S or n >= cap, sites, site), {}
	if k == "pred":  # depends on the data
		return PredCriterion(lambda n, e: n >= cap or (n > 0 and (abs(float(np.sum(e.estimate))) * 1e3) % 1.0 < c["q"]), sites, site), {}
	if k == "tol":
		return ToleranceCriterion(rtol=c["rtol"], atol=c["atol"]) | CountCriterion(cap), {}
	if k == "tolstr":
		return "tolerance", {"rtol": c["rtol"], "atol": c["atol"]}
	if k == "conf":
		return CountCriterion(cap) | ConfidenceCriterion(confidence=c["confidence"], atol=c["atol"], rtol=c["rtol"]), {}
	if k == "confstr":
		return "confidence", {"confidence": c["confidence"], "atol": c["atol"], "rtol": c["rtol"]}
	if k == "knee":
		return KneeCriterion(S=c["S"]) | CountCriterion(cap), {}
	if k == "and":
		return (CountCriterion(c["a"]) & CountCriterion(c["b"])) | CountCriterion(cap), {}
	if k == "not":
		return ~PredCriterion(lambda n, e: n < min(c["a"], cap), sites, site), {}
	if k == "never":
		return PredCriterion(lambda n, e: n >= cap, sites, site), {}
	if k == "false-then":
		return PredCriterion(lambda n, e: n >= min(cap, c["a"]), sites, site), {}
	raise HarnessError(k)


def answer(c, n, est_of, slack=1e-6):
	"""Does the criterion hold on n samples?  est_of() builds an estimator holding them.  None: too close to call."""
	k, cap = c["k"], c["cap"]
	if k in ("count", "countstr"):
		return n >= c["count"]
	if k in ("set", "and", "not", "never", "false-then"):
		if k == "set":
			return n in c["set"] or n >= cap
		if k == "and":
			return n >= max(c["a"], c["b"]) or n >= cap
		return n >= min(cap, c.get("a", cap))
	if n >= cap and k not in ("tolstr", "confstr"):
		return True
	if n == 0:
		return False
	e = est_of()
	if k == "pred":
		x = (abs(float(np.sum(e.estimate))) * 1e3) % 1.0
		if min(abs(x - c["q"]), x, 1 - x) < 1e-3 * max(1.0, abs(float(np.sum(e.estimate)))) * slack / 1e-6:
			return None
		return x < c["q"]
	out = set()
	for s in (1 - slack, 1 + slack):
		d = dict(c)
		for q in ("rtol", "atol"):
			if q in d:
				d[q] = d[q] * s
		if k in ("tol", "tolstr"):
			out.add(bool(ToleranceCriterion(rtol=d["rtol"], atol=d["atol"])(e)))
		elif k in ("conf", "confstr"):
			out.add(bool(ConfidenceCriterion(confidence=d["confidence"], atol=d["atol"], rtol=d["rtol"])(e)))
		elif k == "knee":
			return None
	return out.pop() if len(out) == 1 else None


class UserPdf:
	"""A user's sampler: hands out columns of its own seeded stream, possibly always in the same buffer."""

	def __init__(self, spec, sites=None, site="pdf"):
		self.g = np.random.default_rng(spec["seed"])
		self.spec, self.sites, self.site, self.given, self.buf, self.kept = spec, sites, site, [], {}, []

	def __call__(self, size):
		size = (size, 1) if np.ndim(size) == 0 else tuple(size)
		f = self.sites.hit(self.site) if self.sites is not None else None
		V = self.g.normal(size=size) if self.spec["dist"] == "normal" else self.g.choice([-1.0, 1.0], size=size) if self.spec["dist"] == "signs" else self.g.uniform(-1.7, 1.7, size=size)
		if self.spec["form"] == "f32":
			V = V.astype(np.float32)
		if self.spec["form"] == "int":  # as signs often are
			V = np.rint(V * (1 if self.spec["dist"] == "signs" else 3)).astype(np.int64)
			V[V == 0] = 1
		if self.spec["form"] == "fortran":
			V = np.asfortranarray(V)
		if f is not None and f.get("torn"):
			self.sites.throw(f, self.site)
		self.given.extend(np.array(V[:, j], dtype=np.float64) for j in range(V.shape[1]))
		if self.spec["form"] == "reuse":
			b = self.buf.setdefault(size, np.empty(size))
			self.intact()
			b[...] = V
			self.kept = [k for k in self.kept if k[0] is not b]
			self.kept.append((b, V))
			return b
		if self.spec["form"] == "kept":
			self.kept.append((V, V.copy()))
		return V

	def intact(self, what=""):
		"""What the sampler handed out and still has is as it left it."""
		for V, V0 in self.kept:
			check(np.array_equal(V, V0), "sampler-array-modified", lambda: f"{what}: an array that the sampler {self.spec} returned and still holds was changed: {diff(V, V0)}")


def gen_userpdf(rng):
	return {"dist": rng.choice(["normal", "signs", "uniform"]), "form": rng.choice(["fresh", "reuse", "reuse", "kept", "fortran", "f32", "int"]), "seed": rng.randrange(1 << 30)}


def mk_seed(via, seed):
	if via == "gen":
		return np.random.default_rng(seed)
	if via == "seq":
		return np.random.SeedSequence(seed)
	if via == "np":
		return np.int64(seed)
	return seed


def sketch_bases(A, W):
	"""Orthonormal bases of what the images of all vectors but the i-th span, for every i, and how well they are determined.

	The second answer is inf where it is unclear what is rounding error: if a singular value of the images, or of all but
	one of them, is neither negligible nor well away from it.
	"""
	n, m = W.shape
	Y = A @ W
	norms = np.linalg.norm(Y, axis=0)
	floor = np.abs(A).sum(axis=1).max(initial=0.0) * np.linalg.norm(W, axis=0).max(initial=0.0)
	if np.any((norms > 0) & (norms < 1e-6 * floor)):
		return None, np.inf
	with np.errstate(all="ignore"):
		cond = np.linalg.cond(Y) if m <= n else np.inf
	if cond < 1e6:
		return [np.linalg.qr(np.delete(Y, i, axis=1))[0] if m > 1 else np.zeros((n, 0)) for i in range(m)], cond
	Y = Y / np.where(norms > 0, norms, 1.0)
	out, cond = [], 1.0
	for i in range(m + 1):
		X = np.delete(Y, i, axis=1) if i < m else Y
		U, s, _ = np.linalg.svd(X, full_matrices=False)
		if not np.all(np.isfinite(s)) or np.any((s > 1e-13 * n) & (s < 3e-3)):
			return None, np.inf
		r = int((s > 3e-3).sum())
		cond = max(cond, s[0] / s[r - 1]) if r else cond
		out.append(U[:, :r])
	live = norms[norms > 0]
	return out[:m], cond * (live.max() / live.min() if len(live) else 1.0)


def loo_trace(A, W, sphere):
	"""The exchangeable estimate by its definition, its condition number (inf: undetermined), and the least residual."""
	n, m = W.shape
	bases, cond = sketch_bases(A, W)
	if bases is None:
		return None, np.inf, 0.0
	t, uu = [], 1.0
	for i, Q in enumerate(bases):
		w = W[:, i]
		u = w - Q @ (Q.T @ w)
		left = n - Q.shape[1]
		if sphere and left:
			uu = min(uu, float(u @ u))
		s = (left / (u @ u) if left else 0.0) if sphere else 1.0
		t.append(np.trace(Q.T @ A @ Q) + s * (u @ (A @ u)))
	return np.array(t), cond, uu


def loo_diag(A, W):
	n, m = W.shape
	Y = A @ W
	bases, cond = sketch_bases(A, W)
	if bases is None:
		return None, np.inf
	D = []
	for i, Q in enumerate(bases):
		D.append(np.einsum("ij,ij->i", Q, A.T @ Q) + W[:, i] * (Y[:, i] - Q @ (Q.T @ Y[:, i])))
	return np.mean(D, axis=0), cond
