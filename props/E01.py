"""E01: running statistics equal those of the concatenated samples, however they were batched."""
EXT = False
QUICK = (15000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from primate.estimators import MeanEstimator
from primate.stats import Covariance, Mean

L = np.longdouble
FORMS = ["array", "array", "list", "fortran", "view", "1d", "scalar", "f32", "int", "rows"]


def make_est(c):
	k, d = c["cls"], c["dim"]
	if k == "Mean":
		return Mean(dim=d)
	if k == "Covariance":
		return Covariance(dim=d)
	return MeanEstimator(dim=d, covariance=k == "MEcov", record=c["record"])


def gen_est(rng, classes=("Mean", "Covariance", "ME", "ME", "MEcov", "MEcov")):
	return {"cls": rng.choice(classes), "dim": rng.choice([1, 1, 1, 2, 3, 7]), "record": rng.random() < 0.5, "off": rng.choice([0.0, 0.0, 1.0, -3.0, 1e4, 1e7, -1e9]),
		"scale": rng.choice([1.0, 1.0, 1e-3, 1e-9, 1e-18, 1e5, 1e60]), "seed": rng.randrange(1 << 30)}


def batch_of(c, j, n, form):
	"""(what is passed to update, the samples it stands for in extended precision, is it single precision)"""
	g = np.random.default_rng([c["seed"], j])
	d = c["dim"]
	x = (c["off"] * (1.0 + np.arange(d)) + g.normal(size=(n, d)) * (1.0 + 0.5 * np.arange(d))) * c["scale"]
	if form == "f32" and c["scale"] * max(1.0, abs(c["off"])) < 1e30:
		x = x.astype(np.float32)
		return (x if d > 1 else x.ravel()), x.astype(L), True
	if form == "int" and c["scale"] == 1.0:
		x = np.rint(x * 3).astype(np.int64)
		return (x if d > 1 else x.ravel()), x.astype(L), False
	y = x
	if form == "list" and n > 0:
		y = x.tolist() if d > 1 else x.ravel().tolist()
	elif form == "rows" and n > 0:
		y = [r for r in x] if d > 1 else x.ravel()
	elif form == "fortran":
		y = np.asfortranarray(x)
	elif form == "view":
		big = np.full((2 * n + 1, 2 * d + 1), np.nan)
		y = big[1::2, 1::2][:n]
		y[...] = x
	elif form == "1d" and d == 1:
		y = x.ravel()
	elif form == "scalar" and d == 1 and n == 1:
		y = float(x[0, 0]) if j % 2 else np.float64(x[0, 0])
	return y, x.astype(L), False


class Model:
	"""The samples seen so far and what they say, in extended precision."""

	def __init__(self, c):
		self.c, self.parts, self.single = c, [], False
		self.mu = self.prev = None
		self.last_empty = False

	@property
	def n(self):
		return sum(len(p) for p in self.parts)

	def add(self, x, single):
		self.single |= single
		if len(x):
			self.parts.append(x)
			self.prev = self.mu
			self.mu = np.concatenate(self.parts).mean(axis=0)

	def all(self):
		return np.concatenate(self.parts) if self.parts else np.zeros((0, self.c["dim"]), dtype=L)

	def cov(self, ddof):
		X = self.all()
		Z = X - X.mean(axis=0)
		return (Z.T @ Z) / L(len(X) - ddof)

	def tol_mu(self):
		X = self.all()
		return 64 * (1.2e-7 if self.single else 2.3e-16) * float(np.max(np.abs(X)))

	def tol_cov(self):
		X = self.all()
		e = 64 * (1.2e-7 if self.single else 2.3e-16) * float(np.max(np.abs(X)))
		sd = float(np.max(X.std(axis=0)))
		return 1e-9 * sd * sd + 4 * e * sd + e * e


def check_est(est, c, m, what=""):
	d, n = c["dim"], m.n
	cls = c["cls"]
	where = lambda: f"{cls} dim={d} off={c['off']} scale={c['scale']} n={n} {what}"
	means = [lib("query-failed", est.mean)] if cls in ("Mean", "Covariance") else [lib("query-failed", lambda: est.estimate), lib("query-failed", lambda: est.mean)]
	if cls == "Mean":
		means.append(lib("query-failed", est))
	if cls in ("Mean", "Covariance"):
		check(est.n == n, "sample-count", lambda: f"{where()}: counts {est.n}")
	else:
		check(len(est) == n and est.n_samples == n, "sample-count", lambda: f"{where()}: counts {len(est)}, {est.n_samples}")
	for mu in means:
		if n == 0:
			if cls != "MEcov" and cls != "Covariance" or d == 1:
				check(np.all(np.isnan(mu)), "mean-without-samples", lambda: f"{where()}: {mu}")
			continue
		check(np.ndim(mu) == (0 if d == 1 else 1) and np.size(mu) == d, "mean-shape", lambda: f"{where()}: {mu!r}")
		err = np.max(np.abs(np.atleast_1d(mu).astype(L) - m.mu))
		check(err <= m.tol_mu(), "mean-differs", lambda: f"{where()}: mean {np.atleast_1d(mu)[:3]} but the samples have {m.mu[:3].astype(float)} (error {float(err):.3g}, tolerance {m.tol_mu():.3g})")
	cv = est if cls == "Covariance" else getattr(est, "_cov", None) if cls == "MEcov" else None
	if cv is not None:
		for ddof in (1, 0):
			C = lib("query-failed", cv, ddof)
			C2 = lib("query-failed", cv.covariance, ddof=ddof)
			if n - ddof <= 0:
				continue
			check(np.size(C) == d * d and same(C, C2, 0), "covariance-shape", lambda: f"{where()}: {C!r} vs {C2!r}")
			err = np.max(np.abs(np.asarray(C, dtype=L).reshape(d, d) - m.cov(ddof)))
			check(err <= m.tol_cov(), "covariance-differs", lambda: f"{where()} ddof={ddof}: error {float(err):.3g}, tolerance {m.tol_cov():.3g}; got {np.ravel(C)[:3]} expected {np.ravel(m.cov(ddof))[:3].astype(float)}")
	if cls in ("ME", "MEcov"):
		if c["record"]:
			X = m.all()
			check(len(est.values) == n, "record-length", lambda: f"{where()}: {len(est.values)} recorded")
			if n:
				V = np.array([np.ravel(v) for v in est.values]).astype(L).reshape(n, d)
				check(np.array_equal(V, X), "record-differs", lambda: f"{where()}: {diff(V.astype(float), X.astype(float))}")
		else:
			check(est.values is None or len(est.values) == 0, "recorded-unasked", where)
		if m.prev is not None:
			dl = np.asarray(est.delta, dtype=L).ravel()
			check(dl.size == d, "delta-shape", lambda: f"{where()}: {est.delta!r}")
			err = np.max(np.abs(dl - (m.mu - m.prev)))
			zero = m.last_empty and np.all(dl == 0)  # an empty batch: no change, or the change before it
			check(err <= 2 * m.tol_mu() or zero, "delta-differs", lambda: f"{where()}: last change {dl[:3].astype(float)} but the estimate moved by {(m.mu - m.prev)[:3].astype(float)}")


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		ne = rng.choice([1, 1, 2, 3])
		es = [gen_est(rng) for _ in range(ne)]
		if ne > 1 and rng.random() < 0.4:
			es[1] = dict(es[0], seed=es[0]["seed"] + 1)
		ops = [{"e": rng.randrange(ne), "n": rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 5, 17, 64]), "form": rng.choice(FORMS), "peek": rng.random() < 0.6} for _ in range(rng.randrange(1, 14))]
		if rng.random() < 0.15:  # a long history
			ops.insert(rng.randrange(len(ops)), {"e": ops[-1]["e"], "n": rng.choice([500, 1025, 3000, 10000]), "form": "array", "peek": rng.random() < 0.6})
		return {"cfg": {"kind": "+".join(sorted({e["cls"] for e in es})), "ests": es, "conc": ne > 1 and rng.random() < 0.6}, "ops": ops,
			"faults": gen_stalls(rng, list(range(1, ne + 1)), most=2, horizon=40) if ne > 1 else [], "sched": gen_sched(rng, victims=ne), "gran": "instr" if rng.random() < 0.05 else "line"}

	def run(self, plan, sim):
		es = plan["cfg"]["ests"]

		def client(k, ops):
			c = es[k]
			est, m = lib("construction-failed", make_est, c), Model(c)
			check_est(est, c, m, "before any update")
			for j, o in ops:
				y, x, single = batch_of(c, j, o["n"], o["form"])
				lib("update-failed", est.update, y)
				m.add(x, single)
				m.last_empty = len(x) == 0
				sim.event("update", k, o["n"])
				if o["peek"]:
					check_est(est, c, m, f"after update {j} with {o['n']} samples as {o['form']}")
			if m.n:
				check_est(est, c, m, "at the end")

		by = {}
		for j, o in enumerate(plan["ops"]):
			by.setdefault(o["e"], []).append((j, o))
		if plan["cfg"]["conc"] and len(by) > 1:
			run_clients(sim, [(lambda k=k, l=l: client(k, l)) for k, l in sorted(by.items())])
		elif len(by) > 1:  # interleaved in one thread
			st = {}
			for j, o in enumerate(plan["ops"]):
				k = o["e"]
				c = es[k]
				if k not in st:
					st[k] = (lib("construction-failed", make_est, c), Model(c))
				est, m = st[k]
				y, x, single = batch_of(c, j, o["n"], o["form"])
				lib("update-failed", est.update, y)
				m.add(x, single)
				m.last_empty = len(x) == 0
				for q, (e2, m2) in st.items():
					if o["peek"] or q == k:
						check_est(e2, es[q], m2, f"after update {j} of estimator {k}")
		else:
			for k, l in by.items():
				client(k, l)
