"""E02: a rejected update leaves the estimator as it was, and the stream continues as though it had not been attempted."""
EXT = False
QUICK = (15000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from primate.estimators import ControlVariableEstimator

from props.E01 import FORMS, batch_of, gen_est, make_est

# must: the samples are malformed beyond doubt; may: if it is rejected, it must leave no trace
MUST = ["late", "late", "wrongdim", "wrongdim", "strings", "source", "source", "source", "objects"]
MAY = ["none", "generator", "ragged", "3d", "complex", "dict"]


class Source:
	"""A party that hands out its samples when numpy asks for them, and may fail in the middle of that."""

	def __init__(self, x, sites):
		self.x, self.sites, self.failed = x, sites, False

	def __array__(self, dtype=None, copy=None):
		f = self.sites.hit("source")
		if f is not None:
			self.failed = True
			self.sites.throw(f, "source")
		return np.array(self.x, dtype=dtype)


def bad_batch(c, j, o, sites):
	y, x, _ = batch_of(c, j, max(1, o["n"]), "array")
	d, how = x.shape[1], o["bad"]
	x = np.asarray(x, dtype=float)
	if how == "wrongdim":
		k = d + o["w"] if o["w"] else (d - 1 if d > 2 else d + 2)
		return np.tile(x[:, :1], (1, k)) if j % 3 or d == 1 else np.ravel(np.tile(x[:, :1], (2, 1)))
	if how == "late":  # the last of many rows
		m = [3, 12, 40, 130, 1100][(j + o["w"]) % 5]
		rows = np.resize(x, (m, d)).tolist()
		if d == 1 and o["w"] % 2:
			rows = [r[0] for r in rows] + [["x", None, [1.0, 2.0]][o["w"] % 3]]
		else:
			rows.append([["x"] * d, [1.0] * (d + 1), [None] * d][j % 3])
		return rows if o["w"] < 2 else tuple(rows)
	if how == "strings":
		return x.astype(str) if j % 2 else [["a"] * d] * len(x)
	if how == "source":
		return Source(x, sites)
	if how == "objects":
		return np.array([[object()] * d] * len(x), dtype=object)
	if how == "generator":
		return (r for r in x)
	if how == "none":
		return None
	if how == "ragged":
		return [[1.0] * d, [1.0] * (d + 1)]
	if how == "3d":
		return np.tile(x[:, :, None], (1, 1, 2))
	if how == "complex":
		return x * (1 + 1j)
	return {"a": 1.0}


def snapshot(est):
	s = {}
	for a in ("n", "n_samples", "mu", "S", "alpha", "delta"):
		if hasattr(est, a):
			s[a] = np.array(getattr(est, a), dtype=object if getattr(est, a) is None else None)
	for a in ("estimate", "mean"):
		if hasattr(est, a):
			v = getattr(est, a)
			s[a + "()"] = np.array(v() if callable(v) else v)
	if hasattr(est, "__len__"):
		s["len"] = np.array(len(est))
	for a in ("_mean", "_cov", "cov"):
		k = getattr(est, a, None)
		if k is not None and hasattr(k, "mu"):
			s.update({a + "." + b: v for b, v in snapshot(k).items()})
	if hasattr(est, "covariance") and callable(est.covariance):
		s["covariance"] = np.array(est.covariance())
	v = getattr(est, "values", None)
	if v is not None:
		s["values"] = np.array([np.ravel(np.asarray(x)) for x in v])
	return s


def compare(a, b):
	for k in sorted(set(a) | set(b)):
		if k not in a or k not in b:
			return f"{k} appeared or vanished"
		x, y = a[k], b[k]
		if x.shape != y.shape or not (x.tobytes() == y.tobytes() if x.dtype != object else list(x.ravel()) == list(y.ravel())):
			return f"{k}: {np.ravel(x)[:4]} became {np.ravel(y)[:4]}"
	return None


def build(c):
	if c["cls"] == "CV":
		g = np.random.default_rng([c["seed"], 77])
		return ControlVariableEstimator(ecv=g.normal(size=c["dim"] - 1), alpha=g.normal(size=c["dim"] - 1) if c["alpha"] else None, record=c["record"])
	return make_est(c)


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		ne = rng.choice([1, 1, 2])
		es = []
		for _ in range(ne):
			c = gen_est(rng, ("Mean", "Covariance", "ME", "MEcov", "MEcov", "CV"))
			if c["cls"] == "CV":
				c.update(dim=rng.choice([2, 2, 3, 4]), alpha=rng.random() < 0.5, scale=1.0, off=0.0)
			es.append(c)
		ops = []
		for _ in range(rng.randrange(2, 12)):
			o = {"e": rng.randrange(ne), "n": rng.choice([1, 1, 2, 3, 5, 17])}
			if rng.random() < 0.5:
				o.update(bad=rng.choice(MUST + MAY), w=rng.choice([0, 1, 2, 5]))
				if o["bad"] == "source":
					o["exc"] = rng.choice([e for e in EXC_NAMES if e != "StopIteration"])
			else:
				o["form"] = rng.choice(FORMS + ["source"])
			ops.append(o)
		# the n-th conversion fails, in the order the schedule makes them happen
		nsrc = sum(1 for o in ops if o.get("bad") == "source" or o.get("form") == "source")
		faults = [{"kind": "call", "site": "source", "n": rng.randrange(1, nsrc + 1), "exc": rng.choice(EXC_NAMES), "torn": True} for _ in range(rng.randrange(0, 4) if nsrc else 0)]
		return {"cfg": {"kind": "+".join(sorted({e["cls"] for e in es})), "ests": es, "conc": ne > 1}, "ops": ops, "faults": faults, "sched": gen_sched(rng, victims=ne)}

	def run(self, plan, sim):
		es = plan["cfg"]["ests"]
		sites = Sites(sim, plan)
	
		def client(k):
			c = es[k]
			est = lib("construction-failed", build, c)
			good = []
			for j, o in enumerate(plan["ops"]):
				if o["e"] != k:
					continue
				bad = o.get("bad")
				if bad and bad != "source":
					y = bad_batch(c, j, o, sites)
				else:
					y, x, _ = batch_of(c, j, o["n"], o.get("form", "array"))
					if bad == "source" or o.get("form") == "source":
						plain = np.array(x, dtype=float)
						y = Source(plain, sites)
				before = lib("query-failed", snapshot, est)
				err = None
				try:
					est.update(y)
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as e:
					err = e
				if sim.failure is not None:
					raise sim.failure
				if isinstance(y, Source):
					if err is None and y.failed:
						raise Violation("failure-swallowed", f"{c['cls']}: update {j} returned although its sample source raised")
				if err is not None:
					sim.event("rejected", k, type(err).__name__)
					sim.probe("rejected:" + (bad or "source"))
					if not bad or bad == "source":
						check(is_injected(err), "good-samples-rejected" if not is_injected(err) and not isinstance(y, Source) else "failure-disguised", lambda: f"{c['cls']} dim={c['dim']}: update {j} ({o}) raised {type(err).__name__}: {err}")
					scrub(err)
					w = compare(before, lib("query-failed", snapshot, est))
					check(w is None, "rejected-update-left-traces", lambda: f"{c['cls']} dim={c['dim']} record={c['record']}: rejected update {j} ({bad or 'failing source'}, {o['n']} samples): {w}")
				elif bad in MUST and bad != "source":
					raise Violation("malformed-accepted", f"{c['cls']} dim={c['dim']}: update {j} with {bad} {getattr(y, 'shape', '')} returned normally")
				elif bad and bad != "source":
					sim.probe("accepted:" + bad)
					return  # what it means is not specified
				else:
					good.append((j, o))
					sim.event("accepted", k)
			ref = lib("construction-failed", build, c)
			for j, o in good:
				y, x, _ = batch_of(c, j, o["n"], o.get("form", "array"))
				if o.get("bad") == "source" or o.get("form") == "source":
					y = np.array(x, dtype=float)
				lib("update-failed", ref.update, y)
			w = compare(lib("query-failed", snapshot, ref), lib("query-failed", snapshot, est))
			check(w is None, "stream-differs-after-rejection", lambda: f"{c['cls']} dim={c['dim']}: compared with an estimator that was given the {len(good)} good batches only: {w}")

		if plan["cfg"]["conc"]:
			run_clients(sim, [(lambda k=k: client(k)) for k in range(len(es))])
		else:
			client(0)
