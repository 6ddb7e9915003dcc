"""E05: criteria are pure functions of the estimator's present state and compose as boolean logic."""
EXT = False
QUICK = (15000, 30)
THOROUGH = (3_000_000, 900)
import copy

import numpy as np
import scipy as sp
import scipy.stats

from sim.lib import *  # noqa
from primate.estimators import ConfidenceCriterion, ConvergenceCriterion, CountCriterion, KneeCriterion, MeanEstimator, ToleranceCriterion, convergence_criterion

from props.E02 import compare, snapshot


def gen_leaf(rng, rich, raising):
	k = rng.choice(["count", "count", "tol", "tol", "script"] + (["conf", "conf", "knee", "near"] if rich else ["near"]) + (["boom", "boom"] if raising else []))
	if k == "count":
		return {"k": k, "count": rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 31, 64]), "via": rng.random() < 0.4}
	if k == "tol":
		return {"k": k, "rtol": rng.choice([0.0, 0.01, 0.1, 0.5, 2.0]), "atol": rng.choice([0.0, 1.49e-8, 0.05, 0.5, 5.0]), "ord": rng.choice([2.0, 2.0, 1, "inf", None]), "via": rng.random() < 0.4}
	if k == "conf":
		return {"k": k, "confidence": rng.choice([0.5, 0.9, 0.95, 0.99]), "atol": rng.choice([0.0, None, 0.1, 1.0, 5.0]), "rtol": rng.choice([0.0, None, 1e-7, 1e-4, 0.01, 0.2]), "via": rng.random() < 0.4}
	if k == "knee":
		return {"k": k, "S": rng.choice([0.5, 1.0, 2.0])}
	if k == "near":  # a threshold close to what the state gives
		return {"k": k, "of": rng.choice(["conf-atol", "conf-rtol", "tol-atol", "tol-rtol"] if rich else ["tol-atol", "tol-rtol"]), "confidence": rng.choice([0.5, 0.9, 0.95, 0.99]), "ord": rng.choice([2.0, 1, "inf"]), "w": rng.choice([0.9, 0.999, 1.0, 1.001, 1.1, 0.25, 0.5, 0.75])}
	if k == "script":
		return {"k": k, "mod": rng.choice([2, 3, 5]), "below": rng.choice([1, 2])}
	return {"k": "boom"}


def gen_tree(rng, depth, rich, raising, earlier=0):
	if earlier and rng.random() < 0.3:
		return {"k": "ref", "t": rng.randrange(earlier)}
	if depth == 0 or rng.random() < 0.3:
		return gen_leaf(rng, rich, raising)
	op = rng.choice(["or", "or", "and", "and", "not"])
	if op == "not":
		return {"k": "not", "a": gen_tree(rng, depth - 1, rich, raising, earlier)}
	return {"k": op, "a": gen_tree(rng, depth - 1, rich, raising, earlier), "b": gen_tree(rng, depth - 1, rich, raising, earlier)}


def near(t, est):
	"""The leaf with a threshold at, just above or just below what this state gives; for margins, also between the normal and Student's quantile."""
	w = t["w"]
	if t["of"].startswith("conf"):
		x = np.array([float(np.ravel(v)[0]) for v in est.values])
		n = len(x)
		leaf = {"k": "conf", "confidence": t["confidence"], "atol": 0.0, "rtol": 0.0, "via": False}
		if n < 3:
			return dict(leaf, atol=1e9)
		se = float(np.std(x, ddof=1)) / n**0.5
		q = (t["confidence"] + 1.0) / 2.0
		zq, tq = sp.stats.norm.ppf(q), sp.stats.t.ppf(q, n + 1)
		if t["of"] == "conf-rtol":
			return dict(leaf, rtol=abs(se / np.mean(x)) * w)
		return dict(leaf, atol=se * (zq + w * (tq - zq) if w < 0.9 else (zq if n >= 31 else tq) * w))
	o = np.inf if t["ord"] == "inf" else t["ord"]
	leaf = {"k": "tol", "rtol": 0.0, "atol": 0.0, "ord": t["ord"], "via": False}
	err, nrm = np.linalg.norm(np.atleast_1d(est.delta), ord=o), np.linalg.norm(np.atleast_1d(est.estimate), ord=o)
	if not np.isfinite(err):
		return dict(leaf, atol=1.0)
	return dict(leaf, atol=float(err * w)) if t["of"] == "tol-atol" or not nrm > 0 else dict(leaf, rtol=float(err * w / nrm))


def leaf_criterion(t, sites):
	k = t["k"]
	if k == "count":
		return convergence_criterion("count", count=t["count"]) if t["via"] else CountCriterion(t["count"])
	if k == "tol":
		kw = dict(rtol=t["rtol"], atol=t["atol"], ord=np.inf if t["ord"] == "inf" else t["ord"])
		return convergence_criterion("tolerance", **kw) if t["via"] else ToleranceCriterion(**kw)
	if k == "conf":
		kw = dict(confidence=t["confidence"], atol=t["atol"], rtol=t["rtol"])
		return convergence_criterion("confidence", **kw) if t["via"] else ConfidenceCriterion(**kw)
	if k == "knee":
		return KneeCriterion(S=t["S"])
	if k == "near":
		return ConvergenceCriterion(lambda est: leaf_criterion(near(t, est), sites)(est))
	if k == "script":
		def script(est, m=t["mod"], b=t["below"]):
			v = len(est) % m < b
			if sites is not None and sites.sim is not None:
				sites.sim.yield_point("script")
			return v
		return ConvergenceCriterion(script)

	def boom(est):
		if sites is None:
			return False
		f = sites.hit("criterion")
		if f is not None:
			sites.throw(f, "criterion")
		return False
	return ConvergenceCriterion(boom)


def build(t, sites, built=()):
	if t["k"] == "ref":
		return built[t["t"]]
	if t["k"] == "not":
		return ~build(t["a"], sites, built)
	if t["k"] in ("or", "and"):
		a, b = build(t["a"], sites, built), build(t["b"], sites, built)
		return a | b if t["k"] == "or" else a & b
	return leaf_criterion(t, sites)


def expand(t, trees):
	if t["k"] == "ref":
		return expand(trees[t["t"]], trees)
	return {**t, **{s: expand(t[s], trees) for s in ("a", "b") if s in t}} if "a" in t and isinstance(t["a"], dict) else t


def leaf_value(t, est):
	"""What the leaf says on this very state: the documented formula, or a fresh criterion on a copy. None: too close to call."""
	if t["k"] == "near":
		with np.errstate(all="ignore"):
			t = near(t, est)
	if t["k"] == "count":
		return len(est) >= t["count"]
	if t["k"] == "tol":
		o = np.inf if t["ord"] == "inf" else t["ord"]
		err = np.linalg.norm(np.atleast_1d(est.delta), ord=o)
		nrm = np.linalg.norm(np.atleast_1d(est.estimate), ord=o)
		for lim in (t["atol"], t["rtol"] * nrm):
			if err == lim and (err == 0 or t["ord"] == "inf" and lim == t["atol"]):
				continue  # there is nothing to round: it is not below
			if np.isfinite(err) and np.isfinite(lim) and abs(err - lim) <= 1e-9 * max(abs(err), abs(lim)):
				return None
		return bool(err < t["atol"] or err < t["rtol"] * nrm)
	if t["k"] == "conf" and est.values is not None and len(est.values) == len(est):
		x = np.array([float(np.ravel(v)[0]) for v in est.values])
		n = len(x)
		if n < 3:
			return False
		se, mu = float(np.std(x, ddof=1)) / n**0.5, float(np.mean(x))
		if not se > 1e-9 * abs(mu):
			return None
		q = (t["confidence"] + 1.0) / 2.0
		# Student's t up to about thirty samples, then normal; by how many degrees of freedom is not ours to say
		scores = [sp.stats.t.ppf(q, df) for df in (n - 1, n, n + 1)] + ([sp.stats.norm.ppf(q)] if n >= 25 else [])
		rel, lo, hi = abs(se / mu), min(scores) * se, max(scores) * se
		t = dict(t, atol=t["atol"] or 0.0, rtol=t["rtol"] or 0.0)
		if hi <= t["atol"] * (1 - 1e-7) or rel <= t["rtol"] * (1 - 1e-7):
			return True
		return None if lo <= t["atol"] * (1 + 1e-7) or rel <= t["rtol"] * (1 + 1e-7) else False
	if t["k"] in ("conf", "knee"):
		with np.errstate(all="ignore"):
			return bool(lib("evaluation-failed", leaf_criterion(dict(t, via=False), None), copy.deepcopy(est)))
	if t["k"] == "script":
		return len(est) % t["mod"] < t["below"]
	return False


def value(t, est):
	if t["k"] == "not":
		a = value(t["a"], est)
		return None if a is None else not a
	if t["k"] in ("or", "and"):
		a, b = value(t["a"], est), value(t["b"], est)
		if t["k"] == "or":
			return True if a or b else None if a is None or b is None else False
		return False if a is False or b is False else None if a is None or b is None else True
	return leaf_value(t, est)


def leaves(t):
	return leaves(t["a"]) + (leaves(t["b"]) if "b" in t else []) if "a" in t else [t]


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		nc = rng.choice([1, 1, 2, 3])
		rich = rng.random() < 0.6
		raising = rng.random() < 0.35
		es = [{"dim": 1 if rich else rng.choice([1, 1, 3]), "cov": True if rich else rng.random() < 0.4, "record": True if rich else rng.random() < 0.5, "off": rng.choice([0.0, 1.0, 50.0, 1e5]), "flat": rng.random() < 0.15,
			"decay": rng.choice([1.0, 1.0, 0.8, 0.5]), "seed": rng.randrange(1 << 30), "c": rng.randrange(nc)} for _ in range(max(nc, rng.choice([1, 2, 3])))]
		for c in range(nc):
			es[c]["c"] = c
		trees = [gen_tree(rng, rng.choice([0, 1, 1, 2, 2, 3]), rich, raising, i) for i in range(rng.choice([1, 2, 3, 4, 5]))]  # later ones may have earlier ones as parts
		ops = []
		for _ in range(rng.randrange(3, 24)):
			e = rng.randrange(len(es))
			k = rng.choice(["update", "eval", "eval", "eval", "message"])
			o = {"op": k, "e": e}
			o.update({"n": rng.choice([1, 1, 1, 2, 5, 17] + [180, 1100] * (rng.random() < 0.1) + [28, 29, 30] * (rng.random() < 0.15))} if k == "update" else {"t": rng.randrange(len(trees))})
			if k == "update" and rng.random() < 0.12:
				o["jolt"] = True
			ops.append(o)
		nb = sum(1 for o in ops if o["op"] == "eval")
		faults = [{"kind": "call", "site": "criterion", "n": rng.randrange(1, max(2, nb)), "exc": rng.choice(EXC_NAMES), "torn": True} for _ in range(rng.randrange(1, 4))] if raising else []
		return {"cfg": {"kind": ("rich" if rich else "basic") + ("+raising" if raising else ""), "ests": es, "trees": trees, "nc": nc}, "ops": ops,
			"faults": faults + gen_stalls(rng, list(range(1, nc + 1)), most=1, horizon=60), "sched": gen_sched(rng, victims=nc), "gran": "instr" if rng.random() < 0.1 else "line"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		sites = Sites(sim, plan)
		trees = cfg["trees"]
		crits = []
		for t in trees:
			crits.append(lib("construction-failed", build, t, sites, crits))
		trees = [expand(t, trees) for t in trees]

		def client(c):
			ests = {}
			count = {}
			for j, o in enumerate(plan["ops"]):
				ec = cfg["ests"][o["e"]]
				if ec["c"] != c:
					continue
				est = ests.get(o["e"])
				if est is None:
					est = ests[o["e"]] = MeanEstimator(dim=ec["dim"], covariance=ec["cov"], record=ec["record"])
				if o["op"] == "update":
					g = np.random.default_rng([ec["seed"], j])
					d = ec["decay"] ** len(est)
					if o.get("jolt"):  # what had converged no longer has
						d = 1e3 * (1.0 + abs(ec["off"]))
					est.update(ec["off"] + d * (not ec["flat"] or "jolt" in o) * g.normal(size=(o["n"], ec["dim"])))
					continue
				t, crit = trees[o["t"]], crits[o["t"]]
				before = snapshot(est)
				err = got = None
				r0 = sim.me()
				with np.errstate(all="ignore"):
					try:
						mine0 = len([e for e in sites.raised if e.who == r0.tid]) if sites.raised else 0
						got = crit(est) if o["op"] == "eval" else crit.message(est)
					except (Violation, SimAbort, HarnessError):
						raise
					except BaseException as e:
						err = e
				if sim.failure is not None:
					raise sim.failure
				mine = [e for e in sites.raised if e.who == r0.tid][mine0:]
				what = lambda: f"{o['op']} {j} of criterion {t} on estimator {o['e']} with {len(est)} samples"
				if err is not None:
					check(any(root(err) is e for e in mine) or is_injected(err), "evaluation-failed", lambda: f"{what()}: {type(err).__name__}: {err}")
					sim.probe("error-reached-caller")
				elif mine:
					raise Violation("error-swallowed", f"{what()}: a part raised {type(mine[0]).__name__} but the answer was {got!r}")
				w = compare(before, snapshot(est))
				check(w is None, "evaluation-changed-the-estimator", lambda: f"{what()}: {w}")
				if err is None and o["op"] == "eval":
					check(got is not None and not isinstance(got, (str, tuple)) and np.size(got) == 1, "not-a-boolean", lambda: f"{what()}: {got!r}")
					want = value(t, est)
					sim.event("eval", c, o["t"], bool(got))
					if want is not None:
						check(bool(got) == want, "not-the-boolean-combination" if len(leaves(t)) > 1 or "a" in t else "not-a-function-of-the-state", lambda: f"{what()}: answered {got}, should be {want}; parts: {[(l, leaf_value(l, est)) for l in leaves(t)]}")
						sim.probe(f"answer:{want}")
				elif err is None:
					check(isinstance(got, str), "message-is-not-text", lambda: f"{what()}: {got!r}")
				if err is not None:
					scrub(err)

		if cfg["nc"] > 1:
			run_clients(sim, [(lambda c=c: client(c)) for c in range(cfg["nc"])])
		else:
			client(0)
