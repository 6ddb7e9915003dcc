"""T03: callbacks see a consistent, current result after each batch, and neither they nor recording change the run."""
QUICK = (8000, 30)
THOROUGH = (3_000_000, 900)
import copy

import numpy as np

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.diagonal import diag
from primate.estimators import CountCriterion, EstimatorResult
from primate.operators import MatrixFunction
from primate.random import isotropic
from primate.trace import hutch, xtrace

FNS = {"hutch": hutch, "diag": diag, "xtrace": xtrace}
HABITS = ["reenter", "reenter-same", "deepcopy", "slow", "message", "global", "draw", "scribble"]


def gen_call(rng, fn, n):
	cap = rng.choice([2, 3, 6, 12])
	o = {"fn": fn, "seed": rng.randrange(1 << 30), "pdf": rng.choice(PDF_NAMES), "batch": rng.choice([1, 1, 2, 3, 5, 8]), "full": rng.random() < 0.75, "record": rng.random() < 0.5,
		"conv": gen_criterion(rng, cap, n), "ret": rng.choice([None, None, True, False, 1, "stop", "result"]), "habits": sorted(rng.sample(HABITS, rng.choice([0, 1, 1, 2, 3])))}
	while o["conv"]["k"] in ("tolstr", "confstr", "knee") or (fn == "diag" and o["conv"]["k"] in ("conf",)):
		o["conv"] = gen_criterion(rng, cap, n)
	if fn == "xtrace":
		o["pdf"] = rng.choice(["sphere", "normal", "gaussian", "sphere"])
	if fn != "diag" and rng.random() < 0.2:
		o["pdf"] = dict(gen_userpdf(rng), dist="normal")
	return o


def mk_op(c, sites):
	M = sym_matrix(c["n"], c["seed"], signs=False, reuse=c["reuse"])
	op = OPS[c["k"]](M, sites, reuse=c["reuse"])
	return op, M


def invoke(fn, op, o, conv, kw, cb, full, record):
	pdf = UserPdf(o["pdf"]) if isinstance(o["pdf"], dict) else o["pdf"]
	a = {} if fn == "diag" else {"batch": o["batch"]}
	return FNS[fn](op, pdf=pdf, converge=conv, seed=o["seed"], full=full, callback=cb, record=record, **a, **kw)


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		fn = rng.choice(["hutch", "hutch", "diag", "xtrace"])
		c = {"n": gen_size(rng, [1, 2, 3, 4, 6, 10], (40, 70)), "seed": rng.randrange(1 << 30), "k": rng.choice(["lin", "duck", "quad", "nodtype"]) if fn == "hutch" else rng.choice(["lin", "duck"]), "reuse": gen_reuse(rng, 0.3)}
		o = gen_call(rng, fn, c["n"])
		faults = [{"kind": "call", "site": rng.choice(["op", "callback"]), "n": rng.randrange(1, 10), "delay": rng.choice([0.01, 5.0, 3600.0])} for _ in range(rng.choice([0, 0, 1, 2]))]
		return {"cfg": {"kind": f"{fn}/{c['k']}", "op": c}, "ops": [o], "faults": faults, "gran": "off"}

	def run(self, plan, sim):
		c, (o,) = plan["cfg"]["op"], plan["ops"]
		fn, n, b = o["fn"], c["n"], (1 if o["fn"] == "diag" else o["batch"])
		what = lambda: f"{o} on {c}"

		def solo():  # the same without callback and recording
			sim.active = False
			op, _ = mk_op(c, None)
			conv, kw = criterion(o["conv"])
			with np.errstate(all="ignore"):
				e, r = invoke(fn, op, o, conv, kw, None, True, False)
			return np.array(e), int(r.nit), int(len(r.estimator)), [X for X, _ in op.log]

		ref = pristine(solo)
		sites = Sites(sim, plan)
		op, A = mk_op(c, sites)
		conv, kw = criterion(o["conv"], None)
		seen, answers, held, napps = [], [], [], []

		def mean_of_log():
			if fn == "hutch":
				xs, ys = [], []
				for X, Y in op.log:
					if np.any(X):
						xs.append(X), ys.append(Y)
				q = np.concatenate([np.einsum("ij,ij->j", X, Y) for X, Y in zip(xs, ys)])
				return np.array(q.mean()), np.abs(q).max(), q
			nu, de, rs = np.zeros(n), np.zeros(n), []
			for X, Y in op.log:
				x, y = X[:, 0], Y[:, 0]
				nu, de = nu + x * y, de + x * x
				rs.append(nu / de)
			return np.mean(rs, axis=0), np.abs(rs).max(), np.array(rs)

		def cb(r):
			sites.hit("callback")
			i = len(seen) + 1
			check(isinstance(r, EstimatorResult), "callback-argument", lambda: f"{what()}: callback got {type(r)}")
			k = min(i * b, n) if fn == "xtrace" else i * b
			e = r.estimator
			check(e is not None and len(e) == k and r.nit == k, "callback-count", lambda: f"{what()}: at callback {i} nit={r.nit}, the estimator counts {None if e is None else len(e)}, drawn so far {k}")
			check(np.array_equal(np.asarray(r.estimate), np.asarray(e.estimate), equal_nan=True), "callback-estimate", lambda: f"{what()}: at callback {i} result.estimate is {r.estimate} but the estimator's is {e.estimate}")
			if fn != "xtrace":
				m, mag, q = mean_of_log()
				check(same(np.ravel(r.estimate), np.ravel(m), 1e-9, 1e-9 * mag), "callback-stale", lambda: f"{what()}: at callback {i} the estimate is {r.estimate}, but the samples so far give {m}")
			if o["record"]:
				V = np.array([np.ravel(v) for v in e.values])
				check(len(V) == k, "callback-record", lambda: f"{what()}: at callback {i} {len(V)} of {k} samples are recorded")
				check(same(V.mean(axis=0), np.ravel(r.estimate), 1e-9, 1e-9 * np.abs(V).max()), "callback-record", lambda: f"{what()}: at callback {i} the recorded samples do not average to the estimate")
				if fn != "xtrace":
					check(same(V if fn == "diag" else V[:, 0], q, 1e-9, 1e-9 * mag), "callback-record", lambda: f"{what()}: at callback {i} the recorded samples are not those drawn")
			check(callable(r.criterion), "callback-criterion", lambda: f"{what()}: at callback {i} the criterion is {r.criterion!r}")
			answers.append(bool(r.criterion(e)))
			seen.append(k)
			held.append((np.array(r.estimate), r.estimate))
			self.habit(sim, o, c, op, r, conv, kw)
			check(r.estimator is e and r.nit == k and len(e) == k, "result-overwritten", lambda: f"{what()}: after what callback {i} did on its own, the result counts {r.nit} and its estimator {len(r.estimator)}, not {k}")
			napps.append(len(op.log))
			return r if o["ret"] == "result" else o["ret"]  # what a callback returns is nobody's business

		with np.errstate(all="ignore"):
			res = lib("estimation-failed", invoke, fn, op, o, conv, kw, cb, o["full"], o["record"])
		tup = isinstance(res, tuple)
		check(tup or not o["full"], "no-result", lambda: f"{what()}: full=True returned {res!r}")
		est = res[0] if tup else res
		k = seen[-1] if seen else 0
		sim.event("done", fn, k, len(seen))
		check(answers == [False] * (len(answers) - 1) + [True] * bool(answers), "criterion-answers", lambda: f"{what()}: the result's criterion said {answers} after each batch")
		check(all(a < b for a, b in zip([0] + napps, napps)), "callback-late", lambda: f"{what()}: the operator had been applied {napps} times at the callbacks")
		xs = [X for X, _ in op.log]
		check(len(xs) == len(ref[3]) and all(same(x, y, 1e-9) for x, y in zip(xs, ref[3])), "vectors-differ", lambda: f"{what()}: with a callback the operator is applied {len(xs)} times, without {len(ref[3])} times, or to other vectors")
		check(k == ref[1] == ref[2], "count-differs", lambda: f"{what()}: callbacks saw {seen}, without callback: nit={ref[1]}, {ref[2]} samples")
		check(same(np.ravel(est), np.ravel(ref[0]), 1e-9), "estimate-differs", lambda: f"{what()}: {est} with callback and record={o['record']}, {ref[0]} without")
		if tup:
			r = res[1]
			check(np.array_equal(np.asarray(r.estimate), np.asarray(est), equal_nan=True), "final-result", lambda: f"{what()}: returned {est} but result.estimate is {r.estimate}")
			if k or fn != "xtrace":
				check(np.array_equal(np.asarray(r.estimator.estimate), np.asarray(est), equal_nan=True), "final-result", lambda: f"{what()}: returned {est} but the estimator's estimate is {r.estimator.estimate}")
				check(r.nit == len(r.estimator) == k, "final-result", lambda: f"{what()}: nit={r.nit}, {len(r.estimator)} samples, drawn {k}")
				check(bool(r.criterion(r.estimator)), "final-result", lambda: f"{what()}: the criterion does not hold for the result returned")
			vals = r.estimator.values
			check((vals is not None and len(vals) == k) if o["record"] else not vals, "final-record", lambda: f"{what()}: record={o['record']} but values is {vals!r}")
		for a, live in held:
			if "scribble" not in o["habits"]:
				check(np.array_equal(a, np.asarray(live), equal_nan=True), "held-changed", lambda: f"{what()}: an estimate seen by a callback changed later")
		sim.probe(f"callbacks:{min(len(seen), 4)}")

	def habit(self, sim, o, c, op, r, conv, kw):
		for h in o["habits"]:
			sim.probe("habit:" + h)
			if h.startswith("reenter"):
				keep = list(op.log)
				cv = conv if h == "reenter-same" and o["conv"]["k"] != "pred" else CountCriterion(3)
				for f in FNS:
					if o["conv"]["k"] == "conf" and f == "diag":
						continue
					if f == "xtrace" and c["k"] in ("nodtype", "quad"):
						continue
					try:
						with quiet(sim):
							form = (o["seed"] >> 3) % 4
							FNS[f](op, pdf="normal", converge=cv, seed=3, full=form != 1, callback=None if form == 2 else (lambda q: None), record=form != 3, **(kw if cv is conv else {}))
					except np.linalg.LinAlgError:
						pass
				op.log[:] = keep
			elif h == "deepcopy":
				d = copy.deepcopy(EstimatorResult(estimator=r.estimator, estimate=r.estimate, nit=r.nit))
				d.estimator.update(np.full((3, len(np.ravel(d.estimate))), 1e9))
				d.estimate, d.nit = None, -1
				d.estimator = None
			elif h == "slow":
				sim.sleep(30.0)
			elif h == "message":
				with np.errstate(all="ignore"):
					r.criterion.message(r.estimator)
			elif h == "global":
				np.random.seed(len(op.log))
				np.random.normal(size=5)
			elif h == "draw":
				isotropic((4, 2), "normal", seed=o["seed"])
			elif h == "scribble" and isinstance(r.estimate, np.ndarray):
				r.estimate[...] = 1e30
				a = r.estimator.estimate
				a[...] = -1e30
