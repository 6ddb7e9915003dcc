"""E06: a checkpoint of an estimator, result or operator restores exactly, in this or another process, and is independent of the original."""
QUICK = (12000, 30)
THOROUGH = (3_000_000, 900)
import copy
import pickle

import numpy as np

from sim import boot
from sim.lib import *  # noqa
from primate.diagonal import diag
from primate.estimators import ConfidenceCriterion, CountCriterion, EstimatorResult, KneeCriterion, ToleranceCriterion
from primate.operators import MatrixFunction, Toeplitz, normalize_unit
from primate.trace import hutch, hutchpp, xtrace

from props.E01 import FORMS, batch_of, gen_est
from props.E02 import build, snapshot

HOW = ["p3", "p2", "p4", "p5", "p5", "deep", "deep", "p5-5"]


def save(x, how):
	return copy.deepcopy(x) if how == "deep" else pickle.dumps(x, int(how[1]))


def load(b, how):
	return copy.deepcopy(b) if how == "deep" else pickle.loads(b) if how != "p5-5" else pickle.loads(pickle.dumps(pickle.loads(b), 5))


def close(a, b):
	for k in sorted(set(a) | set(b)):
		if k not in a or k not in b:
			return f"{k} appeared or vanished"
		x, y = a[k], b[k]
		if x.shape != y.shape:
			return f"{k}: {np.ravel(x)[:4]} became {np.ravel(y)[:4]}"
		if x.dtype == object or y.dtype == object:
			if not all(same(np.asarray(u, dtype=float), np.asarray(v, dtype=float), 1e-13) if u is not None and v is not None else u is v for u, v in zip(x.ravel(), y.ravel())):
				return f"{k}: {np.ravel(x)[:4]} became {np.ravel(y)[:4]}"
		elif not same(x, y, 1e-13):
			return f"{k}: {np.ravel(x)[:4]} became {np.ravel(y)[:4]}"
	return None


def gen_crit(rng):
	k = rng.choice(["count", "tol", "conf", "knee"])
	return {"k": k, "a": rng.choice([1, 4, 9, 20]), "r": rng.choice([0.5, 0.1, 0.01]), "c": rng.choice([0.5, 0.9, 0.95])}


def make_crit(c):
	return CountCriterion(c["a"]) if c["k"] == "count" else ToleranceCriterion(rtol=c["r"], atol=1e-6) if c["k"] == "tol" else ConfidenceCriterion(c["c"], atol=0.0, rtol=c["r"]) if c["k"] == "conf" else KneeCriterion(c["r"])


def ask(crit, est, c):
	"""The criterion's answer and message, where it applies."""
	if est.__class__.__name__ in ("Mean", "Covariance"):
		return None
	if c["k"] == "conf" and (est.__class__.__name__ == "ControlVariableEstimator" or np.ndim(est.estimate)):
		return None
	with np.errstate(all="ignore"):
		try:
			m = crit.message(est)
		except Exception as e:
			m = type(e).__name__  # not every estimator can be summarized
		try:
			return bool(np.all(crit(est))), m
		except Exception as e:
			return type(e).__name__, m


class EstWorld:
	"""An estimator and a criterion; a step is one more batch."""

	def __init__(self, c, crit):
		self.c, self.cc = c, crit
		self.x = (build(c), make_crit(crit))

	def step(self, x, j, o):
		y, _, _ = batch_of(self.c, j, o["n"], o["form"])
		with np.errstate(all="ignore"):
			x[0].update(y)

	def see(self, x):
		with np.errstate(all="ignore"):
			s = snapshot(x[0])
		a = ask(x[1], x[0], self.cc)
		return s, a

	def reapply(self, x, hist):
		"""A criterion that came with an estimator, asked about another one of the same length: what one made anew says."""
		y = (build(self.c), None)
		for j, o in hist:
			self.step(y, 5000 + j, o)
		a, b = ask(x[1], y[0], self.cc), ask(make_crit(self.cc), y[0], self.cc)
		return None if a == b else f"{a}, made anew {b}"

	def differ(self, a, b):
		return close(a[0], b[0]) or (None if a[1] == b[1] else f"criterion and message: {a[1]} became {b[1]}")


class ResWorld(EstWorld):
	"""The full result of an estimate, whose estimator is used further."""

	def __init__(self, c, crit):
		self.c, self.cc = c, crit
		A = np.diag(np.arange(1.0, 7.0)) + 0.25
		kw = {"seed": c["seed"], "full": True}
		with np.errstate(all="ignore"):
			f = c["fn"]
			if f == "hutch":
				r = hutch(A, converge=CountCriterion(crit["a"]), batch=c["batch"], record=c["record"], **kw)
			elif f == "diag":
				r = diag(A, converge=CountCriterion(crit["a"]), record=c["record"], **kw)
			elif f == "hutchpp":
				r = hutchpp(A, m=4, **kw)
			else:
				r = xtrace(A, batch=2, **kw)
		self.x = (r, make_crit(crit))

	@staticmethod
	def result(r):
		return r if isinstance(r, EstimatorResult) else [v for v in r if isinstance(v, EstimatorResult)][0]

	def step(self, x, j, o):
		e = self.result(x[0]).estimator
		if e is None or not hasattr(e, "update"):
			return
		d = np.size(e.estimate)
		g = np.random.default_rng([self.c["seed"], j])
		with np.errstate(all="ignore"):
			e.update(g.normal(size=(o["n"], d)) if d > 1 else g.normal(size=o["n"]))

	def see(self, x):
		r = self.result(x[0])
		s = {"value": np.array([np.ravel(v) for v in x[0] if not isinstance(v, EstimatorResult)], dtype=float), "estimate": np.array(r.estimate, dtype=float), "nit": np.array(r.nit)}
		for k, v in r.info.items():
			if isinstance(v, (int, float, np.ndarray)):
				s["info." + k] = np.array(v, dtype=float)
		for k, v in getattr(r, "__dict__", {}).items():  # whatever else it carries
			if isinstance(v, (int, float, np.ndarray)):
				s["attribute." + k] = np.array(v, dtype=float)
		a = [r.message, sorted(r.info)]
		if r.estimator is not None:
			with np.errstate(all="ignore"):
				s.update({"estimator." + k: v for k, v in snapshot(r.estimator).items()})
			a.append(ask(x[1], r.estimator, self.cc))
		return s, a


class OpWorld(EstWorld):
	"""An operator; a step is a product or a change of its function."""

	def __init__(self, c, crit):
		self.c = c
		n, g = 6, np.random.default_rng(c["seed"])
		A = g.normal(size=(n, n))
		A = A @ A.T + np.eye(n)
		k = c["fn"]
		self.x = Toeplitz(g.normal(size=n), g.normal(size=n) if c["batch"] % 2 else None) if k == "Toeplitz" else MatrixFunction(A, fun=["exp", "log", None, np.sqrt][c["batch"] % 4], deg=4, orth=c["batch"] % 3) if k == "MatrixFunction" else normalize_unit(A)

	def step(self, x, j, o):
		v = np.random.default_rng([self.c["seed"], j]).normal(size=(6, o["n"]))
		if self.c["fn"] == "MatrixFunction":
			if o["form"] == "list":
				x.fun = [np.exp, np.log, np.sqrt][j % 3]
			if o["form"] == "scalar":
				x.quad(v)
		x @ (v if o["n"] > 1 else v.ravel())

	def see(self, x):
		V = np.random.default_rng(self.c["seed"] + 1).normal(size=(6, 2))
		return {"products": np.array(x @ V, dtype=float), "product": np.array(x @ V[:, 0], dtype=float), "shape": np.array(x.shape)}, str(x.dtype)


WORLDS = {"est": EstWorld, "res": ResWorld, "op": OpWorld}


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		kind = rng.choice(["est", "est", "est", "res", "op"])
		if kind == "est":
			c = gen_est(rng, ("Mean", "Covariance", "ME", "MEcov", "MEcov", "CV", "CV"))
			if c["cls"] == "CV":
				c.update(dim=rng.choice([2, 2, 3, 4]), alpha=rng.random() < 0.5, scale=1.0, off=0.0)
		else:
			c = {"seed": rng.randrange(1 << 20), "batch": rng.randrange(1, 7), "record": rng.random() < 0.5, "fn": rng.choice(["hutch", "hutch", "hutch", "diag", "hutchpp", "xtrace"] if kind == "res" else ["Toeplitz", "Toeplitz", "MatrixFunction", "normalize_unit"])}
		how = HOW if not (kind == "op" and c["fn"] == "MatrixFunction") else ["deep"]  # functions need not be picklable
		ops = []
		for _ in range(rng.randrange(2, 14)):
			r = rng.random()
			o = {"op": "step" if r < 0.5 else rng.choice(["ckpt", "ckpt", "ckpt", "crash", "move", "branch", "peek"]), "n": rng.choice([1, 1, 2, 3, 5, 17]), "form": rng.choice([f for f in FORMS if f != "f32"]), "how": rng.choice(how), "which": rng.random()}
			ops.append(o)
		faults = [{"kind": "line", "tid": 0, "at": rng.choice([rng.randrange(1, 40), rng.randrange(1, 400)]), "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])} for _ in range(rng.choice([0, 1, 1, 2]))]
		return {"cfg": {"kind": kind, "c": c, "crit": gen_crit(rng)}, "ops": ops, "faults": faults, "sched": gen_sched(rng)}

	def run(self, plan, sim):
		cfg, ops = plan["cfg"], plan["ops"]
		World = WORLDS[cfg["kind"]]
		sim.active = False  # faults strike only while the process under test works
		me = lib("construction-failed", World, cfg["c"], cfg["crit"])
		ref = lib("construction-failed", World, cfg["c"], cfg["crit"])
		cur, twin = me.x, ref.x
		hist = []  # steps made so far, (j, o)
		twins = {0: copy.deepcopy(me.see(twin))}  # what an undisturbed run shows after so many steps
		cks = []  # (steps it covers, blob, how)
		fresh = lambda: lib("construction-failed", World, cfg["c"], cfg["crit"]).x  # noqa: E731

		def expect(k):
			return twins[k]

		def agree(x, k, sig, what):
			w = me.differ(expect(k), lib("query-failed", me.see, x))
			check(w is None, sig, lambda: f"{cfg['kind']} {cfg['c']}: {what}, after {k} steps: {w}")

		def recover(j):
			"""The process died: the newest checkpoint, or the beginning, and the log since then."""
			k, b, how = cks[-1] if cks else (0, None, None)
			x = lib("restore-failed", load, b, how) if b is not None else fresh()
			agree(x, k, "restored-differs", "restored after a crash")
			for jj, oo in hist[k:]:
				lib("resume-failed", me.step, x, jj, oo)
			agree(x, len(hist), "resumed-differs", f"restored from step {k} and caught up")
			sim.probe("recovered")
			return x

		for j, o in enumerate(ops):
			w = o["op"]
			if w in ("step", "move"):
				ref.step(twin, j, o)
				hist.append((j, o))
				twins[len(hist)] = copy.deepcopy(me.see(twin))
			if w == "step":
				sim.active = True
				try:
					me.step(cur, j, o)
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as e:
					sim.active = False
					check(is_injected(e), "step-failed", lambda: f"{cfg}: step {j} {o}: {type(e).__name__}: {e}")
					scrub(e)
					cur = None  # torn state: nobody looks at it again
					cur = recover(j)
				finally:
					sim.active = False
				agree(cur, len(hist), "stream-differs", f"step {j}")
			elif w == "crash":
				sim.count("crash")
				cur = None
				cur = recover(j)
			elif w == "ckpt":
				cks.append((len(hist), lib("checkpoint-failed", save, cur, o["how"]), o["how"]))
				agree(cur, len(hist), "checkpoint-disturbs", f"a checkpoint ({o['how']}) was taken")
			elif w == "move":  # the next step is made by another process, which hands the object back
				b = lib("checkpoint-failed", save, cur, o["how"])

				def other():
					x = lib("restore-failed", load, b, o["how"])
					lib("resume-failed", me.step, x, j, o)
					return (me.see(x), pickle.dumps(x)) if o["how"] != "deep" else (me.see(x), None)
				seen, back = pristine(other)
				d = me.differ(expect(len(hist)), seen)
				check(d is None, "moved-differs", lambda: f"{cfg['kind']} {cfg['c']}: step {j} made in another process ({o['how']}): {d}")
				agree(cur, len(hist) - 1, "copy-not-independent", f"a copy ({o['how']}) in another process made a step")
				if back is not None:
					cur = lib("restore-failed", pickle.loads, back)
				else:
					lib("resume-failed", me.step, cur, j, o)
				agree(cur, len(hist), "moved-differs", f"came back from another process ({o['how']})")
				sim.count("fork")
			elif w == "branch":  # a copy goes another way; neither notices the other
				b = lib("checkpoint-failed", save, cur, o["how"])
				x = lib("restore-failed", load, b, o["how"])
				agree(x, len(hist), "restored-differs", f"copied ({o['how']})")
				for q in range(1 + int(o["which"] * 3)):
					lib("resume-failed", me.step, x, 1000 + j * 7 + q, o)
				agree(cur, len(hist), "copy-not-independent", f"a copy ({o['how']}) was used on its own")
				y = lib("restore-failed", load, b, o["how"])
				agree(y, len(hist), "checkpoint-not-independent", f"a copy of the same checkpoint ({o['how']}) was used on its own")
			else:
				agree(cur, len(hist), "stream-differs", "looked at")
			sim.event(w, len(hist))
		# every checkpoint is still what it was when it was taken
		for k, b, how in cks:
			x = lib("restore-failed", load, b, how)
			agree(x, k, "restored-differs", f"old checkpoint ({how})")
			for jj, oo in hist[k:]:
				lib("resume-failed", me.step, x, jj, oo)
			agree(x, len(hist), "resumed-differs", f"old checkpoint ({how}) caught up")
			if cfg["kind"] == "est":
				d = lib("resume-failed", me.reapply, x, hist)
				check(d is None, "criterion-bound", lambda: f"{cfg}: restored ({how}) and asked about another estimator: {d}")
		sim.active = True
