"""D01: convergence figures show exactly the recorded history, at any point of it, and only observe."""
EXT = False
QUICK = (9000, 30)
THOROUGH = (3_000_000, 900)
import sys
import types

import numpy as np

from sim.lib import *  # noqa
from primate.estimators import MeanEstimator
from primate import plotting

from props.E02 import compare, snapshot


class Attr:
	"""Stands for any attribute of a figure: settable, callable, endlessly nested."""

	def __getattr__(self, k):
		if k.startswith("__"):
			raise AttributeError(k)
		a = Attr()
		object.__setattr__(self, k, a)
		return a

	def __call__(self, *a, **k):
		return Attr()


class Fig:
	"""A stand-in for bokeh's figure: keeps a copy of the data of every glyph; like bokeh, wants columns of one length."""
	sites = None

	def __init__(self, **kw):
		if Fig.sites is not None:
			Fig.sites.hit("figure")
		object.__setattr__(self, "glyphs", [])
		object.__setattr__(self, "kw", kw)

	def __getattr__(self, k):
		if k.startswith("__"):
			raise AttributeError(k)
		if k in ("scatter", "line", "circle", "step", "varea", "varea_step", "segment", "multi_line"):
			return lambda *a, **kw: self.glyph(k, *a, **kw)
		a = Attr()
		object.__setattr__(self, k, a)
		return a

	def glyph(self, kind, *a, **kw):
		if Fig.sites is not None:
			Fig.sites.hit("glyph")
		x = kw.get("x", a[0] if a else None)
		y = kw.get("y", a[1] if len(a) > 1 else None)
		x, y = np.array(x, dtype=float), np.array(y, dtype=float)
		if x.ndim and y.ndim and x.shape != y.shape:
			raise ValueError(f"columns of lengths {x.shape} and {y.shape}")
		self.glyphs.append((kind, x, y))
		return Attr()

	def has(self, x, y, tol):
		return any(np.shape(gx) == np.shape(x) and np.shape(gy) == np.shape(y) and same(gx, x, 0) and close(gy, y, tol) for _, gx, gy in self.glyphs)


def close(a, b, tol):
	a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
	fin = np.isfinite(b)
	return np.array_equal(np.isfinite(a), fin) and np.all(np.abs(a[fin] - b[fin]) <= tol[fin] if np.ndim(tol) else np.abs(a[fin] - b[fin]) <= tol) if a.shape == b.shape else False


def install():
	mods = {n: types.ModuleType(n) for n in ("bokeh", "bokeh.plotting", "bokeh.models", "bokeh.palettes", "bokeh.layouts")}
	mods["bokeh.plotting"].figure = Fig
	mods["bokeh.plotting"].show = lambda *a, **k: None
	mods["bokeh.models"].__getattr__ = lambda k: (lambda *a, **kw: Attr())
	mods["bokeh.palettes"].__getattr__ = lambda k: {d: ["#000000"] * d for d in range(1, 21)}
	mods["bokeh.layouts"].__getattr__ = lambda k: (lambda *a, **kw: Attr())
	for n, m in mods.items():
		m.__path__ = []
		sys.modules[n] = m
		if "." in n:
			setattr(mods["bokeh"], n.split(".")[1], m)


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		ne = rng.choice([1, 1, 2, 3])
		es = [{"cov": rng.random() < 0.5, "off": rng.choice([0.0, 1.0, 50.0, -3.0]), "seed": rng.randrange(1 << 30), "as": rng.choice(["estimator", "estimator", "list", "array", "values"]), "nan": rng.random() < 0.3} for _ in range(ne)]
		ops = []
		for _ in range(rng.randrange(3, 14)):
			k = rng.choice(["update", "update", "sequence", "error", "error"])
			o = {"op": k, "e": rng.randrange(ne), "n": rng.choice([1, 1, 2, 3, 7, 40]), "mu": rng.choice([None, None, 1.0, -2.5, 50.0, 0.0, 2]), "abs": rng.random() < 0.5, "thr": rng.choice([None, 0.1])}
			ops.append(o)
		if rng.random() < 0.06:  # a long history
			ops = [dict(ops[0], op="update", n=rng.choice([1050, 1500]))] + [dict(o, e=ops[0]["e"], op=rng.choice(["sequence", "sequence", "error"])) for o in ops[1:3]]
		faults = [{"kind": "call", "site": rng.choice(["figure", "glyph"]), "n": rng.randrange(1, 9), "exc": rng.choice(EXC_NAMES)} for _ in range(rng.choice([0, 0, 1, 2]))]
		return {"cfg": {"kind": "+".join(sorted({e["as"] for e in es})), "ests": es, "conc": ne > 1 and rng.random() < 0.6}, "ops": ops, "faults": faults, "sched": gen_sched(rng, victims=ne)}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		sites = Sites(sim, plan)
		install()
		Fig.sites = sites
		es = cfg["ests"]
		st = [None] * len(es)

		def do(j, o):
			c = es[o["e"]]
			if st[o["e"]] is None:
				st[o["e"]] = (MeanEstimator(covariance=c["cov"], record=True), [])
			est, seen = st[o["e"]]
			if o["op"] == "update":
				x = c["off"] + np.random.default_rng([c["seed"], j]).normal(size=o["n"])
				est.update(x)
				seen.extend(x)
				return
			vals = np.array(seen)
			given = est if c["as"] == "estimator" else list(seen) if c["as"] == "list" else est.values if c["as"] == "values" else vals.copy()
			if c["as"] in ("list", "array") and c["nan"] and len(seen) > 1:
				k = np.random.default_rng([c["seed"], j]).integers(len(seen))
				given = vals.copy()
				given[k] = np.nan
				vals = np.delete(vals, k)
			if len(vals) == 0:
				return
			before = snapshot(est)
			keep = None if given is est else np.array(given, dtype=float).copy()
			what = lambda: f"step {j} {o} on {c} with {len(vals)} samples"
			while True:
				nr = len(sites.raised)
				mine = lambda: [e for e in sites.raised[nr:] if e.who == sim.me().tid]
				try:
					with np.errstate(all="ignore"):
						p = plotting.figure_sequence(given, mu=o["mu"]) if o["op"] == "sequence" else plotting.figure_error(given, mu=o["mu"], threshold=o["thr"], absolute=o["abs"])
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as e:
					check(is_injected(e), "failed", lambda: f"{what()}: {type(e).__name__}: {e}")
					scrub(e)
					w = compare(before, snapshot(est))
					check(w is None, "figure-changed-the-estimator", lambda: f"{what()}, which failed: {w}")
					sim.probe("failed-then-retried")
					continue
				check(not mine(), "failure-swallowed", what)
				break
			w = compare(before, snapshot(est))
			check(w is None, "figure-changed-the-estimator", lambda: f"{what()}: {w}")
			check(keep is None or np.array_equal(np.ravel(np.array(given, dtype=float)), np.ravel(keep), equal_nan=True), "figure-changed-the-samples", what)
			n = len(vals)
			idx = np.arange(1, n + 1)
			avg = np.cumsum(vals) / idx
			tol = 1e-11 * (np.max(np.abs(vals)) + 1.0)
			shown = [(k, x[:4], y[:4] if y.ndim else y) for k, x, y in p.glyphs]
			if o["op"] == "sequence":
				check(p.has(idx, vals, tol), "samples-not-shown", lambda: f"{what()}: {shown}")
				check(p.has(idx, avg, tol), "running-mean-not-shown", lambda: f"{what()}: {shown}")
			else:
				if o["mu"] == 0 and not o["abs"]:
					pass  # not a number
				elif o["mu"] is not None:
					want = np.abs(o["mu"] - avg) if o["abs"] else np.abs((o["mu"] - avg) / o["mu"])
					check(p.has(idx, want, tol), "error-differs", lambda: f"{what()}: {shown} expected {want[:4]}")
				else:
					import scipy.stats
					g = [y for k, x, y in p.glyphs if x.shape == idx.shape and n > 2 and same(x, idx, 0)]
					for y in g[:1]:
						check(np.all(np.isinf(y[:2])), "error-too-early", lambda: f"{what()}: {shown}")
						k = np.arange(3, n + 1)
						se = np.array([np.std(vals[:m], ddof=1) for m in k]) / np.sqrt(k)
						if o["abs"]:
							lo, hi = 1.9599 * se * (1 - 1e-6), scipy.stats.t.ppf(0.975, k - 1) * se * (1 + 1e-6)
						else:
							r = np.abs(se / avg[2:])
							lo, hi = r * (1 - 1e-6), r * (1 + 1e-6)
						check(np.all((y[2:] >= lo) & (y[2:] <= hi)), "error-bound-differs", lambda: f"{what()}: {y[2:6]} not within {lo[:4]}..{hi[:4]}")
					check(g or n <= 2, "error-not-shown", lambda: f"{what()}: {shown}")
			sim.event("figure", j, n)

		ops = plan["ops"]
		if cfg["conc"]:
			run_clients(sim, [(lambda k=k: [do(j, o) for j, o in enumerate(ops) if o["e"] == k]) for k in range(len(es))])
		else:
			for j, o in enumerate(ops):
				do(j, o)
