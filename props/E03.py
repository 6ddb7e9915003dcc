"""E03: arrays that were handed out never change, and what the caller does to them or to its own buffers changes nothing."""
QUICK = (6000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.diagonal import diag, xdiag
from primate.estimators import ControlVariableEstimator, CountCriterion, MeanEstimator
from primate.integrate import quadrature
from primate.lanczos import lanczos, rayleigh_ritz
from primate.operators import MatrixFunction, Toeplitz
from primate.random import isotropic
from primate.stats import Covariance, Mean
from primate.trace import hutch, hutchpp, xtrace
from primate.tridiag import eigh_tridiag, eigvalsh_tridiag

KINDS = ["upd"] * 8 + ["mv", "mv", "quad", "tz", "tz", "lanczos", "rr", "eig", "eig", "gauss", "draw", "drawinto", "hutch", "diag", "xtrace", "xdiag", "hutchpp"]
EST = ["ME", "MEcov", "Mean", "Covariance", "CV", "CVa"]


def gen_client(rng, kinds):
	c = {"ests": [{"cls": rng.choice(EST), "dim": rng.choice([1, 2, 2, 3]), "record": rng.random() < 0.6} for _ in range(rng.choice([1, 2, 3]))], "ops": []}
	for j in range(rng.choice([2, 4, 8, 14])):
		k = rng.choice(kinds)
		o = {"k": k, "seed": rng.randrange(1 << 30)}
		if k == "upd":
			o.update(e=rng.randrange(len(c["ests"])), n=rng.choice([0, 1, 1, 2, 5]), buf=rng.choice(["same", "same", "fresh", "f32", "view"]))
		elif k in ("mv", "quad", "tz"):
			o.update(w=rng.choice([0, 0, 1, 2, 3]), order=rng.choice("CF"))
		elif k == "eig":
			o.update(method=rng.choice(["auto", "mrrr", "tqli"]), vec=rng.random() < 0.6)
		elif k == "gauss":
			o.update(method=rng.choice(["gw", "fttr"]), bufs=rng.random() < 0.5)
		elif k in ("draw", "drawinto"):
			o.update(pdf=rng.choice(PDF_NAMES), w=rng.choice([1, 2, 4]))
		elif k in ("hutch", "diag", "xtrace"):
			o.update(count=rng.choice([1, 2, 3]), batch=rng.choice([1, 2]), cb=rng.random() < 0.7, record=rng.random() < 0.5)
		elif k == "hutchpp":
			o.update(mode=rng.choice(["full", "reduced"]))
		o["scribble"] = rng.random() < 0.5
		c["ops"].append(o)
	return c


class Client:
	"""Does a list of things with the library.  A meddling client overwrites its own buffers and whatever it may of what it was given."""

	def __init__(self, spec, shared, meddle, held):
		self.spec, self.s, self.meddle, self.held = spec, shared, meddle, held
		self.ests, self.bufs, self.samplers = [], {}, {}
		for e in spec["ests"]:
			d = e["dim"]
			self.ests.append({"ME": lambda: MeanEstimator(d, record=e["record"]), "MEcov": lambda: MeanEstimator(d, covariance=True, record=e["record"]), "Mean": lambda: Mean(d),
				"Covariance": lambda: Covariance(d), "CV": lambda: ControlVariableEstimator(np.full(d, 0.5), record=e["record"]), "CVa": lambda: ControlVariableEstimator(np.full(d, 0.5), alpha=np.full(d, 0.25), record=e["record"])}[e["cls"]]())

	def mine(self, a, key):
		"""The caller's own buffer with these contents; ruined once the call is over, if meddling."""
		if not self.meddle:
			return a
		b = self.bufs.get((key, a.shape, a.dtype, a.flags.f_contiguous))
		if b is None:
			b = self.bufs[(key, a.shape, a.dtype, a.flags.f_contiguous)] = np.empty_like(a)
		b[...] = a
		return b

	def ruin(self, *arrs):
		if self.meddle:
			for b in arrs:
				b[...] = -777

	def hold(self, what, a, scribble=False):
		"""Remember an array the library handed out."""
		if not isinstance(a, np.ndarray):
			return
		h = [what, a, a.copy()]
		if scribble and self.meddle and a.flags.writeable:
			a[...] = -55.5
			h[2] = a.copy()
		self.held.append(h)

	def op(self, o):
		g = np.random.default_rng(o["seed"])
		k, s, sc = o["k"], self.s, o["scribble"]
		n = s["n"]
		if k == "upd":
			e, c = self.ests[o["e"]], self.spec["ests"][o["e"]]
			d = c["dim"] + (1 if c["cls"] in ("CV", "CVa") else 0)
			x = g.normal(size=(o["n"], d))
			if o["buf"] == "f32":
				x = x.astype(np.float32)
			if o["buf"] == "fresh" or not self.meddle:
				b = x
			elif o["buf"] == "view":
				big = self.bufs.setdefault(("view", o["e"], x.shape), np.empty((2 * o["n"] + 2, d)))
				b = big[::2][: o["n"]]
				b[...] = x
			else:
				b = self.mine(x, ("upd", o["e"]))
			e.update(b)
			if c["cls"] in ("Mean", "Covariance"):
				m = e.mean()
				out = [np.array(m)]
				self.hold("mean()", m, sc)
				if c["cls"] == "Mean":
					self.hold("()", e(), sc)
			else:
				m = e.estimate
				out = [np.array(m), np.array(e.delta)]
				self.hold("estimate", m, sc)
				self.hold("delta", e.delta)
			cov = e if c["cls"] == "Covariance" else getattr(e, "_cov", None)
			if cov is not None:
				v = cov.covariance()
				out.append(np.array(v))
				self.hold("covariance()", v, sc)
			vals = getattr(e, "values", None)
			if vals is not None and c["cls"] in ("ME", "MEcov", "CV", "CVa"):
				out.append(np.array([np.array(v) for v in vals]))
				for v in vals[max(0, len(vals) - 6) :]:
					self.hold("recorded sample", v)
			if o["buf"] != "fresh":
				self.ruin(b)
			return out
		if k in ("mv", "quad", "tz"):
			x = g.normal(size=(n, o["w"]) if o["w"] else n)
			if o["order"] == "F":
				x = np.asfortranarray(x)
			b = self.mine(x, "x")
			op = s["T"] if k == "tz" else s["M"]
			y = op.quad(b) if k == "quad" else op @ b
			out = [np.array(y)]
			self.hold({"mv": "M @ x", "quad": "M.quad(x)", "tz": "T @ x"}[k], y, sc)
			self.ruin(b)
			return out
		if k in ("lanczos", "rr"):
			v = self.mine(g.normal(size=n), "v0")
			if k == "rr":
				w, Y = rayleigh_ritz(s["op"], deg=min(3, n), v0=v, return_eigenvectors=True)
				r = [w, Y]
			else:
				(a, b), Q = lanczos(s["op"], v0=v, deg=min(3, n), orth=2, return_basis=True)
				r = [a, b, Q]
		elif k in ("eig", "gauss"):
			d, e = self.mine(g.normal(size=n), "d"), self.mine(np.abs(g.normal(size=n - 1)) + 0.1, "e")
			if k == "gauss":
				bufs = {}
				if o["bufs"]:
					bufs = {"nodes": self.mine(np.zeros(n), "nodes"), "weights": self.mine(np.zeros(n), "weights")}
				r = list(quadrature(d, e, quad=o["method"], **bufs))
				if bufs:
					check(same(bufs["nodes"], r[0]) and same(bufs["weights"], r[1]), "buffers-differ", "the buffers do not hold the rule returned")
					self.ruin(bufs["nodes"], bufs["weights"])
			elif o["vec"]:
				r = list(eigh_tridiag(d, e, method=o["method"]))
			else:
				r = [eigvalsh_tridiag(d, e, method=o["method"])]
			v = np.zeros(0)
			self.ruin(d, e)
		elif k == "draw":
			r = [isotropic((n, o["w"]), o["pdf"], seed=o["seed"])]
			f = self.samplers.setdefault(o["pdf"], isotropic(pdf=o["pdf"], seed=7))
			r.append(f((n, o["w"])))
			v = np.zeros(0)
		elif k == "drawinto":
			b = self.mine(np.zeros((n, o["w"]), order="F"), "out")
			isotropic(pdf=o["pdf"], seed=o["seed"], out=b)
			out = [b.copy()]
			self.ruin(b)
			return out
		else:
			seen, est = [], []

			def cb(r):
				seen.append(np.array(r.estimate))
				self.hold("callback's estimate", r.estimate, sc)
				e = r.estimator.estimate
				self.hold("callback's estimator.estimate", e, sc)
				self.hold("callback's estimator.delta", r.estimator.delta)
				for x in (r.estimator.values or [])[-4:]:
					self.hold("callback's recorded sample", x)

			v = np.zeros(0)
			if k in ("hutch", "diag", "xtrace"):
				fn = {"hutch": hutch, "diag": diag, "xtrace": xtrace}[k]
				kw = {} if k == "diag" else {"batch": o["batch"]}
				r0, res = fn(s["op"], pdf="sphere", converge=CountCriterion(o["count"]), seed=o["seed"], full=True, callback=cb if o["cb"] else None, record=o["record"], **kw)
				r = [r0, res.estimate, res.estimator.estimate, np.array([np.array(x) for x in (res.estimator.values or [])])]
				r += [np.array(x) for x in seen]
			elif k == "hutchpp":
				r0, res = hutchpp(s["op"], m=2, mode=o["mode"], seed=o["seed"], full=True)
				r = [r0, res.estimate, res.samples]
			else:
				r = [xdiag(s["op"], m=4, seed=o["seed"])]
		out = [np.array(x) for x in r]
		for x in r:
			self.hold(k + " result", x, sc)
		self.ruin(v)
		return out


def shared(cfg, sites):
	n = cfg["n"]
	M = sym_matrix(n, cfg["seed"], signs=False)
	A = M if cfg["rep"] == "dense" else SimOp(M, sites, reuse=cfg["reuse"])
	g = np.random.default_rng(cfg["seed"])
	return {"n": n, "op": SimOp(M, sites, reuse=cfg["reuse"]), "M": MatrixFunction(A, fun=np.exp, deg=max(2, min(n, cfg["deg"])), orth=cfg["orth"]), "T": Toeplitz(g.normal(size=n), g.normal(size=n))}


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		kinds = rng.choice([KINDS, KINDS, ["upd"], ["mv", "quad", "tz"], ["hutch", "diag", "xtrace", "upd"], ["eig", "gauss", "lanczos", "rr"]])
		cs = [gen_client(rng, kinds) for _ in range(rng.choice([1, 1, 1, 2]))]
		faults = gen_stalls(rng, [0, 1, 2], most=1) if len(cs) > 1 else []
		if rng.random() < 0.3:
			faults.append({"kind": "call", "site": "op", "n": rng.randrange(1, 25), "exc": rng.choice(EXC_NAMES), "torn": rng.random() < 0.3})
		ops = [dict(o, c=j) for j, c in enumerate(cs) for o in c["ops"]]
		return {"cfg": {"kind": f"{len(cs)}", "n": rng.choice([2, 3, 5]), "seed": rng.randrange(1 << 30), "rep": rng.choice(["dense", "sim"]), "reuse": rng.random() < 0.3, "deg": rng.choice([2, 3, 5]),
			"orth": rng.choice([0, 2, 5]), "ests": [c["ests"] for c in cs]}, "ops": ops, "faults": faults, "sched": gen_sched(rng, victims=2) if len(cs) > 1 else {"kind": "serial", "seed": 0},
			"gran": "line" if len(cs) > 1 else "off"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		specs = [{"ests": e, "ops": [o for o in plan["ops"] if o["c"] == j]} for j, e in enumerate(cfg["ests"])]

		def solo():
			sim.active = False
			out = []
			for sp in specs:
				cl = Client(sp, shared(cfg, None), False, [])
				rs = []
				for o in sp["ops"]:
					try:
						with np.errstate(all="ignore"):
							rs.append(cl.op(o))
					except Violation:
						raise
					except Exception as e:
						rs.append(type(e).__name__)
				out.append(rs)
			return out

		ref = pristine(solo)
		sites = Sites(sim, plan, enabled=False)
		sh = shared(cfg, sites)
		sites.n.clear()
		sites.enabled = True
		held = []

		def verify(after):
			for what, a, c in held:
				check(a.shape == c.shape and np.array_equal(a, c, equal_nan=True), "held-changed", lambda: f"{what}, handed out earlier, changed after {after}: {diff(a, c)}")

		def client(j):
			def go():
				cl = Client(specs[j], sh, True, held)
				for i, o in enumerate(specs[j]["ops"]):
					exp = ref[j][i]
					try:
						with np.errstate(all="ignore"):
							got = cl.op(o)
					except (Violation, SimAbort, HarnessError):
						raise
					except BaseException as e:
						if is_injected(e):
							verify(f"failed {o}")
							continue
						check(exp == type(e).__name__, "call-failed", lambda: f"{o}: {type(e).__name__}: {e}, but {'a result' if not isinstance(exp, str) else exp} in a run without meddling")
						continue
					check(not isinstance(exp, str), "outcome-differs", lambda: f"{o} returned, but raised {exp} in a run without meddling")
					check(len(got) == len(exp) and all(same(a, b, 1e-8) for a, b in zip(got, exp)), "result-corrupted",
						lambda: f"{o}: results differ from those of a caller that overwrites nothing: " + "; ".join(diff(a, b) for a, b in zip(got, exp) if not same(a, b, 1e-8)))
					verify(o)
					sim.event(j, i, o["k"])
					sim.probe(o["k"])
			return go

		if len(specs) == 1:
			client(0)()
		else:
			run_clients(sim, [client(j) for j in range(len(specs))])
		verify("everything")
