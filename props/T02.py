"""T02: a failure anywhere in an estimation reaches the caller as it is, ends the run there, and leaves nothing behind."""
QUICK = (7500, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.diagonal import diag, xdiag
from primate.operators import MatrixFunction, Toeplitz
from primate.trace import hutch, hutchpp, xtrace

FNS = ["hutch", "hutch", "hutch", "xtrace", "xtrace", "diag", "diag", "hutchpp", "xdiag"]
FUNS = {"log": np.log, "exp": np.exp, "sq": np.square}


def gen_op(rng, fn):
	n = rng.choice([2, 3, 4, 6, 9])
	ks = {"xdiag": ["lin"], "hutch": ["lin", "duck", "quad", "nodtype", "mf", "mfd", "toeplitz"]}.get(fn, ["lin", "lin", "duck", "nodtype", "mf", "toeplitz"])
	if fn == "xtrace":
		ks = ["lin", "lin", "duck", "mf", "toeplitz"]
	k = rng.choice(ks)
	return {"k": k, "n": n, "seed": rng.randrange(1 << 30), "fun": rng.choice(sorted(FUNS)), "deg": rng.choice([2, 3, n]), "orth": rng.choice([0, 2, n]), "reuse": gen_reuse(rng, 0.25),
		"dtype": rng.choice(["f8", "f8", "f4"]) if k in ("lin", "duck", "quad") and fn in ("hutch", "diag") else "f8"}


def mk_op(c, sites):
	n = c["n"]
	M = sym_matrix(n, c["seed"], signs=c["k"] not in ("mf", "mfd"), reuse=c["k"] in OPS and c["reuse"]).astype(c["dtype"])
	if c["k"] in OPS:
		return OPS[c["k"]](M, sites, dtype=np.dtype(c["dtype"]), reuse=c["reuse"])
	if c["k"] == "toeplitz":
		g = np.random.default_rng(c["seed"])
		return Toeplitz(np.r_[3.0 * n, g.normal(size=n - 1)])
	f = FUNS[c["fun"]]

	def fun(x):
		if sites is not None:
			sites.hit("fun")
		return f(x)

	inner = (SimOp if c["k"] == "mf" else DuckOp)(M, sites)
	op = MatrixFunction(inner, fun=fun, deg=c["deg"], orth=c["orth"])
	op.sim_log = inner.log
	return op


def gen_call(rng, fn, n):
	cap = rng.choice([2, 4, 8])
	o = {"fn": fn, "seed": rng.randrange(1 << 30), "pdf": rng.choice(["normal", "sphere", "gaussian"]) if fn in ("xtrace", "hutchpp", "xdiag") else rng.choice(PDF_NAMES), "via": rng.choice(["int", "sim", "sim"])}
	if fn in ("hutch", "xtrace", "diag", "hutchpp") and rng.random() < 0.3:
		o["pdf"] = gen_userpdf(rng)
		o["pdf"]["dist"] = "normal"
	if fn in ("hutch", "xtrace", "diag"):
		o.update(batch=rng.choice([1, 2, 3, 5]), full=rng.random() < 0.5, cb=rng.random() < 0.5, record=rng.random() < 0.3)
		o["conv"] = gen_criterion(rng, cap, n)
		while o["conv"]["k"] in ("tolstr", "confstr", "conf", "knee", "pred"):
			o["conv"] = gen_criterion(rng, cap, n)
	elif fn == "hutchpp":
		o.update(m=rng.choice([None, 1, 2, 3]), mode=rng.choice(["reduced", "full"]), full=rng.random() < 0.5)
	else:
		o.update(m=rng.choice([None, 2, 3, 4]))
	return o


class Caller:
	"""One way to call one estimator, repeatable: the operator and the criterion live on, the rest is per call."""

	def __init__(self, c, o, sites):
		self.c, self.o, self.sites = c, o, sites
		self.op = mk_op(c, sites)
		if "conv" in o:
			self.conv, self.kw = criterion(o["conv"], sites)

	def __call__(self):
		o, s = self.o, self.sites
		seed = SimGenerator.make(np.random.SeedSequence(o["seed"]), s, "rng") if o["via"] == "sim" else o["seed"]
		pdf = UserPdf(o["pdf"], s) if isinstance(o["pdf"], dict) else o["pdf"]

		def cb(r):
			s.hit("callback")

		with np.errstate(all="ignore"):
			if o["fn"] in ("hutch", "xtrace", "diag"):
				kw = dict(self.kw, record=o["record"], converge=self.conv, seed=seed, pdf=pdf, full=o["full"], callback=cb if o["cb"] else None)
				if o["fn"] == "diag":
					return diag(self.op, **kw)
				return {"hutch": hutch, "xtrace": xtrace}[o["fn"]](self.op, batch=o["batch"], **kw)
			if o["fn"] == "hutchpp":
				return hutchpp(self.op, m=o["m"], mode=o["mode"], pdf=pdf, seed=seed, full=o["full"])
			return xdiag(self.op, m=o["m"], pdf=pdf, seed=seed)

	def log(self):
		return getattr(self.op, "sim_log", getattr(self.op, "log", []))


def value_of(r):
	return np.array(r[0] if isinstance(r, tuple) else r)


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		fn = rng.choice(FNS)
		c = gen_op(rng, fn)
		o = gen_call(rng, fn, c["n"])
		faults = []
		for _ in range(rng.choice([1, 1, 1, 2, 3])):
			if rng.random() < 0.3:
				faults.append({"kind": "line", "tid": 0, "at": rng.choice([rng.randrange(1, 60), rng.randrange(1, 400)]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
			else:
				sites = ["op", "op"]
				if c["k"] in ("mf", "mfd"):
					sites += ["fun", "op"]
				if isinstance(o["pdf"], dict):
					sites += ["pdf"]
				elif o["via"] == "sim":
					sites += ["rng"]
				if o.get("cb"):
					sites += ["callback"]
				if o.get("conv", {}).get("k") in ("set", "not", "never", "false-then"):
					sites += ["criterion", "criterion"]
				faults.append({"kind": "call", "site": rng.choice(sites), "n": rng.choice([1, 2, 3, 4, 5, rng.randrange(1, 20)]), "exc": rng.choice(EXC_NAMES), "torn": rng.random() < 0.2})
		return {"cfg": {"kind": f"{fn}/{c['k']}", "op": c, "call": o}, "ops": [], "faults": faults, "gran": "line"}

	def run(self, plan, sim):
		c, o = plan["cfg"]["op"], plan["cfg"]["call"]

		def solo():
			sim.active = False
			call = Caller(c, o, None if o["via"] != "sim" and not o.get("cb") else Sites(None, {}))
			try:
				r = call()
			except Exception as e:  # e.g. a singular sketch
				return ("raised", type(e).__name__, None)
			return ("returned", value_of(r), [X for X, _ in call.log()])

		ref = pristine(solo)
		sites = Sites(sim, plan)
		sim.mask_line_faults, sites.enabled = True, False
		call = Caller(c, o, sites)  # building the operator is not part of the estimation
		sim.mask_line_faults, sites.enabled = False, True
		sites.n.clear()
		sim.threads[0].lines = 0
		what = lambda: f"{o} on {c}"
		for attempt in range(len(plan["faults"]) + 1):
			call.log().clear()
			sim.injected = None
			nraised = len(sites.raised)
			err = r = None
			try:
				r = call()
			except (Violation, SimAbort, HarnessError):
				raise
			except BaseException as e:
				err = root(e)
			new = sites.raised[nraised:] + ([sim.injected] if sim.injected is not None else [])
			sim.event("attempt", attempt, type(err).__name__, len(new))
			if new:
				check(err is not None, "failure-swallowed", lambda: f"{what()}: returned {value_of(r)!r} although {type(new[0]).__name__} was raised ({new[0]}) during the run")
				check(len(new) == 1 and err is new[0], "failure-disguised", lambda: f"{what()}: {type(new[0]).__name__} ({new[0]}) was raised but the caller got {type(err).__name__}: {err}")
				if sites.raised[nraised:]:
					check(sites.snap == sites.n, "went-on-after-failure", lambda: f"{what()}: after {new[0]} the run went on: calls at the failure {sites.snap}, at the end {sites.n}")
				sim.probe("failed:" + o["fn"])
				scrub(err)
				err = None
				continue
			# a run without failures must be like one that never saw any
			if ref[0] == "raised":
				check(err is not None and type(err).__name__ == ref[1], "outcome-differs", lambda: f"{what()} attempt {attempt}: {err!r} but alone it raises {ref[1]}")
			else:
				check(err is None, "retry-failed", lambda: f"{what()} attempt {attempt}: raised {type(err).__name__}: {err}")
				v = value_of(r)
				check(same(v, ref[1], 1e-9), "retry-differs", lambda: f"{what()} attempt {attempt}: {diff(v, ref[1])}")
				xs = [X for X, _ in call.log()]
				ok = len(xs) == len(ref[2]) and all(same(a, b, 1e-7) for a, b in zip(xs, ref[2]))
				check(ok, "retry-applies-differently", lambda: f"{what()} attempt {attempt}: the operator was applied {len(xs)} times, alone {len(ref[2])} times, or to other vectors")
				sim.probe("completed-after-failures" if attempt else "completed")
			break
