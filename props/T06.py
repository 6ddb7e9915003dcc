"""T06: estimations running at the same time in different threads give what each gives alone."""
QUICK = (3750, 30)
THOROUGH = (3_000_000, 900)
import zlib

import numpy as np

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.diagonal import diag, xdiag
from primate.operators import MatrixFunction, Toeplitz
from primate.trace import hutch, hutchpp, xtrace

FUNS = {"log": np.log, "exp": np.exp, "sqrt": np.sqrt}


def gen_op(rng):
	k = rng.choice(["lin", "lin", "duck", "quad", "array", "mf", "mf", "mfarray", "toeplitz", "toeplitz"])
	n = rng.choice([2, 3, 4, 6, 8])
	return {"k": k, "n": n, "seed": rng.randrange(1 << 30), "fun": rng.choice(sorted(FUNS) + ["bexp", "smoothstep"]), "deg": rng.choice([2, 3, n]), "orth": rng.choice([0, 2, n]),
		"dtype": rng.choice(["f8", "f8", "f8", "f4"]) if k in ("lin", "duck", "array") else "f8", "reuse": gen_reuse(rng, 0.25)}


def mk_op(c, sites):
	n, dt = c["n"], np.dtype(c["dtype"])
	M = sym_matrix(n, c["seed"], signs=c["k"] not in ("mf", "mfarray"), reuse=c["k"] in OPS and c["reuse"]).astype(dt)
	if c["k"] in OPS:
		return OPS[c["k"]](M, sites, dtype=dt, reuse=c["reuse"])
	if c["k"] == "array":
		return M
	if c["k"] == "toeplitz":
		g = np.random.default_rng(c["seed"])
		return Toeplitz(np.r_[3.0 * n, g.normal(size=n - 1)], np.r_[0.0, g.normal(size=n - 1)] if c["seed"] % 2 else None)
	kw = {"t": 0.7} if c["fun"] == "bexp" else {"a": 0.3, "b": 2.5} if c["fun"] == "smoothstep" else {}
	f = {"bexp": "exp", "smoothstep": "smoothstep"}.get(c["fun"]) or FUNS[c["fun"]]
	return MatrixFunction(M if c["k"] == "mfarray" else SimOp(M, sites), fun=f, deg=c["deg"], orth=c["orth"], **kw)


def gen_call(rng, ops, focus=None):
	w = rng.randrange(len(ops)) if focus is None else 0
	c = ops[w]
	n = c["n"]
	fns = ["hutch", "hutch", "hutch", "diag", "hutchpp", "xtrace"]
	if c["k"] in ("array", "lin"):
		fns.append("xdiag")
	fn = rng.choice(fns) if focus not in fns else focus
	if fn == "xtrace" and c["k"] == "quad":
		fn = "hutch"
	if c["dtype"] == "f4" and fn in ("xtrace", "hutchpp"):
		fn = "diag"
	o = {"fn": fn, "w": w, "seed": rng.randrange(1 << 30), "pdf": rng.choice(["normal", "sphere", "gaussian"]) if fn in ("xtrace", "hutchpp", "xdiag") else rng.choice(PDF_NAMES)}
	if fn in ("hutch", "xtrace", "diag"):
		o.update(batch=rng.choice([1, 2, 3, 5]), full=rng.random() < 0.6, cb=rng.random() < 0.3, record=rng.random() < 0.4, crit=rng.randrange(0, 3))
		o["via"] = rng.choice(["int", "gen"])
	elif fn == "hutchpp":
		o.update(m=rng.choice([None, 1, 2, 3]), mode=rng.choice(["reduced", "full"]), full=rng.random() < 0.5)
	else:
		o.update(m=rng.choice([None, 2, 3, 4]))
	return o


def do_call(o, ops, crits, seen=None):
	op = ops[o["w"]]
	fn = o["fn"]
	with np.errstate(all="ignore"):
		if fn == "consult":
			conv, kw = crits[o["crit"]]
			conv = convergence_criterion(conv, **kw)
			x = o["loc"] + o["scale"] * np.random.default_rng(o["seed"]).normal(size=o["k"])
			est, out = MeanEstimator(covariance=True, record=True), []
			for j in range(3):
				for v in (x if j == 0 else x[:2]):
					est.update(v)
					out.append(bool(conv(est)))
				out.append(conv.message(est) if isinstance(conv, ConfidenceCriterion) and len(est) >= 3 else "")
			return [np.array([len(out), sum(map(bool, out))]), np.array(zlib.crc32(repr(out).encode()))]
		if fn in ("hutch", "xtrace", "diag"):
			conv, kw = crits[o["crit"]]
			kw = dict(kw, converge=conv, seed=mk_seed(o["via"], o["seed"]), pdf=o["pdf"], full=o["full"], record=o["record"], callback=(lambda r: seen.append((r.nit, np.array(r.estimate)))) if o["cb"] else None)
			r = diag(op, **kw) if fn == "diag" else {"hutch": hutch, "xtrace": xtrace}[fn](op, batch=o["batch"], **kw)
		elif fn == "hutchpp":
			r = hutchpp(op, m=o["m"], mode=o["mode"], pdf=o["pdf"], seed=o["seed"], full=o["full"])
		else:
			r = xdiag(op, m=o["m"], pdf=o["pdf"], seed=o["seed"])
	if not isinstance(r, tuple):
		return [np.array(r)]
	out = [np.array(r[0]), np.array(r[1].nit)]
	if fn != "hutchpp":
		out += [np.array(len(r[1].estimator)), np.array(r[1].estimator.estimate)]
		if r[1].estimator.values:
			out.append(np.array([np.ravel(v) for v in r[1].estimator.values]))
	else:
		out.append(np.array(r[1].samples))
	return out


def outcome(o, ops, crits):
	seen = []
	try:
		out = do_call(o, ops, crits, seen)
	except (Violation, SimAbort, HarnessError):
		raise
	except Exception as e:
		if is_injected(e):
			raise
		return ("raised", type(e).__name__)
	return ("returned", out, seen)


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		ops = [gen_op(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
		crits = []
		while len(crits) < 3:
			c = gen_criterion(rng, rng.choice([2, 4, 8, 20]), ops[0]["n"])
			if c["k"] not in ("tolstr", "confstr"):  # these need not end
				crits.append(c)
		nt = rng.choice([2, 2, 3, 4])
		focus = rng.choice(["hutch", "diag", "hutchpp", "xtrace", "xtrace", "xdiag"]) if rng.random() < 0.5 else None  # everybody does the same thing to the same operator
		calls = [dict(gen_call(rng, ops, focus), t=rng.randrange(nt)) for _ in range(rng.randrange(2, 6))]
		if focus:
			for t, o in enumerate(calls):
				o["t"] = t % nt
		if rng.random() < 0.4:  # everybody consults the same criterion
			while crits[0]["k"] not in ("conf", "tol", "knee", "pred", "and", "not"):
				crits[0] = gen_criterion(rng, rng.choice([8, 20]), ops[0]["n"], rng.choice([0.1, 0.3, 1.0]))
			for t, o in enumerate(calls):
				if "crit" in o:
					o.update(crit=0, batch=rng.choice([1, 1, 2]), t=t % nt)
			for t in range(nt):  # and reads it on data of its own
				if rng.random() < 0.6:
					calls.append({"fn": "consult", "w": 0, "t": t, "crit": 0, "seed": rng.randrange(1 << 30), "loc": rng.choice([0.0, 1.0, 30.0]), "scale": rng.choice([1e-6, 1e-2, 1.0, 50.0]), "k": rng.choice([2, 4, 12, 40])})
			rng.shuffle(calls)
		if rng.random() < 0.3:
			calls.append(dict(calls[0], t=(calls[0]["t"] + 1) % nt))
		faults = gen_stalls(rng, list(range(1, nt + 1)), most=3, horizon=400)
		for _ in range(rng.choice([0, 0, 1, 2])):
			if rng.random() < 0.6:
				faults.append({"kind": "call", "site": "op", "n": rng.randrange(1, 30), "delay": rng.choice([0.01, 5.0, 3600.0])})
			else:
				faults.append({"kind": "call", "site": "op", "n": rng.randrange(1, 30), "exc": rng.choice(EXC_NAMES), "torn": rng.random() < 0.3})
		return {"cfg": {"kind": "+".join(sorted(c["k"] for c in ops)), "nt": nt, "where": ops, "crits": crits}, "ops": calls, "faults": faults, "sched": gen_sched(rng, serial=0.04, victims=nt), "gran": rng.choice(["line", "line", "instr", "off"])}

	def run(self, plan, sim):
		cfg = plan["cfg"]

		def solo():
			sim.active = False
			out = []
			for o in plan["ops"]:
				out.append(outcome(o, [mk_op(c, None) for c in cfg["where"]], [criterion(c) for c in cfg["crits"]]))
			return out

		ref = pristine(solo)
		sites = Sites(sim, plan)
		sites.enabled = False
		with quiet(sim):
			ops, crits = [mk_op(c, sites) for c in cfg["where"]], [criterion(c) for c in cfg["crits"]]
		sites.enabled = True
		running = [0]

		def client(t):
			def body():
				for j, o in enumerate(plan["ops"]):
					if o["t"] != t:
						continue
					what = f"call {j} {o} on {cfg['where'][o['w']]} with criterion {cfg['crits'][o['crit']] if 'crit' in o else None}"
					running[0] += 1
					if running[0] > 1:
						sim.probe("overlap")
					try:
						for attempt in range(4):
							try:
								got = outcome(o, ops, crits)
							except (Violation, SimAbort, HarnessError):
								raise
							except BaseException as e:  # this thread's operator call failed: nobody else's business
								check(getattr(root(e), "injected", False) and root(e).who == t + 1, "foreign-failure", lambda: f"{what}: {type(e).__name__}: {e}")
								scrub(e)
								sim.probe("failed")
								continue
							break
					finally:
						running[0] -= 1
					r = ref[j]
					sim.event("call", j, got[0])
					check(got[0] == r[0] and (got[0] == "returned" or got[1] == r[1]), "outcome-differs", lambda: f"{what}: {got} but alone {r}")
					if got[0] == "returned":
						rt = 1e-4 if cfg["where"][o["w"]]["dtype"] == "f4" else 1e-9
						check(len(got[1]) == len(r[1]), "result-differs", lambda: f"{what}: {got} but alone {r}")
						for a, b in zip(got[1], r[1]):
							check(same(a, b, rt), "result-differs", lambda: f"{what}: {diff(a, b)}")
						check(len(got[2]) == len(r[2]) and all(x[0] == y[0] and same(x[1], y[1], rt) for x, y in zip(got[2], r[2])), "callbacks-differ", lambda: f"{what}: callbacks saw {got[2]} but alone {r[2]}")
			return body

		run_clients(sim, [client(t) for t in range(cfg["nt"])])
