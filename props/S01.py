"""S01: a spectral function is fixed by its parameters when it is made: values, arguments and earlier results do not depend on what else is made or evaluated."""
QUICK = (15000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from primate.operators import MatrixFunction
from primate.special import exp, param_callable, smoothstep, softsign, step

NAMES = ["exp", "smoothstep", "numrank", "softsign", "step", "log", "abs", "sqrt", "inv", "identity"]


def gen_fun(rng):
	name = rng.choice(NAMES[:5] + NAMES)
	p = {}
	if rng.random() < 0.8:
		if name == "exp":
			p = {"t": rng.choice([-2.0, -0.4, 0.0, 0.5, 1.0, 2.0, rng.uniform(-3, 3)])}
		elif name == "smoothstep":
			p = {k: v for k, v in (("a", rng.choice([-1.0, 0.0, 0.1, 0.5, rng.uniform(-2, 2)])), ("b", rng.choice([0.2, 1.0, 2.6, 0.5, rng.uniform(-2, 2)]))) if rng.random() < 0.8}
		elif name == "numrank":
			p = {"threshold": rng.choice([1e-6, 0.01, 0.5, 2.0, rng.uniform(0, 2)])}
		elif name == "softsign":
			p = {"q": rng.choice([0, 1, 2, 10, 40, rng.randrange(3, 30)])}
		elif name == "step":
			p = {k: v for k, v in (("c", rng.choice([0.0, 0.5, -0.5, 1.0])), ("nonnegative", rng.random() < 0.5)) if rng.random() < 0.8}
	return {"name": name, "p": p}


def make(f):
	n, p = f["name"], f["p"]
	if n in ("softsign", "step"):
		return {"softsign": softsign, "step": step}[n](**p)
	return param_callable(n, **p)


def direct(f, x):
	"""The form in which the points are given at once."""
	n, p = f["name"], f["p"]
	m = {"exp": exp, "smoothstep": smoothstep, "softsign": softsign, "step": step}.get(n)
	return m(x, **p) if m else make(f)(x)


def definition(f, x):
	n, p = f["name"], f["p"]
	x = np.array(x, dtype=float)
	if n == "exp":
		return np.exp(p.get("t", 1.0) * x)
	if n == "smoothstep":
		a, b = p.get("a", 0.0), p.get("b", 1.0)
		y = np.minimum(np.maximum((x - a) / ((b - a) if a != b else 1.0), 0), 1)
		return y * y * (3 - 2 * y)
	if n == "numrank":
		return np.where(np.abs(x) < p.get("threshold", 1e-6), 0.0, 1.0)
	if n == "step":
		return np.where((np.abs(x) if p.get("nonnegative") else x) < p.get("c", 0.0), 0.0, 1.0)
	if n == "softsign":
		x = np.minimum(np.maximum(x, -1), 1)
		s, J = np.zeros_like(x), 1.0
		for j in range(p.get("q", 1) + 1):
			J *= (2 * j - 1) / (2 * j) if j else 1.0
			s += x * (1 - x * x) ** j * J
		return s
	return {"log": lambda: np.log(np.maximum(x, np.finfo(float).eps)), "abs": lambda: np.abs(x), "sqrt": lambda: np.sqrt(x), "inv": lambda: 1 / x, "identity": lambda: x}[n]()


def mk_x(a):
	g = np.random.default_rng(a["seed"])
	lo = {"pos": 0.05, "any": -2.0, "unit": -1.0}[a["range"]]
	x = g.uniform(lo, {"pos": 3.0, "any": 2.0, "unit": 1.0}[a["range"]], size=a["n"] if a["lay"] != "2d" else (a["n"], 3))
	if a["lay"] == "scalar":
		return float(x[0]) if a["n"] else 0.3
	if a["lay"] == "npscalar":
		return np.float64(x[0]) if a["n"] else np.float64(0.3)
	if a["lay"] == "strided":
		b = np.full(2 * a["n"], 9.0)
		b[::2] = x
		return b[::2]
	if a["lay"] == "f4":
		return x.astype(np.float32)
	if a["lay"] == "ro":
		x.flags.writeable = False
	return x


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		funs = [gen_fun(rng)]
		for _ in range(rng.choice([0, 1, 1, 2, 3])):
			f = gen_fun(rng)
			while rng.random() < 0.6 and f["name"] != funs[0]["name"]:  # others of one name
				f = gen_fun(rng)
			funs.append(f)
		args = [{"n": rng.choice([0, 1, 2, 3, 5, 8, 40, 300]), "seed": rng.randrange(1 << 30), "range": rng.choice(["pos", "any", "unit"]), "lay": rng.choice(["C", "C", "C", "strided", "ro", "f4", "scalar", "npscalar", "2d"])} for _ in range(rng.choice([1, 2, 3]))]
		nt = rng.choice([1, 2, 2, 3])
		ops = [{"f": rng.randrange(len(funs)), "a": rng.randrange(len(args)), "t": rng.randrange(nt), "how": rng.choice(["kept", "kept", "kept", "fresh", "direct", "matrix", "keptmatrix"]), "scribble": rng.random() < 0.3} for _ in range(rng.randrange(2, 10))]
		faults = gen_stalls(rng, list(range(1, nt + 1)), most=2, horizon=40)
		for _ in range(rng.choice([0, 0, 1, 2])):
			faults.append({"kind": "line", "tid": rng.randrange(1, nt + 1), "at": rng.randrange(1, 40), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
		return {"cfg": {"kind": "+".join(sorted({f["name"] for f in funs})), "funs": funs, "args": args, "nt": nt, "lazy": rng.random() < 0.6}, "ops": ops, "faults": faults, "sched": gen_sched(rng, serial=0.05, victims=nt), "gran": rng.choice(["line", "line", "instr"])}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		funs, args = cfg["funs"], [mk_x(a) for a in cfg["args"]]
		kept = [np.array(x) for x in args]
		made = [None if cfg["lazy"] else lib("make-failed", make, f) for f in funs]  # lazily: by the thread that first needs it
		operator = lambda f: MatrixFunction(np.diag(ev), f["name"] if f["name"] not in ("softsign", "step") else make(f), 5, orth=5, **(f["p"] if f["name"] not in ("softsign", "step") else {}))
		ev = np.array([0.3, 0.55, 0.9, 1.2, 1.7])
		mats = [None if cfg["lazy"] else lib("make-failed", operator, f) for f in funs]
		held = []

		def client(t):
			def body():
				for j, o in enumerate(plan["ops"]):
					if o["t"] == t:
						one(j, o)
			return body

		def one(j, o):
			f, a, x = funs[o["f"]], cfg["args"][o["a"]], args[o["a"]]
			what = lambda: f"step {j} {o}: {f} on {a}"
			matrix = o["how"] in ("matrix", "keptmatrix")
			if not matrix:
				if f["name"] in ("sqrt", "inv") and a["range"] != "pos" or f["name"] == "softsign" and a["lay"] == "2d":
					return
			v = np.random.default_rng(a["seed"]).normal(size=5)
			for attempt in range(len(plan["faults"]) + 1):
				try:
					if o["how"] == "kept":
						made[o["f"]] = made[o["f"]] or make(f)
						y = made[o["f"]](x)
					elif o["how"] == "fresh":
						y = make(f)(x)
					elif o["how"] == "direct":
						y = direct(f, x)
					elif o["how"] == "keptmatrix":
						mats[o["f"]] = mats[o["f"]] or operator(f)
						y = mats[o["f"]].matvec(v)
					else:
						y = (MatrixFunction(np.diag(ev), make(f), 5, orth=5)) @ v
					err = None
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as e:
					err = e
				if err is not None and is_injected(err):
					scrub(err)
					sim.probe("interrupted")
					continue
				break
			check(err is None, "evaluation-failed", lambda: f"{what()}: {type(err).__name__}: {err}")
			sim.event("evaluated", j)
			if matrix:
				if f["name"] == "smoothstep" or f["name"] in ("numrank", "step"):  # jumps and kinks magnify the rounding of the eigenvalues
					q = f["p"].get("threshold", f["p"].get("c", 1e-6 if f["name"] == "numrank" else 0.0))
					if f["name"] != "smoothstep" and np.min(np.abs(ev - q)) < 1e-6:
						return
				E, tol = definition(f, ev) * v, 1e-7
			else:
				E, tol = definition(f, kept[o["a"]]), 1e-5 if a["lay"] == "f4" else 1e-11
				if f["name"] in ("numrank", "step") and a["lay"] == "f4":
					E = definition(f, x)
			Y = np.asarray(y, dtype=float)
			check(Y.size == E.size and (Y.shape == E.shape or f["name"] == "softsign"), "shape", lambda: f"{what()}: {Y.shape} for {E.shape}")
			Y = np.reshape(Y, E.shape)
			scale = np.abs(E) + (np.max(np.abs(E), initial=0.0) + 1 if matrix else (1.0 if f["name"] in ("log", "smoothstep", "softsign") else 0.0))
			check(np.all(np.abs(Y - E) <= tol * scale + 1e-300), "value-differs", lambda: f"{what()}: {diff(Y, E)}")
			if isinstance(y, np.ndarray) and y.ndim and not (f["name"] == "identity" and not matrix):
				check(not any(isinstance(z, np.ndarray) and np.shares_memory(z, y) for z in args), "argument-returned", what)
				if o["scribble"]:
					y[...] = 77.0
				else:
					held.append((j, y, y.copy()))

		run_clients(sim, [client(t) for t in range(cfg["nt"])])
		for x, k, a in zip(args, kept, cfg["args"]):
			check(np.array_equal(np.array(x), k), "argument-modified", lambda: f"{a}: {diff(np.array(x), k)}")
		for j, y, yc in held:
			check(np.array_equal(y, yc), "result-changed", lambda: f"the result of step {j} {plan['ops'][j]} changed later")
		ref = np.linspace(0.1, 0.9, 4)
		for f, m in zip(funs, made):
			y = np.ravel(lib("evaluation-failed", m or make(f), ref.copy()))
			check(np.allclose(y, definition(f, ref), rtol=1e-11, atol=1e-12), "value-differs", lambda: f"{f} at the end: {diff(y, definition(f, ref))}")
