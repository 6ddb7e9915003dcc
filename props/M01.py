"""M01: matrix-function operators do not depend on their history, compute f(A)v, and leave their inputs alone."""
QUICK = (6500, 30)
THOROUGH = (3_000_000, 900)
import threading

import numpy as np
import scipy.sparse

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.operators import MatrixFunction, matrix_function
from primate.special import param_callable

FUNS = {"none": lambda x: x, "log": np.log, "exp": np.exp, "sqrt": np.sqrt, "square": np.square, "inv": np.reciprocal, "cube": lambda x: x**3, "const": lambda x: np.full(np.shape(x), 2.5), "neg": np.negative}
STR = {"identity": ({}, lambda x: x), "abs": ({}, np.abs), "sqrt": ({}, np.sqrt), "log": ({}, np.log), "inv": ({}, np.reciprocal), "exp": ({"t": -0.4}, lambda x: np.exp(-0.4 * x)), "smoothstep": ({"a": 0.1, "b": 2.6}, None), "numrank": ({"threshold": 0.01}, lambda x: np.where(np.abs(x) < 0.01, 0.0, 1.0))}


def smooth(x, a=0.1, b=2.6):
	y = np.clip((x - a) / (b - a), 0, 1)
	return 3 * y**2 - 2 * y**3


def real_f(name):
	if name.startswith("str:"):
		return STR[name[4:]][1] or smooth
	return FUNS[name]


def raises(x):
	raise ArithmeticError("never works")


BAD = {"raises": raises, "shape": lambda x: np.full(len(x) + 1, 3.0), "short": lambda x: x[:-1] * 3, "not-callable": 3.0}  # what a matrix function cannot be made of


class Fun:
	"""A user's function: calls are fault points; may hand out the same buffer every time (one per thread)."""

	def __init__(self, name, sites, reuse):
		self.f, self.sites, self.reuse, self.buf = real_f(name), sites, reuse, {}

	def __call__(self, x):
		if self.sites is not None:
			self.sites.hit("fun")
		y = np.asarray(self.f(x))
		if self.reuse:
			b = self.buf.setdefault((threading.get_ident(), y.shape, y.dtype), np.empty_like(y))
			b[...] = y
			return b
		return y


def mk_inner(c, sites):
	n = c["n"]
	M = sym_matrix(n, c["seed"], signs=False).astype(c["dtype"])
	if c["spec"] == "eye":
		M = (np.eye(n) * 1.5).astype(c["dtype"])
	elif c["spec"] == "geo":  # the basis loses its orthogonality quickly
		_, U = np.linalg.eigh(sym_matrix(n, c["seed"], signs=False))
		M = (U * np.geomspace(0.027, 30.0, n)) @ U.T
		M = (M + M.T) / 2
	elif c["spec"] == "weak":  # small couplings
		M = (np.diag(np.linspace(1, 2, n)) + c.get("couple", 1e-3) * (np.eye(n, k=1) + np.eye(n, k=-1))).astype(c["dtype"])
	elif c["spec"] == "diag":
		M = np.diag(np.linspace(0.6, 1.9, n)).astype(c["dtype"])
	elif c["spec"] == "low":  # few distinct eigenvalues
		U = np.linalg.qr(np.random.default_rng(c["seed"]).normal(size=(n, n)))[0]
		M = ((U * np.where(np.arange(n) < 1 + n // 2, 0.7, 1.8)) @ U.T).astype(c["dtype"])
		M = (M + M.T) / 2
	k = c["k"]
	if k == "lin":
		return SimOp(M, sites, reuse=c["reuse"]), M
	if k == "busy":  # and the operator it is compared with does nothing else
		return (SimOp if sites is None else BusyOp)(M, sites, reuse=c["reuse"]), M
	if k == "nested":  # an operator that is a matrix function itself
		return MatrixFunction(SimOp(M @ M, sites, reuse=c["reuse"]), fun=np.sqrt, deg=max(2, n), orth=n, dtype=M.dtype), M
	if k == "duck":
		return DuckOp(M, sites, reuse=c["reuse"]), M
	if k == "array":
		return M, M
	if k == "farray":
		return np.asfortranarray(M), M
	if k == "strided":
		B = np.zeros((2 * n, 2 * n), dtype=M.dtype)
		B[::2, ::2] = M
		return B[::2, ::2], M
	if k == "readonly":
		M2 = M.copy()
		M2.flags.writeable = False
		return M2, M
	return sparse_matrix(M, k, c["seed"]), M


def mk(c, fun, sites):
	inner, M = mk_inner(c, sites)
	kw = {}
	if fun.startswith("str:"):
		f = fun[4:]
		kw = STR[f][0]
	elif fun == "none":
		f = None
	else:
		f = Fun(fun, sites, c["reusefun"])
	return MatrixFunction(inner, fun=f, deg=c["deg"], orth=c["orth"], dtype=np.dtype(c["out"]), **kw), M, inner


def vec(c, o, M):
	n, g = c["n"], np.random.default_rng(o["vseed"])
	m = n + o.get("off", 0)
	k = o["cols"]
	X = g.normal(size=(m, k))
	kind = o["kind"]
	if kind == "eig" and m == n:
		w, U = np.linalg.eigh(M.astype(float))
		X = U[:, g.integers(0, n, size=k)] * g.choice([-2.0, 1.0, 3.0], size=k)
	elif kind == "near-eig" and m == n:
		w, U = np.linalg.eigh(M.astype(float))
		X = U[:, g.integers(0, n, size=k)] + 10.0 ** -g.integers(1, 6) * X
	elif kind == "unit":
		X[:] = 0
		if m:
			X[g.integers(0, m, size=k), np.arange(k)] = 1.0
	elif kind == "signs":
		X = g.choice([-1.0, 1.0], size=(m, k))
	elif kind == "zero":
		X[:, g.integers(0, k)] = 0
	elif kind == "tiny":
		X *= 1e-120
	elif kind == "huge":
		X *= 1e8
	if o["lay"] == "int":
		X = np.round(X * 3).astype(np.int64)
		if m and kind != "zero":
			X[0] += (X == 0).all(axis=0)
	elif o["lay"] == "f4":
		X = X.astype(np.float32)
	elif o["lay"] == "F":
		X = np.asfortranarray(X)
	elif o["lay"] == "strided":
		B = np.zeros((2 * m, 3 * k))
		B[::2, ::3] = X
		X = B[::2, ::3]
	elif o["lay"] == "rev":
		X = X[::-1, ::-1]
	elif o["lay"] == "ro":
		X = X.copy()
		X.flags.writeable = False
	if o["do"] in ("matvec", "at", "quad", "rmatvec", "mf") and k == 1:
		X = X[:, 0]
		if o["do"] in ("matvec",) and o["vseed"] % 3 == 0:
			X = X[:, None]
	return X


def apply(op, c, o, X, inner=None, fun=None):
	do = o["do"]
	with np.errstate(all="ignore"):
		if do == "matvec":
			return op.matvec(X)
		if do == "rmatvec":
			return op.rmatvec(X)
		if do in ("at", "atmat"):
			return op @ X
		if do == "matmat":
			return op.matmat(X)
		if do == "tmat":
			return op.T @ X
		if do in ("quad", "quadmat"):
			return op.quad(X)
		if do == "dot":
			return op.dot(X)
	raise HarnessError(do)


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		k = rng.choice(["lin", "lin", "lin", "duck", "duck", "busy", "nested", "array", "farray", "strided", "readonly", "csr", "csc", "coo"])
		n = gen_size(rng, [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 20, 30]) if k not in ("busy", "nested") else rng.choice([1, 2, 3, 4, 5, 6, 8])
		c = {"k": k, "n": n, "seed": rng.randrange(1 << 30), "dtype": rng.choice(["f8", "f8", "f8", "f4"]), "out": rng.choice(["f8", "f8", "f8", "f4"]), "deg": rng.choice([2, 3, n, n, n + 5, 20]), "orth": rng.choice([0, 1, 3, n, n, -1, 50]),
			"spec": rng.choice(["gen", "gen", "gen", "eye", "diag", "low", "geo", "geo", "weak"]), "couple": rng.choice([0.1, 1e-2, 1e-3]), "reuse": gen_reuse(rng, 0.35), "reusefun": rng.random() < 0.3}
		c["deg"] = max(2, c["deg"])
		if c["spec"] == "geo" and "f4" in (c["dtype"], c["out"]):
			c["spec"] = "gen"
		nt = rng.choice([1, 1, 1, 2, 3])
		fun0 = rng.choice(sorted(FUNS) + ["str:" + s for s in sorted(STR)])
		ops = []
		for _ in range(rng.randrange(2, 9)):
			if nt == 1 and rng.random() < 0.15:
				ops.append({"do": "setfun", "fun": rng.choice(sorted(FUNS)), "t": 0} if rng.random() < 0.6 else {"do": "badfun", "how": rng.choice(sorted(BAD)), "t": 0})
				continue
			if ops and rng.random() < 0.2 and ops[-1]["do"] not in ("setfun", "badfun"):
				ops.append(dict(ops[-1], t=rng.randrange(nt)))
				continue
			do = rng.choice(["matvec", "matvec", "at", "atmat", "matmat", "quad", "quad", "quadmat", "quadmat", "rmatvec", "tmat", "dot"])
			o = {"do": do, "t": rng.randrange(nt), "vseed": rng.randrange(1 << 30), "cols": rng.choice([1, 2, 3, 3, 5, 5, rng.randrange(6, 20) if n < 9 else 7]) if do in ("atmat", "matmat", "quadmat", "tmat", "dot") else 1,
				"kind": rng.choice(["gen", "gen", "gen", "eig", "eig", "near-eig", "unit", "signs", "zero", "zero", "tiny", "huge"]), "lay": rng.choice(["C", "C", "F", "strided", "rev", "ro", "f4", "int"])}
			if o["kind"] in ("tiny", "huge") and (o["lay"] in ("int", "f4") or c["out"] == "f4" or c["dtype"] == "f4"):
				o["kind"] = "gen"
			if rng.random() < 0.08:
				o["off"] = rng.choice([-1, 1, n, 7, -n])
			ops.append(o)
		faults = gen_stalls(rng, list(range(1, nt + 1)), most=2, horizon=200) if nt > 1 else []
		for _ in range(rng.choice([0, 1, 1, 2, 3])):
			r = rng.random()
			if r < 0.3:
				faults.append({"kind": "line", "tid": rng.randrange(1, nt + 1) if nt > 1 else 0, "at": rng.choice([rng.randrange(1, 60), rng.randrange(1, 400)]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
			elif r < 0.45 and k in ("lin", "duck", "busy"):
				faults.append({"kind": "call", "site": "op", "n": rng.randrange(1, 40), "nan": True})
			else:
				faults.append({"kind": "call", "site": rng.choice(["op", "op", "fun"]), "n": rng.randrange(1, 40), "exc": rng.choice(EXC_NAMES), "torn": rng.random() < 0.2})
		return {"cfg": {"kind": f"{k}/{c['dtype']}>{c['out']}", "op": c, "fun": fun0, "nt": nt}, "ops": ops, "faults": faults, "sched": gen_sched(rng, victims=nt), "gran": rng.choice(["line", "line", "instr"]) if nt > 1 else "line"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		c = cfg["op"]
		ops = plan["ops"]

		def solo():
			sim.active = False
			out, fun = [], cfg["fun"]
			for o in ops:
				if o["do"] in ("setfun", "badfun"):
					fun = o.get("fun", fun)
					out.append(None)
					continue
				op, M, inner = mk(c, fun, None)
				X = vec(c, o, M)
				try:
					out.append(("returned", np.array(apply(op, c, o, X))))
				except Exception as e:
					out.append(("raised", type(e).__name__))
			return out

		ref = pristine(solo)
		sites = Sites(sim, plan)
		sim.mask_line_faults, sites.enabled = True, False
		op, M, inner = mk(c, cfg["fun"], sites)
		if isinstance(inner, np.ndarray) or scipy.sparse.issparse(inner):
			keep = content(inner)
		sim.mask_line_faults, sites.enabled = False, True
		sites.n.clear()
		sim.threads[0].lines = 0
		fun = [cfg["fun"]]
		full = c["deg"] >= c["n"] and (c["orth"] < 0 or c["orth"] >= c["n"])
		low = "f4" in (c["dtype"], c["out"])
		w, U = np.linalg.eigh(M.astype(float))
		held = []
		logs = getattr(inner, "log", None)

		def client(t):
			def body():
				for j, o in enumerate(ops):
					if o["t"] == t:
						step(j, o, t)
			return body

		def mine(e, t):
			e = root(e)
			return getattr(e, "injected", False) and (cfg["nt"] == 1 or getattr(e, "who", t + 1) == t + 1)

		def step(j, o, t):
			what = lambda: f"step {j} {o} with f={fun[0]} on {c}"
			if o["do"] == "setfun":
				with quiet(sim):
					sim.mask_line_faults, sites.enabled = True, False
					op.fun = Fun(o["fun"], sites, c["reusefun"])
					sim.mask_line_faults, sites.enabled = False, True
				fun[0] = o["fun"]
				return
			if o["do"] == "badfun":  # is refused, and nothing has changed
				try:
					op.fun = BAD[o["how"]]
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as e:
					scrub(e)
				else:
					raise Violation("unsuitable-function-accepted", what())
				sim.probe("function-refused")
				return
			X = vec(c, o, M)
			Xc = X.copy()
			r = ref[j]
			for attempt in range(len(plan["faults"]) + 1):
				nans = sim.fired.get("nan:op", 0)
				try:
					got = ("returned", apply(op, c, o, X))
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as e:
					if is_injected(e):
						check(mine(e, t), "failure-disguised", lambda: f"{what()}: an injected failure came back as {type(e).__name__}: {e}")
						scrub(e)
						sim.probe("failed")
						check(np.array_equal(X, Xc, equal_nan=True), "input-modified", lambda: f"{what()}: a failed call changed its input")
						continue
					got = ("raised", type(e).__name__, str(e))
					scrub(e)
				check(np.array_equal(X, Xc), "input-modified", lambda: f"{what()}: {diff(X, Xc)}")
				if sim.fired.get("nan:op", 0) != nans:  # the operator answered nonsense: so may this call, but no later one
					sim.probe("nonsense")
					continue
				break
			sim.event("step", j, got[0])
			check(got[0] == r[0] and (got[0] == "returned" or got[1] == r[1]), "outcome-differs", lambda: f"{what()}: {got} but a fresh operator: {r}")
			if got[0] == "raised":
				return
			Y = np.asarray(got[1])
			rt = 1e-3 if low else 1e-6
			check(same(Y, r[1], 1e-4 if low else 1e-8), "differs-from-fresh", lambda: f"{what()}: {diff(Y, r[1])}")
			held.append((j, Y, Y.copy()))
			f = real_f(fun[0])
			if full and not o.get("off"):
				X2 = np.reshape(Xc, (c["n"], -1)).astype(float)
				with np.errstate(all="ignore"):
					fA = (U * f(w)) @ U.T
				E = fA @ X2
				nx = np.linalg.norm(X2, axis=0)
				sf = float(np.max(np.abs(f(w))))
				if o["do"].startswith("quad"):
					E, tol = np.einsum("ij,ij->j", X2, E), rt * sf * nx**2
					G = np.ravel(Y)
					ok = G.shape == E.shape and np.all(np.abs(G - E) <= tol)
				else:
					tol = rt * sf * nx
					G = np.reshape(Y, (c["n"], -1))
					ok = G.shape == E.shape and np.all(np.abs(G - E) <= tol)
				check(ok, "not-f-of-A", lambda: f"{what()}: {diff(G, E)}")
				sim.probe("checked-against-f(A)")
			elif o["cols"] > 1 and not o.get("off"):
				quads = o["do"].startswith("quad")
				with quiet(sim):
					m = sites.enabled, sim.mask_line_faults
					sites.enabled, sim.mask_line_faults = False, True
					fresh = mk(c, fun[0], None)[0]
					with np.errstate(all="ignore"):
						C = np.stack([np.ravel(fresh.quad(Xc[:, i]) if quads else fresh @ Xc[:, i]) for i in range(o["cols"])], axis=1)
					sites.enabled, sim.mask_line_faults = m
				check(same(np.reshape(Y, (len(C), -1)), C, 1e-4 if low else 1e-8), "columns-differ", lambda: f"{what()}: {diff(np.reshape(Y, (len(C), -1)), C)}")

		if cfg["nt"] == 1:
			client(0)()
		else:
			run_clients(sim, [client(t) for t in range(cfg["nt"])])
		for j, Y, Yc in held:
			check(np.array_equal(Y, Yc, equal_nan=True), "result-changed", lambda: f"the result of step {j} {ops[j]} changed later: {diff(Y, Yc)}")
		if isinstance(inner, np.ndarray) or scipy.sparse.issparse(inner):
			check(content(inner) == keep, "operator-modified", lambda: f"{c}: the matrix itself was changed")
