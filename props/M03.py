"""M03: Toeplitz products equal the dense product for any history and any sharing threads."""
QUICK = (9000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np
import scipy.linalg

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.operators import Toeplitz


def mk_cr(c):
	n, g = c["n"], np.random.default_rng(c["seed"])
	col, row = g.normal(size=n), g.normal(size=n)
	if c["spec"] == "circulant":
		row = np.r_[col[0], col[1:][::-1]]
	elif c["spec"] == "lower":
		row = np.zeros(n)
	elif c["spec"] == "band":
		col[1 + c["seed"] % 4 :] = 0
		row[1 + c["seed"] // 4 % 4 :] = 0
	elif c["spec"] == "nearly":  # symmetric but for the last digits
		row = col * (1 + 10.0 ** -c.get("digits", 6) * row)
	elif c["spec"] == "corner":  # the first entries disagree
		row = np.r_[col[0] + 3, col[1:]]
	elif c["spec"] == "big":
		col *= 1e6
		row *= 1e6
	if c["ctype"] == "int":
		col, row = np.round(col * 5).astype(int), np.round(row * 5).astype(int)
	elif c["ctype"] == "f4":
		col, row = col.astype(np.float32), row.astype(np.float32)
	elif c["ctype"] == "strided":
		b = np.full(2 * n, 9.0)
		b[::2] = col
		col = b[::2]
	elif c["ctype"] == "list":
		col, row = col.tolist(), row.tolist()
	return col, (row if c["row"] else None)


def vec(c, o):
	g = np.random.default_rng(o["vseed"])
	m, k = c["n"] + o.get("off", 0), o["cols"]
	X = g.normal(size=(m, k))
	if o["kind"] == "unit" and m:
		X[:] = 0
		X[g.integers(0, m, size=k), np.arange(k)] = 1
	elif o["kind"] == "zero":
		X[:] = 0
	elif o["kind"] == "big":
		X *= 1e5
	elif o["kind"] == "small":
		X *= 10.0 ** -g.integers(4, 30)
	if o["lay"] == "int":
		X = np.round(X * 3).astype(np.int64)
	elif o["lay"] == "f4":
		X = X.astype(np.float32)
	elif o["lay"] == "F":
		X = np.asfortranarray(X)
	elif o["lay"] == "strided":
		B = np.zeros((2 * m, 3 * k))
		B[::2, ::3] = X
		X = B[::2, ::3]
	elif o["lay"] == "ro":
		X.flags.writeable = False
	if o["do"] in ("matvec", "at") and k == 1 and not (o["do"] == "matvec" and o["vseed"] % 3 == 0):
		X = X[:, 0]
	return X


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		n = gen_size(rng, [1, 2, 3, 4, 5, 8, 13, 32, 50], (100, 257, 600))
		c = {"n": n, "seed": rng.randrange(1 << 30), "spec": rng.choice(["gen", "gen", "circulant", "lower", "band", "band", "big", "nearly", "nearly", "corner"]), "digits": rng.choice([3, 6, 9]), "ctype": rng.choice(["f8", "f8", "f8", "int", "f4", "strided", "list"]), "row": rng.random() < 0.65, "out": rng.choice(["f8", "f8", "f8", "f4"]), "scribble": rng.random() < 0.4}
		nt = rng.choice([1, 2, 2, 3, 4])
		ops = []
		for _ in range(rng.randrange(2, 9)):
			do = rng.choice(["matvec", "at", "atmat", "matmat", "dot"])
			o = {"do": do, "t": rng.randrange(nt), "vseed": rng.randrange(1 << 30), "cols": rng.choice([1, 2, 4, 4, rng.randrange(5, 40)]) if do in ("atmat", "matmat", "dot") else 1, "kind": rng.choice(["gen", "gen", "gen", "unit", "zero", "big", "small"]), "lay": rng.choice(["C", "C", "F", "strided", "ro", "f4", "int"])}
			if rng.random() < 0.1:
				o["off"] = rng.choice([-1, 1, n, -n])
			ops.append(o)
		faults = gen_stalls(rng, list(range(1, nt + 1)), most=3, horizon=60)
		for _ in range(rng.choice([0, 0, 1, 2])):
			faults.append({"kind": "line", "tid": rng.randrange(1, nt + 1), "at": rng.randrange(1, 40), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
		return {"cfg": {"kind": c["spec"] + ("/row" if c["row"] else ""), "op": c, "nt": nt}, "ops": ops, "faults": faults, "sched": gen_sched(rng, serial=0.05, victims=nt), "gran": rng.choice(["line", "instr", "instr"])}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		c = cfg["op"]
		n = c["n"]
		col, row = mk_cr(c)
		T = scipy.linalg.toeplitz(np.array(col, dtype=float), None if row is None else np.array(row, dtype=float))
		keep = [None if z is None else np.array(z) for z in (col, row)]
		op = lib("construction-failed", Toeplitz, col, row, dtype=np.dtype(c["out"]))
		for z, zc in zip((col, row), keep):
			check(z is None or np.array_equal(np.array(z), zc), "input-modified", lambda: f"{c}: building the operator changed {zc} to {z}")
		check(op.shape == (n, n) and op.dtype == np.dtype(c["out"]), "shape", lambda: f"{c}: {op.shape} {op.dtype}")
		if c["scribble"]:  # the caller goes on to use its arrays for something else
			for z in (col, row):
				if isinstance(z, np.ndarray):
					z[...] = 77
				elif isinstance(z, list):
					z[:] = [77.0] * len(z)
		held = []
		norm = float(np.sum(np.abs(T[:, 0])) + np.sum(np.abs(T[0])))

		def client(t):
			def body():
				for j, o in enumerate(plan["ops"]):
					if o["t"] == t:
						step(j, o, t)
			return body

		def step(j, o, t):
			what = lambda: f"step {j} {o} on {c}"
			X = vec(c, o)
			Xc = X.copy()
			for attempt in range(len(plan["faults"]) + 1):
				try:
					Y = {"matvec": op.matvec, "at": op.__matmul__, "atmat": op.__matmul__, "matmat": op.matmat, "dot": op.dot}[o["do"]](X)
					err = None
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as e:
					err = e
				check(np.array_equal(X, Xc), "input-modified", lambda: f"{what()}: {diff(X, Xc)}")
				if err is not None and is_injected(err):
					scrub(err)
					sim.probe("interrupted")
					continue
				break
			if o.get("off"):
				check(err is not None, "wrong-size-accepted", lambda: f"{what()}: gave {Y!r}")
				scrub(err)
				return
			check(err is None, "product-failed", lambda: f"{what()}: {type(err).__name__}: {err}")
			sim.event("product", j)
			check(Y.dtype == np.dtype(c["out"]), "precision", lambda: f"{what()}: {Y.dtype}")
			X2 = np.reshape(Xc, (n, -1)).astype(float)
			E = T @ X2
			check(Y.shape == Xc.shape, "shape", lambda: f"{what()}: {Y.shape} for {Xc.shape}")
			tol = (4e-6 if c["out"] == "f4" else 1e-13) * norm * (np.max(np.abs(X2)) + 1e-300) * np.sqrt(n)
			check(np.max(np.abs(np.reshape(Y, (n, -1)) - E)) <= tol, "product-differs", lambda: f"{what()}: {diff(np.reshape(Y, (n, -1)), E)}")
			held.append((j, Y, Y.copy()))

		run_clients(sim, [client(t) for t in range(cfg["nt"])])
		for j, Y, Yc in held:
			check(np.array_equal(Y, Yc), "result-changed", lambda: f"the result of step {j} {plan['ops'][j]} changed later: {diff(Y, Yc)}")
