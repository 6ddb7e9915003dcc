"""M04: normalized operators are affine images with their spectrum in the unit interval, for any history and failure."""
QUICK = (9000, 30)
THOROUGH = (3_000_000, 900)
EXT = True
import numpy as np
import scipy.linalg
import scipy.sparse
from scipy.sparse.linalg import aslinearoperator

from sim.lib import *  # noqa
from sim.est import *  # noqa
from primate.operators import MatrixFunction, Toeplitz, normalize_unit


def gen_op(rng):
	k = rng.choice(["array", "array", "sparse", "lin", "lin", "lin", "aslin", "toeplitz", "mf", "normalized"])
	n = gen_size(rng, [1, 2, 3, 4, 6, 9, 15, 24]) if k != "mf" else rng.choice([2, 3, 4, 6, 9, 15, 24])
	c = {"k": k, "n": n if k != "mf" else max(n, 2), "seed": rng.randrange(1 << 30), "spec": rng.choice(["both", "both", "pos", "neg", "tie", "shifted", "rank1", "identity", "laplacian", "lowrank"]), "scale": rng.choice([1.0, 1.0, 1.0, 1e-4, 1e3, 1e-7, 1e-12, 1e-30, 1e8]), "dtype": rng.choice(["f8", "f8", "f8", "f4"]) if k in ("array", "sparse", "lin") else "f8", "reuse": rng.random() < 0.5}
	if k == "mf":  # its own accuracy is not at issue here
		c.update(scale=1.0, spec=rng.choice(["both", "pos", "neg"]))
	return c


def matrix(c):
	n, g = c["n"], np.random.default_rng(c["seed"])
	if c["spec"] in ("laplacian", "lowrank") and n > 1:
		return singular_matrix(c["spec"], n, c["seed"]) * c["scale"]
	U = np.linalg.qr(g.normal(size=(n, n)))[0]
	w = g.uniform(0.2, 1.0, size=n)
	s = c["spec"]
	if s == "both":
		w = w * g.choice([-1.0, 1.0], size=n)
	elif s == "neg":
		w = -w
	elif s == "tie":
		w[0] = 1.5
		w[-1] = -1.5
	elif s == "shifted":
		w = 10 + w
	elif s == "rank1":
		w[1:] = 0
	elif s == "identity":
		w[:] = w[0]
	M = (U * (w * c["scale"])) @ U.T
	return (M + M.T) / 2


def build(c, sites):
	"""what is normalized, the matrix it stands for"""
	M, dt = matrix(c), np.dtype(c["dtype"])
	if c["k"] == "toeplitz":
		col = M[:, 0].copy()
		return Toeplitz(col), scipy.linalg.toeplitz(col)
	M = M.astype(dt)
	A = M.astype(float)
	if c["k"] == "array":
		return (np.asfortranarray(M) if c["reuse"] else M.copy()), A
	if c["k"] == "sparse":
		return sparse_matrix(M, "csr" if c["reuse"] else "csc", c["seed"]), A
	if c["k"] == "aslin":
		return aslinearoperator(M.copy()), A
	if c["k"] == "mf":
		return MatrixFunction(SimOp(M, sites), fun=np.tanh, deg=c["n"], orth=c["n"]), (lambda w, U: (U * np.tanh(w)) @ U.T)(*np.linalg.eigh(A))
	if c["k"] == "normalized":
		return normalize_unit(M.copy()), None
	return SimOp(M, sites, reuse=c["reuse"]), A


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		specs = [gen_op(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
		ops = []
		for _ in range(rng.choice([1, 2, 3, 4, 6])):
			r = rng.random()
			if r < 0.6:
				ops.append({"do": "normalize", "op": rng.randrange(len(specs))})
			elif r < 0.9:
				ops.append({"do": "apply", "op": rng.randrange(len(specs)), "which": rng.randrange(4), "cols": rng.choice([0, 1, 3]), "vseed": rng.randrange(1 << 30), "kind": rng.choice(["gen", "gen", "zero", "small"])})
			elif r < 0.94:
				for _ in range(rng.choice([1, 2, 3])):  # made, normalized and dropped
					ops.append({"do": "once", "op": rng.randrange(len(specs)), "grow": rng.choice([1.0, 3.0, 0.25, -2.0]), "other": rng.randrange(1 << 20)})
			else:
				ops.append({"do": rng.choice(["reseed", "draw"]), "n": rng.randrange(1, 9)})
		faults = []
		for _ in range(rng.choice([0, 1, 1, 2])):
			r = rng.random()
			if r < 0.3:
				faults.append({"kind": "line", "tid": 0, "at": rng.choice([rng.randrange(1, 12), rng.randrange(1, 60)]), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
			elif r < 0.45:
				faults.append({"kind": "call", "site": "op", "n": rng.randrange(1, 40), "delay": rng.choice([0.01, 5.0, 3600.0])})
			else:
				faults.append({"kind": "call", "site": "op", "n": rng.choice([1, 2, 3, rng.randrange(1, 40)]), "exc": rng.choice(EXC_NAMES), "torn": rng.random() < 0.3})
		return {"cfg": {"kind": "+".join(sorted({s["k"] for s in specs})), "specs": specs}, "ops": ops, "faults": faults, "gran": "line" if any(f["kind"] == "line" for f in faults) else "off"}

	def run(self, plan, sim):
		sites = Sites(sim, plan)
		with quiet(sim):
			sites.enabled = False
			world = []
			for c in plan["cfg"]["specs"]:
				world.append(self.party(c, sites))
			sites.enabled = True
		todo = list(enumerate(plan["ops"]))
		while todo:
			j, o = todo[0]
			if o["do"] == "reseed":
				np.random.seed(o["n"])
			elif o["do"] == "draw":
				np.random.rand(o["n"])
			if o["do"] in ("reseed", "draw"):
				todo.pop(0)
				continue
			w = world[o["op"]]
			c = w["c"]
			if o["do"] == "once":
				c = dict(c, seed=o["other"], scale=c["scale"] * o["grow"])
				with quiet(sim):
					sites.enabled = False
					w = self.party(c, sites)
					sites.enabled = True
			if o["do"] == "apply" and not w["done"]:
				o = {"do": "normalize", "op": o["op"]}
			sim.injected = None
			nr = len(sites.raised)
			what = lambda: f"step {j} {o} on {c}"
			with quiet(sim):
				X = self.vector(c, o) if o["do"] == "apply" else None
				Xc = None if X is None else X.copy()
			state = np.random.get_state()
			try:
				with np.errstate(all="ignore"):
					import warnings
					with warnings.catch_warnings():
						warnings.simplefilter("ignore")
						r = normalize_unit(w["op"]) if o["do"] != "apply" else w["done"][o["which"] % len(w["done"])]["L"] @ X
			except (Violation, SimAbort, HarnessError):
				raise
			except BaseException as e:
				if not is_injected(e) and e is not sim.injected:
					import traceback
					raise Violation("failed", f"{what()}: {type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
				scrub(e)
				sim.probe("failed-then-retried")
				continue
			check(len(sites.raised) == nr and sim.injected is None, "failure-swallowed", lambda: f"{what()}: returned although {sites.raised[nr:] or sim.injected!r} was raised during it")
			todo.pop(0)
			with quiet(sim):
				sites.enabled = False
				now = np.random.get_state()
				check(state[2:] == now[2:] and np.array_equal(state[1], now[1]), "global-state", lambda: f"{what()}: the process-wide random state was disturbed")
				if w["keep"] is not None:
					check(content(w["op"]) == w["keep"], "operator-modified", what)
				if o["do"] != "apply":
					self.judge(sim, w, r, what)
				else:
					d = w["done"][o["which"] % len(w["done"])]
					check(np.array_equal(X, Xc), "input-modified", what)
					E = d["M"] @ Xc
					check(np.shape(r) == np.shape(E), "shape", lambda: f"{what()}: {np.shape(r)} for {np.shape(Xc)}")
					check(same(r, E, (1e-5 if c["dtype"] == "f4" or c["k"] == "mf" else 1e-9) * min(max(1.0, d["size"]), 1e3), 1e-300), "product-differs", lambda: f"{what()}: {diff(r, E)}")
					sim.event("apply", j)
				sites.enabled = True

	def party(self, c, sites):
		op, A = build(c, sites)
		if A is None:
			A = op @ np.eye(c["n"])
			A = (A + A.T) / 2
		return {"c": c, "op": op, "A": A, "done": [], "keep": content(op) if c["k"] in ("array", "sparse") else None}

	def vector(self, c, o):
		g = np.random.default_rng(o["vseed"])
		X = g.normal(size=(c["n"], max(1, o["cols"]))) * (0.0 if o["kind"] == "zero" else 1e-8 if o["kind"] == "small" else 1.0)
		return X[:, 0] if o["cols"] == 0 else X

	def judge(self, sim, w, L, what):
		"""L is c A + d I with its spectrum in [-1, 1]."""
		c, A, n = w["c"], w["A"], w["c"]["n"]
		tol = 2e-4 if c["dtype"] == "f4" else 1e-6 if c["k"] == "mf" else 1e-8
		check(tuple(L.shape) == (n, n), "shape", lambda: f"{what()}: {L.shape}")
		M = np.asarray(L @ np.eye(n), dtype=float)
		check(np.isfinite(M).all(), "not-finite", lambda: f"{what()}: {M}")
		top = np.max(np.abs(np.linalg.eigvalsh(A)))
		basis = np.stack([(A / top).ravel(), np.eye(n).ravel()], axis=1)
		coef = np.linalg.lstsq(basis, M.ravel(), rcond=1e-10)[0]
		res = np.max(np.abs(basis @ coef - M.ravel()))
		check(res <= tol * max(1.0, np.max(np.abs(M))), "not-affine", lambda: f"{what()}: differs by {res:.3g} from the closest affine image")
		ew = np.linalg.eigvalsh((M + M.T) / 2)
		check(ew[0] >= -1 - tol and ew[-1] <= 1 + tol, "spectrum", lambda: f"{what()}: spectrum in [{ew[0]}, {ew[-1]}]")
		spread = np.ptp(np.linalg.eigvalsh(A)) / top
		if spread > 1e-3:
			check(abs(coef[0]) >= 1e-2, "collapsed", lambda: f"{what()}: slope {coef[0]:.3g} relative to the largest eigenvalue {top:.3g}")
		for d in w["done"]:
			tie = abs(np.sum(np.abs(np.abs(np.linalg.eigvalsh(A)) - top) < 1e-6 * top)) > 1
			check(tie or same(d["M"], M, tol), "differs-from-earlier", lambda: f"{what()}: {diff(M, d['M'])}")
			M2 = np.asarray(d["L"] @ np.eye(n), dtype=float)
			check(same(M2, d["M"], tol), "earlier-changed", lambda: f"{what()}: an operator normalized earlier changed: {diff(M2, d['M'])}")
		w["done"].append({"L": L, "M": M, "size": max(1.0, top)})
		sim.event("normalized", n, int(np.sign(coef[0])))
