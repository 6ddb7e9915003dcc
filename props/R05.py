"""R05: seeded generation is a function of its arguments alone."""
EXT = False
QUICK = (10000, 30)
THOROUGH = (3_000_000, 900)
import random

import numpy as np

from sim.lib import *  # noqa
from primate.random import haar, isotropic, symmetric

from props.R01 import PDFS


def gen_call(rng):
	f = rng.choice(["isotropic", "isotropic", "closure", "out", "symmetric", "symmetric", "haar"])
	n = gen_size(rng, [2, 3, 4, 6, 9])
	o = {"f": f, "n": n, "w": rng.choice([1, 2, 3, 7]), "seed": rng.choice([0, 1, 2, 3, 1234, rng.randrange(1 << 30)]), "pdf": rng.choice(PDFS), "reps": rng.choice([1, 1, 2])}
	if f == "symmetric":
		o.update(dist=rng.choice(["normal", "uniform"]), pd=rng.random() < 0.5, ew=rng.choice([0, 0, 0, 1, 2, 3, 4, 5]))
	if f == "haar":
		o.update(ew=rng.choice([0, 0, 0, 1, 2, 3, 4, 5]))
	if f == "out":
		o.update(order=rng.choice(["F", "F", "C"]))
	if f in ("isotropic", "closure"):
		o.update(size=rng.choice(["tuple", "tuple", "int"]))
	return o


def spectrum(o):
	return [None, np.linspace(-1, 2, o["n"]), np.geomspace(1e-3, 5, o["n"]), np.cos(1.0 + 2.0 * np.arange(o["n"])), 3e4 * np.cos(1.0 + 2.0 * np.arange(o["n"])), np.linspace(-2.0, -1.0, o["n"]) * 1e-6][int(o.get("ew", 0))]


def judge(o, r):
	if o["f"] not in ("symmetric", "haar"):
		return
	n = o["n"]
	check(r.shape == (n, n) and np.max(np.abs(r - r.T)) <= 1e-12 * max(1.0, np.max(np.abs(r))), "not-symmetric", lambda: f"{o}: {r}")
	w, ew = np.linalg.eigvalsh((r + r.T) / 2), spectrum(o)
	if ew is not None and not (o.get("pd") and ew.min() < 0):
		check(np.max(np.abs(w - np.sort(ew))) <= 1e-10 * max(1.0, np.max(np.abs(ew))), "wrong-spectrum", lambda: f"{o}: {w} but {ew} were requested")
	elif ew is None:
		lo = 0.0 if o.get("pd") else -1.0
		check(w[0] >= lo - 1e-12 and w[-1] <= 1 + 1e-12, "wrong-spectrum", lambda: f"{o}: {w}")


def call(o, seed):
	n = o["n"]
	ew = spectrum(o)
	ew0 = None if ew is None else ew.copy()
	r = call_(o, seed, n, ew)
	check(ew is None or np.array_equal(ew, ew0), "argument-modified", lambda: f"{o}")
	return r


def call_(o, seed, n, ew):
	size = n if o.get("size") == "int" else (n, o["w"])
	if o["f"] == "isotropic":
		return isotropic(size, o["pdf"], seed=seed)
	if o["f"] == "closure":
		f = isotropic(None, o["pdf"], seed=seed)
		return np.concatenate([f(size) for _ in range(o["reps"])], axis=1)
	if o["f"] == "out":
		W = np.zeros((n, o["w"]), order=o.get("order", "F"))
		isotropic(None, o["pdf"], seed=seed, out=W)
		return W
	if o["f"] == "symmetric":
		return symmetric(n, dist=o["dist"], pd=o["pd"], ew=ew, seed=seed)
	return haar(n, ew=ew, seed=seed)


def gstate():
	s = np.random.get_state()
	return (s[0], s[1].tobytes(), s[2:]), random.getstate()


class Scenario(ScenarioBase):
	INT_MIN = {"nc": 1}

	def gen(self, rng, tier, i):
		nc = rng.choice([1, 1, 2, 3, 4])
		pool = [gen_call(rng) for _ in range(rng.randrange(1, 5))]
		for _ in range(rng.randrange(3)):  # near-twins: equal in all arguments but one
			t = dict(rng.choice(pool))
			k = rng.choice([k for k in ("seed", "pdf", "dist", "pd", "ew", "w", "n", "reps", "order", "size") if k in t])
			t[k] = {"seed": lambda: t["seed"] + 1, "pdf": lambda: rng.choice(PDFS), "dist": lambda: "normal" if t["dist"] == "uniform" else "uniform", "pd": lambda: not t["pd"],
				"ew": lambda: (t["ew"] + 1) % 6, "w": lambda: t["w"] + 1, "n": lambda: t["n"] + 1, "reps": lambda: 3 - t["reps"], "order": lambda: "C" if t["order"] == "F" else "F",
				"size": lambda: "int" if t["size"] == "tuple" else "tuple"}[k]()
			pool.append(t)
		ops = []
		for _ in range(rng.randrange(2, 9)):
			if rng.random() < 0.25:
				ops.append({"c": rng.randrange(nc), "f": "noise", "what": rng.choice(["npseed", "np", "py", "unseeded", "pyseed"]), "w": rng.randrange(1, 50)})
			else:
				ops.append(dict(rng.choice(pool), c=rng.randrange(nc), via=rng.choice(["int", "int", "int", "gen", "newgen", "seq", "npint"]), scribble=rng.random() < 0.25))
		return {"cfg": {"kind": f"clients{nc}", "nc": nc, "gseed": rng.randrange(1 << 30)}, "ops": ops, "faults": gen_stalls(rng, list(range(1, nc + 1)), most=2, horizon=40),
			"sched": gen_sched(rng, victims=nc), "gran": "instr" if rng.random() < 0.15 else "line"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		ops = plan["ops"]
		nc = cfg["nc"]
		sim.active = False

		def seed_of(o, gens):
			if o["via"] == "int":
				return o["seed"]
			if o["via"] == "npint":
				return np.int64(o["seed"])
			if o["via"] == "seq":
				return np.random.SeedSequence(o["seed"])
			if o["via"] == "newgen":
				return np.random.default_rng(o["seed"])
			return gens[o["c"] % nc]

		refs = {}
		for j, o in enumerate(ops):
			if o["f"] != "noise" and o["via"] != "gen":
				def one(o=o):
					np.random.seed(11)
					b = gstate()
					r = lib("generation-failed", call, o, seed_of(o, None))
					check(gstate() == b, "global-state-disturbed", f"{o}")
					return r
				key = repr({k: v for k, v in o.items() if k not in ("c", "scribble")})
				if key not in refs:
					refs[key] = pristine(one)
				refs[j] = refs[key]
				# a seed means the same however it is given
				key0 = repr({k: v for k, v in dict(o, via="int").items() if k not in ("c", "scribble")})
				if key0 in refs:
					check(same(refs[j], refs[key0], 1e-9), "depends-on-more-than-arguments", lambda: f"{o}: differs from the same seed given as an integer: {diff(refs[j], refs[key0])}")
		for c in range(nc):  # a caller that passes its own generator: the same calls one after the other
			mine = [(j, o) for j, o in enumerate(ops) if o["f"] != "noise" and o["via"] == "gen" and o["c"] % nc == c]
			if mine:
				def seq():
					gens = {c: np.random.default_rng(cfg["gseed"] + c)}
					out = []
					for _, o in mine:
						st = gens[c].bit_generator.state
						out.append(lib("generation-failed", call, o, seed_of(o, gens)))
						check(gens[c].bit_generator.state != st, "generator-not-consumed", lambda: f"{o}: the generator is where it was")
					return out
				for (j, _), r in zip(mine, pristine(seq)):
					refs[j] = r
				# and it is consumed: two equal sampling calls in a row must not repeat themselves
				for (j1, o1), (j2, o2) in zip(mine, mine[1:]):
					if (o1["f"] in ("isotropic", "closure") or o1["n"] >= 4) and {k: v for k, v in o1.items() if k not in ("c", "seed", "scribble")} == {k: v for k, v in o2.items() if k not in ("c", "seed", "scribble")} and refs[j1].size >= (40 if o1["f"] in ("isotropic", "closure", "out") else 16):
						check(not np.array_equal(refs[j1], refs[j2]), "generator-not-consumed", f"{o1}")
		sim.active = True
		gens = {c: np.random.default_rng(cfg["gseed"] + c) for c in range(nc)}
		held = []

		def client(c):
			for j, o in enumerate(ops):
				if o["c"] % nc != c:
					continue
				if o["f"] == "noise":
					w = o["w"]
					{"npseed": lambda: np.random.seed(w), "np": lambda: np.random.normal(size=w), "py": lambda: [random.random() for _ in range(w)], "pyseed": lambda: random.seed(w),
						"unseeded": lambda: (isotropic((3, w), "normal"), symmetric(3))}[o["what"]]()
					continue
				r = lib("generation-failed", call, o, seed_of(o, gens))
				sim.event("gen", c, j)
				judge(o, r)
				check(same(r, refs[j], 1e-9), "depends-on-more-than-arguments", lambda: f"{o}: {diff(r, refs[j])}")
				if o.get("scribble"):  # what the caller does to its result is its own business
					r[...] = -77.0
				held.append((o, r, r.copy()))

		if nc == 1:
			client(0)
		else:
			run_clients(sim, [(lambda c=c: client(c)) for c in range(nc)])
		for o, r, r0 in held:
			check(np.array_equal(r, r0), "returned-array-changed", lambda: f"{o}: {diff(r, r0)}")
