"""R01: the contents of the parallel block sampler do not depend on the schedule."""
EXT = False
QUICK = (10000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim import boot, kernel
from sim.lib import *  # noqa
from primate.random import Isotropic, isotropic

PDFS = ["rademacher", "normal", "sphere", "signs", "gaussian"]


def mkseed(c, sites=None):
	k, s = c["seedkind"], c["seed"]
	if k == "int":
		return s
	if k == "seq":
		return np.random.SeedSequence(s)
	if k == "gen":
		return np.random.Generator(np.random.PCG64(s))
	return SimGenerator.make(s, sites)


def gen_sampler(rng, big=False):
	cols = rng.choice([1, 2, 3, 4, 5, 7, 8, 12, 17, 33])
	rows = rng.choice([1, 2, 3, 5, 8, 20])
	if big:
		rows, cols = rng.choice([300, 2000]), rng.choice([40, 200])
	return dict(rows=rows, cols=cols, pdf=rng.choice(PDFS), seedkind=rng.choice(["int", "seq", "gen", "sim"]), seed=rng.randrange(1, 1 << 30),
		threads=rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 16, None]))


def make(c, sites=None):
	return Isotropic((c["rows"], c["cols"]), pdf=c["pdf"], seed=mkseed(c, sites), threads=c["threads"])


def reference(c, fills, cpus):
	"""The sampler's contents after each fill, on its own, in the canonical serial schedule."""
	def f():
		boot.CPUS["n"] = cpus
		sim = kernel.Sim({"sched": {"kind": "serial", "seed": 0}})
		s = lib("fill-failed", make, c, Sites(sim, {}))
		out = []
		for _ in range(fills):
			lib("fill-failed", s.fill)
			out.append(s.values.copy())
		return out
	return pristine(f)


class Scenario(ScenarioBase):
	INT_MIN = {"cpus": 1}

	def gen(self, rng, tier, i):
		ns = rng.choice([1, 1, 1, 2, 3])
		sm = [gen_sampler(rng, big=(i % 97 == 5)) for _ in range(ns)]
		if rng.random() < 0.15:  # equal twins must not influence each other either
			sm[-1] = dict(sm[0])
		if ns > 1 and rng.random() < 0.3:
			sm[-1].update(rows=sm[0]["rows"], cols=sm[0]["cols"], threads=sm[0]["threads"])
		ops = [{"s": rng.randrange(ns), "op": "fill"} for _ in range(rng.randrange(1, 6))]
		for _ in range(rng.randrange(0, 3)):
			ops.insert(rng.randrange(len(ops) + 1), {"s": -1, "op": rng.choice(["np", "iso", "default_rng", "seed"]), "w": rng.randrange(1, 9)})
		return {"cfg": {"kind": f"samplers{ns}", "samplers": sm, "cpus": rng.choice([1, 2, 4, 7]), "conc": ns > 1 and rng.random() < 0.7}, "ops": ops,
			"faults": gen_stalls(rng, list(range(1, 10))), "sched": gen_sched(rng), "gran": "instr" if rng.random() < 0.1 else "line"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		sm = cfg["samplers"]
		need = [sum(1 for o in plan["ops"] if o["s"] == k) for k in range(len(sm))]
		sim.active = False
		refs = [reference(c, n, cfg["cpus"]) if n else [] for c, n in zip(sm, need)]
		for c, n, ref in zip(sm, need, refs):
			th = cfg["cpus"] if c["threads"] is None else c["threads"]
			if th == 1 and n:  # the sequential sampler
				f = isotropic(None, c["pdf"], mkseed(c))
				for r in ref:
					check(same(r, f((c["rows"], c["cols"])), 1e-12), "single-thread-differs-from-sequential", lambda: f"{c}")
				sim.probe("single-thread")
			if c["cols"] < th:
				sim.probe("fewer-columns-than-threads")
		boot.CPUS["n"] = cfg["cpus"]
		sim.active = True
		sites = Sites(sim, plan)
		ss = [lib("fill-failed", make, c, sites) for c in sm]
		done = [0] * len(sm)

		def do(o):
			k = o["s"]
			if k < 0:
				w = o["w"]
				if o["op"] == "np":
					np.random.rand(w)
				elif o["op"] == "seed":
					np.random.seed(w)
				elif o["op"] == "iso":
					isotropic((3, w), "normal", 5)
				else:
					np.random.default_rng(w).random(w)
				return
			lib("fill-failed", ss[k].fill)
			got, want = ss[k].values, refs[k][done[k]]
			done[k] += 1
			sim.event("filled", k, done[k])
			check(same(got, want, 1e-12), "fill-depends-on-schedule", lambda: f"sampler {k} {sm[k]} fill {done[k]}: {diff(got, want)}")

		if cfg["conc"]:
			by = {}
			for o in plan["ops"]:
				by.setdefault(o["s"], []).append(o)
			run_clients(sim, [(lambda l=l: [do(o) for o in l]) for _, l in sorted(by.items())])
		else:
			for o in plan["ops"]:
				do(o)
