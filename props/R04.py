"""R04: a sampler (or generator) shared by threads delivers every column of the seeded stream to exactly one caller."""
EXT = False
QUICK = (15000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from primate.random import isotropic

from props.R01 import PDFS


class Scenario(ScenarioBase):
	INT_MIN = {"rows": 1}

	def gen(self, rng, tier, i):
		nc = rng.choice([1, 2, 2, 3, 4])
		# mode: one shared closure | several samplers on one generator | in-place draws from one generator
		mode = rng.choice(["closure", "closure", "generator", "inplace", "mixed"])
		pdf = rng.choice(PDFS)
		rows = rng.choice([1, 2, 5, 16, 40])
		if pdf in ("rademacher", "signs"):
			rows = rng.choice([24, 40])
		elif pdf == "sphere":
			rows = rng.choice([2, 5, 16, 40])
		ops = [{"c": rng.randrange(nc), "w": rng.choice([1, 1, 2, 3, 5, 8]), "how": rng.choice(["tuple", "int"])} for _ in range(rng.randrange(1, 10))]
		if rng.random() < 0.08:  # large draws
			rows, ops = rng.choice([64, 250]), [dict(o, w=rng.choice([1, 40, 70, 270])) for o in ops[:5]]
		if rng.random() < 0.15:  # many single vectors
			ops = [{"c": rng.randrange(nc), "w": 1, "how": "int"} for _ in range(rng.randrange(20, 70))]
		if mode in ("mixed", "generator", "inplace"):
			for o in ops:
				o["m"] = {"generator": "generator", "inplace": "inplace"}.get(mode) or rng.choice(["closure", "generator", "inplace"])
		return {"cfg": {"kind": mode, "pdf": pdf, "rows": rows, "nc": nc, "seed": rng.randrange(1, 1 << 30), "simgen": rng.random() < 0.7}, "ops": ops,
			"faults": gen_stalls(rng, list(range(1, nc + 1)), most=2, horizon=30), "sched": gen_sched(rng, victims=nc), "gran": "instr" if rng.random() < 0.25 else "line"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		sites = Sites(sim, plan)
		g = SimGenerator.make(cfg["seed"], sites) if cfg["simgen"] else np.random.default_rng(cfg["seed"])
		n, pdf = cfg["rows"], cfg["pdf"]
		shared = lib("draw-failed", isotropic, None, pdf, g) if any(o.get("m", "closure") == "closure" for o in plan["ops"]) else None
		got = []

		def client(c):
			own = None
			for o in plan["ops"]:
				if o["c"] != c:
					continue
				m, w = o.get("m", "closure"), o["w"]
				if m == "closure":
					W = lib("draw-failed", shared, n if (o["how"] == "int" and w == 1) else (n, w))
				elif m == "generator":
					own = own or lib("draw-failed", isotropic, None, pdf, g)
					W = lib("draw-failed", own, (n, w))
				else:
					W = np.full((n, w), np.nan, order="F")
					r = lib("draw-failed", isotropic, None, pdf, g, W)
				check(isinstance(W, np.ndarray) and W.shape == (n, w), "wrong-shape", lambda: f"{getattr(W, 'shape', type(W))} for {(n, w)}")
				got.append((c, W, W.copy()))
				sim.event("draw", c, w)

		if cfg["nc"] == 1:
			client(0)
		else:
			run_clients(sim, [(lambda c=c: client(c)) for c in range(cfg["nc"])])
		total = sum(o["w"] for o in plan["ops"])
		for c, W, W0 in got:
			check(np.array_equal(W, W0), "delivered-draw-changed", lambda: f"{pdf} {n}x{W.shape[1]} of caller {c}: {diff(W, W0)}")
		ref = stream(pdf, n, total, cfg["seed"])
		if total:
			have = np.concatenate([W0 for _, _, W0 in got], axis=1)
			check(np.isfinite(have).all(), "not-finite", lambda: f"{pdf} {n} rows")
			left = {}  # columns of the stream by their entries to 9 digits
			for j in range(total):
				left.setdefault(tuple(np.round(ref[:, j], 9) + 0.0), []).append(j)
			foreign = []
			for k in range(total):
				js = left.get(tuple(np.round(have[:, k], 9) + 0.0))
				if js:
					js.pop()
				else:
					foreign.append(k)
			miss = [j for js in left.values() for j in js]
			for k in list(foreign):  # what remains may only have been rounded to another digit
				j = next((j for j in miss if np.allclose(ref[:, j], have[:, k], rtol=1e-7, atol=1e-8)), None)
				if j is not None:
					miss.remove(j)
					foreign.remove(k)
			check(not foreign and not miss, "stream-not-conserved", lambda: f"{pdf} rows={n}: of {total} columns of the seeded stream {len(miss)} were not delivered and {len(foreign)} deliveries are foreign, torn or repeated")
