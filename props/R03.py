"""R03: finished fills are quiescent; samplers shut down cleanly; nothing deadlocks."""
EXT = False
QUICK = (12500, 30)
THOROUGH = (3_000_000, 900)
import gc
import sys

import numpy as np

from sim import boot
from sim.lib import *  # noqa
from primate.random import Isotropic

from props.R01 import gen_sampler, mkseed


BAD = ["pdf", "seed", "entropy", "entropy", "size", "negative", "threads"]  # what makes a construction fail


class Scenario(ScenarioBase):
	INT_MIN = {"cpus": 1}

	def gen(self, rng, tier, i):
		ns = rng.choice([1, 1, 2, 2, 3])
		clients = []
		for k in range(ns):
			c = gen_sampler(rng)
			if rng.random() < 0.5:
				c["seedkind"] = "sim"
			clients.append(c)
		conc = ns > 1 and rng.random() < 0.6
		ops = []
		for k in range(ns):
			seq = ["new"]
			for _ in range(rng.randrange(1, 6)):
				seq.append(rng.choice(["fill", "fill", "fill", "look", "scribble", "drop", "new", "bad"]))
			ops += [{"s": k, "op": o, **({"how": rng.choice(BAD)} if o == "bad" else {})} for o in seq]
		if not conc:
			# interleave, keeping each sampler's order
			per = [[o for o in ops if o["s"] == k] for k in range(ns)]
			ops = []
			while any(per):
				q = rng.choice([p for p in per if p])
				ops.append(q.pop(0))
		faults = gen_stalls(rng, list(range(1, 12)), most=3, horizon=90)
		if rng.random() < 0.5:
			for _ in range(rng.choice([1, 1, 2])):
				if rng.random() < 0.6:
					k = rng.randrange(ns)
					th = clients[k]["threads"] or 4
					clients[k]["seedkind"] = "sim"
					faults.append({"kind": "call", "site": f"rng{k}" if th == 1 else f"rng{k}#{rng.randrange(th)}", "n": rng.randrange(1, 4), "exc": rng.choice(EXC_NAMES),
						"torn": rng.random() < 0.4, "delay": rng.choice([0, 0, 5.0])})
				elif not conc:
					faults.append({"kind": "line", "tid": rng.randrange(1, 8), "at": rng.randrange(1, 20), "exc": "MemoryError"})
		return {"cfg": {"kind": f"samplers{ns}{'-conc' if conc else ''}", "samplers": clients, "cpus": rng.choice([1, 2, 4]), "conc": conc}, "ops": ops, "faults": faults,
			"sched": gen_sched(rng), "gran": "instr" if rng.random() < 0.08 else "line"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		boot.CPUS["n"] = cfg["cpus"]
		sites = Sites(sim, plan)
		ignored = []  # failures of destructors, which nobody can catch

		def unraisable(u):
			if not isinstance(u.exc_value, (Violation, SimAbort)) and not is_injected(u.exc_value):
				ignored.append(f"{type(u.exc_value).__name__}: {u.exc_value} in {getattr(u.object, '__qualname__', u.object)} on thread {sim.me().tid if sim.me() else None}")

		sys.unraisablehook = unraisable
		ns = len(cfg["samplers"])
		live, snap = [None] * ns, [None] * ns

		def look(k, sig):
			if live[k] is not None and snap[k] is not None:
				check(same(live[k].values, snap[k], 0.0), sig, lambda: f"sampler {k} {cfg['samplers'][k]}: block changed with no fill in progress: {diff(live[k].values, snap[k])}")

		def do(o):
			k = o["s"]
			c = cfg["samplers"][k]
			if o["op"] == "new":
				look(k, "late-write")
				live[k] = None
				sd = mkseed(c, sites)
				if isinstance(sd, SimGenerator):
					sd.label = f"rng{k}"
				live[k] = lib("construction-failed", Isotropic, (c["rows"], c["cols"]), pdf=c["pdf"], seed=sd, threads=c["threads"])
				snap[k] = live[k].values.copy()
				return
			if o["op"] == "bad":
				h = o["how"]
				a = [(c["rows"], c["cols"]), c["pdf"], 5, c["threads"]]
				if h == "pdf":
					a[1] = "no such distribution"
				elif h == "seed":
					a[2] = "not a seed"
				elif h == "entropy":
					a[2] = None
				elif h == "size":
					a[0] = "12"
				elif h == "negative":
					a[0] = (-1, 3)
				else:
					a[3] = 0

				def dry():
					if sim.me() is not None and sim.me().tid == starving:
						raise OSError("injected: no entropy")

				starving = sim.me().tid
				if h == "entropy":
					boot.ENTROPY_HOOK = dry
				try:
					Isotropic(*a)
					sim.probe("bad-accepted:" + h)
				except (Violation, SimAbort, HarnessError):
					raise
				except Exception as e:
					sim.probe("construction-failed:" + h)
					scrub(e)
				finally:
					boot.ENTROPY_HOOK = None
				return
			if live[k] is None:
				return
			look(k, "late-write")
			if o["op"] == "fill":
				inj = len(sites.raised)
				try:
					live[k].fill()
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as e:
					if not is_injected(e):
						if sim.failure is not None:
							raise sim.failure
						raise Violation("fill-failed", f"{type(e).__name__}: {e}")
					sim.probe("fill-raised")
					scrub(e)
					del e
				snap[k] = live[k].values.copy()
				sim.event("filled", k)
				for _ in range(3):
					sim.yield_point("linger")
				look(k, "late-write")
			elif o["op"] == "scribble":
				live[k].values[...] = 7.25
				snap[k] = live[k].values.copy()
			elif o["op"] == "look":
				sim.sleep(10.0)  # let everyone who can still run do so
				look(k, "late-write")
			elif o["op"] == "drop":
				snap[k] = None
				live[k] = None
				sim.probe("dropped")

		if cfg["conc"]:
			run_clients(sim, [(lambda k=k: [do(o) for o in plan["ops"] if o["s"] == k]) for k in range(ns)])
		else:
			for o in plan["ops"]:
				do(o)
		sim.drain()
		for k in range(ns):
			look(k, "late-write")
		for k in range(ns):
			live[k] = None
		for e in sites.raised:
			scrub(e)
		sites.raised.clear()
		sim.injected = None
		sim.active = False  # destructors run here; what they leave behind is then drained
		sim.active = True
		gc.collect()
		left = sim.drain()
		check(not ignored, "shutdown-failed", lambda: f"{len(ignored)} errors while samplers went away: {ignored[:3]}")
		check(not left, "worker-leak", lambda: f"{len(left)} worker threads survive all samplers: {[(t.name, t.waiting) for t in left][:6]}")
