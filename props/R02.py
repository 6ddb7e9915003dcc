"""R02: a parallel fill either refreshes the whole block or raises the worker's failure."""
EXT = False
QUICK = (12500, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim import boot
from sim.lib import *  # noqa
from primate.random import Isotropic

from props.R01 import gen_sampler, mkseed

CANON = {"signs": "rademacher", "gaussian": "normal"}


def valid_block(c, W):
	pdf = CANON.get(c["pdf"], c["pdf"])
	n = c["rows"]
	if np.isnan(W).any():
		return f"{int(np.isnan(W).sum())} of {W.size} entries were never written"
	if pdf == "rademacher":
		return None if np.all(np.abs(W) == 1.0) else "entries other than -1/+1"
	if pdf == "sphere":
		e = np.abs(np.sqrt((W**2).sum(axis=0)) - np.sqrt(n)).max()
		return None if e <= 1e-9 * np.sqrt(n) else f"column norm off by {e:.3g}"
	if not np.isfinite(W).all() or np.abs(W).max() > 12:
		return "entries are not standard normal"
	if len(np.unique(W)) < W.size:
		return "repeated normal deviates"
	return None


class Scenario(ScenarioBase):
	INT_MIN = {"cpus": 1}

	def gen(self, rng, tier, i):
		c = gen_sampler(rng, big=(i % 101 == 7))
		fails = rng.random() < 0.75
		fills = rng.randrange(1, 5)
		faults = gen_stalls(rng, list(range(1, 10)), most=2)
		ops = [{"op": "fill"} for _ in range(fills)]
		th = c["threads"] or 4
		kinds = []
		if fails:
			for _ in range(rng.choice([1, 1, 1, 2, 3])):
				k = rng.choice(["call", "torn", "call", "line", "nostart"])
				kinds.append(k)
				if k in ("call", "torn"):
					c["seedkind"] = "sim"
					w = rng.randrange(th)
					faults.append({"kind": "call", "site": "rng" if th == 1 else f"rng#{w}", "n": rng.randrange(1, fills + 1), "exc": rng.choice(EXC_NAMES), "torn": k == "torn",
						"delay": rng.choice([0, 0, 0, 1.0])})
				elif k == "line":
					faults.append({"kind": "line", "tid": rng.randrange(1, th + 1), "at": rng.randrange(1, 14), "exc": "MemoryError"})
				else:
					faults.append({"kind": "nostart", "at": rng.randrange(1, th + 1)})
		return {"cfg": {"kind": "+".join(sorted(set(kinds))) or "no-fault", "s": c, "cpus": rng.choice([1, 2, 4, 7])}, "ops": ops, "faults": faults, "sched": gen_sched(rng),
			"gran": "instr" if rng.random() < 0.08 else "line"}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		c = cfg["s"]
		boot.CPUS["n"] = cfg["cpus"]
		sites = Sites(sim, plan)
		s = lib("construction-failed", Isotropic, (c["rows"], c["cols"]), pdf=c["pdf"], seed=mkseed(c, sites), threads=c["threads"])
		prev = None
		orphan = False
		rounds = [True] * len(plan["ops"])
		for k, _ in enumerate(rounds):
			before = dict(sim.fired)
			s.values[...] = np.nan
			sim.injected = None
			err = None
			try:
				s.fill()
			except (Violation, SimAbort, HarnessError):
				raise
			except BaseException as e:
				err = e
			if sim.failure is not None:
				raise sim.failure
			fired = sum(v for f, v in sim.fired.items() if f.startswith(("raise:", "torn:", "line:"))) - sum(v for f, v in before.items() if f.startswith(("raise:", "torn:", "line:")))
			nostart = sim.fired.get("thread-start-failure", 0) - before.get("thread-start-failure", 0)
			sim.event("fill", k, type(err).__name__, fired, nostart)
			if orphan and err is None:
				# work stranded by an earlier failed thread start runs when it may, and its failure is nobody's: only completeness can be judged
				check(not np.isnan(s.values).any(), "stale-block", lambda: f"{c}: after fill {k + 1}: {int(np.isnan(s.values).sum())} of {s.values.size} entries were never written")
			elif fired or nostart:
				if err is None:
					raise Violation("failure-swallowed", f"{c}: fill {k + 1} returned normally although {fired} worker failures and {nostart} thread-start failures occurred during it; "
						f"{int(np.isnan(s.values).sum())} of {s.values.size} entries unwritten")
				ok = is_injected(err) or (nostart and "can't start" in str(err))
				check(ok, "failure-disguised", lambda: f"fill raised {type(err).__name__}: {err} instead of the worker's failure")
				sim.probe("fill-raised")
				if nostart:
					orphan = True
				prev = None
			else:
				if err is not None:
					raise Violation("fill-failed", f"{c}: fault-free fill {k + 1} raised {type(err).__name__}: {err}")
				bad = valid_block(c, s.values)
				check(bad is None, "stale-block", lambda: f"{c}: after fill {k + 1}: {bad}")
				if prev is not None and c["rows"] * c["cols"] >= 64:
					check(not np.array_equal(prev, s.values), "not-refreshed", lambda: f"{c}: fill {k + 1} left the previous draw")
				if any(f.startswith(("raise", "torn", "line")) for f in sim.fired):
					sim.probe("recovered-fill")
				prev = s.values.copy()
			if err is not None:
				scrub(err)
			err = None
			for e in sites.raised:
				scrub(e)
