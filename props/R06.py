"""R06: unseeded calls draw from fresh entropy: nothing repeats, whatever happened to the process-wide state, in threads and forked processes."""
QUICK = (9000, 30)
THOROUGH = (3_000_000, 900)
EXT = True
import random
import threading

import numpy as np

from sim import boot
from sim.lib import *  # noqa
from primate.diagonal import diag, xdiag
from primate.lanczos import lanczos, rayleigh_ritz
from primate.random import Isotropic, haar, isotropic, symmetric
from primate.trace import hutch, hutchpp, xtrace

FNS = ["isotropic", "isotropic", "closure", "out", "symmetric", "haar", "hutch", "hutchpp", "xtrace", "diag", "xdiag", "lanczos", "ritz"]


def gen_call(rng, pool):
	f = rng.choice(FNS + (["Isotropic", "Isotropic", "Isotropic"] if pool else []))
	o = {"f": f, "pdf": rng.choice(["normal", "gaussian", "sphere", "rademacher", "signs"]), "n": rng.choice([3, 5, 9, 16]), "w": rng.choice([1, 2, 5]), "again": rng.choice([1, 2])}
	if o["pdf"] in ("rademacher", "signs"):
		o["n"] = rng.choice([64, 80])  # sign vectors as short as that still repeat by chance once in 1e16
	if f in ("symmetric", "haar"):
		o.update(ew=rng.random() < 0.4, dist=rng.choice(["normal", "uniform"]), n=rng.choice([3, 5, 9]))
	if f == "Isotropic":
		o.update(threads=rng.choice([1, 2, 3, None]), w=rng.choice([1, 4, 7]))
	if f in ("hutchpp", "xtrace", "xdiag"):
		o.update(n=rng.choice([6, 9]), pdf=rng.choice(["normal", "sphere"]))
	o["seed"] = rng.choice(["absent", "none"])
	return o


def draw(o, sites):
	"""Make one unseeded call; what identifies its randomness, as a list of vectors."""
	f, n, w = o["f"], o["n"], o["w"]
	kw = {} if o["seed"] == "absent" else {"seed": None}
	pdf = o["pdf"]
	if f == "isotropic":
		return list(isotropic((n, w), pdf, **kw).T)
	if f == "closure":
		s = isotropic(None, pdf, **kw)
		return [v for _ in range(o["again"]) for v in s((n, w)).T]
	if f == "out":
		W = np.zeros((n, w), order="F")
		isotropic(None, pdf, out=W, **kw)
		return list(W.T)
	if f == "symmetric":
		return [symmetric(n, dist=o["dist"], ew=np.arange(1.0, n + 1) if o["ew"] else None, **kw).ravel()]
	if f == "haar":
		return [haar(n, ew=np.arange(1.0, n + 1) if o["ew"] else None, **kw).ravel()]
	if f == "Isotropic":
		s = Isotropic((n, w), pdf=pdf, threads=o["threads"], **kw)
		out = []
		for _ in range(o["again"]):
			s.fill()
			out += list(s.values.copy().T)
		return out
	op = SimOp(np.diag(np.arange(1.0, n + 1)) + 0.1, sites)
	with np.errstate(all="ignore"):
		if f == "hutch":
			hutch(op, pdf=pdf, converge="count", count=2, **kw)
		elif f == "hutchpp":
			hutchpp(op, m=2, pdf=pdf, **kw)
		elif f == "xtrace":
			xtrace(op, batch=2, pdf=pdf, **kw)
		elif f == "diag":
			diag(op, pdf=pdf, converge="count", count=2, **kw)
		elif f == "xdiag":
			xdiag(op, 4, pdf=pdf, **kw)
		elif f == "lanczos":
			lanczos(op, deg=2, **kw)
		else:
			rayleigh_ritz(op, deg=2, **kw)
	xs = op.columns()[0]
	return xs[:2] if f in ("hutch", "diag") else xs[:1]


def noise(what):
	"""What else a process does to its generators."""
	if what == "npseed":
		np.random.seed(7)
	elif what == "nprestore":
		np.random.set_state(np.random.RandomState(3).get_state())
	elif what == "pyseed":
		random.seed(7)
	elif what == "pyrestore":
		random.setstate(random.Random(3).getstate())
	elif what == "np":
		np.random.normal(size=3)
	else:
		isotropic((4, 2), "normal", seed=7)


def gstate():
	s = np.random.get_state()
	return (s[0], s[1].tobytes(), s[2:]), random.getstate()


class Scenario(ScenarioBase):
	INT_MIN = {"nc": 1}
	OP_INTS = ("w", "again")  # shorter vectors repeat by chance

	def gen(self, rng, tier, i):
		kind = rng.choice(["alone", "alone", "fork", "fork", "threads", "threads"])
		nc = rng.choice([2, 3]) if kind == "threads" else 1
		pool = [gen_call(rng, kind != "fork") for _ in range(rng.choice([1, 1, 2, 3]))]
		ops = []
		for _ in range(rng.randrange(3, 9)):
			r = rng.random()
			if r < 0.3:
				ops.append({"f": "noise", "what": rng.choice(["npseed", "npseed", "nprestore", "pyseed", "pyrestore", "np", "seeded"]), "c": rng.randrange(nc)})
			else:
				ops.append(dict(rng.choice(pool), c=rng.randrange(nc), forked=kind == "fork" and rng.random() < 0.6))
		if kind == "alone" and rng.random() < 0.08:
			o = dict(gen_call(rng, True), burst=rng.choice([150, 300]), c=0, forked=False)
			if o["f"] != "Isotropic":
				return {"cfg": {"kind": "burst", "nc": 1, "near": False}, "ops": [o], "faults": [], "sched": gen_sched(rng, victims=1), "gran": "line"}
		faults = gen_stalls(rng, list(range(1, nc + 3)), most=2, horizon=60)
		for _ in range(rng.choice([0, 0, 1, 2])):
			faults.append({"kind": "call", "site": "entropy", "n": rng.randrange(1, 9), "exc": rng.choice(["OSError", "OSError", "MemoryError", "InterruptedError"])} if rng.random() < 0.7 else {"kind": "call", "site": "entropy", "n": rng.randrange(1, 9), "delay": 60.0})
		return {"cfg": {"kind": kind, "nc": nc, "near": rng.random() < 0.3}, "ops": ops, "faults": faults, "sched": gen_sched(rng, victims=nc), "gran": "instr" if rng.random() < 0.1 else "line"}

	def run(self, plan, sim):
		cfg, ops = plan["cfg"], plan["ops"]
		sites = Sites(sim, plan)
		quiet = set()  # threads whose entropy requests are the harness's own
		boot.ENTROPY_HOOK = lambda: None if threading.get_ident() in quiet else sites.hit("entropy")
		boot.NEAR = {} if cfg.get("near") else None
		if cfg.get("near"):
			sim.count("poor-entropy")
		random.seed(5)
		np.random.seed(5)
		start, noisy = gstate(), False
		seen = {}  # vector -> which call drew it

		def note(j, o, vs):
			check(vs, "nothing-drawn", lambda: f"call {j} {o}")
			for i, v in enumerate(vs):
				k = np.ascontiguousarray(v).tobytes()
				check(k not in seen, "repeated", lambda: f"vector {i} of call {j} {o} was drawn before, by {seen[k]}: {np.ravel(v)[:4]}")
				seen[k] = (j, i, o["f"])

		def client(c):
			nonlocal noisy
			for j, o in enumerate(ops):
				if o["c"] != c:
					continue
				if o["f"] == "noise":
					noisy = True
					quiet.add(threading.get_ident())
					try:
						noise(o["what"])
					finally:
						quiet.discard(threading.get_ident())
					continue
				if o["forked"]:  # another process, started from this very state
					def other(j=j, o=o):
						boot.ENTROPY_HOOK = None
						sites.enabled, sim.active = False, False
						boot.ENTROPY.seed(f"{plan['entropy']}/{j}")
						boot.NEAR = {} if cfg.get("near") else None
						b = gstate()
						vs = lib("draw-failed", draw, o, None)
						check(gstate() == b, "global-state-disturbed", f"{o}")
						return vs
					vs = pristine(other)
					sim.count("fork")
				else:
					while True:
						b, nr = gstate(), len(sites.raised)
						try:
							vs = draw(o, sites)
						except (Violation, SimAbort, HarnessError):
							raise
						except BaseException as e:
							check(getattr(root(e), "injected", False), "draw-failed", lambda: f"call {j} {o}: {type(e).__name__}: {e}")
							scrub(e)
							sim.probe("no-entropy")
							continue
						if cfg["nc"] == 1:
							check(gstate() == b, "global-state-disturbed", lambda: f"call {j} {o}")
							check(len(sites.raised) == nr, "failure-swallowed", lambda: f"call {j} {o} returned although there was no entropy")
						break
				note(j, o, vs)
				sim.event("drawn", c, j, len(vs))
				for _ in range(o.get("burst", 0)):  # so many that few different ones would meet
					note(j, o, lib("draw-failed", draw, o, None))

		if cfg["nc"] == 1:
			client(0)
		else:
			run_clients(sim, [(lambda c=c: client(c)) for c in range(cfg["nc"])])
		if not noisy:
			check(gstate() == start, "global-state-disturbed", "by any of the calls")
