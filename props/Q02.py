"""Q02: solvers and quadrature leave inputs intact, whoever else uses them, and fill the caller's buffers with exactly the rule or not at all."""
QUICK = (9000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from props.Q01 import NOW, Lapack, dense, mk_T
from primate.integrate import quadrature
from primate.tridiag import eigh_tridiag, eigvalsh_tridiag

WRONG = {"long": (1, 1), "longw": (0, 1), "longn": (1, 0), "shortw": (0, -1), "shortn": (-1, 0), "short": (-1, -1)}  # buffers of the wrong length


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		mats = []
		for _ in range(rng.choice([1, 1, 2])):
			mats.append({"n": gen_size(rng, [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12]), "seed": rng.randrange(1 << 30), "spec": rng.choice(["gen", "pos", "pos", "split", "wilkinson", "laplace", "neg", "int", "hollow"]), "scale": rng.choice([1.0, 1.0, 100.0]), "dtype": rng.choice(["f8", "f8", "f4"]),
				"lead": rng.random() < 0.5, "lay": rng.choice(["C", "C", "strided", "ro"])})
		nt = rng.choice([1, 2, 2, 3])
		ops = []
		for _ in range(rng.randrange(1, 7)):
			w = rng.randrange(len(mats))
			n = mats[w]["n"]
			o = {"fn": rng.choice(["eigh", "eigvalsh", "quad", "quad", "quad"]), "w": w, "t": rng.randrange(nt), "method": rng.choice(["auto", "auto", "default", "mrrr", "tqli"])}
			if o["fn"] == "quad":
				o.update(rule=rng.choice(["gw", "gw", "golub_welsch", "fttr"]), deg=rng.choice([None, None, n, max(1, n - 1), max(1, n // 2), n + 3, 1]), bufs=rng.choice([None, "f8", "f8", "strided", "f4", "nodes"] + sorted(WRONG)))
				if o["rule"] == "fttr" and (mats[w]["spec"] not in ("pos", "hollow") or n > 12):  # the forward recurrence is not made for more
					o["rule"] = "gw"
			ops.append(o)
		faults = gen_stalls(rng, list(range(1, nt + 1)), most=2, horizon=60)
		for _ in range(rng.choice([0, 1, 1, 2])):
			r = rng.random()
			if r < 0.3:
				faults.append({"kind": "line", "tid": rng.randrange(1, nt + 1), "at": rng.randrange(1, 40), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
			elif r < 0.7:
				faults.append({"kind": "lapack", "at": rng.randrange(1, 8), "info": rng.choice([1, 2, 3]), "span": rng.choice([1, 2, 1000])})
			else:
				faults.append({"kind": "lapack", "at": rng.randrange(1, 8), "exc": rng.choice([x for x in EXC_NAMES if x != "LinAlgError"])})
		return {"cfg": {"kind": "+".join(sorted({o["fn"] for o in ops})), "mats": mats, "nt": nt}, "ops": ops, "faults": faults, "sched": gen_sched(rng, serial=0.05, victims=nt), "gran": rng.choice(["line", "line", "instr"])}

	def run(self, plan, sim):
		cfg = plan["cfg"]
		L = Lapack(sim, plan)
		NOW["lapack"] = L
		try:
			self.main(plan, sim, cfg, L)
		finally:
			NOW["lapack"] = None

	def main(self, plan, sim, cfg, L):
		arrs = [mk_T(m) for m in cfg["mats"]]
		keep = [(d.copy(), e.copy()) for d, e in arrs]
		held = []

		def client(t):
			def body():
				for j, o in enumerate(plan["ops"]):
					if o["t"] == t:
						step(j, o, t)
			return body

		def step(j, o, t):
			m = cfg["mats"][o["w"]]
			d, e = arrs[o["w"]]
			what = lambda: f"call {j} {o} on {m}"
			kw = {} if o["method"] == "default" else {"method": o["method"]}
			n = len(d)
			deg = n
			bufs, bkeep = None, None
			if o["fn"] == "quad":
				deg = n if o["deg"] is None else min(o["deg"], n)
				if o["deg"] is not None:
					kw["deg"] = o["deg"]
				b = o["bufs"]
				if b is not None:
					k, kw_ = WRONG.get(b, (0, 0))
					k, kw_ = max(deg + k, 0), max(deg + kw_, 0)
					if b == "strided":
						bufs = [np.full(3 * k, -7.0)[::3], np.full(3 * k, -8.0)[::3]]
					else:
						bufs = [np.full(k, -7.0, dtype="f4" if b == "f4" else "f8"), np.full(kw_, -8.0, dtype="f4" if b == "f4" else "f8")]
					bkeep = [z.copy() for z in bufs]
					kw["nodes"] = bufs[0]
					if b != "nodes":
						kw["weights"] = bufs[1]
			for attempt in range(len(plan["faults"]) + 1):
				me = sim.me().tid
				L.softby.discard(me), L.illegal.discard(me)
				err = r = None
				try:
					with np.errstate(all="ignore"):
						r = {"eigh": eigh_tridiag, "eigvalsh": eigvalsh_tridiag}[o["fn"]](d, e, **kw) if o["fn"] != "quad" else quadrature(d, e, quad=o["rule"], **kw)
				except (Violation, SimAbort, HarnessError):
					raise
				except BaseException as x:
					err = x
				intact(what)
				if err is None:
					break
				whole = bufs is None or all(np.array_equal(z, zc) for z, zc in zip(bufs, bkeep))
				err = root(err)
				if is_injected(err):
					check(getattr(err, "injected", False) and getattr(err, "who", me) == me, "failure-disguised", lambda: f"{what()}: an injected failure came back as {type(err).__name__}: {err}")
					hard = any(err is h for h in L.hard)
					check(whole or not hard, "buffers-torn", lambda: f"{what()}: the solver failed but the caller's buffers became {bufs}")
					if not whole:  # interrupted between delivering the two arrays
						part(what, o, d, e, deg, bufs, bkeep)
						for z, zc in zip(bufs, bkeep):
							z[...] = zc
					scrub(err)
					sim.probe("failed")
					continue
				if o["method"] == "mrrr" and me in L.softby and isinstance(err, np.linalg.LinAlgError):
					check(whole, "buffers-torn", lambda: f"{what()}: the solver failed but the caller's buffers became {bufs}")
					sim.probe("no-convergence")
					scrub(err)
					for f in [f for f in L.f if f.get("info")]:
						L.f.remove(f)
					continue
				if o["fn"] == "quad" and o["bufs"] in WRONG and not isinstance(err, (KeyboardInterrupt, MemoryError)):
					check(whole, "buffers-torn", lambda: f"{what()}: buffers of the wrong length were refused but became {bufs}")
					sim.probe("refused")
					scrub(err)
					return
				raise Violation("call-failed", f"{what()}: {type(err).__name__}: {err}")
			sim.event("call", j, o["fn"])
			check(not (o["fn"] == "quad" and o["bufs"] in WRONG), "wrong-length-accepted", lambda: f"{what()}: buffers {bufs}")
			self.judge(what, o, d, e, deg, r)
			if o["fn"] == "quad" and bufs is not None and o["bufs"] != "nodes":
				for z, x in zip(bufs, r):
					check(np.array_equal(z, np.asarray(x).astype(z.dtype)), "buffers-differ", lambda: f"{what()}: the buffer holds {z} but {x} was returned")
			for x in r if isinstance(r, tuple) else (r,):
				check(not any(np.shares_memory(x, y) for p in arrs for y in p), "result-aliases-input", lambda: f"{what()}: the result shares memory with the arrays it was computed from")
				held.append((j, x, x.copy()))

		def intact(what):
			for (d, e), (dc, ec) in zip(arrs, keep):
				check(np.array_equal(d, dc) and np.array_equal(e, ec), "input-modified", lambda: f"{what()}: {dc} {ec} became {d} {e}")

		def part(what, o, d, e, deg, bufs, bkeep):
			with quiet(sim):
				was, L.on = L.on, False
				msk, sim.mask_line_faults = getattr(sim, "mask_line_faults", False), True
				th, ta = quadrature(d, e, deg=deg, quad=o["rule"])
				L.on, sim.mask_line_faults = was, msk
			for z, zc, x, in zip(bufs, bkeep, (th, ta)):
				check(np.array_equal(z, zc) or same(np.sort(z), np.sort(x), 1e-4 if z.dtype == np.float32 or d.dtype == np.float32 else 1e-9), "buffers-torn", lambda: f"{what()}: interrupted, a buffer holds {z}, neither {zc} nor {x}")

		run_clients(sim, [client(t) for t in range(cfg["nt"])])
		intact(lambda: "after all calls")
		for j, x, xc in held:
			check(np.array_equal(x, xc), "result-changed", lambda: f"the result of call {j} {plan['ops'][j]} changed later: {diff(x, xc)}")

	def judge(self, what, o, d, e, deg, r):
		T = dense(d, e)[:deg, :deg]
		low = d.dtype == np.float32
		sc = float(np.abs(T).max()) or 1.0
		w0, U = np.linalg.eigh(T)
		tol = (2e-6 if low else 1e-13) * sc * (deg + 3)
		w = np.asarray(r if o["fn"] == "eigvalsh" else r[0], dtype=float)
		check(w.shape == w0.shape and np.max(np.abs(np.sort(w) - w0)) <= tol, "eigenvalues-differ", lambda: f"{what()}: {diff(np.sort(w), w0)}")
		if o["fn"] == "eigh":
			Y = np.asarray(r[1], dtype=float)
			check(np.max(np.abs(T @ Y - Y * w)) <= tol * 10 and np.max(np.abs(Y.T @ Y - np.eye(deg))) <= (1e-5 if low else 1e-12) * (deg + 3), "pairs-differ", lambda: f"{what()}: {w} {Y}")
		if o["fn"] == "quad":
			t = np.asarray(r[1], dtype=float)
			for p in (lambda x: np.ones_like(x), lambda x: x, np.square, lambda x: np.sin(x * 2)):
				x, y = p(w / sc) @ t, p(w0 / sc) @ U[0] ** 2
				check(abs(x - y) <= (1e-4 if low or o["rule"] == "fttr" else 1e-10) * (deg + 3), "rule-differs", lambda: f"{what()}: integrates to {x}, not {y}")
