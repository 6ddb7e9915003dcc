"""Seeded search: workers fork one child per simulated run; violations are minimised and written as replay files."""
import gc, hashlib, importlib, json, os, random, re, select, signal, subprocess, sys, tempfile, traceback

from . import build, kernel

VERIF = build.VERIF
RUN_WALL = 30.0


def now():
	return kernel._REAL_TIME.get("monotonic", __import__("time").monotonic)()


def load_scenario(prop):
	m = importlib.import_module(f"props.{prop}")
	return m.Scenario()


def needs_ext(prop):
	# read without importing (scenario modules import numpy)
	src = open(os.path.join(VERIF, "props", prop + ".py")).read()
	return "EXT = False" not in src


def plan_seed(seed, prop, i):
	return int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()[:8], "big")


def make_plan(scn, prop, seed, tier, i):
	rng = random.Random(plan_seed(seed, prop, i))
	plan = scn.gen(rng, tier, i)
	plan["prop"] = prop
	plan.setdefault("faults", [])
	plan.setdefault("ops", [])
	plan.setdefault("sched", {"kind": "serial", "seed": 0})
	plan.setdefault("entropy", rng.getrandbits(32))
	return json.loads(json.dumps(plan))


# ------------------------------------------------------------------ one run, in this process
def execute(scn, plan):
	from . import boot
	import numpy as np
	boot.ENTROPY_HOOK = boot.NEAR = None
	boot.ENTROPY.seed(plan.get("entropy", 0))
	np.random.seed(plan.get("entropy", 0) % (1 << 32))
	random.seed(plan.get("entropy", 0))
	if plan.get("gran", "line") != "line":
		kernel.set_granularity(plan["gran"])
	sim = kernel.Sim(plan, max_steps=plan.get("max_steps", getattr(scn, "MAX_STEPS", 400_000)))
	res = {"status": "ok"}
	try:
		try:
			scn.run(plan, sim)
			sim.finish()
		except kernel.SimAbort:
			raise sim.failure or kernel.HarnessError("aborted without a failure")
		except kernel.Violation:
			raise
		except BaseException as e:
			# a poisoned run surfaces as whatever the library made of it
			if isinstance(sim.failure, kernel.Violation):
				raise sim.failure
			raise
	except kernel.Violation as v:
		v = sim.failure if isinstance(sim.failure, kernel.Violation) else v
		res = {"status": "violation", "sig": v.sig, "msg": str(v.msg)[:2000]}
	except BaseException as e:
		res = {"status": "harness", "sig": type(e).__name__, "msg": traceback.format_exc()[-3000:]}
	sim.active = False
	res.update(decisions={str(k): v for k, v in sim.decisions.items()}, trace=sim.trace, steps=sim.steps, switches=sim.switches, choices=sim.choices,
		clock=sim.clock, fired=sim.fired, probes=sim.probes, threads=len(sim.threads), nlog=len(sim.log), logcrc=_crc(sim.log), log=[list(map(str, e)) for e in sim.log[:200]])
	return res


def _crc(log):
	return hashlib.sha256(repr(log).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ one run, in a forked child
def fork_run(scn, plan, wall=RUN_WALL):
	r, w = os.pipe()
	err = tempfile.TemporaryFile()
	pid = os.fork()
	if pid == 0:
		code = 3
		try:
			os.close(r)
			os.dup2(err.fileno(), 2)
			os.dup2(err.fileno(), 1)
			res = execute(scn, plan)
			data = json.dumps(res).encode()
			while data:
				n = os.write(w, data)
				data = data[n:]
			code = 0
		except BaseException:
			try:
				traceback.print_exc()
			except BaseException:
				pass
		finally:
			os._exit(code)
	os.close(w)
	buf, end = b"", now() + wall
	timed_out = False
	while True:
		left = end - now()
		if left <= 0:
			timed_out = True
			break
		ready, _, _ = select.select([r], [], [], left)
		if not ready:
			timed_out = True
			break
		b = os.read(r, 1 << 16)
		if not b:
			break
		buf += b
	os.close(r)
	if timed_out:
		os.kill(pid, signal.SIGKILL)
	_, st = os.waitpid(pid, 0)
	if timed_out:
		err.close()
		return {"status": "timeout", "sig": "hang", "msg": f"no result within {wall} s of real time"}
	if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and buf:
		err.close()
		return json.loads(buf)
	err.seek(0)
	tail = err.read()[-1500:].decode(errors="replace")
	err.close()
	if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGABRT, signal.SIGSEGV, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
		return {"status": "violation", "sig": "process-crash", "msg": f"signal {os.WTERMSIG(st)} while running the library: {tail}"}
	return {"status": "harness", "sig": "child-died", "msg": f"wait status {st}: {tail}"}


def run_plan(scn, plan):
	res = fork_run(scn, plan)
	if res["status"] == "timeout":
		if os.environ.get("SIM_DEBUG"):
			json.dump(plan, open("/tmp/slow-%d.json" % os.getpid(), "w"))
		res = fork_run(scn, plan, wall=4 * RUN_WALL)
		if res["status"] == "timeout":
			res = {"status": "violation", "sig": "hang", "msg": f"the run did not end within {4 * RUN_WALL} s of real time (twice)"}
	return res


# ------------------------------------------------------------------ minimisation
def explicit(plan, res):
	p = json.loads(json.dumps(plan))
	if p["sched"].get("kind") != "map" and "decisions" in res:
		p["sched"] = {"kind": "map", "map": res["decisions"]}
	return p


def shrink(scn, plan, sig, budget_s, log=lambda s: None):
	end = now() + budget_s
	trials = [0]

	def bad(p):
		if now() > end:
			return False
		trials[0] += 1
		for _ in range(1 if sig != "process-crash" else 4):
			r = fork_run(scn, p, wall=10.0 if sig != "hang" else RUN_WALL)
			if r["status"] == "violation" and r["sig"] == sig:
				return True
		return False

	def clone(p):
		return json.loads(json.dumps(p))

	def ddmin(get, put, p):
		items = get(p)
		n = 2
		if items:
			q = put(clone(p), [])
			if bad(q):
				return q
		while len(items) >= 1 and now() < end:
			size = max(1, len(items) // n)
			for i in range(0, len(items), size):
				rest = items[:i] + items[i + size:]
				q = put(clone(p), rest)
				if bad(q):
					p, items, n = q, rest, max(2, n - 1)
					break
			else:
				if size == 1:
					break
				n = min(len(items), n * 2)
		return p

	def put_ops(p, v):
		p["ops"] = v
		return p

	def put_faults(p, v):
		p["faults"] = v
		return p

	def put_map(p, v):
		p["sched"] = {"kind": "map", "map": dict(v)}
		return p

	def map_items(p):
		return sorted(p["sched"].get("map", {}).items(), key=lambda kv: int(kv[0]))

	prev = None
	rounds = 0
	if plan.get("gran") == "instr":
		q = clone(plan)
		q["gran"] = "line"
		if bad(q):
			plan = q
	while prev != plan and now() < end and rounds < 4:
		rounds += 1
		prev = clone(plan)
		plan = ddmin(lambda p: p["ops"], put_ops, plan)
		plan = ddmin(lambda p: p["faults"], put_faults, plan)
		if plan["sched"].get("kind") == "map":
			plan = ddmin(map_items, put_map, plan)
		for path, cands in scn.simplifications(plan):
			for c in cands:
				q = clone(plan)
				d = q
				for k in path[:-1]:
					d = d[k]
				if d[path[-1]] == c:
					break
				d[path[-1]] = c
				if bad(q):
					plan = q
					break
	return plan, trials[0]


# ------------------------------------------------------------------ worker process
def worker_main(prop, seed, tier, idx, nw, nruns, wall, out):
	from . import boot
	boot.boot(ext=needs_ext(prop))
	scn = load_scenario(prop)
	scn.warm() if hasattr(scn, "warm") else None
	gc.collect()
	gc.freeze()
	end = now() + wall
	agg = {"runs": 0, "nontrivial": [], "steps": 0, "switches": 0, "choices": 0, "clock": 0.0, "fired": {}, "probes": {}, "kinds": {}, "samples": [],
		"threads": {}, "violations": [], "harness": [], "faultfree": 0, "logs": {}}
	keep_logs = os.environ.get("SIM_KEEP_LOGS")
	i = idx
	while i < nruns and now() < end:
		plan = make_plan(scn, prop, seed, tier, i)
		res = run_plan(scn, plan)
		agg["runs"] += 1
		for k in ("steps", "switches", "choices", "clock"):
			agg[k] += res.get(k, 0)
		for k in ("fired", "probes"):
			for a, b in res.get(k, {}).items():
				agg[k][a] = agg[k].get(a, 0) + b
		t = str(res.get("threads", 0))
		agg["threads"][t] = agg["threads"].get(t, 0) + 1
		if not res.get("fired"):
			agg["faultfree"] += 1
		if keep_logs:
			agg["logs"][str(i)] = [res["status"], res.get("sig"), res.get("trace"), res.get("steps"), res.get("logcrc")]
		kind = str(plan.get("cfg", {}).get("kind", "-"))
		agg["kinds"][kind] = agg["kinds"].get(kind, 0) + 1
		if res["status"] == "ok":
			if res.get("fired") or res.get("switches", 0) > 0 or len(plan["ops"]) > 1:
				fp = hashlib.sha256(json.dumps([plan["cfg"], plan["ops"], plan["faults"], res.get("trace")], sort_keys=True).encode()).hexdigest()[:16]
				agg["nontrivial"].append(fp)
			if len(agg["samples"]) < 2 and idx < 3:
				agg["samples"].append({"run": i, "plan": _short(plan), "steps": res["steps"], "switches": res["switches"], "faults_fired": res["fired"]})
		elif res["status"] == "violation":
			known = match_known(prop, res, plan)
			if known is not None:
				agg.setdefault("known", {}).setdefault(known, 0)
				agg["known"][known] += 1
			else:
				plan = explicit(plan, res)
				agg["violations"].append({"run": i, "sig": res["sig"], "msg": res["msg"], "plan": plan, "logcrc": res.get("logcrc")})
				break
		else:
			agg["harness"].append({"run": i, "sig": res["sig"], "msg": res["msg"], "plan": plan})
			if len(agg["harness"]) >= 3:
				break
		i += nw
	agg["next"] = i
	with open(out, "w") as f:
		json.dump(agg, f)


def _short(plan):
	s = json.dumps(plan)
	return plan if len(s) < 3000 else s[:3000] + "..."


def shrink_main(planfile, sig, budget, out):
	plan = json.load(open(planfile))
	from . import boot
	boot.boot(ext=needs_ext(plan["prop"]))
	scn = load_scenario(plan["prop"])
	scn.warm() if hasattr(scn, "warm") else None
	gc.collect()
	gc.freeze()
	small, trials = shrink(scn, plan, sig, budget)
	res = run_plan(scn, small)
	if not (res["status"] == "violation" and res["sig"] == sig):
		small = plan
		res = run_plan(scn, small)
	json.dump({"plan": small, "res": res, "trials": trials}, open(out, "w"))


def replay_main(path):
	doc = json.load(open(path))
	plan = doc["plan"]
	from . import boot
	boot.boot(ext=needs_ext(plan["prop"]))
	scn = load_scenario(plan["prop"])
	scn.warm() if hasattr(scn, "warm") else None
	gc.collect()
	gc.freeze()
	res = run_plan(scn, plan)
	return doc, res


# ------------------------------------------------------------------ known findings
def known_findings(prop):
	out = []
	p = os.path.join(VERIF, "known_findings.txt")
	if os.path.exists(p):
		for line in open(p):
			m = re.match(r"known: property=(\S+) sig=(\S+) where=(\{.*?\}) (.*)$", line.strip())
			if m and m.group(1) == prop:
				out.append((m.group(2), json.loads(m.group(3)), m.group(4)))
	return out


def match_known(prop, res, plan):
	for sig, where, what in known_findings(prop):
		if res["sig"] == sig and all(str(plan.get("cfg", {}).get(k)) == str(v) for k, v in where.items()):
			return what
	return None
