"""Entry points:  python -m sim.main check PROP | replay FILE | setup | determinism PROP"""
import json, os, shutil, subprocess, sys, tempfile, time

from . import build, runner

VERIF = build.VERIF
PY = build.PY
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1",
	HOME="/root", PYTHONPATH=VERIF, MALLOC_PERTURB_="165")  # uninitialised and freed memory has a known content


def spawn(args, **kw):
	return subprocess.Popen([PY, "-P", "-m", "sim.main", *map(str, args)], cwd=VERIF, env=ENV, **kw)


def batch(prop, seed, tier, nruns, wall, nw=None, logs=None, hashseed=None):
	nw = nw or int(os.environ.get("SIM_WORKERS", "8"))
	d = tempfile.mkdtemp(prefix="sim-")
	env = dict(ENV)
	if logs:
		env["SIM_KEEP_LOGS"] = "1"
	if hashseed is not None:
		env["PYTHONHASHSEED"] = str(hashseed)
	try:
		ps = []
		for i in range(nw):
			out = os.path.join(d, f"w{i}.json")
			ps.append((subprocess.Popen([PY, "-P", "-m", "sim.main", "worker", prop, str(seed), tier, str(i), str(nw), str(nruns), str(wall), out], cwd=VERIF, env=env,
				stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out))
		aggs, errs = [], []
		for p, out in ps:
			try:
				o, _ = p.communicate(timeout=wall + 400)
			except subprocess.TimeoutExpired:
				p.kill()
				o, _ = p.communicate()
				errs.append("worker timed out: " + (o or "")[-1500:])
				continue
			if p.returncode != 0 or not os.path.exists(out):
				errs.append(f"worker exit {p.returncode}: {(o or '')[-3000:]}")
			else:
				aggs.append(json.load(open(out)))
		return aggs, errs
	finally:
		shutil.rmtree(d, ignore_errors=True)


def merge(aggs):
	t = {"runs": 0, "steps": 0, "switches": 0, "choices": 0, "clock": 0.0, "faultfree": 0}
	for k in t:
		t[k] = sum(a[k] for a in aggs)
	for k in ("fired", "probes", "kinds", "threads", "known"):
		t[k] = {}
		for a in aggs:
			for x, y in a.get(k, {}).items():
				t[k][x] = t[k].get(x, 0) + y
		t[k] = dict(sorted(t[k].items()))
	t["nontrivial"] = set().union(*[a["nontrivial"] for a in aggs]) if aggs else set()
	t["samples"] = [s for a in aggs for s in a["samples"]][:3]
	t["violations"] = sorted((v for a in aggs for v in a["violations"]), key=lambda v: v["run"])
	t["harness"] = sorted((v for a in aggs for v in a["harness"]), key=lambda v: v["run"])
	return t


def check(prop):
	t0 = time.time()
	tier = os.environ.get("VERIF_TIER", "quick")
	tier = tier if tier in ("quick", "thorough") else "quick"
	seed = int(os.environ.get("VERIF_SEED", "1") or 1)
	print(f"check {prop} tier={tier} seed={seed}", flush=True)
	ext = runner.needs_ext(prop)
	if ext:
		build.ensure()
	tb = time.time() - t0
	src = open(os.path.join(VERIF, "props", prop + ".py")).read()
	ns = {}
	for line in src.splitlines():  # constants only; the module itself needs the simulator
		if line.startswith(("QUICK =", "THOROUGH =", "MIN_RUNS =", "LEVEL =")):
			exec(line, ns)
	nruns, wall = ns.get("QUICK", (6000, 14)) if tier == "quick" else ns.get("THOROUGH", (2_000_000, 600))
	if os.environ.get("SIM_WALL"):
		wall = float(os.environ["SIM_WALL"])
	t1 = time.time()
	aggs, errs = batch(prop, seed, tier, nruns, wall)
	twall = time.time() - t1
	m = merge(aggs)
	viol = m["violations"]
	write_evidence(prop, tier, seed, ns, m, twall, time.time() - t0, tb, errs)
	for v in viol[:4]:
		if report(prop, seed, v):
			return 1
	if viol:
		print("HARNESS: no violation could be replayed; none is reported")
		return 2
	for what, n in m["known"].items():
		print(f"KNOWN-FINDING: property={prop} {what} (seen {n} times)")
	if errs or m["harness"]:
		for h in m["harness"][:2]:
			print("HARNESS", h["run"], h["sig"], h["msg"][-2500:], json.dumps(h["plan"])[:1500])
		for e in errs[:2]:
			print("HARNESS", e)
		return 2
	if m["runs"] < ns.get("MIN_RUNS", 40):
		print(f"HARNESS: only {m['runs']} runs")
		return 2
	print(f"ok: {m['runs']} simulated runs, {len(m['nontrivial'])} distinct non-trivial, {m['steps']} steps, {m['switches']} switches, faults {m['fired']}, {time.time()-t0:.1f} s")
	return 0


def report(prop, seed, v):
	"""Minimise a violation, check that its file reproduces it in a fresh process, and say so."""
	os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
	path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{v['run']}.json")
	raw = {"property": prop, "seed": seed, "run": v["run"], "sig": v["sig"], "message": v["msg"], "minimised": False, "plan": v["plan"]}
	docs = [raw]
	with tempfile.TemporaryDirectory(prefix="sim-") as d:
		pf, of = os.path.join(d, "p.json"), os.path.join(d, "o.json")
		json.dump(v["plan"], open(pf, "w"))
		p = spawn(["shrink", pf, v["sig"], os.environ.get("SIM_SHRINK", "40"), of], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
		try:
			p.communicate(timeout=240)
		except subprocess.TimeoutExpired:
			p.kill()
		if os.path.exists(of):
			r = json.load(open(of))
			if r["res"]["status"] == "violation" and r["res"]["sig"] == v["sig"]:
				docs.insert(0, dict(raw, plan=r["plan"], message=r["res"]["msg"], minimised=True, shrink_trials=r["trials"], log=r["res"].get("log"), logcrc=r["res"].get("logcrc"), trace=r["res"].get("trace")))
	for doc in docs:
		json.dump(doc, open(path, "w"), indent=1)
		for _ in range(2 if doc["sig"] != "process-crash" else 12):  # what corrupted memory does next depends on addresses
			p = subprocess.run([PY, "-P", "-m", "sim.main", "replay", path], cwd=VERIF, env=ENV, capture_output=True, text=True)
			if p.returncode == 1:
				break
		print(f"run {v['run']}: {doc['sig']}: {doc['message'][:1500]}")
		print(f"replay of the {'minimised ' if doc['minimised'] else ''}file in a fresh process:", "reproduced" if p.returncode == 1 else f"NOT reproduced (exit {p.returncode}) {p.stdout[-500:]}{p.stderr[-500:]}")
		if p.returncode == 1:
			print(f"VIOLATION property={prop} replay={path}", flush=True)
			return True
	return False


def write_evidence(prop, tier, seed, ns, m, twall, total, tbuild, errs):
	sc = json.load(open(os.path.join(VERIF, "sim", "components.json")))
	ev = {
		"property": prop, "tier": tier, "seed": seed, "level": ns.get("LEVEL", "exploration"),
		"coverage": {
			"evaluations": m["runs"], "distinct_nontrivial": len(m["nontrivial"]),
			"rule": "each case is one seeded simulated execution (workload, schedule and faults drawn from the run's seed); non-trivial = at least one context switch, fired fault, or "
				"more than one operation; distinct = different (configuration, operations, faults, schedule-and-event trace)",
			"samples": m["samples"] or ["none completed"],
			"runs_per_hour": round(m["runs"] / max(twall, 1e-9) * 3600), "simulated_steps": m["steps"], "simulated_seconds": round(m["clock"], 3),
			"context_switches": m["switches"], "scheduling_decisions": m["choices"], "faults_injected": m["fired"], "fault_free_runs": m["faultfree"],
			"probes": m["probes"], "workloads": m["kinds"], "threads_per_run": m["threads"], "known_findings_seen": m["known"],
			"harness_errors": len(m["harness"]) + len(errs), "build_s": round(tbuild, 2),
			"real_components": sc["real"], "stubbed_components": sc["stub"],
		},
		"assumptions": sc["assumptions"], "wall_s": round(total, 2), "violations": len(m["violations"]),
	}
	os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
	json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


def determinism(prop, nruns, seed=7):
	"""Same seeds: twice, at several worker counts, under different hash seeds; the event logs must be identical."""
	ref = None
	for nw, hs in ((8, 0), (3, 0), (8, 12345), (5, 999), (1, 4)):
		aggs, errs = batch(prop, seed, "quick", nruns, 3000, nw=nw, logs=True, hashseed=hs)
		if errs:
			print(errs)
			return 2
		logs = {}
		for a in aggs:
			logs.update(a["logs"])
		if ref is None:
			ref = logs
		diff = [k for k in ref if ref[k] != logs.get(k)]
		print(f"{prop}: workers={nw} hashseed={hs}: {len(logs)} runs, {len(diff)} differ", diff[:5])
		if diff:
			for k in diff[:3]:
				print(k, ref[k], logs.get(k))
			return 1
	return 0


def main(a):
	if a[0] == "check":
		return check(a[1])
	if a[0] == "worker":
		runner.worker_main(a[1], int(a[2]), a[3], int(a[4]), int(a[5]), int(a[6]), float(a[7]), a[8])
		sys.stdout.flush()
		os._exit(0)
	if a[0] == "shrink":
		runner.shrink_main(a[1], a[2], float(a[3]), a[4])
		os._exit(0)
	if a[0] == "replay":
		doc, res = runner.replay_main(a[1])
		print(json.dumps({k: res.get(k) for k in ("status", "sig", "msg", "trace", "steps", "logcrc")}, indent=1))
		rc = 0
		if res["status"] == "violation":
			print(f"VIOLATION property={doc['plan']['prop']} replay={a[1]}")
			rc = 1
			if doc.get("logcrc") and doc["logcrc"] != res.get("logcrc"):
				print("note: event log differs from the recorded one")
		elif res["status"] != "ok":
			rc = 2
		sys.stdout.flush()
		os._exit(rc)
	if a[0] == "setup":
		print(build.ensure())
		return 0
	if a[0] == "determinism":
		return determinism(a[1], int(a[2]) if len(a) > 2 else 300)
	if a[0] == "one":  # debugging: run one index in this process
		from . import boot
		boot.boot(ext=runner.needs_ext(a[1]))
		scn = runner.load_scenario(a[1])
		plan = runner.make_plan(scn, a[1], int(a[2]), "quick", int(a[3]))
		print(json.dumps(plan))
		res = runner.execute(scn, plan)
		res.pop("decisions")
		print(json.dumps(res, indent=1))
		sys.stdout.flush()
		os._exit(0)
	raise SystemExit(__doc__)


if __name__ == "__main__":
	sys.exit(main(sys.argv[1:]))
