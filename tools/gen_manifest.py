#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every scenario in props/, the other properties not applicable."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(V / "properties.jsonl")]
NA = {
	"N01": "A statement about expectations and coverage over the random vectors: deciding it means statistics or algebra over the sampling distribution, not a search over schedules, faults or histories; no schedule, clock, I/O or multi-party behaviour enters. (That the reported estimate is exactly the mean of what was sampled is decided by T01.)",
	"N02": "A pure function of size, spectrum and a seed: no schedule, fault or history for a simulator to control bears on the distribution of the result. (Its independence of history and threads, and its symmetry and spectrum, are decided by R05.)",
	"N03": "A pure numerical identity in the entries of one tridiagonal matrix: nothing a simulator controls affects it. (Survival of solver failures, and sharing among threads, are decided by Q01 and Q02.)",
	"N04": "Closed formulas evaluated on their arguments alone: no concurrency, time, I/O, fault or history.",
}
WHAT = {
	"R": "Real library and real concurrent.futures on simulated threads; sampler draws, worker and thread-start failures and stalls are injected.",
	"E": "Real estimators driven by seeded update histories with failing, empty and aliasing batches, alone and from several simulated threads.",
	"T": "Real estimators around simulated operators, samplers, criteria and callbacks that log, stall, misbehave and fail; the history is judged against reference models.",
	"M": "Real operators and the compiled Lanczos routine around simulated operators, with failures, interrupts and shared use; judged against fresh-process references.",
	"D": "Real figure code and estimators on a recording stand-in for the plotting library, which fails and yields; judged against the running statistics of the recorded samples.",
	"S": "Real spectral functions and matrix functions made, shared, interrupted and scribbled on by simulated threads; judged against their definitions.",
	"Q": "Real solvers with convergence failures injected below scipy's LAPACK wrappers, and shared concurrent use.",
}
checks = []
for p in props:
	i = p["id"]
	if not (V / "props" / f"{i}.py").exists():
		continue
	checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {i}", "technique": "deterministic simulation with fault injection (seeded search)",
		"level": "exploration", "level_note": WHAT[i[0]] + " Seeded sampling of workloads, schedules and fault sequences, not exhaustive; numpy, scipy and compiled code run atomically between pre-emption points."})
done = {c["property"] for c in checks}
na = [{"property": p["id"], "reason": NA.get(p["id"], "not built yet")} for p in props if p["id"] not in done]
(V / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na}, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in na])
try:
	import jsonschema
	jsonschema.validate(json.load(open(V / "MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
	pass
