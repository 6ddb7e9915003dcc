"""E04: the control-variate estimate equals the one computed from all joint samples at once."""
EXT = False
QUICK = (15000, 30)
THOROUGH = (3_000_000, 900)
import numpy as np

from sim.lib import *  # noqa
from primate.estimators import ControlVariableEstimator

L = np.longdouble


def samples(c, j, n):
	g = np.random.default_rng([c["seed"], j])
	p = c["ncv"]
	h = np.random.default_rng([c["seed"], 10**6])
	M = h.normal(size=(p, p)) + 2 * np.eye(p)
	Z = g.normal(size=(n, p)) @ M.T + c["cvoff"]
	if c["discrete"]:
		Z = g.choice([-1.0, 1.0], size=(n, p)) if n else Z
	if j in c["flat"] and n:
		Z = np.repeat(Z[:1], n, axis=0)  # the control variables did not vary
	y = Z @ h.normal(size=p) + c["noise"] * g.normal(size=n) + c["off"]
	return np.c_[y, Z] * c["scale"]


def params(c):
	h = np.random.default_rng([c["seed"], 10**6 + 1])
	ecv = (c["cvoff"] + 0.1 * h.normal(size=c["ncv"])) * c["scale"]
	alpha = h.normal(size=c["ncv"]) * (not c.get("zero")) if c["given"] else None
	return ecv, alpha


class Scenario(ScenarioBase):
	def gen(self, rng, tier, i):
		ne = rng.choice([1, 1, 2])
		es = [{"ncv": rng.choice([1, 1, 1, 2, 3, 5]), "given": rng.random() < 0.4, "zero": rng.random() < 0.15, "off": rng.choice([0.0, 1.0, -100.0]), "cvoff": rng.choice([0.0, 2.0, 50.0]), "noise": rng.choice([0.0, 0.1, 2.0]),
			"scale": rng.choice([1.0, 1.0, 1e-6, 1e5]), "seed": rng.randrange(1 << 30), "scalar": rng.random() < 0.5,
			"discrete": rng.random() < 0.25, "flat": rng.choice([[], [], [0], [0, 1]]), "record": rng.random() < 0.4, "touch": rng.random() < 0.4} for _ in range(ne)]
		ones = rng.random() < 0.3
		ops = [{"e": rng.randrange(ne), "n": 1 if ones else rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 9, 40]), "form": rng.choice(["array", "array", "list", "fortran", "f32"]), "peek": rng.random() < 0.7, "touch": rng.random() < 0.3}
			for _ in range(rng.randrange(1, 14))]
		return {"cfg": {"kind": "given" if all(e["given"] for e in es) else "estimated", "ests": es}, "ops": ops, "faults": gen_stalls(rng, [1, 2], most=1, horizon=30) if ne > 1 else [], "sched": gen_sched(rng, victims=ne)}

	def run(self, plan, sim):
		es = plan["cfg"]["ests"]

		def client(k):
			c = es[k]
			p = c["ncv"]
			ecv, alpha = params(c)
			one = p == 1 and c["scalar"]
			est = lib("construction-failed", ControlVariableEstimator, float(ecv[0]) if one else ecv, (float(alpha[0]) if one else alpha) if alpha is not None else None, record=c["record"])
			if c["touch"]:  # the caller uses its arrays for something else
				mine = [a.copy() if a is not None else None for a in (ecv, alpha)]
				for a in (ecv, alpha):
					if a is not None:
						a[...] = np.nan if c["seed"] % 2 else 7.0
				ecv, alpha = mine
			parts, single = [], False
			said = []  # what the estimate was after each update

			empty = False

			def look(what):
				got = lib("query-failed", lambda: est.estimate)
				X = np.concatenate(parts) if parts else np.zeros((0, p + 1), dtype=L)
				n = len(X)
				where = lambda: f"{p} control variables, {'given' if c['given'] else 'estimated'} coefficients, n={n}, {what}"
				check(len(est) == n, "sample-count", lambda: f"{where()}: counts {len(est)}")
				with np.errstate(all="ignore"):
					V = est.values
					if c["record"]:
						check(len(V) == n, "record-length", lambda: f"{where()}: {len(V)} samples recorded")
						check(n == 0 or np.array_equal(np.array([np.ravel(v) for v in V], dtype=L), X), "record-differs", where)
					else:
						check(V is None or len(V) == 0, "recorded-unasked", where)
					if said:
						prev = said[-2] if len(said) > 1 else np.nan
						d, moved = float(np.ravel(est.delta)[0]), float(np.ravel(got)[0]) - float(prev)
						check(np.size(est.delta) == 1, "delta-shape", lambda: f"{where()}: {est.delta!r}")
						if np.isfinite(moved):
							ok = abs(abs(d) - abs(moved)) <= 1e-12 * (abs(float(prev)) + abs(moved)) or moved == 0 and empty
							check(ok, "delta-differs", lambda: f"{where()}: last change {d} but the estimate moved by {moved}")
						elif not np.isfinite(np.ravel(got)[0]):
							check(not abs(d) < 1e300 or empty, "delta-without-estimate", lambda: f"{where()}: last change {d} although the estimate is {got}")
				if n == 0 or (not c["given"] and n <= p):
					check(np.size(got) == 1 and np.isnan(got), "defined-too-early", lambda: f"{where()}: {got}")
					sim.probe("too-few-samples")
					return
				if not c["given"] and n < p + 2:
					return
				mu = X.mean(axis=0)
				eps = 2.3e-16 if not single else 1.2e-7
				mx = float(np.max(np.abs(X)))
				if c["given"]:
					a, cond = alpha.astype(L), 1.0
				else:
					Z = (X - mu).astype(float)
					C = Z.T @ Z / (n - 1)
					if np.min(np.diag(C)[1:]) <= 1e-12 * mx * mx:
						sim.probe("degenerate")
						return
					cond = np.linalg.cond(C[1:, 1:]) * (1.0 + mx * mx / np.min(np.diag(C)[1:]) * (1e-3 if not single else 1.0))
					if not np.isfinite(cond) or cond > 1e8 or single and cond > 1e3:
						return
					a = np.linalg.solve(C[1:, 1:], C[1:, 0])
				want = mu[0] - np.dot(a, mu[1:] - ecv)
				sc = (mx + float(np.max(np.abs(ecv)))) * (1.0 + float(np.sum(np.abs(a))))
				tol = 200 * eps * cond * sc
				check(np.size(got) == 1 and abs(float(got) - float(want)) <= tol, "estimate-differs", lambda: f"{where()}: {got!r} but all samples at once give {float(want)!r} (tolerance {tol:.3g})")
				sim.probe("compared")

			look("before any update")
			for j, o in enumerate(plan["ops"]):
				if o["e"] != k:
					continue
				x = samples(c, j, o["n"])
				y = x
				if o["form"] == "f32":
					y = x = x.astype(np.float32)
					single = True
				elif o["form"] == "list" and len(x):
					y = x.tolist()
				elif o["form"] == "fortran":
					y = np.asfortranarray(x)
				with np.errstate(all="ignore"):
					lib("update-failed", est.update, y)
				empty = not len(x)
				if len(x):
					parts.append(x.astype(L))
				if o["touch"] and isinstance(y, np.ndarray):
					y[...] = np.nan
				said.append(lib("query-failed", lambda: est.estimate))
				sim.event("update", k, o["n"])
				if o["peek"]:
					look(f"after update {j}")
			look("at the end")

		if len(es) > 1:
			run_clients(sim, [(lambda k=k: client(k)) for k in range(len(es))])
		else:
			client(0)
