"""Build primate's three extension modules from /repo's *current* sources into a cache git ignores.

The cache key is the hash of every source that goes in, so a planted change is always rebuilt and an unchanged tree never is.
"""
import fcntl, glob, hashlib, os, subprocess, sys, sysconfig, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PRIMATE_REPO", "/repo")
SRC = os.path.join(REPO, "src", "primate")
CACHE = os.path.join(VERIF, ".build")
PY = "/opt/venv/bin/python"
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


class BuildError(Exception):
	pass


def _sha(paths, extra=""):
	h = hashlib.sha256(extra.encode())
	for p in sorted(paths):
		h.update(os.path.relpath(p, SRC).encode() + b"\0")
		with open(p, "rb") as f:
			h.update(f.read())
	return h.hexdigest()[:24]


def _run(cmd, what):
	r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
	if r.returncode != 0:
		raise BuildError(f"{what} does not build:\n{r.stdout[-4000:]}")


def _includes():
	import numpy
	inc = ["-I" + sysconfig.get_path("include"), "-I" + numpy.get_include()]
	try:
		import pythran
		inc.append("-I" + pythran.get_include())
	except ImportError:
		pass
	import pybind11
	inc.append("-I" + pybind11.get_include())
	return inc


def _build_pythran(name, out):
	with tempfile.TemporaryDirectory(dir=CACHE) as d:
		cpp, so = os.path.join(d, name + ".cpp"), os.path.join(d, name + ".so")
		_run([os.path.join(os.path.dirname(PY), "pythran"), "-E", os.path.join(SRC, name + ".py"), "-o", cpp], name)
		_run(["g++", "-std=c++20", "-O2", "-fPIC", "-shared", "-fvisibility=hidden", "-w", "-DENABLE_PYTHON_MODULE", "-D__PYTHRAN__=3",
			*_includes(), cpp, "-o", so], name)
		os.replace(so, out)


def _build_lanczos(out):
	with tempfile.TemporaryDirectory(dir=CACHE) as d:
		so = os.path.join(d, "l.so")
		_run(["g++", "-std=c++20", "-O1", "-DNDEBUG", "-fPIC", "-shared", "-fvisibility=hidden", "-w", *_includes(), "-I/usr/include/eigen3",
			"-I" + os.path.join(SRC, "include"), os.path.join(SRC, "_lanczos.cpp"), "-o", so], "_lanczos")
		os.replace(so, out)


def ensure(names=("tqli", "fttr", "_lanczos")):
	"""Return {module name: path of an extension built from the current sources}."""
	os.makedirs(CACHE, exist_ok=True)
	out, jobs = {}, []
	for n in names:
		deps = ([os.path.join(SRC, "_lanczos.cpp")] + glob.glob(os.path.join(SRC, "include", "*.h"))) if n == "_lanczos" else [os.path.join(SRC, n + ".py")]
		key = _sha(deps, "v1" + n)
		out[n] = os.path.join(CACHE, f"{n}-{key}", n + SUFFIX)
		if not os.path.exists(out[n]):
			jobs.append(n)
	if jobs:
		with open(os.path.join(CACHE, "lock"), "w") as lk:
			fcntl.flock(lk, fcntl.LOCK_EX)
			import concurrent.futures as cf
			def one(n):
				if os.path.exists(out[n]):
					return
				os.makedirs(os.path.dirname(out[n]), exist_ok=True)
				_build_lanczos(out[n]) if n == "_lanczos" else _build_pythran(n, out[n])
			with cf.ThreadPoolExecutor(3) as ex:
				list(ex.map(one, jobs))
	return out


if __name__ == "__main__":
	print(ensure(sys.argv[1:] or ("tqli", "fttr", "_lanczos")))
