"""Load the library's Python sources from /repo/src and its extensions from the build cache, under the installed kernel."""
import gc, importlib.abc, importlib.machinery, importlib.metadata, importlib.util, os, random, sys

from . import build, kernel

ENTROPY = random.Random(0)  # what the process calls OS entropy; re-seeded per run
ENTROPY_HOOK = None  # called before each request: may yield, stall or fail
NEAR = None  # if a dict, entropy that barely differs from request to request


def entropy(k):
	if ENTROPY_HOOK is not None:
		ENTROPY_HOOK()
	if NEAR is not None and k:
		# all requests differ, but in a few of their bits only
		base, places, i = NEAR.setdefault(k, [ENTROPY.getrandbits(k), ENTROPY.sample(range(k), min(k, 24)), 0])
		NEAR[k][2] += 1
		return base ^ sum(1 << p for b, p in enumerate(places) if i >> b & 1)
	return ENTROPY.getrandbits(k) if k else 0


def boot(ext=True):
	kernel.install()
	exts = build.ensure(("tqli", "fttr", "_lanczos") if ext else ())

	class Finder(importlib.abc.MetaPathFinder):
		def find_spec(self, name, path=None, target=None):
			if name.startswith("primate.") and name[8:] in ("tqli", "fttr", "_lanczos"):
				p = exts.get(name[8:])
				if p is None:
					raise ImportError(name + " is not built for this check")
				return importlib.util.spec_from_file_location(name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
			return None

	sys.meta_path.insert(0, Finder())
	sys.path.insert(0, os.path.join(build.REPO, "src"))
	try:
		importlib.metadata.version("scikit-primate")
	except importlib.metadata.PackageNotFoundError:
		real = importlib.metadata.version
		importlib.metadata.version = lambda n: "0.0.0" if n == "scikit-primate" else real(n)
	import multiprocessing
	import numpy as np
	import scipy, scipy.linalg, scipy.sparse, scipy.sparse.linalg, scipy.spatial, scipy.spatial.distance, scipy.special, scipy.stats  # noqa
	mods = ["primate", "primate.stats", "primate.estimators", "primate.linalg", "primate.random", "primate.special", "primate.typing"]
	if ext:
		mods += ["primate.tridiag", "primate.integrate", "primate.lanczos", "primate.operators", "primate.trace", "primate.diagonal"]
	for m in mods:
		importlib.import_module(m)
		f = sys.modules[m].__file__
		if not f.startswith(os.path.join(build.REPO, "src") + os.sep):
			raise kernel.HarnessError(f"{m} imported from {f}")
	# OS entropy behind a seam
	import secrets
	np.random.bit_generator.randbits = secrets.randbits = entropy
	os.urandom = secrets.token_bytes = lambda n=32: entropy(8 * n).to_bytes(n, "little")
	# machine size behind a seam
	cpus = {"n": 4}
	multiprocessing.cpu_count = os.cpu_count = lambda: cpus["n"]
	global CPUS
	CPUS = cpus
	kernel.install_tracing(os.path.join(build.REPO, "src", "primate") + os.sep)
	gc.collect()
	gc.freeze()
	gc.disable()
	return sys.modules["primate"]


CPUS = {"n": 4}
