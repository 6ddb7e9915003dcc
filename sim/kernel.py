"""Deterministic kernel: one OS thread runs at a time, and the simulator chooses which.

Every thread started through `threading` is a real OS thread that is parked on its own baton; locks, condition variables, events,
queues, thread start and thread exit (and therefore the whole of the real concurrent.futures on top of them), sleeping and the clock are
simulated.  Pre-emption points are the simulated primitives, explicit yields inside simulated operators/samplers/callbacks, and
sys.monitoring LINE (optionally INSTRUCTION) events of the library's own code.  A plan's schedule is either a seeded strategy (while
searching) or an explicit sparse map {decision index: thread} (while shrinking and replaying); running the former records the latter.
"""
import _thread, random, sys, threading, time, zlib

_REAL_ALLOC = _thread.allocate_lock
_REAL_START = _thread.start_new_thread

SIM = None  # the active simulation of this process, if any


class SimAbort(BaseException):
	"""Raised in parked threads that have to go away, and in the driver when the run cannot continue."""


class Violation(BaseException):
	"""The property does not hold.  `sig` names the violation class (stable under shrinking), `msg` explains it."""

	def __init__(self, sig, msg=""):
		super().__init__(f"{sig}: {msg}")
		self.sig, self.msg = sig, msg


class StepLimit(Violation):
	def __init__(self, what):
		super().__init__("no-progress", what)


class Deadlock(Violation):
	def __init__(self, what):
		super().__init__("deadlock", what)


class HarnessError(Exception):
	pass


class _T:
	__slots__ = ("tid", "baton", "state", "wake", "points", "lines", "prio", "waiting", "name", "poison", "armed", "timed_out")

	def __init__(self, tid, name):
		self.tid, self.name = tid, name
		self.baton = _REAL_ALLOC()
		self.baton.acquire()
		self.state = "run"  # run | block | done
		self.wake = None
		self.points = self.lines = 0
		self.prio = 0.0
		self.waiting = None
		self.poison = None
		self.armed = False
		self.timed_out = False


class Strategy:
	"""Seeded choice of who runs at each decision; returns a tid or None (keep the default)."""

	def __init__(self, spec):
		self.kind = spec["kind"]
		self.rng = random.Random(spec["seed"])
		self.p = spec.get("p", 0.2)
		self.change = set()
		self.prio = {}
		self.left = 0
		self.d = spec.get("d", 3)
		self.horizon = spec.get("horizon", 600)
		self.victim = spec.get("victim", 1)
		if self.kind == "pct":
			self.change = {self.rng.randrange(self.horizon) for _ in range(self.d)}
		self.n = 0

	def choose(self, cur, runnable):
		self.n += 1
		k = self.kind
		if k == "serial":
			return None
		if k == "random":
			return self.rng.choice(runnable) if self.rng.random() < self.p else None
		if k == "burst":  # run one thread for a geometric number of points, then another
			if self.left > 0 and cur in runnable:
				self.left -= 1
				return None
			self.left = int(self.rng.expovariate(1.0 / max(1.0, 1.0 / self.p)))
			return self.rng.choice(runnable)
		if k == "pct":
			for t in runnable:
				if t not in self.prio:
					self.prio[t] = self.rng.random() + 1.0
			if self.n in self.change and cur in self.prio:
				self.prio[cur] = self.rng.random() * 0.5 - self.n * 1e-6
			return max(runnable, key=lambda t: self.prio[t])
		if k == "starve":  # one victim runs only when nobody else can
			others = [t for t in runnable if t != self.victim]
			pool = others or runnable
			return self.rng.choice(pool) if self.rng.random() < self.p or cur not in pool else None
		raise HarnessError("unknown strategy " + k)


class Sim:
	def __init__(self, plan, max_steps=400_000):
		global SIM
		self.plan = plan
		sched = plan.get("sched") or {"kind": "serial", "seed": 0}
		self.map = {int(k): int(v) for k, v in sched["map"].items()} if sched.get("kind") == "map" else None
		self.strat = None if self.map is not None else Strategy(sched)
		self.threads = []
		self.by_ident = {}
		self.cur = None
		self.clock = 0.0
		self.steps = 0
		self.max_steps = max_steps
		self.index = 0  # decision index
		self.decisions = {}  # the non-default choices that were made
		self.switches = 0
		self.trace = 0  # crc of (tid chosen) at every decision with a real choice
		self.choices = 0
		self.failure = None
		self.seq = 0
		self.active = False
		self.fired = {}
		self.probes = {}
		self.log = []
		self.drained = False
		self.draining = False
		# sparse faults keyed for O(1) lookup
		self.stalls, self.line_faults, self.start_faults = {}, {}, set()
		for f in plan.get("faults", []):
			if f["kind"] == "stall":
				self.stalls[(f["tid"], f["at"])] = f["dur"]
			elif f["kind"] == "line":
				self.line_faults.setdefault((f["tid"], f["at"]), []).append(f)
			elif f["kind"] == "nostart":
				self.start_faults.add(f["at"])
		self.starts = 0
		t = _T(0, "main")
		self.threads.append(t)
		self.by_ident[_thread.get_ident()] = t
		self.cur = t
		self.active = True
		SIM = self

	# ------------------------------------------------------------ bookkeeping
	def count(self, kind, n=1):
		self.fired[kind] = self.fired.get(kind, 0) + n

	def probe(self, name, n=1):
		self.probes[name] = self.probes.get(name, 0) + n

	def event(self, *what):
		self.log.append(what)
		self.trace = zlib.crc32(repr(what).encode(), self.trace)

	def next_seq(self):
		self.seq += 1
		return self.seq

	def me(self):
		return self.by_ident.get(_thread.get_ident())

	# ------------------------------------------------------------ scheduling
	def _runnable(self):
		return [t.tid for t in self.threads if t.state == "run"]

	def _wake_due(self):
		for t in self.threads:
			if t.state == "block" and t.wake is not None and t.wake <= self.clock:
				t.state, t.wake, t.timed_out = "run", None, True

	def _pick(self, cur):
		"""Choose the next thread to run (cur may be blocked or done)."""
		while True:
			self._wake_due()
			r = self._runnable()
			if r:
				break
			timers = [t.wake for t in self.threads if t.state == "block" and t.wake is not None]
			if timers:
				self.clock = max(self.clock, min(timers))
				continue
			main = self.threads[0]
			if self.draining:
				self.drained = True
				main.state = "run"
				return main
			if main.state == "done":
				return None
			main.poison = main.poison or Deadlock("no thread can run; blocked: " + ", ".join(f"{t.name}[{t.waiting}]" for t in self.threads if t.state == "block"))
			self.failure = self.failure or main.poison
			main.state = "run"
			return main
		if len(r) == 1:
			return self.threads[r[0]]
		self.index += 1
		default = cur.tid if cur.state == "run" else next((t for t in r if t > cur.tid), r[0])
		if self.map is not None:
			want = self.map.get(self.index, default)
			if want not in r:
				want = default
		else:
			want = self.strat.choose(cur.tid if cur.state == "run" else None, r)
			if want is None:
				want = default
			if want != default:
				self.decisions[self.index] = want
		self.choices += 1
		self.trace = zlib.crc32(bytes((want & 255, len(r) & 255)), self.trace)
		return self.threads[want]

	def _switch(self, cur, nxt):
		if nxt is cur or nxt is None:
			return
		self.switches += 1
		self.cur = nxt
		nxt.baton.release()
		if cur.state != "done":
			cur.baton.acquire()

	def _after(self, cur):
		if cur.poison is not None:
			p, cur.poison = cur.poison, None
			raise p

	def fail(self, exc):
		"""Record a failure seen in any thread and bring the driver back."""
		self.failure = self.failure or exc
		main, cur = self.threads[0], self.me()
		if cur is main:
			raise exc
		main.poison = main.poison or exc
		if main.state == "block":
			main.state, main.wake = "run", None
		raise SimAbort()

	def yield_point(self, what="yield"):
		cur = self.me()
		if cur is None or not self.active:
			return
		self.steps += 1
		self.clock += 1e-6
		if self.steps > self.max_steps:
			if not isinstance(self.failure, StepLimit):
				self.failure = self.failure or StepLimit(f"no end after {self.max_steps} steps")
			if cur.tid == 0:
				raise self.failure
			self.fail(self.failure)
		cur.points += 1
		d = self.stalls.pop((cur.tid, cur.points), None)
		if d is not None:
			self.count("stall")
			self.sleep(d)
			return
		if len(self.threads) > 1:
			self._switch(cur, self._pick(cur))
			self._after(cur)

	def block(self, waiting, until=None):
		"""Park the calling thread until someone makes it runnable (or virtual time `until`). Returns False on timeout."""
		cur = self.me()
		cur.state, cur.waiting, cur.wake, cur.timed_out = "block", waiting, until, False
		nxt = self._pick(cur)
		self._switch(cur, nxt)
		cur.state, cur.waiting, cur.wake = "run", None, None
		self._after(cur)
		return not cur.timed_out

	def wake(self, t):
		if t.state == "block":
			t.state, t.wake = "run", None

	def sleep(self, dur):
		cur = self.me()
		if cur is None or not self.active:
			return
		self.block("sleep", self.clock + max(0.0, float(dur)))

	# ------------------------------------------------------------ threads
	def start_thread(self, fn, args=(), kwargs=None):
		cur = self.me()
		self.starts += 1
		if self.starts in self.start_faults:
			self.count("thread-start-failure")
			raise RuntimeError("can't start new thread")
		t = _T(len(self.threads), f"t{len(self.threads)}")
		self.threads.append(t)
		ready = _REAL_ALLOC()
		ready.acquire()
		job = [(fn, args, kwargs or {})]
		del fn, args, kwargs

		def boot():
			self.by_ident[_thread.get_ident()] = t
			ready.release()
			t.baton.acquire()
			try:
				if t.poison is None:
					f, a, k = job.pop()
					f(*a, **k)
			except SimAbort:
				pass
			except SystemExit:
				pass
			except Violation as e:
				self.failure = self.failure or e
				m = self.threads[0]
				m.poison = m.poison or e
				if m.state == "block":
					m.state, m.wake = "run", None
			except BaseException as e:  # noqa
				self.event("thread-died", t.tid, type(e).__name__)
				self.probe("thread-died:" + type(e).__name__)
			finally:
				f = a = k = None  # drop references while we still hold the baton
				for lk in _SENTINELS.pop(t.tid, ()):
					lk.force_release()
				t.state = "done"
				del self.by_ident[_thread.get_ident()]
				nxt = self._pick(t)
				if nxt is not None:
					self.cur = nxt
					self.switches += 1
					nxt.baton.release()

		ident = _REAL_START(boot, ())
		ready.acquire()
		self.yield_point("start")
		return ident

	def drain(self):
		"""Driver only: let everybody else run until all are finished or blocked for good. Returns the blocked threads."""
		main = self.threads[0]
		assert self.me() is main
		self.draining, self.drained = True, False
		try:
			while not self.drained:
				main.state, main.waiting, main.wake = "block", "drain", None
				nxt = self._pick(main)
				if nxt is main:
					main.state = "run"
					break
				self._switch(main, nxt)
				main.state = "run"
				self._after(main)
		finally:
			self.draining = False
		return [t for t in self.threads[1:] if t.state == "block"]

	def finish(self):
		self.active = False
		if self.failure is not None:
			raise self.failure


_SENTINELS = {}


class SimLock:
	"""Replacement for _thread.lock."""

	def __init__(self):
		self._locked = False
		self._waiters = []

	def acquire(self, blocking=True, timeout=-1):
		s = SIM
		if s is None or not s.active or s.me() is None:
			if self._locked:
				if not blocking or timeout >= 0:
					return False
				raise HarnessError("lock contended outside the simulation")
			self._locked = True
			return True
		s.yield_point("acquire")
		if not self._locked:
			self._locked = True
			return True
		if not blocking:
			return False
		until = None if timeout is None or timeout < 0 else s.clock + timeout
		me = s.me()
		while self._locked:
			self._waiters.append(me)
			try:
				ok = s.block("lock", until)
			finally:
				if me in self._waiters:
					self._waiters.remove(me)
			if not ok and self._locked:
				return False
		self._locked = True
		return True

	def release(self):
		if not self._locked:
			raise RuntimeError("release unlocked lock")
		self._locked = False
		s = SIM
		if s is not None and s.active:
			for w in self._waiters:
				s.wake(w)
			if s.me() is not None:
				s.yield_point("release")

	def force_release(self):
		self._locked = False
		if SIM is not None:
			for w in self._waiters:
				SIM.wake(w)

	def locked(self):
		return self._locked

	acquire_lock, release_lock, locked_lock = acquire, release, locked

	def __enter__(self):
		self.acquire()
		return self

	def __exit__(self, *a):
		self.release()

	def _at_fork_reinit(self):
		self._locked, self._waiters = False, []

	def __repr__(self):
		return f"<SimLock locked={self._locked}>"


def _set_sentinel():
	lk = SimLock()
	s = SIM
	me = s.me() if s is not None else None
	if me is not None:
		_SENTINELS.setdefault(me.tid, []).append(lk)
	return lk


def _start_new_thread(fn, args=(), kwargs=None):
	s = SIM
	if s is None or not s.active or s.me() is None:
		raise HarnessError("thread started outside the simulation")
	return s.start_thread(fn, args, kwargs)


def _monotonic():
	s = SIM
	if s is None:
		return 0.0
	return s.clock


def _sleep(d):
	s = SIM
	if s is not None and s.active:
		s.sleep(d)


_REAL_TIME = {}


def install():
	"""Put every source of nondeterminism behind the kernel. Must run before concurrent.futures, numpy or the library is imported."""
	import queue
	for m in ("concurrent.futures.thread", "numpy", "scipy", "primate"):
		if m in sys.modules:
			raise HarnessError(f"{m} imported before the simulator was installed")
	for n in ("time", "monotonic", "perf_counter", "sleep", "time_ns", "monotonic_ns", "perf_counter_ns"):
		_REAL_TIME[n] = getattr(time, n)
	threading._start_new_thread = _start_new_thread
	threading._allocate_lock = SimLock
	threading.Lock = SimLock
	threading._CRLock = None
	threading._set_sentinel = _set_sentinel
	threading._time = _monotonic
	queue.SimpleQueue = queue._PySimpleQueue
	queue.time = _monotonic
	time.time = lambda: 1.7e9 + _monotonic()
	time.monotonic = time.perf_counter = _monotonic
	time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(_monotonic() * 1e9)
	time.sleep = _sleep
	ids = iter(range(1, 1 << 62))
	def th_hash(self):
		h = self.__dict__.get("_sim_hash")
		if h is None:
			h = self.__dict__["_sim_hash"] = SIM.next_seq() if SIM is not None else next(ids) + (1 << 40)
		return h
	threading.Thread.__hash__ = th_hash
	import concurrent.futures._base as b
	import concurrent.futures.thread  # noqa
	b.Future.__hash__ = th_hash
	b.id = lambda o: th_hash(o) if isinstance(o, b.Future) else id(o)


# ------------------------------------------------------------------ tracing the library
TOOL = 3
_CODES = []


def collect_codes(prefix):
	import gc, types
	seen, out = set(), []

	def walk(c):
		if id(c) in seen or not c.co_filename.startswith(prefix):
			return
		seen.add(id(c))
		out.append(c)
		for k in c.co_consts:
			if isinstance(k, types.CodeType):
				walk(k)

	for o in gc.get_objects():
		if isinstance(o, types.FunctionType):
			walk(o.__code__)
		elif isinstance(o, property):
			for f in (o.fget, o.fset, o.fdel):
				if isinstance(f, types.FunctionType):
					walk(f.__code__)
	out.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
	return out


def install_tracing(prefix):
	mon = sys.monitoring
	mon.use_tool_id(TOOL, "primate-sim")
	mon.register_callback(TOOL, mon.events.LINE, _on_line)
	mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instr)
	_CODES[:] = collect_codes(prefix)
	set_granularity("line")


def set_granularity(g):
	mon = sys.monitoring
	ev = {"line": mon.events.LINE, "instr": mon.events.LINE | mon.events.INSTRUCTION, "off": 0}[g]
	for c in _CODES:
		mon.set_local_events(TOOL, c, ev)


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def _on_line(code, line):
	s = SIM
	if s is None or not s.active:
		return
	t = s.by_ident.get(_thread.get_ident())
	if t is None:
		return
	t.lines += 1
	if s.line_faults:
		fs = s.line_faults.get((t.tid, t.lines))
		if fs and not getattr(s, "mask_line_faults", False):
			f = fs.pop()
			if not fs:
				del s.line_faults[(t.tid, t.lines)]
			s.count("line:" + f["exc"])
			s.event("line-fault", t.tid, f["exc"], code.co_name)
			s.last_line_fault = (code.co_name, line)
			e = EXC[f["exc"]](f"injected {f['exc']}")
			e.injected = True
			s.injected = e
			raise e
	s.yield_point("line")


def _on_instr(code, off):
	s = SIM
	if s is None or not s.active or len(s.threads) == 1:
		return
	if s.by_ident.get(_thread.get_ident()) is not None:
		s.yield_point("instr")
