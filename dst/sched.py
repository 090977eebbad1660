"""A deterministic scheduler for Python threads with a virtual clock.

Every simulated thread is a real thread, but it is parked on its own gate and only
one is ever released, so that the choice of who runs is the scheduler's alone.  The
seams are installed by :func:`install` *before* sumpf is imported:

* ``threading.Lock/RLock/_allocate_lock`` (and with them Event, Condition, Semaphore,
  Barrier, queue.Queue), ``threading._start_new_thread``, ``Thread.join``
* ``time.sleep/time/monotonic/perf_counter`` (virtual clock)
* the selector of asyncio event loops, ``concurrent.futures`` thread and process pools
* line events of the code under test (``sys.settrace``) as preemption points

Outside of a simulated thread all seams behave as the originals do.

A schedule is the list of the decisions that differ from the default policy ("keep
running the current thread; if it cannot run, the lowest id; let time pass only if
nothing is runnable").  A decision is identified by the number of the yield point.
"""

import _thread
import asyncio
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import collections
import collections.abc
import pickle
import queue
import random
import selectors
import sys
import threading
import zlib
import time
import weakref

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_ident = _thread.get_ident
_real = {"sleep": time.sleep, "time": time.time, "monotonic": time.monotonic, "perf_counter": time.perf_counter,
         "time_ns": time.time_ns, "monotonic_ns": time.monotonic_ns, "perf_counter_ns": time.perf_counter_ns,
         "join": threading.Thread.join, "RLock": threading.RLock}

_current = {}       # real thread ident -> SimThread


class SimAbort(BaseException):
    """Unwinds a simulated thread, when the run is over."""


class HarnessError(Exception):
    """The harness (not the code under test) is wrong."""


class Deadlock(Exception):
    """No simulated thread can ever run again, although some should."""


class StepLimit(Exception):
    """The run did not end within its budget of steps."""


class SimThread:
    __slots__ = ("tid", "name", "gate", "state", "predicate", "deadline", "daemon", "error", "why", "traced", "result")

    def __init__(self, tid, name, daemon):
        self.tid = tid
        self.name = name
        self.daemon = daemon
        self.gate = _real_allocate()
        self.gate.acquire()
        self.state = "new"
        self.predicate = None
        self.deadline = None
        self.error = None
        self.why = ""
        self.traced = False
        self.result = None


def current():
    """the simulated thread, that is running, or None"""
    return _current.get(_real_ident())


class Scheduler:
    active = None       # there is at most one per process

    def __init__(self, seed=0, schedule=None, preempt=0.0, advance=0.0, max_steps=200000, trace_prefixes=(), start_ns=10 ** 15, meet=0):
        """
        :param seed: seed for the schedule
        :param schedule: None to draw the decisions, or a list of (yield number, choice) to replay
        :param preempt: the probability for a preemption at a yield point
        :param advance: the probability, that such a preemption lets time pass instead of running another runnable thread
        :param meet: if this is not zero, threads are also preempted at every ``meet``-th line of the traced code (these lines are drawn and change from
                     time to time), so that threads, that execute the same code, often meet at the same lines
        """
        self.meet = meet
        self.__hot = 0
        self.__meetings = 0
        self.rng = random.Random(seed)
        self.replay = None if schedule is None else {int(n): c for n, c in schedule}
        self.preempt = preempt
        self.advance = advance
        self.max_steps = max_steps
        self.prefixes = tuple(trace_prefixes)
        self.now = start_ns         # ns
        self.start_ns = start_ns
        self.threads = []
        self.steps = 0
        self.yields = 0
        self.decisions = []         # deviations from the default policy
        self.switches = 0
        self.switch_hash = 0
        self.preemptions = 0
        self.time_stalls = 0
        self.done = _real_allocate()
        self.done.acquire()
        self.aborting = False
        self.failure = None
        self.running = None
        self.ceiling = None         # a callable, that returns the time (ns), beyond which the clock must not be advanced, or None
        self.log = []
        self.log_enabled = True
        self.hooks = {}             # name -> callable for cooperative faults at yield points
        self.__countdown = self.__draw_countdown()
        self.__trace_cache = {}
        self.__yield_depth = 0

    # ------------------------------------------------------------------ public

    def event(self, *what):
        """Appends to the event log.  Never draws a random number and never reads a clock."""
        if self.log_enabled:
            t = current()
            self.log.append((len(self.log), self.now - self.start_ns, t.name if t else "-", *what))

    def spawn(self, function, name=None, daemon=False, traced=True):
        """Registers a simulated thread.  It can be called before the run or by a simulated thread."""
        t = SimThread(len(self.threads), name or f"t{len(self.threads)}", daemon)
        t.traced = traced
        self.threads.append(t)
        ready = _real_allocate()
        ready.acquire()

        def body():
            _current[_real_ident()] = t
            threading._active.pop(_real_ident(), None)      # a leftover of a former thread with the same ident
            ready.release()
            t.gate.acquire()
            try:
                if not self.aborting:
                    if t.traced and self.prefixes:
                        sys.settrace(self.__global_trace)
                    t.result = function()
            except SimAbort:
                pass
            except BaseException as e:  # pylint: disable=broad-except; is evaluated later
                if not self.aborting:
                    t.error = e
            finally:
                sys.settrace(None)
                t.state = "done"
                self.__leave(t)
                if isinstance(threading._active.get(_real_ident()), threading._DummyThread):
                    threading._active.pop(_real_ident(), None)
                _current.pop(_real_ident(), None)
        t.state = "ready"
        _real_start(body, ())
        ready.acquire()
        return t

    def run(self):
        """Runs all threads until all non-daemon threads are done.  Called from outside of the simulation."""
        if Scheduler.active is not None:
            raise HarnessError("nested simulation")
        Scheduler.active = self
        try:
            self.__dispatch(None)
            if not self.done.acquire(True, 300.0):
                raise HarnessError(f"simulation is stuck in the real world; running: {self.running and self.running.name} {self.failure!r}")
            # unwind what is left
            self.aborting = True
            deadline = _real["monotonic"]() + 60.0
            for t in self.threads:
                while t.state != "done":
                    self.running = t
                    t.state = "ready"
                    t.gate.release()
                    if not self.done.acquire(True, 60.0) or _real["monotonic"]() > deadline:
                        raise HarnessError(f"cannot unwind thread {t.name}")
        finally:
            Scheduler.active = None
        return self.failure

    def fail(self, failure):
        """Ends the run."""
        if self.failure is None:
            self.failure = failure
        self.aborting = True
        t = current()
        if t is not None:
            raise SimAbort()

    def yield_point(self, kind="sync"):
        """A place, at which another thread may be scheduled."""
        t = current()
        if t is None:
            return
        if self.aborting:
            raise SimAbort()
        self.yields += 1
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail(StepLimit(f"no end after {self.max_steps} steps"))
        if self.replay is None:
            self.__countdown -= 1
            if self.__countdown > 0:
                return
            self.__countdown = self.__draw_countdown()
            choice = self.__draw_choice(t)
            if choice is None:
                return
            self.decisions.append((self.yields, choice))
        else:
            choice = self.replay.get(self.yields)
            if choice is None:
                return
        self.__apply(t, choice)

    def block(self, predicate, deadline=None, why=""):
        """Blocks the current thread until the predicate is true or the virtual clock has reached the deadline (ns).

        :returns: True, if the predicate is true
        """
        t = current()
        if self.aborting:
            raise SimAbort()
        if predicate is not None and predicate():
            return True
        t.predicate = predicate
        t.deadline = deadline
        t.why = why
        t.state = "blocked"
        self.__dispatch(t)
        t.gate.acquire()
        if self.aborting:
            raise SimAbort()
        t.predicate = None
        t.deadline = None
        return predicate is None or predicate()

    def sleep(self, seconds):
        self.yield_point("sleep")
        if seconds > 0:
            self.block(None, self.now + max(1, int(round(seconds * 1e9))), "sleep")

    # ---------------------------------------------------------------- internals

    def __draw_countdown(self):
        p = self.preempt
        if p <= 0.0:
            return 1 << 60
        n = 1
        r = self.rng.random
        while r() >= p and n < 100000:
            n += 1
        return n

    def __runnable(self, t):
        if t.state == "ready":
            return True
        if t.state == "blocked":
            if t.deadline is not None and self.now >= t.deadline:
                return True
            if t.predicate is not None and t.predicate():
                return True
        return False

    def __next_deadline(self):
        deadlines = [t.deadline for t in self.threads if t.state == "blocked" and t.deadline is not None and t.deadline > self.now]
        if not deadlines:
            return None
        d = min(deadlines)
        if self.ceiling is not None:
            c = self.ceiling()
            if c is not None and d >= c:
                return None
        return d

    def __draw_choice(self, t):
        if self.advance and self.rng.random() < self.advance:
            if self.__next_deadline() is not None:
                return "time"
        candidates = [o.tid for o in self.threads if o is not t and self.__runnable(o)]
        if not candidates:
            return None
        return candidates[self.rng.randrange(len(candidates))]

    def __apply(self, t, choice):
        if choice == "time":
            d = self.__next_deadline()
            if d is None:
                return
            self.now = d
            self.time_stalls += 1
            woken = [o for o in self.threads if o is not t and self.__runnable(o)]
            if not woken:
                return
            other = woken[0]
            for o in woken:
                if o.deadline == d:
                    other = o
                    break
        else:
            if choice >= len(self.threads):
                return
            other = self.threads[choice]
            if other is t or not self.__runnable(other):
                return
        self.preemptions += 1
        t.state = "ready"
        self.__switch(other)
        t.gate.acquire()
        if self.aborting:
            raise SimAbort()

    def __switch(self, other):
        self.switches += 1
        self.switch_hash = hash((self.switch_hash, other.tid, self.yields)) & 0xffffffffffff
        other.state = "running"
        self.running = other
        other.gate.release()

    def __dispatch(self, t):
        """Passes the control to a thread, when the calling one cannot go on."""
        while True:
            self.steps += 1
            self.yields += 1
            if self.steps > self.max_steps and self.failure is None:
                self.failure = StepLimit(f"no end after {self.max_steps} steps")
            if self.failure is not None or self.aborting:
                self.aborting = True
                self.running = None
                self.done.release()
                return
            candidates = [o for o in self.threads if self.__runnable(o)]
            if not [o for o in self.threads if o.state != "done" and not o.daemon]:
                self.running = None
                self.done.release()
                return
            choice = None
            if self.replay is None:
                if candidates:
                    if len(candidates) > 1:
                        choice = candidates[self.rng.randrange(len(candidates))].tid
                    if self.advance and self.rng.random() < self.advance * 0.5 and self.__next_deadline() is not None:
                        choice = "time"
                    if choice is not None and choice != candidates[0].tid:
                        self.decisions.append((self.yields, choice))
            else:
                choice = self.replay.get(self.yields)
            if choice == "time" or not candidates:
                d = self.__next_deadline()
                if d is not None:
                    if candidates:
                        self.time_stalls += 1
                    self.now = d
                    continue
                if not candidates:
                    waiting = sorted(f"{o.name}: {o.why}" for o in self.threads if o.state == "blocked" and not o.daemon)
                    self.failure = Deadlock("; ".join(waiting))
                    continue
                choice = None
            other = candidates[0]
            if choice is not None:
                for o in candidates:
                    if o.tid == choice:
                        other = o
            self.__switch(other)
            return

    def __leave(self, t):
        if self.aborting:
            self.running = None
            self.done.release()
        else:
            self.__dispatch(t)

    def __global_trace(self, frame, event, arg):    # pylint: disable=unused-argument
        code = frame.f_code
        try:
            wanted = self.__trace_cache[code]
        except KeyError:
            wanted = code.co_filename.startswith(self.prefixes)
            self.__trace_cache[code] = wanted
        if wanted:
            self.yield_point("call")
            return self.__local_trace
        return None

    def __local_trace(self, frame, event, arg):     # pylint: disable=unused-argument
        if event == "line":
            if self.meet and self.replay is None and not self.aborting:
                code = frame.f_code
                if (zlib.crc32(code.co_name.encode()) + frame.f_lineno - code.co_firstlineno) % self.meet == self.__hot:
                    self.__countdown = 1
                    self.__meetings += 1
                    if self.__meetings % 8 == 0:
                        self.__hot = self.rng.randrange(self.meet)
            self.yield_point("line")
        return self.__local_trace


# ------------------------------------------------------------------------ seams


class SimLock:
    """Replaces ``threading.Lock``."""

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        s = Scheduler.active
        t = current()
        if s is None or t is None:
            if self._locked:
                if not blocking:
                    return False
                raise HarnessError("a simulated lock is contended outside of the simulation")
            self._locked = True
            return True
        if s.aborting:
            self._locked = True
            if sys.exc_info()[0] is None:
                raise SimAbort()
            return True
        s.yield_point("acquire")
        if self._locked:
            if not blocking:
                return False
            deadline = None if timeout is None or timeout < 0 else s.now + int(timeout * 1e9)
            while self._locked:
                s.block(lambda: not self._locked, deadline, "lock")
                if self._locked and deadline is not None and s.now >= deadline:
                    return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            s = Scheduler.active
            if s is not None and s.aborting:
                return
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = Scheduler.active
        if s is not None and current() is not None and not s.aborting:
            s.yield_point("release")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    """Replaces ``threading.RLock``."""

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _real_ident():
            s = Scheduler.active
            if s is not None and s.aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _real_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


def _sleep(seconds):
    s = Scheduler.active
    if s is not None and current() is not None:
        s.sleep(seconds)
    else:
        _real["sleep"](seconds)


def _clock(name, ns):
    real = _real[name]

    def clock():
        s = Scheduler.active
        if s is not None and current() is not None:
            return s.now if ns else s.now / 1e9
        return real()
    return clock


def _start_new_thread(function, args, kwargs=None):
    s = Scheduler.active
    t = current()
    if s is not None and t is not None:
        thread = getattr(function, "__self__", None)

        def body():
            function(*args, **(kwargs or {}))
        n = s.spawn(body, name=f"w{len(s.threads)}", daemon=True)
        if thread is not None:
            thread._sim_thread = n      # pylint: disable=protected-access
        s.yield_point("start")
        return 0
    return _real_start(function, args, kwargs or {})


def _join(self, timeout=None):
    s = Scheduler.active
    sim = getattr(self, "_sim_thread", None)
    if s is not None and current() is not None and sim is not None:
        deadline = None if timeout is None else s.now + int(max(0.0, timeout) * 1e9)
        s.yield_point("join")
        if not s.block(lambda: sim.state == "done", deadline, f"join {sim.name}"):
            return None
    return _real["join"](self, timeout)


class SimSelector(selectors.DefaultSelector):
    """A selector, that waits in virtual time."""

    def select(self, timeout=None):
        s = Scheduler.active
        if s is None or current() is None:
            return super().select(timeout)
        s.yield_point("select")
        result = super().select(0)
        if result or (timeout is not None and timeout <= 0):
            return result
        deadline = None if timeout is None else s.now + max(1, int(timeout * 1e9))
        poll = super().select
        s.block(lambda: bool(poll(0)), deadline, "select")
        return super().select(0)


def _new_event_loop():
    return asyncio.SelectorEventLoop(SimSelector())


class SimProcessPool(concurrent.futures.Executor):
    """Stands in for ``ProcessPoolExecutor``: the calls are pickled, "sent" to a worker (a simulated thread, that
    works on the unpickled copy) and the results are pickled and "sent" back.  A worker can be killed by a fault."""
    faults = None       # a callable: call number -> None or "kill" / "kill_after"
    stats = collections.Counter()

    def __init__(self, max_workers=None, *args, **kwargs):  # noqa
        self.__pool = concurrent.futures.ThreadPoolExecutor(max_workers=max_workers or 2)
        self.__broken = False
        self.__calls = 0

    def submit(self, fn, /, *args, **kwargs):
        if self.__broken:
            raise concurrent.futures.process.BrokenProcessPool("A child process terminated abruptly, the process pool is not usable anymore")
        n = self.__calls
        self.__calls += 1
        SimProcessPool.stats["calls"] += 1
        return self.__pool.submit(self.__work, n, fn, args, kwargs)

    def __work(self, n, fn, args, kwargs):
        fault = self.faults(n) if self.faults is not None else None
        blob = pickle.dumps((fn, args, kwargs))
        if fault == "kill":
            self.__broken = True
            SimProcessPool.stats["kill"] += 1
            raise concurrent.futures.process.BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending.")
        f, a, k = pickle.loads(blob)
        try:
            result = pickle.dumps(f(*a, **k))
        except Exception as e:      # pylint: disable=broad-except; is sent back as in the original
            raise pickle.loads(pickle.dumps(e)) from None
        if fault == "kill_after":
            self.__broken = True
            SimProcessPool.stats["kill_after"] += 1
            raise concurrent.futures.process.BrokenProcessPool("A process in the process pool was terminated abruptly while the future was running or pending.")
        return pickle.loads(result)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.__pool.shutdown(wait=wait, cancel_futures=cancel_futures)


class OrderedSet(collections.abc.MutableSet):
    """A set, whose order does not depend on hashes or addresses"""

    def __init__(self, items=()):
        self.__items = dict.fromkeys(items)

    def __contains__(self, item):
        return item in self.__items

    def __iter__(self):
        return iter(self.__items)

    def __len__(self):
        return len(self.__items)

    def add(self, item):
        self.__items[item] = None

    def discard(self, item):
        self.__items.pop(item, None)

    def update(self, *others):
        for other in others:
            for item in other:
                self.add(item)

    def copy(self):
        return OrderedSet(self.__items)

    def __repr__(self):
        return f"OrderedSet({list(self.__items)!r})"


class OrderedWeakSet(weakref.WeakSet):
    def __init__(self, data=None):
        super().__init__()
        self.data = OrderedSet()
        if data is not None:
            self.update(data)


class _Weakref:
    """The weakref module for the connectors package"""
    WeakSet = OrderedWeakSet

    def __getattr__(self, name):
        return getattr(weakref, name)


def _order_third_party_sets():
    """The connectors package and the thread pools iterate over sets of objects, that are hashed by their address"""
    import connectors
    shim = _Weakref()
    for name, module in list(sys.modules.items()):
        if name == "connectors" or name.startswith("connectors."):
            module.set = OrderedSet
            if getattr(module, "weakref", None) is weakref:
                module.weakref = shim
    original = concurrent.futures.ThreadPoolExecutor.__init__

    def __init__(self, *args, **kwargs):
        original(self, *args, **kwargs)
        self._threads = OrderedSet()
    concurrent.futures.ThreadPoolExecutor.__init__ = __init__


_installed = False


def install():
    """Installs the seams.  Must be called before importing sumpf."""
    global _installed
    if _installed:
        return
    _installed = True
    if "sumpf" in sys.modules:
        raise HarnessError("the seams must be installed before importing sumpf")
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._start_new_thread = _start_new_thread
    threading.Thread.join = _join
    time.sleep = _sleep
    for name in ("time", "monotonic", "perf_counter"):
        setattr(time, name, _clock(name, False))
        setattr(time, name + "_ns", _clock(name + "_ns", True))
    threading._time = time.monotonic
    queue.time = time.monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    concurrent.futures.ProcessPoolExecutor = SimProcessPool
    concurrent.futures.process.ProcessPoolExecutor = SimProcessPool
    concurrent.futures.thread._global_shutdown_lock = SimLock()
    asyncio.new_event_loop = _new_event_loop
    _order_third_party_sets()
    # the finalizers of shared memory depend on the garbage of former runs, so they must not yield
    import multiprocessing.heap

    class RealThreading:
        Lock = staticmethod(_real_allocate)

        def __getattr__(self, name):
            return getattr(threading, name)
    multiprocessing.heap.threading = RealThreading()
    multiprocessing.heap.BufferWrapper._heap._lock = _real_allocate()
