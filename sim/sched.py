"""Baton scheduler: real threads, one running at a time, and the simulator decides which.

Every line (or every bytecode) executed in a repository module is a scheduling point.  At each point the scheduler may
hand the baton to another thread or raise an exception in the running one.  All choices come from a chooser (seeded or
replayed); the choices made are recorded as a list that replays the run exactly.
"""
import sys
import threading
import _thread
import zlib
import os

_PREFIX = os.path.realpath(os.environ.get("OPTICS3D_REPO", "/repo")) + os.sep

_alloc = _thread.allocate_lock
_Thread = threading.Thread


class SimLimit(BaseException):
    """The step budget of a run is exhausted: the code under test does not terminate."""


class SimDeadlock(BaseException):
    """Every thread of the run waits for a lock."""


class HarnessError(Exception):
    """The simulator itself cannot go on (never a verdict about the code under test)."""


class RandomChooser:
    def __init__(self, rng, p):
        self.rng, self.p = rng, p

    def point(self, n, tid, runnable):
        if len(runnable) > 1 and self.rng.random() < self.p:
            return runnable[self.rng.randrange(len(runnable))]
        return tid

    def forced(self, n, runnable):
        return runnable[self.rng.randrange(len(runnable))]


class PctChooser:
    """Few preemptions at random places; otherwise a thread runs on."""

    def __init__(self, rng, length, k):
        self.rng = rng
        self.at = set(rng.randrange(1, max(2, length)) for _ in range(k))

    def point(self, n, tid, runnable):
        if n in self.at and len(runnable) > 1:
            o = [t for t in runnable if t != tid]
            return o[self.rng.randrange(len(o))]
        return tid

    def forced(self, n, runnable):
        return runnable[self.rng.randrange(len(runnable))]


class RoundRobin:
    def __init__(self, every):
        self.every = every

    def point(self, n, tid, runnable):
        if n % self.every == 0:
            later = [t for t in runnable if t > tid]
            return later[0] if later else runnable[0]
        return tid

    def forced(self, n, runnable):
        return runnable[0]


class BurstChooser:
    """Long runs of one thread mixed with bursts in which it changes at almost every point."""

    def __init__(self, rng):
        self.rng, self.left, self.burst = rng, rng.randrange(1, 400), False

    def point(self, n, tid, runnable):
        self.left -= 1
        if self.left <= 0:
            self.burst = not self.burst
            self.left = self.rng.randrange(2, 60) if self.burst else self.rng.randrange(1, 600)
        if self.burst and len(runnable) > 1:
            return runnable[self.rng.randrange(len(runnable))]
        return tid

    def forced(self, n, runnable):
        return runnable[self.rng.randrange(len(runnable))]


class ReplayChooser:
    def __init__(self, switches, forced):
        self.sw = {int(n): int(t) for n, t in switches}
        self.fo = [int(t) for t in forced]

    def point(self, n, tid, runnable):
        t = self.sw.get(n, tid)
        return t if t in runnable else tid

    def forced(self, n, runnable):
        if self.fo:
            t = self.fo.pop(0)
            if t in runnable:
                return t
        return runnable[0]


def make_chooser(spec, rng_factory):
    k = spec["k"]
    if k == "replay":
        return ReplayChooser(spec["sw"], spec["fo"])
    if k == "rr":
        return RoundRobin(spec["every"])
    rng = rng_factory(spec["seed"])
    if k == "rand":
        return RandomChooser(rng, spec["p"])
    if k == "pct":
        return PctChooser(rng, spec["len"], spec["n"])
    if k == "burst":
        return BurstChooser(rng)
    raise HarnessError("chooser " + str(k))


_GENERATOR = 0x20 | 0x80 | 0x200       # generator, coroutine, asynchronous generator
_current = None  # the Sim now running in this process


class _Task:
    __slots__ = ("tid", "fn", "lock", "local", "done", "blocked", "result", "thread", "faults", "fired", "tracing")

    def __init__(self, tid, fn, faults):
        self.tid, self.fn = tid, fn
        self.lock = _alloc()
        self.lock.acquire()
        self.local, self.done, self.blocked, self.result = 0, False, None, None
        self.faults = dict(faults or {})
        self.fired = []
        self.tracing = False


class Sim:
    def __init__(self, fns, chooser, gran="line", faults=None, max_events=4_000_000, observe=None, stall_s=120.0):
        faults = faults or {}
        self.tasks = [_Task(i, f, faults.get(i)) for i, f in enumerate(fns)]
        self.chooser, self.opcodes = chooser, gran == "op"
        self.max_events, self.observe, self.stall_s = max_events, observe, stall_s
        self.n = 0
        self.switches, self.forced = [], []
        self.nswitch = 0
        self.shape = 0          # running hash of (thread, function) at every switch: identifies the interleaving
        self.limit = False
        self.deadlock = False
        self.main = _alloc()
        self.main.acquire()
        self.by_ident = {}
        self.functions = {}
        self.dropped = set()

    # -- scheduling ---------------------------------------------------------------------------------------------
    def _runnable(self):
        return [t.tid for t in self.tasks if not t.done and (t.blocked is None or t.blocked.free_for(t.tid))]

    def _switch(self, task, to):
        nxt = self.tasks[to]
        nxt.lock.release()
        task.lock.acquire()

    def point(self, task, frame):
        if task.result is not None:
            return
        self.n += 1
        task.local += 1
        n = self.n
        if n > self.max_events:
            self.limit = True
        if self.limit or self.deadlock:
            self._untrace(frame)
            raise SimLimit()
        if self.observe is not None:
            self.observe(task.tid, task.local)
        if task.faults:
            f = task.faults.pop(task.local, None)
            if f is not None:
                e = f()
                task.fired.append((task.local, e, frame.f_code.co_name))
                self._untrace(frame)
                raise e
        if len(self.tasks) > 1:
            r = self._runnable()
            to = self.chooser.point(n, task.tid, r)
            if to != task.tid:
                self.switches.append((n, to))
                self._note(task.tid, to, frame.f_code.co_name)
                self._switch(task, to)

    def _untrace(self, frame):
        # An exception out of a trace function ends tracing in its thread.  CPython 3.12 goes on delivering opcode events
        # to frames that asked for them while another thread is traced, and crashes: so no frame may still ask (the frames
        # of suspended generators, which are out of reach here, never ask).
        self.dropped.add(_thread.get_ident())
        while frame is not None:
            if frame.f_trace is not None:
                frame.f_trace_opcodes = False
            frame = frame.f_back

    def rearm(self, frame):
        """Trace the running thread again (called from a monitoring callback after an exception was injected)."""
        me = _thread.get_ident()
        self.dropped.discard(me)
        task = self.by_ident.get(me)
        if task is None or task.result is not None or self.limit or self.deadlock:
            return
        glob = self._tracer(task)
        sys.settrace(glob)
        while frame is not None:
            if frame.f_code.co_filename.startswith(_PREFIX):
                frame.f_trace = glob.local
                if self.opcodes and not frame.f_code.co_flags & _GENERATOR:
                    frame.f_trace_opcodes = True
            frame = frame.f_back

    def _note(self, a, b, name):
        self.nswitch += 1
        self.functions[name] = self.functions.get(name, 0) + 1
        self.shape = zlib.crc32(("%d>%d@%s" % (a, b, name)).encode(), self.shape)

    def block_on(self, lock):
        """The running thread waits for a simulated lock."""
        task = self.by_ident[_thread.get_ident()]
        task.blocked = lock
        r = self._runnable()
        if not r:
            self.deadlock = True
            task.blocked = None
            raise SimDeadlock()
        to = self.chooser.forced(self.n, r)
        self.forced.append(to)
        if to != task.tid:
            self._note(task.tid, to, "lock")
            self._switch(task, to)
        task.blocked = None
        if self.deadlock:
            raise SimDeadlock()

    # -- tracing ------------------------------------------------------------------------------------------------
    def _tracer(self, task):
        opc = self.opcodes
        point = self.point

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                point(task, frame)
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(_PREFIX):
                if opc and not frame.f_code.co_flags & _GENERATOR:      # generators: line by line
                    frame.f_trace_opcodes = True
                point(task, frame)
                return local
            return None
        glob.local = local
        return glob

    def _body(self, task):
        task.lock.acquire()
        self.by_ident[_thread.get_ident()] = task
        try:
            sys.settrace(self._tracer(task))
            try:
                v = task.fn()
            finally:
                sys.settrace(None)
            task.result = ("ok", v)
        except BaseException as e:   # noqa: everything is the result of the task
            task.result = ("exc", e)
        sys.settrace(None)
        self.dropped.discard(_thread.get_ident())
        task.done = True
        r = self._runnable()
        if not r:
            left = [t for t in self.tasks if not t.done]
            if left:
                self.deadlock = True
                for t in left:
                    t.blocked = None
                left[0].lock.release()
            else:
                self.main.release()
            return
        to = self.chooser.forced(self.n, r)
        self.forced.append(to)
        self.shape = zlib.crc32(("%d.%d" % (task.tid, to)).encode(), self.shape)
        self.tasks[to].lock.release()

    def run(self):
        global _current
        if _current is not None:
            raise HarnessError("nested simulation")
        _current = self
        try:
            for t in self.tasks:
                t.thread = _Thread(target=self._body, args=(t,), daemon=True)
                t.thread.start()
            r = self._runnable()
            to = self.chooser.forced(0, r)
            self.forced.append(to)
            self.tasks[to].lock.release()
            last = -1
            while not self.main.acquire(timeout=self.stall_s):
                if self.n == last:
                    raise HarnessError("a simulated thread is stuck outside the simulator")
                last = self.n
            for t in self.tasks:
                t.thread.join(10)
        finally:
            _current = None
        return self

    def recorded(self):
        return {"k": "replay", "sw": [list(x) for x in self.switches], "fo": list(self.forced)}


class SimLock:
    """Stands in for threading.Lock / RLock in the code under test: blocking hands over the baton."""
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def free_for(self, tid):
        return self.owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            if _current is None or me not in _current.by_ident:
                raise SimDeadlock("a lock is left held by a trace that has ended")
            if timeout is not None and timeout >= 0:
                return False   # simulated time passes at once
            _current.block_on(self)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.owner == _thread.get_ident()


def threading_proxy():
    """What a repository module gets for `import threading`: the real module with simulated locks."""
    import types
    m = types.ModuleType("threading")
    m.__dict__.update({k: v for k, v in threading.__dict__.items() if k not in ("__spec__", "__loader__")})
    m.Lock, m.RLock = SimLock, SimRLock
    return m


def trace_single(fn, faults=None, gran="line", max_events=4_000_000, observe=None):
    """Run fn in the calling thread under tracing, with exception injection but no other thread."""
    sim = Sim([fn], RoundRobin(1 << 60), gran, {0: faults} if faults else None, max_events, observe)
    task = sim.tasks[0]
    old = sys.gettrace()
    try:
        sys.settrace(sim._tracer(task))
        try:
            v = fn()
        finally:
            sys.settrace(None)
        res = ("ok", v)
    except BaseException as e:  # noqa
        res = ("exc", e)
    finally:
        sys.settrace(old)
    task.result = res
    return sim


def _prime():
    # CPython 3.12 delivers opcode events only to traces started after some frame has asked for them
    sys._getframe().f_trace_opcodes = True


_prime()
