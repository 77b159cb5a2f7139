"""Seams for process-level nondeterminism: object addresses (id) and clocks.

id(): real addresses differ from process to process, and whether a dead object's address is reused is up to the
allocator.  Code that keys something by id() would behave differently on every run, and no replay would hold.  Inside
the code under test id() therefore returns numbers chosen here: a live object keeps its number, a dead object's number is
handed out again at once (the most hostile thing the allocator may legally do).
"""
import builtins
import random
import time
import weakref
import _thread

_real_id = builtins.id
_live = {}       # real id -> (sim id, weakref or object)
_free = []
_next = [1000]


def reset():
    _live.clear()
    del _free[:]
    _next[0] = 1000


def _new():
    if _free:
        return _free.pop()
    _next[0] += 16
    return _next[0]


def sim_id(obj):
    r = _real_id(obj)
    e = _live.get(r)
    if e is not None:
        o = e[1]()
        if o is obj:
            return e[0]
    n = _new()
    try:
        def gone(_, r=r, n=n):
            cur = _live.get(r)
            if cur is not None and cur[0] == n:
                del _live[r]
                _free.append(n)
        w = weakref.ref(obj, gone)
    except TypeError:
        w = (lambda obj=obj: obj)        # kept alive: its number is never reused
    _live[r] = (n, w)
    return n


class SimClock:
    """Every clock the code could read; each reading moves it, now and then by a jump (also backwards for time())."""

    def __init__(self, seed=0):
        self.rng = random.Random(seed)
        self.mono, self.wall, self.reads = 1000.0, 1.6e9, 0

    def step(self):
        self.reads += 1
        x = self.rng.random()
        dt = 1e-6 if x < 0.9 else self.rng.choice([0.0, 1e-3, 1.0, 3600.0, 86400.0])
        self.mono += dt
        self.wall += dt if x < 0.97 else self.rng.choice([-7200.0, -1.0, 86400.0 * 365])
        return self

    def install(self):
        self.saved = {k: getattr(time, k) for k in
                      ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns",
                       "perf_counter_ns", "sleep")}
        time.time = lambda: self.step().wall
        time.monotonic = time.perf_counter = time.process_time = lambda: self.step().mono
        time.time_ns = lambda: int(self.step().wall * 1e9)
        time.monotonic_ns = time.perf_counter_ns = lambda: int(self.step().mono * 1e9)

        def sleep(s):
            self.mono += s
            self.wall += s
        time.sleep = sleep

    def remove(self):
        for k, v in self.saved.items():
            setattr(time, k, v)
