"""C07: the trajectory log is passive and faithful, also when the output fails."""
import _thread
import math
import re

from .. import engine, scenes
from .. import world as W
from ..compare import close, match_records, fmt
from ..vec import finite
from . import _ops, _threads as T

ID = "C07"
LEVEL = "exploration"
COUNT = {"quick": 9000, "thorough": 150000}
EXCS = {"ENOSPC": lambda: OSError(28, "No space left on device"), "EIO": lambda: OSError(5, "Input/output error"),
        "EPIPE": lambda: BrokenPipeError(32, "Broken pipe"), "closed": lambda: ValueError("I/O operation on closed file."),
        "interrupt": KeyboardInterrupt, "memory": MemoryError}
RULE = ("a run is a seeded scene whose rays are traced with their log on or off (switched between runs), in a seeded "
        "history with pieces, checkpoints, drawings, aborted runs and other rays, or on 1-5 simulated threads; the output is "
        "a simulated stream that may fail at a seeded write, after taking a seeded part of the text, once or for good, or be "
        "absent; what reached it is parsed and held against the recorded path, against the same history with a healthy "
        "output, and paths and records against silent traces alone; non-trivial when a logged ray met at least one surface; "
        "distinct by scene, operations or switches, and place of the failure")
MEASURE = "operations or (thread, function) at switches, with the failing write"
REAL = engine.REAL_TRACE + ["print"]
STUB = ["stdout (simulated stream)", "thread scheduler", "matplotlib axes in drawings",
        "clock, random generators, object addresses"]
ASSUMES = ["numbers are printed with five significant digits", "one write of the stream is atomic with respect to other threads",
           "an aborted ray is not run again"]
_NUM = r"([^\s,()]+)"
LINE = re.compile(r"Ray \(%s, %s, %s\)" % (_NUM, _NUM, _NUM))


def lists(case):
    return (_ops.lists(case) if "ops" in case else T.lists(case))


def simplify(case):
    import copy
    yield from (_ops.simplify(case) if "ops" in case else T.simplify(case))
    if case.get("out") and case["out"].get("at", 1) > 1:
        c = copy.deepcopy(case)
        c["out"]["at"] -= 1
        yield c


def gen(rng, tier):
    sc = scenes.gen_scene(rng)
    S = sc["S"]
    for r in sc["rays"]:
        r["log"] = rng.random() < 0.7
        if rng.random() < 0.15:         # awkward magnitudes in the log
            r["p"] = [rng.choice([0.0, -0.0, 1e-7, 123456.0, 99999.5, 0.099999, 1e-12, 9.99995, -1e5, x]) if rng.random() < 0.6 else x
                      for x in r["p"]]
            r.pop("pa", None)
    sc["rays"][0]["log"] = True
    case = {"scene": sc, "out": None}
    x = rng.random()
    if x < 0.55:
        case["out"] = {"at": int(2 ** rng.uniform(0, rng.choice([3, 6, 8]))), "times": rng.choice([1, 1, 2, 10 ** 6]),
                       "part": rng.choice([0.0, 0.0, 0.5, rng.random(), 1.0]), "exc": rng.choice(sorted(EXCS))}
    elif x < 0.6:
        case["out"] = {"absent": True}
    if rng.random() < 0.35:
        case["rounds"] = T.gen_rounds(rng, sc)
        return case
    rids = [r["id"] for r in sc["rays"]]
    ops = []
    long_ = sc["style"] in ("cavity", "balls", "planar", "lattice")
    for _ in range(rng.randint(1, 9)):
        rid = rng.choice(rids)
        if rng.random() < 0.15:
            ops.append(["log", rid, rng.random() < 0.6])
        for k, p in (("ckpt", .08), ("passive", .12), ("probes", .08), ("stray", .05), ("abort", .06)):
            if rng.random() < p:
                ops.append(_ops.noise(rng, sc, k))
                if k == "abort" and long_ and ops[-1][3] is None:
                    ops[-1][3] = 30
        ops.append(["leg", rid, engine.gen_D(rng, S), rng.choice([None, 1, 2, 3, 10, 30])])
        if ops[-1][3] is None and long_:
            ops[-1][3] = 40
    case["ops"] = ops
    return case


class Out(W.NullOut):
    """The simulated output stream; keeps apart what each thread wrote."""

    def __init__(self, spec):
        super().__init__()
        spec = spec or {}
        self.at, self.times, self.part = spec.get("at"), spec.get("times", 0), spec.get("part", 0.0)
        self.exc = EXCS[spec["exc"]] if "exc" in spec else None
        self.raised = []
        self.by = {}
        self.n = 0

    def keep(self, s):
        self.parts.append(s)
        self.by.setdefault(_thread.get_ident(), []).append(s)

    def write(self, s):
        self.n += 1
        if self.at is not None and self.n >= self.at and self.times > 0:
            self.times -= 1
            self.keep(s[:int(len(s) * self.part)])
            e = self.exc()
            self.raised.append((e, _thread.get_ident()))
            raise e
        self.keep(s)
        return len(s)

    def mine(self):
        return "".join(self.by.get(_thread.get_ident(), ()))


def seq_eq(a, b):
    return tuple(a) == tuple(b)


def parse(text):
    out = []
    for line in text.split("\n")[:-1]:      # a line counts once it is complete
        m = LINE.search(line)
        if m:
            try:
                out.append(tuple(float(x) for x in m.groups()))
            except ValueError:
                out.append(line)
    return out


def num_ok(a, x):
    if not math.isfinite(x):
        return not math.isfinite(a)
    return abs(a - x) <= 6e-5 * abs(x) + 1e-300


def listed(points, want, at_least, optional=()):
    """Does the log list these points in order, each at least once in a row (a ray that turns is listed again), and at
    least so many of them?  optional: one more point that may follow.  -> None or text"""
    w = list(want) + list(optional)
    S = {-1}
    for i, a in enumerate(points):
        if isinstance(a, str):
            return "line %r cannot be read" % a
        T_ = set()
        for j in S:
            for k in (j, j + 1):
                if 0 <= k < len(w) and all(num_ok(x, y) for x, y in zip(a, w[k])):
                    T_.add(k)
        if not T_:
            return "entry %d is %s after %d of %d points reached (%s)" % (
                i, fmt(a), max(S) + 1, len(want), ", ".join(fmt(x) for x in w[max(0, min(S)):max(S) + 2]))
        S = T_
    if max(S) + 1 < at_least:
        return "%d of %d points listed" % (max(S) + 1, len(want))
    return None


def run(case, st):
    st.c["style:" + case["scene"]["style"]] += 1
    if "ops" in case:
        return run_history(case, st)
    return run_threads(case, st)


def history(case, st, spec):
    """-> (list of (op index, rid, text written, before, after, exception), world, legs, error)"""
    import sys
    sc = case["scene"]
    out = Out(spec)
    absent = bool(spec and spec.get("absent"))
    events, legs = [], {}
    err = None
    st2 = type(st)()
    st2.begin()
    with W.quiet(out), W.bounded():
        w = W.World(W.Universe(), sc, rays=[])
        if absent:
            sys.stdout = None
        dead = {}
        for r in sc["rays"]:
            n0 = len(out.text())
            try:
                w.rays[r["id"]] = w.make_ray(r, r.get("log", False))
                e = None
            except BaseException as x:
                if not any(x is y for y, _ in out.raised):
                    raise
                e = x
                dead[r["id"]] = x
            events.append((-1, r["id"], out.text()[n0:], None, None if e else W.snap(w.rays[r["id"]]), e, len(out.text())))
        for k, op in enumerate(case["ops"]):
            rid = op[1] if op[0] in ("leg", "abort", "log") else None
            if rid is not None and (rid in dead or rid not in w.rays):
                continue
            if op[0] == "log":
                w.rays[rid].print_trajectory = op[2]
                continue
            n0 = len(out.text())
            nr = len(out.raised)
            before = W.snap(w.rays[rid]) if rid else None
            e = None
            try:
                _, h = engine.run_ops(sc, [op], st2, w=w)
                if absent:
                    sys.stdout = None
            except BaseException as x:
                if not any(x is y for y, _ in out.raised):
                    raise
                e, h = x, engine.History()
            for g in h.legs:
                if g.exc is not None:
                    e = g.exc
            for a in h.aborts:
                dead[rid] = a["fired"][0][1]
            if rid:
                legs.setdefault(rid, []).append((op[2], op[3]))
                for x, _ in out.raised[nr:]:
                    if not h.aborts and e is not x:
                        err = err or ("swallowed", "the output failed (%r) while %s ran; the caller got %r" % (x, rid, e))
                if e is not None and not any(e is x for x, _ in out.raised[nr:]):
                    err = err or ("hang" if isinstance(e, W.SimLimit) else "raise", "%s raised %r" % (rid, e))
                if e is not None:
                    dead[rid] = e
            if rid and not h.aborts:
                events.append((k, rid, out.text()[n0:], before, W.snap(w.rays[rid]), e, len(out.text())))
            elif rid:
                events.append((k, rid, out.text()[n0:], before, W.snap(w.rays[rid]), "abort", len(out.text())))
            if err:
                break
        hits = {d: W.hits(w.optics[d]) for d in W.detectors(sc) if d in w.optics}
        snaps = {r: W.snap(w.rays[r]) for r in w.rays}
    st.steps += st2.steps
    st.travel += st2.travel
    st.faults.update(st2.faults)
    return events, legs, dead, hits, snaps, out, err


def run_history(case, st):
    sc, S = case["scene"], case["scene"]["S"]
    spec = case["out"]
    events, legs, dead, hits, snaps, out, err = history(case, st, spec)
    if err:
        return err
    logging = {r["id"]: bool(r.get("log")) for r in sc["rays"]}
    toggles = [(k, op[1], op[2]) for k, op in enumerate(case["ops"]) if op[0] == "log"]
    absent = bool(spec and spec.get("absent"))
    entries = 0
    for k, rid, text, before, after, e, _ in events:
        on = logging[rid]
        for kk, r, v in toggles:
            if kk < k and r == rid:
                on = v
        pts = parse(text)
        if absent:
            continue
        if after is None:
            want = [tuple(next(r["p"] for r in sc["rays"] if r["id"] == rid))]
        else:
            want = after["path"][len(before["path"]):] if before else after["path"][:1]
        if not on:
            if pts and k < 0:
                pass
            continue
        entries += len(pts)
        # after a failure or an abort all but the last point are there; an abort may also come before the path has the point
        extra = []
        if e == "abort" and after is not None and not seq_eq(after["pos"], after["path"][-1]):
            extra = [after["pos"]]
        bad = listed(pts, want, len(want) - (e is not None), extra)
        if bad:
            return ("log", "%s, operation %d%s: %s" % (rid, k, "" if e is None else " (failed)", bad))
    failed = bool(out.raised)
    if failed:
        st.faults["output:" + spec["exc"]] += len(out.raised)
        if spec["part"] > 0:
            st.faults["partial write"] += 1
        _, _, _, _, _, healthy, err = history_quiet(case, st)
        if err is None:
            n = next(ev[6] for ev in events if ev[5] is not None and ev[5] != "abort")
            if not healthy.text().startswith(out.text()[:n]):
                return ("log", "what was logged before the failure is not a beginning of the undisturbed log")
    # passive: silent traces alone
    und = False
    want, optional = {d: [] for d in hits}, {d: [] for d in hits}
    for rid in sorted(legs):
        sc0 = dict(sc, rays=[dict(r, log=False) for r in sc["rays"]])
        solo = W.solo(sc0, rid, None, legs=legs[rid])
        for d, rows in solo["hits"].items():
            (optional if rid in dead else want)[d] += rows
        r = close(snaps[rid], solo, lambda nudge: W.solo(sc0, rid, None, legs=legs[rid], nudge=nudge), S, prefix=rid in dead)
        st.c["paths compared with silent ones"] += 1
        st.note(snaps[rid]["path"])
        if not r.decided:
            und = True
        if not r.ok:
            return ("changed", "%s: %s" % (rid, r.what))
    st.c["log entries checked"] += entries
    sig = (sc["style"], tuple(sorted(o["k"] for o in sc["optics"])), tuple(op[0] for op in case["ops"]),
           tuple(len(s["path"]) for s in snaps.values()), out.n if failed else 0)
    st.shapes.add(hash(sig))
    if entries > len(sc["rays"]) + 1 and any(len(s["path"]) > 2 for s in snaps.values()):
        st.nontrivial.add(hash(sig))
        if len(st.samples) < 2:
            st.samples.append("%s: %s; output %s; %d entries" % (sc["style"], " ".join(op[0] for op in case["ops"]), spec, entries))
    if not und and not any(op[0] == "stray" for op in case["ops"]):
        for d in hits:
            missing, surplus = match_records(hits[d], want[d], S, optional[d])
            if missing or surplus:
                return ("records", "detector %s: missing %s, surplus %s" % (d, missing[:2], surplus[:2]))
    return None


def history_quiet(case, st):
    s = type(st)()
    s.begin()
    return history(case, s, None)


def run_threads(case, st):
    import sys
    sc, S = case["scene"], case["scene"]["S"]
    spec = case["out"]
    absent = bool(spec and spec.get("absent"))
    out = Out(spec)
    shape = [0]
    events = []
    rlog = {r["id"]: bool(r.get("log")) for r in sc["rays"]}
    texts = {}

    def wrap(fn, ri, ti):
        def f():
            if absent:
                sys.stdout = None
            try:
                return fn()
            finally:
                texts[ri, ti] = out.mine()
                out.by.pop(_thread.get_ident(), None)
        return f

    def after(ri, rd, sim, w, done):
        if absent:
            sys.stdout = out
        shape[0] = hash((shape[0], sim.shape))
        got = [t.result[1] for t in sim.tasks if t.result[0] == "exc"]
        for e, _ in out.raised:
            if not any(e is x for x in got) and not getattr(e, "seen", False):
                return ("swallowed", "the output failed (%r); no caller got the error" % (e,))
            e.seen = True
        for x in got:
            if not any(x is e for e, _ in out.raised) and not (sim.limit or sim.deadlock):
                return ("raise", "a trace raised %r" % (x,))
        out.raised_before = len(out.raised)
    with W.quiet(out), W.bounded():
        w, done, err = T.play(case, st, after_round=after, log=lambda rid: rlog[rid], events=events, wrap=wrap,
                              faults_of=(lambda ri, rd: {99: {}}))
        snaps = {id(t): W.snap(t.ray) for t in done if t.ray is not None}
        hits = {d: W.hits(w.optics[d]) for d in W.detectors(sc)}
    if err:
        return err
    if out.raised:
        st.faults["output:" + spec["exc"]] += len(out.raised)
    entries = 0
    if not absent:
        for (ri, ti), text in sorted(texts.items()):
            pts = parse(text)
            want = []
            partial = False
            for (r2, t2, kind, t, n0, n1) in events:
                if (r2, t2) != (ri, ti) or not rlog[t.rid]:
                    continue
                if kind == "make":
                    want.append(tuple(next(r["p"] for r in sc["rays"] if r["id"] == t.rid)))
                    partial = t.ray is None or t.aborted == "making"
                else:
                    s = snaps[id(t)]["path"]
                    want += s[n0:n1] if n1 is not None else s[n0:]
                    partial = n1 is None
            bad = listed(pts, want, len(want) - (1 if partial else 0))
            if bad:
                return ("log", "thread %d of round %d: %s" % (ti, ri, bad))
            entries += len(pts)
    und = False
    sc0 = dict(sc, rays=[dict(r, log=False) for r in sc["rays"]])
    want, optional = {d: [] for d in hits}, {d: [] for d in hits}
    for t in done:
        if t.ray is None or not t.legs or t.aborted == "making":
            continue
        solo = W.solo(sc0, t.rid, None, legs=t.legs)
        before = W.solo(sc0, t.rid, None, legs=t.legs[:t.inherited])["hits"] if t.inherited else {}
        for d, rows in solo["hits"].items():
            (want if t.aborted is None else optional)[d] += rows[len(before.get(d, ())):]
        r = close(snaps[id(t)], solo, lambda nudge: W.solo(sc0, t.rid, None, legs=t.legs, nudge=nudge), S,
                  prefix=t.aborted is not None)
        st.c["paths compared with silent ones"] += 1
        if not r.decided:
            und = True
        if not r.ok:
            return ("changed", "%s: %s" % (t.rid, r.what))
    st.c["log entries checked"] += entries
    k = hash((T.shape(case, shape[0]), out.n if out.raised else 0))
    st.shapes.add(k)
    if entries > 2:
        st.nontrivial.add(k)
    if not und:
        for d in hits:
            missing, surplus = match_records(hits[d], want[d], S, optional[d])
            if missing or surplus:
                return ("records", "detector %s: missing %s, surplus %s" % (d, missing[:2], surplus[:2]))
    return None
