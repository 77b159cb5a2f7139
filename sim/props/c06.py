"""C06: an aborted trace is contained and leaves everything else as it was."""
from .. import engine, scenes
from .. import world as W
from ..compare import close, match_records, fmt
from ..vec import dist
from . import _ops, _threads as T

ID = "C06"
LEVEL = "exploration"
COUNT = {"quick": 8000, "thorough": 150000}
ASYNC = ["KeyboardInterrupt", "MemoryError", "OSError", "RuntimeError", "SystemExit"]
USER = ["RuntimeError", "ValueError", "IndexError", "ZeroDivisionError", "TypeError", "StopIteration", "KeyError",
        "FloatingPointError", "AttributeError", "LinAlgError", "MemoryError", "KeyboardInterrupt", "GeneratorExit", "OSError"]
RULE = ("a run is a seeded scene in which some traces are aborted: by an exception raised at a seeded line of the code "
        "under test, by a user-written optic that raises at a seeded call, or by an output that fails at a seeded write "
        "of the trajectory log; alone in a seeded history (pieces, checkpoints, drawings, probes, other rays before and "
        "after), or on one of 1-5 simulated threads while the others go on tracing; the exception must come out of the "
        "call, the aborted path must be a beginning of that of the ray traced alone, all other rays and detectors "
        "must equal those traced alone; non-trivial when an abort fired inside a trace and another trace ran during or "
        "after it; distinct by scene, place of the abort and operations or switches")
MEASURE = "(exception, function it was raised in) with the operations or the (thread, function) at switches"
REAL = engine.REAL_TRACE + ["threading (real threads, run one at a time)", "pickle, copy (checkpoints)"]
STUB = ["thread scheduler", "the user-written optics that fail", "stdout", "matplotlib axes in drawings",
        "clock, random generators, object addresses"]
ASSUMES = ["exceptions arise at line boundaries of repository code, in user optics and in the output stream",
           "an aborted ray is not run again"]


def lists(case):
    return (_ops.lists(case) if "ops" in case else T.lists(case)) + ([["bombs"]] if case.get("bombs") else [])


def simplify(case):
    return (_ops.simplify(case) if "ops" in case else T.simplify(case))


def gen(rng, tier):
    sc = scenes.gen_scene(rng, nray=rng.choice([2, 2, 3, 4, 6]))
    S = sc["S"]
    case = {"scene": sc}
    if rng.random() < 0.35:         # user optics that fail
        n = len(sc["optics"])
        case["bombs"] = []
        for i in range(rng.choice([1, 1, 2])):
            r = rng.choice(sc["rays"])
            oid = "u%d" % (n + i)
            from ..vec import unit, along
            d = unit(r["d"])
            t = S * rng.uniform(0.1, 2)
            sc["optics"].append({"id": oid, "k": "ub", "c": list(along(r["p"], d, t)),
                                 "n": list(unit([x + rng.uniform(-.5, .5) for x in d])), "D": S * rng.uniform(.05, 1.5)})
            case["bombs"].append([oid, rng.choice(["test", "test", "do"]), int(2 ** rng.uniform(0, 6)), rng.choice(USER)])
        rng.shuffle(sc["optics"])
    if rng.random() < 0.25:         # printing rays whose output fails
        for r in sc["rays"]:
            if rng.random() < 0.6:
                r["log"] = True
        case["out"] = [int(2 ** rng.uniform(0, 6)), rng.choice([1, 1, 3])]
    if rng.random() < 0.62:
        case["rounds"] = T.gen_rounds(rng, sc)
        # one more round afterwards, undisturbed
        case["rounds"].append({"threads": [[[r["id"], S * rng.uniform(1, 6), 15, rng.choice(["new", "keep"])]
                                            for r in sc["rays"]]],
                               "sched": {"k": "rr", "every": 1000000}, "gran": "line"})
        if not case.get("bombs") and not case.get("out") or rng.random() < 0.5:
            for rd in case["rounds"][:-1]:
                rd["faults"] = [[rng.randrange(len(rd["threads"])), int(2 ** rng.uniform(0, 11)), rng.choice(ASYNC)]
                                for _ in range(rng.choice([1, 1, 2]))]
        return case
    rids = [r["id"] for r in sc["rays"]]
    ops = []
    for _ in range(rng.randint(3, 12)):
        x = rng.random()
        if x < 0.4 or not ops:
            ops.append(engine.abort_op(rng, sc, rng.choice(rids), S * rng.uniform(1, 6)))
            ops[-1][5] = rng.choice(ASYNC)
            if sc["style"] in ("cavity", "balls", "planar", "lattice") and ops[-1][3] is None:
                ops[-1][3] = 30
        elif x < 0.85:
            ops.append(["leg", rng.choice(rids), engine.gen_D(rng, S), rng.choice([1, 2, 5, 30])])
        else:
            ops.append(_ops.noise(rng, sc, rng.choice(["ckpt", "passive", "probes"])))
            if ops[-1][0] == "ckpt" and ops[-1][1] in ("fork", "fork-pickle", "overtaken"):
                ops[-1][1] = "deepcopy"     # a fork would set off the failing user optics elsewhere
    for r in rids:
        ops.append(["leg", r, S * rng.uniform(2, 6), 30])
    case["ops"] = ops
    return case


class Bomb:
    """Makes one user optic raise at its n-th call."""

    def __init__(self, kind, n, exc):
        self.kind, self.n, self.exc, self.left, self.raised = kind, n, exc, n, None

    def hit(self, kind):
        if kind == self.kind and self.left > 0:
            self.left -= 1
            if self.left == 0:
                self.raised = engine.EXC[self.exc]()
                raise self.raised

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_gone, ())


def _gone():
    return None


class BadOut(W.NullOut):
    """Output that fails at the n-th write, and again k-1 times."""

    def __init__(self, n, k):
        super().__init__()
        self.n, self.k, self.raised, self.armed = n, k, [], True

    def write(self, s):
        if not self.armed:
            return super().write(s)
        self.n -= 1
        if self.n <= 0 and self.k > 0:
            self.k -= 1
            e = OSError(28, "No space left on device")
            self.raised.append(e)
            raise e
        return super().write(s)


def arm(w, case):
    out = []
    for oid, kind, n, exc in case.get("bombs") or ():
        if oid in w.optics:
            b = Bomb(kind, n, exc)
            w.optics[oid].bomb = b
            out.append(b)
    return out


def run(case, st):
    sc = case["scene"]
    st.c["style:" + sc["style"]] += 1
    out = BadOut(*case["out"]) if case.get("out") else None
    if "ops" in case:
        return run_history(case, st, sc, out)
    return run_threads(case, st, sc, out)


def injected(e, bombs, out, fired):
    """Is e one of the injected exceptions (or carries one)?"""
    mine = [b.raised for b in bombs if b.raised is not None] + (out.raised if out else []) + [f[1] for f in fired]
    return any(e is m for m in mine)


def check_prefix(sc, rid, legs, snap_, S, st, label):
    solo = W.solo(sc, rid, None, legs=legs)
    r = close(snap_, solo, lambda nudge: W.solo(sc, rid, None, legs=legs, nudge=nudge), S, prefix=True)
    if not r.ok:
        return ("path", "aborted %s%s: %s; undisturbed %d points" % (rid, label, r.what, len(solo["path"])))
    if not r.decided:
        st.c["comparison undecided"] += 1
        return None
    # the ray stands where its path ends, or has already moved on to the next point of its undisturbed path
    n = len(snap_["path"])
    nxt = solo["path"][n] if n < len(solo["path"]) else None
    if dist(snap_["pos"], snap_["path"][-1]) > 1e-6 * S and (nxt is None or dist(snap_["pos"], nxt) > 1e-4 * S):
        return ("place", "aborted %s%s stands at %s, off its path %s" % (rid, label, fmt(snap_["pos"]), fmt(snap_["path"][-1])))
    return None


def run_threads(case, st, sc, out):
    S = sc["S"]
    shape = [0]
    bombs = []
    placed = []
    wid = []

    def faults_of(ri, r):
        f = {}
        for ti, ev, ex in r.get("faults") or ():
            if ti < len(r["threads"]):
                f.setdefault(ti, {})[ev] = engine.EXC[ex]
        return f or {99: {}}

    def after(ri, r, sim, w, done):
        shape[0] = hash((shape[0], sim.shape))
        for t in sim.tasks:
            for (ev, e, fn) in t.fired:
                st.faults["exception:" + type(e).__name__] += 1
                placed.append((type(e).__name__, fn))
                if not (t.result[0] == "exc" and t.result[1] is e):
                    return ("swallowed", "a %s raised in %s did not reach the caller (%s)" % (type(e).__name__, fn, t.result[0]))
            if t.result[0] == "exc" and not t.fired and not (sim.limit or sim.deadlock):
                if not injected(t.result[1], bombs, out, ()):
                    return ("raise", "thread %d of round %d raised %r" % (t.tid, ri, t.result[1]))
        caught = [t.result[1] for t in sim.tasks if t.result[0] == "exc"]
        for b in bombs:
            if b.raised is not None and not getattr(b, "seen", False):
                b.seen = True
                st.faults["user optic:" + b.exc] += 1
                placed.append((b.exc, "user " + b.kind))
                if not any(b.raised is e for e in caught):
                    return ("swallowed", "a %s raised by a user optic did not reach the caller" % b.exc)
        if out:
            for e in out.raised:
                if not any(e is x for x in caught) and not getattr(e, "seen", False):
                    return ("swallowed", "an output error did not reach the caller")
                if not getattr(e, "seen", False):
                    e.seen = True
                    st.faults["output error"] += 1
                    placed.append(("output", ""))
    with W.quiet(out), W.bounded():
        case2 = dict(case)
        w, done, err = T.play(case2, st, faults_of=faults_of, after_round=after, log=None,
                              after_world=lambda w: bombs.extend(arm(w, case)))
        snaps = [W.snap(t.ray) if t.ray is not None else None for t in done]
        recs = {d: W.hits(w.optics[d]) for d in W.detectors(sc)}
        changed = w.changed_inputs()
    if err:
        return err
    if changed:
        return ("input", "the caller's array %s was modified" % changed)
    k = hash((T.shape(case, shape[0]), tuple(placed)))
    st.shapes.add(k)
    und = False
    want, optional = {d: [] for d in recs}, {d: [] for d in recs}
    naborted = 0
    for t, s in zip(done, snaps):
        if s is None or not t.legs or t.aborted == "making":
            continue
        label = " on thread %d of round %d" % (t.where[1], t.where[0])
        if t.aborted is not None:
            naborted += 1
            v = check_prefix(sc, t.rid, t.legs, s, S, st, label)
            if v:
                return v
        solo = W.solo(sc, t.rid, None, legs=t.legs)
        before = W.solo(sc, t.rid, None, legs=t.legs[:t.inherited])["hits"] if t.inherited else {}
        for d, rows in solo["hits"].items():
            (want if t.aborted is None else optional)[d] += rows[len(before.get(d, ())):]
        if t.aborted is None:
            r = close(s, solo, lambda nudge: W.solo(sc, t.rid, None, legs=t.legs, nudge=nudge), S)
            st.c["other traces compared"] += 1
            if not r.decided:
                und = True
            if not r.ok:
                return ("disturbed", "%s%s: %s" % (t.rid, label, r.what))
        st.note(s["path"])
    if placed and naborted and len(done) > naborted:
        st.nontrivial.add(k)
        if len(st.samples) < 2:
            st.samples.append("%s: rounds %s; aborted at %s" % (sc["style"], [[len(t) for t in r["threads"]] for r in case["rounds"]],
                                                               placed[:6]))
    if not und:
        for d in recs:
            missing, surplus = match_records(recs[d], want[d], S, optional[d])
            if missing or surplus:
                return ("records", "detector %s: missing %s, surplus %s" % (d, missing[:2], surplus[:2]))
    return None


def run_history(case, st, sc, out):
    S = sc["S"]
    with W.quiet(out), W.bounded():
        if out:
            out.armed = False
        w = W.World(W.Universe(), sc)
        if out:
            out.armed = True
        bombs = arm(w, case)
        h = engine.History()
        hist = []
        legs = {}
        dead = {}
        for k, op in enumerate(case["ops"]):
            rid = op[1] if op[0] in ("leg", "abort") else None
            if rid in dead:
                continue
            before = W.process_state()
            nb, no = [b.raised for b in bombs], len(out.raised) if out else 0
            try:
                _, h = engine.run_ops(sc, [op], st, w=w)
            except BaseException as e:
                if injected(e, bombs, out, ()):
                    left = W.state_changed(before)
                    if left:
                        return ("left", "%s of %s left %s changed" % (op[0], op[1], left))
                    if op[0] == "leg":
                        dead[rid] = (e, "user optic or output")
                        legs.setdefault(rid, []).append((op[2], op[3]))
                        count(st, e, out)
                        continue
                    if op[0] == "probes":
                        count(st, e, out)
                        continue
                raise
            for g in h.legs:
                legs.setdefault(rid, []).append((g.D, g.I))
                if g.exc is not None:
                    if injected(g.exc, bombs, out, ()):
                        dead[rid] = (g.exc, "user optic or output")
                        count(st, g.exc, out)
                    else:
                        return ("hang" if isinstance(g.exc, W.SimLimit) else "raise", "%s raised %r" % (rid, g.exc))
            for a in h.aborts:
                legs.setdefault(rid, []).append((op[2], op[3]))
                e = a["fired"][0][1]
                if not (a["result"][0] == "exc" and (a["result"][1] is e or injected(a["result"][1], bombs, out, ()))):
                    return ("swallowed", "a %s raised in %s did not reach the caller" % (type(e).__name__, a["fired"][0][2]))
                dead[rid] = (e, a["fired"][0][2])
            new = [b.raised for b in bombs if b.raised is not None and not any(b.raised is x for x in nb)]
            if out:
                new += out.raised[no:]
            if new and op[0] in ("leg", "abort"):
                got = dead.get(rid, (None,))[0]
                if not any(got is e for e in new) and not (h.aborts and h.aborts[0]["fired"]):
                    return ("swallowed", "%r raised during the run of %s did not reach the caller" % (new[0], rid))
            hist += h.legs
            if h.changed:
                return ("input", "the caller's %s was modified" % h.changed[2])
            if h.left:
                return ("left", "%s of %s left %s changed" % (op[0], op[1], h.left))
        snaps = {r: W.snap(w.rays[r]) for r in w.rays}
        recs = {d: W.hits(w.optics[d]) for d in W.detectors(sc)}
    und = False
    want, optional = {d: [] for d in recs}, {d: [] for d in recs}
    for rid in sorted(legs):
        solo = W.solo(sc, rid, None, legs=legs[rid])
        for d, rows in solo["hits"].items():
            (optional if rid in dead else want)[d] += rows
        if rid in dead:
            v = check_prefix(sc, rid, legs[rid], snaps[rid], S, st, "")
            if v:
                return v
            continue
        r = close(snaps[rid], solo, lambda nudge: W.solo(sc, rid, None, legs=legs[rid], nudge=nudge), S)
        st.c["other traces compared"] += 1
        if not r.decided:
            und = True
        if not r.ok:
            return ("disturbed", "%s: %s" % (rid, r.what))
    sig = (sc["style"], tuple(op[0] for op in case["ops"]), tuple((type(e).__name__, fn) for e, fn in dead.values()))
    st.shapes.add(hash(sig))
    if dead and len(dead) < len(legs):
        st.nontrivial.add(hash(sig))
        if len(st.samples) < 2:
            st.samples.append("%s: %s; aborted %s" % (sc["style"], " ".join(op[0] for op in case["ops"]),
                                                      [(r, type(e).__name__, fn) for r, (e, fn) in dead.items()]))
    if not und:
        for d in recs:
            missing, surplus = match_records(recs[d], want[d], S, optional[d])
            if missing or surplus:
                return ("records", "detector %s: missing %s, surplus %s" % (d, missing[:2], surplus[:2]))
    return None


def count(st, e, out):
    if out and any(e is x for x in out.raised):
        st.faults["output error"] += 1
    else:
        st.faults["user optic:" + type(e).__name__] += 1
