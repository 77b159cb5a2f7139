"""C02: detectors record every arrival exactly once."""
import math

from .. import engine, scenes, judge, ref
from .. import world as W
from ..compare import match_records, fmt, close
from ..vec import dist, sub, norm, unit, finite
from . import _ops, _threads as T

ID = "C02"
LEVEL = "exploration"
COUNT = {"quick": 9000, "thorough": 150000}
RULE = ("a run is a seeded scene with several detectors and either a seeded single-threaded history (runs in pieces, runs of "
        "stopped rays again, probes, strays, drawings, checkpoints, aborted runs) whose detector records are checked after "
        "every operation, or seeded rounds of traces and probe traces on 1-5 simulated threads, with or without an exception "
        "injected into one of them; records are judged against the geometry of the recorded path (one record per arrival, "
        "at the arrival point, with the wavelength) and against the union of the records of rays traced alone; non-trivial "
        "when at least one ray arrived at a detector; distinct by scene, operations or thread switches and arrivals")
MEASURE = "operations or (thread, function) at switches, with the sequence of arrivals"
REAL = engine.REAL_TRACE + ["threading (real threads, run one at a time)", "pickle, copy (checkpoints)"]
STUB = ["thread scheduler", "matplotlib axes in drawings", "stdout", "clock, random generators, object addresses"]
ASSUMES = ["arrivals are judged where detectors are at least 1e-6 away from other surfaces and rims",
           "an aborted ray is not run again"]


def lists(case):
    return (_ops.lists(case) if "ops" in case else T.lists(case))


def simplify(case):
    return (_ops.simplify(case) if "ops" in case else T.simplify(case))


def gen(rng, tier):
    sc = scenes.gen_scene(rng, nray=rng.choice([1, 2, 3, 4, 6]), nopt=rng.choice([1, 2, 3, 5, 8]),
                          kinds=rng.choice([["d"], ["d", "d", "mc", "li"], ["d", "d", "mr", "lb", "li", "g"],
                                            ["d", "mc", "mr", "dmd", "mcc", "mcv", "li", "lc", "lf", "lb", "cp", "ub"]]))
    S = sc["S"]
    if not any(o["k"] == "d" for o in sc["optics"]) or rng.random() < 0.4:
        add_screens(rng, sc)
    for r in sc["rays"]:
        if rng.random() < 0.15:
            r["ff"] = True
    if rng.random() < 0.45:
        case = {"scene": sc, "rounds": T.gen_rounds(rng, sc)}
        if rng.random() < 0.4:
            for rd in case["rounds"]:
                if rng.random() < 0.6:
                    rd["faults"] = [[rng.randrange(len(rd["threads"])), int(2 ** rng.uniform(0, 11)),
                                     rng.choice(["KeyboardInterrupt", "MemoryError", "OSError", "RuntimeError"])]
                                    for _ in range(rng.choice([1, 1, 2]))]
        return case
    ops = []
    rids = [r["id"] for r in sc["rays"]]
    for _ in range(rng.randint(2, 12)):
        rid = rng.choice(rids)
        ops.append(["leg", rid, rng.choice([S * 20, engine.gen_D(rng, S)]), rng.choice([None, None, 1, 2, 5, 30])])
        if ops[-1][3] is None and sc["style"] in ("cavity", "balls", "planar", "lattice"):
            ops[-1][3] = 40
        if rng.random() < 0.3:
            ops.append(list(ops[-1]))
        for k, p in (("ckpt", .08), ("passive", .15), ("probes", .15), ("stray", .1), ("abort", .12), ("order", .1), ("list", .05)):
            if rng.random() < p:
                ops.append(_ops.noise(rng, sc, k))
    for _ in range(rng.choice([0, 0, 0, 0, 1, 2])):
        d = rng.choice([o["id"] for o in sc["optics"] if o["k"] == "d"])
        ops.insert(rng.randrange(len(ops) + 1), ["records", d, rng.choice(["assign", "clear", "assign", "clear", 3])])
    if rng.random() < 0.02:
        d = rng.choice([o["id"] for o in sc["optics"] if o["k"] == "d"])
        ops.insert(rng.randrange(len(ops) // 2 + 1), ["records", d, int(10 ** rng.uniform(1, 4.3))])
    if rng.random() < 0.05:
        r = rng.choice(sc["rays"])
        ops.insert(rng.randrange(len(ops) + 1),
                   ["volley", int(2 ** rng.uniform(2, 11)), r["p"], r["d"], S * rng.choice([rng.uniform(0.001, 0.1), 0.0]), 8 * S,
                    300, rng.choice([1, 1, 1, 2, 3])])
    return {"scene": sc, "ops": ops}


def add_screens(rng, sc):
    """Detectors in the way of some rays, and a big one behind the scene."""
    S = sc["S"]
    n = len(sc["optics"])
    for i in range(rng.randint(1, 3)):
        r = rng.choice(sc["rays"])
        d = unit(r["d"])
        t = S * rng.uniform(0.2, 3)
        nrm = unit([-x + rng.uniform(-.6, .6) for x in d])
        tan = unit(ref_cross(nrm, [rng.uniform(-1, 1) for _ in range(3)]))
        sc["optics"].append({"id": "s%d" % (n + i), "k": "d", "c": [a + t * b for a, b in zip(r["p"], d)], "n": list(nrm),
                             "t": list(tan), "w": S * rng.uniform(.05, 2), "h": S * rng.uniform(.05, 2)})


def ref_cross(a, b):
    from ..vec import cross
    return cross(a, b)


def arrival(prep, dets, snap0, snap1, S, ff):
    """What the recorded path says about detectors: -> (kind, value)
    ("at", id): the ray arrived there; ("none", None); ("?", None): not decided; ("bad", text)."""
    pts = [snap0["path"][-1]] + snap1["path"][len(snap0["path"]):]
    if snap0["blocked"]:
        return ("none", None)
    und = False
    for i, (a, b) in enumerate(zip(pts, pts[1:])):
        if not (finite(a) and finite(b)):
            return ("?", None)
        L = dist(a, b)
        if L < 1e-5 * S:
            # a stretch shorter than the geometry is decided to; only its end may matter
            und = und or L > 0
            continue
        d = unit(sub(b, a))
        last = i == len(pts) - 2
        for o in dets:
            c, u = ref.cands_rect(o, a, d)
            if any(t < L + 1e-3 * S for t in u):
                und = True
            for (t, n, _) in c:
                if t < L - 1e-4 * S - 1e-6:
                    if t > 1e-4 * S and not ff:
                        return ("bad", "passed through %s" % o["id"])
                    und = True
                elif t < L + 1e-6 * S + 1e-8:
                    if abs(t - L) > 1e-7 * S:
                        und = True
                    else:
                        others = [x for x in prep if x["id"] != o["id"] and near(x, a, d, L, S)]
                        if others:
                            und = True
                        elif not last:
                            if not ff and dist(pts[i + 1], pts[i + 2]) > 1e-4 * S:
                                return ("bad", "went on from %s" % o["id"])
                            und = True
                        else:
                            return ("at", o["id"]) if not und else ("?", None)
                elif t < L + 1e-4 * S + 1e-6:
                    und = True
    return ("?", None) if und else ("none", None)


def near(x, a, d, L, S):
    f = ref.CANDS.get(x["k"])
    if f is None:
        return False
    try:
        c, u = f(x, a, d)
    except ref.Ill:
        return True
    return any(abs(t[0] - L) < 1e-4 * S for t in c) or any(abs(t - L) < 1e-2 * S for t in u)


def same_rec(a, b, S):
    return len(a) == len(b) == 4 and dist(a[:3], b[:3]) <= 1e-7 * S and a[3] == b[3]


def run(case, st):
    sc = case["scene"]
    S = sc["S"]
    prep = [o for o in judge.prepare(sc["optics"], S) if o["k"] not in ("an", "fi", "wi")]
    dets = [o for o in prep if o["k"] == "d"]
    rd = {r["id"]: r for r in sc["rays"]}
    st.c["style:" + sc["style"]] += 1
    if "ops" in case:
        return run_history(case, st, sc, S, prep, dets, rd)
    return run_threads(case, st, sc, S, prep, dets, rd)


def run_history(case, st, sc, S, prep, dets, rd):
    with W.quiet(), W.bounded():
        w, h = engine.run_ops(sc, case["ops"], st, track_hits=True)
    bad = _ops.tainted(h)
    legs = {g.index: g for g in h.legs}
    aborts = {a["index"]: a for a in h.aborts}
    have = {o["id"]: [] for o in dets}
    volleys = dict(h.volleys)
    arrivals = []
    for k, op, recs in h.detector_log:
        now = recs
        g = legs.get(k)
        exp, opt = None, None
        if g is not None:
            if g.rid in bad and bad[g.rid] < g.index:
                exp = "any"
            else:
                if g.exc is not None:
                    return ("hang" if isinstance(g.exc, W.SimLimit) else "raise", "%s raised %r" % (g.rid, g.exc))
                ff = bool(rd[g.rid].get("ff"))
                kind, v = arrival(prep, dets, g.before, g.after, S, ff)
                if kind == "bad":
                    return ("missed", "%s, run %d: %s" % (g.rid, k, v))
                if kind == "?":
                    exp = "any"
                    st.c["arrival undecided"] += 1
                elif kind == "at" and not ff:
                    exp = (v, g.after["path"][-1] + (float(rd[g.rid]["wl"]),))
                    arrivals.append(v)
                    if not g.after["blocked"]:
                        return ("stop", "%s arrived at %s and was not stopped" % (g.rid, v))
                if ff:
                    exp = None      # a probe never records, decided or not
        elif op[0] == "records":
            have = {d: list(v) for d, v in now.items()}
            continue
        elif k in aborts:
            exp = "maybe"
        elif op[0] == "stray":
            exp = "any"
        elif op[0] == "volley":
            exp = "volley"
            if isinstance(volleys[k], BaseException):
                return ("hang" if isinstance(volleys[k], W.SimLimit) else "raise", "a ray of a volley raised %r" % (volleys[k],))
        changes = []
        for o in dets:
            d = o["id"]
            if d not in now:
                continue
            old, new = have[d], now[d]
            lost, added = match_records(new, old, 0.0)
            if lost:
                return ("changed", "after %s detector %s lost %s" % (op[0], d, lost[:2]))
            changes += [(d, r) for r in added]
            have[d] = new
        if exp == "volley":
            v = judge_volley(volleys[k], prep, dets, changes, S, st, arrivals)
            if v:
                return ("record", "%d parallel rays (operation %d): %s" % (op[1], k, v))
            continue
        if exp is None and changes:
            return ("extra", "%s (operation %d) added %s" % (op[0], k, changes[:2]))
        if exp in ("any", "maybe") and len(changes) > 1:
            return ("extra", "%s (operation %d) added %s" % (op[0], k, changes[:3]))
        if exp == "maybe" and changes:
            d, r = changes[0]
            a = aborts[k]
            o = next(x for x in dets if x["id"] == d)
            if len(r) != 4 or r[3] != float(rd[a["rid"]]["wl"]) or not on_plane(o, r[:3], S):
                return ("torn", "an aborted run left the record %s in %s" % (r, d))
        if exp == "any" and changes and g is not None:
            d, r = changes[0]
            if len(r) != 4 or r[3] != float(rd[g.rid]["wl"]) or dist(r[:3], g.after["pos"]) > 1e-5 * S:
                return ("wrong", "%s at %s left the record %s in %s" % (g.rid, fmt(g.after["pos"]), r, d))
        if isinstance(exp, tuple):
            d, want = exp
            if len(changes) != 1 or changes[0][0] != d or not same_rec(changes[0][1], want, S):
                return ("record", "%s arrived at %s at %s: expected one record %s, got %s" %
                        (rd[g.rid]["id"], d, fmt(want[:3]), want, changes[:3]))
    st.c["arrivals"] += len(arrivals)
    sig = (sc["style"], tuple(sorted(o["k"] for o in sc["optics"])), tuple(op[0] for op in case["ops"]), tuple(arrivals))
    st.shapes.add(hash(sig))
    if arrivals:
        st.nontrivial.add(hash(sig))
        if len(st.samples) < 2:
            st.samples.append("%s (%s): %s; arrivals %s" % (sc["style"], ",".join(o["k"] for o in sc["optics"]),
                                                            " ".join(op[0] for op in case["ops"]), arrivals[:8]))
    return None


def judge_volley(rec, prep, dets, changes, S, st, arrivals):
    """Rays of a volley that share a wavelength share everything: one record for each of the rays that arrived,
    none for the others."""
    by = {}
    for d, r in changes:
        by.setdefault(r[3] if len(r) == 4 else None, []).append((d, r))
    same = {}
    for b, a, wl in rec:
        same.setdefault(wl, []).append((b, a))
    for wl, g in same.items():
        got = by.pop(wl, [])
        b, a = g[0]
        if any(x[1]["path"] != a["path"] for x in g):
            return "rays of wavelength %g that start alike differ" % wl
        kind, v = arrival(prep, dets, b, a, S, False)
        if kind == "bad":
            return v
        if len(got) > len(g):
            return "%d rays left the records %s" % (len(g), got[:3])
        if kind == "?":
            st.c["arrival undecided"] += 1
        elif kind == "at":
            if len(got) != len(g) or any(d != v or not same_rec(r, a["path"][-1] + (wl,), S) for d, r in got):
                return "%d rays of wavelength %g arrived at %s at %s and left %s" % (len(g), wl, v, fmt(a["path"][-1]), got)
            if len(arrivals) < 50:
                arrivals.append(v)
            st.c["volley arrivals"] += 1
        elif got:
            return "the ray of wavelength %g did not arrive and left %s" % (wl, got)
    if by:
        return "records of no ray: %s" % list(by.values())[:2]
    return None


def on_plane(o, q, S):
    from ..vec import dot
    n = unit(o["n"])
    return abs(dot(sub(q, o["c"]), n)) < 1e-5 * S


def run_threads(case, st, sc, S, prep, dets, rd):
    shape = [0]

    def faults_of(ri, r):
        if not r.get("faults"):
            return None
        f = {}
        for ti, ev, ex in r["faults"]:
            if ti < len(r["threads"]):
                f.setdefault(ti, {})[ev] = engine.EXC[ex]
        return f

    def after(ri, r, sim, w, done):
        shape[0] = hash((shape[0], sim.shape))
        for t in sim.tasks:
            if t.fired:
                st.faults["exception:" + type(t.fired[0][1]).__name__] += 1
            elif t.result[0] == "exc" and not (sim.deadlock or sim.limit):
                return ("raise", "a trace raised %r" % (t.result[1],))
    with W.quiet(), W.bounded():
        w, done, err = T.play(case, st, faults_of=faults_of, after_round=after)
        recs = {o["id"]: W.hits(w.optics[o["id"]]) for o in dets}
        snaps = [W.snap(t.ray) if t.ray is not None else None for t in done]
    if err:
        return err
    want = {d: [] for d in recs}
    optional = {d: [] for d in recs}
    und, arrivals = False, []
    cache = {}
    for t, s in zip(done, snaps):
        if s is None or not t.legs or t.aborted == "making":
            continue
        ff = bool(rd[t.rid].get("ff"))
        key = (t.rid, tuple(t.legs))
        if key not in cache:
            cache[key] = W.solo(sc, t.rid, None, legs=t.legs)
        solo = cache[key]
        if t.aborted is not None or s is None:
            st.c["aborted traces"] += 1
            for d, rows in solo["hits"].items():
                optional[d] += rows
            continue
        st.c["traces"] += 1
        if ff:
            if any(solo["hits"].values()):
                return ("probe", "the probe %s traced alone left a record" % t.rid)
            continue
        start = {"path": [tuple(rd[t.rid]["p"])], "blocked": False}
        if len(t.legs) == 1:
            kind, v = arrival(prep, dets, start, solo, S, ff)
            if kind == "bad":
                return ("missed", "%s: %s" % (t.rid, v))
            if kind != "?":
                got = [(d, r) for d, rows in solo["hits"].items() for r in rows]
                exp = [] if kind == "none" else [(v, solo["path"][-1] + (float(rd[t.rid]["wl"]),))]
                if len(got) != len(exp) or any(a[0] != b[0] or not same_rec(a[1], b[1], S) for a, b in zip(got, exp)):
                    return ("record", "%s traced alone: expected %s, got %s" % (t.rid, exp, got))
                if exp:
                    arrivals.append(v)
        r = close(s, solo, lambda nudge: W.solo(sc, t.rid, None, legs=t.legs, nudge=nudge), S)
        if not r.decided:
            st.c["comparison undecided"] += 1
            und = True
        before = {}
        if t.inherited:         # a copy: its original made the records of the runs before
            before = W.solo(sc, t.rid, None, legs=t.legs[:t.inherited])["hits"]
        for d, rows in solo["hits"].items():
            want[d] += rows[len(before.get(d, ())):]
    k = T.shape(case, shape[0])
    st.shapes.add(k)
    st.c["arrivals"] += len(arrivals)
    if arrivals:
        st.nontrivial.add(k)
        if len(st.samples) < 2:
            st.samples.append("%s (%s): rounds %s, faults %s; arrivals %s" % (
                sc["style"], ",".join(o["k"] for o in sc["optics"]), [[len(t) for t in r["threads"]] for r in case["rounds"]],
                [r.get("faults") for r in case["rounds"]], arrivals[:8]))
    if not und:
        for d in recs:
            missing, surplus = match_records(recs[d], want[d], S, optional[d])
            # every aborted trace may leave one of the records it would have left
            if missing or surplus:
                return ("records", "detector %s: missing %s, surplus %s" % (d, missing[:2], surplus[:2]))
    return None
