"""C04: travel and interaction budgets are exact and the recorded path is faithful."""
import math
from .. import engine, scenes
from .. import world as W
from ..compare import fmt
from ..vec import dist, sub, norm, along, finite
from . import _ops

ID = "C04"
LEVEL = "exploration"
COUNT = {"quick": 12000, "thorough": 200000}
RULE = ("a run is a seeded scene and a seeded history of 3-30 runs with travel limits from 0 to 50 scene sizes and "
        "interaction limits from 0 to unlimited, with checkpoints, restarts, re-listings and aborted traces in between, every run "
        "followed by the checks of the bookkeeping; non-trivial when some run was ended by its interaction limit and "
        "some by its travel limit; distinct by style, kinds of optics, operations and path lengths")
MEASURE = "style, kinds of optics, sequence of operations, interactions per run"
REAL = engine.REAL_TRACE + ["pickle, copy (checkpoints)"]
STUB = ["stdout", "clock, random generators, object addresses"]
ASSUMES = ["distances are judged to 1e-7 of the scene size (the clipping distance of the code is 1e-8)"]

lists, simplify = _ops.lists, _ops.simplify


def gen(rng, tier):
    sc = scenes.gen_scene(rng)
    S = sc["S"]
    rids = [r["id"] for r in sc["rays"]]
    ops = []
    single = rng.random() < 0.35
    long = rng.random() < 0.15
    pn = rng.choice([0, 0.1, 0.4])
    for _ in range(rng.randint(3, 30)):
        if rng.random() < pn:
            ops.append(_ops.noise(rng, sc, rng.choice(["ckpt", "ckpt", "order", "abort", "passive", "stray", "list"])))
        D = engine.gen_D(rng, S) if not long else S * rng.uniform(5, 50)
        I = 1 if single else engine.gen_I(rng)
        if I is None and long:
            I = rng.choice([50, 200, 400])
        ops.append(["leg", rng.choice(rids), D, I])
    if rng.random() < 0.006:        # one run of very many interactions, in a closed box
        sc = scenes.gen_scene(rng, ["cavity"], nopt=rng.choice([0, 1]), nray=1, kinds=["mcv", "lb", "mc"])
        n = int(2 ** rng.uniform(8, 13))
        ops = [["leg", sc["rays"][0]["id"], sc["S"] * 3.0 * n, rng.choice([None, n, n])]]
    engine.far_legs(rng, ops, S, 1)
    engine.endless(rng, ops, sc)
    return {"scene": sc, "ops": ops}


def run(case, st):
    sc = case["scene"]
    S = sc["S"]
    with W.quiet(), W.bounded(4_000_000):
        w, h = engine.run_ops(sc, case["ops"], st)
    ends = {"I": 0, "D": 0}
    v = invariants(sc, h, st, ends)
    if v is None:
        v = _ops.judge_history(sc, h, st, ignore=("law",), kinds=("budget", "stop", "nonfinite", "point"))
    _ops.finish(st, sc, case["ops"], h, bool(ends["I"] and ends["D"]))
    return v


def invariants(sc, h, st, ends):
    S = sc["S"]
    tol = 1e-7 * max(S, 1.0)
    start = {r["id"]: tuple(r["p"]) for r in sc["rays"]}
    prev = {}
    bad = _ops.tainted(h)
    for g in h.legs:
        if g.rid in bad and bad[g.rid] < g.index:
            continue
        where = "%s, run %d (max_distance=%r, max_interactions=%r): " % (g.rid, g.index, g.D, g.I)
        if g.exc is not None:
            if isinstance(g.exc, W.SimLimit):
                return ("hang", where + "does not terminate")
            return ("raise", where + "raised %s: %s" % (type(g.exc).__name__, g.exc))
        b, a = g.before, g.after
        if g.rid in prev and repr(prev[g.rid]) != repr(b):
            return ("drift", where + "the ray changed between two runs")
        prev[g.rid] = a
        if g.D == math.inf and not finite(a["pos"]):
            del prev[g.rid]         # nothing ahead and no end to the travel
            bad[g.rid] = g.index
            continue
        if not (finite(a["pos"]) and finite(a["dir"]) and all(finite(q) for q in a["path"])):
            return ("nonfinite", where + "position, direction or path is not finite")
        if b["path"][0] != start[g.rid]:
            return ("start", where + "the path starts at %s, launched at %s" % (fmt(b["path"][0]), fmt(start[g.rid])))
        n = len(b["path"])
        if repr(a["path"][:n]) != repr(b["path"]):
            return ("history", where + "the recorded path was rewritten")
        if a["path"][-1] != a["pos"]:
            return ("end", where + "the path ends at %s, the ray is at %s" % (fmt(a["path"][-1]), fmt(a["pos"])))
        if abs(norm(a["dir"]) - 1) > 1e-9:
            return ("unit", where + "the direction has length %.12g" % norm(a["dir"]))
        new = a["path"][n:]
        pts = a["path"][n - 1:]
        lens = [dist(x, y) for x, y in zip(pts, pts[1:])]
        total = sum(lens)
        D, I = float(g.D), math.inf if g.I is None else g.I
        if b["blocked"]:
            st.c["run of a stopped ray"] += 1
            if new or a["dir"] != b["dir"] or not a["blocked"]:
                return ("stopped", where + "a stopped ray moved, turned or started again")
            continue
        if D <= 0 or I <= 0:
            st.c["empty budget"] += 1
            if new or a["dir"] != b["dir"] or a["blocked"]:
                return ("empty", where + "a run without budget changed the ray")
            continue
        if total > D + tol:
            return ("far", where + "travelled %.12g" % total)
        flew = total >= D - tol
        if len(new) - (1 if flew else 0) > I:
            return ("interactions", where + "%d interactions" % len(new))
        if not flew and not a["blocked"] and len(new) < I:
            return ("short", where + "travelled only %.12g through %d interactions and is not stopped" % (total, len(new)))
        if not new:
            return ("still", where + "did not move at all")
        if flew:
            ends["D"] += 1
        elif not a["blocked"]:
            ends["I"] += 1
        else:
            st.c["ended stopped"] += 1
        # the first stretch runs along the direction the ray had
        L = lens[0]
        if dist(new[0], along(b["pos"], b["dir"], L)) > tol:
            return ("line", where + "the first stretch leaves the ray's direction: %s instead of %s" %
                    (fmt(new[0]), fmt(along(b["pos"], b["dir"], L))))
    return None

