"""C03: a trace can be cut, checkpointed and resumed without changing anything."""
import math

import numpy as np

from .. import engine, scenes
from .. import world as W
from ..compare import close, match_records, fmt
from ..vec import dist, sub, norm, unit, dot, finite, along
from . import _ops

ID = "C03"
LEVEL = "exploration"
COUNT = {"quick": 9000, "thorough": 150000}
RULE = ("a run is a seeded scene; every ray gets a total travel and interaction budget and a seeded plan that spends it "
        "in 1-12 pieces (cut after some interactions, after some travel, a given distance before, exactly at or behind "
        "an interaction), interleaved with the pieces of the other rays, copies, serialisations, restarts into a fresh "
        "load of the code, aborted traces of other rays, drawings and probes; path, final state and detector records are "
        "compared with one uncut run of the same ray; non-trivial when a ray with at least two interactions was cut at "
        "least twice; distinct by style, optics, plan and path lengths")
MEASURE = "style, kinds of optics, sequence of operations, interactions per piece"
REAL = engine.REAL_TRACE + ["pickle, copy (checkpoints)"]
STUB = ["matplotlib axes in drawings", "stdout", "clock, random generators, object addresses",
        "a crash is a serialisation, a fresh load of the modules and a deserialisation in the same process"]
ASSUMES = ["where the comparison is not bit-exact, divergence is held against that of the same trace started 1e-12 away"]


MANY = 300      # a ray that meets more surfaces than this gets an interaction budget


def lists(case):
    return [["ops"], ["scene", "rays"], ["scene", "optics"]]


def simplify(case):
    import copy
    for rid, b in case["budget"].items():
        if b[1] is None or b[1] > 3:
            for I in (1, 2, 3, 5, 10, 20):
                if b[1] is None or I < b[1]:
                    c = copy.deepcopy(case)
                    c["budget"][rid][1] = I
                    yield c
    for i, op in enumerate(case["ops"]):
        if op[0] == "cut" and op[2] == "D" and float("%.3g" % op[3]) != op[3]:
            c = copy.deepcopy(case)
            c["ops"][i][3] = float("%.3g" % op[3])
            yield c


def gen(rng, tier):
    sc = scenes.gen_scene(rng)
    S = sc["S"]
    rids = [r["id"] for r in sc["rays"]]
    budget = {r: [S * rng.uniform(1, 9) if rng.random() < 0.9 else float(int(S * rng.uniform(1, 9))),
                  rng.choice([None, None, None, 60, 20, 4])] for r in rids}
    mix = {k: rng.choice([0, 0, 1, 2]) for k in ("ckpt", "abort", "passive", "probes", "stray", "list")}
    mode = rng.choice(["I", "D", "mix", "mix", "vertex", "step"])
    ops = []
    for _ in range(rng.randint(1, 12)):
        rid = rng.choice(rids)
        m = mode if mode != "mix" else rng.choice(["I", "D", "vertex"])
        if budget[rid][1] is not None and rng.random() < 0.4:
            ops.append(["cut", rid, "B", S * rng.choice([rng.uniform(0, 3), rng.uniform(0, .3)]), rng.choice([1, 1, 2, 3, 100])])
        elif m == "I":
            ops.append(["cut", rid, "I", rng.choice([1, 1, 1, 2, 3])])
        elif m == "D":
            ops.append(["cut", rid, "D", S * rng.choice([rng.uniform(0, 2), rng.uniform(0, .1), 1e-3, 1e-6])])
        elif m == "step":
            ops.append(["step", rid, rng.choice([0.1, 0.25, 1.0, 3.0, 0.7]) * S / 10, rng.randint(2, 20)])
        else:
            ops.append(["cut", rid, "V", rng.choice([0.0, 0.0, 1e-3, -1e-3, 1e-6, -1e-6, 1e-12, -1e-12, 1e-15, -1e-15, 0.1, -0.1])
                        * S, rng.randint(1, 2)])
        for k, p in mix.items():
            if rng.random() < 0.15 * p:
                op = _ops.noise(rng, sc, k)
                if op[0] == "abort":
                    op[1] = "victim"
                ops.append(op)
    return {"scene": sc, "ops": ops, "budget": budget,
            "victim": {"id": "victim", "p": [S * rng.uniform(-1, 1) for _ in range(3)], "wl": 500,
                       "d": [rng.uniform(-1, 1), rng.uniform(-1, 1), 0.2], "o": 0}}


def seg(a, b):
    return float(np.linalg.norm(np.array(a) - np.array(b)))


def run(case, st):
    sc = case["scene"]
    S = sc["S"]
    scv = dict(sc, rays=sc["rays"] + ([case["victim"]] if case.get("victim") else []))
    rids = [r["id"] for r in sc["rays"]]
    refs = {r: None for r in rids}
    budget = dict(case["budget"])
    for r in rids:
        try:
            D, I = case["budget"][r]
            refs[r] = W.solo(sc, r, D, MANY if I is None else I)
            if I is None and len(refs[r]["path"]) > MANY:
                budget[r] = [D, MANY]
        except W.SimLimit:
            return ("hang", "%s does not end" % r)
        except Exception as e:
            return ("raise", "%s raised %r in one uncut run" % (r, e))
    rem = {r: [budget[r][0], math.inf if budget[r][1] is None else budget[r][1]] for r in rids}
    marks = {r: {} for r in rids}      # path points that may be travel cuts -> did the ray turn there
    cuts = {r: 0 for r in rids}
    vague = set()           # rays of which the number of interactions is not known for sure
    legs = []
    from ..engine import History
    changed = None
    with W.quiet(), W.bounded():
        w = W.World(W.Universe(), scv)

        def piece(rid, D, I, both=False):
            """One run, at most what is left of the budget."""
            if rem[rid][1] != math.inf and D < rem[rid][0] and not both:
                D, I = math.inf, 1      # a ray with an interaction budget is mostly cut at interactions
            D = min(D, rem[rid][0])
            I = min(I, rem[rid][1])
            if D <= 0 or I <= 0:
                return None
            n0 = len(w.rays[rid].point_history)
            _, h = engine.run_ops(scv, [["leg", rid, D, None if I == math.inf else I]], st, w=w)
            g = h.legs[0]
            legs.append(len(g.after["path"]) - n0)
            if g.exc is not None:
                return ("hang" if isinstance(g.exc, W.SimLimit) else "raise", "%s raised %r in a piece" % (rid, g.exc))
            pts = g.after["path"][n0 - 1:]
            used = 0.0
            for a, b in zip(pts, pts[1:]):
                used += seg(a, b)
                rem[rid][0] -= seg(a, b)
            inter = len(pts) - 1
            if not g.after["blocked"] and used < D - 1e-6 * S and inter < I:
                return ("short", "%s: a piece (max_distance=%g, max_interactions=%g) ends after %g with %d interactions" %
                        (rid, D, I, used, inter))
            if not g.after["blocked"] and used >= D - 1e-7 * S and pts[1:]:
                # ended by its travel limit, or by a surface exactly there
                if len(pts) == 2:
                    d_in, eps = g.before["dir"], 1e-10
                elif seg(pts[-1], pts[-2]) > 1e-8 * S:
                    d_in, eps = unit(sub(pts[-1], pts[-2])), 1e-10 + 1e-14 * (S + norm(pts[-1])) / seg(pts[-1], pts[-2])
                else:
                    d_in = None
                turned = None if d_in is None else dist(d_in, g.after["dir"]) > eps
                marks[rid][len(g.after["path"]) - 1] = turned
                if rem[rid][1] != math.inf and rem[rid][0] > 1e-9 * S:
                    # was the last point an interaction, or only where the travel limit fell?
                    if any(seg(pts[-1], q) < 1e-4 * S for q in refs[rid]["path"]):
                        vague.add(rid)
                    else:
                        inter -= 1
            rem[rid][1] -= inter
            if rem[rid][0] < 1e-9 * S:
                rem[rid][0] = 0.0
            cuts[rid] += 1
            return None

        for op in case["ops"]:
            if op[0] in ("cut", "step"):
                rid = op[1]
                if rid not in w.rays:
                    continue
                if op[0] == "step":
                    for _ in range(op[3]):
                        v = piece(rid, op[2], math.inf)
                        if v:
                            return v
                    continue
                if op[2] == "I":
                    v = piece(rid, math.inf, op[3])
                elif op[2] == "B":
                    v = piece(rid, op[3], op[4], True)
                elif op[2] == "D":
                    v = piece(rid, op[3], math.inf)
                else:       # near the op[4]-th next vertex of the uncut path
                    done = budget[rid][0] - rem[rid][0]
                    s, D = 0.0, None
                    k = op[4]
                    p = refs[rid]["path"]
                    for a, b in zip(p, p[1:]):
                        s += seg(a, b)
                        if s > done + 1e-6 * S:
                            k -= 1
                            if k == 0:
                                D = s - done + op[3]
                                break
                    if D is None or D <= 0:
                        continue
                    v = piece(rid, D, math.inf)
                if v:
                    return v
            else:
                _, h = engine.run_ops(scv, [op], st, w=w)
                if h.changed:
                    changed = h.changed[2]
        for rid in rids:
            for _ in range(3):
                v = piece(rid, math.inf, math.inf)
                if v:
                    return v
        final = {r: W.snap(w.rays[r]) for r in rids}
        recs = {d: W.hits(w.optics[d]) for d in W.detectors(sc)}
    st.c["pieces"] += sum(cuts.values())
    if changed:
        return ("input", "the caller's array %s was modified" % changed)
    sig = (sc["style"], tuple(sorted(o["k"] for o in sc["optics"])), tuple(op[0] + str(op[2] if op[0] == "cut" else "") for op in case["ops"]),
           tuple(legs))
    st.shapes.add(hash(sig))
    nt = any(cuts[r] >= 3 and len(refs[r]["path"]) > 3 for r in rids)
    if nt:
        st.nontrivial.add(hash(sig))
        if len(st.samples) < 2:
            st.samples.append("%s (%s): %s; points per piece %s" % (sc["style"], ",".join(o["k"] for o in sc["optics"]),
                              " ".join(":".join(str(x) for x in op[:3]) if op[0] == "cut" else op[0] for op in case["ops"]), legs[:12]))
    st.c["style:" + sc["style"]] += 1
    undecided = False
    for rid in rids:
        if rid in vague:
            st.c["comparison undecided"] += 1
            undecided = True
            continue
        ref = refs[rid]
        if crowded(final[rid], ref, marks[rid], S):
            st.c["cut among surfaces that touch: not compared"] += 1
            undecided = True
            continue
        got = merge(final[rid], ref, marks[rid], S)

        def shadow(nudge):
            return W.solo(sc, rid, budget[rid][0], budget[rid][1], nudge=nudge)
        r = close(got, ref, shadow, S)
        st.c["traces compared"] += 1
        if len(got["path"]) < len(final[rid]["path"]):
            st.c["traces with travel cuts"] += 1
        if not r.decided:
            st.c["comparison undecided"] += 1
            undecided = True
        if not r.ok and sc["style"] == "lattice":
            rd = next(x for x in sc["rays"] if x["id"] == rid)
            if ties(sc, dict(ref, ray=rd, start=(tuple(rd["p"]), unit(rd["d"]))), budget[rid]):
                st.c["lattice tie: not compared"] += 1
                undecided = True
                continue
        if not r.ok:
            return ("differs", "%s in %d pieces: %s" % (rid, cuts[rid], r.what))
    if not undecided:
        want = {d: [] for d in recs}
        for rid in rids:
            for d, rows in refs[rid]["hits"].items():
                want[d] += rows
        extra = stray_records(case, sc)
        for d in recs:
            missing, surplus = match_records(recs[d], want[d], S)
            if missing:
                return ("records", "detector %s lost %s" % (d, missing[:2]))
            if surplus and not extra:
                return ("records", "detector %s has surplus %s" % (d, surplus[:2]))
    return None


def stray_records(case, sc):
    return any(op[0] in ("stray", "abort") for op in case["ops"])


def crowded(got, ref, marks, S):
    """Did a travel limit fall where two vertices are so near that it cannot be told which of them it fell on?"""
    for i in marks:
        if i < len(got["path"]) and sum(dist(p, got["path"][i]) < 3e-5 * S for p in ref["path"]) > 1:
            return True
    return False


def merge(got, ref, marks, S):
    """Drop from the cut path the points at which a travel limit fell on a straight stretch."""
    out = []
    rp, gp = ref["path"], got["path"]
    for i, q in enumerate(gp):
        if i in marks and not marks[i] and i < len(gp) - 1:
            j, nxt = len(out), gp[i + 1]
            if j >= len(rp):
                continue
            # the interaction comes next (a limit just short of a surface), or q is itself an interaction that does not
            # turn the ray (the centre of a lens), or it is a plain cut
            lone = j + 1 >= len(rp) or dist(rp[j], rp[j + 1]) > 1e-5 * S
            if (dist(nxt, rp[j]) < 1e-6 * S and lone) or dist(q, rp[j]) > 1e-6 * S:
                continue
        out.append(q)
    return dict(got, path=out)


def ties(sc, ref, budget):
    """Does the model find the uncut trace undecided somewhere?"""
    from .. import judge
    r0 = ref["start"]
    stats = {}
    judge.judge_leg(judge.prepare(sc["optics"], sc["S"]), ref["ray"], r0[0], r0[1], ref["path"][1:], budget[0], budget[1],
                    ref["dir"], ref["blocked"], sc["S"], stats)
    return bool(stats.get("undecided"))
