"""C14: the index of refraction at a point follows the body it lies in, at every moment."""
import math
import random
from .. import engine, scenes, sched, ref
from .. import world as W
from ..compare import fmt
from ..vec import add, mul, rnd_dir, unit
from . import _ops
from .c13 import smaller
from ._threads import gen_sched

ID = "C14"
LEVEL = "exploration"
COUNT = {"quick": 12000, "thorough": 250000}
RULE = ("a run is a seeded scene of glass balls and composed bodies (trees of up to some thirty booleans), which may overlap, among "
        "other optics, and a seeded history of index queries between and during traces, re-listings, checkpoints, "
        "restarts and aborted traces, at points deep inside, far outside, close to every part's surface and along the "
        "paths of rays; in a third of the runs several simulated threads query and trace at once; every answer is "
        "compared with the set algebra of the bodies in their listing order; non-trivial when both the world and a "
        "body were reported; distinct by kinds of optics, operations or thread switches and answers")
MEASURE = "kinds of optics, sequence of operations or of thread switches, answers"
REAL = engine.REAL_TRACE + ["pickle, copy (checkpoints)", "threading (real threads, run one at a time)"]
STUB = ["thread scheduler", "stdout", "clock, random generators, object addresses"]
ASSUMES = ["points within 1e-7 of the scene size of a surface of a body listed up to the deciding one are not judged"]

lists = lambda case: [["ops"], ["scene", "rays"], ["scene", "optics"]] + \
    [["threads"]] * ("threads" in case) + [["threads", i] for i in range(len(case.get("threads", [])))] + \
    ([["sched", "sw"]] if case.get("sched", {}).get("k") == "replay" else [])


def simplify(case):
    import copy
    for i, o in enumerate(case["scene"]["optics"]):
        if o["k"] == "cp":
            for t in smaller(o["tree"]):
                c = copy.deepcopy(case)
                c["scene"]["optics"][i]["tree"] = t
                yield c
    yield from _ops.simplify(case)


def leaves(t):
    if "op" in t:
        return leaves(t["a"]) + leaves(t["b"])
    return [t]


def near(rng, sc, pair=None):
    """A point inside, outside or close to the surface of some part of a body (and in pair, one close to it behind)."""
    S = sc["S"]
    o = rng.choice([o for o in sc["optics"] if o["k"] in ("lb", "cp")] or sc["optics"])
    if o["k"] not in ("lb", "cp"):
        return [S * rng.uniform(-1, 1) for _ in range(3)]
    c, r = o["c"], o.get("r") or o["D"] / 2
    x = rng.random()
    if x < 0.45:
        return list(add(c, mul(rnd_dir(rng), r * rng.random() ** 0.5 * rng.choice([1, 1, 1.3]))))
    if x < 0.85:
        t = rng.choice(leaves(o["tree"])) if o["k"] == "cp" else {"s": [c, r]}
        u = rnd_dir(rng)
        off = rng.choice([-1, 1]) * 10.0 ** rng.uniform(-6, 0) * S * 0.3
        if pair is not None:
            off = 10.0 ** rng.uniform(-6, -2) * S
            if "s" in t:
                pair += add(t["s"][0], mul(u, t["s"][1] - off * rng.random()))
        if "s" in t:
            return list(add(t["s"][0], mul(u, t["s"][1] + off)))
        from ..vec import perp, cross
        a = unit(t["y"][1])
        e1 = unit(perp(a))
        e2 = cross(a, e1)
        w = rng.uniform(0, 2 * math.pi)
        e = add(mul(e1, math.cos(w)), mul(e2, math.sin(w)))
        return list(add(t["y"][0], add(mul(e, t["y"][2] + off), mul(a, r * rng.uniform(-1, 1)))))
    return [S * rng.uniform(-1.5, 1.5) * rng.choice([1, 1, 100]) for _ in range(3)]


def query(rng, sc):
    S = sc["S"]
    if rng.random() < 0.2:
        return _ops.noise(rng, sc, "index")
    p = near(rng, sc)
    if rng.random() < 0.1:
        p = [float(round(x)) for x in p]
    return ["index", p]


def gen(rng, tier):
    sc = scenes.gen_bodies(rng, overlap=rng.random() < 0.6)
    if rng.random() < 0.1:
        sc = scenes.gen_scene(rng)
    S = sc["S"]
    rids = [r["id"] for r in sc["rays"]]
    if rng.random() < 0.33:
        threads = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            threads.append([["leg", rng.choice(rids), S * rng.uniform(1, 4), 8] if rng.random() < 0.2 else
                            ["index", near(rng, sc)] for _ in range(rng.randint(2, 8))])
        used = set()
        for t in threads:           # one ray is never traced by two threads
            t[:] = [op for op in t if op[0] != "leg" or not (op[1] in used or used.add(op[1]))]
        return {"scene": sc, "ops": [], "threads": threads, "sched": gen_sched(rng, 2000)}
    ops = []
    same = []
    pl = rng.choice([0, 0.2, 0.5])
    pn = rng.choice([0.1, 0.4, 0.7])
    pp = rng.choice([0, 0.2, 0.5])
    for _ in range(rng.randint(4, 24)):
        if rng.random() < pl:
            ops.append(["leg", rng.choice(rids), engine.gen_D(rng, S), rng.choice([1, 2, 5, 20])])
        if rng.random() < pn:
            ops.append(_ops.noise(rng, sc, rng.choice(["list", "ckpt", "ckpt", "abort", "order", "order", "some", "stray", "passive"])))
        if rng.random() < pp:
            q = []
            p = near(rng, sc, q)
            both = [["index", x] for x in (p, q) if x]
            rng.shuffle(both)
            ops += both
            same += both
        elif same and rng.random() < 0.25:
            ops.append(rng.choice(same))        # asked before, perhaps under another listing
        else:
            ops.append(query(rng, sc))
            same.append(ops[-1])
    return {"scene": sc, "ops": ops}


def run(case, st):
    sc = case["scene"]
    c0 = [st.c["law:index world"], st.c["law:index body"]]
    if "threads" in case:
        h, err, k = threaded(case, st)
        if err:
            return err
    else:
        with W.quiet(), W.bounded():
            w, h = engine.run_ops(sc, case["ops"], st)
        for g in h.legs:
            if isinstance(g.exc, (W.SimLimit, sched.SimDeadlock)):
                return ("hang", "Ray.run of %s does not terminate" % g.rid)
        for i, op, e in h.passive:
            if op[0] == "index":
                return ("raise", "operation %d: the index query raised %s: %s" % (i, type(e).__name__, e))
        if h.changed:
            return ("input", "the caller's %s was modified" % h.changed[2])
        k = None
    v = _ops.judge_indices(sc, h, st)
    nt = st.c["law:index world"] > c0[0] and st.c["law:index body"] > c0[1]
    st.note([x for _, _, _, x in h.indices])
    if k is None:
        _ops.finish(st, sc, case["ops"], h, nt)
    else:
        st.shapes.add(k)
        if nt:
            st.nontrivial.add(k)
    return v


def threaded(case, st):
    sc = case["scene"]
    h = engine.History()
    with W.quiet(), W.bounded():
        w = W.World(W.Universe(), sc)
        ol = w.olist()

        def work(plan, ti):
            for i, op in enumerate(plan):
                if op[0] == "leg":
                    if op[1] in w.rays:
                        w.rays[op[1]].run(op[2], ol, op[3])
                else:
                    q = W.arr(op[1])
                    h.indices.append(((ti, i), tuple(op[1]), list(w.order), w.U.optics3d.get_index_at_point(ol, q)))
        sim = sched.Sim([lambda t=t, i=i: work(t, i) for i, t in enumerate(case["threads"])],
                        sched.make_chooser(case["sched"], random.Random))
        sim.run()
    st.recorded = {"sched": sim.recorded()}
    st.steps += sim.n
    st.c["thread switches"] += sim.nswitch
    st.c["threaded runs"] += 1
    if sim.deadlock or sim.limit:
        return h, ("hang", "the queries do not end"), 0
    for t in sim.tasks:
        if t.result[0] == "exc":
            e = t.result[1]
            return h, ("hang" if isinstance(e, W.SimLimit) else "raise", "a query or trace raised %r" % (e,)), 0
    return h, None, hash((tuple(sorted(o["k"] for o in sc["optics"])), sim.shape, tuple(x for _, _, _, x in h.indices)))
