"""C13: composed bodies are met exactly on the boundary of their set, along every trace."""
from .. import engine, scenes, judge
from .. import world as W
from ..vec import finite
from . import _ops, _threads as T

ID = "C13"
LEVEL = "exploration"
COUNT = {"quick": 12000, "thorough": 250000}
RULE = ("a run is a seeded scene of one to three bodies composed by up to some thirty booleans (trees of any shape over spheres and "
        "cylinders, built up in the ways the tree class offers), with mirrors, lenses or detectors around them, and a seeded history of runs of rays that "
        "start inside, outside or in a hollow of the bodies (with checkpoints, restarts, aborted traces and re-listings "
        "between them) or of traces on 2-4 simulated threads; every stretch is judged against interval algebra on the "
        "tree; non-trivial when rays crossed the surface of a composed body at least twice; distinct by kinds of optics, "
        "operations or thread switches and path lengths")
MEASURE = "kinds of optics, sequence of operations or of thread switches, interactions per run"
REAL = engine.REAL_TRACE + ["pickle, copy (checkpoints)", "threading (real threads, run one at a time)"]
STUB = ["thread scheduler", "stdout", "clock, random generators, object addresses"]
ASSUMES = ["crossings within about 1e-6 of one another, or lines within 1e-4 of a tangent of some part, are not judged",
           "bodies do not overlap one another"]


def lists(case):
    return _ops.lists(case) if "ops" in case else T.lists(case)


def simplify(case):
    import copy
    for i, o in enumerate(case["scene"]["optics"]):
        if o["k"] == "cp":
            for t in smaller(o["tree"]):
                c = copy.deepcopy(case)
                c["scene"]["optics"][i]["tree"] = t
                yield c
    yield from (_ops.simplify(case) if "ops" in case else T.simplify(case))


def smaller(t):
    if "op" in t:
        yield t["a"]
        yield t["b"]
        for k in "ab":
            for s in smaller(t[k]):
                yield dict(t, **{k: s})


def gen(rng, tier):
    sc = scenes.gen_bodies(rng)
    S = sc["S"]
    if rng.random() < 0.2:
        return {"scene": sc, "rounds": T.gen_rounds(rng, sc, nthreads=rng.choice([2, 3, 4]))[:1]}
    rids = [r["id"] for r in sc["rays"]]
    ops = []
    pn = rng.choice([0, 0.1, 0.4])
    for _ in range(rng.randint(1, 5)):
        ops.append(["leg", rng.choice(rids), engine.gen_D(rng, S), engine.gen_I(rng)])
        if rng.random() < pn:
            ops.append(_ops.noise(rng, sc, rng.choice(["list", "ckpt", "ckpt", "abort", "order", "some", "stray", "index"])))
    for r in rids:
        ops.append(["leg", r, S * rng.uniform(2, 8), rng.choice([None, 30])])
    return {"scene": sc, "ops": ops}


def run(case, st):
    sc = case["scene"]
    n0 = st.c["hit:cp"]
    if "ops" in case:
        with W.quiet(), W.bounded():
            w, h = engine.run_ops(sc, case["ops"], st)
        v = _ops.judge_history(sc, h, st)
        _ops.finish(st, sc, case["ops"], h, st.c["hit:cp"] - n0 >= 2)
        return v
    shape = [0]

    def after(ri, rd, sim, w, done):
        shape[0] = hash((shape[0], sim.shape))
    with W.quiet(), W.bounded():
        w, done, err = T.play(case, st, after_round=after)
        got = [(t, W.snap(t.ray)) for t in done if t.ray is not None] if err is None else []
    st.c["threaded rounds"] += 1
    if err:
        return err
    opt = judge.prepare(sc["optics"], sc["S"])
    by = {o["id"]: o for o in opt}
    rd = {r["id"]: r for r in sc["rays"]}
    for t, s in got:
        st.note(s["path"])
        if len(t.legs) != 1 or t.inherited or not finite(t.before["pos"]):
            continue
        (D, I), b = t.legs[0], t.before
        f = judge.judge_leg([by[i] for i in w.order if i in by], rd[t.rid], b["pos"], b["dir"], s["path"][len(b["path"]):],
                            D, I, s["dir"], s["blocked"], sc["S"], st.c, b["blocked"])
        if f is not None:
            return (f.kind, "%s on thread %d: %r" % (t.rid, t.where[1], f))
    k = T.shape(case, shape[0])
    st.shapes.add(k)
    if st.c["hit:cp"] - n0 >= 2:
        st.nontrivial.add(k)
    return None
