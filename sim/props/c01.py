"""C01: batch tracing does not depend on order or thread interleaving."""
from .. import engine, scenes
from .. import world as W
from ..compare import close
from . import _threads as T

ID = "C01"
LEVEL = "exploration"
COUNT = {"quick": 7000, "thorough": 120000}
RULE = ("a run is a seeded scene and 1-3 rounds in which 1-5 simulated threads trace seeded batches of rays against one "
        "shared set of optics (new rays, rays going on from earlier rounds, copies; rays launched from one array), under "
        "a seeded scheduler that may switch threads at every line, or at every bytecode, of the code under test; each ray "
        "is compared with the same ray traced alone on freshly built optics in a fresh load of the code; non-trivial "
        "when at least two traces overlapped or followed one another on the optics and met at least one surface; distinct "
        "by scene, optics and the sequence of (thread, function) at the switches")
MEASURE = "the sequence of (from thread, to thread, function) over all switches, with the scene's style and optics"
REAL = engine.REAL_TRACE + ["threading (real threads, run one at a time)", "copy (deep copies of rays)"]
STUB = ["thread scheduler", "threading.Lock/RLock of the code under test", "stdout",
        "clock, random generators, object addresses"]
ASSUMES = ["threads switch at line or bytecode boundaries of repository code, not inside numpy calls"]

lists, simplify = T.lists, T.simplify


def gen(rng, tier):
    sc = scenes.gen_scene(rng, nray=rng.choice([2, 2, 3, 4, 6, 8]))
    return {"scene": sc, "rounds": T.gen_rounds(rng, sc)}


def run(case, st):
    sc = case["scene"]
    S = sc["S"]
    shape = [0]

    def after(ri, rd, sim, w, done):
        shape[0] = hash((shape[0], sim.shape))
        st.c["threaded rounds" if len(sim.tasks) > 1 else "sequential rounds"] += 1
        c = w.changed_inputs()
        if c:
            return ("input", "the caller's array %s was modified" % c)
    with W.quiet(), W.bounded():
        w, done, err = T.play(case, st, after_round=after)
        got = [(t, W.snap(t.ray)) for t in done if t.ray is not None] if err is None else []
    st.c["style:" + sc["style"]] += 1
    k = T.shape(case, shape[0])
    st.shapes.add(k)
    if err:
        return err
    if len(got) > 1 and any(len(s["path"]) > 2 for _, s in got):
        st.nontrivial.add(k)
        if len(st.samples) < 2:
            st.samples.append("%s (%s): rounds %s; paths of %s points" % (sc["style"], ",".join(o["k"] for o in sc["optics"]),
                              [[len(t) for t in r["threads"]] for r in case["rounds"]], [len(s["path"]) for _, s in got][:10]))
    cache = {}
    for t, s in got:
        key = (t.rid, tuple(t.legs))
        if key not in cache:
            cache[key] = W.solo(sc, t.rid, None, legs=t.legs)
            if cache[key]["mutated"]:
                return ("input", "the caller's array %s was modified" % cache[key]["mutated"])
        st.note(s["path"])
        st.c["traces compared"] += 1
        r = close(s, cache[key], lambda nudge: W.solo(sc, t.rid, None, legs=t.legs, nudge=nudge), S)
        if not r.decided:
            st.c["comparison undecided"] += 1
        if not r.ok:
            return ("differs", "%s on thread %d of round %d: %s" % (t.rid, t.where[1], t.where[0], r.what))
    return None
