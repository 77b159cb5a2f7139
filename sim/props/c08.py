"""C08: drawing and inspecting a scene never changes it."""
from .. import engine, scenes, sched
from .. import world as W
from ..compare import close, match_records, fmt
from . import _ops

ID = "C08"
LEVEL = "exploration"
COUNT = {"quick": 7000, "thorough": 120000}
RULE = ("a run is a seeded scene and a seeded history in which rays are traced in several runs while optics are drawn in "
        "every view (failing half way at seeded calls), rays and optics printed, plot data read and overwritten, indices "
        "asked for and geometry helpers called; in a third of the runs these happen on a second thread under a seeded "
        "scheduler that may switch at every line, and may be cut off by an exception at any line; every ray and every "
        "detector is compared with the same scene traced without them; non-trivial when at least two passive "
        "operations happened before the end of the last trace; distinct by scene, operations and switch positions")
MEASURE = "operation sequences, and for threaded runs the sequence of (thread, function) at every switch"
REAL = engine.REAL_TRACE + ["drawing code (pathpatch_2d_to_3d, pathpatch_translate, draw methods)", "matplotlib patches",
                            "matplotlib figures and canvas (a small share of the drawings)"]
STUB = ["matplotlib axes in most drawings", "stdout", "clock, random generators, object addresses", "thread scheduler"]
ASSUMES = ["threads switch at line boundaries of repository code"]

lists = lambda case: [["ops"], ["tops"], ["scene", "rays"], ["scene", "optics"]] + \
    ([["sched", "sw"]] if case.get("sched", {}).get("k") == "replay" else [])
simplify = _ops.simplify


def gen(rng, tier):
    sc = scenes.gen_scene(rng, ["cloud", "cavity", "bench", "balls", "planar", "lattice"])
    if rng.random() < 0.5:
        for o in sc["optics"]:      # integer vectors, as in the example scripts
            if "n" in o and rng.random() < 0.3 and o["k"] in ("mc", "li", "lc", "lf", "ub"):
                o["n"] = [float(rng.choice([0, 1, -1, 3])), float(rng.choice([0, 1])), 1.0]
                o["int"] = all(float(x).is_integer() for x in o["c"])
    S = sc["S"]
    rids = [r["id"] for r in sc["rays"]]
    ops, tops = [], []
    threaded = rng.random() < 0.35
    for _ in range(rng.randint(1, 7)):
        for _ in range(rng.randint(0, 3)):
            ops.append(engine.passive_op(rng, sc, real=0.004, on_path=0.8))
        if rng.random() < 0.05:
            ops.append(["ckpt", rng.choice(["deepcopy", "pickle"])])
        ops.append(["leg", rng.choice(rids), engine.gen_D(rng, S), rng.choice([None, 1, 2, 3, 10])])
    for r in rids:
        ops.append(engine.passive_op(rng, sc, real=0.0, on_path=0.8))
        ops.append(["leg", r, S * rng.uniform(2, 6), 30])
    case = {"scene": sc, "ops": ops, "tops": []}
    if threaded:
        case["ops"] = [o for o in ops if o[0] == "leg"]
        case["tops"] = [engine.passive_op(rng, sc, real=0.0, on_path=0.8) for _ in range(rng.randint(2, 10))]
        case["sched"] = rng.choice([
            {"k": "rand", "p": rng.choice([0.02, 0.2, 0.5]), "seed": rng.getrandbits(32)},
            {"k": "pct", "len": 3000, "n": rng.choice([2, 5, 12]), "seed": rng.getrandbits(32)},
            {"k": "burst", "seed": rng.getrandbits(32)}, {"k": "rr", "every": rng.choice([1, 2, 7])}])
        if rng.random() < 0.3:
            case["cut"] = int(2 ** rng.uniform(2, 10))
    return case


def run(case, st):
    import random
    sc = case["scene"]
    S = sc["S"]
    changed = None
    legs, inorder = {}, []
    for op in case["ops"]:
        if op[0] == "leg" and op[1] in {r["id"] for r in sc["rays"]}:
            legs.setdefault(op[1], []).append((op[2], op[3]))
            inorder.append(op)
    alone = {}
    for rid in sorted(legs):
        try:
            alone[rid] = W.solo(sc, rid, None, legs=legs[rid])
        except (Exception, W.SimLimit) as e:
            return ("raise", "tracing %s without any drawing raised %r" % (rid, e))
    paths = {rid: s["path"] for rid, s in alone.items()}
    with W.quiet(), W.bounded():
        if "sched" in case:
            w = W.World(W.Universe(), sc)
            plan = [op for op in case["ops"] if op[0] == "leg" and op[1] in w.rays]
            st2 = type(st)()
            st2.begin()

            def tracer():
                ol = w.olist()
                for op in plan:
                    w.rays[op[1]].run(op[2], ol, *([] if op[3] is None else [op[3]]))

            def artist():
                for op in case["tops"]:
                    engine.run_ops(sc, [op], st2, w=w, paths=paths)
            faults = {1: {case["cut"]: KeyboardInterrupt}} if "cut" in case else None
            sim = sched.Sim([tracer, artist], sched.make_chooser(case["sched"], random.Random), faults=faults)
            sim.run()
            st.recorded = {"sched": sim.recorded()}
            st.steps += sim.n
            st.c["thread switches"] += sim.nswitch
            st.c["threaded runs"] += 1
            st.shapes.add(sim.shape)
            st.note(sim.shape)
            if sim.tasks[1].fired:
                st.faults["inspection interrupted"] += 1
            st.c.update(st2.c)
            st.faults.update(st2.faults)
            r = sim.tasks[0].result
            if r[0] == "exc":
                if isinstance(r[1], W.SimLimit):
                    return ("hang", "the traces do not end")
                return ("raise", "tracing raised %r while the scene was being drawn" % (r[1],))
            if sim.deadlock:
                return ("hang", "deadlock")
            e1 = sim.tasks[1].result
            passive = len(case["tops"])
            changed = w.changed_inputs()
            nt = sim.nswitch >= 3
            if nt:
                st.nontrivial.add(sim.shape)
            if nt and len(st.samples) < 2:
                st.samples.append("threaded: %d runs against %s; %d switches in %d events" %
                                  (len(plan), " ".join(o[0] + ":" + str(o[1]) for o in case["tops"]), sim.nswitch, sim.n))
        else:
            w, h = engine.run_ops(sc, case["ops"], st, paths=paths)
            for g in h.legs:
                if g.exc is not None:
                    return ("raise", "%s raised %r" % (g.rid, g.exc))
            # drawing or printing may fail; what fails must fail on untouched optics too (checked below by behaviour)
            changed = h.changed and h.changed[2]
            if h.left:
                return ("left", "%s was left changed by drawing or inspecting" % h.left)
            lastleg = max([g.index for g in h.legs] or [0])
            np_ = sum(1 for i, op in enumerate(case["ops"]) if op[0] in ("draw", "repr", "plot", "index", "helper") and i < lastleg)
            _ops.finish(st, sc, case["ops"], h, np_ >= 2)
    if changed:
        return ("input", "the caller's vector %s was modified" % changed)
    open_ = False
    want = {d: [] for d in W.detectors(sc)}
    for rid in sorted(legs):
        if rid not in w.rays:
            continue
        got = W.snap(w.rays[rid])
        refr = alone[rid]
        for d, rows in refr["hits"].items():
            want[d] += rows
        st.note(got["path"])

        def shadow(nudge):
            return W.solo(sc, rid, None, legs=legs[rid], nudge=nudge)
        r = close(got, refr, shadow, S)
        if not r.decided:
            st.c["comparison undecided"] += 1
            open_ = True
        if not r.ok:
            return ("changed", "%s: %s" % (rid, r.what))
    for d in want:
        if d not in w.optics or open_:
            continue
        got = W.hits(w.optics[d])
        missing, surplus = match_records(got, want[d], S)
        if missing or surplus:
            return ("records", "detector %s: missing %s, surplus %s" % (d, missing[:2], surplus[:2]))
    if "sched" not in case and not open_ and want:
        # one thread: the records stand in the order of the arrivals
        with W.quiet(), W.bounded():
            st3 = type(st)()
            st3.begin()
            w2, _ = engine.run_ops(sc, inorder, st3)
        for d in want:
            if d in w.optics and d in w2.optics:
                a, b = W.hits(w.optics[d]), W.hits(w2.optics[d])
                if len(a) == len(b) and any(match_records([x], [y], S)[0] for x, y in zip(a, b)):
                    return ("records", "detector %s: the records %s stand in another order than without the "
                                       "drawing" % (d, [x for x, y in zip(a, b) if x != y][:2]))
    return None
