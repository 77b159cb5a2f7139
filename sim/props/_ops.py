"""Shared parts of the properties decided on single-threaded operation histories."""
import math
from .. import engine, judge, ref, scenes
from .. import world as W
from ..sched import SimLimit, SimDeadlock
from ..compare import fmt
from ..vec import finite


def lists(case):
    return [["ops"], ["scene", "rays"], ["scene", "optics"]]


def simplify(case):
    """Simpler variants of a failing case."""
    import copy
    for i, op in enumerate(case["ops"]):
        if op[0] == "leg":
            for v in ([op[1], 1], ):
                pass
            if len(op) > 4:
                c = copy.deepcopy(case)
                c["ops"][i] = op[:4]
                yield c
            if op[3] is None or op[3] > 3:
                for I in (1, 2, 3, 5, 10):
                    if op[3] is None or I < op[3]:
                        c = copy.deepcopy(case)
                        c["ops"][i][3] = I
                        yield c
            if isinstance(op[2], float) and math.isfinite(op[2]):
                v = float("%.3g" % op[2])
                if v != op[2]:
                    c = copy.deepcopy(case)
                    c["ops"][i][2] = v
                    yield c
        if op[0] == "abort" and op[4] > 1:
            c = copy.deepcopy(case)
            c["ops"][i][4] //= 2
            yield c
    for k in ("p", "d"):
        for i, r in enumerate(case["scene"]["rays"]):
            v = [float("%.3g" % x) for x in r[k]]
            if v != r[k]:
                c = copy.deepcopy(case)
                c["scene"]["rays"][i][k] = v
                yield c


def finish(st, scene, ops, h, nontrivial):
    st.c["legs"] += len(h.legs)
    st.c["style:" + scene["style"]] += 1
    sig = (scene["style"], tuple(sorted(o["k"] for o in scene["optics"])),
           tuple((op[0], op[1] if op[0] in ("ckpt", "list") else "") for op in ops),
           tuple(len(g.after["path"]) for g in h.legs))
    st.shapes.add(hash(sig))
    if nontrivial:
        st.nontrivial.add(hash(sig))
    if len(st.samples) < 2 and nontrivial:
        st.samples.append("scene %s (%s), %d rays; operations %s; path lengths %s" %
                          (scene["style"], ",".join(o["k"] for o in scene["optics"]), len(scene["rays"]),
                           " ".join("%s%s" % (op[0], ":" + str(op[1]) if op[0] in ("leg", "ckpt", "abort", "list") else "")
                                    for op in ops[:14]), [len(g.after["path"]) for g in h.legs][:10]))


def tainted(h):
    """ray -> index of the first aborted run that fired."""
    t = {}
    for a in h.aborts:
        if a["fired"]:
            t.setdefault(a["rid"], a["index"])
    return t


def judge_history(scene, h, st, ignore=(), kinds=None):
    """Judge every leg of every ray that was not aborted; -> (kind, text) or None."""
    S = scene["S"]
    opt = {o["id"]: o for o in judge.prepare(scene["optics"], S)}
    rd = {r["id"]: r for r in scene["rays"]}
    bad = tainted(h)
    for g in h.legs:
        if g.rid in bad and bad[g.rid] < g.index:
            continue
        if g.exc is not None:
            if isinstance(g.exc, (SimLimit, SimDeadlock)):
                return ("hang", "Ray.run of %s does not terminate" % g.rid)
            return ("raise", "Ray.run of %s raised %s: %s" % (g.rid, type(g.exc).__name__, g.exc))
        if not (finite(g.before["pos"]) and finite(g.before["dir"])):
            continue
        n = len(g.before["path"])
        f = judge.judge_leg([opt[i] for i in g.order if i in opt], rd[g.rid], g.before["pos"], g.before["dir"],
                            g.after["path"][n:], g.D, g.I, g.after["dir"], g.after["blocked"], S, st.c,
                            g.before["blocked"], ignore)
        if f is not None and (kinds is None or f.kind in kinds):
            return (f.kind, "%s, run %d: %r" % (g.rid, g.index, f))
    return None


def judge_indices(scene, h, st):
    """Every answer to an index query against the body the point lies in."""
    opt = {o["id"]: o for o in scene["optics"]}
    for k, p, order, x in h.indices:
        if not finite(p):
            continue
        try:
            want = ref.medium([opt[i] for i in order if i in opt], p, 1e-7 * max(1.0, scene["S"], max(map(abs, p))))
        except ref.Ill:
            st.c["undecided-index"] += 1
            continue
        st.c["law:index " + ("world" if want == 1.0 else "body")] += 1
        if not isinstance(x, (int, float)) or abs(float(x) - want) > 1e-9:
            return ("index", "operation %s: the index at %s is reported as %r instead of %g" % (k, fmt(p), x, want))
    return None


def noise(rng, sc, k):
    S = sc["S"]
    if k == "order":
        return ["order", engine.order_of(rng, sc), rng.choice(["new", "same"])]
    if k == "some":
        ids = engine.order_of(rng, sc)
        return ["order", ids[:max(1, len(ids) - rng.choice([0, 1, 1, len(ids) // 2]))], rng.choice(["some", "some", "same"])]
    if k == "ckpt":
        return ["ckpt", rng.choice(["deepcopy", "pickle", "separate", "restart", "copyrays", "fork", "fork-pickle", "overtaken"])]
    if k == "abort":
        return engine.abort_op(rng, sc, rng.choice(sc["rays"])["id"], S * rng.uniform(1, 6))
    if k == "index":
        return ["index", ["at", rng.choice(sc["rays"])["id"],
                          rng.choice([0.0, 1.0, 1.0, 1.0, -1.0]) * S * 10.0 ** rng.uniform(-5, 0)]]
    if k == "passive":
        return engine.passive_op(rng, sc, real=0.003)
    if k == "probes":
        return ["probes", rng.randint(1, 4), S * rng.uniform(0.1, 2), [S * rng.uniform(-.5, .5) for _ in range(3)], 4 * S]
    if k == "stray":
        return ["stray", [S * rng.uniform(-1, 1) for _ in range(3)], [rng.uniform(-1, 1) for _ in range(2)] + [0.3], 3 * S]
    return ["list", rng.choice(["same", "fresh", "tuple", "twice"])]
