"""C05: a ray always meets the nearest surface ahead, in any optic order."""
from .. import engine, scenes, judge, ref
from .. import world as W
from ..compare import close
from ..vec import finite, sub, dot, norm, mul, unit, dist
from . import _ops

ID = "C05"
LEVEL = "exploration"
COUNT = {"quick": 9000, "thorough": 160000}
RULE = ("a run is a seeded scene and a seeded history of runs of several rays with re-listings of the optics between "
        "them (in a new list or in place, sometimes with optics taken out and put back; and checkpoints, restarts, aborted traces of other rays), in which every stretch is judged against an independent nearest-surface search, and every ray is traced "
        "again alone, in a fresh load of the code, with the optics listed in another order and a random part of the "
        "optics it never reached left out or inert ones added; non-trivial when a ray met at least two surfaces; "
        "distinct by style, kinds of optics, sequence of operations and path lengths")
MEASURE = "style, kinds of optics, sequence of operations, interactions per run"
REAL = engine.REAL_TRACE
STUB = ["stdout", "clock, random generators, object addresses"]
ASSUMES = ["steps within about 1e-6 of an aperture edge or a second surface, or 1e-4 of a tangent, are not judged against the model",
           "bodies are trees of a few booleans over spheres and cylinders; bodies do not overlap one another"]

lists = _ops.lists


def simplify(case):
    yield from _ops.simplify(case)
    for k in ("order2", "drop"):
        if case[k]:
            yield dict(case, **{k: []})
    if case["extra"]:
        yield dict(case, extra=[])


def gen(rng, tier):
    styles = ["cloud", "cloud", "cavity", "bench", "balls", "planar", "lattice", "lattice"]
    sc = scenes.gen_scene(rng, styles, nopt=rng.choice([1, 2, 3, 4, 6, 8, 12]), twin=0)
    S = sc["S"]
    rids = [r["id"] for r in sc["rays"]]
    ops = []
    po = rng.choice([0, 0.2, 0.7])
    pn = rng.choice([0, 0.1, 0.4])
    what = rng.choice(["order", "order", "some"])
    for _ in range(rng.randint(1, 8)):
        ops.append(["leg", rng.choice(rids), engine.gen_D(rng, S), engine.gen_I(rng)])
        if rng.random() < po:
            ops.append(_ops.noise(rng, sc, what))
        if rng.random() < pn:
            ops.append(_ops.noise(rng, sc, rng.choice(["list", "ckpt", "abort", "probes", "stray", "passive"])))
    engine.far_legs(rng, ops, S)
    engine.endless(rng, ops, sc)
    for r in rids:
        ops.append(["leg", r, S * rng.uniform(2, 8), rng.choice([None, 30])])
    extra = []
    for i in range(rng.choice([0, 0, 1, 2])):
        extra.append({"id": "x%d" % i, "k": rng.choice(["an", "fi", "wi"]),
                      "c": [S * rng.uniform(-1, 1) for _ in range(3)], "n": [0.0, 0.6, 0.8]})
    return {"scene": sc, "ops": ops, "order2": engine.order_of(rng, sc) if rng.random() < 0.8 else [],
            "drop": [o["id"] for o in sc["optics"] if rng.random() < rng.choice([0.0, 0.5, 1.0])], "extra": extra}


def touches(o, q, S):
    """Does q lie on a surface that optic o may have?  Generous."""
    e = 1e-5 * S
    k = o["k"]
    if k in ref.INERT:
        return False
    if k in ("lb", "mcv"):
        return abs(dist(q, o["c"]) - o["D"] / 2) < e
    if k == "mcc":
        R = 2 * o["f"]
        return abs(dist(q, tuple(c + R * x for c, x in zip(o["c"], unit(o["n"])))) - R) < e
    if k == "cp":
        return leaf_touch(o["tree"], q, e)
    return abs(dot(sub(q, o["c"]), unit(o["n"]))) < e


def leaf_touch(t, q, e):
    if "s" in t:
        return abs(dist(q, t["s"][0]) - t["s"][1]) < e
    if "y" in t:
        c, a, R = t["y"]
        a = unit(a)
        v = sub(q, c)
        return abs(norm(sub(v, mul(a, dot(v, a)))) - R) < e
    return leaf_touch(t["a"], q, e) or leaf_touch(t["b"], q, e)


def run(case, st):
    sc = case["scene"]
    S = sc["S"]
    with W.quiet(), W.bounded():
        w, h = engine.run_ops(sc, case["ops"], st)
    u0 = st.c["undecided"]
    d0 = sum(v for k, v in st.c.items() if k.startswith("hit:"))
    v = _ops.judge_history(sc, h, st, ignore=("law",),
                           kinds=("skip", "phantom", "self", "point", "nonfinite", "raise", "hang", "budget"))
    met = sum(v for k, v in st.c.items() if k.startswith("hit:")) - d0
    _ops.finish(st, sc, case["ops"], h, met >= 2)
    if v is not None:
        return v
    if sc["style"] == "lattice" and st.c["undecided"] > u0:
        st.c["ties: order not compared"] += 1
        return None
    if any(op[0] == "order" and op[2:] == ["some"] for op in case["ops"]):
        st.c["optics come and go: order not compared"] += 1
        return None
    bad = _ops.tainted(h)
    for rid in sorted({g.rid for g in h.legs} - set(bad)):
        legs = [g for g in h.legs if g.rid == rid]
        last = legs[-1].after
        pts = last["path"]
        if not all(finite(q) for q in pts):
            continue
        keep = [o["id"] for o in sc["optics"]
                if o["id"] not in case["drop"] or any(touches(o, q, S) for q in pts[1:])]
        sc2 = dict(sc, optics=sc["optics"] + case["extra"])
        order = [i for i in case["order2"] if i in keep] + [i for i in keep if i not in case["order2"]]
        order = [e["id"] for e in case["extra"][:1]] + order + [e["id"] for e in case["extra"][1:]]
        plan = [(g.D, g.I) for g in legs]
        try:
            got = W.solo(sc2, rid, None, order=order, optics=set(order), legs=plan)
        except Exception as e:
            return ("raise", "%s raised %r with the optics listed as %s" % (rid, e, order))
        except W.SimLimit:
            return ("hang", "%s does not end with the optics listed as %s" % (rid, order))
        st.c["order comparisons"] += 1
        if len(keep) < len(sc["optics"]):
            st.c["comparisons with unreached optics left out"] += 1

        def shadow(nudge):
            return W.solo(sc, rid, None, legs=plan, nudge=nudge)
        r = close(got, last, shadow, S)
        if not r.decided:
            st.c["comparison undecided"] += 1
        if not r.ok:
            return ("order", "%s listed as %s: %s" % (rid, order, r.what))
    return None
