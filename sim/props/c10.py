"""C10: every trace history refines the optical model of its scene."""
from .. import engine, scenes
from .. import world as W
from . import _ops

ID = "C10"
LEVEL = "exploration"
COUNT = {"quick": 14000, "thorough": 250000}
RULE = ("a run is a seeded scene (styles cloud, cavity, bench, balls, planar, lattice) and a seeded history of 2-24 "
        "operations (runs of several rays, re-listings, checkpoints, restarts, aborted traces, drawings, probes); it is "
        "non-trivial when the reference model decided at least two interactions of it; distinct by style, kinds of "
        "optics, sequence of operations and path lengths")
MEASURE = "style, kinds of optics, sequence of operations, interactions per run"
REAL = engine.REAL_TRACE + ["pickle, copy (checkpoints)", "matplotlib (a small share of the drawings)"]
STUB = ["matplotlib axes in most drawings", "stdout", "clock, random generators, object addresses"]
ASSUMES = ["steps within about 1e-6 of an aperture edge, the critical angle or a second surface, or 1e-4 of a tangent, are not judged",
           "gratings are judged for rays in their dispersion plane only; concave mirrors on their concave side",
           "bodies are trees of a few booleans over spheres and cylinders that do not overlap one another"]

lists, simplify = _ops.lists, _ops.simplify


def gen(rng, tier):
    sc = scenes.gen_scene(rng)
    S = sc["S"]
    rids = [r["id"] for r in sc["rays"]]
    mix = {k: rng.choice([0, 0, 1, 2]) for k in ("order", "ckpt", "abort", "passive", "probes", "stray", "list", "index")}
    ops = []
    for _ in range(rng.randint(1, 12)):
        ops.append(["leg", rng.choice(rids), engine.gen_D(rng, S), engine.gen_I(rng)])
        for k, m in mix.items():
            if rng.random() < 0.12 * m:
                ops.append(_ops.noise(rng, sc, k))
    engine.far_legs(rng, ops, S, 1)
    engine.endless(rng, ops, sc)
    for r in rids:
        ops.append(["leg", r, S * rng.uniform(2, 8), rng.choice([None, 30])])
    return {"scene": sc, "ops": ops}


def run(case, st):
    sc = case["scene"]
    with W.quiet(), W.bounded():
        w, h = engine.run_ops(sc, case["ops"], st)
    d0 = sum(v for k, v in st.c.items() if k.startswith("law:"))
    v = _ops.judge_history(sc, h, st)
    if v is None:
        v = _ops.judge_indices(sc, h, st)
    d1 = sum(v for k, v in st.c.items() if k.startswith("law:"))
    _ops.finish(st, sc, case["ops"], h, d1 - d0 >= 2)
    return v
