"""C22: library helpers depend on their arguments only, at every moment."""
import copy
import math
import random

import numpy as np

from .. import engine, sched
from .. import world as W
from ..vec import rnd_dir, mul
from ._threads import gen_sched

ID = "C22"
LEVEL = "exploration"
COUNT = {"quick": 7000, "thorough": 200000}
RULE = ("a run is a seeded history of calls of the geometry, formatting, conversion, tree and shape helpers: with arguments "
        "used before, differing slightly from ones used before, or passed in arrays that the caller changes in place between "
        "calls; results are changed in place by the caller or kept and looked at again at the end; calls are aborted at "
        "seeded lines; in a third of the runs the calls are spread over 2-4 simulated threads; each answer is compared "
        "with the same call alone in a fresh load of the code; non-trivial when at least four calls of one function were "
        "made with at least two different arguments; distinct by the sequence of functions, reuse and thread switches")
MEASURE = "sequence of functions, argument reuse, edits, aborts and thread switches"
REAL = ["general_optics.py (helpers, image_rays, BinaryTree)", "general.py (formatting, conversion, interpolation)",
        "Shapes/shapes.py (construction)", "numpy, scipy", "threading (real threads, run one at a time)"]
STUB = ["thread scheduler", "stdout", "clock, random generators, object addresses"]
ASSUMES = ["helpers that cannot run with the installed numpy (savitzky_golay, FD_int_num for |eta| <= 20) and those that "
           "only show windows are left out"]


def lists(case):
    r = [["ops"]] if "ops" in case else [["threads"]] + [["threads", i] for i in range(len(case["threads"]))]
    if case.get("sched", {}).get("k") == "replay":
        r.append(["sched", "sw"])
    return r


def simplify(case):
    for k in ("ops", "threads"):
        if k == "ops" and k in case:
            for i, op in enumerate(case[k]):
                if op[0] == "call" and op[3]:
                    c = copy.deepcopy(case)
                    c[k][i][3] = 0
                    yield c


# -- the calls ------------------------------------------------------------------------------------------------------
# an argument is a number, a string, None, {"a": [...]} (an array), {"t": [...]} (a tuple), {"l": [...]} (a list),
# {"s": k} (the caller's k-th array, which it may change in place), {"T": tree} (a tree of strings)

def vec(rng):
    x = rng.random()
    if x < 0.15:
        return list(rng.choice([(1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (-1., 0., 0.), (0., 0., -1.), (1., 1., 0.)]))
    return [float(v) for v in mul(rnd_dir(rng), 10.0 ** rng.uniform(-2, 3) if x < 0.6 else 1.0)]


def V(rng):
    return {rng.choice("aaatl"): vec(rng)}


def A(rng):
    return {"a": vec(rng)}


def num(rng):
    x = rng.random()
    return rng.choice([-1, 1]) * 10.0 ** rng.uniform(-8, 8) if x < 0.6 else rng.choice([0.0, 1, -1, 10, 0.1, 99.9995, 1e5, 0.5])


def stree(rng, n):
    if n == 0:
        return rng.choice("ABCDEFG")
    k = rng.randrange(n)
    return [rng.choice(["union", "intersect", "difference"]), stree(rng, k), stree(rng, n - 1 - k)]


def data(rng, lo=1, hi=12, pos=False):
    n = rng.randint(lo, hi)
    return {"a": [(10.0 ** rng.uniform(-2, 3)) if pos else rng.uniform(-50, 50) for _ in range(n)]}


def xy(rng):
    n = rng.randint(2, 8)
    x = sorted({round(10.0 ** rng.uniform(-2, 3), 6) for _ in range(n)} | {0.001, 2000.0})
    return [{"a": x}, {"a": [10.0 ** rng.uniform(-3, 3) for _ in x]}]


GEN = {
    "o.unit_vector": lambda r: [A(r)],
    "o.angle_between": lambda r: [V(r), V(r)] + ([A(r)] if r.random() < 0.6 else []),
    "o.distance_between": lambda r: [A(r), A(r)],
    "o.rotation_matrix_axis_angle": lambda r: [V(r), r.uniform(-7, 7)],
    "o.rotation_matrix2": lambda r: [A(r), A(r)],
    "o.rotation_matrix4": lambda r: [A(r), A(r)],
    "o.rotation_matrix": lambda r: [A(r), A(r)],
    "o.scaling_matrix4": lambda r: [V(r)],
    "o.translation_matrix4": lambda r: [V(r)],
    "o.project_onto_plane": lambda r: [V(r), A(r)],
    "o.image_rays": lambda r: [r.uniform(-50, 50), r.choice([10, r.uniform(1, 30)]), r.uniform(0, 0.5), r.choice([1, 2, 3, 4, 0]),
                               r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.choice(["circle", "circle", "other"]), r.uniform(1, 9)],
    "patch": lambda r: [r.uniform(0.5, 5), r.choice([A(r), "x", "y", "z"]), r.uniform(-3, 3), A(r)],
    "postorder": lambda r: [{"T": stree(r, r.randint(0, 6))}],
    "g.to_precision": lambda r: [num(r), r.choice([1, 2, 3, 5, 9, 9, 12])],
    "g.wavelength_to_rgb": lambda r: [r.choice([r.uniform(300, 800), r.randint(370, 760)])] + ([r.uniform(0.5, 1)] if r.random() < 0.3 else []),
    "g.wavelength_nm_to_energy_eV": lambda r: [r.choice([r.uniform(1, 2000), data(r, pos=True)])],
    "g.energy_eV_to_wavelength_nm": lambda r: [r.choice([r.uniform(0.1, 100), data(r, pos=True)])],
    "g.FD_int_approx": lambda r: [r.choice([r.uniform(-6, 12), r.uniform(10, 2e5)]), r.choice([0.5, 0.5, 0.5, 1.5])],
    "g.FD_int_num": lambda r: [r.choice([-1, 1]) * r.uniform(20.1, 60), r.choice([-0.5, 0.5, 1.5]), 1e-12, 600, r.choice(["roman", "script"])],
    "g.get_nQ": lambda r: [r.uniform(0.1, 100)],
    "g.sackurTetrode": lambda r: [10 ** r.uniform(10, 20), 9.1e-28, r.uniform(1, 10), r.uniform(0.1, 10)],
    "g.log_interp1d": lambda r: xy(r),
    "g.prism10widetextarray": lambda r: [data(r, 0, 25), 2, 1, r.choice([0, 3]), r.choice(["10.4f", ".3e"])],
    "g.nparray2spacedstring": lambda r: [data(r, 1, 25), r.choice([" ", "  ", ""]), r.choice(["10.4f", ".3e"]), " ", r.choice([40, 80])],
    "g.find_nearest": lambda r: [data(r, 1, 20), r.uniform(-60, 60)],
    "g.movingAverageFast": lambda r: [data(r, 1, 20), r.choice([1, 2, 3, 5, 8, 30])],
    "s.Plane": lambda r: [A(r), A(r)],
    "s.Circle": lambda r: [A(r), A(r)] + dims(r),
    "s.InfiniteCylinder": lambda r: [A(r), A(r)] + dims(r),
    "s.Sphere": lambda r: [A(r)] + dims(r),
    "s.Rectangle": lambda r: [A(r)] + frame(r) + [r.uniform(1, 9), r.choice([r.uniform(1, 9), r.uniform(1, 9), None])],
}
NAMES = sorted(GEN)


def dims(r):
    x = r.uniform(0.1, 50)
    return r.choice([[x], [None, x], [x, 2 * x], [x, x], [None, None]])


def frame(r):
    from ..vec import perp, unit
    n = vec(r)
    t = list(unit(perp(n))) if r.random() < 0.9 else vec(r)
    return [{"a": n}, {"a": [float(x) for x in t]}]


def vary(rng, args):
    """Arguments that differ in one number only, by much or by little."""
    args = copy.deepcopy(args)
    spots = []
    for i, a in enumerate(args):
        if isinstance(a, float):
            spots.append((args, i))
        elif isinstance(a, dict) and "T" not in a and "s" not in a:
            v = next(iter(a.values()))
            spots += [(v, j) for j in range(len(v)) if v[j]]
    if spots:
        c, j = rng.choice(spots)
        c[j] *= 1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-10, 0)
    return args


def gen(rng, tier):
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 5]))
    pool = {n: [GEN[n](rng)] for n in names}
    slots = [vec(rng) for _ in range(3)]

    def call(slotted):
        n = rng.choice(names)
        x = rng.random()
        if x < 0.35:
            args = copy.deepcopy(rng.choice(pool[n]))
        elif x < 0.6:
            args = vary(rng, rng.choice(pool[n]))
        else:
            args = GEN[n](rng)
        pool[n].append(args)
        args = copy.deepcopy(args)
        if slotted:
            for i, a in enumerate(args):
                if isinstance(a, dict) and "T" not in a and len(next(iter(a.values()))) == 3 and rng.random() < 0.4:
                    args[i] = {"s": rng.randrange(3)}
        return n, args
    if rng.random() < 0.33:
        th = [[["call", *call(False), rng.choice([0, 0, 1])] for _ in range(rng.randint(2, 7))] for _ in range(rng.choice([2, 2, 3, 4]))]
        return {"threads": th, "gran": rng.choice(["line", "op"]), "sched": gen_sched(rng, 800)}
    ops = []
    for _ in range(rng.randint(4, 26)):
        ops.append(["call", *call(True), rng.choice([0, 0, 0, 1])])
        x = rng.random()
        if x < 0.15:
            ops.append(["edit", rng.randrange(3), rng.randrange(3), rng.choice([rng.uniform(-5, 5), 1.0])])
        elif x < 0.25:
            ops.append(["eval", 10.0 ** rng.uniform(-2, 3)])
        elif x < 0.35:
            ops.append(["abort", *call(True), int(2 ** rng.uniform(0, 6)), rng.choice(["KeyboardInterrupt", "MemoryError", "ValueError"])])
    return {"ops": ops, "slots": slots}


# -- running them ---------------------------------------------------------------------------------------------------
def make(spec, slots):
    if not isinstance(spec, dict):
        return spec
    k, v = next(iter(spec.items()))
    if k == "a":
        return np.array(v, dtype=float)
    if k == "t":
        return tuple(v)
    if k == "l":
        return list(v)
    if k == "s":
        return slots[v]
    return v


def function(U, name):
    if name == "postorder":
        BT = U.general_optics.BinaryTree

        def build(t):
            if isinstance(t, str):
                return BT(t)
            n = BT(t[0])
            for sub, ins, child in ((t[1], n.insertLeft, n.getLeftChild), (t[2], n.insertRight, n.getRightChild)):
                ins("?")
                c = child()
                fill(c, sub)
            return n

        def fill(n, t):
            if isinstance(t, str):
                n.setRootVal(t)
                return
            n.setRootVal(t[0])
            n.insertLeft("?")
            fill(n.getLeftChild(), t[1])
            n.insertRight("?")
            fill(n.getRightChild(), t[2])
        return lambda t: U.general_optics.postOrderEval(build(t))
    if name == "patch":
        def patch(r, normal, z, delta):
            from matplotlib.patches import Circle
            p = Circle((0.5, 1.0), r)
            U.general_optics.pathpatch_2d_to_3d(p, z=z, normal=normal)
            U.general_optics.pathpatch_translate(p, delta)
            return p._segment3d
        return patch
    mod = {"o": U.general_optics, "g": U.general, "s": U.shapes}[name[0]]
    return getattr(mod, name[2:])


def norm_result(x, depth=0):
    if isinstance(x, np.ndarray):
        return ("array", x.shape, [norm_result(v) for v in x.tolist()] if x.dtype == object else x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return norm_result(x.item())
    if isinstance(x, (tuple, list)):
        return (type(x).__name__, [norm_result(v, depth + 1) for v in x])
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if callable(x):
        return ("function", [norm_result(x(z)) for z in (0.01, 0.5, 3.0, 700.0)])
    if depth < 3 and hasattr(x, "__dict__"):
        return (type(x).__name__, sorted((k, norm_result(v, depth + 1)) for k, v in vars(x).items() if not k.startswith("_")))
    return repr(type(x))


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return a == b and type(a) is type(b)


def attempt(f, args):
    try:
        return f(*args), None
    except Exception as e:
        return None, (type(e).__name__, str(e))


def alone(name, args):
    """The same call, the only one in a fresh load of the code."""
    with W.quiet(), W.bounded():
        U = W.Universe()
        W.activate(U)
        v, e = attempt(function(U, name), args)
        return ("raised",) + e if e else norm_result(v)


def scribble(v):
    """The caller changes what it was given, in place."""
    done = False
    for x in v if isinstance(v, (tuple, list)) else [v]:
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype == float:
            x[...] = -7.25
            done = True
        elif isinstance(x, list):
            done = True
            for y in x:
                if isinstance(y, np.ndarray) and y.dtype == float and y.flags.writeable:
                    y[...] = -7.25
            x.append(-7.25)
    if hasattr(v, "__dict__") and not callable(v):
        for k, x in list(vars(v).items()):
            if isinstance(x, np.ndarray) and x.dtype == float:
                setattr(v, k, x + 3.0)
    return done


def key(args):
    return [norm_result(a) for a in args]


def run(case, st):
    err = np.geterr()
    if "threads" in case:
        r = threaded(case, st)
    else:
        r = history(case, st)
    if np.geterr() != err:
        np.seterr(**err)
        return r or ("global", "numpy's error handling was changed")
    return r


def check(record, st):
    """record: [where, name, arguments (copies), result] -> violation or None"""
    cache = {}
    for where, name, args, got in record:
        k = repr((name, key(args)))
        if k not in cache:
            cache[k] = alone(name, args)
        st.c["call:" + name] += 1
        if not same(got, cache[k]):
            return ("differs", "call %s, %s%s gave %s instead of %s" % (where, name, short(key(args)), short(got), short(cache[k])))
    return None


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def finish(record, st, sig):
    st.shapes.add(hash(sig))
    by = {}
    for _, name, args, got in record:
        by.setdefault(name, []).append(repr(key(args)))
    st.note([r[3] for r in record])
    if any(len(v) >= 4 and len(set(v)) >= 2 for v in by.values()):
        st.nontrivial.add(hash(sig))
        if len(st.samples) < 2:
            st.samples.append("calls %s" % {k: "%d with %d different arguments" % (len(v), len(set(v))) for k, v in by.items()})


def history(case, st):
    record, kept, funcs, sig = [], [], [], []
    rnd = np.random.get_state()[1].tobytes()
    with W.quiet(), W.bounded():
        U = W.Universe()
        W.activate(U)
        slots = [np.array(v, dtype=float) for v in case["slots"]]
        for i, op in enumerate(case["ops"]):
            if op[0] == "edit":
                slots[op[1]][op[2]] = op[3]
                if not slots[op[1]].any():
                    slots[op[1]][0] = 1.0
                sig.append("edit")
                st.c["arrays changed in place"] += 1
                continue
            if op[0] == "eval":
                for j, f, xs, ys in funcs:
                    z = min(max(op[1], xs[0]), xs[-1])
                    record.append(("%d, evaluated at operation %d" % (j, i), "eval", [xs, ys, z], norm_result(f(z))))
                sig.append("eval")
                continue
            name, spec = op[1], op[2]
            args = [make(a, slots) for a in spec]
            before = copy.deepcopy(args)
            f = function(U, name)
            if op[0] == "abort":
                sim = sched.trace_single(lambda: f(*args), {op[3]: engine.EXC[op[4]]})
                if sim.tasks[0].fired:
                    st.faults["abort:" + op[4]] += 1
                sig.append("abort")
            else:
                v, e = attempt(f, args)
                got = ("raised",) + e if e else norm_result(v)
                st.steps += 1
                sig.append((name, repr(spec) in [repr(o[2]) for o in case["ops"][:i] if o[0] == "call"]))
                record.append((str(i), name, before, got))
            if not same(key(args), key(before)):
                return ("input", "operation %d: %s modified its arguments: %s became %s" % (i, name, short(key(before)), short(key(args))))
            if op[0] == "call" and e is None:
                if name == "g.log_interp1d":
                    funcs.append((i, v, before[0].tolist(), before[1].tolist()))
                if op[3]:
                    st.c["results changed in place"] += bool(scribble(v))
                elif not any(isinstance(a, dict) and "s" in a for a in spec):
                    kept.append((i, name, v, got))
        for i, name, v, got in kept:
            now = norm_result(v)
            if not same(now, got):
                return ("changed", "the result of operation %d, %s, later became %s instead of %s" % (i, name, short(now), short(got)))
    if np.random.get_state()[1].tobytes() != rnd:
        return ("global", "the random stream was used")
    evals = [r for r in record if r[1] == "eval"]
    record = [r for r in record if r[1] != "eval"]
    v = check(record, st)
    if v:
        return v
    for where, _, (xs, ys, z), got in evals:
        with W.quiet(), W.bounded():
            U = W.Universe()
            want = norm_result(U.general.log_interp1d(np.array(xs), np.array(ys))(z))
        st.c["interpolants evaluated later"] += 1
        if not same(got, want):
            return ("differs", "interpolant %s: %s at %g instead of %s" % (where, short(got), z, short(want)))
    finish(record, st, tuple(sig))
    return None


def threaded(case, st):
    record, kept, bad = [], [], []
    with W.quiet(), W.bounded():
        U = W.Universe()
        W.activate(U)

        def work(plan, ti):
            for i, op in enumerate(plan):
                args = [make(a, ()) for a in op[2]]
                before = copy.deepcopy(args)
                v, e = attempt(function(U, op[1]), args)
                got = ("raised",) + e if e else norm_result(v)
                record.append(("%d of thread %d" % (i, ti), op[1], before, got))
                if not same(key(args), key(before)):
                    bad.append(("input", "call %d of thread %d: %s modified its arguments" % (i, ti, op[1])))
                if e is None:
                    if op[3]:
                        scribble(v)
                    else:
                        kept.append((i, ti, op[1], v, got))
        sim = sched.Sim([lambda t=t, i=i: work(t, i) for i, t in enumerate(case["threads"])],
                        sched.make_chooser(case["sched"], random.Random), gran=case.get("gran", "line"))
        sim.run()
        again = [(i, ti, name, norm_result(v), got) for i, ti, name, v, got in kept]
    st.recorded = {"sched": sim.recorded()}
    st.steps += sim.n
    st.c["thread switches"] += sim.nswitch
    st.c["threaded runs"] += 1
    if sim.deadlock or sim.limit:
        return ("hang", "the calls do not end")
    for t in sim.tasks:
        if t.result[0] == "exc":
            return ("hang" if isinstance(t.result[1], W.SimLimit) else "raise", "a call raised %r" % (t.result[1],))
    if bad:
        return bad[0]
    for i, ti, name, now, got in again:
        if not same(now, got):
            return ("changed", "the result of call %d of thread %d, %s, later became %s instead of %s" % (i, ti, name, short(now), short(got)))
    v = check(record, st)
    if v:
        return v
    finish(record, st, (tuple(tuple(op[1] for op in t) for t in case["threads"]), sim.shape))
    return None
