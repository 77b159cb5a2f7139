"""C09: scene probes are well formed for every random stream and stay inert."""
import math
import random

import numpy as np

from .. import engine, scenes, judge, sched
from .. import world as W
from ..compare import close, match_records, fmt
from ..vec import dist, norm, unit, sub, dot, finite
from . import _ops

ID = "C09"
LEVEL = "exploration"
COUNT = {"quick": 9000, "thorough": 150000}
RULE = ("a run is a seeded program that adds probes to lists (with and without rays in them, repeatedly, on one or two "
        "simulated threads) while the random stream is a simulated one: seeded numbers into which null, nearly null, equal "
        "and single-axis triples are dealt at seeded places, in single or whole-array draws, and which may fail at a seeded "
        "draw; or the real generator, reseeded, for reproduction and evenness; the probes are then traced in seeded scenes "
        "between pieces of other rays; non-trivial when a degenerate triple, a failure or a traced probe that met a surface "
        "occurred, or evenness was decided on at least 600 probes; distinct by program, stream faults and hits")
MEASURE = "operations with the degenerate triples dealt and the hits of the traced probes"
REAL = engine.REAL_TRACE + ["add_faerie_fire_rays", "numpy.random (in reproduction and evenness runs)"]
STUB = ["numpy.random.normal/standard_normal/randn (simulated stream in the other runs)", "stdout", "clock, object addresses",
        "thread scheduler"]
ASSUMES = ["the stream delivers finite numbers and a non-null triple after finitely many draws",
           "evenness is decided by statistics with a false-alarm probability below 1e-9 per run on fixed seeds"]

lists = lambda case: [["ops"], ["salt"]] + ([["scene", "rays"], ["scene", "optics"]] if "scene" in case else [])
simplify = lambda case: iter(())


class Stream:
    """A simulated random stream behind numpy's normal generators."""

    def __init__(self, seed, salt, failat=None, exc="MemoryError"):
        self.rng = random.Random(seed)
        self.salt = {int(k): v for k, v in salt}        # position -> list of values dealt from there
        self.n = 0
        self.queue = []
        self.failat, self.exc = failat, exc
        self.raised = None
        self.dealt = 0

    def one(self):
        if self.failat is not None and self.n >= self.failat:
            self.failat = None
            self.raised = engine.EXC[self.exc]()
            raise self.raised
        v = self.salt.get(self.n)
        if v is not None:
            self.queue = list(v)
            self.dealt += 1
        self.n += 1
        if self.queue:
            return self.queue.pop(0)
        return self.rng.gauss(0, 1)

    def many(self, size):
        if size is None:
            return self.one()
        shape = (size,) if np.ndim(size) == 0 else tuple(int(x) for x in size)
        return np.array([self.one() for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        x = self.many(size)
        return loc + scale * x

    def standard_normal(self, size=None):
        return self.many(size)

    def randn(self, *shape):
        return self.many(shape or None)

    def install(self):
        self.saved = [(n, getattr(np.random, n)) for n in ("normal", "standard_normal", "randn")]
        for n, _ in self.saved:
            setattr(np.random, n, getattr(self, n))

    def remove(self):
        for n, f in self.saved:
            setattr(np.random, n, f)


def gen_salt(rng, n):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
        at = rng.randrange(0, max(1, 3 * n))
        if rng.random() < 0.7:
            at -= at % 3
        kind = rng.random()
        k = rng.choice([3, 3, 3, 6, 9, 1, 2, 4, 30])
        if kind < 0.4:
            v = [rng.choice([0.0, 0.0, -0.0])] * k
        elif kind < 0.6:
            v = [rng.choice([1, -1]) * 10.0 ** rng.uniform(-320, -6) for _ in range(k)]
        elif kind < 0.7:
            v = [10.0 ** rng.uniform(-7, -5) for _ in range(k)]
        elif kind < 0.8:
            v = [rng.choice([1e-9, 0.0]), rng.choice([1e-9, 0.0]), rng.choice([1.0, -1.0, 1e-5, 5.0])]
        elif kind < 0.9:
            v = [rng.choice([1.0, -1.0, 5e-7, 8.0])] * k
        else:
            v = [rng.uniform(-9, 9) for _ in range(k)]
        out.append([at, v])
    return out


def gen(rng, tier):
    case = {"mode": rng.choice(["stream", "stream", "stream", "reseed", "even", "scene", "scene", "threads"]), "salt": [],
            "stream": rng.getrandbits(32)}
    S = rng.choice([1.0, 10.0, 100.0, 3000.0])

    def many():
        if rng.random() < 0.006:
            return rng.choice([64, 100, 101, 128, 255, 256, 257, 300, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 1500, 2050])
        return rng.choice([0, 1, 1, 2, 3, 5, 8, 20])

    def add(n=None):
        c = [rng.choice([0.0, S * rng.uniform(-1, 1), float(int(S * rng.uniform(-2, 2)))]) for _ in range(3)]
        return ["add", rng.randrange(2), many() if n is None else n,
                rng.choice([S, S * rng.uniform(.01, 3), int(S) + 1]), c, rng.choice(["float", "float", "int", "list"])]
    if case["mode"] == "even":
        case["ops"] = [["seed", rng.getrandbits(31)], add(rng.choice([600, 900, 1000, 1500]) if rng.random() < 0.98 else 40000)]
        return case
    ops = []
    for _ in range(rng.randint(1, 6)):
        x = rng.random()
        if x < 0.6 or not ops:
            ops.append(add())
        elif x < 0.8:
            ops.append(["ray", rng.randrange(2)])
        else:
            ops.append(["seed", rng.getrandbits(31)])
    if case["mode"] == "reseed":
        ops += [["seed", rng.getrandbits(31)], add(rng.randint(1, 12)), add(rng.randint(0, 5))]
    else:
        total = sum(op[2] for op in ops if op[0] == "add")
        case["salt"] = gen_salt(rng, total)
        if rng.random() < 0.2:
            case["fail"] = [rng.randrange(0, 3 * total + 3), rng.choice(["MemoryError", "KeyboardInterrupt", "RuntimeError"])]
    case["ops"] = ops
    if case["mode"] == "threads":
        from ._threads import gen_sched
        case["ops"] = [o for o in ops if o[0] == "add"]
        case["sched"] = gen_sched(rng, 1500)
        case.pop("fail", None)
    if case["mode"] == "scene":
        sc = scenes.gen_scene(rng)
        S = sc["S"]
        case["scene"] = sc
        rids = [r["id"] for r in sc["rays"]]
        ops = []
        for _ in range(rng.randint(2, 8)):
            x = rng.random()
            if x < 0.5:
                o = rng.choice(sc["optics"])
                ops.append(["probe", rng.randint(1, 6), S * rng.uniform(0.01, 2.5),
                            [a + S * rng.uniform(-.2, .2) for a in (o["c"] if rng.random() < 0.7 else (0., 0., 0.))],
                            S * rng.uniform(0.5, 8), rng.choice([None, None, 1, 3])])
            elif x < 0.6:
                ops.append(_ops.noise(rng, sc, rng.choice(["ckpt", "passive", "order"])))
            else:
                ops.append(["leg", rng.choice(rids), engine.gen_D(rng, S), rng.choice([1, 2, 5, 20])])
        for r in rids:
            ops.append(["leg", r, S * 4, 20])
        case["ops"] = ops
        case["salt"] = gen_salt(rng, 30)
    return case


def well_formed(r, R, c, what):
    p = np.asarray(r.position, dtype=float).ravel()
    d = np.asarray(r.direction, dtype=float).ravel()
    if p.shape != (3,) or d.shape != (3,) or not (np.all(np.isfinite(p)) and np.all(np.isfinite(d))):
        return "%s is at %s heading %s" % (what, p, d)
    v = p - np.asarray(c, dtype=float)
    eps = 1e-9 * R + 1e-13 * (norm(list(c)) + R)
    if abs(norm(list(v)) - R) > 10 * eps:
        return "%s starts %.12g from the centre instead of %.12g" % (what, norm(list(v)), R)
    if abs(norm(list(d)) - 1) > 1e-9:
        return "the direction of %s has length %.12g" % (what, norm(list(d)))
    if R > 0 and dist(list(d), list(-v / R)) > 1e-8 + 20 * eps / R:
        return "%s is not aimed at the centre: %s from %s" % (what, fmt(d), fmt(v))
    if len(r.point_history) != 1 or dist(list(r.point_history[0]), list(p)) != 0.0 or r.blocked:
        return "%s does not start with its launch point" % what
    return None


def center(c, kind):
    if kind == "int":
        return np.array([int(x) for x in c])
    if kind == "list":
        return [float(x) for x in c]
    return np.array([float(x) for x in c])


def run(case, st):
    st.c["mode:" + case["mode"]] += 1
    if case["mode"] == "scene":
        return run_scene(case, st)
    if case["mode"] == "even":
        return run_even(case, st)
    if case["mode"] == "threads":
        return run_threads(case, st)
    stream = None
    if case["mode"] == "stream":
        stream = Stream(case["stream"], case["salt"], *(case.get("fail") or ()))
    with W.quiet(), W.bounded():
        v, got = program(case, st, stream)
        if v is None and case["mode"] == "reseed":
            v2, again = program(case, st, None, tail=True)
            v = v2
            if v is None:
                a, b = [x for g in got[-2:] for x in g], [x for g in again[-2:] for x in g]
                if len(a) != len(b) or any(dist(x[0], y[0]) > 1e-12 * (1 + norm(x[0])) or dist(x[1], y[1]) > 1e-12
                                           for x, y in zip(a, b)):
                    v = ("reseed", "after reseeding, %s instead of %s" % (fmt(a[0][0]) if a else a, fmt(b[0][0]) if b else b))
    degenerate = stream is not None and (stream.dealt or stream.raised is not None)
    sig = (case["mode"], tuple((op[0],) + tuple(op[1:3]) for op in case["ops"]), repr(case["salt"])[:80], repr(case.get("fail")))
    st.shapes.add(hash(sig))
    if stream is not None:
        st.faults["degenerate triples dealt"] += stream.dealt
        st.faults["stream failed"] += stream.raised is not None
    if degenerate or case["mode"] == "reseed":
        st.nontrivial.add(hash(sig))
        if len(st.samples) < 1:
            st.samples.append("%s: %s; dealt %s" % (case["mode"], case["ops"][:4], case["salt"][:2]))
    return v


def program(case, st, stream, tail=False):
    """tail: only the last seed and the adds after it, in a fresh universe."""
    U = W.Universe()
    W.activate(U)
    ops = case["ops"]
    if tail:
        last = max([i for i, op in enumerate(ops) if op[0] == "seed"] or [0])
        ops = ops[last:]
    lists_ = [[], []]
    got = []
    keep = []
    if stream is not None:
        stream.install()
    try:
        for k, op in enumerate(ops):
            if op[0] == "seed":
                np.random.seed(op[1])
                continue
            if op[0] == "ray":
                lists_[op[1]].append(U.optics3d.Ray(np.array([1.0, 2.0, 3.0]), np.array([0.0, 0.0, 1.0])))
                continue
            _, which, n, R, c, ck = op
            L = lists_[which]
            before = list(L)
            state = [ray_state(r) for r in before]
            cc = center(c, ck)
            copy_ = list(cc) if ck == "list" else cc.copy()
            keep.append((cc, copy_))
            exc = None
            try:
                ret = U.optics3d.add_faerie_fire_rays(L, R, cc, N=n)
            except BaseException as e:
                if stream is None or e is not stream.raised:
                    if isinstance(e, W.SimLimit):
                        return ("hang", "adding probes does not end"), got
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
                    return ("raise", "adding %d probes raised %r" % (n, e)), got
                exc = e
            else:
                if stream is not None and stream.raised is not None and not getattr(stream, "told", False):
                    return ("swallowed", "the stream failed and the caller was not told"), got
                if not isinstance(ret, list) or len(ret) != len(L) or any(a is not b for a, b in zip(ret, L)):
                    return ("list", "the list returned is not the list of the rays"), got
            if exc is not None:
                stream.told = True
            if len(L) < len(before) or any(a is not b for a, b in zip(L, before)):
                return ("list", "rays already listed were moved or lost"), got
            if [ray_state(r) for r in before] != state:
                return ("list", "rays already listed were changed"), got
            new = L[len(before):]
            if (exc is None and len(new) != n) or len(new) > n:
                return ("count", "%d probes instead of %d" % (len(new), n)), got
            for i, r in enumerate(new):
                bad = well_formed(r, R, c if ck != "int" else [int(x) for x in c], "probe %d" % i)
                if bad:
                    return ("form", bad), got
            at, alive = {}, []      # (an array kept alive keeps its address)
            for i, r in enumerate(new):     # probes share nothing: no two positions or directions in the same memory
                for name in ("position", "direction"):
                    arr = getattr(r, name)
                    alive.append(arr)
                    where = arr.__array_interface__["data"][0] if isinstance(arr, np.ndarray) else id(arr)
                    if at.setdefault(where, i) != i and np.size(arr):
                        return ("form", "probes %d and %d share their %s" % (at[where], i, name)), got
            got.append([(tuple(float(x) for x in r.position), tuple(float(x) for x in r.direction)) for r in new])
            st.c["probes made"] += len(new)
            st.note(got[-1])
            for a, b in keep:
                if not np.array_equal(a, b):
                    return ("input", "the centre given was modified"), got
    finally:
        if stream is not None:
            stream.remove()
    return None, got


def ray_state(r):
    return (tuple(r.position), tuple(r.direction), r.blocked, len(r.point_history))


def run_even(case, st):
    """Evenness over the sphere of one reseeded batch."""
    with W.quiet(), W.bounded():
        v, got = program(case, st, None)
    if v:
        return v
    if not got:
        return None
    op = case["ops"][-1]
    us = [unit([-x for x in d]) for _, d in got[-1]]
    n = len(us)
    st.shapes.add(case["ops"][0][1])
    st.nontrivial.add(case["ops"][0][1])
    # octants: binomial(n, 1/8), 6.5 sigma
    for k in range(8):
        c = sum(1 for u in us if (u[0] > 0, u[1] > 0, u[2] > 0) == (bool(k & 1), bool(k & 2), bool(k & 4)))
        if abs(c - n / 8) > 6.5 * math.sqrt(n * 7 / 64):
            return ("uneven", "%d of %d probes in octant %d" % (c, n, k))
    # each coordinate of an even direction is uniform on [-1, 1]; along tilted axes too: Kolmogorov-Smirnov, D > 3.3/sqrt(n)
    for ax in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, -1, 0), (1, 2, -1), (0, 1, 1), (1, 0, 1)):
        a = unit([float(x) for x in ax])
        z = sorted((dot(u, a) + 1) / 2 for u in us)
        ks = max(max(abs(x - i / n), abs(x - (i + 1) / n)) for i, x in enumerate(z))
        if ks * math.sqrt(n) > 3.4:
            return ("uneven", "coordinates along %s deviate by %.3f from even (%d probes)" % (ax, ks, n))
    # azimuth about each axis
    for i, j in ((0, 1), (1, 2), (2, 0)):
        z = sorted((math.atan2(u[i], u[j]) / (2 * math.pi)) % 1.0 for u in us)
        ks = max(max(abs(x - k / n), abs(x - (k + 1) / n)) for k, x in enumerate(z))
        if ks * math.sqrt(n) > 3.4:
            return ("uneven", "azimuths deviate by %.3f from even (%d probes)" % (ks, n))
    if len(set(us)) < n - 2:
        return ("uneven", "%d distinct directions among %d probes" % (len(set(us)), n))
    st.c["batches judged even"] += 1
    return None


def run_threads(case, st):
    stream = Stream(case["stream"], case["salt"])
    ops = [op for op in case["ops"] if op[0] == "add"]
    with W.quiet(), W.bounded():
        U = W.Universe()
        W.activate(U)
        lists_ = [[], []]
        plans = [[op for op in ops if op[1] == t] for t in (0, 1)]

        def work(t):
            for op in plans[t]:
                U.optics3d.add_faerie_fire_rays(lists_[t], op[3], center(op[4], op[5]), N=op[2])
        stream.install()
        try:
            sim = sched.Sim([lambda: work(0), lambda: work(1)], sched.make_chooser(case["sched"], random.Random))
            sim.run()
        finally:
            stream.remove()
        st.recorded = {"sched": sim.recorded()}
        st.steps += sim.n
        st.c["thread switches"] += sim.nswitch
        st.faults["degenerate triples dealt"] += stream.dealt
        st.shapes.add(sim.shape)
        if sim.nswitch > 1:
            st.nontrivial.add(sim.shape)
        for t in (0, 1):
            if sim.deadlock or sim.limit:
                return ("hang", "adding probes does not end")
            if sim.tasks[t].result[0] == "exc":
                return ("raise", "adding probes raised %r" % (sim.tasks[t].result[1],))
            n = sum(op[2] for op in plans[t])
            if len(lists_[t]) != n:
                return ("count", "%d probes instead of %d" % (len(lists_[t]), n))
            i = 0
            for op in plans[t]:
                for _ in range(op[2]):
                    bad = well_formed(lists_[t][i], op[3], op[4] if op[5] != "int" else [int(x) for x in op[4]], "probe %d" % i)
                    if bad:
                        return ("form", bad)
                    i += 1
            st.note([ray_state(r)[:2] for r in lists_[t]])
    return None


def run_scene(case, st):
    """Probes traced between the pieces of other rays."""
    sc = case["scene"]
    S = sc["S"]
    prep = judge.prepare(sc["optics"], S)
    stream = Stream(case["stream"], case["salt"])
    hits_, legs = [], {}
    with W.quiet(), W.bounded():
        w = W.World(W.Universe(), sc)
        stream.install()
        try:
            for k, op in enumerate(case["ops"]):
                if op[0] != "probe":
                    _, h = engine.run_ops(sc, [op], st, w=w)
                    for g in h.legs:
                        if g.exc is not None:
                            return ("raise", "%s raised %r" % (g.rid, g.exc))
                        legs.setdefault(g.rid, []).append((g.D, g.I, list(w.order)))
                    continue
                _, n, R, c, D, I = op
                mix = list(w.rays.values())
                before = [W.snap(r) for r in mix]
                recs = {d: W.hits(w.optics[d]) for d in W.detectors(sc) if d in w.optics}
                cc = np.array(c, dtype=float)
                try:
                    w.U.optics3d.add_faerie_fire_rays(mix, R, cc, N=n)
                except W.SimLimit:
                    return ("hang", "adding probes does not end")
                for i, r in enumerate(mix[len(before):]):
                    bad = well_formed(r, R, c, "probe %d" % i)
                    if bad:
                        return ("form", bad)
                    b = W.snap(r)
                    for piece in ((D / 2, I), (D / 2, I), (D, I)) if k % 3 == 0 else ((D, I), (D, None)):
                        b = W.snap(r)
                        try:
                            r.run(piece[0], w.olist(), *([] if piece[1] is None else [piece[1]]))
                        except W.SimLimit:
                            return ("hang", "a probe does not end")
                        except Exception as e:
                            return ("raise", "a traced probe raised %r" % (e,))
                        a = W.snap(r)
                        f = judge.judge_leg([x for oid in w.order for x in prep if x["id"] == oid], {"ff": True, "wl": 532, "o": 0},
                                            b["pos"], b["dir"], a["path"][len(b["path"]):], piece[0], piece[1], a["dir"], a["blocked"],
                                            S, st.c, b["blocked"], ("law",))
                        if f is not None:
                            return ("probe", "a probe from %s: %r" % (fmt(b["pos"]), f))
                        if a["blocked"] and len(a["path"]) > len(b["path"]):
                            hits_.append(k)
                    st.note(W.snap(r)["path"])
                if any(x is not y for x, y in zip(mix, w.rays.values())) or [W.snap(r) for r in mix[:len(before)]] != before:
                    return ("list", "rays already listed were changed")
                now = {d: W.hits(w.optics[d]) for d in W.detectors(sc) if d in w.optics}
                if now != recs:
                    return ("trace", "a traced probe changed the records of a detector")
                if not np.array_equal(cc, np.array(c, dtype=float)):
                    return ("input", "the centre given was modified")
                if w.changed_inputs():
                    return ("input", "the caller's %s was modified" % w.changed_inputs())
        finally:
            stream.remove()
        snaps = {r: W.snap(w.rays[r]) for r in w.rays}
        recs = {d: W.hits(w.optics[d]) for d in W.detectors(sc)}
    und = False
    want = {d: [] for d in recs}
    for rid in sorted(legs):
        # re-listings are part of the other properties: repeat them here, leave out only the probes
        def alone(nudge=None):
            sc2 = sc if nudge is None else dict(sc, rays=[dict(r, p=[a + b for a, b in zip(r["p"], nudge)], int=False)
                                                         if r["id"] == rid else r for r in sc["rays"]])
            with W.quiet(), W.bounded():
                w2 = W.World(W.Universe(), sc2, rays=[rid])
                for D, I, order in legs[rid]:
                    w2.set_order(order)
                    W.leg(w2, rid, D, I)
                r = W.snap(w2.rays[rid])
                r["hits"] = {d: W.hits(w2.optics[d]) for d in recs}
            return r
        ref = alone()
        for d in recs:
            want[d] += ref["hits"][d]
        v = close(snaps[rid], ref, alone, S)
        if not v.decided:
            und = True
        if not v.ok:
            return ("changed", "%s: %s" % (rid, v.what))
    if not und:
        for d in recs:
            missing, surplus = match_records(recs[d], want[d], S)
            if missing or surplus:
                return ("trace", "detector %s: missing %s, surplus %s" % (d, missing[:2], surplus[:2]))
    st.faults["degenerate triples dealt"] += stream.dealt
    st.c["probes that met a surface"] += len(hits_)
    sig = ("scene", sc["style"], tuple(op[0] for op in case["ops"]), tuple(hits_))
    st.shapes.add(hash(sig))
    if hits_:
        st.nontrivial.add(hash(sig))
        if len(st.samples) < 2:
            st.samples.append("%s: %s; probes met a surface in operations %s" % (sc["style"], " ".join(op[0] for op in case["ops"]), hits_[:10]))
    return None
