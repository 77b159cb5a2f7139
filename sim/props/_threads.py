"""Shared parts of the properties decided on rounds of traces, sequential or on simulated threads.

A case holds rounds; every round has threads, every thread a list of jobs, every job traces one ray:
  [ray, D, I, mode]    mode: "new" (a Ray made inside the thread), "keep" (the ray of earlier rounds goes on),
                       "copy" (a deep copy of the ray as it now is goes on in its place)
All rounds share one set of optics.
"""
import copy
import math
import random

from .. import scenes, sched
from .. import world as W


def gen_sched(rng, length=4000):
    return rng.choice([
        {"k": "rand", "p": rng.choice([0.01, 0.1, 0.3, 0.7]), "seed": rng.getrandbits(32)},
        {"k": "rand", "p": rng.choice([0.05, 0.5]), "seed": rng.getrandbits(32)},
        {"k": "pct", "len": rng.choice([300, 1500, length]), "n": rng.choice([1, 2, 4, 10]), "seed": rng.getrandbits(32)},
        {"k": "pct", "len": rng.choice([300, 1500, length]), "n": rng.choice([1, 2, 4, 10]), "seed": rng.getrandbits(32)},
        {"k": "burst", "seed": rng.getrandbits(32)},
        {"k": "rr", "every": rng.choice([1, 2, 3, 7, 20])}])


def gen_rounds(rng, sc, nthreads=None, D=None, maxI=(None, 1, 2, 3, 6, 12)):
    S = sc["S"]
    rids = [r["id"] for r in sc["rays"]]
    big = max([scenes.nodes(o["tree"]) for o in sc["optics"] if "tree" in o] or [0]) > 16
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = nthreads or rng.choice([1, 2, 2, 3, 4, 5])
        th = [[] for _ in range(n)]
        jobs = []
        mode = rng.choice(["new", "new", "mixed", "keep"])
        picks = [rng.choice(rids) for _ in range(rng.randint(n, 2 * n + 1))]
        if rng.random() < 0.5:
            picks = list(rids) * (1 + (len(rids) < n))
            rng.shuffle(picks)
        kept = set()
        for rid in picks:
            m = mode if mode != "mixed" else rng.choice(["new", "keep", "copy"])
            if m != "new" and rid in kept:
                m = "new"       # one object is never traced by two threads at once
            if m != "new":
                kept.add(rid)
            I = rng.choice(maxI)
            if I is None and (sc["style"] in ("cavity", "balls", "planar") or big):
                I = 15
            jobs.append([rid, S * rng.uniform(0.5, 6) if D is None else D, I, m])
        for i, j in enumerate(jobs):
            th[i % n].append(j)
        rounds.append({"threads": [t for t in th if t], "sched": gen_sched(rng), "gran": "op" if rng.random() < 0.12 else "line"})
    return rounds


def lists(case):
    out = [["rounds"]]
    for i, r in enumerate(case["rounds"]):
        out.append(["rounds", i, "threads"])
        for j in range(len(r["threads"])):
            out.append(["rounds", i, "threads", j])
        if r["sched"]["k"] == "replay":
            out.append(["rounds", i, "sched", "sw"])
        if r.get("faults"):
            out.append(["rounds", i, "faults"])
    return out + [["scene", "rays"], ["scene", "optics"]]


def simplify(case):
    for i, r in enumerate(case["rounds"]):
        for j, t in enumerate(r["threads"]):
            for k, job in enumerate(t):
                if job[2] is None or job[2] > 3:
                    for I in (1, 2, 3, 5):
                        if job[2] is None or I < job[2]:
                            c = copy.deepcopy(case)
                            c["rounds"][i]["threads"][j][k][2] = I
                            yield c
        if r["gran"] == "op":
            c = copy.deepcopy(case)
            c["rounds"][i]["gran"] = "line"
            yield c


class Traced:
    __slots__ = ("rid", "legs", "ray", "result", "aborted", "before", "where", "lens", "inherited")


def play(case, st, make_job=None, faults_of=None, after_round=None, log=None, after_world=None, events=None, wrap=None):
    """Run all rounds on one world. -> (world, [Traced], error or None)"""
    sc = case["scene"]
    w = W.World(W.Universe(), sc, rays=[])
    if after_world:
        after_world(w)
    live = {}           # rid -> Traced that goes on
    done = []
    err = None
    recorded = copy.deepcopy(case["rounds"])
    for ri, rd in enumerate(case["rounds"]):
        fns, plans = [], []
        busy = set()
        for ti, th in enumerate(rd["threads"]):
            plan = []
            for job in th:
                rid, D, I, mode = job[:4]
                if rid not in w.rd:
                    continue
                plan.append((rid, D, I, mode))
            plans.append(plan)

        def work(plan, ti):
            mine = []
            for rid, D, I, mode in plan:
                t = None
                if mode != "new" and rid in live and rid not in busy and live[rid].aborted is None:
                    busy.add(rid)
                    t = live[rid]
                    if mode == "copy":
                        # the caller goes on with a deep copy; the original stays behind and must not change
                        old = t
                        t = Traced()
                        t.rid, t.legs, t.aborted, t.lens = rid, list(old.legs), "making", list(old.lens)
                        t.inherited = len(old.legs)
                        t.ray = copy.deepcopy(old.ray)
                        t.where = (ri, ti)
                        live[rid] = t
                        done.append(t)
                else:
                    t = Traced()
                    t.rid, t.legs, t.aborted, t.lens = rid, [], "making", []
                    t.inherited = 0
                    t.where = (ri, ti)
                    t.ray = None
                    done.append(t)
                    if events is not None:
                        events.append((ri, ti, "make", t, None, None))
                    t.ray = w.make_ray(w.rd[rid], bool(log and log(rid)))
                    if mode != "new":
                        if rid not in busy and rid not in live:
                            live[rid] = t
                            busy.add(rid)
                t.before = W.snap(t.ray)
                t.legs.append((D, I))
                t.aborted = "running"
                if events is not None:
                    n0 = len(t.ray.point_history)
                    at = len(events)
                    events.append((ri, ti, "leg", t, n0, None))
                mine.append(t)
                if I is None:
                    t.ray.run(D, ol)
                else:
                    t.ray.run(D, ol, I)
                t.aborted = None
                t.lens.append(len(t.ray.point_history))
                if events is not None:
                    events[at] = (ri, ti, "leg", t, n0, len(t.ray.point_history))
        ol = w.olist()
        for ti, plan in enumerate(plans):
            fn = lambda plan=plan, ti=ti: work(plan, ti)
            fns.append(wrap(fn, ri, ti) if wrap else fn)
        faults = faults_of(ri, rd) if faults_of else None
        sim = sched.Sim(fns, sched.make_chooser(rd["sched"], random.Random), rd["gran"], faults=faults,
                        max_events=20_000_000 if rd["gran"] == "op" else 4_000_000)
        sim.run()
        recorded[ri]["sched"] = sim.recorded()
        st.steps += sim.n
        st.c["thread switches"] += sim.nswitch
        st.c["threads"] += len(fns)
        st.note((ri, sim.n, sim.shape))
        yield_info = after_round(ri, rd, sim, w, done) if after_round else None
        if yield_info:
            err = yield_info
            break
        if sim.deadlock:
            err = ("hang", "deadlock")
            break
        if sim.limit:
            err = ("hang", "the traces do not end")
            break
        if not faults:
            for t in sim.tasks:
                if t.result[0] == "exc":
                    e = t.result[1]
                    err = ("hang" if isinstance(e, W.SimLimit) else "raise", "a trace raised %r" % (e,))
            if err:
                break
    st.recorded = {"rounds": recorded}
    return w, done, err


def shape(case, st_shape):
    return hash((case["scene"]["style"], tuple(sorted(o["k"] for o in case["scene"]["optics"])), st_shape))
