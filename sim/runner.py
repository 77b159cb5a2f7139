"""Seeded search over simulated runs; minimisation, replay and evidence."""
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter
import multiprocessing as mp

from .ref import Ill
from .sched import HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_perf = time.perf_counter
_DUMMY = object()


class Stats:
    """What a batch of runs covered; merged over workers."""

    def __init__(self):
        self.c = Counter()          # named counts
        self.faults = Counter()     # fault kind -> fired
        self.shapes = set()         # distinct interleavings / histories
        self.nontrivial = set()
        self.steps = 0              # simulated events
        self.travel = 0.0           # simulated distance
        self.samples = []
        self.digest = None
        self.recorded = None

    def begin(self):
        self.digest = hashlib.sha256()
        self.recorded = None

    def note(self, x):
        self.digest.update(repr(x).encode())

    def merge(self, o):
        self.c.update(o.c)
        self.faults.update(o.faults)
        self.shapes |= o.shapes
        self.nontrivial |= o.nontrivial
        self.steps += o.steps
        self.travel += o.travel
        self.samples += o.samples


def load(pid):
    return importlib.import_module("sim.props." + pid.lower())


def seed_of(base, pid, i):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (base, pid, i)).encode()).digest()[:8], "big")


def gen_case(prop, base, i, tier):
    rng = random.Random(seed_of(base, prop.ID, i))
    case = prop.gen(rng, tier)
    case["seed"] = seed_of(base, prop.ID, i)
    return json.loads(json.dumps(case))       # exactly what a replay file can hold


class RunTimeout(Exception):
    pass


def _alarm(*a):
    raise HarnessError("a simulated run did not end within its wall-clock allowance")


def run_case(prop, case, st, limit=300):
    """-> None or (kind, text)"""
    st.begin()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return prop.run(copy.deepcopy(case), st)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(pid, base, tier, w, W, n, found, deadline, q, at):
    try:
        gc.disable()
        prop = load(pid)
        st = Stats()
        done = 0
        viol = None
        nondet = 0
        errors = []
        for i in range(at[w], n, W):
            at[w] = i
            if found.value < i or _perf() > deadline:
                break
            case = gen_case(prop, base, i, tier)
            try:
                v = run_case(prop, case, st)
            except Ill:             # the model cannot decide something it was asked outside the judge
                st.c["run undecided"] += 1
                continue
            except Exception:       # the harness failed: other runs may still find a violation
                errors.append("run %d\n%s" % (i, traceback.format_exc()))
                if len(errors) > 5:
                    break
                continue
            done += 1
            if v is None and i % 64 == 1:       # determinism self-check
                d1 = st.digest.hexdigest()
                v2 = run_case(prop, case, Stats())
                s2 = Stats()
                v2 = run_case(prop, case, s2)
                if v2 is not None or s2.digest.hexdigest() != d1:
                    nondet += 1
                st.c["self-check re-runs"] += 1
            if v is not None:
                with found.get_lock():
                    found.value = min(found.value, i)
                viol = (i, case, v, st.recorded)
                break
            if done % 40 == 0:
                gc.collect()
        st.samples = st.samples[:2]
        st.digest = None
        st.recorded = None
        q.put(("ok", w, done, viol, nondet, st, errors))
    except BaseException:
        q.put(("err", w, traceback.format_exc()))


def search(pid, base, tier, n, workers, max_s):
    ctx = mp.get_context("fork")
    found = ctx.Value("q", 1 << 60)
    q = ctx.Queue()
    deadline = _perf() + max_s
    at = ctx.Array("q", range(workers), lock=False)

    def start(w):
        p = ctx.Process(target=_worker, args=(pid, base, tier, w, workers, n, found, deadline, q, at))
        p.start()
        return p
    ps = [start(w) for w in range(workers)]
    total = Stats()
    done, viols, nondet, errs, answered, crashes = 0, [], 0, [], set(), []
    while len(answered) < workers:
        try:
            m = q.get(timeout=2)
        except Exception:
            for w, p in enumerate(ps):
                if w not in answered and p.exitcode not in (None, 0):
                    # the interpreter itself died in run at[w]: go on behind it (its statistics are lost)
                    crashes.append((at[w], p.exitcode))
                    if len(crashes) > 30:
                        answered.add(w)
                        continue
                    at[w] += workers
                    ps[w] = start(w)
            if _perf() > deadline + 400:
                raise HarnessError("workers do not answer")
            continue
        answered.add(m[1])
        if m[0] == "err":
            errs.append(m[2])
            continue
        done += m[2]
        if m[3]:
            viols.append(m[3])
        nondet += m[4]
        errs += m[6]
        total.merge(m[5])
    for p in ps:
        p.join(20)
        if p.is_alive():
            p.terminate()
    if errs and not viols:
        raise HarnessError(errs[0])
    if crashes:
        total.c["interpreter crashed under tracing, run skipped"] = len(crashes)
        print("WARNING: the interpreter crashed in runs %s" % crashes[:5])
    if len(crashes) > max(4, n // 500) and not viols:
        raise HarnessError("the interpreter crashed in runs %s" % crashes[:5])
    viols.sort(key=lambda v: v[0])
    return done, viols, nondet, total


# -- minimisation -------------------------------------------------------------------------------------------------
def get_at(case, path):
    for k in path:
        case = case[k]
    return case


def set_at(case, path, v):
    get_at(case, path[:-1])[path[-1]] = v


class Minimiser:
    def __init__(self, prop, case, kind, budget_s=45):
        self.prop, self.kind = prop, kind
        self.best = case
        self.end = _perf() + budget_s
        self.evals = 0
        self.text = None

    def still(self, case):
        if _perf() > self.end:
            return False
        self.evals += 1
        st = Stats()
        try:
            v = run_case(self.prop, case, st, 20)
        except Exception:
            return False
        if v is not None and v[0] == self.kind:
            self.best, self.text = copy.deepcopy(case), v[1]
            return True
        return False

    def ddmin(self, path):
        try:
            items = list(get_at(self.best, path))
        except (KeyError, IndexError, TypeError):
            return False
        changed = False
        n = 2
        while items:
            size = max(1, len(items) // n)
            reduced = False
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                c = copy.deepcopy(self.best)
                set_at(c, path, cand)
                if self.still(c):
                    items, reduced, changed = cand, True, True
                else:
                    i += size
                if _perf() > self.end:
                    return changed
            if size == 1 and not reduced:
                break
            n = n * 2 if not reduced else max(2, n)
            if size == 1:
                n = len(items)
        return changed

    def go(self):
        paths = self.prop.lists(self.best)
        for _ in range(4):
            ch = False
            for p in paths:
                ch |= self.ddmin(p)
            if hasattr(self.prop, "simplify"):
                for _ in range(200):
                    for c in self.prop.simplify(copy.deepcopy(self.best)):
                        if json.dumps(c) != json.dumps(self.best) and self.still(c):
                            ch = True
                            break
                    else:
                        break
                    if _perf() > self.end:
                        break
            if not ch or _perf() > self.end:
                break
        return self.best


def _minimise_child(pid, case, recorded, kind, q):
    try:
        gc.disable()
        prop = load(pid)
        m = Minimiser(prop, case, kind)
        if recorded is not None:
            c = copy.deepcopy(case)
            c.update(recorded)
            if not m.still(c):
                m.best = case
        m.go()
        q.put((m.best, m.evals))
    except BaseException:
        q.put((None, traceback.format_exc()))


def minimise(pid, case, recorded, kind):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=_minimise_child, args=(pid, case, recorded, kind, q))
    p.start()
    try:
        best, evals = q.get(timeout=120)
    except Exception:
        best, evals = None, 0
    p.join(5)
    if p.is_alive():
        p.kill()
    return best, evals


# -- replay -------------------------------------------------------------------------------------------------------
def replay(path):
    """-> (kind, text) or None, in this process."""
    with open(path) as f:
        doc = json.load(f)
    prop = load(doc["property"])
    gc.disable()
    return doc, run_case(prop, doc["case"], Stats())


def replay_fresh(path):
    r = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check.py"), "--replay", path],
                       cwd=VERIF, capture_output=True, text=True, timeout=400, env=os.environ)
    return r.returncode, r.stdout


def write_replay(pid, base, index, case, v, tag=""):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%d%s.json" % (pid, case["seed"] % 10 ** 10, tag))
    with open(f, "w") as h:
        json.dump({"property": pid, "verif_seed": base, "run": index, "run_seed": case["seed"], "violation": list(v),
                   "case": case}, h, indent=1)
    return f


# -- the check ----------------------------------------------------------------------------------------------------
def check(pid, tier, base):
    t0 = _perf()
    prop = load(pid)
    if hasattr(prop, "prepare"):
        prop.prepare()
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    n = int(os.environ.get("VERIF_RUNS", prop.COUNT[tier]))
    max_s = float(os.environ.get("VERIF_MAX_S", 500 if tier == "quick" else 3000))
    done, viols, nondet, st = search(pid, base, tier, n, workers, max_s)
    wall = _perf() - t0
    if not os.environ.get("VERIF_NOREPLAY"):
        evidence(prop, tier, base, done, n, viols, nondet, st, wall, workers)
    print("%s %s: %d simulated runs in %.1f s (%d per hour), %d distinct non-trivial, faults fired: %s" %
          (pid, tier, done, wall, done / wall * 3600, len(st.nontrivial), dict(st.faults) or "none"))
    if nondet:
        print("WARNING: %d of the re-executed runs did not repeat exactly" % nondet)
    if not viols:
        if done == 0:
            raise HarnessError("no run was executed")
        return 0
    if os.environ.get("VERIF_NOREPLAY"):        # tools/mutate.py: only whether, not how
        print("run %d: %s: %s" % (viols[0][0], viols[0][2][0], viols[0][2][1]))
        return 1
    for index, case, v, recorded in viols:
        raw = write_replay(pid, base, index, dict(case, **(recorded or {})), v, "-raw")
        best, evals = minimise(pid, case, recorded, v[0])
        cands = []
        if best is not None:
            cands.append((best, ""))
        cands += [(dict(case, **(recorded or {})), "-raw"), (case, "-full")]
        for c, tag in cands:
            r = _final(pid, c)
            if r is None:
                continue
            f = write_replay(pid, base, index, c, r, tag)
            code, out = replay_fresh(f)
            if code == 1:
                print("run %d (seed %d): %s: %s" % (index, case["seed"], r[0], r[1]))
                print("minimised in %s evaluations; replay: python check.py --replay %s" % (evals, f))
                print("VIOLATION property=%s replay=%s" % (pid, f))
                return 1
        print("run %d: %s: %s -- did not replay in a fresh process (%s)" % (index, v[0], v[1], raw))
    raise HarnessError("a violation was found but none replayed")


def _final_child(pid, case, q):
    try:
        gc.disable()
        q.put(run_case(load(pid), case, Stats()))
    except BaseException:
        q.put(None)


def _final(pid, case):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=_final_child, args=(pid, case, q))
    p.start()
    try:
        r = q.get(timeout=400)
    except Exception:
        r = None
    p.join(5)
    if p.is_alive():
        p.kill()
    return r


def evidence(prop, tier, base, done, n, viols, nondet, st, wall, workers):
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(st.nontrivial),
        "rule": prop.RULE,
        "samples": st.samples[:6],
        "runs_planned": n,
        "runs_per_hour": round(done / wall * 3600),
        "seeds": "run i is seeded by sha256(VERIF_SEED/%s/i), i = 0..%d" % (prop.ID, n - 1),
        "simulated_events": st.steps,
        "simulated_travel_length": round(st.travel, 3),
        "faults_fired": dict(sorted(st.faults.items())),
        "distinct_histories": len(st.shapes),
        "distinct_histories_measure": prop.MEASURE,
        "probes": dict(sorted(st.c.items())),
        "nondeterministic_reruns": nondet,
        "real_components": prop.REAL,
        "stub_components": prop.STUB,
        "workers": workers,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    doc = {"property": prop.ID, "tier": tier, "seed": base, "level": prop.LEVEL, "coverage": cov,
           "assumptions": prop.ASSUMES, "wall_s": round(wall, 2), "violations": len(viols)}
    f = os.path.join(VERIF, "evidence", prop.ID + ".json")
    with open(f + ".tmp", "w") as h:
        json.dump(doc, h, indent=1)
    os.replace(f + ".tmp", f)


def selftest():
    """A few runs of every property, twice: the machinery loads, and a seed repeats exactly.  No verdict about /repo."""
    import glob
    for f in sorted(glob.glob(os.path.join(VERIF, "sim", "props", "c*.py"))):
        prop = load(os.path.basename(f)[:-3])
        if hasattr(prop, "prepare"):
            prop.prepare()
        same = 0
        for i in range(3):
            case = gen_case(prop, 0, i, "quick")
            seen = []
            for _ in (0, 1):
                st = Stats()
                v = run_case(prop, case, st)
                seen.append((v, st.digest.hexdigest()))
            same += seen[0] == seen[1]
        print("%s: 3 runs, %d repeat exactly" % (prop.ID, same))
    return 0


def main(argv):
    if argv[:1] == ["--selftest"]:
        return selftest()
    if argv[:1] == ["--replay"]:
        doc, v = replay(argv[1])
        if v is None:
            print("replay of %s: the property held" % argv[1])
            return 0
        print("%s: %s" % tuple(v))
        if list(v) != doc["violation"]:
            print("note: recorded as %s: %s" % tuple(doc["violation"]))
        print("VIOLATION property=%s replay=%s" % (doc["property"], argv[1]))
        return 1
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    return check(pid, tier, base)
