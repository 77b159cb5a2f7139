"""Runs a program of operations on one world and records its history.

Operations are JSON lists; an operation whose ray or optic no longer exists (the minimiser dropped it) is skipped.
  ["leg", ray, D, I, how]       Ray.run(D, optics[, I]); how: "np" numpy scalars, "float" I as a float, "bare" no optics
  ["order", [ids], how]         re-list the optics: in a "new" list, the "same" list, or only "some" of them
  ["ckpt", mode]                copy / serialise / restart in a fresh process image
  ["abort", ray, D, I, event, exc]   run a ray and interrupt it at the given traced event
  ["draw", optic, view, backend, failat]
  ["repr", id]  ["plot", ray]  ["index", [x, y, z] or ["path", ray, where, offset] or ["at", ray, offset]]  ["helper", name, v, w]
  ["probes", n, R, center, D]   add probe rays to a list and trace them
  ["stray", p, d, D]            trace a ray that is not part of the scene
  ["volley", n, p, d, radius, D, wl, m]   trace n parallel rays, wavelengths wl, wl + 1, ..., m alike of each
  ["records", detector, "assign" | "clear" | n]   the user empties a detector (or fills in n old records)
  ["list", mode]                how the optic list is passed: same | fresh | tuple | twice (some optics listed again)
  ["gc"]
"""
import gc
import math

import numpy as np

from . import world as W
from .sched import SimLimit, SimDeadlock, HarnessError, trace_single
from .world import World, snap, hits, detectors, arr

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": lambda: OSError(28, "No space left on device"),
       "RuntimeError": lambda: RuntimeError("user optic failed"), "RecursionError": RecursionError,
       "SystemExit": lambda: SystemExit(1), "ValueError": lambda: ValueError("injected"),
       "IndexError": lambda: IndexError("injected"), "ZeroDivisionError": lambda: ZeroDivisionError("injected"),
       "TypeError": lambda: TypeError("injected"), "StopIteration": lambda: StopIteration(),
       "FloatingPointError": lambda: FloatingPointError("injected"), "GeneratorExit": GeneratorExit,
       "AttributeError": lambda: AttributeError("injected"), "KeyError": lambda: KeyError("injected"),
       "LinAlgError": lambda: np.linalg.LinAlgError("injected")}


class StubAxes:
    """The part of a matplotlib axes the drawing code uses; fails at the chosen call."""

    def __init__(self, failat=None):
        self.n, self.failat, self.calls = 0, failat, []

    def _hit(self, name):
        self.n += 1
        self.calls.append(name)
        if self.failat is not None and self.n >= self.failat:
            raise MemoryError("injected: axes." + name)

    def plot(self, *a, **k):
        self._hit("plot")
        return [object()]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            self._hit(name)
            return object()
        return f


def draw(w, oid, view, backend, failat):
    o = w.optics[oid]
    if backend == "stub":
        ax = StubAxes(failat)
        o.draw(ax, view=view)
        return
    import matplotlib.pyplot as plt
    try:
        plt.figure()
        ax = plt.axes(projection="3d") if view in ("3d", "xyz") else plt.axes()
        o.draw(ax, view=view)
        if failat != 1:
            w.U.general.set_axes_equal(ax) if view in ("3d", "xyz") else None
            plt.gcf().canvas.draw()
    finally:
        plt.close("all")


def helper(w, name, v, u, keep):
    g = w.U.general_optics
    a, b = arr(v), arr(u)
    keep.append(("helper " + name, a, a.copy()))
    keep.append(("helper " + name, b, b.copy()))
    if name == "rotation_matrix":
        g.rotation_matrix(a, b)
    elif name == "rotation_matrix2":
        g.rotation_matrix2(a, b)
    elif name == "rotation_matrix4":
        g.rotation_matrix4(a, b)
    elif name == "rotation_matrix_axis_angle":
        g.rotation_matrix_axis_angle(a, 0.7)
    elif name == "project_onto_plane":
        g.project_onto_plane(a, b)
    elif name == "angle_between":
        g.angle_between(a, b, g.unit_vector(np.cross(a, b)))
    elif name == "unit_vector":
        g.unit_vector(a)
    elif name == "scaling":
        g.scaling_matrix4(a)
        g.translation_matrix4(b)
    elif name == "patch":
        from matplotlib.patches import Circle
        p = Circle((0, 0), 3.0)
        g.pathpatch_2d_to_3d(p, z=0, normal=a)
        g.pathpatch_translate(p, b)


HELPERS = ("rotation_matrix", "rotation_matrix2", "rotation_matrix4", "rotation_matrix_axis_angle",
           "project_onto_plane", "angle_between", "unit_vector", "scaling", "patch")


class Leg:
    __slots__ = ("rid", "D", "I", "order", "before", "after", "exc", "hits", "index")


class History:
    def __init__(self):
        self.legs, self.aborts, self.passive, self.errors, self.changed = [], [], [], [], None
        self.probes, self.volleys = [], []
        self.left = None            # process state that an aborted run or a passive operation left changed
        self.indices = []           # (operation, point, listing order, index reported)
        self.detector_log = []      # records of every detector after every operation


def run_ops(scene, ops, st, rays=None, track_hits=False, w=None, paths=None):
    """-> (world, History).  Exceptions of Ray.run in a leg are recorded, the program goes on."""
    h = History()
    if w is None:
        w = World(W.Universe(), scene, rays=rays)
    mode = "same"
    for k, op in enumerate(ops):
        kind = op[0]
        state = (W.process_state(), np.random.get_state()) if kind in ("draw", "repr", "plot", "index", "helper") else None
        if kind == "leg":
            rid, D, I = op[1], op[2], op[3]
            if rid not in w.rays:
                continue
            ray = w.rays[rid]
            g = Leg()
            g.rid, g.D, g.I, g.order, g.index = rid, D, I, list(w.order), k
            g.before = snap(ray)
            g.exc = None
            ol = w.olist()
            if mode == "fresh":
                ol = list(ol)
            elif mode == "tuple":
                ol = tuple(ol)
            elif mode == "twice":
                ol = ol + ol[::2]
            how = op[4] if len(op) > 4 else None
            if how == "np":
                D = np.float64(D) if isinstance(D, float) else np.int64(D)
                I = None if I is None else np.int64(I)
            elif how == "float":
                I = None if I is None else float(I)
            elif how == "bare":
                g.order = []
            n0 = W._counter[0]
            before = W.process_state()
            try:
                if how == "bare":
                    ray.run(D) if I is None else ray.run(D, max_interactions=I)
                elif I is None:
                    ray.run(D, ol)
                elif k % 2:
                    ray.run(D, optic_list=ol, max_interactions=I)
                else:
                    ray.run(D, ol, I)
            except (SimLimit, SimDeadlock) as e:
                g.exc = e
            except Exception as e:
                g.exc = e
                h.left = h.left or W.state_changed(before)
            st.steps += n0 - W._counter[0]
            g.after = snap(ray)
            h.legs.append(g)
            st.note((rid, g.after["path"][len(g.before["path"]):], g.after["dir"], g.after["blocked"]))
            for a, b in zip(g.after["path"][len(g.before["path"]) - 1:], g.after["path"][len(g.before["path"]):]):
                x = math.dist(a, b)
                if math.isfinite(x):
                    st.travel += x
            if g.exc is not None and isinstance(g.exc, (SimLimit, SimDeadlock)):
                h.errors.append((k, op, g.exc))
                return w, h
        elif kind == "order":
            w.set_order(*op[1:])
            st.c["op:order" + ("-" + op[2] if len(op) > 2 else "")] += 1
        elif kind == "ckpt":
            w.checkpoint(op[1])
            st.faults["checkpoint:" + op[1]] += 1
        elif kind == "abort":
            rid, D, I, ev, exc = op[1:6]
            if rid not in w.rays:
                continue
            ray = w.rays[rid]
            b = snap(ray)
            ol = w.olist()

            def go():
                before = W.process_state()
                try:
                    ray.run(D, ol, math.inf if I is None else I)
                finally:
                    h.left = h.left or W.state_changed(before)
            sim = trace_single(go, {ev: EXC[exc]})
            st.steps += sim.n
            t = sim.tasks[0]
            if t.fired:
                st.faults["abort:" + exc] += 1
                h.aborts.append({"rid": rid, "before": b, "after": snap(ray), "result": t.result, "fired": list(t.fired),
                                 "index": k})
                if isinstance(t.result[1], (SimLimit, SimDeadlock)):
                    h.errors.append((k, op, t.result[1]))
                    return w, h
            else:                       # it ended before the fault was due: an ordinary run
                g = Leg()
                g.rid, g.D, g.I, g.order, g.index = rid, D, I, list(w.order), k
                g.before, g.after = b, snap(ray)
                g.exc = None if t.result[0] == "ok" else t.result[1]
                h.legs.append(g)
        elif kind == "draw":
            if op[1] not in w.optics:
                continue
            try:
                draw(w, *op[1:5])
                st.c["op:draw-%s" % op[3]] += 1
            except Exception as e:
                st.faults["drawing failed"] += 1
                h.passive.append((k, op, e))
        elif kind == "repr":
            o = w.optics.get(op[1]) or w.rays.get(op[1])
            try:
                repr(o), str(o)
                st.c["op:repr"] += 1
            except Exception as e:
                st.faults["repr failed"] += 1
                h.passive.append((k, op, e))
        elif kind == "plot":
            if op[1] in w.rays:
                a = w.rays[op[1]].get_plot_repr()
                st.c["op:plot"] += 1
                if len(op) > 2 and op[2]:
                    # the caller scales its plot data in place
                    a[...] = 7
        elif kind == "index":
            if op[1] and op[1][0] == "path":
                # near a point of the undisturbed path of a ray
                pts = (paths or {}).get(op[1][1])
                if not pts:
                    continue
                i = min(int(op[1][2] * len(pts)), len(pts) - 1)
                u = np.array(pts[i]) - np.array(pts[i - 1]) if i else np.array([0.0, 0.0, 1.0])
                q = np.array(pts[i]) + op[1][3] * u / (np.linalg.norm(u) or 1.0)
            elif op[1] and op[1][0] == "at":
                # ahead of (or behind) where a ray now is
                if op[1][1] not in w.rays or not np.all(np.isfinite(w.rays[op[1][1]].position)):
                    continue
                q = w.rays[op[1][1]].position + op[1][2] * w.rays[op[1][1]].direction
            else:
                q = arr(op[1])
            w.given.append(("query point", q, q.copy()))
            try:
                ol = w.olist()
                x = w.U.optics3d.get_index_at_point(tuple(ol) if mode == "tuple" else ol + ol[::2] if mode == "twice" else ol, q)
                h.indices.append((k, tuple(float(v) for v in q), list(w.order), x))
                st.c["op:index"] += 1
            except Exception as e:
                h.passive.append((k, op, e))
        elif kind == "helper":
            try:
                helper(w, op[1], op[2], op[3], w.given)
                st.c["op:helper"] += 1
            except Exception as e:
                h.passive.append((k, op, e))
        elif kind == "probes":
            lst = []
            w.U.optics3d.add_faerie_fire_rays(lst, op[2], arr(op[3]), N=op[1])
            for r in lst:
                r.run(op[4], w.olist())
            h.probes.append((k, lst))
            st.c["op:probes"] += 1
        elif kind == "stray":
            r = w.U.optics3d.Ray(arr(op[1]), arr(op[2]), wavelength=500.0)
            try:
                r.run(op[3], w.olist(), 30)
            except Exception:
                pass
            st.c["op:stray"] += 1
        elif kind == "volley":
            u = W.tup(W.unit(op[3]))
            e1 = W.tup(W.perp(u))
            e2 = W.cross(u, e1)
            rec = []
            for j in range(op[1]):
                i = j // (op[7] if len(op) > 7 else 1)
                a, rr = 2.399963 * i, op[4] * ((i + 0.5) / op[1]) ** 0.5
                p = [x + rr * (math.cos(a) * y + math.sin(a) * z) for x, y, z in zip(op[2], e1, e2)]
                r = w.U.optics3d.Ray(arr(p), arr(u), wavelength=op[6] + i)
                b = snap(r)
                try:
                    r.run(op[5], w.olist(), 12)
                except (Exception, SimLimit) as e:
                    rec = e
                    break
                rec.append((b, snap(r), float(op[6] + i)))
            h.volleys.append((k, rec))
            st.c["op:volley"] += 1
            st.c["volley rays"] += op[1]
        elif kind == "records":         # the user empties a detector, or has put in the records of an earlier session
            if op[1] not in w.optics:
                continue
            det = w.optics[op[1]]
            try:
                if op[2] == "assign":
                    det.hit_data = []
                elif op[2] == "clear":
                    del det.hit_data[:]
                else:
                    det.hit_data.extend([np.array([7.0, 8.0, 9.0, 500.0 + j]) for j in range(op[2])])
            except Exception:
                st.c["records not written"] += 1
            st.c["op:records"] += 1
        elif kind == "list":
            mode = op[1]
        elif kind == "gc":
            gc.collect()
        else:
            raise HarnessError("operation " + str(op))
        if state is not None and h.left is None:
            h.left = W.state_changed(state[0])
            now = np.random.get_state()
            if h.left is None and (now[0] != state[1][0] or now[2:] != state[1][2:] or not np.array_equal(now[1], state[1][1])):
                h.left = "the random stream"
        if h.changed is None:
            c = w.changed_inputs()
            if c is not None:
                h.changed = (k, op, c)
        if track_hits:
            h.detector_log.append((k, op, {d: hits(w.optics[d]) for d in detectors(scene) if d in w.optics}))
    return w, h


def order_of(rng, scene):
    ids = [o["id"] for o in scene["optics"]]
    rng.shuffle(ids)
    return ids


def passive_op(rng, scene, real=0.02, on_path=0.0):
    """An operation that must not change anything."""
    S = scene["S"]
    x = rng.random()
    pt = [S * rng.uniform(-1, 1) for _ in range(3)]
    if x < 0.45 and scene["optics"]:
        o = rng.choice(scene["optics"])
        view = rng.choice(["3d", "3d", "3d", "xyz", "xy", "xz", "tangential", "sagittal"])
        return ["draw", o["id"], view, "real" if rng.random() < real else "stub",
                rng.choice([None, None, None, 1, 2])]
    if x < 0.6:
        return ["repr", rng.choice(scene["optics"] + scene["rays"])["id"]]
    if x < 0.7:
        return ["plot", rng.choice(scene["rays"])["id"], rng.random() < 0.5]
    if x < 0.85:
        if rng.random() < 0.5 and rng.random() < on_path:
            return ["index", ["path", rng.choice(scene["rays"])["id"], rng.random(),
                              rng.choice([0.0, 1.0, -1.0]) * 10.0 ** rng.uniform(-11, 0)]]
        if rng.random() < 0.5:
            o = rng.choice(scene["optics"])
            pt = [a + rng.uniform(-.1, .1) * S for a in o["c"]]
        return ["index", pt]
    v = [rng.choice([0.0, 1.0, -1.0, 2.0]) for _ in range(3)] if rng.random() < 0.3 else [rng.uniform(-2, 2) for _ in range(3)]
    if not any(v):
        v = [0.0, 0.0, 2.0]
    return ["helper", rng.choice(HELPERS), v, [rng.uniform(-2, 2) for _ in range(3)]]


def abort_op(rng, scene, rid, D):
    return ["abort", rid, D, rng.choice([None, 1, 2, 5, 40]), int(2 ** rng.uniform(0, 11)),
            rng.choice(["KeyboardInterrupt", "MemoryError", "OSError", "RuntimeError", "ValueError"])]


def gen_D(rng, S):
    x = rng.random()
    if x < 0.05:
        return 0
    if x < 0.1:
        return rng.choice([1e-3, 1e-6, 0.5, 1])
    if x < 0.2:
        return int(S * rng.uniform(0.5, 6)) + 1
    return S * rng.uniform(0.1, 8)


def far_legs(rng, ops, S, bare=0):
    """Some runs with a travel limit far beyond the scene (and a limit on interactions, as they would not end)."""
    if rng.random() < 0.2:
        for op in ops:
            if op[0] == "leg" and rng.random() < 0.4:
                op[2] = S * 10.0 ** rng.uniform(1.5, 6)
                op[3] = rng.choice([1, 2, 3, 5, 10])
    for op in ops:
        if op[0] == "leg" and rng.random() < 0.04:
            op.append(rng.choice(["np", "float"] + ["bare"] * bare))
    return ops


def endless(rng, ops, sc):
    """Runs without any travel limit, inside a closed box."""
    if sc["style"] == "cavity" and rng.random() < 0.1:
        for op in ops:
            if op[0] == "leg" and rng.random() < 0.5:
                op[2], op[3] = math.inf, rng.choice([1, 2, 3, 10, 40])


def gen_I(rng):
    return rng.choice([None, None, 0, 1, 1, 2, 3, 5, 10, 40, 100])


REAL_TRACE = ["optics3d.py (Ray, Mirror, Lens, Grating, Detector, Compound, Block, Annotation, Filter, Window)",
              "Shapes/shapes.py", "general_optics.py", "general.py (to_precision)", "numpy"]
