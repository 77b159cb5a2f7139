"""Builds the real objects of the code under test from a scene descriptor, and runs operations on them."""
import copy
import decimal
import gc
import os
import pickle
import sys
import _thread
import types
import warnings
import contextlib
import random

import numpy as np

from . import simids, sched
from .universe import Universe
from .sched import SimLimit, HarnessError
from .vec import tup, norm, sub, unit, perp, cross

INF = float("inf")


# -- user-defined optics (defined against each universe, as a user's own module would) -----------------------------
_USER_SRC = '''
class Absorber(optics3d.Block):
    """A beam stop: the library's Block with a disc for a surface."""
    def __init__(self, position, normal, D):
        self.position = position
        self.normal = general_optics.unit_vector(normal)
        self.surface = shapes.Circle(position, normal, D=D)
        self.bomb = None

    def do_intersect(self, ray, int_pt, int_normal, shooting_from_outside):
        if self.bomb is not None:
            self.bomb.hit("do")
        super().do_intersect(ray, int_pt, int_normal, shooting_from_outside)

    def test_intersect(self, ray):
        if self.bomb is not None:
            self.bomb.hit("test")
        hit, pt, normal = self.surface.test_intersect(ray)
        return hit, pt, normal, None
'''


def user_module(U):
    m = getattr(U, "user", None)
    if m is None:
        m = types.ModuleType("sim_user_optics")
        m.__dict__.update(optics3d=U.optics3d, general_optics=U.general_optics, shapes=U.shapes)
        exec(compile(_USER_SRC, "sim_user_optics", "exec"), m.__dict__)
        U.user = m
    sys.modules["sim_user_optics"] = m
    return m


def activate(U):
    U.activate()
    user_module(U)


def arr(v, as_int=False):
    if as_int and all(float(x).is_integer() for x in v):
        return np.array([int(x) for x in v])
    return np.array([float(x) for x in v])


def build_tree(U, t):
    BT = U.general_optics.BinaryTree
    if "op" not in t:
        return BT(build_leaf(U, t))
    n = BT(t["op"])
    grow(U, n, t)
    return n


def grow(U, n, t):
    """Fill a node with insertLeft and insertRight, which push what is already there one level down."""
    for side, insert, child in (("a", n.insertLeft, n.getLeftChild), ("b", n.insertRight, n.getRightChild)):
        s = t[side]
        if "op" not in s:
            insert(build_leaf(U, s))
        elif "op" not in s[side] and "op" not in s["b" if side == "a" else "a"]:
            # the first part is there before the operation that takes it
            insert(build_leaf(U, s[side]))
            insert(s["op"])
            m = child()
            (m.insertRight if side == "a" else m.insertLeft)(build_leaf(U, s["b" if side == "a" else "a"]))
        else:
            insert(s["op"])
            grow(U, child(), s)


def build_leaf(U, t):
    if "s" in t:
        c, R = t["s"]
        return U.shapes.Sphere(center=arr(c), R=R)
    c, a, R = t["y"]
    return U.shapes.InfiniteCylinder(center=arr(c), direction=arr(a), R=R)


def build_optic(U, o, keep=None):
    O = U.optics3d
    a = {}
    for k in ("c", "n", "t", "dn"):
        if k in o:
            a[k] = arr(o[k], o.get("int", False) and k != "dn")
            if keep is not None:
                keep.append((o["id"] + "." + k, a[k], a[k].copy()))
    k = o["k"]
    x = {n: arr(v) if isinstance(v, list) else v for n, v in o.get("x", {}).items()}
    if k == "mc":
        return O.Mirror(a["c"], shape="circular_flat", normal=a["n"], D=o["D"], **x)
    if k == "mr":
        return O.Mirror(a["c"], shape="rectangular_flat", normal=a["n"], h=o["h"], w=o["w"], tangent=a["t"], **x)
    if k == "dmd":
        return O.Mirror(a["c"], shape="rectangular_flat", normal=a["n"], h=o["h"], w=o["w"], tangent=a["t"],
                        type="dmd", dmd_normal=a["dn"], **x)
    if k == "mcc":
        return O.Mirror(a["c"], shape="circular_concave_spherical", normal=a["n"], D=o["D"], f=o["f"], **x)
    if k == "mcv":
        return O.Mirror(a["c"], shape="circular_convex_spherical", D=o["D"], **x)
    if k in ("li", "lc", "lf"):
        ty = {"li": "ideal", "lc": "ideal_collimate", "lf": "ideal_focus"}[k]
        return O.Lens(a["c"], normal=a["n"], shape="spherical_biconvex", D=o["D"], f=o["f"], type=ty, **x)
    if k == "lb":
        return O.Lens(a["c"], shape="spherical", D=o["D"], index=o["index"], **x)
    if k == "g":
        return O.Grating(a["c"], a["n"], a["t"], w=o["w"], h=o["h"], G=o["G"], **x)
    if k == "d":
        return O.Detector(a["c"], a["n"], a["t"], w=o["w"], h=o["h"])
    if k == "cp":
        return O.Compound(build_tree(U, o["tree"]), surface_behavior=o["beh"], index=o["index"])
    if k == "ub":
        return user_module(U).Absorber(a["c"], a["n"], o["D"])
    if k == "an":
        return O.Annotation(a["c"], a["n"], "circle")
    if k == "fi":
        return O.Filter(a["c"], a["n"], "circle")
    if k == "wi":
        return O.Window(a["c"], a["n"], "circle")
    raise HarnessError("optic kind " + str(k))


class World:
    """Live objects of one scene in one universe."""

    def __init__(self, U, scene, rays=None, optics=None, log=False):
        activate(U)
        self.U, self.scene = U, scene
        self.given = []                 # (name, caller's array, copy)
        self.od = {o["id"]: o for o in scene["optics"]}
        self.rd = {r["id"]: r for r in scene["rays"]}
        self.optics = {}
        for o in scene["optics"]:
            if optics is None or o["id"] in optics:
                self.optics[o["id"]] = build_optic(U, o, self.given)
        self.order = list(self.optics)
        self._list = self._listed = None
        self.rays = {}
        self.arrays = {}
        for r in scene["rays"]:
            if rays is None or r["id"] in rays:
                self.rays[r["id"]] = self.make_ray(r, log or r.get("log", False))

    def make_ray(self, r, log=False):
        key = r.get("pa")
        if key is not None and (key, tuple(r["p"])) in self.arrays:
            p = self.arrays[key, tuple(r["p"])]
        else:
            p = arr(r["p"], r.get("int", False))
            self.given.append((r["id"] + ".p", p, p.copy()))
            if key is not None:
                self.arrays[key, tuple(r["p"])] = p
        d = arr(r["d"], r.get("int", False))
        self.given.append((r["id"] + ".d", d, d.copy()))
        return self.U.optics3d.Ray(p, d, wavelength=r["wl"], order=r.get("o", 0), print_trajectory=bool(log),
                                   type="faerie_fire" if r.get("ff") else "normal")

    def olist(self):
        if self._list is None:
            self._list = [self.optics[i] for i in self.order]
            self._listed = list(self._list)
        return self._list

    def set_order(self, ids, how="new"):
        """Re-list the optics: in a new list, in the list given before ("same"), or only these, in that list ("some")."""
        ids = [i for i in ids if i in self.optics]
        self.order = ids + ([] if how == "some" else [i for i in self.optics if i not in ids])
        if how == "new" or self._list is None:
            self._list = None
        else:
            self._list[:] = self._listed[:] = [self.optics[i] for i in self.order]

    def oids(self, optic_list):
        rev = {id(v): k for k, v in self.optics.items()}
        return [rev[id(o)] for o in optic_list]

    def changed_inputs(self):
        for name, a, c in self.given:
            if a.dtype != c.dtype or a.shape != c.shape or not np.array_equal(a, c):
                return name
        if self._list is not None and self._listed is not None:
            a, b = self._list, self._listed
            if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
                return "list of optics"
        return None

    # -- checkpoints --------------------------------------------------------------------------------------------
    def checkpoint(self, mode):
        """Replace every live object by a copy; 'restart' also replaces the process, i.e. the universe."""
        activate(self.U)
        state = (self.optics, self.rays)
        if mode == "deepcopy":
            self.optics, self.rays = copy.deepcopy(state)
        elif mode == "pickle":
            self.optics, self.rays = pickle.loads(pickle.dumps(state))
        elif mode == "separate":
            self.optics = {k: pickle.loads(pickle.dumps(v)) for k, v in self.optics.items()}
            self.rays = {k: copy.deepcopy(v) for k, v in self.rays.items()}
        elif mode == "restart":
            blob = pickle.dumps(state, protocol=4)
            self.U = Universe()
            activate(self.U)
            self.optics, self.rays = pickle.loads(blob)
        elif mode == "copyrays":
            self.rays = {k: copy.deepcopy(v) for k, v in self.rays.items()}
        elif mode in ("fork", "fork-pickle", "overtaken"):
            # two copies live side by side; what one does must not show in the other
            optics, rays = copy.deepcopy(state) if mode != "fork-pickle" else pickle.loads(pickle.dumps(state))
            gone = (optics, rays) if mode != "overtaken" else state
            S = self.scene["S"]
            out, sys.stdout = sys.stdout, NullOut()
            try:
                for r in gone[1].values():
                    try:
                        r.run(3.0 * S, [gone[0][i] for i in self.order], 12)
                    except Exception:
                        pass
            finally:
                sys.stdout = out
            if mode == "overtaken":
                self.optics, self.rays = optics, rays
        else:
            raise HarnessError("checkpoint " + mode)
        self._list = None
        if mode in ("deepcopy", "pickle", "separate", "restart", "overtaken"):
            self.given = []   # the caller's arrays now belong to the objects thrown away


def process_state():
    """What a call could leave behind outside the objects it was given."""
    return {"numpy's error handling": np.geterr(), "numpy's print options": repr(sorted(np.get_printoptions().items())),
            "the recursion limit": sys.getrecursionlimit(), "the working directory": os.getcwd(),
            "the output stream": id(sys.stdout), "garbage collection": gc.isenabled(),
            "the decimal context": decimal.getcontext().prec}


def state_changed(before):
    now = process_state()
    for k in before:
        if before[k] != now[k]:
            return k
    return None


def hits(det):
    """Detector records as tuples of floats."""
    return [tuple(float(x) for x in np.asarray(row).ravel()) for row in det.hit_data]


def detectors(scene):
    return [o["id"] for o in scene["optics"] if o["k"] == "d"]


def path(ray):
    return [tuple(float(x) for x in np.asarray(q).ravel()) for q in ray.point_history]


def final(ray):
    return (tuple(float(x) for x in np.asarray(ray.position).ravel()),
            tuple(float(x) for x in np.asarray(ray.direction).ravel()), bool(ray.blocked))


def snap(ray):
    p, d, b = final(ray)
    return {"path": path(ray), "pos": p, "dir": d, "blocked": b}


class NullOut:
    """Stands in for stdout; keeps the text."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def text(self):
        return "".join(self.parts)


@contextlib.contextmanager
def quiet(out=None):
    """One run's process state: silent stdout, fixed numpy error state, fixed global generator."""
    old = sys.stdout
    st = np.random.get_state()
    clock = simids.SimClock()
    if not isinstance(old, NullOut):        # outermost
        simids.reset()
    clock.install()
    random.seed(20181208)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            np.random.seed(20181208)
            sys.stdout = out if out is not None else NullOut()
            try:
                yield sys.stdout
            finally:
                sys.stdout = old
                clock.remove()
                np.random.set_state(st)


# -- bounded execution --------------------------------------------------------------------------------------------
_mon = sys.monitoring
_TOOL = 4
_counter = [0, 0]
_ready = False


def _tick(*a):
    _counter[0] -= 1
    if _counter[0] < 0:
        raise SimLimit()
    sim = sched._current
    if sim is not None and sim.dropped and _thread.get_ident() in sim.dropped:
        sim.rearm(sys._getframe(2))


def _on_start(code, off):
    from .universe import is_repo_code
    if not is_repo_code(code.co_filename):
        return _mon.DISABLE
    _tick()


def _on_jump(code, off, dest):
    from .universe import is_repo_code
    if not is_repo_code(code.co_filename):
        return _mon.DISABLE
    _tick()


@contextlib.contextmanager
def bounded(n=20_000_000):
    """At most n calls and jumps of repository code inside; SimLimit beyond (deterministic, unlike a timeout)."""
    global _ready
    if not _ready:
        _mon.use_tool_id(_TOOL, "simbound")
        _mon.register_callback(_TOOL, _mon.events.PY_START, _on_start)
        _mon.register_callback(_TOOL, _mon.events.JUMP, _on_jump)
        _ready = True
    old = _counter[0]
    _counter[0] = n
    _mon.set_events(_TOOL, _mon.events.PY_START | _mon.events.JUMP)
    try:
        yield
    finally:
        _mon.set_events(_TOOL, 0)
        _counter[0] = old


def call_limit(D, I):
    return (D,) if I is None else (D, I)


def leg(world, rid, D, I=None):
    """One Ray.run call."""
    ray = world.rays[rid]
    if I is None:
        return ray.run(D, world.olist())
    return ray.run(D, world.olist(), I)


def solo(scene, rid, D, I=None, order=None, optics=None, nudge=None, legs=None, log=False):
    """The ray traced alone against freshly built optics in a fresh universe."""
    U = Universe()
    if nudge is not None:
        scene = dict(scene, rays=[dict(r, p=[a + b for a, b in zip(r["p"], nudge)], int=False) if r["id"] == rid else r
                                  for r in scene["rays"]])
    out = NullOut()
    with quiet(out), bounded():
        w = World(U, scene, rays=[rid], optics=optics, log=log)
        if order is not None:
            w.set_order(order)
        for (d, i) in (legs or [(D, I)]):
            leg(w, rid, d, i)
        r = snap(w.rays[rid])
        r["hits"] = {k: hits(w.optics[k]) for k in detectors(scene) if k in w.optics}
        if log:
            r["log"] = out.text()
        r["mutated"] = w.changed_inputs()
    return r
