"""Seeded scene generator.  A scene is plain JSON: {"S": scale, "optics": [...], "rays": [...]}.

Optics and rays carry string ids; every operation refers to them by id, so that the minimiser may drop any of them.
Styles differ in what they stress; a run draws its style and its knobs (swarm testing), not a uniform mixture.
"""
import math
from .vec import add, sub, mul, dot, cross, norm, unit, rnd_dir, rnd_in_disc, rnd_rotation, rot, dist, perp, along

FLAT = ("mc", "mr", "dmd", "li", "lc", "lf", "g", "d", "ub")


def L(v):
    return [float(x) for x in v]


class Gen:
    def __init__(self, rng, S):
        self.rng, self.S = rng, S
        self.optics, self.rays = [], []
        self.bodies = []        # bounding spheres of volumes

    # -- optics ---------------------------------------------------------------------------------------------------
    def put(self, **o):
        o["id"] = "o%d" % len(self.optics)
        for k in ("c", "n", "t", "dn"):
            if k in o:
                o[k] = L(o[k])
        self.optics.append(o)
        return o

    def clear_of_bodies(self, c, r):
        return all(dist(c, b) > r + q + 0.02 * self.S for b, q in self.bodies)

    def frame(self, n):
        n = unit(n)
        a = perp(n)
        b = cross(n, a)
        x = self.rng.uniform(0, 2 * math.pi)
        t = unit(add(mul(a, math.cos(x)), mul(b, math.sin(x))))
        return n, t

    def flat(self, kind, c, n, size):
        rng = self.rng
        n, t = self.frame(n)
        if kind in ("mc", "ub"):
            return self.put(k=kind, c=c, n=n, D=2 * size)
        if kind in ("li", "lc", "lf"):
            return self.put(k=kind, c=c, n=n, D=2 * size, f=size * rng.uniform(0.6, 6))
        h, w = 2 * size * rng.uniform(0.5, 1), 2 * size * rng.uniform(0.5, 1)
        if kind == "dmd":
            dn = unit(add(n, mul(rnd_dir(rng), rng.uniform(0.02, 0.25))))
            return self.put(k=kind, c=c, n=n, t=t, h=h, w=w, dn=dn)
        if kind == "g":
            return self.put(k=kind, c=c, n=n, t=t, h=h, w=w, G=rng.choice([150, 300, 600, 1200, 1800]))
        return self.put(k=kind, c=c, n=n, t=t, h=h, w=w)

    def concave(self, c, n, A):
        f = A * self.rng.uniform(1.2, 8)
        return self.put(k="mcc", c=c, n=unit(n), D=2 * A, f=f)

    def body(self, kind, c, r):
        rng = self.rng
        index = rng.choice([1.33, 1.5, 1.52, 1.8, 2.4, 1.0003, 1.6, 4, rng.choice([0.75, 0.9, 0.99999])])
        if kind == "mcv":
            o = self.put(k="mcv", c=c, n=(0, 0, 1), D=2 * r)
        elif kind == "lb":
            o = self.put(k="lb", c=c, D=2 * r, index=index)
        else:
            tree = self.tree(c, r)
            beh = "reflect" if rng.random() < 0.25 else "refract"
            o = self.put(k="cp", c=c, r=r, tree=tree, beh=beh, index=index)
        self.bodies.append((c, r))
        return o

    def tree(self, c, r):
        """A body that fits in the sphere (c, r)."""
        rng = self.rng
        x = rng.random()
        if x < 0.3:
            t = self.simple_tree(c, r)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                t = self.combine(t, c, r)
            return t
        return self.simple_tree(c, r)

    def combine(self, t, c, r):
        """Something taken from or added to a body, within the same sphere."""
        rng = self.rng
        a = rnd_dir(rng)
        x = rng.random()
        if x < 0.25:
            q = r * rng.uniform(0.2, 0.6)
            b = {"s": [L(add(c, mul(a, (r - q) * rng.random() ** 0.5))), q]}
            return {"op": "union", "a": t, "b": b} if rng.random() < 0.5 else {"op": "union", "a": b, "b": t}
        if x < 0.55:
            b = {"s": [L(add(c, mul(a, r * rng.uniform(0.3, 1.2)))), r * rng.uniform(0.2, 1.0)]}
        else:
            b = {"y": [L(add(c, mul(rnd_dir(rng), r * 0.8 * rng.random()))), L(a), r * rng.uniform(0.1, 0.5)]}
        if x < 0.85:
            return {"op": "difference", "a": t, "b": b}
        b = {"y": [L(add(c, mul(rnd_dir(rng), 0.2 * r))), L(a), r * rng.uniform(0.4, 0.9)]}
        return {"op": "intersect", "a": t, "b": b} if rng.random() < 0.5 else {"op": "intersect", "a": b, "b": t}

    def simple_tree(self, c, r):
        rng = self.rng
        x = rng.random()
        if x < 0.25:
            return {"s": [L(c), r]}
        a = rnd_dir(rng)
        if x < 0.6:     # lens: two spheres
            R1, R2 = r * rng.uniform(1.1, 4), r * rng.uniform(1.1, 4)
            e = rng.uniform(0.2, 0.6) * r / 2
            return {"op": "intersect",
                    "a": {"s": [L(add(c, mul(a, R1 - e))), R1]},
                    "b": {"s": [L(sub(c, mul(a, R2 - e))), R2]}}
        if x < 0.8:     # rod with a spherical boundary
            return {"op": "intersect", "a": {"s": [L(c), r]},
                    "b": {"y": [L(add(c, mul(rnd_dir(rng), 0.2 * r))), L(a), r * rng.uniform(0.3, 0.8)]}}
        q = r * rng.uniform(0.4, 0.7)
        d = (r - q)
        return {"op": "union", "a": {"s": [L(add(c, mul(a, d))), q]},
                "b": {"s": [L(sub(c, mul(a, d))), q]}}

    def inert(self):
        rng = self.rng
        return self.put(k=rng.choice(["an", "fi", "wi"]), c=mul(rnd_dir(rng), self.S * rng.random()), n=rnd_dir(rng))

    # -- rays -----------------------------------------------------------------------------------------------------
    def ray(self, p, d, **kw):
        r = {"id": "r%d" % len(self.rays), "p": L(p), "d": L(d), "wl": kw.pop("wl", None), "o": kw.pop("o", 0)}
        if r["wl"] is None:
            r["wl"] = self.rng.choice([532, 532.0, 450, 632.8, 589.29, 380.25, 780, 1064, self.rng.uniform(350, 1100)])
        r.update(kw)
        self.rays.append(r)
        return r

    def target(self):
        rng = self.rng
        o = rng.choice([o for o in self.optics if o["k"] not in ("an", "fi", "wi")] or self.optics)
        return self.point_on(o), o

    def point_on(self, o):
        rng = self.rng
        if o["k"] in ("lb", "mcv"):
            return add(o["c"], mul(rnd_dir(rng), o["D"] / 2 * rng.random()))
        if o["k"] == "cp":
            return add(o["c"], mul(rnd_dir(rng), o["r"] * rng.uniform(0.0, 0.9)))
        if "D" in o:
            return rnd_in_disc(rng, o["c"], o["n"], o["D"] / 2 * 0.9)
        if "h" in o:
            t2 = cross(o["n"], o["t"])
            return add(o["c"], add(mul(o["t"], o["h"] * rng.uniform(-.45, .45)), mul(t2, o["w"] * rng.uniform(-.45, .45))))
        return o["c"]

    def aimed(self, p, **kw):
        for _ in range(20):
            q, o = self.target()
            d = sub(q, p)
            if norm(d) > 1e-3:
                break
        else:
            d = rnd_dir(self.rng)
        k = self.rng.random()
        d = unit(d) if k < 0.5 else d if k < 0.9 else mul(d, 1e-3)   # callers do not normalise
        if kw.get("o") is None:
            kw["o"] = self.rng.choice([0, 0, 1, -1, 2])
        return self.ray(p, d, **kw)

    def scene(self, style, **kw):
        s = {"S": self.S, "style": style, "optics": self.optics, "rays": self.rays}
        s.update(kw)
        return s


def leaf(rng, c, r, bounded, axes=None):
    """A primitive near the sphere (c, r); a sphere inside it if it has to be."""
    a = rnd_dir(rng)
    if axes is not None:        # some cylinders are parallel, or nearly
        if axes and rng.random() < 0.4:
            a = unit(add(rng.choice(axes), mul(rnd_dir(rng), rng.choice([0.0, 10.0 ** rng.uniform(-6, -1)]))))
        axes.append(a)
    if bounded:
        q = r * rng.uniform(0.25, 1.0)
        return {"s": [L(add(c, mul(a, (r - q) * rng.choice([rng.random(), 1.0])))), q]}
    if rng.random() < 0.5:
        if rng.random() < 0.3:      # a large one: nearly a half space
            R = r * rng.uniform(2, 6)
            return {"s": [L(add(c, mul(a, R + r * rng.uniform(-.8, .8)))), R]}
        return {"s": [L(add(c, mul(a, r * rng.uniform(0, 1.1)))), r * rng.uniform(0.15, 1.1)]}
    return {"y": [L(add(c, mul(rnd_dir(rng), r * 0.8 * rng.random()))), L(a), r * rng.uniform(0.1, 0.9)]}


def any_tree(rng, c, r, n, bounded=True, axes=None, chain=0):
    """A tree of n booleans over spheres and cylinders whose set lies in the sphere (c, r) if it has to be bounded;
    with chain, one that is (mostly) a single long branch, to the left or to the right."""
    if n == 0:
        return leaf(rng, c, r, bounded, axes)
    k = rng.choice([0, n - 1, rng.randrange(n)])
    if chain and rng.random() < 0.95:
        k = n - 1 if rng.random() < (1 if chain == 1 else 0 if chain == 2 else 0.5) else 0
    op = rng.choice(["union", "intersect", "difference", "difference"])
    ba = bb = bounded
    if op == "intersect" and bounded:
        ba = rng.random() < 0.5
        bb = not ba
    elif op == "difference":
        bb = False
    return {"op": op, "a": any_tree(rng, c, r, k, ba, axes, chain), "b": any_tree(rng, c, r, n - 1 - k, bb, axes, chain)}


def nodes(t):
    return 1 + nodes(t["a"]) + nodes(t["b"]) if "op" in t else 1


def cluster(rng, c, r):
    """A long branch of parts of which each one shows: a cheese, a bunch of grapes, an onion."""
    m = int(10 * 10 ** rng.uniform(0, 0.5))
    if rng.random() < 0.3:
        t, q = None, r * 0.05
        gap = (r - q) / m
        for i in range(m):
            q += gap
            s = {"s": [L(add(c, mul(rnd_dir(rng), 0.3 * gap * rng.random()))), q]}
            t = s if t is None else {"op": "difference", "a": s, "b": t}
        return t
    q = r * rng.choice([0.1, 0.2, 0.3])
    parts = [{"s": [L(add(c, mul(rnd_dir(rng), (r - q) * rng.random() ** 0.4))), q * rng.uniform(0.5, 1)]} for _ in range(m)]
    cheese = rng.random() < 0.5
    t = {"s": [L(c), r]} if cheese else parts.pop()
    for s in parts:
        t = {"op": "difference", "a": t, "b": s} if cheese else \
            {"op": "union", "a": t, "b": s} if rng.random() < 0.5 else {"op": "union", "a": s, "b": t}
    return t


def beads(rng, c, r):
    """Spheres in a row, perhaps taken from something bigger, so that lines cross the surface many times; -> tree, axis"""
    n = rng.randint(3, 9)
    a = rnd_dir(rng)
    step = 1.8 * r / n
    q = step * rng.uniform(0.3, 0.49)
    parts = [{"s": [L(add(c, mul(a, -0.9 * r + (i + 0.5) * step))), q]} for i in range(n)]
    if rng.random() < 0.5:
        rng.shuffle(parts)
    while len(parts) > 1:       # joined in any order
        i = rng.randrange(len(parts) - 1) if rng.random() < 0.7 else 0
        parts[i:i + 2] = [{"op": "union", "a": parts[i], "b": parts[i + 1]}]
    t = parts[0]
    x = rng.random()
    if x < 0.35:
        t = {"op": "difference", "a": {"s": [L(c), r]}, "b": t}
    elif x < 0.5:
        t = {"op": "difference", "a": t, "b": {"y": [L(c), L(a), q * rng.uniform(0.1, 0.5)]}}
    elif x < 0.6:
        t = {"op": "intersect", "a": t, "b": {"y": [L(c), L(a), q * rng.uniform(0.5, 0.9)]}}
    return t, a


def thin(rng, c, r):
    """A body with a thin wall, a thin gap or a thin rim."""
    R = r * rng.uniform(0.4, 0.95)
    t = R * 10.0 ** rng.uniform(-4.7, -1.5)
    u = rnd_dir(rng)
    outer, inner = {"s": [L(c), R]}, {"s": [L(add(c, mul(u, t * rng.choice([0, rng.random(), rng.uniform(1, 3)])))), R - t]}
    x = rng.random()
    if x < 0.4:
        b = {"op": "difference", "a": outer, "b": inner}
    elif x < 0.5:
        b = {"op": "union", "a": inner, "b": outer} if rng.random() < 0.5 else {"op": "intersect", "a": inner, "b": outer}
    elif x < 0.6:       # a core in a gap
        b = {"op": "difference", "a": outer, "b": {"op": "difference", "a": inner,
                                                   "b": {"s": [inner["s"][0], R - 2 * t]}}}
    elif x < 0.8:       # two caps that nearly touch
        q = R / 2
        b = {"op": "union", "a": {"s": [L(add(c, mul(u, q))), q - t]}, "b": {"s": [L(sub(c, mul(u, q))), q]}}
    else:               # a tube
        b = {"op": "intersect", "a": outer, "b": {"op": "difference", "a": {"y": [L(c), L(u), R / 2]},
                                                  "b": {"y": [L(c), L(u), R / 2 - t]}}}
    if rng.random() < 0.4:      # opened
        b = {"op": "difference", "a": b, "b": leaf(rng, c, r, False)}
    return b


def gen_bodies(rng, overlap=False, nray=None, deepest=8):
    """Composed bodies of any tree, with other things around them."""
    S = rng.choice([20.0, 100.0, 300.0, 1000.0])
    g = Gen(rng, S)
    if rng.random() < 0.3:
        g = style_cavity(rng, S, 0, 0)
    axes, rows = [], []
    for _ in range(rng.choice([1, 1, 2, 3, 5] if overlap else [1, 1, 2, 3])):
        r = S * rng.uniform(0.1, 0.5)
        c = mul(rnd_dir(rng), S * rng.random() * 0.6) if overlap else free_pos(g, r)
        if c is None:
            continue
        x = rng.random()
        if x < (0.3 if overlap else 0.1):
            g.body("lb", c, r)
            continue
        o = g.body("cp", c, r)
        if x < 0.85:
            o["tree"] = any_tree(rng, c, r, min(deepest, int(rng.expovariate(0.4))), True, axes)
        elif x < 0.87:
            o["tree"] = any_tree(rng, c, r, int(10 * 10 ** rng.uniform(0, 0.5)), True, axes, rng.choice([1, 2, 3]))
        elif x < 0.91:
            o["tree"] = cluster(rng, c, r)
        elif x < 0.95:
            o["tree"] = thin(rng, c, r)
        elif x < 0.97:
            o["tree"], axis = beads(rng, c, r)
            rows.append((c, r, axis))
    others = rng.choice([[], [], ["mc", "mr"], ["d", "li"], ["mcv", "mc", "d"]])
    for _ in range(rng.randint(0, 3) if others else 0):
        add_any(g, rng.choice(others))
    if not any(o["k"] in ("cp", "lb") for o in g.optics):
        g.body("cp", (0.0, 0.0, 0.0), S / 4)
    bodies = [o for o in g.optics if o["k"] in ("cp", "lb")]
    for _ in range(nray or rng.choice([1, 2, 3, 5])):
        o = rng.choice(bodies)
        r = o.get("r") or o["D"] / 2
        p = add(o["c"], mul(rnd_dir(rng), r * (rng.random() ** 0.5 if rng.random() < 0.4 else rng.uniform(1.02, 3))))
        q = add(o["c"], mul(rnd_dir(rng), r * rng.random()))
        d = sub(q, p)
        g.ray(p, unit(d) if norm(d) > 1e-3 else rnd_dir(rng), o=0)
    for c, r, axis in rows:     # along the row
        p = add(c, mul(axis, r * rng.choice([-1, 1]) * rng.choice([1.2, rng.random()])))
        d = add(mul(axis, rng.choice([-1, 1])), mul(rnd_dir(rng), 0.05 * rng.random()))
        g.ray(add(p, mul(rnd_dir(rng), 0.1 * r * rng.random())), unit(d), o=0)
    if rng.random() < 0.15:     # a body of the index of the world, or of another body
        for o in bodies:
            if rng.random() < 0.5:
                o["index"] = rng.choice([1.0, 1.0, bodies[0]["index"]])
    if rng.random() < 0.5:
        rng.shuffle(g.optics)
    return g.scene("bodies")


def swarm_kinds(rng, kinds):
    k = [x for x in kinds if rng.random() < 0.6]
    return k or [rng.choice(kinds)]


def free_pos(g, r, tries=60):
    for _ in range(tries):
        c = mul(rnd_dir(g.rng), g.S * g.rng.random() ** (1 / 3) * 1.2)
        if g.clear_of_bodies(c, r):
            return c
    return None


def add_any(g, kind):
    rng, S = g.rng, g.S
    size = S * rng.uniform(0.08, 0.4)
    if kind in ("lb", "mcv", "cp"):
        c = free_pos(g, size)
        if c is None:
            return None
        return g.body(kind, c, size)
    c = mul(rnd_dir(rng), S * rng.uniform(0.2, 1.2))
    n = unit(mul(c, -1)) if rng.random() < 0.5 else rnd_dir(rng)
    n = unit(add(n, mul(rnd_dir(rng), 0.3 * rng.random())))
    if kind == "mcc":
        return g.concave(c, n, size)
    return g.flat(kind, c, n, size)


def style_cloud(rng, S, nopt, nray, kinds=None):
    g = Gen(rng, S)
    ks = swarm_kinds(rng, kinds or ["mc", "mr", "dmd", "mcc", "mcv", "li", "lc", "lf", "lb", "d", "cp", "ub"])
    for _ in range(nopt):
        add_any(g, rng.choice(ks))
    if not g.optics:
        g.flat("mc", (0, 0, S), (0, 0, -1), S / 2)
    for _ in range(nray):
        p = mul(rnd_dir(rng), S * rng.uniform(0.1, 1.5))
        g.aimed(p)
    return g


def style_cavity(rng, S, nopt, nray, kinds=None):
    """A closed box of mirrors with things in it: long traces."""
    g = Gen(rng, S)
    R = rnd_rotation(rng)
    e = S * rng.uniform(0.9, 1.1)
    for ax in range(3):
        for sg in (-1, 1):
            n = [0.0, 0.0, 0.0]
            n[ax] = -sg
            n = unit(add(rot(R, n), mul(rnd_dir(rng), 0.03 * rng.random())))
            c = [0.0, 0.0, 0.0]
            c[ax] = sg * e
            c = rot(R, c)
            k = rng.random()
            if k < 0.6:
                n, t = g.frame(n)
                g.put(k="mr", c=c, n=n, t=t, h=6 * S, w=6 * S)
            elif k < 0.9:
                g.put(k="mc", c=c, n=n, D=6 * S)
            else:
                g.put(k="ub", c=c, n=n, D=6 * S)
    ks = swarm_kinds(rng, kinds or ["mc", "mr", "mcv", "lb", "li", "d", "cp", "dmd", "mcc"])
    for _ in range(nopt):
        k = rng.choice(ks)
        size = S * rng.uniform(0.05, 0.3)
        if k in ("lb", "mcv", "cp"):
            c = free_pos(g, size)
            if c is not None and norm(c) + size < 0.8 * S:
                g.body(k, c, size)
        elif k == "mcc":
            g.concave(mul(rnd_dir(rng), 0.6 * S * rng.random()), rnd_dir(rng), size)
        else:
            g.flat(k, mul(rnd_dir(rng), 0.6 * S * rng.random()), rnd_dir(rng), size)
    for _ in range(nray):
        for _ in range(10):
            p = mul(rnd_dir(rng), 0.7 * S * rng.random())
            if g.clear_of_bodies(p, 0.0):
                break
        g.ray(p, rnd_dir(rng), o=0)
    return g


def style_bench(rng, S, nopt, nray, kinds=None):
    """Optics along an axis, a fan of rays through them, a detector at the end."""
    g = Gen(rng, S)
    R = rnd_rotation(rng) if rng.random() < 0.7 else ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))
    org = mul(rnd_dir(rng), S * rng.random())
    A = S * rng.uniform(0.05, 0.3)
    ks = swarm_kinds(rng, kinds or ["li", "lc", "lf", "lb", "cp", "li", "li"])
    y = 0.0
    pos = []
    for i in range(nopt):
        y += S * rng.uniform(0.3, 1.0) + 2 * A
        k = rng.choice(ks)
        c = add(org, rot(R, (0.0, y, 0.0)))
        if k in ("lb", "cp", "mcv"):
            g.body(k, c, A)
        elif k == "mcc":
            g.concave(c, rot(R, (0., -1., 0.)), A)
        else:
            n = rot(R, (0.0, rng.choice([-1.0, 1.0]), 0.0))
            if rng.random() < 0.4:
                n = unit(add(n, mul(rnd_dir(rng), 0.2 * rng.random())))
            g.flat(k, c, n, A)
        pos.append(y)
    y += S * rng.uniform(0.3, 1.5)
    n, t = rot(R, (0., -1., 0.)), rot(R, (1., 0., 0.))
    if rng.random() < 0.85:
        g.put(k="d", c=add(org, rot(R, (0., y, 0.))), n=n, t=t, h=8 * A, w=8 * A)
    if rng.random() < 0.4:
        g.put(k="mc", c=add(org, rot(R, (0., y + S / 3, 0.))), n=n, D=20 * A)
    for _ in range(nray):
        p = add(org, rot(R, (A * rng.uniform(-.5, .5), -S * rng.uniform(0, .3), A * rng.uniform(-.5, .5))))
        d = rot(R, (rng.uniform(-.1, .1), 1.0, rng.uniform(-.1, .1)))
        if rng.random() < 0.2:
            d = rot(R, (0.0, 1.0, 0.0))
        g.ray(p, d, o=0)
    return g


def style_balls(rng, S, nopt, nray, kinds=None):
    g = Gen(rng, S)
    ks = swarm_kinds(rng, kinds or ["lb", "mcv", "cp", "lb"])
    for _ in range(nopt):
        size = S * rng.uniform(0.1, 0.45)
        c = free_pos(g, size)
        if c is not None:
            g.body(rng.choice(ks), c, size)
    if not g.optics:
        g.body("lb", (0.0, 0.0, 0.0), S / 4)
    if rng.random() < 0.5:
        add_any(g, "d")
    for _ in range(nray):
        if rng.random() < 0.3:      # start inside a glass ball
            o = rng.choice(g.optics)
            if o["k"] in ("lb", "cp"):
                p = add(o["c"], mul(rnd_dir(rng), (o["D"] / 2 if o["k"] == "lb" else o["r"]) * 0.9 * rng.random()))
                g.ray(p, rnd_dir(rng), o=0)
                continue
        for _ in range(20):
            p = mul(rnd_dir(rng), S * rng.uniform(0.3, 2))
            if g.clear_of_bodies(p, 0.0):
                break
        g.aimed(p, o=0)
    return g


def style_planar(rng, S, nopt, nray, kinds=None):
    """Everything in one plane: gratings are met in their dispersion plane."""
    g = Gen(rng, S)
    R = rnd_rotation(rng) if rng.random() < 0.7 else ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))
    org = rot(R, (S * rng.uniform(-1, 1), S * rng.uniform(-1, 1), 0.0))
    ks = swarm_kinds(rng, kinds or ["g", "g", "mr", "mc", "d", "mcc", "li"])
    if "g" not in ks:
        ks.append("g")
    z = rot(R, (0., 0., 1.))
    for i in range(nopt):
        k = "g" if i == 0 else rng.choice(ks)
        a = 2 * math.pi * (i + rng.uniform(-.3, .3)) / nopt
        c = (S * math.cos(a), S * math.sin(a), 0.0)
        b = a + math.pi + rng.uniform(-0.9, 0.9)
        n = rot(R, (math.cos(b), math.sin(b), 0.0))
        c = add(org, rot(R, c))
        size = S * rng.uniform(0.15, 0.5)
        t = z if rng.random() < 0.5 else mul(z, -1)
        if k == "g":
            g.put(k="g", c=c, n=n, t=t, h=size, w=2 * size, G=rng.choice([150, 300, 600, 900, 1200, 1800, 2400]))
        elif k in ("mr", "d"):
            g.put(k=k, c=c, n=n, t=t, h=size, w=2 * size)
        elif k == "mcc":
            g.concave(c, n, size)
        elif k == "li":
            g.flat(k, c, n, size)
        else:
            g.put(k="mc", c=c, n=n, D=2 * size)
    for _ in range(nray):
        p = add(org, rot(R, (S * rng.uniform(-.6, .6), S * rng.uniform(-.6, .6), 0.0)))
        o = rng.choice(g.optics)
        u = unit(cross(o["n"], z))
        q = add(o["c"], mul(u, S * 0.1 * rng.uniform(-1, 1)))
        d = sub(q, p)
        if norm(d) < 1e-3:
            d = rot(R, (1., 0., 0.))
        if rng.random() < 0.15:         # (nearly) head on, or at a flat angle
            x = slight(rng, -5, -0.5)
            n = unit(o["n"])
            d = unit(add(mul(n, -1), mul(u, x)) if rng.random() < 0.7 else sub(u, mul(n, abs(x) + 0.01)))
            p = sub(q, mul(d, S * rng.uniform(0.05, 0.7)))
        g.ray(p, d, o=rng.choice([0, 1, 1, -1, -1, 2, -2, 3]))
    return g


def style_lattice(rng, S, nopt, nray, kinds=None):
    """Integer coordinates, axis-parallel surfaces and rays, exact tangents, edges and coincidences."""
    S = 10
    g = Gen(rng, float(S))
    ax = [(1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.), (0., 0., 1.), (0., 0., -1.)]
    ks = swarm_kinds(rng, kinds or ["mc", "mr", "mcv", "li", "lb", "d", "mcc", "cp"])
    for _ in range(nopt):
        k = rng.choice(ks)
        c = (float(rng.randint(-8, 8)), float(rng.randint(-8, 8)), float(rng.randint(-8, 8)))
        n = rng.choice(ax)
        t = rng.choice([a for a in ax if dot(a, n) == 0])
        if k in ("mc",):
            g.put(k=k, c=c, n=n, D=float(rng.choice([4, 6, 8, 12])))
        elif k in ("li",):
            g.put(k=k, c=c, n=n, D=float(rng.choice([4, 6, 8])), f=float(rng.choice([5, 10])))
        elif k in ("mr", "d"):
            g.put(k=k, c=c, n=n, t=t, h=float(rng.choice([4, 6, 10])), w=float(rng.choice([4, 6, 10])))
        elif k == "mcc":
            g.put(k=k, c=c, n=n, D=float(rng.choice([4, 6])), f=float(rng.choice([5, 10])))
        else:
            r = float(rng.choice([1, 2, 3]))
            if not g.clear_of_bodies(c, r):
                continue
            g.bodies.append((c, r))
            if k == "cp":       # a rod, or a sphere, on an axis
                tree = {"s": [L(c), r]}
                if rng.random() < 0.8:
                    tree = {"op": "intersect", "a": tree, "b": {"y": [L(c), L(n), r * rng.choice([0.5, 0.7])]}}
                    if rng.random() < 0.3:
                        tree["a"], tree["b"] = tree["b"], tree["a"]
                    if rng.random() < 0.3:      # a drilled or dented sphere
                        tree = {"op": "difference", "a": {"s": [L(c), r]},
                                "b": rng.choice([{"y": [L(c), L(n), r * 0.5]}, {"s": [L(add(c, mul(n, r))), r * 0.5]}])}
                g.put(k="cp", c=c, r=r, tree=tree, beh=rng.choice(["refract", "refract", "reflect"]), index=1.5)
                continue
            g.put(k=k, c=c, n=(0., 0., 1.), D=2 * r, **({"index": 1.5} if k == "lb" else {}))
    if not g.optics:
        g.put(k="mc", c=(5., 0., 0.), n=(-1., 0., 0.), D=4.0)
    for _ in range(nray):
        p = (float(rng.randint(-8, 8)), float(rng.randint(-8, 8)), float(rng.randint(-8, 8)))
        if not g.clear_of_bodies(p, 0.0):
            p = (9.0, 9.0, 9.0)
        if rng.random() < 0.75:
            d = rng.choice(ax)
        else:
            d = (float(rng.randint(-1, 1)), float(rng.randint(-1, 1)), 1.0)
        g.ray(p, d, o=0, int=rng.random() < 0.5)
    return g


STYLES = {"cloud": style_cloud, "cavity": style_cavity, "bench": style_bench, "balls": style_balls,
          "planar": style_planar, "lattice": style_lattice}


ALLOWED = {"balls": ("lb", "mcv", "cp"), "planar": ("g", "mr", "mc", "d", "mcc", "li"),
           "lattice": ("mc", "mr", "mcv", "li", "lb", "d", "mcc", "cp")}


def slight(rng, lo=-9.0, hi=-1.0):
    return rng.choice([-1, 1]) * 10.0 ** rng.uniform(lo, hi)


def special_direction(g, rng):
    """A ray that meets a surface at a special angle, or nearly: head on, at a flat angle, at the critical angle."""
    S = g.S
    cand = [o for o in g.optics if o["k"] in FLAT or o["k"] in ("lb", "mcv", "mcc")]
    if not cand:
        return None
    o = rng.choice(cand)
    far = S * rng.uniform(0.02, 0.8)
    if o["k"] == "lb" and o["index"] != 1.0 and rng.random() < 0.7:     # from inside the glass, near the critical angle
        u = rnd_dir(rng)
        q = add(o["c"], mul(u, o["D"] / 2))
        s = min(o["index"], 1 / o["index"]) * (1 + slight(rng, -6, -1))
        if s < 1:
            t = g.frame(u)[1]
            c = math.sqrt(1 - s * s)
            d = add(mul(u, c), mul(t, s))
            x = 0.02 + 0.96 * rng.random()      # somewhere on the chord that ends at q
            return sub(q, mul(d, o["D"] * c * x)), d
    if o["k"] in ("lb", "mcv"):
        u = rnd_dir(rng)
        n, t = u, g.frame(u)[1]
        q = add(o["c"], mul(u, o["D"] / 2))
        side = 1
    else:
        q = g.point_on(o)
        n, t = g.frame(o["n"])
        side = rng.choice([-1, 1]) if o["k"] != "mcc" else 1
    x = slight(rng)
    if rng.random() < 0.75:
        d = unit(add(mul(n, -side), mul(t, x)))
    else:
        d = unit(add(mul(n, -side * abs(slight(rng, -2.5, -1))), t))
        far = min(far, 0.4 * S)
    return sub(q, mul(d, far)), d


def special_launch(g, rng):
    """A ray that starts close to a surface, or meets a plate close to its rim."""
    S = g.S
    if rng.random() < 0.4:
        return special_direction(g, rng)
    flats = [o for o in g.optics if o["k"] in FLAT]
    balls = [o for o in g.optics if o["k"] in ("lb", "mcv")]
    if not flats and not balls:
        return None
    eps = 10.0 ** rng.uniform(-5.5, 0) * (S / 100 if rng.random() < 0.5 else 1.0)
    if balls and (not flats or rng.random() < 0.3):
        o = rng.choice(balls)
        u = rnd_dir(rng)
        q = add(o["c"], mul(u, o["D"] / 2 + (eps if o["k"] == "mcv" or rng.random() < 0.5 else -eps)))
        d = add(mul(u, rng.choice([-1, 1])), mul(rnd_dir(rng), rng.choice([0.0, 0.5, 1.5])))
        return q, unit(d) if norm(d) > 1e-3 else u
    o = rng.choice(flats)
    n = unit(o["n"])
    if "h" in o:
        t1 = unit(o["t"])
        t2 = cross(n, t1)
        rim = add(mul(t1, rng.choice([-1, 1]) * o["h"] / 2 * rng.choice([1.0, 1.0, rng.random()])),
                  mul(t2, rng.choice([-1, 1]) * o["w"] / 2 * rng.choice([1.0, 1.0, rng.random()])))
    else:
        rim = mul(g.frame(n)[1], o["D"] / 2)
    size = norm(rim) or 1.0
    x = rng.random()
    if x < 0.4:         # close to the surface, anywhere on it
        q = add(o["c"], mul(rim, rng.uniform(-.9, .9)))
        d = add(mul(n, rng.choice([-1, 1])), mul(rnd_dir(rng), rng.choice([0.0, 0.3, 0.8])))
        return add(q, mul(n, eps * rng.choice([-1, 1]))), unit(d)
    # through a point just inside or outside the rim
    q = add(o["c"], mul(rim, rng.choice([rng.uniform(0.85, 0.99), rng.uniform(1.01, 1.1), 1 + slight(rng, -5, -1)])))
    if x < 0.75:        # at a flat angle, outwards
        d = unit(add(mul(unit(rim), rng.choice([1, 1, -1])), mul(n, rng.choice([-1, 1]) * rng.uniform(0.01, 0.2))))
    else:
        d = unit(add(mul(n, rng.choice([-1, 1])), mul(rnd_dir(rng), 0.7 * rng.random())))
    return sub(q, mul(d, size * rng.uniform(0.02, 1.5))), d


def twins(g, rng, kinds):
    """Another optic in exactly the same place as one (which of them acts is decided by the order of the list)."""
    cand = [o for o in g.optics if o["k"] in ("mc", "mr", "li", "d", "ub", "lc", "lf")]
    if not cand:
        return
    o = rng.choice(cand)
    t = list(o.get("t") or g.frame(o["n"])[1])
    size = o.get("D") or max(o["h"], o["w"])
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice([k for k in ("mc", "mr", "li", "d", "ub") if kinds is None or k in kinds] or [o["k"]])
        x = size * rng.choice([1.0, rng.uniform(0.3, 3)])
        p = {"h": x, "w": x * rng.uniform(0.5, 1), "t": t} if k in ("mr", "d") else {"D": x}
        if k == "li":
            p["f"] = x * rng.uniform(0.6, 6)
        g.put(k=k, c=list(o["c"]), n=list(o["n"]), **p)


def stacked(g, rng, kinds):
    """A plate close behind or in front of another one, parallel to it or slightly tilted."""
    cand = [o for o in g.optics if o["k"] in ("mc", "mr", "li", "d", "ub", "lc", "lf", "dmd", "g")]
    if not cand:
        return
    for _ in range(rng.choice([1, 1, 2])):
        o = rng.choice(cand)
        n = unit(o["n"])
        gap = 10.0 ** rng.uniform(-5, 0)
        size = o.get("D") or max(o["h"], o["w"])
        k = rng.choice([k for k in ("mc", "mr", "li", "d", "ub") if kinds is None or k in kinds] or ["mc"])
        x = size * rng.choice([1.0, rng.uniform(0.5, 2)])
        m = n if rng.random() < 0.6 else unit(add(n, mul(rnd_dir(rng), min(0.3, gap / size) * rng.random())))
        p = {"n": L(m), "c": L(add(o["c"], mul(n, gap * rng.choice([-1, 1]))))}
        if k in ("mr", "d"):
            p.update(h=x, w=x * rng.uniform(0.5, 1), t=L(g.frame(m)[1]))
        else:
            p["D"] = x
        if k == "li":
            p["f"] = x * rng.uniform(0.6, 6)
        g.put(k=k, **p)


def extras(g, rng):
    """Constructor arguments that mean nothing for the kind of optic they are given to."""
    for o in g.optics:
        if rng.random() < 0.5:
            if o["k"] in ("mc", "mr", "dmd", "mcc", "mcv"):
                o["x"] = {"thickness": rng.choice([1, 3.5, 25])}
                if o["k"] in ("mc", "mr", "mcv") and rng.random() < 0.5:
                    o["x"]["f"] = rng.choice([10.0, 50, -30.0])
            elif o["k"] == "lb":
                o["x"] = {"f": o["D"] * rng.choice([0.75, 2.0]), "w": 1.0, "h": 2.0}
                if rng.random() < 0.5:
                    o["x"]["normal"] = [0.0, 0.6, 0.8]
            elif o["k"] in ("li", "lc", "lf"):
                o["x"] = {"index": rng.choice([1.0, 1.7])}
            elif o["k"] == "g":
                o["x"] = {"order": rng.choice([0, 1, -1])}


def gen_scene(rng, styles=None, nopt=None, nray=None, kinds=None, inert=True, twin=0.08):
    style = rng.choice(styles or ["cloud", "cloud", "cavity", "bench", "balls", "planar", "lattice"])
    S = rng.choice([20.0, 100.0, 100.0, 300.0, 1000.0, 3000.0])
    nopt = nopt if nopt is not None else rng.choice([1, 2, 3, 4, 5, 6, 8])
    nray = nray if nray is not None else rng.choice([1, 2, 3, 4])
    if kinds is not None:
        ok = ALLOWED.get(style)
        kinds = [k for k in kinds if ok is None or k in ok] or None
    g = STYLES[style](rng, S, nopt, nray, kinds)
    if inert and rng.random() < 0.3:
        for _ in range(rng.randint(1, 2)):
            g.inert()
    if rng.random() < twin:
        twins(g, rng, kinds)
    if rng.random() < 0.07 and style != "lattice":
        stacked(g, rng, kinds)
    if rng.random() < 0.5:
        rng.shuffle(g.optics)
    extras(g, rng)
    for i, r in enumerate(g.rays):
        if rng.random() < 0.12 and style != "planar":
            pd = special_launch(g, rng)
            if pd is not None and all(map(math.isfinite, pd[0] + pd[1])):
                r["p"], r["d"] = L(pd[0]), L(pd[1])
                r.pop("int", None)
    if rng.random() < 0.12:     # a ray on nearly the same line as another
        r = rng.choice(g.rays)
        e, x = 10.0 ** rng.uniform(-7, -2), rng.random()
        kw = {k: r[k] for k in ("o",) if k in r}
        p, d = r["p"], r["d"]
        if style == "planar":       # along the line, so as to stay in the dispersion plane
            p = add(p, mul(d, e * S / norm(d)))
        else:
            if x < 0.7:
                p = add(p, mul(rnd_dir(rng), e * S))
            if x > 0.4:
                d = add(d, mul(rnd_dir(rng), e * norm(d)))
        g.ray(p, d, wl=r["wl"], **kw)
    if len(g.rays) > 1 and rng.random() < 0.35:     # several rays launched from one array
        for r in g.rays:
            if rng.random() < 0.7:
                r["p"] = list(g.rays[0]["p"])
                r["pa"] = "A"
    return g.scene(style)


def far_target(rng, scene, lo=1.0, hi=8.0):
    return scene["S"] * rng.uniform(lo, hi)
