"""Reference model of the optics: an independent executable description of what a scene does to a ray.

Works on scene descriptors (world.py), never on objects of the code under test.  It answers one question: given a ray
at a point with a direction, which surface does it meet next, where, and how does it leave.  Where the answer is
ill-conditioned (grazing incidence, a hit close to an edge, two surfaces at the same distance, an optic used outside the
domain the properties speak about) it says so, and the caller does not judge that step.
"""
import math
from .vec import add, sub, mul, dot, cross, norm, dist, along, unit, tup

TMIN = 1e-6      # nothing nearer than this is "ahead"
TREL = 2e-9      # a surface being left lies closer than this
NEAR = 1e-3      # surfaces between TMIN and NEAR ahead make a step undecided
INF = float("inf")


class Ill(Exception):
    pass


def _plane(c, n, p, d):
    den = dot(n, d)
    if abs(den) < 1e-4:
        return None, den
    return dot(sub(c, p), n) / den, den


def _sphere(c, R, p, d):
    """-> (t0, t1, clearance) ; t0 None when missed; clearance = |closest approach - R| ."""
    q = sub(c, p)
    tc = dot(q, d)
    m = sub(q, mul(d, tc))
    b = norm(m)
    if b >= R:
        return None, None, tc, b - R
    h = math.sqrt((R - b) * (R + b))
    return tc - h, tc + h, tc, R - b


def _cyl(c, a, R, p, d):
    a = unit(a)
    q = sub(c, p)
    dp = sub(d, mul(a, dot(d, a)))
    qp = sub(q, mul(a, dot(q, a)))
    s = norm(dp)
    if s < 1e-12:                               # parallel: never crosses the wall
        b = norm(qp)
        return (None, None, 0.0, b - R) if b >= R else (-1e12, 1e12, 0.0, R - b)
    if s < 1e-4:
        raise Ill("nearly parallel to a cylinder")
    dp = mul(dp, 1 / s)
    tc = dot(qp, dp)
    b = norm(sub(qp, mul(dp, tc)))
    if b >= R:
        return None, None, tc / s, b - R
    h = math.sqrt((R - b) * (R + b))
    return (tc - h) / s, (tc + h) / s, tc / s, R - b


class Surface:
    """candidates(p, d) -> (list of (t, normal, tag), list of t at which the outcome is undecided)"""


def edge_eps(o):
    return 1e-6 * max(1.0, o.get("_scale", 100.0) / 100.0)


def cands_disc(o, p, d):
    n = unit(o["n"])
    t, den = _plane(o["c"], n, p, d)
    if t is None:
        # almost parallel to the surface: undecided if it could be met at all
        return [], ([0.0] if abs(dot(sub(p, o["c"]), n)) < o["D"] else [])
    if t <= TMIN:
        return [], ([t] if t > TREL else [])
    r = dist(along(p, d, t), o["c"])
    if abs(r - o["D"] / 2) < edge_eps(o) / max(abs(den), 1e-4) ** 0.5:
        return [], [t]
    if r < o["D"] / 2:
        return [(t, n, None)], []
    return [], []


def cands_rect(o, p, d):
    n, t1 = unit(o["n"]), unit(o["t"])
    t2 = cross(n, t1)
    t, den = _plane(o["c"], n, p, d)
    if t is None:
        return [], ([0.0] if abs(dot(sub(p, o["c"]), n)) < o["h"] + o["w"] else [])
    if t <= TMIN:
        return [], ([t] if t > TREL else [])
    q = sub(along(p, d, t), o["c"])
    a, b = abs(dot(q, t1)), abs(dot(q, t2))
    e = edge_eps(o) / max(abs(den), 1e-4) ** 0.5
    if a < o["h"] / 2 - e and b < o["w"] / 2 - e:
        return [(t, n, None)], []
    if a > o["h"] / 2 + e or b > o["w"] / 2 + e:
        return [], []
    return [], [t]


def _ball(c, R, p, d, o):
    t0, t1, tc, clear = _sphere(c, R, p, d)
    eps = 1e-4 * R
    if t0 is None:
        return [], ([max(tc - 0.06 * R, 0.0)] if clear < eps and tc > -R * 0.1 else [])
    if clear < eps:
        return [], ([max(tc - 0.06 * R, 0.0)] if t1 > -R * 0.1 else [])
    out = []
    for t in (t0, t1):
        if t > TMIN:
            out.append((t, unit(sub(along(p, d, t), c)), None))
    return out, [t for t in (t0, t1) if TREL < t <= TMIN]


def cands_ball(o, p, d):
    return _ball(o["c"], o["D"] / 2, p, d, o)


def cands_concave(o, p, d):
    """Spherical cap: the part of the sphere of radius 2f within D/2 of the axis, on the side of the vertex."""
    n = unit(o["n"])
    R = 2 * o["f"]
    cc = add(o["c"], mul(n, R))
    A = o["D"] / 2
    t0, t1, tc, clear = _sphere(cc, R, p, d)
    graze = clear < 1e-4 * R
    if t0 is None and not graze:
        return [], []
    out, und = [], []
    for t in ((t0, t1) if t0 is not None else (tc,)):
        if t <= (-0.1 * R if graze else TREL):
            continue
        q = along(p, d, t)
        v = sub(q, o["c"])
        ax = dot(v, n)
        r = norm(sub(v, mul(n, ax)))
        m = unit(sub(cc, q))
        e = edge_eps(o) / max(abs(dot(m, d)), 1e-4) ** 0.5
        if ax > R * (1 + 1e-3) or (r > A + e and not graze) or r > A + 0.1 * R:
            continue
        if graze or r > A - e or ax > R * (1 - 1e-3) or t <= TMIN:
            und.append(max(t - 0.06 * R, 0.0) if graze else max(t, 0.0))
        else:
            out.append((t, m, None))
    return out, und


def _leaf_interval(leaf, p, d):
    """-> (enter, leave, normal function, undecided ts)"""
    if "s" in leaf:
        c, R = leaf["s"]
        t0, t1, tc, clear = _sphere(c, R, p, d)
        reach = 0.06 * R
        nf = lambda q: unit(sub(q, c))
    else:
        c, a, R = leaf["y"]
        t0, t1, tc, clear = _cyl(c, a, R, p, d)
        a = unit(a)
        reach = 0.06 * R / max(norm(sub(d, mul(a, dot(d, a)))), 1e-4)

        def nf(q):
            v = sub(q, c)
            return unit(sub(v, mul(a, dot(v, a))))
    if clear < 1e-4 * R:
        if t0 is None:
            return None, None, nf, ([max(tc - reach, 0.0)] if tc > -2 * reach else [])
        return t0, t1, nf, ([max(tc - reach, 0.0)] if t1 > -2 * reach else [])
    return t0, t1, nf, []


def _spans(tree, p, d, ill, ends):
    """The body along the line: a list of (enter, leave, normal at enter, normal at leave), in order.  Collects the
    undecided places in `ill` and every end of a leaf in `ends`."""
    if "op" not in tree:
        t0, t1, nf, und = _leaf_interval(tree, p, d)
        ill += und
        if t0 is None:
            return []
        ends += [t0, t1]
        return [(t0, t1, nf, nf)]
    A = _spans(tree["a"], p, d, ill, ends)
    B = _spans(tree["b"], p, d, ill, ends)
    if tree["op"] == "union":
        out = []
        for s in sorted(A + B, key=lambda s: s[0]):
            if out and s[0] <= out[-1][1]:
                if s[1] > out[-1][1]:
                    out[-1] = (out[-1][0], s[1], out[-1][2], s[3])
            else:
                out.append(s)
        return out
    if tree["op"] == "difference":      # A without B is A within the gaps of B
        gaps, t, nf = [], -INF, None
        for s in B:
            gaps.append((t, s[0], nf, s[2]))
            t, nf = s[1], s[3]
        B = gaps + [(t, INF, nf, None)]
    out = []
    for a in A:
        for b in B:
            lo, ln = (a[0], a[2]) if a[0] >= b[0] else (b[0], b[2])
            hi, hn = (a[1], a[3]) if a[1] <= b[1] else (b[1], b[3])
            if lo < hi:
                out.append((lo, hi, ln, hn))
    return out


def cands_compound(o, p, d):
    ill, ends = [], []
    spans = _spans(o["tree"], p, d, ill, ends)
    # two parts of the body met (nearly) together: an edge of the body may lie there
    ends.sort()
    for x, y in zip(ends, ends[1:]):
        if y - x < edge_eps(o) and y > TREL:
            ill.append(max(x, 0.0))
    for x in ends:
        if TREL < x <= TMIN:
            ill.append(x)
    out = [(t, nf(along(p, d, t)), None) for s in spans for t, nf in ((s[0], s[2]), (s[1], s[3])) if t > TMIN and t < 1e11]
    return out, ill


CANDS = {"mc": cands_disc, "mr": cands_rect, "dmd": cands_rect, "mcc": cands_concave, "mcv": cands_ball,
         "li": cands_disc, "lc": cands_disc, "lf": cands_disc, "lb": cands_ball, "g": cands_rect, "d": cands_rect,
         "cp": cands_compound, "ub": cands_disc}
INERT = ("an", "fi", "wi")


def next_hit(optics, p, d):
    """-> (t, optic, normal) of the nearest surface ahead, or (None, None, None); raises Ill when undecided."""
    best, und, second = None, INF, INF
    for o in optics:
        if o["k"] in INERT:
            continue
        cs, ill = CANDS[o["k"]](o, p, d)
        for t in ill:
            und = min(und, t)
        for t, n, tag in cs:
            if best is None or t < best[0]:
                if best is not None:
                    second = min(second, best[0])
                best = (t, o, n)
            else:
                second = min(second, t)
    return best, und, second


def inside_glass(o, p):
    if o["k"] == "lb":
        return dist(p, o["c"]) < o["D"] / 2
    return in_tree(o["tree"], p)


def _clear(t, p):
    """Distance from the nearest surface of any part of a body."""
    if "s" in t:
        return abs(dist(p, t["s"][0]) - t["s"][1])
    if "y" in t:
        c, a, R = t["y"]
        a = unit(a)
        v = sub(p, c)
        return abs(norm(sub(v, mul(a, dot(v, a)))) - R)
    return min(_clear(t["a"], p), _clear(t["b"], p))


def medium(optics, p, eps):
    """Index of refraction at a point: the first listed body around it, else the world.  Ill next to a surface."""
    for o in optics:
        if o["k"] not in ("lb", "cp"):
            continue
        t = o["tree"] if o["k"] == "cp" else {"s": [o["c"], o["D"] / 2]}
        if _clear(t, p) < eps:
            raise Ill("next to a surface")
        if in_tree(t, p):
            return o["index"]
    return 1.0


def in_tree(t, p):
    if "s" in t:
        return dist(p, t["s"][0]) < t["s"][1]
    if "y" in t:
        c, a, R = t["y"]
        a = unit(a)
        v = sub(p, c)
        return norm(sub(v, mul(a, dot(v, a)))) < R
    A, B = in_tree(t["a"], p), in_tree(t["b"], p)
    return {"union": A or B, "intersect": A and B, "difference": A and not B}[t["op"]]


def mirror_dir(d, n):
    n = unit(n)
    return sub(d, mul(n, 2 * dot(d, n)))


def snell_dir(d, n, n1, n2):
    """Direction after a boundary between index n1 (where the ray is) and n2; total reflection beyond the critical
    angle.  Built from the tangential component, whose product with the index is conserved."""
    n = unit(n)
    c = dot(d, n)
    if abs(c) < 0.01:
        raise Ill("grazing refraction")
    if c > 0:
        n, c = n, c
    else:
        n, c = mul(n, -1), -c
    # n now points along the ray
    tang = sub(d, mul(n, c))
    t2 = mul(tang, n1 / n2)
    s2 = dot(t2, t2)
    if abs(s2 - 1) < 1e-6:
        raise Ill("near the critical angle")
    if s2 > 1:
        return sub(d, mul(n, 2 * c)), "tir"
    return add(t2, mul(n, math.sqrt(1 - s2))), "refract"


def leave(o, p, d, q, n, ray):
    """-> ('end', what) or ('go', direction, what).  p: start of the stretch, q: the point on the surface."""
    k = o["k"]
    if ray.get("ff"):
        return "end", "probe"
    if k == "d":
        return "end", "detected"
    if k == "ub":
        return "end", "absorbed"
    if k in ("mc", "mr", "mcc", "mcv"):
        if abs(dot(d, n)) < 1e-3:
            raise Ill("grazing")
        return "go", mirror_dir(d, n), "mirror"
    if k == "dmd":
        return "go", mirror_dir(d, o["dn"]), "dmd"
    if k in ("lb", "cp"):
        if k == "cp" and o["beh"] == "reflect":
            if abs(dot(d, n)) < 0.01:
                raise Ill("grazing")
            return "go", mirror_dir(d, n), "body-mirror"
        # the medium is decided by the middle of the stretch just travelled, not by the crossing itself
        m = mul(add(p, q), 0.5)
        inside = inside_glass(o, m)
        n1, n2 = (o["index"], 1.0) if inside else (1.0, o["index"])
        r, how = snell_dir(d, n, n1, n2)
        return "go", r, how + ("-out" if inside else "-in")
    nn = unit(o["n"])
    c = dot(d, nn)
    if abs(c) < 1e-3:
        raise Ill("grazing")
    if c < 0:
        nn, c = mul(nn, -1), -c
    if k == "lc":
        return "go", nn, "collimate"
    if k == "lf":
        return "go", unit(sub(add(o["c"], mul(nn, o["f"])), q)), "focus"
    if k == "li":
        # a ray through the centre with the same direction is undeviated and meets it in the focal plane
        fp = add(o["c"], mul(d, o["f"] / c))
        v = sub(fp, q)
        if norm(v) < 1e-3 * o["f"]:
            raise Ill("degenerate focus")
        return "go", unit(v), "image"
    if k == "g":
        if ray["o"] == 0:
            return "go", mirror_dir(d, nn), "order0"
        n0 = unit(o["n"])
        if dot(d, n0) > 0:
            raise Ill("grating met from behind")
        g = unit(o["t"])                       # along the grooves
        if abs(dot(d, g)) > 1e-9:
            raise Ill("off the dispersion plane")
        back = mul(d, -1)
        u = cross(n0, g)
        s = dot(back, u)                       # sine of incidence, signed
        if abs(s) < 1e-6:
            raise Ill("normal incidence: the sign of the order is a convention")
        u = u if s > 0 else mul(u, -1)         # towards the side the light comes from
        sb = o["G"] * 1e-6 * ray["o"] * ray["wl"] - abs(s)
        if abs(abs(sb) - 1) < 1e-5:
            raise Ill("order at the horizon")
        if abs(sb) > 1:
            return "end", "evanescent"
        return "go", add(mul(u, sb), mul(n0, math.sqrt(1 - sb * sb))), "diffract"
    raise Ill("optic " + k)
