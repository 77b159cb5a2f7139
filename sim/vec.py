"""Small vector algebra on tuples of floats; deliberately not numpy, to stay independent of the code under test."""
import math


def add(a, b): return (a[0] + b[0], a[1] + b[1], a[2] + b[2])
def sub(a, b): return (a[0] - b[0], a[1] - b[1], a[2] - b[2])
def mul(a, k): return (a[0] * k, a[1] * k, a[2] * k)
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def norm(a): return math.sqrt(dot(a, a))
def dist(a, b): return norm(sub(a, b))
def along(p, d, t): return (p[0] + t * d[0], p[1] + t * d[1], p[2] + t * d[2])
def tup(a): return (float(a[0]), float(a[1]), float(a[2]))


def unit(a):
    n = norm(a)
    return (a[0] / n, a[1] / n, a[2] / n)


def finite(a):
    return all(math.isfinite(x) for x in a)


def perp(a):
    """Some unit vector perpendicular to a."""
    a = unit(a)
    e = (1.0, 0.0, 0.0) if abs(a[0]) < 0.6 else (0.0, 1.0, 0.0)
    return unit(cross(a, e))


def rnd_dir(rng):
    while True:
        v = (rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-1, 1))
        n = norm(v)
        if 0.1 < n < 1:
            return unit(v)


def rnd_in_disc(rng, c, n, r):
    n = unit(n)
    u = perp(n)
    w = cross(n, u)
    a = rng.uniform(0, 2 * math.pi)
    q = r * math.sqrt(rng.random())
    return add(c, add(mul(u, q * math.cos(a)), mul(w, q * math.sin(a))))


def rnd_rotation(rng):
    """Three orthonormal columns."""
    x = rnd_dir(rng)
    y0 = rnd_dir(rng)
    y = sub(y0, mul(x, dot(x, y0)))
    while norm(y) < 1e-3:
        y0 = rnd_dir(rng)
        y = sub(y0, mul(x, dot(x, y0)))
    y = unit(y)
    return (x, y, cross(x, y))


def rot(R, a):
    return add(add(mul(R[0], a[0]), mul(R[1], a[1])), mul(R[2], a[2]))
