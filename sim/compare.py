"""Comparison of traces that must be the same, with an amplification guard.

Traces of the unchanged code are compared bit for bit and that nearly always decides.  Where they are not bit-identical
(a behaviour-preserving edit may reorder floating-point operations, and a travel cut adds a rounding) the distance is
judged against the divergence of a *shadow*: the reference trace started a tiny nudge away.  What the scene itself
amplifies is not held against the code; the comparison stops where the shadow has left the reference.
"""
import math
from .vec import dist, norm, sub, dot, unit, finite

NUDGE = 1e-12


def same(a, b):
    return a["path"] == b["path"] and a["pos"] == b["pos"] and a["dir"] == b["dir"] and a["blocked"] == b["blocked"]


def nan_in(a):
    return not (all(finite(p) for p in a["path"]) and finite(a["pos"]) and finite(a["dir"]))


def diff_exact(a, b):
    for k in ("path", "pos", "dir", "blocked"):
        if repr(a[k]) != repr(b[k]):
            return k
    return None


class Verdict:
    def __init__(self, ok, what="", where=None, decided=True):
        self.ok, self.what, self.where, self.decided = ok, what, where, decided


def close(got, ref, shadow_fn, S, tol=1e-9, prefix=False):
    """got, ref: snapshots.  shadow_fn(nudge) -> the trace alone, started displaced by the nudge (or not); called only
    when needed.  The divergence of nudged from un-nudged traces is what the scene amplifies."""
    if repr(got["path"]) == repr(ref["path"]) and repr(got["dir"]) == repr(ref["dir"]) and \
            repr(got["pos"]) == repr(ref["pos"]) and got["blocked"] == ref["blocked"]:
        return Verdict(True)
    gp, rp = got["path"], ref["path"]
    if prefix and len(gp) <= len(rp) and repr(gp) == repr(rp[:len(gp)]):
        return Verdict(True)
    base = shadow_fn(None)
    shadows = [shadow_fn([NUDGE * S * x for x in n]) for n in ((1, .5, .2), (-.3, .7, -1))]
    bp = base["path"]
    amp = NUDGE * S
    for i in range(max(len(gp), len(rp))):
        if i >= len(gp) and prefix:
            return Verdict(True)
        for s in shadows:
            sp = s["path"]
            if i >= len(sp) or i >= len(bp):
                if not (i >= len(sp) and i >= len(bp)):
                    return Verdict(True, decided=False)
            elif finite(sp[i]) and finite(bp[i]):
                amp = max(amp, dist(sp[i], bp[i]))
        if amp * 1e3 > 1e-4 * S:
            return Verdict(True, decided=False)
        if i >= len(gp) or i >= len(rp):
            return Verdict(False, "path length %d instead of %d" % (len(gp), len(rp)), i)
        if repr(gp[i]) != repr(rp[i]) and not dist(gp[i], rp[i]) <= tol * S + 1e3 * amp:
            return Verdict(False, "point %d is %s instead of %s" % (i, fmt(gp[i]), fmt(rp[i])), i)
    if prefix:
        return Verdict(True)
    dt = 1e-9 + 1e3 * max([amp / S] + [dist(s["dir"], base["dir"]) for s in shadows if finite(s["dir"]) and finite(base["dir"])])
    if dt > 1e-3:
        return Verdict(True, decided=False)
    if got["blocked"] != ref["blocked"]:
        return Verdict(False, "stopped is %s instead of %s" % (got["blocked"], ref["blocked"]))
    if repr(got["pos"]) != repr(ref["pos"]) and not dist(got["pos"], ref["pos"]) <= tol * S + 1e3 * amp:
        return Verdict(False, "final position %s instead of %s" % (fmt(got["pos"]), fmt(ref["pos"])))
    if repr(got["dir"]) != repr(ref["dir"]) and not dist(got["dir"], ref["dir"]) <= dt:
        return Verdict(False, "final direction %s instead of %s" % (fmt(got["dir"]), fmt(ref["dir"])))
    return Verdict(True)


def fmt(p):
    return "(%s)" % ", ".join("%.9g" % x for x in p)


def match_records(got, want, S, optional=()):
    """Multiset comparison of detector records; -> (missing, surplus)."""
    def eq(a, b, t):
        return len(a) == len(b) and all(x == y or abs(x - y) <= t for x, y in zip(a[:3], b[:3])) and a[3:] == b[3:]
    left = list(got)
    missing = list(want)
    for t in ((0.0, 1e-7 * S, 1e-5 * S) if S else (0.0,)):
        todo, missing = missing, []
        for r in todo:
            for i, g in enumerate(left):
                if eq(g, r, t):
                    del left[i]
                    break
            else:
                missing.append(r)
    for r in optional:
        for i, g in enumerate(left):
            if eq(g, r, 1e-5 * S):
                del left[i]
                break
    return missing, left
