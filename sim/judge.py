"""Stepwise judgement of a recorded run of a ray against the reference model."""
from . import ref
from .ref import Ill
from .vec import dist, sub, norm, unit, along, mul, dot, finite
from .compare import fmt

INF = float("inf")


class Finding:
    """kind: skip | phantom | self | point | law | budget | nonfinite | stop"""

    def __init__(self, kind, text, step, optic=None):
        self.kind, self.text, self.step, self.optic = kind, text, step, optic

    def __repr__(self):
        return "%s at step %d: %s" % (self.kind, self.step, self.text)


def prepare(optics, S):
    out = []
    for o in optics:
        if o["k"] not in ref.INERT:
            out.append(dict(o, _scale=S))
    return out


def judge_leg(optics, ray, p0, d0, pts, D, I, d_end, blocked_end, S, stats, blocked_start=False,
              ignore=()):
    """optics: prepared descriptors.  pts: points appended by this run.  -> Finding or None."""
    I = INF if I is None else I
    tol = 1e-7 * max(S, 1.0)
    margin = max(1e-6 * max(S, 1.0), 1e-5)
    p, d, remaining, count, i = p0, d0, float(D), 0, 0
    if blocked_start:
        if pts:
            return Finding("stop", "a stopped ray moved to %s" % fmt(pts[0]), 0)
        return None
    if D == INF and any(not finite(q) for q in pts):
        return None             # nothing ahead and no end to the travel
    for q in pts:
        if not finite(q):
            return Finding("nonfinite", "the path reaches %s" % (q,), 0)
    while True:
        if count >= I or remaining <= 0:
            if i < len(pts):
                return Finding("budget", "point %s beyond the limits of the run" % fmt(pts[i]), i)
            return None
        q = pts[i] if i < len(pts) else None
        L = dist(p, q) if q is not None else 0.0
        last = i == len(pts) - 1
        und = False
        best = None
        try:
            best, ut, second = ref.next_hit(optics, p, d)
            t = best[0] if best else INF
            if ut <= remaining + margin and ut <= t + 1e-5:
                und = True
            elif best and second - t < max(3e-6, 1e-6 * S):
                und = True
            elif best and abs(t - remaining) <= margin:
                und = True
        except Ill:
            und = True
        if und:
            stats["undecided"] = stats.get("undecided", 0) + 1
            if q is None:
                return None
            if dist(q, along(p, d, L)) > tol + 1e-9 * L:
                return Finding("point", "the ray left its line: %s" % fmt(q), i)
            if L < 1e-6 and L > 0:
                pass
            remaining -= L
            count += 1
            i += 1
            if remaining <= margin or last:
                return None         # flight or hit: not known which
            d2 = sub(pts[i], q)
            if norm(d2) < 1e-4 * S:
                return None
            p, d = q, unit(d2)
            continue
        if best is not None and t < remaining:
            o, n = best[1], best[2]
            stats["hit:" + o["k"]] = stats.get("hit:" + o["k"], 0) + 1
            if q is None:
                return Finding("budget" if i or D > 0 else "skip",
                               "the run ended at %s with %.6g to travel and %s ahead" % (fmt(p), remaining, o["id"]), i, o)
            if L > t + tol:
                return Finding("skip", "passed %s (%s) at %.9g ahead and went on to %s" % (o["id"], o["k"], t, fmt(q)), i, o)
            if L < t - tol:
                if L < 1e-5:
                    return Finding("self", "interacted again where it was leaving, %.3g ahead, instead of %s at %.9g" % (L, o["id"], t), i, o)
                return Finding("phantom", "interacted at %s, %.9g ahead, before %s at %.9g" % (fmt(q), L, o["id"], t), i, o)
            if dist(q, along(p, d, t)) > tol:
                return Finding("point", "met %s at %s instead of %s" % (o["id"], fmt(q), fmt(along(p, d, t))), i, o)
            remaining -= L
            count += 1
            i += 1
            more = pts[i] if i < len(pts) else None
            try:
                out = ("end", "probe") if ray.get("ff") else ref.leave(o, p, d, q, n, ray)
            except Ill:
                stats["undecided-law"] = stats.get("undecided-law", 0) + 1
                if more is None:
                    return None
                d2 = sub(more, q)
                if norm(d2) < 1e-4 * S:
                    return None
                p, d = q, unit(d2)
                continue
            if "law" in ignore and not (out[0] == "end" and blocked_end and more is None):
                if more is None:
                    return None
                d2 = sub(more, q)
                if norm(d2) < 1e-4 * S:
                    return None
                p, d = q, unit(d2)
                continue
            if out[0] == "end":
                stats["law:" + out[1]] = stats.get("law:" + out[1], 0) + 1
                if more is not None or not blocked_end:
                    return Finding("stop", "the ray is not stopped by %s (%s)" % (o["id"], out[1]), i, o)
                return None
            pred, how = out[1], out[2]
            stats["law:" + how] = stats.get("law:" + how, 0) + 1
            if more is None:
                if blocked_end:
                    return Finding("stop", "the ray is stopped at %s (%s)" % (o["id"], how), i, o)
                got = d_end
            else:
                v = sub(more, q)
                if norm(v) < 1e-4 * S:
                    # too short to read a direction from
                    if norm(v) < 1e-5:
                        try:
                            b2, u2, s2 = ref.next_hit(optics, q, pred)
                            if (b2 is None or b2[0] > 1e-3) and u2 > 1e-3 and remaining > margin:
                                return Finding("self", "interacted again with %s where it was leaving it" % o["id"], i, o)
                        except Ill:
                            return None
                    got = pred
                else:
                    got = unit(v)
            if not finite(got) or dist(got, pred) > 2e-6:
                return Finding("law", "%s (%s, %s) sent the ray along %s instead of %s" %
                               (o["id"], o["k"], how, fmt(got), fmt(pred)), i, o)
            p, d = q, got if more is None or got is pred else got
            continue
        # nothing ahead within the remaining travel
        if q is None:
            return Finding("budget", "the run ended at %s with %.9g still to travel" % (fmt(p), remaining), i)
        if L < remaining - max(tol, 1e-9 * D):
            if L < 1e-5:
                return Finding("self", "interacted where it was leaving, %.3g ahead, with nothing there" % L, i)
            return Finding("phantom", "interacted at %s where there is nothing" % fmt(q), i)
        if L > remaining + max(tol, 1e-9 * D):
            return Finding("budget", "travelled %.9g with %.9g allowed" % (L, remaining), i)
        if dist(q, along(p, d, remaining)) > tol + 1e-9 * D:
            return Finding("point", "the free stretch ends at %s instead of %s" % (fmt(q), fmt(along(p, d, remaining))), i)
        if not last:
            return Finding("budget", "the run went on after its distance was used up", i)
        if blocked_end:
            return Finding("stop", "the ray is stopped in free space", i)
        if finite(d_end) and dist(d_end, d) > 1e-9:
            return Finding("law", "the direction changed in free flight to %s" % fmt(d_end), i)
        return None
