"""Exhaustive reference optimiser over groupings of consecutive pre-bins.

Constraints are evaluated in two ways: `loose` accepts everything that could
satisfy them up to solver rounding (used to judge the returned solution),
`strict` accepts only what satisfies them with a margin or with exact
equality (used to say "this better solution was certainly admissible").
"""
import itertools
import math

EPS = 3e-6


def groupings(n):
    """All partitions of range(n) into consecutive runs [(start, end)...]."""
    for mask in itertools.product((False, True), repeat=n - 1):
        out, s = [], 0
        for i, cut in enumerate(mask):
            if cut:
                out.append((s, i))
                s = i + 1
        out.append((s, n - 1))
        yield out


def ge(a, b, strict, eps=EPS):
    """a >= b; strict=2 does not count ties (MIP tolerances)"""
    if strict == 2:
        return a >= b + eps
    if strict:
        return a == b or a >= b + eps
    return a >= b - eps


def monotone(v, sign, strict, eps=EPS):
    """every pair ordered (the formulations constrain all pairs)"""
    return all(ge(sign * v[j], sign * v[i], strict, eps)
               for i in range(len(v)) for j in range(i + 1, len(v)))


def unimodal(v, sign, strict, eps=EPS):
    """rises then falls (sign=1) / falls then rises (sign=-1)"""
    return any(monotone(v[:k], sign, strict, eps) and
               monotone(v[k - 1:], -sign, strict, eps)
               for k in range(1, len(v) + 1)) or any(
        monotone(v[:k], sign, strict, eps) and
        monotone(v[k:], -sign, strict, eps) for k in range(len(v) + 1))


def heuristic(v, ends, sign, tc, strict, eps=EPS):
    a = [x for x, e in zip(v, ends) if e < tc]
    b = [x for x, e in zip(v, ends) if e >= tc]
    return monotone(a, sign, strict, eps) and monotone(b, -sign, strict, eps)


def curved(v, sign, strict, eps=EPS, all_triples=True):
    """concave (sign=1) / convex (sign=-1)"""
    n = len(v)
    if all_triples and strict:
        trip = itertools.combinations(range(n), 3)
    else:
        trip = ((i, i + 1, i + 2) for i in range(n - 2))
    strict = 2 if strict else strict      # rounded coefficients: no ties
    return all(ge(sign * (2 * v[j] - v[i] - v[k]), 0.0, strict, 4 * eps)
               for i, j, k in trip)


def trend(name, v, ends, tc, strict, eps=EPS):
    """tc: dict with change positions for the heuristics."""
    if name is None:
        return True
    if name == "ascending":
        return monotone(v, 1, strict, eps)
    if name == "descending":
        return monotone(v, -1, strict, eps)
    if name == "peak":
        return unimodal(v, 1, strict, eps)
    if name == "valley":
        return unimodal(v, -1, strict, eps)
    if name == "peak_heuristic":
        return heuristic(v, ends, 1, tc["peak"], strict, eps)
    if name == "valley_heuristic":
        return heuristic(v, ends, -1, tc["valley"], strict, eps)
    if name == "concave":
        return curved(v, 1, strict, eps)
    if name == "convex":
        return curved(v, -1, strict, eps)
    raise KeyError(name)


ALLOWED = {"auto": ("ascending", "descending", "peak", "valley"),
           "auto_heuristic": ("ascending", "descending", "peak_heuristic",
                              "valley_heuristic"),
           "auto_asc_desc": ("ascending", "descending")}


def allowed_trends(requested, cat=False):
    if requested is None:
        return (None,)
    if cat:
        return ("ascending",)
    return ALLOWED.get(requested, (requested,))


def change_points(rates):
    return dict(peak=max(range(len(rates)), key=lambda i: (rates[i], -i)),
                valley=min(range(len(rates)), key=lambda i: (rates[i], i)))


def z_test(e1, n1, e2, n2):
    t1, t2 = e1 + n1, e2 + n2
    p = (e1 + e2) / (t1 + t2)
    d = p * (1 - p) * (1 / t1 + 1 / t2)
    if d <= 0:
        return math.nan
    return abs(e1 / t1 - e2 / t2) / math.sqrt(d)


def forbidden_cuts(rate, n, name, tc, strict):
    """Cuts (after pre-bin i) dropped by the monotonic pre-processing.
    rate(i, j) is the pooled event rate of pre-bins i..j."""
    f = set()

    def worse(i, j, sign):
        d = sign * (rate(i, j) - rate(j, j))
        return d > 0 if not strict else (d > -EPS and d != 0)

    def scan(lo, hi, jlo, jhi, sign):
        for i in range(lo, hi):
            if worse(i, i + 1, sign):
                f.add(i)
                for j in range(jlo, jhi(i)):
                    if i + 1 + j < n and worse(i, i + 1 + j, sign):
                        f.add(i + j)
    if name == "ascending":
        scan(0, n - 1, 0, lambda i: n - i - 1, 1)
    elif name == "descending":
        scan(0, n - 1, 0, lambda i: n - i - 1, -1)
    elif name in ("peak_heuristic", "valley_heuristic"):
        s = 1 if name[0] == "p" else -1
        t = tc["peak" if name[0] == "p" else "valley"]
        scan(0, t - 1, 0, lambda i: t - i - 1, s)
        scan(t, n - 1, t, lambda i: n - i - 1, -s)
    return f
