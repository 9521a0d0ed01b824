"""Independent reference model: plain-Python recounts and definitions."""
import bisect
import math

from core import check, check_close, fail, observing
from gen import special_groups, special_values


def is_missing(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


def num_bin(v, splits):
    """Index of the left-closed right-open interval holding v."""
    return bisect.bisect_right(splits, v)


def finite_increasing(splits, what="splits"):
    s = [float(v) for v in splits]
    for v in s:
        check(math.isfinite(v), what + " contain a non-finite value {}", s)
    for a, b in zip(s, s[1:]):
        check(a < b, what + " are not strictly increasing: {}", s)
    return s


def num_labels(splits, digits=2):
    b = [-math.inf] + list(splits) + [math.inf]
    out = []
    for i in range(len(b) - 1):
        lb = "(" if math.isinf(b[i]) else "["
        out.append("{}{:.{d}f}, {:.{d}f})".format(lb, b[i], b[i + 1],
                                                  d=digits))
    return out


def cat_key(v):
    return (type(v).__name__ == "str", str(v))


def row_layout(case, splits, groups):
    """n_bins (bins incl. rare group), special group list, total rows."""
    sg = special_groups(case["special"])
    n_bins = len(groups) if case["cat"] else len(splits) + 1
    return n_bins, sg, n_bins + len(sg) + 1


def group_map(groups):
    """category -> group index; every category in exactly one group."""
    m = {}
    for i, g in enumerate(groups):
        for c in list(g):
            check(c not in m, "category {!r} is in two groups: {}", c,
                  [list(map(str, q)) for q in groups])
            m[c] = i
    return m


def row_of(v, case, splits, gmap, n_bins, sg):
    """Expected table row of a value; None when category unseen."""
    if is_missing(v):
        return n_bins + len(sg)
    for i, (_, vals) in enumerate(sg):
        if v in vals:
            return n_bins + i
    if case["cat"]:
        return gmap.get(v)
    return num_bin(v, splits)


# ---- binary statistics -----------------------------------------------------
def xlogy(a, b):
    return 0.0 if a == 0 else a * math.log(b)


def woe(ne, ev, tne, tev):
    """log of (share of non-events / share of events); 0 when undefined."""
    if ne <= 0 or ev <= 0:
        return 0.0
    return math.log((ne / tne) / (ev / tev))


def event_rate(ne, ev):
    return ev / (ne + ev) if ne > 0 and ev > 0 else 0.0


def iv_term(ne, ev, tne, tev):
    if ne <= 0 or ev <= 0:
        return 0.0
    p, q = ev / tev, ne / tne
    return (p - q) * math.log(p / q)


def js_term(ne, ev, tne, tev):
    if ne <= 0 or ev <= 0:
        return 0.0
    p, q = ev / tev, ne / tne
    m = (p + q) / 2
    return 0.5 * (p * math.log(p / m) + q * math.log(q / m))


def hellinger_term(ne, ev, tne, tev):
    if ne <= 0 or ev <= 0:
        return 0.0
    p, q = ev / tev, ne / tne
    return 0.5 * (math.sqrt(p) - math.sqrt(q)) ** 2


def triangular_term(ne, ev, tne, tev):
    if ne <= 0 or ev <= 0:
        return 0.0
    p, q = ev / tev, ne / tne
    return (p - q) ** 2 / (p + q)


DIVERGENCE = {"iv": iv_term, "js": js_term, "hellinger": hellinger_term,
              "triangular": triangular_term}


def gini_pairs(ev, ne):
    """|P(score_event > score_nonevent) - P(<)| with rows scored by event
    rate, by direct pair counting (= accuracy ratio)."""
    rows = [(e / (e + n), e, n) for e, n in zip(ev, ne) if e + n > 0]
    if len(rows) <= 1:
        return 0.0
    te = sum(r[1] for r in rows)
    tn = sum(r[2] for r in rows)
    s = 0
    for re_, e, _ in rows:
        for rn, _, n in rows:
            if re_ > rn:
                s += e * n
            elif re_ < rn:
                s -= e * n
    return s / (te * tn)


def hhi(shares, normalized=False):
    h = sum(s * s for s in shares)
    if not normalized:
        return h
    n = len(shares)
    if n == 1:
        return 1.0
    return (h - 1 / n) / (1 - 1 / n)


def ks(ev, ne):
    te, tn = sum(ev), sum(ne)
    a = b = best = 0
    for e, n in zip(ev, ne):
        a += e
        b += n
        best = max(best, abs(a / te - b / tn))
    return best


def chi2_2xk(cols):
    """Pearson chi-square statistic of a list of (a, b) columns, no
    correction; None when a margin is zero."""
    ta = sum(c[0] for c in cols)
    tb = sum(c[1] for c in cols)
    t = ta + tb
    if ta == 0 or tb == 0:
        return None
    s = 0.0
    for a, b in cols:
        m = a + b
        if m == 0:
            return None
        ea, eb = m * ta / t, m * tb / t
        s += (a - ea) ** 2 / ea + (b - eb) ** 2 / eb
    return s


def norm_sf(x):
    return 0.5 * math.erfc(x / math.sqrt(2))


def chi2_sf1(x):
    """Survival function of chi-square with one degree of freedom."""
    return math.erfc(math.sqrt(x / 2))


def fisher_two_sided(a, b, c, d):
    """Two-sided Fisher exact p-value (sum of tables not more likely)."""
    a, b, c, d = int(a), int(b), int(c), int(d)
    r1, r2, c1 = a + b, c + d, a + c
    n = r1 + r2
    den = math.comb(n, c1)
    lo, hi = max(0, c1 - r2), min(r1, c1)
    p0 = math.comb(r1, a) * math.comb(r2, c1 - a)
    s = 0
    for k in range(lo, hi + 1):
        w = math.comb(r1, k) * math.comb(r2, c1 - k)
        if w * 10 ** 7 <= p0 * (10 ** 7 + 1):
            s += w
    return s / den


def quality_score(iv, pvals, hhi_n):
    c = 0.39573882184806863
    s1 = iv * math.exp(0.5 * (1 - (iv / c) ** 2)) / c
    s2 = 1.0
    for p in pvals:
        s2 *= 1 - p
    return s1 * s2 * (1 - hhi_n)


# ---- outliers --------------------------------------------------------------
def percentile(xs, q):
    """Linear interpolation percentile of a list, q in [0, 100]."""
    s = sorted(xs)
    pos = (len(s) - 1) * q / 100.0
    lo = int(math.floor(pos))
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * (pos - lo)


def median(xs):
    s = sorted(xs)
    m = len(s) // 2
    return s[m] if len(s) % 2 else (s[m - 1] + s[m]) / 2


def table_cols(df, names):
    with observing("binning table columns"):
        return [list(df[c].values) for c in names]
