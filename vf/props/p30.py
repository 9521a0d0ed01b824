"""P30: performance metrics, divergences and performance plots."""
import math
import re
import warnings
from fractions import Fraction as F

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from core import Skip, Sub, check, check_close, check_vec, observing
from props import p18

RULE = ("A case is a binary target with scores (ties, constants, perfect and "
        "reversed orders), a pair of target and prediction vectors, one or "
        "several discrete distributions, or counts per bin, as lists, arrays "
        "or series with any index. Values are compared with definitions in "
        "rational arithmetic or with compensated sums; the drawn curves and "
        "the printed values of the performance plots likewise. Non-trivial: "
        "two or more distinct scores, values or points of mass.")
ASSUMPTIONS = ["Kolmogorov-Smirnov is the largest excess of the cumulative "
               "non-events over the cumulative events by increasing score",
               "percentage errors with zero targets, and classification "
               "metrics with an empty class, are not judged",
               "inside a group of tied scores the CAP curve may be drawn in "
               "any way between its end points"]


def arr(xs, how, integer=False):
    if how == "list":
        return list(xs)
    a = np.array(xs, dtype=int if integer else float)
    if how == "series":
        n = len(xs)
        return pd.Series(a, index=[(5 * i + 3) % n if n % 5 else n - 1 - i
                                   for i in range(n)])
    return a


@st.composite
def scores(draw, lo=4, hi=60):
    n = draw(st.integers(lo, hi))
    b, c = gen.rbytes(draw, n), gen.rbytes(draw, n)
    k = draw(st.sampled_from((2, 5, 17, 256)))
    s = [(q % k) / 256 for q in b]
    mode = draw(st.sampled_from(("free", "free", "good", "bad", "perfect",
                                 "rare")))
    if mode == "free":
        y = [q % 2 for q in c]
    elif mode == "good":
        y = [int(q < 256 * v * 256 / k) for q, v in zip(c, s)]
    elif mode == "bad":
        y = [int(q >= 256 * v * 256 / k) for q, v in zip(c, s)]
    elif mode == "perfect":
        m = sorted(s)[n // 2]
        y = [int(v >= m) for v in s]
    else:
        y = [int(q < 20) for q in c]
    if len(set(y)) < 2:
        y[0], y[1] = 0, 1
    scale = draw(st.sampled_from((1, 1, 100, -1)))
    return dict(y=y, s=[v * scale for v in s], how=draw(st.sampled_from(
        ("array", "array", "list", "series"))), type=draw(st.sampled_from(
            (None, None, None, "bool", "uint8", "int8", "float64"))))


def target(case, y):
    Y = arr(y, case["how"], True)
    if case.get("type") and case["how"] != "list":
        Y = Y.astype(case["type"])
    return Y


def gini_exact(y, s):
    ev = sorted(v for v, t in zip(s, y) if t)
    ne = sorted(v for v, t in zip(s, y) if not t)
    import bisect
    tot = 0
    for v in ev:
        lo, hi = bisect.bisect_left(ne, v), bisect.bisect_right(ne, v)
        tot += lo - (len(ne) - hi)
    return F(tot, len(ev) * len(ne))


def cumulative(y, s):
    """(score, events, non-events) at or below each distinct score."""
    e = sum(y)
    m = len(y) - e
    out, ce, cn = [], 0, 0
    pairs = sorted(zip(s, y))
    for k, (v, t) in enumerate(pairs):
        ce += t
        cn += 1 - t
        if k + 1 == len(pairs) or pairs[k + 1][0] != v:
            out.append((v, F(ce, e), F(cn, m)))
    return out


def run_class(case, rec):
    from optbinning.metrics.classification import (
        gini, imbalanced_classification_metrics, ks)
    y, s = case["y"], case["s"]
    Y, S = target(case, y), arr(s, case["how"])
    check_close(gini(Y, S), float(gini_exact(y, s)), "gini")
    cum = cumulative(y, s)
    best = max(n - e for _, e, n in cum)
    score, pos = ks(Y, S)
    check_close(score, float(best), "ks")
    with observing("ks position"):
        at = sorted(s)[int(pos)]
        val = [n - e for v, e, n in cum if v == at][0]
        check(val == best, "ks position {} (score {}) has difference {}, the "
              "largest is {}", pos, at, val, best)
    m = sorted(s)[len(s) // 3]
    p = [int(v > m) for v in s]
    P = target(case, p)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = imbalanced_classification_metrics(Y, P)
    tp = sum(a and b for a, b in zip(y, p))
    fn = sum(a and not b for a, b in zip(y, p))
    fp = sum((not a) and b for a, b in zip(y, p))
    tn = len(y) - tp - fn - fp
    tpr, tnr = tp / (tp + fn), tn / (tn + fp)
    exp = {"True positive rate": tpr, "True negative rate": tnr,
           "False positive rate": fp / (fp + tn),
           "False negative rate": fn / (fn + tp),
           "Balanced accuracy": (tpr + tnr) / 2}
    if min(tp, fn, fp, tn) > 0:
        exp["Discriminant power"] = math.sqrt(3) / math.pi * (
            math.log(tp / fn) + math.log(tn / fp))
    with observing("classification metrics"):
        for k, v in exp.items():
            check_close(got[k], v, k, 1e-8, 1e-9)
    rec.label(case["how"])
    rec.nontrivial(len(set(s)) > 1)


@st.composite
def regress(draw):
    n = draw(st.integers(2, 50))
    b, c = gen.rbytes(draw, n), gen.rbytes(draw, n)
    scale = draw(st.sampled_from((1.0, 0.01, 1000.0)))
    off = draw(st.sampled_from((0.5, 200.25, -128.5)))
    y = [(q % 64 + off) * scale for q in b]
    p = [v + (q - 120) / draw_scale(q) * scale for v, q in zip(y, c)]
    types = None
    if draw(st.integers(0, 4)) == 0:
        types = [draw(st.sampled_from(("uint8", "int16", "int64", "float32")))
                 for _ in range(2)]
        y = [float(q % 100 + 1) for q in b]
        p = [float(q % 100 + 1) for q in c]
    return dict(y=y, p=p, how=draw(st.sampled_from(("array", "array", "list",
                                                    "series"))),
                exact=draw(st.integers(0, 9)), types=types)


def draw_scale(q):
    return 1.0 if q % 7 == 0 else 16.0


def run_regress(case, rec):
    from optbinning.metrics.regression import regression_metrics
    y, p = case["y"], case["p"]
    if case["exact"] == 0:
        p = list(y)
    Y, P = arr(y, case["how"]), arr(p, case["how"])
    if case.get("types") and case["how"] != "list":
        Y, P = [v.astype(t) for v, t in zip((Y, P), case["types"])]
    if case["how"] == "series":
        P.index = list(P.index)[::-1]
    got = regression_metrics(Y, P)
    exp = p18.metrics(y, p)
    with observing("regression metrics"):
        for k, v in exp.items():
            check_close(got[k], v, k, 1e-8, 1e-9)
    rec.label(case["how"])
    rec.nontrivial(len(set(y)) > 1 and y != p)


# ---- distributions ----------------------------------------------------------

@st.composite
def dists(draw):
    n = draw(st.integers(1, 8))
    k = draw(st.integers(2, 4))
    cols = []
    for _ in range(k):
        b = list(gen.rbytes(draw, n))
        b = [0 if v < 40 else v for v in b]
        if not sum(b):
            b[0] = 1
        t = sum(b)
        cols.append([v / t for v in b])
    if draw(st.integers(0, 5)) == 0:
        cols[1] = list(cols[0])
    w = [1 + v % 9 for v in gen.rbytes(draw, k)]
    return dict(cols=cols, w=w, how=draw(st.sampled_from(
        ("array", "array", "list", "series"))), perm=draw(st.permutations(
            list(range(n)))), order=draw(st.permutations(list(range(k)))))


def kl(p, q):
    out = []
    for a, b in zip(p, q):
        out.append(0.0 if a == 0 else math.inf if b == 0 else
                   a * math.log(a / b))
    return out


def terms(name, p, q):
    if name == "kullback_leibler":
        return kl(p, q)
    if name == "jeffrey":
        return [0.0 if a == b else math.inf if a == 0 or b == 0 else
                (a - b) * math.log(a / b) for a, b in zip(p, q)]
    if name == "jensen_shannon":
        m = [(a + b) / 2 for a, b in zip(p, q)]
        return [(a + b) / 2 for a, b in zip(kl(p, m), kl(q, m))]
    if name == "hellinger":
        return [(math.sqrt(a) - math.sqrt(b)) ** 2 / 2 for a, b in zip(p, q)]
    return [0.0 if a == b else (a - b) ** 2 / (a + b) for a, b in zip(p, q)]


def entropy(p):
    return -math.fsum(v * math.log(v) for v in p if v > 0)


def run_dists(case, rec):
    from optbinning.binning import metrics as M
    p, q = case["cols"][:2]
    n = len(p)
    P, Q = arr(p, case["how"]), arr(q, case["how"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for name in ("kullback_leibler", "jeffrey", "jensen_shannon",
                     "hellinger", "triangular"):
            f = getattr(M, name)
            t = terms(name, p, q)
            check_vec(f(P, Q), t, name + " terms", 1e-9, 1e-12)
            s = float(f(P, Q, return_sum=True))
            check_close(s, sum(t), name, 1e-9, 1e-12)
            check(s >= -1e-12, "{} is {}", name, s)
            check_close(f(P, P, return_sum=True), 0.0, name + " of equal "
                        "distributions", 0, 1e-12)
            if name != "kullback_leibler":
                check_close(f(Q, P, return_sum=True), s, name + " reversed",
                            1e-9, 1e-12)
            hi = dict(jensen_shannon=math.log(2), hellinger=1,
                      triangular=2).get(name, math.inf)
            check(s <= hi + 1e-9, "{} is {}", name, s)
        X = np.array(case["cols"]).T
        k = X.shape[1]
        w = [v / sum(case["w"]) for v in case["w"]]
        for ws in (None, w):
            u = ws or [1 / k] * k
            mix = [math.fsum(a * v for a, v in zip(u, row)) for row in X]
            exp = entropy(mix) - math.fsum(
                a * entropy(c) for a, c in zip(u, case["cols"]))
            got = M.jensen_shannon_multivariate(
                X, None if ws is None else np.array(ws))
            check_close(got, exp, "jensen_shannon_multivariate, weights "
                        "{}".format(ws), 1e-9, 1e-10)
            check(got >= -1e-9 and got <= entropy(u) + 1e-9,
                  "multivariate divergence {} outside [0, {}]", got,
                  entropy(u))
            o, r = case["order"], case["perm"]
            again = M.jensen_shannon_multivariate(
                X[r][:, o], None if ws is None else np.array(ws)[o])
            check_close(again, got, "permuted distributions", 1e-9, 1e-10)
        two = M.jensen_shannon_multivariate(X[:, :2])
        check_close(two, sum(terms("jensen_shannon", p, q)),
                    "two distributions", 1e-9, 1e-10)
        check_close(M.entropy(P), entropy(p), "entropy", 1e-9, 1e-12)
        h = math.fsum(v * v for v in p)
        check_close(M.hhi(P), h, "hhi", 1e-9, 1e-12)
        hn = 1.0 if n == 1 else (h - 1 / n) / (1 - 1 / n)
        check_close(M.hhi(P, normalized=True), hn, "normalized hhi", 1e-9,
                    1e-10)
        check(-1e-9 <= hn <= 1 + 1e-9, "normalized hhi {}", hn)
    rec.label(case["how"], "zero mass" if 0 in p + q else "positive")
    rec.nontrivial(n > 1 and p != q)


@st.composite
def counts(draw):
    n = draw(st.integers(2, 9))
    e, m = (list(v % draw(st.sampled_from((4, 30, 200))) for v in
                 gen.rbytes(draw, n)) for _ in range(2))
    return dict(e=e, m=m, how=draw(st.sampled_from(("array", "list"))))


def run_counts(case, rec):
    from optbinning.binning import metrics as M
    e, m = case["e"], case["m"]
    if not sum(e) or not sum(m):
        raise Skip("a single class")
    E, N = arr(e, case["how"], True), arr(m, case["how"], True)
    keep = [(a, b) for a, b in zip(e, m) if a + b]
    exp = 0.0
    if len(keep) > 1:
        exp = ref.gini_pairs([a for a, _ in keep], [b for _, b in keep])
    check_close(M.gini(E, N), exp, "gini of bins", 1e-9, 1e-9)
    E, N = np.array(e), np.array(m)
    a, b = E[:2], N[:2]
    if (a + b).min() > 0 and 0 < a.sum() and 0 < b.sum():
        z, pv = M.test_proportions(e[0], m[0], e[1], m[1])
        n1, n2 = e[0] + m[0], e[1] + m[1]
        p = (e[0] + e[1]) / (n1 + n2)
        zz = abs(e[0] / n1 - e[1] / n2) / math.sqrt(
            p * (1 - p) * (1 / n1 + 1 / n2))
        check_close(z, zz, "test of proportions", 1e-8)
        check_close(pv, math.erfc(zz / math.sqrt(2)), "p-value", 1e-7, 1e-12)
        t, q = M.frequentist_pvalue(np.array([a, b]), "chi2")
        check_close(t, zz * zz, "chi-square", 1e-8)
        check_close(q, math.erfc(zz / math.sqrt(2)), "chi-square p-value",
                    1e-7, 1e-12)
        _, q = M.frequentist_pvalue(np.array([a, b]), "fisher")
        if a.sum() + b.sum() < 300:
            check_close(q, ref.fisher_two_sided(e[0], e[1], m[0], m[1]),
                        "Fisher p-value", 1e-6, 1e-9)
    if (E + N).min() > 0:
        t, v = M.chi2_cramer_v(N, E)
        tot = float(sum(e) + sum(m))
        exp = math.fsum(
            (o - r * c / tot) ** 2 / (r * c / tot)
            for row in (e, m) for r in (sum(row),)
            for o, c in zip(row, [x + y for x, y in zip(e, m)]))
        check_close(t, exp, "chi-square statistic", 1e-8)
        check_close(v, math.sqrt(exp / tot), "Cramer's V", 1e-8)
    rec.nontrivial(len(keep) > 1)


# ---- plots ------------------------------------------------------------------

def xy(line):
    return [float(v) for v in line.get_xdata()], [
        float(v) for v in line.get_ydata()]


def run_plots(case, rec):
    import matplotlib.pyplot as plt
    from optbinning.scorecard import plot_auc_roc, plot_cap, plot_ks
    y, s = case["y"], case["s"]
    Y, S = target(case, y), arr(s, case["how"])
    n, e = len(y), sum(y)
    cum = cumulative(y, s)
    g = gini_exact(y, s)
    try:
        plt.close("all")
        plot_auc_roc(Y, S)
        with observing("ROC plot"):
            ax = plt.gca()
            fpr, tpr = xy(ax.lines[-1])
            auc = float((g + 1) / 2)
            area = math.fsum((b - a) * (u + v) / 2 for a, b, u, v in zip(
                fpr, fpr[1:], tpr, tpr[1:]))
            check_close(area, auc, "area under the drawn ROC curve", 1e-9)
            pts = {(round(float(1 - cn), 9), round(float(1 - ce), 9))
                   for _, ce, cn in cum} | {(1.0, 1.0)}
            for p in zip(fpr, tpr):
                check((round(p[0], 9), round(p[1], 9)) in pts, "point {} of "
                      "the ROC curve is no threshold", p)
            check((fpr[0], tpr[0], fpr[-1], tpr[-1]) == (0, 0, 1, 1),
                  "ends of the ROC curve")
            lab = number(ax.lines[-1].get_label())
            check_close(lab, auc, "AUC in the legend", 0, 6e-6)
        plt.close("all")
        plot_cap(Y, S)
        with observing("CAP plot"):
            ax = plt.gca()
            px, py = xy(ax.lines[1])
            check_vec(px + py, [0, e / n, 1, 0, 1, 1], "perfect model")
            px, py = xy(ax.lines[2])
            check_vec(px, [i / n for i in range(n + 1)], "population")
            for _, ce, cn in cum:
                k = n - int(ce * e + cn * (n - e))
                check_close(py[k], float(1 - ce), "events in the best {} of "
                            "{} records".format(k, n), 1e-9)
            check(all(a <= b + 1e-12 for a, b in zip(py, py[1:])) and
                  abs(py[-1] - 1) < 1e-12, "CAP curve {}", py)
            check_close(number(ax.lines[2].get_label()), float(g),
                        "Gini in the legend", 0, 6e-6)
        plt.close("all")
        plot_ks(Y, S)
        with observing("KS plot"):
            ax = plt.gca()
            (tx, ev), (ux, ne) = xy(ax.lines[0]), xy(ax.lines[1])
            check_vec(tx, sorted(s), "thresholds")
            check_vec(ux, sorted(s), "thresholds")
            last = {v: i for i, v in enumerate(sorted(s))}
            for v, ce, cn in cum:
                check_close(ev[last[v]], float(ce), "cumulative events", 1e-9)
                check_close(ne[last[v]], float(cn), "cumulative non-events",
                            1e-9)
            best = max(cn - ce for _, ce, cn in cum)
            txt = ax.texts[0].get_text()
            check_close(float(re.search(r"(-?[\d.]+)%", txt).group(1)) / 100,
                        float(best), "KS in the plot", 0, 6e-5)
            seg = ax.collections[0].get_segments()[0]
            at = [(ce, cn) for v, ce, cn in cum if v == float(seg[0][0])]
            check(at and at[0][1] - at[0][0] == best, "the KS line is at {}",
                  seg)
            lo, hi = sorted((float(seg[0][1]), float(seg[1][1])))
            check_vec([lo, hi], sorted(map(float, at[0])), "KS line")
    finally:
        plt.close("all")
    rec.nontrivial(len(set(s)) > 1)


def number(label):
    return float(re.search(r": (-?[\d.]+)\)", label).group(1))


SUBS = [
    Sub("classification", scores, run_class, 3000,
        rule="Gini, KS and confusion metrics"),
    Sub("regression", regress, run_regress, 2000, rule="regression metrics"),
    Sub("divergences", dists, run_dists, 2500, rule="divergences, entropy, "
        "concentration"),
    Sub("counts", counts, run_counts, 2500, rule="measures of binned counts"),
    Sub("plots", lambda: scores(hi=30), run_plots, 500,
        rule="performance plots"),
]
