"""P11: continuous solution honours its constraints and is optimal."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import binopts
import gen
import opt
import ref
from core import Skip, Sub, check, observing
from props import p06, p09

RULE = ("exact: a case is a set of pre-bins (target values per pre-bin) with "
        "constraints; every grouping of consecutive pre-bins is enumerated "
        "and the fitted one compared with the best; non-trivial: at least "
        "three admissible groupings with different objective, or infeasible. "
        "data: the final bins of arbitrary data are recounted and every "
        "constraint tested; non-trivial: two bins and a constraint, or an "
        "infeasible status.")
ASSUMPTIONS = ["means are compared at the absolute precision of the "
               "formulation (1e-6): 3e-6 for constraints, 3e-5 for the "
               "objective",
               "p-values are those of Welch's test on the table's mean and "
               "standard deviation, as printed by the analysis; undefined "
               "p-values (two constant bins with equal mean) bind nothing"]
TOL = 3e-5


@st.composite
def constraints(draw, n_total, trends=binopts.CONT_TRENDS):
    o = dict(monotonic_trend=draw(st.sampled_from(trends)))
    k = draw(st.integers(0, 3))
    names = draw(st.lists(st.sampled_from((
        "n_bins", "max_n_bins", "min_n_bins", "min_bin_size", "max_bin_size",
        "sizes", "diff", "pvalue", "gamma")), min_size=k, max_size=k,
        unique=True))
    if "n_bins" in names:
        a = draw(st.integers(1, 5))
        o["min_n_bins"], o["max_n_bins"] = a, a + draw(st.integers(0, 3))
    elif "max_n_bins" in names:
        o["max_n_bins"] = draw(st.integers(1, 6))
    elif "min_n_bins" in names:
        o["min_n_bins"] = draw(st.integers(1, 5))
    if "min_bin_size" in names or "sizes" in names:
        o["min_bin_size"] = draw(st.sampled_from((0.02, 0.1, 0.2, 0.33,
                                                  0.5)))
    if "max_bin_size" in names or "sizes" in names:
        o["max_bin_size"] = draw(st.sampled_from(
            [v for v in (0.15, 0.3, 0.4, 0.5, 0.75, 1.0)
             if v > o.get("min_bin_size", 0)]))
    if "diff" in names:
        o["min_mean_diff"] = draw(st.sampled_from((0.01, 0.3, 1.0, 2.5,
                                                   10.0)))
    if "pvalue" in names:
        o["max_pvalue"] = draw(st.sampled_from((0.001, 0.05, 0.2, 0.7)))
        o["max_pvalue_policy"] = draw(st.sampled_from(("all",
                                                       "consecutive")))
    if "gamma" in names:
        o["gamma"] = draw(st.sampled_from((0.5, 5.0, 30.0)))
    return o


@st.composite
def cases(draw, cat=False, nmax=7):
    n = draw(gen.count_levels(2, nmax))
    cnt = [1 + v % draw(st.sampled_from((3, 8, 20)))
           for v in gen.rbytes(draw, max(8, n))[:n]]
    shape, prof = draw(gen.level_profile(n))
    noise = draw(st.sampled_from((0, 1, 4, 20)))
    off = draw(st.sampled_from((0, -128, -128, -300, 1000)))
    div = draw(st.sampled_from((1, 1, 8, 8, 10, 1000)))
    b = gen.rbytes(draw, max(8, sum(cnt)))
    ys, t = [], 0
    for i in range(n):
        row = []
        for _ in range(cnt[i]):
            e = (b[t] - 128) * noise // 64
            row.append((prof[i] // 2 + off + e) / div)
            t += 1
        ys.append(row)
    o = draw(constraints(sum(cnt)))
    if cat:
        o["dtype"] = "categorical"
    elif draw(st.integers(0, 4)) == 0:
        o["user_splits_fixed"] = [draw(st.integers(0, 3)) == 0
                                  for _ in range(n - 1)]
    return dict(ys=ys, cat=cat, opt=o, exact=div in (1, 8), shape=shape,
                missing=draw(st.sampled_from((0, 0, 3, 10))))


def fit(case):
    from optbinning import ContinuousOptimalBinning
    o = dict(case["opt"])
    n = len(case["ys"])
    x, y = [], []
    for i, row in enumerate(case["ys"]):
        x += ["k%02d" % i if case["cat"] else float(i)] * len(row)
        y += row
    x += [None] * case["missing"]
    y += [0.5] * case["missing"]
    if case["cat"]:
        o["user_splits"] = [["k%02d" % i] for i in range(n)]
    else:
        o["user_splits"] = [i + 0.5 for i in range(n - 1)]
        if "user_splits_fixed" in o:
            o["user_splits_fixed"] = list(o["user_splits_fixed"])
    ob = ContinuousOptimalBinning(name="v", **o)
    ob.fit(gen.xarray(x, case["cat"]), np.array(y, dtype=float))
    return ob


def pstd(v):
    m = sum(v) / len(v)
    return math.sqrt(sum((a - m) ** 2 for a in v) / len(v))


def welch(a, b):
    with np.errstate(all="ignore"):
        return float(stats.ttest_ind_from_stats(
            sum(a) / len(a), pstd(a), len(a), sum(b) / len(b), pstd(b),
            len(b), False).pvalue)


def pvalue_bad(bins, o, strict):
    """Does some pair of bins exceed the maximum p-value?"""
    k = len(bins)
    for i in range(k):
        for j in range(i + 1, k):
            if o["max_pvalue_policy"] == "consecutive" and j != i + 1:
                continue
            p = welch(bins[i], bins[j])
            if math.isnan(p):
                continue
            if not strict and max(pstd(bins[i]), pstd(bins[j])) < 1e-5 * (
                    1 + abs(bins[i][0])):
                continue             # p-value hangs on rounding
            if p > o["max_pvalue"] + (-1e-6 if strict else 1e-6):
                return True
            if max(pstd(bins[i]), pstd(bins[j])) < 1e-5 * (
                    1 + abs(bins[i][0])):
                if strict:
                    return True      # p-value hangs on rounding
    return False


def bins_ok(bins, o, n_samples, trend, ends, tc, strict):
    k = len(bins)
    size = [len(b) for b in bins]
    if o.get("min_n_bins") is not None and k < o["min_n_bins"]:
        return "min_n_bins"
    if o.get("max_n_bins") is not None and k > o["max_n_bins"]:
        return "max_n_bins"
    if (o.get("min_bin_size") is not None and
            min(size) < math.ceil(o["min_bin_size"] * n_samples)):
        return "min_bin_size"
    if (o.get("max_bin_size") is not None and
            max(size) > math.ceil(o["max_bin_size"] * n_samples)):
        return "max_bin_size"
    means = [sum(b) / len(b) for b in bins]
    d = o.get("min_mean_diff") or 0
    if d and any(abs(a - b) < d + (1e-9 if strict else -1e-9) * (1 + abs(a))
                 for a, b in zip(means, means[1:])):
        return "min_mean_diff"
    if o.get("max_pvalue") is not None and pvalue_bad(bins, o, strict):
        return "max_pvalue"
    if not opt.trend(trend, means, ends, tc, strict):
        return "trend " + str(trend)
    return None


class Problem:
    def __init__(self, case, order):
        self.rows = [case["ys"][i] for i in order]
        self.n = len(order)
        self.o = case["opt"]
        self.exact = case["exact"]
        allv = [v for r in self.rows for v in r]
        self.total = len(allv)
        self.mu = sum(allv) / self.total
        self.n_samples = self.total + case["missing"]
        self.means = [sum(r) / len(r) for r in self.rows]
        self.tc = opt.change_points(self.means)
        s = sorted(self.means)
        self.near = any(0 < b - a < 1e-5 for a, b in zip(s, s[1:]))

    def bins(self, g):
        return [[v for r in self.rows[i:j + 1] for v in r] for i, j in g]

    def objective(self, g):
        b = self.bins(g)
        v = sum(abs(sum(r) / len(r) - self.mu) for r in b)
        if self.o.get("gamma"):
            c = math.ceil(1e6 * self.o["gamma"] / self.total) / 1e6
            size = [len(r) for r in b]
            v -= c * (max(size) - min(size))
        return v

    def why_not(self, g, trend, strict):
        fx = self.o.get("user_splits_fixed")
        if fx:
            cuts = {j for _, j in g}
            if any(f and i not in cuts for i, f in enumerate(fx)):
                return "fixed split"
        if strict and not self.exact:
            strict = 2
        return bins_ok(self.bins(g), self.o, self.n_samples, trend,
                       [j for _, j in g], self.tc, strict)


def order_of(case):
    n = len(case["ys"])
    if not case["cat"]:
        return list(range(n))
    m = [sum(r) / len(r) for r in case["ys"]]
    s = sorted(m)
    if any(b - a < 1e-9 for a, b in zip(s, s[1:])):
        raise Skip("groups with equal mean: order not specified")
    return sorted(range(n), key=lambda i: m[i])


def run(case, rec):
    from props.p05 import solution_of
    order = order_of(case)
    ob = fit(case)
    p = Problem(case, order)
    o = p.o
    if p.near and str(o["monotonic_trend"]).endswith("heuristic"):
        raise Skip("change point hangs on rounding")
    status = str(ob.status)
    shim = dict(ev=case["ys"], cat=case["cat"])
    sol = solution_of(shim, ob, order)
    allg = list(opt.groupings(p.n))
    vals = {tuple(g): p.objective(g) for g in allg}
    mine = vals[tuple(sol)]
    trends = opt.allowed_trends(o.get("monotonic_trend"), case["cat"])
    rec.label("status=" + status, "trend=" + str(o["monotonic_trend"]))
    check(status in ("OPTIMAL", "FEASIBLE", "INFEASIBLE"), "status {}",
          status)
    msgs, ok = [], False
    for t in trends:
        best = None
        for g in sorted(allg, key=lambda g: -vals[tuple(g)]):
            if p.why_not(g, t, True) is None:
                best = g
                break
        if status == "INFEASIBLE":
            check(len(sol) == 1, "infeasible with {} bins", len(sol))
            if best is None:
                ok = True
            else:
                msgs.append("trend {}: reported infeasible, but {} is "
                            "admissible".format(t, best))
            continue
        w = p.why_not(sol, t, False)
        if w:
            msgs.append("trend {}: {} violates {}".format(t, sol, w))
            continue
        if (best is None or status == "FEASIBLE" or
                mine >= vals[tuple(best)] - TOL):
            ok = True
        else:
            msgs.append("trend {}: objective {} of {} < {} of {}".format(
                t, mine, sol, vals[tuple(best)], best))
    check(ok, "pre-bin means {} sizes {}: {}", p.means,
          [len(r) for r in p.rows], "; ".join(msgs))
    d = {round(vals[tuple(g)], 4) for g in allg
         if any(p.why_not(g, t, True) is None for t in trends)}
    rec.nontrivial(status == "INFEASIBLE" or len(d) >= 3)
    rec.label("bins=%d" % len(sol))


# ---------------------------------------------------------------------------
@st.composite
def data_cases(draw, cat=False):
    case = draw(gen.xy_continuous(cat=cat, ykinds=("int", "mixed", "real",
                                                   "big", "zeros")))
    o = draw(binopts.cont_opts(case, outliers=True))
    o.update(draw(constraints(len(case["x"]))))
    case["opt"] = o
    case["target"] = "continuous"
    return case


def run_data(case, rec):
    from props.p01 import outlier_set
    from props.p04 import information_prebins
    from props import p02
    p06.clean_records(case)
    o = case["opt"]
    ob = p09.fit(case)
    n_pre = information_prebins(ob)
    splits, groups, gmap = p09.layout(case, ob)
    n_bins, sg, n_rows = ref.row_layout(case, splits, groups)
    rows, _ = p09.row_values(case, splits, groups, gmap, n_bins, sg, n_rows,
                             outlier_set(case))
    if case["cat"] and p02.rare_group(case, ob):
        n_bins -= 1
    bins = rows[:n_bins]
    status = str(ob.status)
    rec.label("status=" + status, "trend=" + str(o["monotonic_trend"]),
              "bins=%d" % min(n_bins, 6))
    if status == "INFEASIBLE":
        check(n_bins == 1, "infeasible with {} bins", n_bins)
        rec.nontrivial()
        return
    check(status in ("OPTIMAL", "FEASIBLE"), "status {}", status)
    if n_pre < 2:
        return
    scale = max(abs(v) for b in bins for v in b)
    msgs = []
    for t in opt.allowed_trends(o["monotonic_trend"], case["cat"]):
        if t is not None and t.endswith("heuristic"):
            t = t.split("_")[0]      # a change point must at least exist
            ok_any = heuristic_ok(bins, t, scale)
            w = bins_ok(bins, o, len(case["x"]), None, None, None, False)
            if w is None and not ok_any:
                w = "trend " + t
        else:
            w = bins_ok(bins, o, len(case["x"]), t,
                        list(range(n_bins)), None, False)
        if w is None:
            msgs = []
            break
        msgs.append(w)
    check(not msgs, "bins of sizes {} means {} violate {}",
          [len(b) for b in bins], [sum(b) / len(b) for b in bins], msgs)
    rec.nontrivial(n_bins >= 2 and (o["monotonic_trend"] is not None or
                                    len(o) > 5))


def heuristic_ok(bins, kind, scale):
    m = [sum(b) / len(b) for b in bins]
    s = 1 if kind == "peak" else -1
    return any(opt.monotone(m[:k], s, False) and
               opt.monotone(m[k:], -s, False) for k in range(len(m) + 1))


SUBS = [
    Sub("exact", lambda: cases(False), run, 2800,
        rule="numerical pre-bins, 2 to 7"),
    Sub("exactcat", lambda: cases(True), run, 900,
        rule="category groups in order of their mean"),
    Sub("num", lambda: data_cases(False), run_data, 1500,
        rule="arbitrary numerical data"),
    Sub("cat", lambda: data_cases(True), run_data, 600,
        rule="arbitrary categorical data"),
]
