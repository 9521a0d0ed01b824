"""P13: multiclass solution honours its constraints and is optimal."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import binopts
import gen
import opt
import ref
from core import Skip, Sub, check
from props import p01, p04, p05, p06, p12

RULE = ("exact: a case is a set of pre-bins (records per class) with "
        "constraints; every grouping of consecutive pre-bins is enumerated "
        "and the fitted one compared with the best; non-trivial: at least "
        "three admissible groupings with different objective, or infeasible. "
        "data: the final bins of arbitrary data are recounted and every "
        "constraint tested; non-trivial: two bins and a constraint.")
ASSUMPTIONS = ["objective compared up to 3e-5 per class, trends at 3e-6 "
               "(both formulations round)",
               "the automatic modes may choose any trend they document, per "
               "class"]
TOL = 3e-5
LIST_TRENDS = ("auto", "auto_heuristic", "auto_asc_desc", "ascending",
               "descending", "concave", "convex", "peak", "valley",
               "peak_heuristic", "valley_heuristic", None)


@st.composite
def constraints(draw, nc):
    o = dict(solver=draw(st.sampled_from(("mip", "mip", "cp"))))
    if o["solver"] == "mip":
        o["mip_solver"] = draw(st.sampled_from(("bop", "cbc")))
    if draw(st.integers(0, 2)) == 0:
        o["monotonic_trend"] = draw(st.sampled_from(
            ("auto", "auto_heuristic", "auto_asc_desc", None)))
    else:
        o["monotonic_trend"] = [draw(st.sampled_from(LIST_TRENDS))
                                for _ in range(nc)]
    names = draw(st.lists(st.sampled_from((
        "n_bins", "max_n_bins", "min_n_bins", "min_bin_size", "max_bin_size",
        "sizes", "diff", "pvalue")), max_size=3, unique=True))
    if "n_bins" in names:
        a = draw(st.integers(1, 4))
        o["min_n_bins"], o["max_n_bins"] = a, a + draw(st.integers(0, 3))
    elif "max_n_bins" in names:
        o["max_n_bins"] = draw(st.integers(1, 6))
    elif "min_n_bins" in names:
        o["min_n_bins"] = draw(st.integers(1, 5))
    if "min_bin_size" in names or "sizes" in names:
        o["min_bin_size"] = draw(st.sampled_from((0.02, 0.1, 0.2, 0.33,
                                                  0.5)))
    if "max_bin_size" in names or "sizes" in names:
        o["max_bin_size"] = draw(st.sampled_from(
            [v for v in (0.15, 0.3, 0.4, 0.5, 0.75, 1.0)
             if v > o.get("min_bin_size", 0)]))
    if "diff" in names:
        o["min_event_rate_diff"] = draw(st.sampled_from((0.01, 0.05, 0.1,
                                                         0.3)))
    if "pvalue" in names:
        o["max_pvalue"] = draw(st.sampled_from((0.001, 0.05, 0.2, 0.7)))
        o["max_pvalue_policy"] = draw(st.sampled_from(("all",
                                                       "consecutive")))
    return o


@st.composite
def cases(draw, nmax=7):
    n = draw(gen.count_levels(2, nmax))
    nc = draw(st.sampled_from((2, 3, 3, 4)))
    mx = draw(st.sampled_from((6, 20, 60)))
    b = gen.rbytes(draw, max(8, n * nc))
    prof = [draw(gen.level_profile(n))[1] for _ in range(nc)]
    ev = [[1 + (b[i * nc + j] % mx) * (prof[j][i] if draw_shape else 128)
           // 128 for j in range(nc)]
          for draw_shape in (draw(st.booleans()),) for i in range(n)]
    o = draw(constraints(nc))
    if draw(st.integers(0, 4)) == 0:
        o["user_splits_fixed"] = [draw(st.integers(0, 3)) == 0
                                  for _ in range(n - 1)]
    return dict(ev=ev, opt=o, missing=draw(st.sampled_from((0, 0, 3, 20))),
                labels=draw(st.sampled_from(([0, 1, 2, 3], [1, 5, 7, 20]))))


def fit(case):
    from optbinning import MulticlassOptimalBinning
    o = dict(case["opt"])
    n = len(case["ev"])
    x, y = [], []
    for i, row in enumerate(case["ev"]):
        for j, c in enumerate(row):
            x += [float(i)] * c
            y += [case["labels"][j]] * c
    x += [None] * case["missing"]
    y += [case["labels"][0]] * case["missing"]
    o["user_splits"] = [i + 0.5 for i in range(n - 1)]
    if "user_splits_fixed" in o:
        o["user_splits_fixed"] = list(o["user_splits_fixed"])
    if isinstance(o["monotonic_trend"], list):
        o["monotonic_trend"] = list(o["monotonic_trend"])
    ob = MulticlassOptimalBinning(name="v", **o)
    ob.fit(gen.xarray(x), np.array(y))
    return ob


def trend_sets(mt, nc):
    """Permitted trends per class."""
    if not isinstance(mt, list):
        mt = [mt] * nc
    return [opt.allowed_trends(t) for t in mt]


def bins_ok(rows, o, n_samples, strict):
    """Constraints other than the trend, for bins given as class counts."""
    k = len(rows)
    size = [sum(r) for r in rows]
    if o.get("min_n_bins") is not None and k < o["min_n_bins"]:
        return "min_n_bins"
    if o.get("max_n_bins") is not None and k > o["max_n_bins"]:
        return "max_n_bins"
    if (o.get("min_bin_size") is not None and
            min(size) < math.ceil(o["min_bin_size"] * n_samples)):
        return "min_bin_size"
    if (o.get("max_bin_size") is not None and
            max(size) > math.ceil(o["max_bin_size"] * n_samples)):
        return "max_bin_size"
    d = o.get("min_event_rate_diff") or 0
    m = 1e-9 if strict else -1e-9
    for c in range(len(rows[0])):
        rate = [r[c] / s for r, s in zip(rows, size)]
        if d and any(abs(a - b) < d + (opt.EPS if strict else -opt.EPS)
                     for a, b in zip(rate, rate[1:])):
            return "min_event_rate_diff of class {}".format(c)
        if o.get("max_pvalue") is None:
            continue
        z0 = stats.norm.ppf(1.0 - o["max_pvalue"] / 2)
        for i in range(k):
            for j in range(i + 1, k):
                if o["max_pvalue_policy"] == "consecutive" and j != i + 1:
                    continue
                z = opt.z_test(rows[i][c], size[i] - rows[i][c], rows[j][c],
                               size[j] - rows[j][c])
                if z < z0 * (1 + m) + m:
                    return "max_pvalue of class {}".format(c)
    return None


class Problem:
    def __init__(self, case):
        self.rows = case["ev"]
        self.n, self.nc = len(case["ev"]), len(case["ev"][0])
        self.o = case["opt"]
        self.tot = [sum(r[c] for r in self.rows) for c in range(self.nc)]
        self.total = sum(self.tot)
        self.n_samples = self.total + case["missing"]
        self.tc = [opt.change_points([r[c] / sum(r) for r in self.rows])
                   for c in range(self.nc)]
        # one-vs-rest columns of two classes mirror each other
        self.sets = trend_sets(self.o["monotonic_trend"], self.nc)

    def bins(self, g):
        return [[sum(r[c] for r in self.rows[i:j + 1])
                 for c in range(self.nc)] for i, j in g]

    def rate(self, c, i, j):
        b = self.rows[i:j + 1]
        return sum(r[c] for r in b) / sum(map(sum, b))

    def objective(self, g):
        return sum(ref.iv_term(sum(r) - r[c], r[c], self.total - self.tot[c],
                               self.tot[c])
                   for r in self.bins(g) for c in range(self.nc))

    def trends(self, g, strict):
        """Per class: the permitted trends this grouping satisfies, or None
        when another constraint fails."""
        b = self.bins(g)
        fx = self.o.get("user_splits_fixed")
        cuts = {j for _, j in g}
        if fx and any(f and i not in cuts for i, f in enumerate(fx)):
            return None
        if bins_ok(b, self.o, self.n_samples, strict):
            return None
        if strict and self.o["solver"] == "mip":
            strict = 2
        ends = [j for _, j in g]
        return [{t for t in self.sets[c] if opt.trend(
            t, [r[c] / sum(r) for r in b], ends, self.tc[c], strict)}
            for c in range(self.nc)]


def run(case, rec):
    p = Problem(case)
    ob = fit(case)
    status = str(ob.status)
    sol = p05.solution_of(dict(ev=case["ev"], cat=False), ob,
                          list(range(p.n)))
    allg = list(opt.groupings(p.n))
    vals = {tuple(g): p.objective(g) for g in allg}
    strict = [(vals[tuple(g)], g, p.trends(g, True)) for g in allg]
    strict = sorted((s for s in strict if s[2] is not None),
                    key=lambda s: -s[0])
    mine = p.trends(sol, False)
    val = vals[tuple(sol)]
    check(status in ("OPTIMAL", "FEASIBLE", "INFEASIBLE"), "status {}",
          status)
    if status == "INFEASIBLE":
        check(len(sol) == 1, "infeasible with {} bins", len(sol))
    else:
        check(mine is not None, "{} violates {}", sol,
              bins_ok(p.bins(sol), p.o, p.n_samples, False) or "fixed splits")
        check(all(mine), "{} satisfies trends {} of permitted {}", sol, mine,
              p.sets)
    ok, excused, why = False, False, []
    pre = not (p.o.get("min_event_rate_diff") or 0)
    for combo in itertools.product(*p.sets):
        if status != "INFEASIBLE" and not all(
                t in a for t, a in zip(combo, mine)):
            continue
        good = [s for s in strict if all(t in a for t, a in
                                         zip(combo, s[2]))]
        if not good or status == "FEASIBLE" or (
                status == "OPTIMAL" and val >= good[0][0] - TOL * p.nc):
            ok = True
            break
        forb = set()
        if pre:
            for c, t in enumerate(combo):
                forb |= opt.forbidden_cuts(lambda i, j: p.rate(c, i, j), p.n,
                                           t, p.tc[c], True)
        kept = [s for s in good if not any(j in forb for _, j in s[1][:-1])]
        if not kept or (status == "OPTIMAL" and
                        val >= kept[0][0] - TOL * p.nc):
            excused = True
            continue
        why.append("{}: objective {} of {} < {} of {}".format(
            combo, val, sol, kept[0][0], kept[0][1]))
    if not ok and excused:
        rec.known("P05-preprocessing",
                  "a better grouping is excluded by the monotonic "
                  "pre-processing: pre-bins {} found {}".format(
                      case["ev"], sol))
    check(ok, "pre-bins {}, status {}: {}", case["ev"], status, why[:4])
    mt = p.o["monotonic_trend"]
    rec.label("status=" + status, "solver=" + p.o["solver"],
              "trend=" + ("list" if isinstance(mt, list) else str(mt)),
              "bins=%d" % len(sol))
    rec.nontrivial(status == "INFEASIBLE" or len(
        {round(s[0], 4) for s in strict if all(s[2])}) >= 3)


# ---------------------------------------------------------------------------
@st.composite
def data_cases(draw):
    case = draw(gen.xy_multiclass(n_hi=200))
    o = draw(binopts.multi_opts(case))
    o.pop("solver")
    o.update(draw(constraints(len(case["classes"]))))
    case["opt"] = o
    case["target"] = "multiclass"
    return case


def run_data(case, rec):
    p06.clean_records(case)
    o = case["opt"]
    ob = p06.fit(case)
    splits = ref.finite_increasing(ob.splits)
    cl, n_bins, sg, n_rows, ev = p12.recount(case, splits,
                                             p01.outlier_set(case))
    rows = ev[:n_bins]
    status = str(ob.status)
    rec.label("status=" + status, "bins=%d" % min(n_bins, 6))
    if status == "INFEASIBLE":
        check(n_bins == 1, "infeasible with {} bins", n_bins)
        rec.nontrivial()
        return
    check(status in ("OPTIMAL", "FEASIBLE"), "status {}", status)
    if p04.information_prebins(ob) < 2:
        check(n_bins == 1, "{} bins of one pre-bin", n_bins)
        return
    w = bins_ok(rows, o, len(case["x"]), False)
    check(w is None, "bins {} violate {}", rows, w)
    for c, ts in enumerate(trend_sets(o["monotonic_trend"], len(cl))):
        r = [v[c] / sum(v) for v in rows]
        check(any(loose_trend(t, r) for t in ts),
              "class {} rates {} satisfy none of {}", cl[c], r, ts)
    rec.nontrivial(n_bins >= 2)


def loose_trend(t, r):
    if t is not None and t.endswith("heuristic"):
        s = 1 if t[0] == "p" else -1
        return any(opt.monotone(r[:k], s, False) and
                   opt.monotone(r[k:], -s, False) for k in range(len(r) + 1))
    return opt.trend(t, r, list(range(len(r))), None, False)


SUBS = [
    Sub("exact", cases, run, 4500, rule="pre-bins with two to four classes"),
    Sub("data", data_cases, run_data, 1500, rule="arbitrary multiclass data"),
]
