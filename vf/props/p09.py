"""P09: the continuous binning table accounts for and describes every record."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import binopts
import gen
import ref
from core import Skip, Sub, check, check_close, observing
from props import p02, p06

RULE = ("A case is one fitted continuous table; every row is recomputed from "
        "the raw target values of the records it must hold. Non-trivial: at "
        "least two bins, or a special/missing/rare row that is not empty.")
ASSUMPTIONS = ["rows without records report mean 0; their standard "
               "deviation, minimum and maximum are not judged",
               "standard deviations are population deviations, compared "
               "with an allowance for cancellation",
               "with sample weights only counts, sums and means are judged"]


@st.composite
def cases(draw, cat=False, weights=False):
    case = draw(gen.xy_continuous(cat=cat, n_hi=200))
    case["special"] = draw(gen.nan_code(case["special"]))
    case["opt"] = draw(binopts.cont_opts(
        case, trends=(None, None, "auto", "ascending", "peak", "convex"),
        outliers=not weights))
    if draw(st.integers(0, 3)) == 0:
        case["opt"]["max_n_bins"] = draw(st.integers(1, 3))
    if draw(st.integers(0, 9)) == 0:
        case["opt"]["min_bin_size"] = draw(st.sampled_from((0.3, 0.5)))
    case["target"] = "continuous"
    case["digits"] = draw(st.integers(0, 8))
    case["container"] = draw(st.sampled_from(("array", "array", "list",
                                              "series")))
    if isinstance(case["special"], list) and not cat:
        case["special_array"] = draw(st.booleans())
    if weights:
        case["sw"] = [1 + v % 4 for v in gen.rbytes(draw, len(case["x"]))]
    return case


def fit(case):
    from props.p01 import make_xy
    ob = p06.estimator(case)
    if case.get("special_array"):
        ob.set_params(special_codes=np.array(gen.special_arg(case["special"])))
    x, y = make_xy(case)
    if "sw" in case:
        ob.fit(x, y, sample_weight=np.array(case["sw"], dtype=float))
    else:
        ob.fit(x, y)
    return ob


def layout(case, ob):
    with observing("splits"):
        if case["cat"]:
            groups = [list(g) for g in ob.splits]
            return [], groups, ref.group_map(groups)
        return ref.finite_increasing(ob.splits), None, None


def row_values(case, splits, groups, gmap, n_bins, sg, n_rows, out):
    """Targets (and weights) of each row, from the raw records."""
    rows = [[] for _ in range(n_rows)]
    wts = [[] for _ in range(n_rows)]
    w = case.get("sw") or [1] * len(case["x"])
    for i, v in enumerate(case["x"]):
        if i in out:
            continue
        r = ref.row_of(v, case, splits, gmap, n_bins, sg)
        check(r is not None, "training category {!r} is in no group", v)
        rows[r].append(float(case["y"][i]))
        wts[r].append(w[i])
    return rows, wts


def std_tol(ys):
    return 1e-9 + 1e-7 * max((abs(v) for v in ys), default=0.0)


def run(case, rec):
    clean = p06.clean_records(case)
    from props import p01
    out = p01.outlier_set(case)
    ob = fit(case)
    splits, groups, gmap = layout(case, ob)
    t = ob.binning_table
    df = t.build()
    n_bins, sg, n_rows = ref.row_layout(case, splits, groups)
    rows, wts = row_values(case, splits, groups, gmap, n_bins, sg, n_rows,
                           out)
    allv = [v for r in rows for v in r]
    scale = max(abs(v) for v in allv)
    at = 1e-9 * max(scale, 1e-3)
    weighted = "sw" in case
    with observing("binning table"):
        check(len(df) == n_rows + 1, "table has {} rows, expected {}",
              len(df), n_rows + 1)
        check(list(df.index)[-1] == "Totals", "last row is not Totals")
        labels = list(df["Bin"].values)
        col = {c: list(df[c].values) for c in df.columns}
        tot_n = sum(sum(w) for w in wts)
        tot_s = sum(v * w for r, ws in zip(rows, wts)
                    for v, w in zip(r, ws))
        mu = tot_s / tot_n
        woes, ivs, means = [], [], []
        for r in range(n_rows):
            what = "row {} ({}) ".format(r, labels[r])
            n = sum(wts[r])
            s = sum(v * w for v, w in zip(rows[r], wts[r]))
            m = s / n if n else 0.0
            means.append(m)
            woes.append(m - mu)
            ivs.append(abs(m - mu) * n / tot_n)
            check(float(col["Count"][r]) == n, what + "Count {} expected {}",
                  col["Count"][r], n)
            check_close(col["Sum"][r], s, what + "Sum", 1e-9, at * (n + 1))
            check_close(col["Mean"][r], m, what + "Mean", 1e-9, at)
            check_close(col["Count (%)"][r], n / tot_n, what + "share")
            check_close(col["WoE"][r], m - mu, what + "WoE", 1e-9, 4 * at)
            check_close(col["IV"][r], ivs[-1], what + "IV", 1e-9, 4 * at)
            check(int(col["Zeros count"][r]) == sum(
                1 for v in rows[r] if v == 0),
                what + "Zeros count {} of {}", col["Zeros count"][r],
                rows[r][:20])
            if n and not weighted:
                check(float(col["Min"][r]) == min(rows[r]),
                      what + "Min {} expected {}", col["Min"][r],
                      min(rows[r]))
                check(float(col["Max"][r]) == max(rows[r]),
                      what + "Max {} expected {}", col["Max"][r],
                      max(rows[r]))
                sd = math.sqrt(sum((v - m) ** 2 for v in rows[r]) / n)
                check_close(col["Std"][r], sd, what + "Std", 1e-7,
                            std_tol(rows[r]) if sd > 1e-6 * scale else
                            1e-9 + 1e-6 * scale)
        check(float(col["Count"][-1]) == tot_n, "Totals Count")
        check_close(col["Sum"][-1], tot_s, "Totals Sum", 1e-9, at * tot_n)
        check_close(col["Mean"][-1], mu, "Totals Mean", 1e-9, at)
        check_close(col["Count (%)"][-1], 1.0, "Totals share")
        check(int(col["Zeros count"][-1]) == sum(1 for v in allv if v == 0),
              "Totals Zeros count")
        t_woe, t_iv = sum(map(abs, woes)), sum(ivs)
        check_close(col["WoE"][-1], t_woe, "Totals WoE", 1e-9, 40 * at)
        check_close(col["IV"][-1], t_iv, "Totals IV", 1e-9, 40 * at)
        if not weighted:
            check(float(col["Min"][-1]) == min(allv), "Totals Min {}, the "
                  "smallest target is {}", col["Min"][-1], min(allv))
            check(float(col["Max"][-1]) == max(allv), "Totals Max {}, the "
                  "largest target is {}", col["Max"][-1], max(allv))
        check_close(t.iv, t_iv, "attribute iv", 1e-9, 40 * at)
        check_close(t.woe, t_woe, "attribute woe", 1e-9, 40 * at)
        names = [g[0] for g in sg] + ["Missing"]
        check([str(v) for v in labels[n_bins:n_rows]] == names,
              "special/missing labels {} expected {}",
              labels[n_bins:n_rows], names)
        if not case["cat"]:
            check([str(v) for v in labels[:n_bins]] ==
                  ref.num_labels(splits), "bin labels {} for splits {}",
                  labels[:n_bins], splits)
        else:
            for r in range(n_bins):
                check(sorted(map(str, labels[r])) ==
                      sorted(map(str, groups[r])),
                      "category label {} for group {}", labels[r], groups[r])
        df2 = t.build(show_digits=case["digits"], add_totals=False)
        check(len(df2) == n_rows, "add_totals=False gives {} rows", len(df2))
        for c in ("Count", "Sum", "Mean", "Std", "WoE", "IV", "Min", "Max"):
            for r in range(n_rows):
                check_close(df2[c].values[r], df[c].values[r],
                            "column {} with other options".format(c), 1e-12,
                            1e-300)
        if not case["cat"]:
            check([str(b) for b in df2["Bin"].values[:n_bins]] ==
                  ref.num_labels(splits, case["digits"]),
                  "labels with {} digits", case["digits"])
    if not weighted:
        analysis(case, ob, t, rows, means, woes, ivs, mu, n_bins, scale,
                 [float(v) for v in df["Std"].values[:n_rows]])
    rec.label("bins=%d" % min(n_bins, 6), "y=" + case["ykind"],
              "status=" + str(ob.status))
    for o in ("user_splits", "cat_cutoff", "split_digits",
              "outlier_detector"):
        if o in case["opt"]:
            rec.label(o)
    if rows[-1]:
        rec.label("missing records")
    if any(rows[n_bins:-1]):
        rec.label("special records")
    if any(not r for r in rows):
        rec.label("empty row")
    rec.nontrivial(n_bins >= 2 or any(rows[n_bins:]))


def analysis(case, ob, t, rows, means, woes, ivs, mu, n_bins, scale, stds):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        t.analysis()
    n_metric = n_bins
    if case["cat"] and p02.rare_group(case, ob):
        n_metric -= 1
    with observing("analysis report"):
        text = buf.getvalue()
        v = p02.report_values(text)
        tot = sum(map(len, rows))
        shares = [len(r) / tot for r in rows]
        at = 1e-7 + 1e-8 * scale
        check_close(float(v["IV"]), sum(ivs), "analysis IV", 1e-8, at)
        woe = sum(map(abs, woes))
        check_close(float(v["WoE"]), woe, "analysis WoE", 1e-8, at)
        h, hn = ref.hhi(shares), ref.hhi(shares, True)
        check_close(float(v["HHI"]), h, "analysis HHI", 1e-7, 2e-8)
        check_close(float(v["HHI (normalized)"]), hn, "analysis HHI norm",
                    1e-7, 2e-8)
        pv = []
        got = [r for r in p02_rows(text)]
        check(len(got) == n_metric - 1, "{} test rows for {} bins", len(got),
              n_metric)
        exact = True
        for i in range(n_metric - 1):
            a, b = rows[i], rows[i + 1]
            sa, sb = (math.sqrt(sum((u - m) ** 2 for u in r) / len(r))
                      for r, m in ((a, means[i]), (b, means[i + 1])))
            eps = 1e-4 * max(scale, 1e-9)
            if sa + sb < eps or min(len(a), len(b)) < 2:
                # degenerate variances: use the table's own figures
                sa, sb = stds[i], stds[i + 1]
                exact = False
            with np.errstate(all="ignore"):
                w = stats.ttest_ind_from_stats(means[i], sa, len(a),
                                               means[i + 1], sb, len(b),
                                               False)
            pv.append(float(w.pvalue))
            check((got[i][0], got[i][1]) == (i, i + 1),
                  "test row {} compares {}", i, got[i][:2])
            if exact and abs(w.statistic) > 1e-3:
                check_close(got[i][2], w.statistic, "t statistic", 1e-4,
                            1e-4)
                check_close(got[i][3], w.pvalue, "t-test p-value", 1e-4,
                            1e-5)
        if exact and abs(mu) > 1e-6 * scale and all(
                not math.isnan(p) for p in pv):
            rw = woe / abs(mu)
            check_close(float(v["WoE (normalized)"]), rw,
                        "analysis WoE (normalized)", 1e-7, 1e-7)
            s1 = 0 if rw == 0 else max(1 - 1 / rw, 0)
            qs = s1 * math.prod(1 - p for p in pv) * (1 - hn)
            if all(p < 0.999 for p in pv):
                check_close(float(v["Quality score"]), qs,
                            "analysis quality score", 1e-5, 1e-6)
                check_close(t.quality_score, qs, "quality_score", 1e-5,
                            1e-9)
        if not case["cat"]:
            m = means[:n_bins]
            whole = all(float(y).is_integer() for r in rows for y in r)
            near = any((0 if whole else -1) < abs(a - b) <= 1e-9 * scale
                       for i, a in enumerate(m) for b in m[:i])
            if not near:
                check(p02.trend_ok(v["Monotonic trend"], m),
                      "trend label {!r} for means {}", v["Monotonic trend"],
                      m)


def p02_rows(text):
    import re
    rows = []
    tail = text.split("Significance tests")[1]
    for line in tail.splitlines():
        f = line.split()
        if f and re.fullmatch(r"\d+", f[0]) and len(f) == 4:
            rows.append([float(v) for v in f])
    return rows


SUBS = [
    Sub("num", lambda: cases(False), run, 4000, rule="numerical features"),
    Sub("cat", lambda: cases(True), run, 3000, rule="categorical features"),
    Sub("weights", lambda: cases(False, True), run, 1000,
        rule="integer sample weights"),
]
