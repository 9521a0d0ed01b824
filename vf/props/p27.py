"""P27: monitoring of a scorecard on two samples."""
import contextlib
import io
import math
import re
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import frames
import gen
import ref
import sc as S
from core import Skip, Sub, check, check_close, observing

RULE = ("A scorecard (as in P25) is monitored on an expected sample (the "
        "training data or a resample) and an actual one (a resample with "
        "shifted values and targets, special, missing and unseen values, or "
        "the same sample), optionally after another fit. Counts are "
        "recounted from the scores and the binning; PSI, event rates, "
        "means, tests and performance are recomputed from their "
        "definitions. Non-trivial: two or more score intervals and "
        "different samples.")
ASSUMPTIONS = ["score intervals are closed on the left, as they are printed",
               "standard deviations are population standard deviations",
               "records of unseen categories belong to no row of a "
               "variable",
               "p-values are not judged where a sample is empty or has no "
               "variance",
               "cases are skipped where the CP solver returns another "
               "equally good solution"]


@st.composite
def sample_spec(draw, case, lo=2):
    n = draw(st.integers(lo, 120))
    return dict(rows=gen.rbytes(draw, n), rows2=gen.rbytes(draw, n),
                odd=[gen.rbytes(draw, n) for _ in case["fr"]["names"]],
                shift=draw(st.sampled_from((0, 0, 60, 120))),
                flip=draw(st.sampled_from((0, 40, 128))),
                noise=gen.rbytes(draw, n),
                p_odd=draw(st.sampled_from((0, 0, 30))))


@st.composite
def cases(draw, tgt):
    case = draw(S.cases(tgt, m_hi=3))
    case["before"] = None
    case["method"] = draw(st.sampled_from(("cart", "cart", "quantile",
                                           "uniform")))
    case["n_bins"] = draw(st.integers(2, 20))
    if case["method"] == "cart" and draw(st.integers(0, 5)) == 0:
        case["n_bins"] = None
    case["size"] = draw(st.sampled_from((0.05, 0.01, 0.1, 0.3, 0.5)))
    case["digits"] = draw(st.integers(0, 6))
    case["expected"] = draw(st.one_of(st.none(), sample_spec(case, 20)))
    case["actual"] = draw(st.one_of(st.none(), sample_spec(case),
                                    sample_spec(case), sample_spec(case)))
    case["form"] = draw(st.sampled_from(("array", "series", "list")))
    case["first"] = draw(st.booleans())
    return case


def sample(case, spec):
    """(frame, targets) of a sample."""
    import pandas as pd
    fr = case["fr"]
    n0 = fr["n"]
    if spec is None:
        rows = list(range(n0))
    else:
        # a shift concentrates the sample on some of the records
        rows = [(a * 256 + b) * n0 // 65536 for a, b in
                zip(spec["rows"], spec["rows2"])]
        if spec["shift"]:
            order = sorted(range(n0), key=lambda i: fr["y"][i])
            rows = [order[r * (256 - spec["shift"]) // 256] for r in rows]
    d, y = {}, [fr["y"][i] for i in rows]
    for j, v in enumerate(fr["names"]):
        x = [fr["cols"][j][i] for i in rows]
        kind = fr["kinds"][j]
        if spec is not None and spec["p_odd"]:
            sv = gen.special_values(S.codes_of(case, j)) or [None]
            for i, b in enumerate(spec["odd"][j]):
                if b >= spec["p_odd"]:
                    continue
                x[i] = [None, sv[b % len(sv)], None,
                        "unseen" if kind == "cat" else 7777.0][b % 4]
        d[v] = gen.xarray(x, kind == "cat")
    if spec is not None:
        for i, b in enumerate(spec["noise"]):
            if b < spec["flip"]:
                y[i] = (1 - y[i] if fr["target"] == "binary"
                        else y[i] + b / 8.0 + 0.0625)
    if fr["target"] == "continuous" and all(v == int(v) for v in y):
        y[0] += 0.125
    df = pd.DataFrame({fr["names"][j]: d[fr["names"][j]]
                       for j in case["perm"]})
    return df, np.array(y, dtype=int if fr["target"] == "binary" else float)


def form(y, kind):
    import pandas as pd
    if kind == "series":
        return pd.Series(y, index=[3 * i + 1 for i in range(len(y))])
    return list(y) if kind == "list" else y


def psi_term(a, e):
    if a == e:
        return 0.0
    if a == 0 or e == 0:
        return math.inf
    return (a - e) * math.log(a / e)


def same(u, v, what, rtol=1e-9, atol=1e-9):
    u, v = float(u), float(v)
    if math.isinf(v) or math.isnan(v):
        check(u == v or (u != u and v != v), "{}: got {}, expected {}",
              what() if callable(what) else what, u, v)
    else:
        check_close(u, v, what, rtol, atol)


def count_table(t, na, ne, what):
    """Counts, shares and PSI of one table."""
    ta, te = sum(na), sum(ne)
    tot = 0.0
    for i, (a, e) in enumerate(zip(na, ne)):
        r = t.iloc[i]
        check(int(r["Count A"]) == a and int(r["Count E"]) == e,
              "{} row {}: counts {} and {}, recounted {} and {}", what, i,
              r["Count A"], r["Count E"], a, e)
        same(r["Count A (%)"], a / ta, what + " Count A (%)")
        same(r["Count E (%)"], e / te, what + " Count E (%)")
        p = psi_term(a / ta, e / te)
        same(r["PSI"], p, lambda: "{} PSI of row {}".format(what, i))
        tot += p
    return tot


def welch(ma, sa, na, me, se, ne):
    from scipy import stats
    va, ve = sa * sa / na, se * se / ne
    t = (ma - me) / math.sqrt(va + ve)
    df = (va + ve) ** 2 / (va * va / (na - 1) + ve * ve / (ne - 1))
    return t, 2 * float(stats.t.sf(abs(t), df))


def confusion(y, p):
    tp = sum(1 for a, b in zip(y, p) if a == 1 and b == 1)
    tn = sum(1 for a, b in zip(y, p) if a == 0 and b == 0)
    fp = sum(1 for a, b in zip(y, p) if a == 0 and b == 1)
    fn = sum(1 for a, b in zip(y, p) if a == 1 and b == 0)
    return tp, tn, fp, fn


def div(a, b):
    return a / b if b else math.nan


def performance_binary(y, pred, prob):
    tp, tn, fp, fn = confusion(y, pred)
    tpr, tnr = div(tp, tp + fn), div(tn, tn + fp)
    fpr, fnr = div(fp, tn + fp), div(fn, tp + fn)
    if min(tp, tn, fp, fn) > 0:
        dp = math.sqrt(3) / math.pi * (math.log(tpr / fpr) +
                                       math.log(tnr / fnr))
    else:
        dp = None
    pos = [p for a, p in zip(y, prob) if a == 1]
    neg = [p for a, p in zip(y, prob) if a == 0]
    g = math.nan
    if pos and neg:
        s = sum((p > q) - (p < q) for p in pos for q in neg)
        g = s / (len(pos) * len(neg))
    return {"True positive rate": tpr, "True negative rate": tnr,
            "False positive rate": fpr, "False negative rate": fnr,
            "Balanced accuracy": (tpr + tnr) / 2,
            "Discriminant power": dp, "Gini": g}


def performance_continuous(y, p):
    n = len(y)
    e = [a - b for a, b in zip(y, p)]
    my = math.fsum(y) / n
    me = math.fsum(e) / n
    sst = math.fsum((a - my) ** 2 for a in y)
    ape = [abs(d / a) for d, a in zip(e, y)]
    sape = [abs(d) / (abs(a) + abs(b)) for d, a, b in zip(e, y, p)]
    out = {"Mean absolute error": math.fsum(map(abs, e)) / n,
           "Mean squared error": math.fsum(d * d for d in e) / n,
           "Median absolute error": ref.median([abs(d) for d in e]),
           "MPE": math.fsum(d / a for d, a in zip(e, y)) / n,
           "MAPE": math.fsum(ape) / n, "MdAPE": ref.median(ape),
           "SMAPE": math.fsum(sape) / n, "SMdAPE": ref.median(sape),
           "Explained variance": None, "R^2": None}
    if sst > 1e-9:
        out["Explained variance"] = 1 - math.fsum(
            (d - me) ** 2 for d in e) / sst
        out["R^2"] = 1 - math.fsum(d * d for d in e) / sst
    return out


def run(case, rec):
    from optbinning.scorecard import ScorecardMonitoring
    tgt = case["fr"]["target"]
    sc, bp, X, y = S.fitted(case)
    with observing("fitted scorecard"):
        vs = S.variables(case, sc)
    XE, ye = sample(case, case["expected"])
    XA, ya = sample(case, case["actual"]) if case["actual"] else (XE, ye)
    mon = ScorecardMonitoring(sc, psi_method=case["method"],
                              psi_n_bins=case["n_bins"],
                              psi_min_bin_size=case["size"],
                              show_digits=case["digits"])
    sa = [float(v) for v in sc.score(XA)]
    se = [float(v) for v in sc.score(XE)]
    if not all(map(math.isfinite, sa + se)):
        raise Skip("scores are not finite")
    rows = {}
    for v in vs:
        k = v.name
        ra, re_ = [[v.row(c if c == c else None) for c in D[k]]
                   for D in (XA, XE)]
        rows[k] = (ra, re_)
        if set(ra) == {None} or set(re_) == {None}:
            raise Skip("no record of a variable in any row")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["first"]:
            mon.fit(XE, form(ye, "array"), X[list(XE.columns)], y)
        mon.fit(XA, form(ya, case["form"]), XE, form(ye, case["form"]))
    t, tv, tt = mon.psi_table(), mon.psi_variable_table(
        style="detailed"), mon.tests_table()
    with observing("score intervals"):
        sp = ref.finite_increasing(mon.psi_splits, "psi_splits")
        ia, ie = [[sum(s <= q for s in sp) for q in s2] for s2 in (sa, se)]
        # a cut may separate scores that differ by rounding only
        nb = len(sp) + 1
        if case["n_bins"]:
            check(nb <= case["n_bins"], "{} intervals, at most {}", nb,
                  case["n_bins"])
        na, ne = [[ix.count(i) for i in range(nb)] for ix in (ia, ie)]
        if case["method"] == "cart":
            for c in ne:
                check(c + 1e-9 >= case["size"] * len(se), "an interval of {} "
                      "of {} expected records, at least {} requested", c,
                      len(se), case["size"])
        elif case["method"] == "uniform" and max(se) > min(se):
            k = case["n_bins"]
            for i, s in enumerate(sp):
                check_close(s, min(se) + (max(se) - min(se)) * (i + 1) / k,
                            "uniform cut", 1e-6, 1e-9)
    with observing("psi_table"):
        check(len(t) == nb + 1, "{} rows, expected {}", len(t), nb + 1)
        check([str(b) for b in t["Bin"][:-1]] ==
              ref.num_labels(sp, case["digits"]), "labels {}",
              list(t["Bin"]))
        tot = count_table(t, na, ne, "psi_table")
        check(t.index[-1] == "Totals", "last row {}", t.index[-1])
        check(int(t["Count A"].values[-1]) == len(sa) and
              int(t["Count E"].values[-1]) == len(se), "totals {} and {}",
              t["Count A"].values[-1], t["Count E"].values[-1])
        same(t["PSI"].values[-1], tot, "total PSI")
        if case["actual"] is None:
            check_close(float(t["PSI"].values[-1]), 0.0, "PSI of identical "
                        "samples", 0, 1e-12)
    variable_tables(case, mon, vs, rows, tv)
    with observing("tests_table"):
        check(len(tt) == nb, "{} rows, expected {}", len(tt), nb)
        for i in range(nb):
            r = tt.iloc[i]
            A = [q for q, k in zip(ya.tolist(), ia) if k == i]
            E = [q for q, k in zip(ye.tolist(), ie) if k == i]
            check(str(r["Bin"]) == str(t["Bin"].iloc[i]), "labels differ")
            check(int(r["Count A"]) == len(A) and int(r["Count E"]) ==
                  len(E), "row {}: counts {} and {}", i, r["Count A"],
                  r["Count E"])
            test_row(tgt, r, A, E, i)
    frame = frame_of(mon, "_df_target_analysis", set())
    if frame is not None:
        with observing("target analysis"):
            target_rows(tgt, frame, ya.tolist(), ye.tolist())
    report(case, mon, sc, XA, XE, ya, ye, tgt, t, tt)
    rec.label(tgt, case["method"], "intervals=%d" % min(nb, 5))
    if case["actual"] is None:
        rec.label("identical samples")
    if any(r in sp for r in sa + se):
        rec.label("score equal to a cut")
    if 0 in na:
        rec.label("empty interval")
    rec.nontrivial(nb >= 2 and case["actual"] is not None)


def variable_tables(case, mon, vs, rows, tv):
    summ = mon.psi_variable_table()
    with observing("psi_variable_table"):
        check(len(tv) == sum(v.n_rows for v in vs), "{} rows, expected {}",
              len(tv), sum(v.n_rows for v in vs))
        check(sorted(summ["Variable"]) == sorted(v.name for v in vs),
              "variables {}", list(summ["Variable"]))
    for v in vs:
        one = mon.psi_variable_table(v.name)
        det = mon.psi_variable_table(v.name, style="detailed")
        with observing("psi_variable_table"):
            d = tv[tv["Variable"] == v.name]
            check(len(d) == len(det) == v.n_rows, "{}: {} rows, expected {}",
                  v.name, len(d), v.n_rows)
            check([str(b) for b in d["Bin"]] == [str(b) for b in
                                                 v.table["Bin"]],
                  "{}: bins {}", v.name, list(d["Bin"]))
            na, ne = [[r.count(i) for i in range(v.n_rows)]
                      for r in rows[v.name]]
            tot = count_table(d, na, ne, v.name)
            count_table(det, na, ne, v.name)
            same(summ[summ["Variable"] == v.name]["PSI"].values[0], tot,
                 "summary PSI of " + v.name)
            same(one.values[0], tot, "PSI of " + v.name)


def test_row(tgt, r, A, E, i):
    t, p = float(r["statistic"]), float(r["p-value"])
    if tgt == "binary":
        for u, S_, c in ((A, "A", "Event rate A"), (E, "E", "Event rate E")):
            if u:
                check_close(float(r[c]), sum(u) / len(u), c)
        if not A or not E:
            return
        x = ref.chi2_2xk([(sum(A), len(A) - sum(A)),
                          (sum(E), len(E) - sum(E))])
        if x is None:
            check((t != t and p != p) or (t == 0 and p == 1), "row {}: equal "
                  "rates have statistic {}, p-value {}", i, t, p)
        else:
            check_close(t, x, lambda: "statistic of row %d" % i, 1e-7, 1e-9)
            check_close(p, ref.chi2_sf1(x), lambda: "p-value of row %d" % i,
                        1e-7, 1e-9)
        return
    st_ = []
    for u, k in ((A, "A"), (E, "E")):
        if not u:
            st_.append(None)
            continue
        m = math.fsum(u) / len(u)
        s = math.sqrt(math.fsum((q - m) ** 2 for q in u) / len(u))
        check_close(float(r["Mean " + k]), m, "Mean " + k, 1e-9, 1e-9)
        check_close(float(r["Std " + k]), s, "Std " + k, 1e-7,
                    1e-7 * (1 + abs(m)))
        st_.append((m, s, len(u)))
    if None in st_ or min(st_[0][2], st_[1][2]) < 2 or \
            max(st_[0][1], st_[1][1]) < 1e-6 * (1 + abs(st_[0][0])):
        return
    x, q = welch(*(st_[0] + st_[1]))
    check_close(t, x, lambda: "statistic of row %d" % i, 1e-5, 1e-6)
    check_close(p, q, lambda: "p-value of row %d" % i, 1e-5, 1e-6)


def target_rows(tgt, t, A, E):
    v = {str(m): (a, e) for m, a, e in zip(t["Metric"], t["Actual"],
                                           t["Expected"])}
    for k, u in enumerate((A, E)):
        n = len(u)
        if tgt == "binary":
            want = {"Number of records": n, "Event records": sum(u),
                    "Non-event records": n - sum(u)}
            sh = list(t[("Actual (%)", "Expected (%)")[k]])
            check_close(float(sh[1]), sum(u) / n, "event share")
            check_close(float(sh[2]), 1 - sum(u) / n, "non-event share")
        else:
            m = math.fsum(u) / n
            want = {"Mean": m, "Std": math.sqrt(
                math.fsum((q - m) ** 2 for q in u) / n),
                "p25": ref.percentile(u, 25), "Median": ref.median(u),
                "p75": ref.percentile(u, 75)}
        for name, w in want.items():
            check_close(float(v[name][k]), w, "target analysis " + name,
                        1e-7, 1e-7)


def frame_of(mon, name, columns):
    """A table without public access, None if it is kept elsewhere."""
    v = getattr(mon, name, None)
    if isinstance(v, pd.DataFrame) and columns <= set(v.columns):
        return v
    return None


def report(case, mon, sc, XA, XE, ya, ye, tgt, t, tt):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        preds = [[float(v) for v in sc.predict(D)] for D in (XA, XE)]
        if tgt == "binary":
            probs = [[float(v) for v in sc.predict_proba(D)[:, 1]]
                     for D in (XA, XE)]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        mon.system_stability_report()
    perf = frame_of(mon, "_df_performance", {"Metric", "Diff A - E"})
    with contextlib.nullcontext() if perf is None else \
            observing("performance"):
        if perf is None:        # judged by the printed values only
            perf = pd.DataFrame(columns=["Metric", "Actual", "Expected",
                                         "Diff A - E"])
            ya = ye = None
        for k, (y, c) in enumerate(((ya, "Actual"), (ye, "Expected"))):
            if y is None:
                continue
            got = {str(m): float(v) for m, v in zip(perf["Metric"],
                                                    perf[c])}
            if tgt == "binary":
                want = performance_binary(y.tolist(), preds[k], probs[k])
            else:
                want = performance_continuous(y.tolist(), preds[k])
            check(set(got) == set(want), "metrics {}", sorted(got))
            for m, w in want.items():
                if w is not None:
                    same(got[m], w, lambda: "{} of the {} sample".format(
                        m, c), 1e-6, 1e-7)
        for a, e, d in zip(perf["Actual"], perf["Expected"],
                           perf["Diff A - E"]):
            if math.isfinite(a) and math.isfinite(e):
                check_close(float(d), float(a) - float(e), "difference")
    with observing("report"):
        txt = out.getvalue()
        psi = [float(v) for v in t["PSI"]]
        m = re.search(r"PSI total:\s+(\S+) \((.*)\)", txt)
        check(m is not None, "no PSI total in the report")
        same(float(m.group(1)), psi[-1] if math.isinf(psi[-1]) else
             round(psi[-1], 4), "reported PSI", 1e-6, 1.01e-4)
        if abs(psi[-1] - 0.1) > 1e-6 and abs(psi[-1] - 0.25) > 1e-6:
            msg = ("No significant change", "Requires investigation",
                   "Significance change")[(psi[-1] >= 0.1) +
                                          (psi[-1] >= 0.25)]
            check(m.group(2) == msg, "PSI {} reported as {!r}", psi[-1],
                  m.group(2))
        lims = [(0.1, 0.25), (0.05, 0.1, 0.5)]
        heads = (("[0.00, 0.10)", "[0.10, 0.25)", "[0.25, Inf+)"),
                 ("[0.00, 0.05)", "[0.05, 0.10)", "[0.10, 0.50)",
                  "[0.50, 1.00)"))
        for vals, lim, hd in ((psi[:-1], lims[0], heads[0]),
                              ([float(p) for p in tt["p-value"]], lims[1],
                               heads[1])):
            if any(v != v or min(abs(v - q) for q in lim) < 1e-9
                   for v in vals):
                continue
            for i, h in enumerate(hd):
                w = sum(1 for v in vals
                        if sum(v >= q for q in lim) == i)
                r = re.search(re.escape(h) + r"\s+(\d+)\s", txt)
                check(r is not None and int(r.group(1)) == w, "report counts"
                      " {} in {}, expected {}", r and r.group(1), h, w)


SUBS = [
    Sub("binary", lambda: cases("binary"), run, 350, rule="binary target"),
    Sub("continuous", lambda: cases("continuous"), run, 350,
        rule="continuous target"),
]
