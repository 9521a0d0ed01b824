"""P17: piecewise binary binning."""
import math

import numpy as np

import gen
import pw
import ref
from core import Skip, Sub, check, check_close, check_vec, observing
from props import p02

RULE = ("A case is a numerical feature with special/missing values, a binary "
        "target, options and a query. The table is recounted, the fitted "
        "coefficients are compared with the documented two-step procedure "
        "(splits of the plain binning, robust regression of the estimator's "
        "probabilities), the function with the requested shape, and the "
        "transform with the table. Non-trivial: two or more bins.")
ASSUMPTIONS = ["ropwr and scikit-learn are trusted; problems they reject are "
               "skipped",
               "shape (trend, continuity, bounds at training values) is "
               "judged for degree <= 1 within 0.002",
               "the asymptotic divergences of the report are not judged"]


def make_estimator(case):
    from sklearn.linear_model import LogisticRegression
    from sklearn.tree import DecisionTreeClassifier
    if case["estimator"] == "tree":
        return DecisionTreeClassifier(max_depth=2, random_state=0)
    return LogisticRegression()


def one_sided_ks(y, p):
    v = sorted(set(p))
    n1, n0 = sum(y), len(y) - sum(y)
    best = 0.0
    for t in v:
        a = sum(1 for q, z in zip(p, y) if q <= t and z == 0) / n0
        b = sum(1 for q, z in zip(p, y) if q <= t and z == 1) / n1
        best = max(best, a - b)
    return best


def auc(y, p):
    pos = [q for q, z in zip(p, y) if z]
    neg = [q for q, z in zip(p, y) if not z]
    s = sum((a > b) + 0.5 * (a == b) for a in pos for b in neg)
    return s / (len(pos) * len(neg))


def run(case, rec):
    from optbinning import OptimalPWBinning
    idx, out = pw.clean(case)
    xc = np.array([case["x"][i] for i in idx], dtype=float)
    yc = np.array([case["y"][i] for i in idx])
    if len(set(yc.tolist())) < 2:
        raise Skip("one class among clean records")
    est = make_estimator(case)
    pred = est.fit(xc.reshape(-1, 1), yc).predict_proba(
        xc.reshape(-1, 1))[:, 1]
    kw = pw.options(case)
    if case["estimator"]:
        kw["estimator"] = make_estimator(case)
    ob = OptimalPWBinning(name="v", special_codes=pw.special(case), **kw)
    X = gen.xarray(case["x"])
    Y = np.array(case["y"])
    pw.fit(case, ob, X, Y, xc, yc, pred)
    lb, ub = case["lb"], case["ub"]
    with observing("splits"):
        splits = np.array(ref.finite_increasing(ob.splits), dtype=float)
    rcoef = pw.reference(case, xc, yc, pred, splits)
    sg = pw.groups(case)
    nb, n_rows = len(splits) + 1, len(splits) + 2 + len(sg)
    ne, ev = [0] * n_rows, [0] * n_rows
    for i, (v, z) in enumerate(zip(case["x"], case["y"])):
        if i not in out:
            (ev if z else ne)[pw.row_of(v, splits, sg)] += 1
    tne, tev = sum(ne), sum(ev)
    t = ob.binning_table
    df = t.build(show_digits=case["digits"])
    deg = case["opt"]["degree"]
    with observing("binning table"):
        check(len(df) == n_rows + 1, "{} rows, expected {}", len(df),
              n_rows + 1)
        pw.labels(df, splits, case["digits"], sg)
        cnt = [a + b for a, b in zip(ne, ev)]
        for nm, w in (("Count", cnt), ("Non-event", ne), ("Event", ev)):
            check_vec([float(v) for v in df[nm].values], w + [sum(w)], nm, 0,
                      0)
        check_vec([float(v) for v in df["Count (%)"].values],
                  [c / sum(cnt) for c in cnt] + [1], "Count (%)")
        c = pw.coefficients(df, nb, deg)
        for r in range(nb, n_rows):
            w = ref.event_rate(ne[r], ev[r])
            check_close(df["c0"].values[r], w, "c0 of row %d" % r)
            for k in range(1, deg + 1):
                check_close(df["c%d" % k].values[r], 0, "c%d of row %d" %
                            (k, r))
        if rcoef is not None:
            pw.check_coef(case, c, rcoef, xc, pred, splits)
        if pw.semantics(case, c, splits, xc, 1.0):
            rec.label("shape judged")
        df2 = t.build(add_totals=False)
        check(len(df2) == n_rows, "add_totals=False gives {} rows",
              len(df2))
    # transform
    q, Q = pw.queries(case, splits)
    tr = case["tr"]
    for metric in ("event_rate", "woe"):
        got = ob.transform(Q, metric=metric, metric_special=tr["special"],
                           metric_missing=tr["missing"], lb=lb, ub=ub)
        with observing("transform"):
            check(len(got) == len(q), "{} outputs for {} values", len(got),
                  len(q))
            for v, g in zip(q, got):
                r = pw.row_of(v, splits, sg)
                what = "{} of {!r}".format(metric, v)
                tol = 1e-9
                if r < nb:
                    w, m = pw.value(c[r], v)
                    tol = 1e-9 * max(1.0, m)
                    if lb is not None:
                        w = max(w, lb)
                    if ub is not None:
                        w = min(w, ub)
                    if metric == "woe":
                        if not 10 * tol < w < 1 - 10 * tol:
                            continue
                        tol = tol / (w * (1 - w))
                        w = math.log((1 / w - 1) * tev / tne)
                else:
                    w = tr["special"] if r < n_rows - 1 else tr["missing"]
                    if w == "empirical":
                        w = ref.event_rate(ne[r], ev[r])
                        if metric == "woe":
                            w = ref.woe(ne[r], ev[r], tne, tev)
                check_close(g, w, what, 1e-9, max(tol, 1e-9))
    # analysis
    if any(ne[i] + ev[i] == 0 for i in range(nb)):
        raise Skip("empty bin")
    text = pw.report(t.analysis, pvalue_test=case["test"], n_samples=50)
    with observing("analysis"):
        v = p02.report_values(text)
        p = [min(max(pw.value(c[i], a)[0], 1e-8), 1 - 1e-8)
             for a, i in zip(xc, np.digitize(xc, splits))]
        yl = yc.tolist()
        sh = [k / sum(cnt) for k in cnt]
        want = {"HHI": ref.hhi(sh), "HHI (normalized)": ref.hhi(sh, True),
                "Brier score": sum((a - b) ** 2 for a, b in zip(p, yl)) /
                len(p)}
        u = sorted(set(p))
        if all(b - a > 1e-7 for a, b in zip(u, u[1:])):
            # ranking not decided by rounding
            want["Gini index"] = 2 * auc(yl, p) - 1
            want["KS"] = one_sided_ks(yl, p)
        if nb >= 2:
            want["Cramer's V"] = math.sqrt(
                ref.chi2_2xk(list(zip(ne[:nb], ev[:nb]))) / sum(cnt[:nb]))
        for nm, w in want.items():
            check_close(float(v[nm]), w, "analysis " + nm, 1e-6, 1e-7)
        rows = p02.test_rows(text)
        check([(r[0], r[1]) for r in rows] ==
              [(i, i + 1) for i in range(nb - 1)], "tests compare {}",
              [(r[0], r[1]) for r in rows])
        for i, r in enumerate(rows):
            a = [ne[i] + .5, ev[i] + .5, ne[i + 1] + .5, ev[i + 1] + .5]
            if case["test"] == "chi2":
                s = ref.chi2_2xk([(a[0], a[1]), (a[2], a[3])])
                check_close(r[2], s, "statistic", 1e-5, 2e-6)
                check_close(r[3], ref.chi2_sf1(s), "p-value", 1e-5, 2e-6)
    pw.report(ob.information)
    rec.label("status=" + str(ob.status)[:20], "bins=%d" % min(nb, 5),
              "trend=" + str(case["opt"]["monotonic_trend"]),
              "degree=%d" % deg)
    rec.nontrivial(nb >= 2)


SUBS = [Sub("piecewise", lambda: pw.cases(False), run, 1200,
            rule="binary target")]
