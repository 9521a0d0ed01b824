"""P18: piecewise continuous binning."""
import math
from statistics import median

import numpy as np
from scipy import stats

import gen
import pw
import ref
from core import Skip, Sub, check, check_close, check_vec, observing
from props import p02, p09

RULE = ("A case is a numerical feature with special/missing values, a "
        "continuous target, options and a query. The table is recounted "
        "from the records, the coefficients are compared with the "
        "documented two-step procedure (splits of the plain continuous "
        "binning, robust regression of the target), the function with the "
        "requested shape and the transform with the table. Non-trivial: two "
        "or more bins.")
ASSUMPTIONS = ["ropwr is trusted; problems it rejects are skipped",
               "shape (trend, continuity, bounds at training values) is "
               "judged for degree <= 1 within 0.2 % of the target's range",
               "minimum and maximum of the Totals row are not judged (they "
               "leave out special and missing values)"]


def metrics(y, p):
    n, e = len(y), [a - b for a, b in zip(y, p)]
    mu = math.fsum(y) / n
    var = math.fsum((v - mu) ** 2 for v in y) / n
    me = math.fsum(e) / n
    mse = math.fsum(v * v for v in e) / n
    m = {"Mean absolute error": math.fsum(map(abs, e)) / n,
         "Mean squared error": mse,
         "Median absolute error": median(map(abs, e))}
    if var > 1e-9:
        m["R^2"] = 1 - mse / var
        m["Explained variance"] = 1 - math.fsum(
            (v - me) ** 2 for v in e) / n / var
    if all(abs(v) > 1e-3 for v in y):
        m["MPE"] = math.fsum(a / b for a, b in zip(e, y)) / n
        r = [abs(a / b) for a, b in zip(e, y)]
        m["MAPE"] = math.fsum(r) / n
        m["MdAPE"] = median(r)
        r = [abs(a) / (abs(b) + abs(c)) for a, b, c in zip(e, y, p)]
        m["SMAPE"] = math.fsum(r) / n
        m["SMdAPE"] = median(r)
    return m


def clipped(v, lb, ub):
    if lb is not None:
        v = max(v, lb)
    if ub is not None:
        v = min(v, ub)
    return v


def run(case, rec):
    from optbinning import ContinuousOptimalPWBinning
    idx, out = pw.clean(case)
    xc = np.array([case["x"][i] for i in idx], dtype=float)
    yc = np.array([case["y"][i] for i in idx])
    ob = ContinuousOptimalPWBinning(name="v", special_codes=pw.special(case),
                                    **pw.options(case))
    X, Y = gen.xarray(case["x"]), np.array(case["y"])
    pw.fit(case, ob, X, Y, xc, yc, None)
    lb, ub = case["lb"], case["ub"]
    with observing("splits"):
        splits = np.array(ref.finite_increasing(ob.splits), dtype=float)
    rcoef = pw.reference(case, xc, yc, None, splits)
    sg = pw.groups(case)
    nb, n_rows = len(splits) + 1, len(splits) + 2 + len(sg)
    rows = [[] for _ in range(n_rows)]
    for i, (v, z) in enumerate(zip(case["x"], case["y"])):
        if i not in out:
            rows[pw.row_of(v, splits, sg)].append(z)
    cnt = [len(r) for r in rows]
    mean = [math.fsum(r) / len(r) if r else 0.0 for r in rows]
    scale = max(1.0, max(abs(v) for r in rows for v in r))
    t = ob.binning_table
    df = t.build(show_digits=case["digits"])
    deg = case["opt"]["degree"]
    at = 1e-9 * scale
    with observing("binning table"):
        check(len(df) == n_rows + 1, "{} rows, expected {}", len(df),
              n_rows + 1)
        pw.labels(df, splits, case["digits"], sg)
        check_vec([float(v) for v in df["Count"].values], cnt + [sum(cnt)],
                  "Count", 0, 0)
        check_vec([float(v) for v in df["Count (%)"].values],
                  [c / sum(cnt) for c in cnt] + [1], "Count (%)")
        s = [math.fsum(r) for r in rows]
        check_vec([float(v) for v in df["Sum"].values],
                  s + [math.fsum(s)], "Sum", 1e-9, at * (len(X) + 1))
        z = [sum(1 for v in r if v == 0) for r in rows]
        check_vec([float(v) for v in df["Zeros count"].values],
                  z + [sum(z)], "Zeros count", 0, 0)
        for r in range(n_rows):
            if rows[r]:
                what = " of row {}".format(r)
                check_close(df["Min"].values[r], min(rows[r]), "Min" + what)
                check_close(df["Max"].values[r], max(rows[r]), "Max" + what)
                check_close(df["Std"].values[r], math.sqrt(math.fsum(
                    (v - mean[r]) ** 2 for v in rows[r]) / cnt[r]),
                    "Std" + what, 1e-7, p09.std_tol(rows[r]) + at)
            else:
                for nm in ("Min", "Max", "Std"):
                    v = df[nm].values[r]
                    check(v is None or float(v) != float(v) or
                          float(v) == 0, "{} of empty row {}: {}", nm, r, v)
        c = pw.coefficients(df, nb, deg)
        for r in range(nb, n_rows):
            check_close(df["c0"].values[r], mean[r], "c0 of row %d" % r,
                        1e-9, at)
            for k in range(1, deg + 1):
                check_close(df["c%d" % k].values[r], 0, "c%d of row %d" %
                            (k, r))
        if rcoef is not None:
            pw.check_coef(case, c, rcoef, xc, yc, splits)
        if pw.semantics(case, c, splits, xc, max(
                1.0, float(yc.max() - yc.min()))):
            rec.label("shape judged")
        check(len(t.build(add_totals=False)) == n_rows,
              "add_totals=False does not leave out the totals")
    q, Q = pw.queries(case, splits)
    tr = case["tr"]

    def judge(got, special, missing, q):
        check(len(got) == len(q), "{} outputs for {} values", len(got),
              len(q))
        for v, g in zip(q, got):
            r = pw.row_of(v, splits, sg)
            tol = at
            if r < nb:
                w, m = pw.value(c[r], v)
                w, tol = clipped(w, lb, ub), 1e-9 * max(1.0, m)
            else:
                w = special if r < n_rows - 1 else missing
                if w == "empirical":
                    w = mean[r]
            check_close(g, w, "prediction of {!r}".format(v), 1e-9,
                        max(tol, at))

    got = ob.transform(Q, metric_special=tr["special"],
                       metric_missing=tr["missing"], lb=lb, ub=ub)
    got2 = ob.transform(X, "empirical", "empirical", lb, ub)
    with observing("transform"):
        judge(got, tr["special"], tr["missing"], q)
        judge(got2, "empirical", "empirical", case["x"])
    if "n_subsamples" not in case["opt"]:
        ob2 = ContinuousOptimalPWBinning(
            name="v", special_codes=pw.special(case), **pw.options(case))
        got3 = ob2.fit_transform(X, Y, "empirical", "empirical", lb, ub)
        with observing("fit_transform"):
            check_vec(got3.tolist(), ob2.transform(
                X, "empirical", "empirical", lb, ub).tolist(),
                "fit_transform against transform")
            if np.asarray(ob2.splits).tolist() == splits.tolist():
                pw.check_coef(case, pw.coefficients(
                    ob2.binning_table.build(), nb, deg), rcoef, xc, yc,
                    splits)
    if any(cnt[i] == 0 for i in range(nb)):
        raise Skip("empty bin")
    text = pw.report(t.analysis)
    with observing("analysis"):
        v = p02.report_values(text)
        pr = [clipped(pw.value(c[i], a)[0], lb, ub)
              for a, i in zip(xc, np.digitize(xc, splits))]
        big = max(scale, max(map(abs, pr)))
        sh = [k / sum(cnt) for k in cnt]
        check_close(float(v["HHI"]), ref.hhi(sh), "HHI", 1e-6, 1e-7)
        check_close(float(v["HHI (normalized)"]), ref.hhi(sh, True),
                    "HHI (normalized)", 1e-6, 1e-7)
        for nm, w in metrics(yc.tolist(), pr).items():
            check_close(float(v[nm]), w, nm, 1e-6,
                        2e-8 + 1e-9 * big * (big if "squared" in nm else 1)
                        if "absolute" in nm.lower() and "perc" not in
                        nm.lower() or "squared" in nm else
                        1e-6 * max(1.0, big))
        rows_t = p09.p02_rows(text)
        check([(int(r[0]), int(r[1])) for r in rows_t] ==
              [(i, i + 1) for i in range(nb - 1)], "tests compare {}",
              [(r[0], r[1]) for r in rows_t])
        for i, r in enumerate(rows_t):
            a, b = rows[i], rows[i + 1]
            sd = [math.sqrt(math.fsum((v - mean[k]) ** 2 for v in rows[k]) /
                            cnt[k]) for k in (i, i + 1)]
            if max(sd) <= 1e-6 * scale or min(len(a), len(b)) < 2:
                continue
            with np.errstate(all="ignore"):
                w = stats.ttest_ind_from_stats(
                    mean[i], sd[0], len(a), mean[i + 1], sd[1], len(b),
                    False)
            check_close(r[2], w.statistic, "statistic", 1e-5, 2e-6)
            check_close(r[3], w.pvalue, "p-value", 1e-5, 2e-6)
    pw.report(ob.information)
    rec.label("status=" + str(ob.status)[:20], "bins=%d" % min(nb, 5),
              "trend=" + str(case["opt"]["monotonic_trend"]),
              "degree=%d" % deg)
    rec.nontrivial(nb >= 2)


SUBS = [Sub("piecewise", lambda: pw.cases(True), run, 1200,
            rule="continuous target")]
