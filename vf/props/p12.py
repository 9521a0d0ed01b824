"""P12: multiclass table and transform follow the data and definitions."""
import contextlib
import io
import math
import re

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import binopts
import gen
import ref
from core import Sub, check, check_close, check_vec, observing
from props import p01, p02, p03, p06

RULE = ("A case is one multiclass data set with its fitted binning, whose "
        "table, analysis and transform are recomputed from the raw records. "
        "Non-trivial: at least two bins.")
ASSUMPTIONS = ["every class occurs among the clean records (classes are "
               "learnt from them)",
               "records flagged by the requested outlier detector are "
               "excluded from the table"]


@st.composite
def cases(draw):
    case = draw(gen.xy_multiclass(n_hi=200))
    case["special"] = draw(gen.nan_code(case["special"]))
    o = draw(binopts.multi_opts(case))
    o = draw(p06.fixed_opts(o))
    if draw(st.integers(0, 3)) == 0:
        o["max_n_bins"] = draw(st.integers(1, 4))
    case["opt"] = o
    case["target"] = "multiclass"
    case["tr"] = draw(p03.transform_opts(case))
    case["digits"] = case["tr"]["digits"]
    case["query"] = draw(gen.query_spec())
    return case


def js_multi(cols):
    """Jensen-Shannon divergence of equally weighted distributions."""
    k = len(cols)
    v = 0.0
    for r in range(len(cols[0])):
        m = sum(c[r] for c in cols) / k
        v -= ref.xlogy(m, m)
        v += sum(ref.xlogy(c[r], c[r]) for c in cols) / k
    return v


def chi2_table(rows):
    k = len(rows[0])
    tot = sum(map(sum, rows))
    cs = [sum(r[j] for r in rows) for j in range(k)]
    s = 0.0
    for r in rows:
        m = sum(r)
        for j in range(k):
            e = m * cs[j] / tot
            s += (r[j] - e) ** 2 / e
    return s, tot


def recount(case, splits, out):
    cl = sorted(set(case["classes"]))
    n_bins, sg, n_rows = ref.row_layout(case, splits, None)
    ev = [[0] * len(cl) for _ in range(n_rows)]
    for i, (v, y) in enumerate(zip(case["x"], case["y"])):
        if i in out:
            continue
        ev[ref.row_of(v, case, splits, None, n_bins, sg)][cl.index(y)] += 1
    return cl, n_bins, sg, n_rows, ev


def check_table(case, ob, df, splits, out):
    cl, n_bins, sg, n_rows, ev = recount(case, splits, out)
    with observing("binning table"):
        check(list(df.columns) == ["Bin", "Count", "Count (%)"] +
              ["Event_%s" % c for c in cl] +
              ["Event_rate_%s" % c for c in cl], "columns {}",
              list(df.columns))
        check([int(c) for c in ob.classes] == cl, "classes {}", ob.classes)
        check(len(df) == n_rows + 1 and list(df.index)[-1] == "Totals",
              "table has {} rows, expected {}", len(df), n_rows + 1)
        lab = [str(b) for b in df["Bin"].values[:-1]]
        names = ref.num_labels(splits) + [
            s[0] for s in sg] + ["Missing"]
        check(lab == names, "labels {} expected {}", lab, names)
        tot = sum(map(sum, ev))
        cnt, share = ref.table_cols(df, ["Count", "Count (%)"])
        for r in range(n_rows):
            m = sum(ev[r])
            check_close(cnt[r], m, "row %d Count" % r)
            check_close(share[r], m / tot, "row %d Count (%%)" % r)
        check_close(cnt[-1], tot, "Totals Count")
        check_close(share[-1], 1.0, "Totals Count (%)")
        for j, c in enumerate(cl):
            e, q = ref.table_cols(df, ["Event_%s" % c, "Event_rate_%s" % c])
            for r in range(n_rows):
                check_close(e[r], ev[r][j], "row %d Event_%s" % (r, c))
                m = sum(ev[r])
                check_close(q[r], ev[r][j] / m if m else 0.0,
                            "row %d Event_rate_%s" % (r, c))
            t = sum(row[j] for row in ev)
            check_close(e[-1], t, "Totals Event_%s" % c)
            check_close(q[-1], t / tot, "Totals Event_rate_%s" % c)
    if n_bins >= 2:
        for r in range(n_bins):
            check(min(ev[r]) > 0, "bin {} lacks a class: {}", r, ev[r])
    return cl, n_bins, sg, n_rows, ev


def check_analysis(t, cl, n_bins, ev):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        t.analysis()
    with observing("analysis"):
        text = buf.getvalue()
        v = p02.report_values(text)
        tot = sum(map(sum, ev))
        tc = [sum(r[j] for r in ev) for j in range(len(cl))]
        js = js_multi([[r[j] / tc[j] for r in ev] for j in range(len(cl))])
        hs = [sum(r) / tot for r in ev]
        h, hn = ref.hhi(hs), ref.hhi(hs, True)
        b = ev[:n_bins]
        cv, tests = 0.0, []
        if n_bins >= 2:
            c2, n = chi2_table(b)
            cv = math.sqrt(c2 / n / min(n_bins - 1, len(cl) - 1))
        for i in range(n_bins - 1):
            c2, n = chi2_table(b[i:i + 2])
            tests.append((c2, float(stats.chi2.sf(c2, len(cl) - 1))))
        qs = ref.quality_score(js / math.log(len(cl)),
                               [p for _, p in tests], hn)
        check_close(t.js, js, "js", 1e-8)
        for nm, x in (("JS (Jensen-Shannon)", js), ("HHI", h),
                      ("HHI (normalized)", hn), ("Cramer's V", cv),
                      ("Quality score", qs)):
            check_close(float(v[nm]), x, "analysis " + nm, 1e-7, 2e-8)
        check_close(t.quality_score, qs, "quality_score", 1e-7)
        lines = [ln for ln in text.splitlines()
                 if re.match(r"\s*Class\s+\d+\s", ln)]
        check(len(lines) == len(cl), "{} trend lines", len(lines))
        for j, ln in enumerate(lines):
            lab = re.match(r"\s*Class\s+(\d+)\s+(\S.*)$", ln)
            check(int(lab.group(1)) == j, "trend line {!r}", ln)
            rates = [r[j] / sum(r) if sum(r) else 0.0 for r in b]
            check(p02.trend_ok(lab.group(2).strip(), rates),
                  "class {} trend {!r} for {}", cl[j], lab.group(2), rates)
        rows = []
        for ln in text.split("Significance tests")[1].splitlines():
            f = ln.split()
            if len(f) == 4 and re.fullmatch(r"\d+", f[0]):
                rows.append([float(z) for z in f])
        check(len(rows) == len(tests), "{} test rows for {} pairs",
              len(rows), len(tests))
        for i, (r, w) in enumerate(zip(rows, tests)):
            check(r[:2] == [i, i + 1], "test row {}", r)
            check_close(r[2], w[0], "test %d statistic" % i, 1e-5, 2e-6)
            check_close(r[3], w[1], "test %d p-value" % i, 1e-5, 2e-6)


def run(case, rec):
    p06.clean_records(case)
    ob = p06.fit(case)
    t = ob.binning_table
    df = t.build()
    with observing("splits"):
        splits = ref.finite_increasing(ob.splits)
    cl, n_bins, sg, n_rows, ev = check_table(case, ob, df, splits,
                                             p01.outlier_set(case))
    df2 = t.build(show_digits=case["digits"], add_totals=False)
    with observing("table with other options"):
        check(len(df2) == n_rows, "{} rows without totals", len(df2))
        check([str(b) for b in df2["Bin"].values[:n_bins]] ==
              ref.num_labels(splits, case["digits"]), "labels with digits {}",
              case["digits"])
        for c in df2.columns[1:]:
            check_vec(df2[c].values, df[c].values[:-1], "column " + c,
                      1e-12, 1e-15)
    check_analysis(t, cl, n_bins, ev)
    # transform
    tr = case["tr"]
    tc = [sum(r[j] for r in ev) for j in range(len(cl))]
    tot = sum(tc)
    woe = [[ref.woe(sum(r) - r[j], r[j], tot - tc[j], tc[j])
            for j in range(len(cl))] for r in ev]
    cols = dict(mean_woe=[sum(w) / len(cl) for w in woe],
                weighted_mean_woe=[sum(a * b for a, b in zip(w, tc)) / tot
                                   for w in woe])
    q = gen.expand_query(case["query"], case, splits)
    lab = [str(b) for b in df2["Bin"].values]
    for m in ("mean_woe", "weighted_mean_woe", "indices", "bins"):
        want = [p03.expected(v, m, case, cols.get(m), lab, splits, None,
                             n_bins, sg, None, tr) for v in q]
        got = ob.transform(p03.container(q, case, tr["container"]), metric=m,
                           metric_special=tr["special"],
                           metric_missing=tr["missing"],
                           show_digits=tr["digits"])
        with observing("transform"):
            p03.compare(list(got), want, m, q)
    x, y = gen.xarray(case["x"]), np.array(case["y"])
    kw = dict(metric="weighted_mean_woe", metric_special=tr["special"],
              metric_missing=tr["missing"])
    a = ob.transform(x, **kw)
    b = p06.estimator(case).fit_transform(x, y, **kw)
    with observing("fit_transform"):
        check_vec(b, a, "fit_transform")
    rec.label("bins=%d" % min(n_bins, 5), "classes=%d" % len(cl),
              "specials=%d" % len(sg))
    rec.nontrivial(n_bins >= 2)


SUBS = [Sub("table", cases, run, 4500, rule="arbitrary multiclass data")]
