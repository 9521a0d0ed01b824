"""P02: statistics of the binary binning table follow their definitions."""
import contextlib
import io
import math
import re

import numpy as np
from hypothesis import strategies as st
from scipy import special, stats

import binopts
import gen
import ref
from core import Skip, Sub, check, check_close, check_vec, observing
from props import p01

RULE = ("A case is one fitted table whose every figure, attribute and printed "
        "analysis value is recomputed from its counts. Non-trivial: at least "
        "two rows holding both classes.")
ASSUMPTIONS = ["table counts themselves are P01's subject",
               "rows empty or of one class report 0 (project convention)"]


@st.composite
def cases(draw, cat=False):
    case = draw(gen.xy_binary(cat=cat, n_hi=200))
    case["opt"] = draw(binopts.base_opts(case, trends=(None, None, "auto",
                                                       "peak", "ascending")))
    if draw(st.integers(0, 2)) == 0:
        n = len(case["x"])
        scale = draw(st.sampled_from((1, 7, 1000)))
        case["sw"] = [1 + (v % 5) * scale for v in gen.rbytes(draw, n)]
    case["digits"] = draw(st.integers(0, 8))
    case["test"] = draw(st.sampled_from(("chi2", "fisher")))
    if max(case.get("sw", [1])) > 100:
        case["test"] = "chi2"
    case["n_samples"] = draw(st.sampled_from((1, 2, 10, 100)))
    return case


def check_rows(df, ne, ev, n_rows):
    tne, tev = sum(ne), sum(ev)
    t = tne + tev
    share, rate, woe, iv, js = ref.table_cols(
        df, ["Count (%)", "Event rate", "WoE", "IV", "JS"])
    for r in range(n_rows):
        w = "row {} ".format(r)
        check_close(share[r], (ne[r] + ev[r]) / t, w + "Count (%)")
        check_close(rate[r], ref.event_rate(ne[r], ev[r]), w + "Event rate")
        check_close(woe[r], ref.woe(ne[r], ev[r], tne, tev), w + "WoE",
                    atol=1e-8)
        check_close(iv[r], ref.iv_term(ne[r], ev[r], tne, tev), w + "IV")
        check_close(js[r], ref.js_term(ne[r], ev[r], tne, tev), w + "JS")


def report_values(text):
    out = {}
    for line in text.splitlines():
        m = re.match(r"\s*([A-Za-z'()\-^0-9 ]+?)\s{2,}(\S.*)$", line)
        if m:
            out.setdefault(m.group(1).strip(), m.group(2).strip())
    return out


def test_rows(text):
    rows = []
    tail = text.split("Significance tests")[1]
    for line in tail.splitlines():
        f = line.split()
        if f and re.fullmatch(r"\d+", f[0]) and len(f) == 6:
            rows.append([float(v) for v in f])
    return rows


def p_greater(ea, na, eb, nb):
    """P(rate A > rate B) for Beta(e, n) posteriors, by quantile average."""
    v = (np.arange(2000) + 0.5) / 2000
    q = stats.beta(nb, eb).ppf(v)       # non-event rate of B
    return float(special.betainc(na, ea, q).mean())


def pair_test(ea, na, eb, nb, test):
    if test == "chi2":
        c = ref.chi2_2xk([(na, ea), (nb, eb)])
        return c, ref.chi2_sf1(c)
    den = nb * ea
    odd = math.inf if den == 0 else na * eb / den
    return odd, ref.fisher_two_sided(na, nb, ea, eb)


def trend_ok(label, x):
    d = [b - a for a, b in zip(x, x[1:])]
    asc, desc = all(v >= 0 for v in d), all(v <= 0 for v in d)

    def unimodal(y):
        return any(all(b >= a for a, b in zip(y[:k], y[1:k + 1])) and
                   all(b <= a for a, b in zip(y[k:], y[k + 1:]))
                   for k in range(len(y)))
    peak = unimodal(x)
    valley = unimodal([-v for v in x])
    if len(x) == 1:
        return label == "undefined"
    if label == "ascending":
        return asc
    if label == "descending":
        return desc
    if label.startswith("peak"):
        return peak
    if label.startswith("valley"):
        return valley
    if label == "no monotonic":
        return not (asc or desc or peak or valley)
    return False


def run(case, rec):
    p01.prepare(case)
    ob = p01.fit(case)
    t = ob.binning_table
    df = t.build()
    n_rows = len(df) - 1
    with observing("binning table"):
        cnt, ne, ev = [[float(v) for v in c] for c in ref.table_cols(
            df, ["Count", "Non-event", "Event"])]
        ne, ev, tot = ne[:-1], ev[:-1], (cnt[-1], ne[-1], ev[-1])
        tne, tev = sum(ne), sum(ev)
        check_rows(df, ne, ev, n_rows)
        last = df.iloc[-1]
        check_vec([last["Count"], last["Non-event"], last["Event"]],
                  [tne + tev, tne, tev], "Totals counts")
        check_close(last["Count (%)"], 1, "Totals share")
        check_close(last["Event rate"], tev / (tne + tev), "Totals rate")
        iv = sum(ref.iv_term(a, b, tne, tev) for a, b in zip(ne, ev))
        js = sum(ref.js_term(a, b, tne, tev) for a, b in zip(ne, ev))
        hl = sum(ref.hellinger_term(a, b, tne, tev) for a, b in zip(ne, ev))
        tr = sum(ref.triangular_term(a, b, tne, tev) for a, b in zip(ne, ev))
        g = ref.gini_pairs(ev, ne)
        ks = ref.ks(ev, ne)
        check_close(last["IV"], iv, "Totals IV")
        check_close(last["JS"], js, "Totals JS")
        for nm, v in (("iv", iv), ("js", js), ("hellinger", hl),
                      ("triangular", tr), ("gini", g), ("ks", ks)):
            check_close(getattr(t, nm), v, "attribute " + nm)
        # presentation options change nothing else
        df2 = t.build(show_digits=case["digits"], add_totals=False)
        check(len(df2) == n_rows, "add_totals=False gives {} rows of {}",
              len(df2), n_rows)
        for c in ("Count", "Count (%)", "Non-event", "Event", "Event rate",
                  "WoE", "IV", "JS"):
            check_vec(df2[c].values, df[c].values[:-1],
                      "column {} with other options".format(c), rtol=1e-12,
                      atol=1e-15)
        if not case["cat"]:
            sp = [float(s) for s in ob.splits]
            check([str(b) for b in df2["Bin"].values[:len(sp) + 1]] ==
                  ref.num_labels(sp, case["digits"]), "labels with {} digits",
                  case["digits"])
    # analysis
    sg = len(gen.special_groups(case["special"]))
    n_bins = n_rows - sg - 1
    n_metric = n_bins
    if case["cat"]:
        others = rare_group(case, ob)
        n_metric -= 1 if others else 0
    bad = any(ne[i] + ev[i] == 0 or (ne[i] + ne[i + 1] == 0) or
              (ev[i] + ev[i + 1] == 0) for i in range(n_metric - 1))
    if bad:
        raise Skip("neighbouring bins without one class")
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        t.analysis(pvalue_test=case["test"], n_samples=case["n_samples"])
    with observing("analysis report"):
        text = buf.getvalue()
        v = report_values(text)
        hs = [(a + b) / (tne + tev) for a, b in zip(ne, ev)]
        h, hn = ref.hhi(hs), ref.hhi(hs, True)
        pv = []
        want = []
        for i in range(n_metric - 1):
            s, p = pair_test(ev[i], ne[i], ev[i + 1], ne[i + 1],
                             case["test"])
            pv.append(p)
            want.append((s, p, p_greater(ev[i], ne[i], ev[i + 1],
                                         ne[i + 1])))
        qs = ref.quality_score(iv, pv, hn)
        c2 = None
        if n_metric >= 2:
            c2 = ref.chi2_2xk(list(zip(ne[:n_metric], ev[:n_metric])))
            cv = math.sqrt(c2 / (sum(ne[:n_metric]) + sum(ev[:n_metric])))
        else:
            cv = 0.0
        for nm, x in (("Gini index", g), ("IV (Jeffrey)", iv),
                      ("JS (Jensen-Shannon)", js), ("Hellinger", hl),
                      ("Triangular", tr), ("KS", ks), ("HHI", h),
                      ("HHI (normalized)", hn), ("Cramer's V", cv),
                      ("Quality score", qs)):
            check_close(float(v[nm]), x, "analysis " + nm, rtol=1e-7,
                        atol=2e-8)
        check_close(t.quality_score, qs, "quality_score", rtol=1e-7)
        if not case["cat"]:
            rates = [ref.event_rate(ne[i], ev[i]) for i in range(n_bins)]
            check(trend_ok(v["Monotonic trend"], rates),
                  "trend label {!r} for event rates {}",
                  v["Monotonic trend"], rates)
        rows = test_rows(text)
        check(len(rows) == len(want), "{} test rows, expected {}",
              len(rows), len(want))
        for i, (row, (s, p, pab)) in enumerate(zip(rows, want)):
            check((row[0], row[1]) == (i, i + 1), "test row {} compares {}",
                  i, row[:2])
            check_close(row[2], s, "test {} statistic".format(i), 1e-5, 2e-6)
            check_close(row[3], p, "test {} p-value".format(i), 1e-5, 2e-6)
            tol = 0.5 / case["n_samples"] + 3e-4
            check(abs(row[4] - pab) <= tol, "P[A>B] {} is {}, expected {}",
                  i, row[4], pab)
            check_close(row[4] + row[5], 1.0, "P[A>B]+P[B>A]", 1e-5, 1e-5)
    rec.label("bins=%d" % min(n_bins, 6), "test=" + case["test"])
    if any(a == 0 and b == 0 for a, b in zip(ne, ev)):
        rec.label("empty row")
    if any((a == 0) != (b == 0) for a, b in zip(ne, ev)):
        rec.label("single-class row")
    rec.nontrivial(sum(1 for a, b in zip(ne, ev) if a and b) >= 2)


def rare_group(case, ob):
    """True when the table has a row for rare categories."""
    sv = gen.special_values(case["special"])
    xs = [v for v in case["x"] if v is not None and v not in sv]
    o = case["opt"]
    if "user_splits" in o:
        given = {c for g in o["user_splits"] for c in g}
        return any(v not in given for v in xs)
    if "cat_cutoff" in o:
        need = math.ceil(o["cat_cutoff"] * len(xs))
        return any(xs.count(c) < need for c in set(xs))
    return False


SUBS = [
    Sub("num", lambda: cases(False), run, 5000, rule="numerical features"),
    Sub("cat", lambda: cases(True), run, 3000, rule="categorical features"),
]
