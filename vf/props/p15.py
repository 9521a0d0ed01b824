"""P15: 2D binning partitions the plane; table and transform follow it."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import gen
import ref
from core import Sub, check, check_close, check_vec, observing
from props import p02, p09

RULE = ("A case is two features (numerical or categorical, with special and "
        "missing values), a target, options and a query. Every training and "
        "query point is located in the reported rectangles, the table and "
        "the analysis are recounted, and each transform metric is compared "
        "with the point's own row. Non-trivial: at least two rectangles.")
ASSUMPTIONS = ["values to transform are finite",
               "order of a row: rectangles, Special, Missing; a record with a "
               "missing value in either variable is Missing, otherwise with a "
               "special code in either is Special"]


@st.composite
def axis(draw, n, kmax=8):
    cat = draw(st.integers(0, 3)) == 0
    if cat:
        kind, lv = draw(gen.cat_levels(1, kmax))
    else:
        kind, lv = draw(gen.levels(1, kmax, ("int", "signed", "dec", "gaps",
                                             "tiny", "huge")))
    idx = draw(gen.column_index(n, len(lv)))
    prof = draw(gen.level_profile(len(lv)))[1]
    spec = draw(gen.special_spec(cat=cat, forms=("none", "none", "list")))
    return cat, lv, idx, prof, spec


@st.composite
def xyz(draw, continuous=False, n_lo=20, n_hi=160):
    n = draw(gen.sizes(n_lo, n_hi))
    ax = [draw(axis(n)) for _ in range(2)]
    mode = draw(st.sampled_from(("mean", "mean", "min", "xor", "x", "y")))
    zb = gen.rbytes(draw, n)
    noise = draw(st.sampled_from((0, 8, 64)))
    yk = draw(st.sampled_from(("int", "mixed", "big", "small", "real")))
    z = []
    for i in range(n):
        a, b = ax[0][3][ax[0][2][i]], ax[1][3][ax[1][2][i]]
        p = {"mean": (a + b) // 2, "min": min(a, b), "x": a, "y": b,
             "xor": a if b < 128 else 255 - a}[mode]
        if continuous:
            v = p + (zb[i] - 128) * noise / 128.0
            v = {"int": lambda u: float(round(u / 8)),
                 "mixed": lambda u: float(round(u - 128, 3)),
                 "big": lambda u: u * 1e5 - 3e6,
                 "small": lambda u: u * 1e-4,
                 "real": lambda u: u / 7.0}[yk](v)
            z.append(v)
        else:
            z.append(1 if zb[i] < p else 0)
    if not continuous:
        z[0], z[-1] = 0, 1
    cols = []
    for cat, lv, idx, prof, spec in ax:
        x = [lv[i] for i in idx]
        x[0] = lv[0]
        cols.append(x)
    for j in (0, 1):
        c = draw(gen.contaminate(cols[j], ax[j][4]))
        c[0] = ax[j][1][0]          # one clean record at least
        c[-1] = ax[j][1][-1]
        cols[j] = c
    return dict(x=cols[0], y=cols[1], z=z, cat=[ax[0][0], ax[1][0]],
                special=[ax[0][4], ax[1][4]], continuous=continuous)


@st.composite
def constraints(draw, continuous, n):
    o = dict(solver=draw(st.sampled_from(("cp", "mip"))))
    names = draw(st.lists(st.sampled_from((
        "n_bins", "max_n_bins", "min_n_bins", "min_bin_size", "max_bin_size",
        "tx", "tx", "ty", "ty", "event", "gamma")), max_size=3, unique=True))
    if "n_bins" in names:
        a = draw(st.integers(1, 4))
        o["min_n_bins"], o["max_n_bins"] = a, a + draw(st.integers(0, 3))
    elif "max_n_bins" in names:
        o["max_n_bins"] = draw(st.integers(1, 6))
    elif "min_n_bins" in names:
        o["min_n_bins"] = draw(st.integers(1, 5))
    if "min_bin_size" in names:
        o["min_bin_size"] = draw(st.sampled_from((0.02, 0.1, 0.2, 0.33)))
    if "max_bin_size" in names:
        o["max_bin_size"] = draw(st.sampled_from((0.34, 0.5, 0.75, 1.0)))
    for a in ("x", "y"):
        if "t" + a in names:
            o["monotonic_trend_" + a] = draw(st.sampled_from(("ascending",
                                                              "descending")))
            if draw(st.integers(0, 2)) == 0:
                if continuous:
                    o["min_mean_diff_" + a] = draw(st.sampled_from((1.0,
                                                                    5.0)))
                else:
                    o["min_event_rate_diff_" + a] = draw(
                        st.sampled_from((0.02, 0.1, 0.25)))
    if "event" in names and not continuous:
        for nm in ("event", "nonevent"):
            if draw(st.booleans()):
                o["min_bin_n_" + nm] = draw(st.integers(1, max(1, n // 8)))
            if draw(st.integers(0, 2)) == 0:
                o["max_bin_n_" + nm] = max(o.get("min_bin_n_" + nm, 1),
                                           draw(st.integers(3, n)))
    if "gamma" in names:
        o["gamma"] = draw(st.sampled_from((0.1, 1.0, 10.0)))
    return o


@st.composite
def options(draw, case):
    cont = case["continuous"]
    o = dict(prebinning_method=draw(st.sampled_from(
        ("cart", "cart", "quantile", "uniform") +
        (() if cont else ("mdlp",)))),
        strategy=draw(st.sampled_from(("grid", "grid", "grid", "cart"))),
        max_n_prebins_x=draw(st.integers(2, 5)),
        max_n_prebins_y=draw(st.integers(2, 5)),
        min_prebin_size_x=draw(st.sampled_from((0.02, 0.05, 0.1, 0.25))),
        min_prebin_size_y=draw(st.sampled_from((0.02, 0.05, 0.1, 0.25))))
    if not cont:
        o["divergence"] = draw(st.sampled_from(("iv", "iv", "js",
                                                "hellinger", "triangular")))
    if draw(st.integers(0, 4)) == 0:
        o["split_digits"] = draw(st.integers(0, 4))
    o.update(draw(constraints(cont, len(case["x"]))))
    return o


@st.composite
def cases(draw, continuous):
    case = draw(xyz(continuous))
    case["opt"] = draw(options(case))
    m = draw(st.integers(3, 20))
    case["query"] = [list(t) for t in zip(*[gen.rbytes(draw, m)
                                            for _ in range(4)])]
    case["sp"] = draw(st.sampled_from(("empirical", "empirical", 0, 2.5, -3)))
    case["mi"] = draw(st.sampled_from(("empirical", "empirical", 0, 1.25,
                                       -2)))
    case["digits"] = draw(st.integers(0, 6))
    case["array"] = draw(st.booleans())
    return case


def special(spec, array):
    if spec is None:
        return None
    return np.array(spec) if array else list(spec)


def estimator(case):
    from optbinning import ContinuousOptimalBinning2D, OptimalBinning2D
    cls = ContinuousOptimalBinning2D if case["continuous"] else \
        OptimalBinning2D
    dt = ["categorical" if c else "numerical" for c in case["cat"]]
    arr = case.get("array", False)
    return cls(name_x="u", name_y="v", dtype_x=dt[0], dtype_y=dt[1],
               special_codes_x=special(case["special"][0], arr),
               special_codes_y=special(case["special"][1], arr),
               **case["opt"])


def arrays(case):
    return (gen.xarray(case["x"], case["cat"][0]),
            gen.xarray(case["y"], case["cat"][1]), np.array(case["z"]))


class Layout:
    """Rectangles as reported by `splits`."""

    def __init__(self, case, ob):
        self.case = case
        sx, sy = ob.splits
        check(len(sx) == len(sy) >= 1, "{} x and {} y ranges", len(sx),
              len(sy))
        self.n_bins = len(sx)
        self.side = []
        for s, cat in zip((sx, sy), case["cat"]):
            if cat:
                self.side.append([set(v) for v in s])
            else:
                self.side.append([(float(a), float(b)) for a, b in s])

    def inside(self, axis, i, v):
        s = self.side[axis][i]
        if self.case["cat"][axis]:
            return v in s
        return s[0] <= v < s[1]

    def row(self, u, v):
        """Row of a point; None for an unseen category."""
        if ref.is_missing(u) or ref.is_missing(v):
            return self.n_bins + 1
        if (u in (self.case["special"][0] or []) or
                v in (self.case["special"][1] or [])):
            return self.n_bins
        hit = [i for i in range(self.n_bins)
               if self.inside(0, i, u) and self.inside(1, i, v)]
        check(len(hit) <= 1, "point ({!r}, {!r}) is in rectangles {}", u, v,
              hit)
        if not hit:
            check(any(c and not any(w in s for s in side) for c, w, side in
                      zip(self.case["cat"], (u, v), self.side)),
                  "point ({!r}, {!r}) is in no rectangle of {}", u, v,
                  self.side)
            return None
        return hit[0]


def query(case, lay):
    """Points around the borders, plus special/missing/unseen values."""
    out = []
    clean = []
    for j, c in enumerate((case["x"], case["y"])):
        clean.append([v for v in c if v is not None and
                      v not in (case["special"][j] or [])])
    for a, b, c, d in case["query"]:
        p = []
        for j, (k, v) in enumerate(((a, b), (c, d))):
            k %= 8
            spec = case["special"][j]
            if k == 0:
                p.append(None)
            elif k == 1 and spec:
                p.append(spec[v % len(spec)])
            elif case["cat"][j]:
                p.append("unseen" if k == 2 else clean[j][v % len(clean[j])])
            elif k in (2, 3, 4):
                s = lay.side[j][v % lay.n_bins]
                e = [w for w in s if not math.isinf(w)]
                if e:
                    e = e[(v // 16) % len(e)]
                    p.append(e if v < 128 else math.nextafter(e, -math.inf))
                else:
                    p.append(float(v))
            elif k == 5:
                p.append((v - 128) * 1e6)
            else:
                p.append(clean[j][v % len(clean[j])])
        out.append(tuple(p))
    return out


def grid(t, lay, rates, rec, mask=None):
    """P holds full rectangles in table order, D their rate."""
    P = np.asarray(t.P)
    D = np.asarray(t.D)
    check(P.shape == (t.m, t.n), "grid {} for {}x{}", P.shape, t.m, t.n)
    check(sorted(set(P.ravel().tolist())) == list(range(lay.n_bins)),
          "grid labels {}", sorted(set(P.ravel().tolist())))
    for i in range(lay.n_bins):
        r, c = np.where(P == i)
        check((r.max() - r.min() + 1) * (c.max() - c.min() + 1) == len(r),
              "bin {} is no rectangle of the grid", i)
        check_close(float(D[r[0], c[0]]), rates[i], "D of bin %d" % i, 1e-9,
                    1e-9 * max(1e-3, max(map(abs, rates))))
    pairs = set()
    for i in range(t.m):
        for j in range(t.n):
            if j + 1 < t.n and P[i, j] != P[i, j + 1]:
                pairs.add((int(P[i, j]), int(P[i, j + 1])))
            if i + 1 < t.m and P[i, j] != P[i + 1, j]:
                pairs.add((int(P[i, j]), int(P[i + 1, j])))
    return sorted(pairs)


def labels(case, lay, df, digits):
    for j, c in enumerate(("Bin x", "Bin y")):
        col = list(df[c].values)
        for i in range(lay.n_bins):
            if case["cat"][j]:
                check(set(map(str, col[i])) == set(map(str,
                                                       lay.side[j][i])),
                      "{} label {} for {}", c, col[i], lay.side[j][i])
            else:
                a, b = lay.side[j][i]
                w = "{0}{1:.{3}f}, {2:.{3}f})".format(
                    "(" if math.isinf(a) else "[", a, b, digits)
                check(str(col[i]) == w, "{} label {} for {}", c, col[i], w)
        check([str(v) for v in col[lay.n_bins:lay.n_bins + 2]] ==
              ["Special", "Missing"], "{} labels {}", c, col[lay.n_bins:])


def run_binary(case, rec):
    ob = estimator(case)
    X, Y, Z = arrays(case)
    ob.fit(X, Y, Z)
    t = ob.binning_table
    with observing("splits"):
        lay = Layout(case, ob)
        nb = lay.n_bins
        ne, ev = [0] * (nb + 2), [0] * (nb + 2)
        for u, v, z in zip(case["x"], case["y"], case["z"]):
            r = lay.row(u, v)
            check(r is not None, "training point ({!r}, {!r}) is in no "
                  "rectangle", u, v)
            (ev if z else ne)[r] += 1
    tne, tev = sum(ne), sum(ev)
    df = t.build(show_digits=case["digits"])
    with observing("binning table"):
        check(len(df) == nb + 3, "table has {} rows for {} rectangles",
              len(df), nb)
        labels(case, lay, df, case["digits"])
        a, b, c = ref.table_cols(df, ["Non-event", "Event", "Count"])
        check_vec(a, ne + [tne], "Non-event", 0, 0)
        check_vec(b, ev + [tev], "Event", 0, 0)
        check_vec(c, [p + q for p, q in zip(ne, ev)] + [tne + tev], "Count",
                  0, 0)
        p02.check_rows(df, ne, ev, nb + 2)
        iv = sum(ref.iv_term(p, q, tne, tev) for p, q in zip(ne, ev))
        js = sum(ref.js_term(p, q, tne, tev) for p, q in zip(ne, ev))
        hl = sum(ref.hellinger_term(p, q, tne, tev) for p, q in zip(ne, ev))
        tr = sum(ref.triangular_term(p, q, tne, tev) for p, q in zip(ne, ev))
        last = df.iloc[-1]
        check_close(last["Count (%)"], 1, "Totals share")
        check_close(last["Event rate"], tev / (tne + tev), "Totals rate")
        check_close(last["IV"], iv, "Totals IV", 1e-8)
        check_close(last["JS"], js, "Totals JS", 1e-8)
        g, ks = ref.gini_pairs(ev, ne), ref.ks(ev, ne)
        for nm, v in (("iv", iv), ("js", js), ("hellinger", hl),
                      ("triangular", tr), ("gini", g), ("ks", ks)):
            check_close(getattr(t, nm), v, "attribute " + nm, 1e-8, 1e-9)
        pairs = grid(t, lay, [q / (p + q) if p + q else 0.0 for p, q in
                              zip(ne[:nb], ev[:nb])], rec)
        xy = t.build(show_digits=case["digits"], show_bin_xy=True,
                     add_totals=False)
        check(len(xy) == nb + 2, "show_bin_xy gives {} rows", len(xy))
        for c in ("Count", "Event", "WoE", "IV"):
            check_vec(xy[c].values, list(df[c].values)[:-1],
                      c + " with show_bin_xy", 1e-12, 1e-15)
        lab = [str(v) for v in xy["Bin"].values]
        woe, rate = ref.table_cols(df, ["WoE", "Event rate"])
    cols = {"woe": woe, "event_rate": rate}
    transform(case, ob, lay, cols, lab)
    if all(p and q for p, q in zip(ne[:nb], ev[:nb])):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            t.analysis(n_samples=200)
        with observing("analysis"):
            v = p02.report_values(buf.getvalue())
            rows = p02.test_rows(buf.getvalue())
            sh = [(p + q) / (tne + tev) for p, q in zip(ne, ev)]
            pv = []
            check([(r[0], r[1]) for r in rows] == pairs,
                  "tests compare {}, adjacent are {}",
                  [(r[0], r[1]) for r in rows], pairs)
            for (i, j), r in zip(pairs, rows):
                s, p = p02.pair_test(ev[i], ne[i], ev[j], ne[j], "chi2")
                pv.append(p)
                check_close(r[2], s, "statistic of {}-{}".format(i, j), 1e-5,
                            2e-6)
                check_close(r[3], p, "p-value of {}-{}".format(i, j), 1e-5,
                            2e-6)
                want = p02.p_greater(ev[i], ne[i], ev[j], ne[j])
                check(abs(r[4] - want) <= 0.0025 + 3e-4,
                      "P[A>B] of {}-{} is {}, expected {}", i, j, r[4], want)
            hn = ref.hhi(sh, True)
            qs = ref.quality_score(iv, pv, hn)
            cv = 0.0
            if nb >= 2:
                cv = math.sqrt(ref.chi2_2xk(list(zip(ne[:nb], ev[:nb]))) /
                               (sum(ne[:nb]) + sum(ev[:nb])))
            for nm, w in (("Gini index", g), ("IV (Jeffrey)", iv),
                          ("JS (Jensen-Shannon)", js), ("Hellinger", hl),
                          ("Triangular", tr), ("KS", ks),
                          ("HHI", ref.hhi(sh)), ("HHI (normalized)", hn),
                          ("Cramer's V", cv), ("Quality score", qs)):
                check_close(float(v[nm]), w, "analysis " + nm, 1e-7, 2e-8)
    common_labels(case, ob, lay, rec, [p + q for p, q in zip(ne, ev)])


def common_labels(case, ob, lay, rec, cnt):
    rec.label("status=" + str(ob.status), "bins=%d" % min(lay.n_bins, 6),
              "strategy=" + case["opt"]["strategy"])
    if any(case["cat"]):
        rec.label("categorical")
    if cnt[-2]:
        rec.label("special records")
    if cnt[-1]:
        rec.label("missing records")
    rec.nontrivial(lay.n_bins >= 2)


def transform(case, ob, lay, cols, lab):
    q = query(case, lay)
    rows = [lay.row(u, v) for u, v in q]
    nb = lay.n_bins
    qx = gen.xarray([p[0] for p in q], case["cat"][0])
    qy = gen.xarray([p[1] for p in q], case["cat"][1])
    for metric in list(cols) + ["indices", "bins"]:
        got = ob.transform(qx, qy, metric=metric, metric_special=case["sp"],
                           metric_missing=case["mi"],
                           show_digits=case["digits"])
        with observing("transform"):
            check(len(got) == len(q), "{} outputs for {} points", len(got),
                  len(q))
            for p, r, v in zip(q, rows, got):
                what = "{} of {!r}".format(metric, p)
                if metric == "bins":
                    w = "" if r is None else lab[r]
                    check(str(v) == w, "{}: {!r}, expected {!r}", what, v, w)
                    continue
                k = case["sp"] if r == nb else case["mi"] if r == nb + 1 \
                    else "empirical"
                if r is None:
                    w = -1 if metric == "indices" else 0.0
                elif metric == "indices":
                    w = k if isinstance(k, int) else r
                else:
                    w = cols[metric][r] if k == "empirical" else k
                check_close(v, w, what, 1e-9, 1e-9)


def run_continuous(case, rec):
    ob = estimator(case)
    X, Y, Z = arrays(case)
    ob.fit(X, Y, Z)
    t = ob.binning_table
    with observing("splits"):
        lay = Layout(case, ob)
        nb = lay.n_bins
        rows = [[] for _ in range(nb + 2)]
        for u, v, z in zip(case["x"], case["y"], case["z"]):
            r = lay.row(u, v)
            check(r is not None, "training point ({!r}, {!r}) is in no "
                  "rectangle", u, v)
            rows[r].append(z)
    allz = [v for r in rows for v in r]
    n, scale = len(allz), max(max(map(abs, allz)), 1e-3)
    at = 1e-9 * scale
    mu = sum(allz) / n
    means = [sum(r) / len(r) if r else 0.0 for r in rows]
    df = t.build(show_digits=case["digits"])
    with observing("binning table"):
        check(len(df) == nb + 3, "table has {} rows for {} rectangles",
              len(df), nb)
        labels(case, lay, df, case["digits"])
        ivs = []
        for i, r in enumerate(rows):
            w = "row %d " % i
            d = df.iloc[i]
            check(float(d["Count"]) == len(r), w + "Count {} of {}",
                  d["Count"], len(r))
            check_close(d["Count (%)"], len(r) / n, w + "share")
            check_close(d["Sum"], sum(r), w + "Sum", 1e-9, at * n)
            check_close(d["Mean"], means[i], w + "Mean", 1e-9, at)
            check_close(d["WoE"], means[i] - mu, w + "WoE", 1e-9, 4 * at)
            ivs.append(abs(means[i] - mu) * len(r) / n)
            check_close(d["IV"], ivs[-1], w + "IV", 1e-9, 4 * at)
            if r:
                sd = math.sqrt(sum((v - means[i]) ** 2 for v in r) / len(r))
                check_close(d["Std"], sd, w + "Std", 1e-7,
                            p09.std_tol(r) if sd > 1e-6 * scale else
                            1e-9 + 1e-6 * scale)
        t_woe = sum(abs(m - mu) for m in means)
        last = df.iloc[-1]
        check(float(last["Count"]) == n, "Totals Count {}", last["Count"])
        for nm, v in (("Count (%)", 1.0), ("Sum", sum(allz)), ("Mean", mu),
                      ("WoE", t_woe), ("IV", sum(ivs))):
            check_close(last[nm], v, "Totals " + nm, 1e-9, 40 * at * n)
        check_close(t.iv, sum(ivs), "attribute iv", 1e-9, 40 * at)
        check_close(t.woe, t_woe, "attribute woe", 1e-9, 40 * at)
        pairs = grid(t, lay, means[:nb], rec)
        xy = t.build(show_digits=case["digits"], show_bin_xy=True,
                     add_totals=False)
        lab = [str(v) for v in xy["Bin"].values]
        check(len(lab) == nb + 2, "show_bin_xy gives {} rows", len(lab))
    transform(case, ob, lay, {"mean": list(df["Mean"].values)}, lab)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        t.analysis()
    with observing("analysis"):
        v = p02.report_values(buf.getvalue())
        sh = [len(r) / n for r in rows]
        check_close(float(v["IV"]), sum(ivs), "analysis IV", 1e-8,
                    1e-7 + 1e-8 * scale)
        check_close(float(v["WoE"]), t_woe, "analysis WoE", 1e-8,
                    1e-7 + 1e-8 * scale)
        check_close(float(v["HHI"]), ref.hhi(sh), "analysis HHI", 1e-7, 2e-8)
        check_close(float(v["HHI (normalized)"]), ref.hhi(sh, True),
                    "analysis HHI norm", 1e-7, 2e-8)
        got = p09.p02_rows(buf.getvalue())
        check([(r[0], r[1]) for r in got] == pairs,
              "tests compare {}, adjacent are {}",
              [(r[0], r[1]) for r in got], pairs)
        for (i, j), r in zip(pairs, got):
            a, b = rows[i], rows[j]
            sa, sb = (math.sqrt(sum((u - m) ** 2 for u in q) / len(q))
                      for q, m in ((a, means[i]), (b, means[j])))
            if sa + sb < 1e-4 * scale or min(len(a), len(b)) < 2:
                continue
            w = stats.ttest_ind_from_stats(means[i], sa, len(a), means[j],
                                           sb, len(b), False)
            if abs(w.statistic) > 1e-3:
                check_close(r[2], w.statistic, "t statistic", 1e-4, 1e-4)
                check_close(r[3], w.pvalue, "t-test p-value", 1e-4, 1e-5)
    common_labels(case, ob, lay, rec, [len(r) for r in rows])


SUBS = [
    Sub("binary", lambda: cases(False), run_binary, 2500,
        rule="binary target"),
    Sub("continuous", lambda: cases(True), run_continuous, 2000,
        rule="continuous target"),
]
