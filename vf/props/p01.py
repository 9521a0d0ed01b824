"""P01: the binary binning table counts every record exactly once."""
import math

import numpy as np
from hypothesis import strategies as st

import binopts
import gen
import ref
from core import Skip, Sub, check, check_close, fail, observing

RULE = ("A case is one generated data set with one option set, fitted and "
        "recounted record by record. Non-trivial: at least two bins in the "
        "final table, or a special/missing/rare row that is not empty.")
ASSUMPTIONS = ["outlier exclusion is recomputed with the documented rule "
               "(percentile interval / modified z-score)"]


@st.composite
def cases(draw, cat=False, weights=False):
    case = draw(gen.xy_binary(cat=cat))
    case["special"] = draw(gen.nan_code(case["special"]))
    case["opt"] = draw(binopts.base_opts(case, outliers=not weights))
    case["container"] = draw(st.sampled_from(("array", "array", "list",
                                              "series")))
    case["missing_kind"] = draw(st.sampled_from(("none", "nan")))
    if isinstance(case["special"], list) and not cat:
        case["special_array"] = draw(st.booleans())
    if weights:
        n = len(case["x"])
        mode = draw(st.sampled_from(("sw", "cw", "both", "balanced")))
        case["wmode"] = mode
        if mode in ("sw", "both"):
            b = gen.rbytes(draw, n)
            case["sw"] = [1 + v % 4 for v in b]
        if mode in ("cw", "both"):
            case["opt"]["class_weight"] = {
                "0": draw(st.integers(1, 4)), "1": draw(st.integers(1, 4))}
        if mode == "balanced":
            case["opt"]["class_weight"] = "balanced"
    return case


def make_xy(case):
    import pandas as pd
    x = gen.xarray(case["x"], case["cat"],
                   missing=float("nan") if case.get("missing_kind") == "nan"
                   and case.get("container") != "list" else None)
    y = np.array(case["y"])
    if case.get("container") == "list":
        x, y = list(x), list(y)
    elif case.get("container") == "series":
        x, y = pd.Series(x), pd.Series(y)
    return x, y


def weights_of(case):
    n = len(case["x"])
    w = [1.0] * n
    if "sw" in case:
        w = [float(v) for v in case["sw"]]
    cw = case["opt"].get("class_weight")
    if cw == "balanced":
        n1 = sum(case["y"])
        d = {0: n / (2.0 * (n - n1)), 1: n / (2.0 * n1)}
        w = [a * d[y] for a, y in zip(w, case["y"])]
    elif cw:
        w = [a * cw[str(y)] for a, y in zip(w, case["y"])]
    return w


def outlier_set(case):
    """Indices of clean records the requested detector must exclude."""
    o = case["opt"]
    det = o.get("outlier_detector")
    if not det:
        return set()
    sv = gen.special_values(case["special"])
    idx = [i for i, v in enumerate(case["x"])
           if v is not None and v not in sv]
    xs = [case["x"][i] for i in idx]
    p = o.get("outlier_params") or {}
    if det == "range":
        ln, k, m = (p.get("interval_length", 0.5), p.get("k", 1.5),
                    p.get("method", "ETI"))
        if m == "ETI":
            lb = ref.percentile(xs, 100 * (1 - ln) / 2)
            ub = ref.percentile(xs, 100 * (1 + ln) / 2)
        else:
            s = sorted(xs)
            inc = int(math.ceil(ln * len(s)))
            best = None
            for j in range(len(s) - inc):
                w = s[j + inc] - s[j]
                if best is None or w < best[0]:
                    best = (w, j)
            if best is None:
                raise Skip("HDI interval longer than sample")
            lb, ub = s[best[1]], s[best[1] + inc]
        lo, hi = lb - k * (ub - lb), ub + k * (ub - lb)
        scale = max(abs(lo), abs(hi), 1e-12)
        for v in xs:
            if (min(abs(v - lo), abs(v - hi)) < 1e-9 * scale and
                    v != lo and v != hi):
                raise Skip("outlier bound within rounding of a value")
            if v in (lo, hi) and k != 0 and m == "ETI":
                raise Skip("outlier bound within rounding of a value")
        return {i for i in idx if case["x"][i] < lo or case["x"][i] > hi}
    thr = p.get("threshold", 3.5)
    med = ref.median(xs)
    mad = ref.median([abs(v - med) for v in xs])
    if mad == 0:
        raise Skip("zero median absolute deviation")
    out = set()
    for i in idx:
        z = abs(0.6745 * (case["x"][i] - med) / mad)
        if abs(z - thr) < 1e-9:
            raise Skip("outlier bound within rounding of a value")
        if z > thr:
            out.add(i)
    return out


def fit(case):
    from optbinning import OptimalBinning
    kw = binopts.lib_opts(case["opt"], case["special"])
    if case.get("special_array"):
        kw["special_codes"] = np.array(kw["special_codes"])
    x, y = make_xy(case)
    ob = OptimalBinning(name="v", **kw)
    if "sw" in case:
        ob.fit(x, y, sample_weight=np.array(case["sw"], dtype=float))
    else:
        ob.fit(x, y)
    return ob


def expected_rows(case, splits, groups):
    gmap = ref.group_map(groups) if case["cat"] else None
    n_bins, sg, n_rows = ref.row_layout(case, splits, groups)
    ev = [0.0] * n_rows
    ne = [0.0] * n_rows
    out = outlier_set(case)
    w = weights_of(case)
    for i, (v, y) in enumerate(zip(case["x"], case["y"])):
        if i in out:
            continue
        r = ref.row_of(v, case, splits, gmap, n_bins, sg)
        check(r is not None, "training category {!r} is in no group", v)
        if y:
            ev[r] += w[i]
        else:
            ne[r] += w[i]
    return n_bins, sg, ne, ev, out


def prepare(case):
    """Domain restrictions shared by fitting properties."""
    out = outlier_set(case)
    sv = gen.special_values(case["special"])
    clean = [i for i, v in enumerate(case["x"])
             if v is not None and v not in sv and i not in out]
    if not clean:
        raise Skip("no clean records")
    cut = case["opt"].get("cat_cutoff")
    if cut is not None and "user_splits" not in case["opt"]:
        xs = [case["x"][i] for i in clean]
        need = math.ceil(cut * len(xs))
        if max(xs.count(c) for c in set(xs)) < need:
            raise Skip("every category is rare (documented refusal)")
    if len({case["y"][i] for i in range(len(case["y"]))
            if i not in out}) < 2:
        raise Skip("one class left after outlier removal")
    return clean


def run(case, rec):
    prepare(case)
    ob = fit(case)
    cat = case["cat"]
    with observing("splits"):
        sp = ob.splits
        if cat:
            groups = [list(g) for g in sp]
            splits = []
        else:
            splits = ref.finite_increasing(sp)
            groups = None
    df = ob.binning_table.build()
    n_bins, sg, ne, ev, out = expected_rows(case, splits, groups)
    n_rows = n_bins + len(sg) + 1
    with observing("binning table"):
        check(len(df) == n_rows + 1, "table has {} rows, expected {}",
              len(df), n_rows + 1)
        check(list(df.index)[-1] == "Totals", "last row is not Totals")
        labels = list(df["Bin"].values)
        cnt, cne, cev = ref.table_cols(df, ["Count", "Non-event", "Event"])
        share = [float(v) for v in df["Count (%)"].values]
        exact = case.get("wmode") != "balanced"
        tol = 1e-9 if exact else 22.0
        for r in range(n_rows):
            for got, want, nm in ((cne[r], ne[r], "Non-event"),
                                  (cev[r], ev[r], "Event"),
                                  (cnt[r], ne[r] + ev[r], "Count")):
                if exact:
                    check(abs(float(got) - want) < tol,
                          "row {} ({}): {} is {}, recount gives {}",
                          r, labels[r], nm, got, want)
                else:
                    check(want - tol <= float(got) <= want + 1e-6,
                          "row {} ({}): {} is {}, weight is {}",
                          r, labels[r], nm, got, want)
            check(float(cnt[r]) == float(cne[r]) + float(cev[r]),
                  "row {}: Count {} is not Non-event {} + Event {}", r,
                  cnt[r], cne[r], cev[r])
        tot = sum(float(c) for c in cnt[:n_rows])
        check(float(cnt[-1]) == tot, "Totals count {} is not the sum {}",
              cnt[-1], tot)
        check(float(cne[-1]) == sum(map(float, cne[:n_rows])),
              "Totals non-event")
        check(float(cev[-1]) == sum(map(float, cev[:n_rows])),
              "Totals event")
        for r in range(n_rows):
            check_close(share[r], float(cnt[r]) / tot,
                        "row {} share".format(r))
        check_close(share[-1], 1.0, "Totals share")
        # labels say what the row is
        names = [g[0] for g in sg] + ["Missing"]
        check([str(v) for v in labels[n_bins:n_rows]] == names,
              "special/missing labels {} expected {}",
              labels[n_bins:n_rows], names)
        if not cat:
            check([str(v) for v in labels[:n_bins]] ==
                  ref.num_labels(splits), "bin labels {} for splits {}",
                  labels[:n_bins], splits)
        else:
            for r in range(n_bins):
                check(sorted(map(str, labels[r])) ==
                      sorted(map(str, groups[r])),
                      "category label {} for group {}", labels[r],
                      groups[r])
    rec.label("bins=%d" % min(n_bins, 6), "method=" +
              case["opt"]["prebinning_method"])
    for o in ("user_splits", "cat_cutoff", "split_digits",
              "outlier_detector", "class_weight"):
        if o in case["opt"]:
            rec.label(o)
    if out:
        rec.label("outliers removed")
    if ne[-1] + ev[-1]:
        rec.label("missing records")
    if sum(ne[n_bins:-1]) + sum(ev[n_bins:-1]):
        rec.label("special records")
    rec.label("status=" + str(ob.status))
    rec.nontrivial(n_bins >= 2 or ne[-1] + ev[-1] > 0 or
                   sum(ne[n_bins:-1]) + sum(ev[n_bins:-1]) > 0)


SUBS = [
    Sub("num", lambda: cases(False), run, 9000,
        rule="numerical feature, all prebinning methods and outlier rules"),
    Sub("cat", lambda: cases(True), run, 5000,
        rule="categorical feature with rare-category cut-off, user groups"),
    Sub("weights", lambda: cases(False, True), run, 3000,
        rule="integer sample weights / class weights"),
    Sub("catweights", lambda: cases(True, True), run, 2000,
        rule="categorical with weights"),
]
