"""P03: binary transform maps every value to its own row's statistic."""
import math

import numpy as np
from hypothesis import strategies as st

import binopts
import gen
import ref
from core import Sub, check, check_close, observing
from props import p01

RULE = ("A case is one fitted binning and one query vector transformed under "
        "one drawn combination of metric/special/missing/unknown options "
        "(all four metrics are evaluated). Non-trivial: the query holds "
        "values of at least two different rows and the binning at least two "
        "bins.")
ASSUMPTIONS = ["row statistics are read from binning_table.build() "
               "(P02 decides them)"]


@st.composite
def transform_opts(draw, case, cont=False):
    t = dict(special=draw(st.sampled_from(("empirical", "empirical", 0, 2.5,
                                           -3))),
             missing=draw(st.sampled_from(("empirical", "empirical", 0, 1.25,
                                           -2))),
             digits=draw(st.integers(0, 8)))
    if case["cat"]:
        t["unknown"] = draw(st.sampled_from((None, None, "int", "float")))
    else:
        t["unknown"] = draw(st.sampled_from((None, None, None, "int")))
    t["container"] = draw(st.sampled_from(("array", "list", "series")))
    return t


@st.composite
def cases(draw, cat=False):
    case = draw(gen.xy_binary(cat=cat))
    case["special"] = draw(gen.nan_code(case["special"]))
    case["opt"] = draw(binopts.base_opts(
        case, trends=(None, None, "auto", "ascending")))
    if isinstance(case["special"], list) and not cat:
        case["special_array"] = draw(st.booleans())
    case["tr"] = draw(transform_opts(case))
    case["query"] = draw(gen.query_spec())
    return case


def container(q, case, kind):
    import pandas as pd
    a = gen.xarray(q, case["cat"])
    if kind == "list":
        return list(a)
    if kind == "series":
        return pd.Series(a)
    return a


UNKNOWN = {"woe": {"int": 7, "float": 0.5}, "event_rate": {"int": 1,
                                                           "float": 0.25},
           "mean": {"int": 7, "float": 0.5},
           "indices": {"int": 77, "float": 78},
           "bins": {"int": "other", "float": "??"}}


def expected(v, metric, case, table_col, labels, splits, gmap, n_bins, sg,
             default, tr):
    r = ref.row_of(v, case, splits, gmap, n_bins, sg)
    if r is None:
        return default
    if r < n_bins:
        kind = "empirical"
    elif r < n_bins + len(sg):
        kind = tr["special"]
    else:
        kind = tr["missing"]
    if metric == "bins":
        return labels[r]
    if metric == "indices":
        return kind if isinstance(kind, int) else r
    return table_col[r] if kind == "empirical" else kind


def compare(got, want, metric, q):
    check(len(got) == len(want), "{}: {} outputs for {} values", metric,
          len(got), len(want))
    for v, g, w in zip(q, got, want):
        if metric == "bins":
            check(str(g) == str(w), "bins of {!r}: {!r}, expected {!r}", v, g,
                  w)
        else:
            check_close(g, w, "{} of {!r}".format(metric, v), rtol=1e-9,
                        atol=1e-9)


def run(case, rec):
    p01.prepare(case)
    tr = case["tr"]
    ob = p01.fit(case)
    df = ob.binning_table.build(show_digits=tr["digits"])
    cat = case["cat"]
    with observing("splits"):
        sp = ob.splits
        groups = [list(g) for g in sp] if cat else None
        splits = [] if cat else ref.finite_increasing(sp)
        gmap = ref.group_map(groups) if cat else None
        n_bins, sg, n_rows = ref.row_layout(case, splits, groups)
        woe, rate, lab = ref.table_cols(df, ["WoE", "Event rate", "Bin"])
        ne, ev = ref.table_cols(df, ["Non-event", "Event"])
    q = gen.expand_query(case["query"], case, splits, cat)
    n1 = float(ev[-1]) / float(ev[-1] + ne[-1])
    for metric in ("woe", "event_rate", "indices", "bins"):
        default = {"woe": 0.0, "event_rate": n1, "indices": -1,
                   "bins": "unknown"}[metric]
        if tr["unknown"]:
            default = UNKNOWN[metric][tr["unknown"]]
            ob.set_params(cat_unknown=default)
        col = {"woe": woe, "event_rate": rate}.get(metric)
        want = [expected(v, metric, case, col, lab, splits, gmap, n_bins, sg,
                         default, tr) for v in q]
        got = ob.transform(container(q, case, tr["container"]), metric=metric,
                           metric_special=tr["special"],
                           metric_missing=tr["missing"],
                           show_digits=tr["digits"])
        with observing("transform output"):
            compare(list(got), want, metric, q)
    # fit_transform = fit, then transform; and each value on its own
    kw = dict(metric="woe", metric_special=tr["special"],
              metric_missing=tr["missing"])
    x, y = p01.make_xy(case)
    if tr["unknown"]:
        ob.set_params(cat_unknown=None)
    a = ob.transform(x, **kw)
    from optbinning import OptimalBinning
    lk = binopts.lib_opts(case["opt"], case["special"])
    b = OptimalBinning(**lk).fit_transform(x, y, **kw)
    with observing("fit_transform"):
        check(len(a) == len(b) == len(case["x"]), "lengths differ")
        for i, (u, v) in enumerate(zip(a, b)):
            check_close(u, v, "fit_transform vs transform [{}]".format(i))
    one = gen.xarray([q[0]], cat)
    got1 = ob.transform(one, **kw)
    gota = ob.transform(gen.xarray(q, cat), **kw)
    check_close(got1[0], gota[0], "value {!r} alone".format(q[0]))
    rows = {ref.row_of(v, case, splits, gmap, n_bins, sg) for v in q}
    if None in rows:
        rec.label("unseen category")
    if any(r is not None and n_bins <= r < n_rows - 1 for r in rows):
        rec.label("special")
    if n_rows - 1 in rows:
        rec.label("missing")
    if any(v in splits for v in q if v is not None):
        rec.label("value equal to a split")
    if any(isinstance(v, float) and math.isinf(v) for v in q):
        rec.label("infinite")
    rec.label("bins=%d" % min(n_bins, 5))
    rec.nontrivial(n_bins >= 2 and len(rows) >= 2)


SUBS = [
    Sub("num", lambda: cases(False), run, 5000, rule="numerical features"),
    Sub("cat", lambda: cases(True), run, 4000, rule="categorical features"),
]
