"""P10: continuous transform maps each value to its own bin's mean."""
import numpy as np
from hypothesis import strategies as st

import binopts
import gen
import ref
from core import Sub, check, check_close, observing
from props import p03, p06, p09

RULE = ("A case is one fitted continuous binning and one query vector "
        "transformed under one combination of special/missing/unknown "
        "options for all three metrics. Non-trivial: the query holds values "
        "of at least two different rows and the binning at least two bins.")
ASSUMPTIONS = ["row statistics are read from binning_table.build() "
               "(P09 decides them)"]


@st.composite
def cases(draw, cat=False):
    case = draw(gen.xy_continuous(cat=cat))
    case["special"] = draw(gen.nan_code(case["special"]))
    case["opt"] = draw(binopts.cont_opts(
        case, trends=(None, None, "auto", "ascending")))
    case["target"] = "continuous"
    if isinstance(case["special"], list) and not cat:
        case["special_array"] = draw(st.booleans())
    case["tr"] = draw(p03.transform_opts(case))
    case["query"] = draw(gen.query_spec())
    return case


def run(case, rec):
    p06.clean_records(case)
    tr = case["tr"]
    ob = p09.fit(case)
    df = ob.binning_table.build(show_digits=tr["digits"])
    cat = case["cat"]
    splits, groups, gmap = p09.layout(case, ob)
    with observing("binning table"):
        n_bins, sg, n_rows = ref.row_layout(case, splits, groups)
        mean, lab = ref.table_cols(df, ["Mean", "Bin"])
    q = gen.expand_query(case["query"], case, splits, cat)
    for metric in ("mean", "indices", "bins"):
        default = {"mean": float(mean[-1]), "indices": -1,
                   "bins": "unknown"}[metric]
        if tr["unknown"]:
            default = p03.UNKNOWN[metric][tr["unknown"]]
            ob.set_params(cat_unknown=default)
        want = [p03.expected(v, metric, case, mean, lab, splits, gmap,
                             n_bins, sg, default, tr) for v in q]
        got = ob.transform(p03.container(q, case, tr["container"]),
                           metric=metric, metric_special=tr["special"],
                           metric_missing=tr["missing"],
                           show_digits=tr["digits"])
        with observing("transform output"):
            p03.compare(list(got), want, metric, q)
    kw = dict(metric_special=tr["special"], metric_missing=tr["missing"])
    if tr["unknown"]:
        ob.set_params(cat_unknown=None)
    x = gen.xarray(case["x"], cat)
    y = np.array(case["y"])
    a = ob.transform(x, **kw)
    b = p06.estimator(case).fit_transform(x, y, **kw)
    with observing("fit_transform"):
        check(len(a) == len(b) == len(case["x"]), "lengths differ")
        for i, (u, v) in enumerate(zip(a, b)):
            check_close(u, v, "fit_transform vs transform [{}]".format(i))
    got1 = ob.transform(gen.xarray([q[0]], cat), **kw)
    gota = ob.transform(gen.xarray(q, cat), **kw)
    check_close(got1[0], gota[0], "value {!r} alone".format(q[0]))
    rows = {ref.row_of(v, case, splits, gmap, n_bins, sg) for v in q}
    if None in rows:
        rec.label("unseen category")
    if any(r is not None and n_bins <= r < n_rows - 1 for r in rows):
        rec.label("special")
    if n_rows - 1 in rows:
        rec.label("missing")
    if any(v in splits for v in q if v is not None):
        rec.label("value equal to a split")
    rec.label("bins=%d" % min(n_bins, 5))
    rec.nontrivial(n_bins >= 2 and len(rows) >= 2)


SUBS = [
    Sub("num", lambda: cases(False), run, 4000, rule="numerical features"),
    Sub("cat", lambda: cases(True), run, 3000, rule="categorical features"),
]
