"""Option generators for the one-dimensional binary estimator."""
from hypothesis import strategies as st

import gen

DIVS = ("iv", "iv", "js", "hellinger", "triangular")
TRENDS = (None, "auto", "auto_heuristic", "auto_asc_desc", "ascending",
          "descending", "concave", "convex", "peak", "valley",
          "peak_heuristic", "valley_heuristic")


@st.composite
def maybe(draw, strat, p_none=2):
    if draw(st.integers(0, p_none)):
        return None
    return draw(strat)


@st.composite
def base_opts(draw, case, trends=TRENDS, user_splits=True, outliers=True,
              digits=True, methods=("cart", "cart", "quantile", "uniform",
                                    "mdlp"), constraints=False):
    cat = case["cat"]
    o = dict(dtype="categorical" if cat else "numerical",
             prebinning_method=draw(st.sampled_from(methods)),
             solver=draw(st.sampled_from(("mip", "mip", "cp"))),
             divergence=draw(st.sampled_from(DIVS)),
             max_n_prebins=draw(st.integers(2, 20)),
             min_prebin_size=draw(st.sampled_from((0.01, 0.05, 0.05, 0.1,
                                                   0.25))),
             monotonic_trend=draw(st.sampled_from(trends)))
    if cat:
        if draw(st.integers(0, 1)):
            o["cat_cutoff"] = draw(st.sampled_from((0.02, 0.05, 0.1, 0.2)))
        if o["prebinning_method"] == "quantile":
            o["prebinning_method"] = "cart"
    spec = gen.special_values(case["special"])
    clean = sorted({v for v in case["x"] if v is not None and v not in spec})
    if user_splits and draw(st.integers(0, 2)) == 0:
        us = draw(user_splits_spec(clean, cat))
        if us is not None:
            o["user_splits"] = us
    elif digits and not cat and draw(st.integers(0, 4)) == 0:
        o["split_digits"] = draw(st.integers(0, 4))
    if outliers and not cat and draw(st.integers(0, 5)) == 0:
        o["outlier_detector"] = draw(st.sampled_from(("range", "zscore")))
        if o["outlier_detector"] == "range":
            if draw(st.booleans()):
                o["outlier_params"] = dict(
                    interval_length=draw(st.sampled_from((0.5, 0.8, 0.9))),
                    k=draw(st.sampled_from((0.0, 0.5, 1.5))),
                    method=draw(st.sampled_from(("ETI", "HDI"))))
        elif draw(st.booleans()):
            o["outlier_params"] = dict(threshold=draw(st.sampled_from(
                (0.5, 1.5, 3.5))))
    return o


@st.composite
def user_splits_spec(draw, clean, cat):
    if cat:
        if len(clean) < 2:
            return None
        perm = draw(st.permutations(clean))
        keep = draw(st.integers(2, len(perm)))
        perm = perm[:keep]
        ng = draw(st.integers(1, min(6, len(perm))))
        groups = [[] for _ in range(ng)]
        for i, c in enumerate(perm):
            groups[i % ng].append(c)
        return groups
    mids = [(a + b) / 2 for a, b in zip(clean, clean[1:])]
    pool = sorted(set(mids) | set(clean))
    k = draw(st.integers(1, min(8, len(pool))))
    return sorted(draw(st.lists(st.sampled_from(pool), min_size=1,
                                max_size=k, unique=True)))


def lib_opts(opts, special):
    """Fresh keyword arguments for the library."""
    kw = dict(opts)
    if "user_splits" in kw:
        kw["user_splits"] = [list(g) if isinstance(g, list) else g
                             for g in kw["user_splits"]]
    if kw.get("outlier_params"):
        kw["outlier_params"] = dict(kw["outlier_params"])
    if "class_weight" in kw and isinstance(kw["class_weight"], dict):
        kw["class_weight"] = {int(k): v for k, v in
                              kw["class_weight"].items()}
    kw["special_codes"] = gen.special_arg(special)
    return kw


CONT_TRENDS = (None, "auto", "auto_heuristic", "auto_asc_desc", "ascending",
               "descending", "concave", "convex", "peak", "valley",
               "peak_heuristic", "valley_heuristic")


@st.composite
def outlier_opts(draw):
    o = dict(outlier_detector=draw(st.sampled_from(("range", "zscore"))))
    if o["outlier_detector"] == "range":
        if draw(st.booleans()):
            o["outlier_params"] = dict(
                interval_length=draw(st.sampled_from((0.5, 0.8, 0.9))),
                k=draw(st.sampled_from((0.0, 0.5, 1.5))),
                method=draw(st.sampled_from(("ETI", "HDI"))))
    elif draw(st.booleans()):
        o["outlier_params"] = dict(threshold=draw(st.sampled_from(
            (0.5, 1.5, 3.5))))
    return o


@st.composite
def cont_opts(draw, case, trends=CONT_TRENDS, user_splits=True, outliers=True,
              digits=True):
    """Options of ContinuousOptimalBinning."""
    cat = case["cat"]
    o = dict(dtype="categorical" if cat else "numerical",
             prebinning_method=draw(st.sampled_from(
                 ("cart", "cart", "quantile", "uniform"))),
             max_n_prebins=draw(st.integers(2, 12)),
             min_prebin_size=draw(st.sampled_from((0.01, 0.05, 0.05, 0.1,
                                                   0.25))),
             monotonic_trend=draw(st.sampled_from(trends)))
    if cat:
        if draw(st.integers(0, 1)):
            o["cat_cutoff"] = draw(st.sampled_from((0.02, 0.05, 0.1, 0.2)))
        if o["prebinning_method"] == "quantile":
            o["prebinning_method"] = "cart"
    spec = gen.special_values(case["special"])
    clean = sorted({v for v in case["x"] if v is not None and v not in spec})
    if user_splits and draw(st.integers(0, 2)) == 0:
        us = draw(user_splits_spec(clean, cat))
        if us is not None:
            o["user_splits"] = us
    elif digits and not cat and draw(st.integers(0, 4)) == 0:
        o["split_digits"] = draw(st.integers(0, 4))
    if outliers and not cat and draw(st.integers(0, 5)) == 0:
        o.update(draw(outlier_opts()))
    return o


MULTI_TRENDS = ("ascending", "descending", "concave", "convex", "peak",
                "valley", "auto", "auto_heuristic", "auto_asc_desc",
                "peak_heuristic", "valley_heuristic", None)


@st.composite
def multi_opts(draw, case, trends=(None, "auto", "auto_heuristic",
                                   "auto_asc_desc"), lists=False,
               user_splits=True, outliers=True, digits=True):
    """Options of MulticlassOptimalBinning."""
    o = dict(prebinning_method=draw(st.sampled_from(("cart", "cart",
                                                     "quantile", "uniform"))),
             solver=draw(st.sampled_from(("mip", "mip", "cp"))),
             max_n_prebins=draw(st.integers(2, 12)),
             min_prebin_size=draw(st.sampled_from((0.01, 0.05, 0.05, 0.1,
                                                   0.25))),
             monotonic_trend=draw(st.sampled_from(trends)))
    spec = gen.special_values(case["special"])
    clean = sorted({v for v in case["x"] if v is not None and v not in spec})
    if user_splits and draw(st.integers(0, 2)) == 0:
        us = draw(user_splits_spec(clean, False))
        if us is not None:
            o["user_splits"] = us
    elif digits and draw(st.integers(0, 4)) == 0:
        o["split_digits"] = draw(st.integers(0, 4))
    if outliers and draw(st.integers(0, 5)) == 0:
        o.update(draw(outlier_opts()))
    return o
