"""P06: bins are an ordered disjoint cover built from permitted cut points."""
import math

import numpy as np
from hypothesis import strategies as st

import binopts
import gen
import ref
from core import Skip, Sub, check, check_close, check_vec, observing
from props import p01
from props.p04 import information_prebins

RULE = ("A case is one data set and pre-binning configuration fitted by the "
        "binary, continuous, multiclass or MDLP estimator; its final splits "
        "or groups are judged against the raw values. Non-trivial: at least "
        "two final bins.")
ASSUMPTIONS = ["quantile cut points follow the linear-interpolation quantile "
               "definition, uniform ones the equal-width grid"]


@st.composite
def fixed_opts(draw, o, digits_too=True):
    if "user_splits" in o:
        n = len(o["user_splits"])
        if draw(st.integers(0, 2)) == 0:
            o["user_splits_fixed"] = [draw(st.integers(0, 2)) == 0
                                      for _ in range(n)]
        if draw(st.booleans()):      # any order may be given
            perm = draw(st.permutations(list(range(n))))
            o["user_splits"] = [o["user_splits"][i] for i in perm]
            if "user_splits_fixed" in o:
                o["user_splits_fixed"] = [o["user_splits_fixed"][i]
                                          for i in perm]
        if digits_too and draw(st.integers(0, 3)) == 0:
            o["split_digits"] = draw(st.integers(0, 3))
    return o


@st.composite
def cases(draw, target="binary", cat=False):
    if target == "binary":
        case = draw(gen.xy_binary(cat=cat, n_hi=200))
        o = draw(binopts.base_opts(case))
    elif target == "continuous":
        case = draw(gen.xy_continuous(cat=cat, n_hi=200))
        o = draw(binopts.cont_opts(case, trends=(None, None, "auto",
                                                 "ascending", "peak")))
    else:
        case = draw(gen.xy_multiclass(n_hi=200))
        o = draw(binopts.multi_opts(case))
    if not cat:
        o = draw(fixed_opts(o))
    if draw(st.integers(0, 3)) == 0:
        o["max_n_bins"] = draw(st.integers(1, 4))
    case["opt"] = o
    case["target"] = target
    return case


def estimator(case):
    import optbinning as ob
    kw = binopts.lib_opts(case["opt"], case["special"])
    cls = dict(binary=ob.OptimalBinning,
               continuous=ob.ContinuousOptimalBinning,
               multiclass=ob.MulticlassOptimalBinning)[case["target"]]
    return cls(name="v", **kw)


def clean_records(case):
    if case["target"] == "binary":
        return p01.prepare(case)
    out = p01.outlier_set(case)
    sv = gen.special_values(case["special"])
    clean = [i for i, v in enumerate(case["x"])
             if v is not None and v not in sv and i not in out]
    if not clean:
        raise Skip("no clean records")
    if case["target"] == "multiclass":
        if len({case["y"][i] for i in clean}) < len(case["classes"]):
            raise Skip("a class without clean records")
    cut = case["opt"].get("cat_cutoff")
    if cut is not None and "user_splits" not in case["opt"]:
        xs = [case["x"][i] for i in clean]
        need = math.ceil(cut * len(xs))
        if max(xs.count(c) for c in set(xs)) < need:
            raise Skip("every category is rare (documented refusal)")
    return clean


def fit(case):
    ob = estimator(case)
    try:
        ob.fit(gen.xarray(case["x"], case["cat"]), np.array(case["y"]))
    except ValueError as e:
        if "are removed because produce pure prebins" in str(e):
            raise Skip("fixed split next to a pure pre-bin (documented)")
        raise
    return ob


def subset(sp, pool, what, tol=1e-9):
    for s in sp:
        check(any(abs(s - p) <= tol * max(1.0, abs(s)) for p in pool),
              "split {} is not one of the {} {}", s, what, list(pool))


def run_num(case, rec):
    clean = clean_records(case)
    o = case["opt"]
    ob = fit(case)
    with observing("splits"):
        sp = ref.finite_increasing(ob.splits)
    xs = [case["x"][i] for i in clean]
    n_bins = len(sp) + 1
    cnt = [0] * n_bins
    for v in xs:
        cnt[ref.num_bin(v, sp)] += 1
    check(min(cnt) >= 1, "splits {}: bins without clean values {}", sp, cnt)
    dg = o.get("split_digits")
    us = o.get("user_splits")
    if dg is not None:
        for s in sp:
            check(s == float(np.round(s, dg)), "split {} has more than {} "
                  "digits", s, dg)
    n_pre = information_prebins(ob)
    check(n_bins <= max(n_pre, 1), "{} bins from {} pre-bins", n_bins, n_pre)
    if o.get("max_n_bins"):
        check(n_bins <= o["max_n_bins"], "{} bins, max_n_bins {}", n_bins,
              o["max_n_bins"])
    if us is not None:
        pool = [float(np.round(u, dg)) if dg is not None else u for u in us]
        check(set(sp) <= set(pool), "splits {} not among user splits {}", sp,
              pool)
        check(n_pre <= len(us) + 1, "{} pre-bins from {} user splits", n_pre,
              len(us))
        fx = o.get("user_splits_fixed")
        if fx and str(ob.status) in ("OPTIMAL", "FEASIBLE"):
            for u, f in zip(pool, fx):
                check(not f or u in sp, "fixed split {} missing in {}", u, sp)
            rec.label("fixed splits")
    else:
        m = o["prebinning_method"]
        n = o["max_n_prebins"]
        if m != "mdlp":
            check(n_pre <= n, "{} pre-bins, max_n_prebins {}", n_pre, n)
        lo, hi = min(xs), max(xs)
        for s in sp:
            check(lo < s <= hi or dg is not None,
                  "split {} outside data range [{}, {}]", s, lo, hi)
        if dg is None and m == "uniform":
            subset(sp, [lo + (hi - lo) * i / n for i in range(1, n)],
                   "equal-width cut points")
        if dg is None and m == "quantile":
            subset(sp, [ref.percentile(xs, 100.0 * i / n)
                        for i in range(1, n)], "quantiles")
        if dg is None and m in ("cart", "mdlp"):
            need = math.ceil(o["min_prebin_size"] * len(case["x"]))
            if n_bins > 1:
                check(min(cnt) >= need, "{}: bin sizes {} below the minimum "
                      "pre-bin size {}", m, cnt, need)
    rec.label("bins=%d" % min(n_bins, 6), "method=" +
              (o["prebinning_method"] if us is None else "user"))
    for k in ("split_digits", "outlier_detector"):
        if k in o:
            rec.label(k)
    rec.nontrivial(n_bins >= 2)


def run_cat(case, rec):
    clean = clean_records(case)
    o = case["opt"]
    ob = fit(case)
    with observing("splits"):
        groups = [[c for c in g] for g in ob.splits]
        gmap = ref.group_map(groups)
    xs = [case["x"][i] for i in clean]
    cats = set(xs)
    check(set(gmap) >= cats, "categories {} in no group", cats - set(gmap))
    us = o.get("user_splits")
    known = set(cats)
    if us is not None:
        known |= {c for g in us for c in g}
    check(set(gmap) <= known, "categories {} were never seen",
          set(gmap) - known)
    rare = set()
    if us is not None:
        listed = {c for g in us for c in g}
        rare = cats - listed
    elif "cat_cutoff" in o:
        need = math.ceil(o["cat_cutoff"] * len(xs))
        rare = {c for c in cats if xs.count(c) < need}
    main = groups
    if rare:
        check(set(groups[-1]) == rare, "rare group {} should be {}",
              sorted(groups[-1]), sorted(rare))
        main = groups[:-1]
    for g in main:
        check(len(g) > 0 and not (set(g) & rare),
              "rare categories {} in group {}", set(g) & rare, g)
    ys = {}
    for i in clean:
        ys.setdefault(case["x"][i], []).append(case["y"][i])
    if us is not None:
        units = [[c for c in g if c in cats] for g in us]
        units = [u for u in units if u]
        for u in units:
            check(len({gmap[c] for c in u}) == 1,
                  "user group {} is torn apart in {}", u, groups)
    else:
        units = [[c] for c in sorted(cats - rare)]
        n_pre = information_prebins(ob)
        check(n_pre <= o["max_n_prebins"] or len(main) == 1 or
              o["prebinning_method"] == "mdlp",
              "{} pre-bins, max_n_prebins {}", n_pre, o["max_n_prebins"])
        if o["prebinning_method"] in ("cart", "mdlp") and len(main) > 1:
            need = math.ceil(o["min_prebin_size"] * len(case["x"]))
            for g in main:
                k = sum(len(ys.get(c, ())) for c in g)
                check(k >= need, "group {} has {} records, minimum pre-bin "
                      "size {}", g, k, need)
    # groups join neighbours in the order of the mean target
    last = None
    rng = []
    for gi, g in enumerate(main):
        m = []
        for u in units:
            if u[0] in g:
                v = [y for c in u for y in ys[c]]
                m.append(sum(v) / len(v))
        check(m, "group {} holds no training category", g)
        rng.append((min(m), max(m)))
    for (a, b), (c, d) in zip(rng, rng[1:]):
        eps = 1e-9 * max(1.0, abs(b))
        check(b <= c + eps, "groups are not in the order of the mean target: "
              "{}", rng)
    rec.label("groups=%d" % min(len(groups), 6),
              "rare" if rare else "no rare",
              "user groups" if us is not None else "method=" +
              o["prebinning_method"])
    rec.nontrivial(len(groups) >= 2)


@st.composite
def mdlp_cases(draw):
    case = draw(gen.xy_binary(n_lo=8, n_hi=250, missing=False,
                              spec_forms=("none",)))
    return dict(x=case["x"], y=case["y"], special=None, cat=False,
                leaf=draw(st.sampled_from((1, 2, 2, 5, 10, 30))),
                split=draw(st.sampled_from((2, 2, 5, 20))),
                cand=draw(st.sampled_from((1, 2, 8, 32, 32))),
                perm=draw(st.integers(0, 10 ** 6)))


class Unclear(Exception):
    """The reference cannot tell (tie, rounding, thinned candidates)."""


def mdlp_reference(recs, leaf, split, cand):
    """Cut points of the documented recursion [FI93]: the boundary point of
    largest information gain; recursion stops by the MDL criterion."""
    def ent(v):
        e = sum(v)
        return -math.fsum(ref.xlogy(q / len(v), q / len(v))
                          for q in (e, len(v) - e))

    def walk(rs):
        n = len(rs)
        if n < split:
            return []
        vals = sorted({v for v, _ in rs})
        cl = {v: {t for u, t in rs if u == v} for v in vals}
        cuts = [(p + q) / 2 for p, q in zip(vals, vals[1:])
                if len(cl[p] | cl[q]) > 1]
        if len(cuts) > cand:
            raise Unclear()
        ys = [t for _, t in rs]
        best = []
        for c in cuts:
            lo = [t for v, t in rs if v < c]
            hi = [t for v, t in rs if v >= c]
            if min(len(lo), len(hi)) >= leaf:
                best.append((ent(ys) - (len(lo) * ent(lo) +
                                        len(hi) * ent(hi)) / n, c, lo, hi))
        if not best:
            return []
        best.sort(key=lambda b: -b[0])
        g, c, lo, hi = best[0]
        if g < 1e-12 or len(best) > 1 and g - best[1][0] < 1e-12:
            raise Unclear()
        k = [len(set(v)) for v in (ys, lo, hi)]
        delta = math.log(3 ** k[0] - 2) - (k[0] * ent(ys) - k[1] * ent(lo) -
                                           k[2] * ent(hi))
        bar = (math.log(n - 1) + delta) / n
        if abs(g - bar) < 1e-12:
            raise Unclear()
        if g <= bar:
            return [c]
        return walk([r for r in rs if r[0] < c]) + [c] + \
            walk([r for r in rs if r[0] >= c])
    return walk(recs)


def run_mdlp(case, rec):
    from optbinning import MDLP
    x, y = np.array(case["x"]), np.array(case["y"])
    m = MDLP(min_samples_split=case["split"], min_samples_leaf=case["leaf"],
             max_candidates=case["cand"])
    m.fit(x, y)
    with observing("splits"):
        sp = ref.finite_increasing(m.splits)
    cnt = [0] * (len(sp) + 1)
    for v in case["x"]:
        cnt[ref.num_bin(v, sp)] += 1
    if sp:
        check(min(cnt) >= case["leaf"], "MDLP bins {} below min_samples_leaf "
              "{} (splits {})", cnt, case["leaf"], sp)
    try:
        want = mdlp_reference(list(zip(case["x"], case["y"])), case["leaf"],
                              case["split"], case["cand"])
        check_vec(sp, want, "MDLP cut points", 1e-12, 0)
        rec.label("reference")
    except Unclear:
        rec.label("no reference")
    # fitting again, or on permuted data, gives the same cut points
    m.fit(x, y)
    check([float(v) for v in m.splits] == sp, "refit gives {}, first fit {}",
          list(m.splits), sp)
    p = np.random.RandomState(case["perm"]).permutation(len(x))
    m2 = MDLP(min_samples_split=case["split"], min_samples_leaf=case["leaf"],
              max_candidates=case["cand"])
    m2.fit(x[p], y[p])
    check([float(v) for v in m2.splits] == sp,
          "permuted rows give {}, original {}", list(m2.splits), sp)
    rec.label("splits=%d" % min(len(sp), 5))
    rec.nontrivial(len(sp) >= 1)


SUBS = [
    Sub("num", lambda: cases("binary"), run_num, 4500,
        rule="binary target, numerical"),
    Sub("cat", lambda: cases("binary", True), run_cat, 3000,
        rule="binary target, categorical"),
    Sub("contnum", lambda: cases("continuous"), run_num, 2000,
        rule="continuous target, numerical"),
    Sub("contcat", lambda: cases("continuous", True), run_cat, 1500,
        rule="continuous target, categorical"),
    Sub("multi", lambda: cases("multiclass"), run_num, 2500,
        rule="multiclass target"),
    Sub("mdlp", mdlp_cases, run_mdlp, 4000,
        rule="MDLP discretiser used directly"),
]
