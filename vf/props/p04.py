"""P04: the binary solution honours every requested constraint."""
import contextlib
import io
import math
import re

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import binopts
import gen
import opt
import ref
from core import Skip, Sub, check, observing
from props import p01

RULE = ("A case is one data set with a drawn combination of constraints; the "
        "final bins are recounted from raw records and every constraint is "
        "tested. Non-trivial: at least two final bins and at least one "
        "constraint, or an infeasible status.")
ASSUMPTIONS = ["event-rate comparisons allow 3e-6 (the CP formulation works "
               "on integers at scale 1e6)",
               "minimum difference and p-value constraints use the rule in "
               "the documentation (pooled two-proportion z-test)"]


@st.composite
def constraint_opts(draw, n, trends=binopts.TRENDS, fixed=None):
    o = {}
    o["monotonic_trend"] = draw(st.sampled_from(trends))
    k = draw(st.integers(0, 3))
    names = draw(st.lists(st.sampled_from((
        "n_bins", "max_n_bins", "min_n_bins", "min_bin_size", "max_bin_size",
        "min_ne", "max_ne", "min_ev", "max_ev", "diff", "pvalue", "gamma")),
        min_size=k, max_size=k, unique=True))
    if "n_bins" in names:
        a = draw(st.integers(1, 6))
        o["min_n_bins"] = a
        o["max_n_bins"] = a + draw(st.integers(0, 4))
    if "max_n_bins" in names:
        o["max_n_bins"] = draw(st.integers(o.get("min_n_bins", 1), 8))
    if "min_n_bins" in names:
        o["min_n_bins"] = draw(st.integers(1, o.get("max_n_bins", 6)))
    if "min_bin_size" in names:
        o["min_bin_size"] = draw(st.sampled_from((0.01, 0.05, 0.1, 0.2, 0.33,
                                                  0.5)))
    if "max_bin_size" in names:
        o["max_bin_size"] = draw(st.sampled_from(
            [v for v in (0.05, 0.15, 0.3, 0.4, 0.5, 0.75, 1.0)
             if v > o.get("min_bin_size", 0)]))
    for nm, key in (("ne", "nonevent"), ("ev", "event")):
        if "min_" + nm in names:
            o["min_bin_n_" + key] = draw(st.integers(1, max(2, n // 6)))
        if "max_" + nm in names:
            lo = o.get("min_bin_n_" + key, 1)
            o["max_bin_n_" + key] = draw(st.integers(lo, max(lo, n // 2)))
    if "diff" in names:
        o["min_event_rate_diff"] = draw(st.sampled_from((0.001, 0.01, 0.05,
                                                         0.1, 0.25, 0.5)))
    if "pvalue" in names:
        o["max_pvalue"] = draw(st.sampled_from((0.001, 0.05, 0.2, 0.5, 0.9)))
        o["max_pvalue_policy"] = draw(st.sampled_from(("all", "consecutive")))
    if "gamma" in names:
        o["gamma"] = draw(st.sampled_from((0.001, 0.05, 0.5, 3.0)))
    return o


@st.composite
def cases(draw, cat=False, weights=False):
    case = draw(gen.xy_binary(cat=cat, n_lo=20, n_hi=240))
    case["opt"] = draw(binopts.base_opts(case, outliers=False))
    case["opt"].update(draw(constraint_opts(len(case["x"]))))
    if case["opt"]["solver"] == "mip":
        case["opt"]["mip_solver"] = draw(st.sampled_from(("bop", "cbc")))
    us = case["opt"].get("user_splits")
    if us and not cat and draw(st.booleans()):
        case["opt"]["user_splits_fixed"] = [
            draw(st.integers(0, 3)) == 0 for _ in us]
    if weights:
        case["sw"] = [1 + v % 3 for v in gen.rbytes(draw, len(case["x"]))]
    return case


def information_prebins(ob):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ob.information(print_level=1)
    m = re.search(r"Number of pre-bins\s+(\d+)", buf.getvalue())
    check(m is not None, "information() does not show the pre-bins")
    return int(m.group(1))


def bins_ok(o, ne, ev, n_total, cat):
    """List of violated constraints of the bins (in order)."""
    bad = []
    k = len(ne)
    size = [a + b for a, b in zip(ne, ev)]
    rate = [b / s if s else 0.0 for b, s in zip(ev, size)]
    if o.get("min_n_bins") is not None and k < o["min_n_bins"]:
        bad.append("min_n_bins")
    if o.get("max_n_bins") is not None and k > o["max_n_bins"]:
        bad.append("max_n_bins")
    if o.get("min_bin_size") is not None:
        need = math.ceil(o["min_bin_size"] * n_total)
        if min(size) < need:
            bad.append("min_bin_size {} < {}".format(min(size), need))
    if o.get("max_bin_size") is not None:
        lim = math.ceil(o["max_bin_size"] * n_total)
        if max(size) > lim:
            bad.append("max_bin_size {} > {}".format(max(size), lim))
    for nm, c in (("nonevent", ne), ("event", ev)):
        lo, hi = o.get("min_bin_n_" + nm), o.get("max_bin_n_" + nm)
        if lo is not None and min(c) < lo:
            bad.append("min_bin_n_{} {} < {}".format(nm, min(c), lo))
        if hi is not None and max(c) > hi:
            bad.append("max_bin_n_{} {} > {}".format(nm, max(c), hi))
    d = o.get("min_event_rate_diff") or 0
    if d:
        for a, b in zip(rate, rate[1:]):
            if abs(a - b) < d - opt.EPS:
                bad.append("min_event_rate_diff {}".format(abs(a - b)))
                break
    if o.get("max_pvalue") is not None:
        z0 = stats.norm.ppf(1.0 - o["max_pvalue"] / 2)
        pairs = [(i, j) for i in range(k) for j in range(i + 1, k)
                 if o.get("max_pvalue_policy") == "all" or j == i + 1]
        for i, j in pairs:
            z = opt.z_test(ev[i], ne[i], ev[j], ne[j])
            if z < z0 * (1 - 1e-9) - 1e-12:
                bad.append("max_pvalue: bins {}, {} have z={} < {}".format(
                    i, j, z, z0))
                break
    ts = opt.allowed_trends(o.get("monotonic_trend"), cat)
    ts = [{"peak_heuristic": "peak", "valley_heuristic": "valley"}.get(t, t)
          for t in ts]
    if not any(opt.trend(t, rate, None, None, False) for t in ts):
        bad.append("trend {} for rates {}".format(o["monotonic_trend"], rate))
    return bad


def run(case, rec):
    p01.prepare(case)
    cat = case["cat"]
    o = case["opt"]
    try:
        ob = p01.fit(case)
    except ValueError as e:
        if "are removed because produce pure prebins" in str(e):
            raise Skip("fixed split next to a pure pre-bin (documented)")
        raise
    status = str(ob.status)
    with observing("splits"):
        sp = ob.splits
        groups = [list(g) for g in sp] if cat else None
        splits = [] if cat else ref.finite_increasing(sp)
    n_bins, sg, ne, ev, _ = p01.expected_rows(case, splits, groups)
    k = n_bins
    if cat:
        from props.p02 import rare_group
        if rare_group(case, ob):
            k -= 1
    n_pre = information_prebins(ob)
    check(status in ("OPTIMAL", "FEASIBLE", "INFEASIBLE", "UNKNOWN",
                     "ABNORMAL", "UNBOUNDED", "MODEL_INVALID"),
          "status {!r}", status)
    rec.label("status=" + status, "solver=" + o["solver"])
    if n_pre <= 1:
        check(k == 1, "{} bins from {} pre-bins", k, n_pre)
        rec.label("at most one pre-bin")
        return
    check(k <= n_pre, "{} bins from {} pre-bins", k, n_pre)
    if status not in ("OPTIMAL", "FEASIBLE"):
        check(status == "INFEASIBLE", "status {}", status)
        check(k == 1, "{} bins although status is {}", k, status)
        rec.nontrivial()
        return
    bad = bins_ok(o, ne[:k], ev[:k], len(case["x"]), cat)
    check(not bad, "status {} but bins with counts {} violate {}", status,
          list(zip(ne[:k], ev[:k])), "; ".join(bad))
    fx = o.get("user_splits_fixed")
    if fx:
        want = [s for s, f in zip(o["user_splits"], fx) if f]
        check(all(any(s == t for t in splits) for s in want),
              "fixed splits {} missing from {}", want, splits)
        rec.label("fixed splits")
    for c in ("min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size",
              "min_bin_n_event", "max_bin_n_event", "min_bin_n_nonevent",
              "max_bin_n_nonevent", "min_event_rate_diff", "max_pvalue",
              "gamma"):
        if o.get(c) is not None:
            rec.label(c)
    rec.label("trend=" + str(o["monotonic_trend"]), "bins=%d" % min(k, 6))
    rec.nontrivial(k >= 2)


SUBS = [
    Sub("num", lambda: cases(False), run, 8000, rule="numerical features"),
    Sub("cat", lambda: cases(True), run, 4000, rule="categorical features"),
    Sub("weights", lambda: cases(False, True), run, 1500,
        rule="integer sample weights"),
]
