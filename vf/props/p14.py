"""P14: scenario binning is feasible in every scenario and optimal overall."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import gen
import opt
import ref
from core import Skip, Sub, check, check_close, check_vec, observing
from props import p02, p03, p04

RULE = ("exact: a case is the event/non-event counts per pre-bin of one to "
        "four scenarios with weights and constraints; every grouping of "
        "consecutive pre-bins is enumerated; non-trivial: at least two "
        "scenarios and three admissible groupings, or infeasible. data: "
        "arbitrary samples per scenario; the tables, the transform and the "
        "constraints are recounted; non-trivial: two bins and two scenarios.")
ASSUMPTIONS = ["weighted objective compared up to 3e-5 of the largest weight "
               "per scenario", "every scenario has clean records"]
TOL = 3e-5
TRENDS = (None, None, "ascending", "descending", "concave", "convex", "peak",
          "valley")


@st.composite
def constraints(draw):
    o = dict(monotonic_trend=draw(st.sampled_from(TRENDS)))
    names = draw(st.lists(st.sampled_from((
        "n_bins", "max_n_bins", "min_n_bins", "min_bin_size", "max_bin_size",
        "sizes", "diff", "pvalue")), max_size=3, unique=True))
    if "n_bins" in names:
        a = draw(st.integers(1, 4))
        o["min_n_bins"], o["max_n_bins"] = a, a + draw(st.integers(0, 3))
    elif "max_n_bins" in names:
        o["max_n_bins"] = draw(st.integers(1, 6))
    elif "min_n_bins" in names:
        o["min_n_bins"] = draw(st.integers(1, 5))
    if "min_bin_size" in names or "sizes" in names:
        o["min_bin_size"] = draw(st.sampled_from((0.02, 0.1, 0.2, 0.33,
                                                  0.5)))
    if "max_bin_size" in names or "sizes" in names:
        o["max_bin_size"] = draw(st.sampled_from(
            [v for v in (0.15, 0.3, 0.4, 0.5, 0.75, 1.0)
             if v > o.get("min_bin_size", 0)]))
    if "diff" in names:
        o["min_event_rate_diff"] = draw(st.sampled_from((0.01, 0.05, 0.1,
                                                         0.3)))
    if "pvalue" in names:
        o["max_pvalue"] = draw(st.sampled_from((0.001, 0.05, 0.2, 0.7)))
        o["max_pvalue_policy"] = draw(st.sampled_from(("all",
                                                       "consecutive")))
    return o


WEIGHTS = (0.1, 0.25, 0.3, 0.5, 0.7, 1, 1, 2, 3, 10, 100, 0.01)


@st.composite
def weight_list(draw, ns):
    if draw(st.integers(0, 2)) == 0:
        return None
    return [draw(st.sampled_from(WEIGHTS)) for _ in range(ns)]


@st.composite
def cases(draw, nmax=7):
    n = draw(gen.count_levels(2, nmax))
    ns = draw(st.sampled_from((1, 2, 2, 3, 4)))
    mx = draw(st.sampled_from((6, 20, 60)))
    b = gen.rbytes(draw, max(8, 2 * n * ns))
    base = draw(gen.level_profile(n))[1]
    sc = []
    for s in range(ns):
        prof = base if draw(st.integers(0, 2)) else \
            draw(gen.level_profile(n))[1]
        ev = [1 + (b[2 * (s * n + i)] % mx) * prof[i] // 255
              for i in range(n)]
        ne = [1 + (b[2 * (s * n + i) + 1] % mx) * (255 - prof[i]) // 255
              for i in range(n)]
        sc.append([ev, ne])
    o = draw(constraints())
    if draw(st.integers(0, 4)) == 0:
        o["user_splits_fixed"] = [draw(st.integers(0, 3)) == 0
                                  for _ in range(n - 1)]
    return dict(sc=sc, opt=o, weights=draw(weight_list(ns)),
                missing=[draw(st.sampled_from((0, 0, 3, 20)))
                         for _ in range(ns)],
                rev=draw(st.booleans()))


def scenario_bins_ok(pools, o, n_samples, strict):
    """Constraints of one scenario other than the trend."""
    k = len(pools)
    size = [e + n for e, n in pools]
    if o.get("min_n_bins") is not None and k < o["min_n_bins"]:
        return "min_n_bins"
    if o.get("max_n_bins") is not None and k > o["max_n_bins"]:
        return "max_n_bins"
    if (o.get("min_bin_size") is not None and
            min(size) < math.ceil(o["min_bin_size"] * n_samples)):
        return "min_bin_size"
    if (o.get("max_bin_size") is not None and
            max(size) > math.ceil(o["max_bin_size"] * n_samples)):
        return "max_bin_size"
    d = o.get("min_event_rate_diff") or 0
    rate = [e / s for (e, _), s in zip(pools, size)]
    if d and any(abs(a - b) < d + (opt.EPS if strict else -opt.EPS)
                 for a, b in zip(rate, rate[1:])):
        return "min_event_rate_diff"
    if o.get("max_pvalue") is not None:
        z0 = stats.norm.ppf(1.0 - o["max_pvalue"] / 2)
        m = 1e-9 if strict else -1e-9
        for i in range(k):
            for j in range(i + 1, k):
                if o["max_pvalue_policy"] == "consecutive" and j != i + 1:
                    continue
                if opt.z_test(*pools[i], *pools[j]) < z0 * (1 + m) + m:
                    return "max_pvalue"
    return None


def joint_trend(t, rates, strict):
    """rates: one list per scenario; peaks and valleys share the change."""
    if t in ("peak", "valley"):
        s = 1 if t == "peak" else -1
        return any(all(opt.monotone(r[:k], s, strict) and
                       opt.monotone(r[k:], -s, strict) for r in rates)
                   for k in range(len(rates[0]) + 1))
    return all(opt.trend(t, r, None, None, strict) for r in rates)


class Problem:
    def __init__(self, case):
        self.sc, self.o = case["sc"], case["opt"]
        self.n = len(self.sc[0][0])
        self.w = case["weights"] or [1] * len(self.sc)
        self.n_samples = [sum(e) + sum(n) + m for (e, n), m in
                          zip(self.sc, case["missing"])]

    def pools(self, g):
        return [[(sum(e[i:j + 1]), sum(n[i:j + 1])) for i, j in g]
                for e, n in self.sc]

    def objective(self, g):
        v = 0.0
        for w, p, (e, n) in zip(self.w, self.pools(g), self.sc):
            v += w / max(self.w) * sum(ref.iv_term(b, a, sum(n), sum(e))
                                       for a, b in p)
        return v

    def violated(self, g, strict):
        fx = self.o.get("user_splits_fixed")
        cuts = {j for _, j in g}
        if fx and any(f and i not in cuts for i, f in enumerate(fx)):
            return "user_splits_fixed"
        pools = self.pools(g)
        for s, p in enumerate(pools):
            w = scenario_bins_ok(p, self.o, self.n_samples[s], strict)
            if w:
                return "{} in scenario {}".format(w, s)
        rates = [[e / (e + n) for e, n in p] for p in pools]
        if not joint_trend(self.o["monotonic_trend"], rates, strict):
            return "trend {} with rates {}".format(
                self.o["monotonic_trend"], rates)
        return None


def fit(case):
    from optbinning.binning.uncertainty import SBOptimalBinning
    o = dict(case["opt"])
    n = len(case["sc"][0][0])
    X, Y = [], []
    for (ev, ne), m in zip(case["sc"], case["missing"]):
        x, y = [], []
        for i in range(n):
            x += [float(i)] * (ev[i] + ne[i])
            y += [1] * ev[i] + [0] * ne[i]
        X.append(gen.xarray(x + [None] * m))
        Y.append(np.array(y + [1] * m))
    us = [i + 0.5 for i in range(n - 1)]
    if "user_splits_fixed" in o:
        o["user_splits_fixed"] = list(o["user_splits_fixed"])
    if case["rev"]:
        us.reverse()
        if "user_splits_fixed" in o:
            o["user_splits_fixed"].reverse()
    ob = SBOptimalBinning(name="v", user_splits=us, **o)
    ob.fit(X, Y, weights=case["weights"])
    return ob


def run(case, rec):
    p = Problem(case)
    ob = fit(case)
    status = str(ob.status)
    check(status in ("OPTIMAL", "FEASIBLE", "INFEASIBLE"), "status {}",
          status)
    with observing("splits"):
        cuts = []
        for s in ref.finite_increasing(ob.splits):
            check(s - 0.5 == int(s - 0.5) and 0 <= s < p.n - 1,
                  "split {} not among the user splits", s)
            cuts.append(int(s - 0.5))
        sol, a = [], 0
        for c in cuts + [p.n - 1]:
            sol.append((a, c))
            a = c + 1
    strict = [(p.objective(g), g) for g in opt.groupings(p.n)
              if p.violated(g, True) is None]
    strict.sort(key=lambda s: -s[0])
    what = "scenarios {} weights {}".format(case["sc"], case["weights"])
    if status == "INFEASIBLE":
        check(len(sol) == 1, "infeasible with {} bins", len(sol))
        check(not strict, "infeasible although {} is admissible; {}",
              strict[0][1] if strict else None, what)
    else:
        check(p.violated(sol, False) is None, "{} violates {}; {}", sol,
              p.violated(sol, False), what)
        if status == "OPTIMAL" and strict:
            v = p.objective(sol)
            check(v >= strict[0][0] - TOL * len(case["sc"]),
                  "expected IV {} of {} < {} of {}; {}", v, sol,
                  strict[0][0], strict[0][1], what)
    rec.label("status=" + status, "bins=%d" % len(sol),
              "trend=" + str(p.o["monotonic_trend"]),
              "scenarios=%d" % len(case["sc"]))
    rec.nontrivial(len(case["sc"]) >= 2 and (
        status == "INFEASIBLE" or
        len({round(s[0], 4) for s in strict}) >= 3))


# ---------------------------------------------------------------------------
@st.composite
def data_cases(draw):
    first = draw(gen.xy_binary(spec_forms=("none", "list"), n_lo=20, n_hi=120))
    sc = [first]
    soft = draw(st.integers(0, 3)) > 0
    if soft:                    # every level has both classes
        b = gen.rbytes(draw, len(first["y"]))
        first["y"] = [int(v) ^ (c < 70) for v, c in zip(first["y"], b)]
    lv = sorted({v for v in first["x"] if v is not None and
                 v not in gen.special_values(first["special"])})
    for _ in range(draw(st.sampled_from((0, 1, 1, 2, 3)))):
        n = draw(gen.sizes(20, 120))
        idx = draw(gen.column_index(n, len(lv)))
        b = gen.rbytes(draw, n)
        prof = draw(gen.level_profile(len(lv)))[1]
        if draw(st.integers(0, 3)):         # like the first scenario
            for i, v in enumerate(lv):
                t = [c for u, c in zip(first["x"], first["y"]) if u == v]
                prof[i] = 255 * (1 + sum(t)) // (2 + len(t))
        if soft:
            prof = [70 + v * 116 // 255 for v in prof]
        sh = draw(st.sampled_from((0.0,) * 6 + (0.5, 3.0)))
        x = [lv[i] + sh for i in idx]
        x = draw(gen.contaminate(x, first["special"]))
        if all(v is None or v in gen.special_values(first["special"])
               for v in x):
            x[0] = lv[0]
        sc.append(dict(x=x, y=[1 if b[i] < prof[idx[i]] else 0
                               for i in range(n)]))
    o = dict(prebinning_method=draw(st.sampled_from(("cart", "cart",
                                                     "quantile", "uniform"))),
             max_n_prebins=draw(st.integers(2, 20)),
             min_prebin_size=draw(st.sampled_from((0.01, 0.05, 0.1, 0.25))))
    if draw(st.integers(0, 2)):
        o.update(draw(constraints()))
    else:
        o["monotonic_trend"] = draw(st.sampled_from(TRENDS))
    if draw(st.integers(0, 2)) == 0:
        m = draw(st.integers(1, 8))
        us = sorted({lv[b % len(lv)] + (0.0, 0.5, -0.25)[b % 3]
                     for b in gen.rbytes(draw, m)})
        p = draw(st.permutations(list(range(len(us)))))
        o["user_splits"] = [us[i] for i in p]
        if draw(st.booleans()):
            o["user_splits_fixed"] = [draw(st.integers(0, 3)) == 0
                                      for _ in us]
    elif draw(st.integers(0, 4)) == 0:
        o["split_digits"] = draw(st.integers(0, 4))
    if draw(st.integers(0, 5)) == 0:
        o["class_weight"] = draw(st.sampled_from(("balanced",)))
    return dict(sc=[[s["x"], s["y"]] for s in sc], special=first["special"],
                opt=o, weights=draw(weight_list(len(sc))), cat=False,
                x=[v for s in sc for v in s["x"]],
                query=draw(gen.query_spec()),
                special_t=draw(st.sampled_from(("empirical", 0, 2.5))),
                missing_t=draw(st.sampled_from(("empirical", 0, 1.25))))


def rows_of(x, y, case, splits):
    n_bins = len(splits) + 1
    sg = gen.special_groups(case["special"])
    ne, ev = [0] * (n_bins + 2), [0] * (n_bins + 2)
    for v, t in zip(x, y):
        r = ref.row_of(v, case, splits, None, n_bins, sg)
        (ev if t else ne)[r] += 1
    return ne, ev


def check_table(bt, ne, ev, name, rec):
    df = bt.build()
    n = len(ne)
    with observing("binning table " + name):
        check(len(df) == n + 1, "{}: {} rows for {} bins", name, len(df) - 1,
              n - 2)
        a, b = ref.table_cols(df, ["Non-event", "Event"])
        check_vec(a[:-1], ne, name + " Non-event", rtol=0, atol=0)
        check_vec(b[:-1], ev, name + " Event", rtol=0, atol=0)
        p02.check_rows(df, ne, ev, n)
        check_close(b[-1], sum(ev), name + " total Event")
        check_close(a[-1], sum(ne), name + " total Non-event")
        iv, = ref.table_cols(df, ["IV"])
        check_close(iv[-1], sum(ref.iv_term(p, q, sum(ne), sum(ev))
                                for p, q in zip(ne, ev)), name + " IV",
                    atol=1e-8)
    return df


def run_data(case, rec):
    from optbinning.binning.uncertainty import SBOptimalBinning
    o = dict(case["opt"])
    for k in ("user_splits", "user_splits_fixed"):
        if k in o:
            o[k] = list(o[k])
    X = [gen.xarray(x) for x, _ in case["sc"]]
    Y = [np.array(y) for _, y in case["sc"]]
    for y in Y:
        if not y.any() or y.all():
            rec.label("one-class scenario")
    ob = SBOptimalBinning(name="v",
                          special_codes=gen.special_arg(case["special"]), **o)
    try:
        ob.fit(X, Y, weights=case["weights"])
    except ValueError as e:
        if "are removed because produce pure prebins" in str(e):
            raise Skip("fixed splits give pure prebins")
        raise
    with observing("splits"):
        splits = ref.finite_increasing(ob.splits)
    status = str(ob.status)
    n_bins = len(splits) + 1
    ns = len(X)
    check(status in ("OPTIMAL", "FEASIBLE", "INFEASIBLE"), "status {}",
          status)
    allne, allev, pools = 0, 0, []
    for s in range(ns):
        ne, ev = rows_of(*case["sc"][s], case, splits)
        allne, allev = allne + np.array(ne), allev + np.array(ev)
        check_table(ob.binning_table_scenario(s), ne, ev,
                    "scenario %d" % s, rec)
        pools.append(list(zip(ev, ne))[:n_bins])
    df = check_table(ob.binning_table, allne.tolist(), allev.tolist(),
                     "aggregate", rec)
    if (o["prebinning_method"] == "cart" and "user_splits" not in o
            and "split_digits" not in o and n_bins > 1):
        lo = math.ceil(o["min_prebin_size"] * sum(map(len, Y)))
        size = (allne + allev)[:n_bins]
        check(min(size) >= lo, "bins of {} records, a pre-bin has {}",
              size.tolist(), lo)
    # transform uses the aggregate table
    q = gen.expand_query(case["query"], case, splits)
    sg = gen.special_groups(case["special"])
    woe, rate, lab = ref.table_cols(df, ["WoE", "Event rate", "Bin"])
    tr = dict(special=case["special_t"], missing=case["missing_t"])
    for metric in ("woe", "event_rate", "indices", "bins"):
        col = {"woe": woe, "event_rate": rate}.get(metric)
        want = [p03.expected(v, metric, case, col, lab, splits, None, n_bins,
                             sg, None, tr) for v in q]
        got = ob.transform(gen.xarray(q), metric=metric,
                           metric_special=tr["special"],
                           metric_missing=tr["missing"])
        with observing("transform"):
            p03.compare(list(got), want, metric, q)
    # constraints
    rec.label("status=" + status, "bins=%d" % min(n_bins, 6),
              "scenarios=%d" % ns)
    rec.nontrivial(n_bins >= 2 and ns >= 2)
    if status == "INFEASIBLE":
        check(n_bins == 1, "infeasible with {} bins", n_bins)
        return
    npre = p04.information_prebins(ob)
    if npre < 2:
        check(n_bins == 1, "{} bins of {} pre-bins", n_bins, npre)
        return
    for s, p in enumerate(pools):
        check(all(e and n for e, n in p), "scenario {}: pure bin in {}", s, p)
        w = scenario_bins_ok(p, o, len(X[s]), False)
        check(w is None, "scenario {} bins {} violate {}", s, p, w)
    rates = [[e / (e + n) for e, n in p] for p in pools]
    check(joint_trend(o["monotonic_trend"], rates, False),
          "rates {} violate {}", rates, o["monotonic_trend"])
    if "user_splits" in o:
        us = list(o["user_splits"])
        check(set(splits) <= set(us), "splits {} not in {}", splits, us)
        for u, f in zip(us, o.get("user_splits_fixed") or []):
            check(not f or u in splits, "fixed split {} not in {}", u, splits)


SUBS = [
    Sub("exact", cases, run, 3500, rule="pre-bins of one to four scenarios"),
    Sub("data", data_cases, run_data, 2500, rule="arbitrary scenarios"),
]
