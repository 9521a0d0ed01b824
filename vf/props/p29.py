"""P29: outlier detectors against exact rational arithmetic."""
import math
import warnings
from fractions import Fraction as F

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
from core import Skip, Sub, check, check_close, observing

RULE = ("A case is a sample (ties, constants, dyadic and decimal grids, heavy "
        "tails) in several containers with the parameters of a detector; the "
        "flags are compared with the rule computed in rational arithmetic, "
        "with the flags of the permuted sample, with the index form and with "
        "a second fit after a fit to other data. Sub-check use: detectors "
        "inside the binnings. Non-trivial: some values are flagged and some "
        "are not.")
ASSUMPTIONS = ["a value within rounding of a bound is not judged unless all "
               "numbers involved are dyadic",
               "the highest-density interval is a shortest one between the "
               "j-th and the (j + ceil(L n))-th order statistic, any of them "
               "in case of ties",
               "zero median deviation: the score of values different from "
               "the median is infinite",
               "quantile bins are those of numpy.quantile"]


@st.composite
def samples(draw, lo=1, hi=60, kinds=("int", "int", "dyadic", "dec", "tail",
                                      "const", "big", "two")):
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(kinds))
    b = gen.rbytes(draw, n)
    if kind == "int":
        k = draw(st.sampled_from((3, 7, 20, 200)))
        v = [float(q % k) for q in b]
    elif kind == "dyadic":
        v = [(q - 128) / 8 for q in b]
    elif kind == "dec":
        v = [round(0.1 * (q % 40 - 20), 1) for q in b]
    elif kind == "tail":
        v = [math.copysign(2.0 ** (abs(q - 128) / 8), q - 128) for q in b]
    elif kind == "const":
        v = [0.1 if b[0] % 2 else 3.0] * n
        if n > 3 and b[1] % 2:
            v[b[1] % n] = 7.5
    elif kind == "two":
        v = [1.0 if q < 200 else 9.0 for q in b]
    else:
        v = [1e8 + 1e3 * q for q in b]
    return v


@st.composite
def range_params(draw):
    return dict(
        interval_length=draw(st.sampled_from(
            (0.5, 0.5, 0.25, 0.75, 1, 0, 0.9, 0.95, 0.3, 0.125))),
        k=draw(st.sampled_from((1.5, 1.5, 0, 0.5, 3, 1.1, 0.25))),
        method=draw(st.sampled_from(("ETI", "HDI"))))


@st.composite
def z_params(draw):
    return dict(threshold=draw(st.sampled_from((3.5, 3.5, 0, 1, 0.6745, 2,
                                                10))))


def container(xs, how):
    if how == "list":
        return list(xs)
    if how == "series":
        return pd.Series(xs, index=[7 * i % 1009 + 1 for i in range(len(xs))]
                         [::-1])
    if how == "int" and all(float(v).is_integer() for v in xs):
        return np.array(xs).astype(np.int64)
    return np.array(xs, dtype=float)


HOW = st.sampled_from(("array", "array", "list", "series", "int"))


@st.composite
def case_range(draw):
    return dict(kind="range", x=draw(samples()), p=draw(range_params()),
                how=draw(HOW), perm=draw(st.integers(1, 10 ** 6)),
                other=draw(samples(hi=9)), default=draw(st.integers(0, 5)))


@st.composite
def case_z(draw):
    return dict(kind="zscore", x=draw(samples()), p=draw(z_params()),
                how=draw(HOW), perm=draw(st.integers(1, 10 ** 6)),
                other=draw(samples(hi=9)), default=draw(st.integers(0, 5)))


@st.composite
def case_y(draw):
    x = draw(samples())
    b = gen.rbytes(draw, len(x))
    inner = draw(st.sampled_from(("range", "zscore")))
    return dict(kind="yquantile", x=x, y=[(q - 100) / 4 for q in b],
                inner=inner, p=draw(range_params() if inner == "range" else
                                    z_params()),
                n_bins=draw(st.sampled_from((5, 1, 2, 3, 8))), how=draw(HOW),
                perm=draw(st.integers(1, 10 ** 6)),
                other=draw(samples(hi=9)), default=draw(st.integers(0, 5)))


# ---- the rules: lists of admissible (must, may) flag sets -------------------

def dyadic(*vals):
    return all(F(v).denominator <= 1024 and abs(v) < 2 ** 22 for v in vals)


def quantile(s, q):
    """Linear interpolation of the order statistics, q a Fraction."""
    pos = (len(s) - 1) * q
    i = int(pos)
    if i + 1 >= len(s):
        return s[-1]
    return s[i] + (s[i + 1] - s[i]) * (pos - i)


def judge_bounds(x, lo, hi, exact):
    tol = 0 if exact else F(1, 10 ** 9) * max(abs(lo), abs(hi), 1)
    must = {i for i, v in enumerate(x) if v < lo - tol or v > hi + tol}
    may = {i for i, v in enumerate(x) if v < lo + tol or v > hi - tol}
    if exact:
        may = must
    return must, may


def rule_range(xs, p):
    x = [F(v) for v in xs]
    s = sorted(x)
    n = len(s)
    L, k = p["interval_length"], F(p["k"])
    exact = dyadic(L, p["k"], *xs)
    if p["method"] == "ETI":
        q = (1 - F(L)) / 2
        ivs = [(quantile(s, q), quantile(s, 1 - q))]
    else:
        ms = {min(n - 1, math.ceil(L * n)),
              min(n - 1, math.ceil(F(str(L)) * n))}
        ivs = []
        for m in ms:
            w = [s[j + m] - s[j] for j in range(n - m)]
            best = min(w)
            slack = 0 if exact else F(1, 10 ** 12) * max(abs(v) for v in s)
            ivs += [(s[j], s[j + m]) for j in range(n - m)
                    if w[j] <= best + slack]
    out = []
    for lo, hi in ivs:
        d = k * (hi - lo)
        out.append(judge_bounds(x, lo - d, hi + d, exact or lo == hi))
    return out


def rule_z(xs, p):
    x = [F(v) for v in xs]
    s = sorted(x)
    med = (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2
    d = [abs(v - med) for v in x]
    ds = sorted(d)
    mad = (ds[(len(ds) - 1) // 2] + ds[len(ds) // 2]) / 2
    scale = max(abs(v) for v in x)
    if mad == 0:
        if not dyadic(*xs) and any(0 < v < scale / 10 ** 9 for v in d):
            raise Skip("deviations within rounding")
        f = {i for i, v in enumerate(d) if v > 0}
        return [(f, f)]
    if mad < scale / 10 ** 9:
        raise Skip("deviations within rounding")
    t = F(p["threshold"])
    z = [F(6745, 10000) * v / mad for v in d]
    eps = F(1, 10 ** 9) * max(t, 1)
    must = {i for i, v in enumerate(z) if v > t + eps}
    may = {i for i, v in enumerate(z) if v > t - eps}
    if t == 0:
        must = may = {i for i, v in enumerate(d) if v > 0}
        if not dyadic(*xs):
            may = may | {i for i, v in enumerate(d) if v <= scale / 10 ** 9}
            must = {i for i in must if d[i] > scale / 10 ** 9}
    return [(must, may)]


def rule(kind, xs, p):
    return rule_range(xs, p) if kind == "range" else rule_z(xs, p)


def agree(flags, rules):
    return any(must <= flags <= may for must, may in rules)


def make(case):
    from optbinning.binning.outlier import (
        ModifiedZScoreDetector, RangeDetector, YQuantileDetector)
    d = case["default"] == 0
    if case["kind"] == "range":
        if d:
            case["p"] = dict(interval_length=0.5, k=1.5, method="ETI")
            return RangeDetector()
        return RangeDetector(**case["p"])
    if case["kind"] == "zscore":
        if d:
            case["p"] = dict(threshold=3.5)
            return ModifiedZScoreDetector()
        return ModifiedZScoreDetector(**case["p"])
    if d:
        case["inner"], case["n_bins"] = "zscore", 5
        case["p"] = dict(threshold=3.5)
        return YQuantileDetector()
    return YQuantileDetector(outlier_detector=case["inner"],
                             outlier_params=dict(case["p"]),
                             n_bins=case["n_bins"])


def flags_of(det, n):
    mask, idx = det.get_support(), det.get_support(indices=True)
    with observing("get_support"):
        m = np.asarray(mask)
        check(m.shape == (n,) and m.dtype == bool, "mask {!r}", mask)
        check([int(i) for i in idx] == [int(i) for i in np.flatnonzero(m)],
              "indices {} and mask {} differ", idx, m)
        return {int(i) for i in np.flatnonzero(m)}


def fit(det, x, y=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = det.fit(x) if y is None else det.fit(x, y)
    check(r is det, "fit returned {!r}", r)


def one(case, det, xs):
    fit(det, container(xs, case["how"]))
    return flags_of(det, len(xs))


def order(case, n):
    return [int(i) for i in np.random.RandomState(case["perm"]).permutation(n)]


def run(case, rec):
    case = dict(case)
    det = make(case)
    xs = case["x"]
    flags = one(case, det, xs)
    rules = rule(case["kind"], xs, case["p"])
    check(agree(flags, rules), "flagged {} of {}, expected {} ({})",
          lambda: sorted(xs[i] for i in flags), xs,
          lambda: sorted(xs[i] for i in rules[0][0]), case["p"])
    one(case, det, case["other"])
    perm = order(case, len(xs))
    g = one(case, det, [xs[i] for i in perm])
    check({perm[i] for i in g} == flags, "flags depend on the order or on "
          "an earlier fit: {} and {}", flags, g)
    same = {}
    for i, v in enumerate(xs):
        check(same.setdefault(v, i in flags) == (i in flags), "equal values "
              "{} flagged differently", v)
    rec.label(case["p"].get("method", "z"), case["how"])
    rec.nontrivial(0 < len(flags) < len(xs))


def run_y(case, rec):
    case = dict(case)
    det = make(case)
    xs, ys = case["x"], case["y"]
    n = len(xs)
    how = case["how"] if case["how"] != "int" else "array"

    def go(a, b):
        fit(det, container(a, how), container(b, how))
        return flags_of(det, len(a))
    flags = go(xs, ys)
    q = np.quantile(np.array(xs, dtype=float),
                    np.linspace(0, 1, case["n_bins"] + 1))
    splits = np.unique(q)[1:-1]
    groups = {}
    for i, v in enumerate(xs):
        groups.setdefault(int((splits <= v).sum()), []).append(i)
    for b, idx in sorted(groups.items()):
        sub = [ys[i] for i in idx]
        rules = rule(case["inner"], sub, case["p"])
        got = {k for k, i in enumerate(idx) if i in flags}
        check(agree(got, rules), "bin {}: flagged {} of {}, expected {}", b,
              lambda: sorted(sub[k] for k in got), sub,
              lambda: sorted(sub[k] for k in rules[0][0]))
    go(case["other"], case["other"])
    perm = order(case, n)
    g = go([xs[i] for i in perm], [ys[i] for i in perm])
    check({perm[i] for i in g} == flags, "flags depend on the order or on "
          "an earlier fit: {} and {}", flags, g)
    rec.label(case["inner"], "bins=%d" % len(groups), how)
    rec.nontrivial(0 < len(flags) < n)


# ---- detectors inside the binnings ------------------------------------------

@st.composite
def case_use(draw):
    n = draw(st.integers(40, 90))
    b, c = gen.rbytes(draw, n), gen.rbytes(draw, n)
    x = [float(v % 32) for v in b]
    for k in range(draw(st.integers(0, 3))):
        x[(7 * k + b[0]) % n] = draw(st.sampled_from((90.0, -60.0, 400.0)))
    y = [(v % 50) / 2 + xi / 4 for v, xi in zip(c, x)]
    for k in range(draw(st.integers(0, 3))):
        y[(5 * k + b[1]) % n] = draw(st.sampled_from((500.0, -300.0)))
    inner = draw(st.sampled_from(("range", "zscore")))
    p = draw(range_params() if inner == "range" else z_params())
    p.pop("interval_length", None)
    if p.get("k", 1) == 0 or p.get("threshold", 1) < 1:
        p = {}
    cls = draw(st.sampled_from(("pw", "pw", "bin", "cont", "multi")))
    return dict(x=x, y=y, cls=cls, inner=inner, p=p,
                yq=cls == "pw" and draw(st.booleans()),
                n_bins=draw(st.sampled_from((2, 3, 5))),
                n_missing=draw(st.integers(0, 4)),
                w=draw(st.booleans()))


def run_use(case, rec):
    from optbinning import (ContinuousOptimalBinning,
                            ContinuousOptimalPWBinning,
                            MulticlassOptimalBinning, OptimalBinning)
    xs, ys, cls = case["x"], case["y"], case["cls"]
    n = len(xs)
    det = dict(outlier_detector=case["inner"],
               outlier_params=dict(case["p"]) or None)
    default = (dict(interval_length=0.5, k=1.5, method="ETI")
               if case["inner"] == "range" else dict(threshold=3.5))
    p = {**default, **case["p"]}
    miss = list(range(case["n_missing"]))
    keep = [i for i in range(n) if i not in miss]
    xc = [xs[i] for i in keep]
    if case["yq"]:
        det = dict(outlier_detector="yquantile", outlier_params=dict(
            outlier_detector=case["inner"], outlier_params=dict(p),
            n_bins=case["n_bins"]))
        yc = [ys[i] for i in keep]
        q = np.quantile(np.array(xc), np.linspace(0, 1, case["n_bins"] + 1))
        splits = np.unique(q)[1:-1]
        groups = {}
        for i, v in zip(keep, xc):
            groups.setdefault(int((splits <= v).sum()), []).append(i)
        must, may = set(), set()
        for idx in groups.values():
            rules = rule(case["inner"], [ys[i] for i in idx], p)
            if len({(frozenset(a), frozenset(b)) for a, b in rules}) > 1:
                raise Skip("several shortest intervals")
            a, b = rules[0]
            must |= {idx[k] for k in a}
            may |= {idx[k] for k in b}
    else:
        rules = rule(case["inner"], xc, p)
        if len({(frozenset(a), frozenset(b)) for a, b in rules}) > 1:
            raise Skip("several shortest intervals")
        must, may = ({keep[k] for k in a} for a in rules[0])
    if must != may:
        raise Skip("bound within rounding of a value")
    X = np.array([np.nan if i in miss else xs[i] for i in range(n)])
    Y = np.array(ys)
    w = None
    kw = {}
    if cls == "bin":
        t = sorted(ys)[n // 2]
        Y = (Y > t).astype(int)
        if case["w"]:
            w = [1 + i % 3 for i in range(n)]
            kw["sample_weight"] = np.array(w)
        ob = OptimalBinning(**det)
    elif cls == "multi":
        Y = np.array([i % 3 for i in range(n)])
        ob = MulticlassOptimalBinning(**det)
    elif cls == "cont":
        ob = ContinuousOptimalBinning(**det)
    else:
        ob = ContinuousOptimalPWBinning(**det)
    left = [i for i in keep if i not in must]
    if len(left) < 5 or (cls in ("bin", "multi") and
                         len(set(Y[left])) < (2 if cls == "bin" else 3)):
        raise Skip("too little is left")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ob.fit(X, Y, **kw)
        except np.linalg.LinAlgError:
            raise Skip("singular piecewise regression")
        except ValueError as e:
            if "produce pure prebins" in str(e):
                raise Skip("pure prebins")
            raise
    t = ob.binning_table.build(show_digits=6)
    with observing("table"):
        sp = [float(s) for s in ob.splits]
        rows = [0] * (len(sp) + 3)
        for i in range(n):
            if i in must:
                continue
            r = len(sp) + 2 if i in miss else sum(s <= xs[i] for s in sp)
            rows[r] += w[i] if w else 1
        got = [int(v) for v in t["Count"]]
        check(got[:-1] == rows, "counts {} of a table without {} outliers, "
              "expected {}", got, len(must), rows)
        check(got[-1] == sum(rows), "total {} for {} records without "
              "outliers", got[-1], sum(rows))
    rec.label(cls, "yquantile" if case["yq"] else case["inner"])
    rec.nontrivial(bool(must))


SUBS = [
    Sub("range", case_range, run, 3000, rule="interval rule"),
    Sub("zscore", case_z, run, 2500, rule="modified z-score"),
    Sub("yquantile", case_y, run_y, 2500, rule="targets in quantile bins"),
    Sub("use", case_use, run_use, 900, rule="outliers in binnings"),
]
