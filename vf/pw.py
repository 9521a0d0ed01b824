"""Shared by P17 and P18: piecewise binning."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Skip, check, check_close, observing
from props import p02, p03

OPT = ("prebinning_method", "max_n_prebins", "min_prebin_size", "min_n_bins",
       "max_n_bins", "min_bin_size", "max_bin_size", "monotonic_trend",
       "max_pvalue", "max_pvalue_policy", "user_splits", "user_splits_fixed",
       "split_digits")
REG = ("objective", "degree", "continuous", "continuous_deriv", "solver",
       "h_epsilon", "quantile", "regularization", "reg_l1", "reg_l2")


@st.composite
def feature(draw, n):
    """Moderate scale, many distinct values: well-posed regressions."""
    k = draw(st.sampled_from((64, 40, 24, 12)))
    step = draw(st.sampled_from((0.125, 0.25, 0.1)))
    off = draw(st.sampled_from((0.0, -3.0, 2.0)))
    lv = [round(off + i * step, 4) for i in range(k)]
    idx = draw(gen.column_index(n, k))
    prof = draw(gen.level_profile(k))[1]
    spec = draw(gen.special_spec())
    return lv, idx, prof, spec


@st.composite
def cases(draw, continuous):
    n = draw(gen.sizes(40, 160))
    lv, idx, prof, spec = draw(feature(n))
    yb = gen.rbytes(draw, n)
    if continuous:
        noise = draw(st.sampled_from((0, 8, 64)))
        yk = draw(st.sampled_from(("int", "mixed", "real", "zeros", "neg")))
        y = []
        for i in range(n):
            v = prof[idx[i]] + (yb[i] - 128) * noise / 128.0
            y.append(float({"int": lambda: round(v / 8),
                            "mixed": lambda: round(v - 128, 3),
                            "real": lambda: v / 7.0,
                            "neg": lambda: -v / 16.0,
                            "zeros": lambda: 0 if yb[i] % 3 == 0 else
                            round(v / 16)}[yk]()))
    else:
        y = [1 if yb[i] < prof[idx[i]] else 0 for i in range(n)]
    x = draw(gen.contaminate([lv[i] for i in idx], spec))
    x[0], x[1], x[-1] = lv[idx[0]], lv[0], lv[-1]
    if not continuous:
        y[0], y[-1] = 0, 1
    case = dict(x=x, y=y, cat=False, special=draw(gen.nan_code(spec)))
    trend = draw(st.sampled_from(("auto", "auto", None, "ascending",
                                  "descending", "peak", "valley", "concave",
                                  "convex")))
    o = dict(objective=draw(st.sampled_from(("l2", "l2", "l2", "l1", "huber",
                                             "quantile"))),
             degree=draw(st.sampled_from((1, 1, 1, 0, 2, 3))),
             monotonic_trend=trend,
             prebinning_method=draw(st.sampled_from(("cart", "cart",
                                                     "quantile", "uniform"))),
             max_n_prebins=draw(st.integers(2, 10)),
             min_prebin_size=draw(st.sampled_from((0.05, 0.1, 0.25))))
    if trend in ("concave", "convex"):
        o["degree"] = min(1, o["degree"])
    if draw(st.integers(0, 3)) == 0:
        o["continuous"] = False
        if trend in ("peak", "valley", "concave", "convex"):
            o["monotonic_trend"] = None
    if draw(st.integers(0, 4)) == 0:
        o["continuous_deriv"] = False
    if draw(st.integers(0, 4)) == 0:
        o["regularization"] = draw(st.sampled_from(("l1", "l2")))
        o["reg_l1"] = draw(st.sampled_from((0.1, 1.0)))
        o["reg_l2"] = draw(st.sampled_from((0.1, 1.0)))
    if o["objective"] == "quantile":
        o["quantile"] = draw(st.sampled_from((0.25, 0.5, 0.9)))
    if o["objective"] == "huber":
        o["h_epsilon"] = draw(st.sampled_from((1.0, 1.35, 3.0)))
    if draw(st.integers(0, 5)) == 0:
        o["solver"] = draw(st.sampled_from(("ecos", "osqp", "direct", "scs",
                                            "highs")))
    names = draw(st.lists(st.sampled_from((
        "max_n_bins", "max_n_bins", "min_bin_size", "max_bin_size", "pvalue",
        "user_splits", "split_digits", "outlier", "subsamples")), max_size=2,
        unique=True))
    if "max_n_bins" in names:
        o["max_n_bins"] = draw(st.integers(1, 4))
    if "min_bin_size" in names:
        o["min_bin_size"] = draw(st.sampled_from((0.1, 0.25)))
    if "max_bin_size" in names:
        o["max_bin_size"] = draw(st.sampled_from((0.3, 0.5, 0.75)))
    if "pvalue" in names:
        o["max_pvalue"] = draw(st.sampled_from((0.05, 0.2)))
        o["max_pvalue_policy"] = draw(st.sampled_from(("all",
                                                       "consecutive")))
    if "user_splits" in names:
        o["user_splits"] = sorted(draw(st.lists(
            st.sampled_from([(a + b) / 2 for a, b in zip(lv, lv[1:])]),
            min_size=1, max_size=4, unique=True)))
        if draw(st.booleans()):
            o["user_splits_fixed"] = [draw(st.booleans())
                                      for _ in o["user_splits"]]
    elif "split_digits" in names:
        o["split_digits"] = draw(st.integers(0, 3))
    if "outlier" in names:
        o["outlier_detector"] = draw(st.sampled_from(("range", "zscore")))
        o["outlier_params"] = {
            "range": dict(interval_length=0.8, k=0.5, method="ETI"),
            "zscore": dict(threshold=1.5)}[o["outlier_detector"]]
    elif "subsamples" in names:
        o["n_subsamples"] = draw(st.sampled_from((n // 2, n, n + 5)))
        o["random_state"] = 3
    case["opt"] = o
    if continuous:
        case["lb"] = draw(st.sampled_from((None, None, 0.0, 2.0)))
        case["ub"] = draw(st.sampled_from((None, None, 10.0, 25.0)))
    else:
        case["lb"] = draw(st.sampled_from((None, 0.001, 0.05)))
        case["ub"] = draw(st.sampled_from((None, 0.999, 0.9)))
    if isinstance(spec, list):
        case["special_array"] = draw(st.booleans())
    case["tr"] = draw(p03.transform_opts(case))
    case["query"] = draw(gen.query_spec())
    case["digits"] = draw(st.integers(0, 6))
    case["estimator"] = draw(st.sampled_from((None, None, "tree")))
    case["test"] = draw(st.sampled_from(("chi2", "fisher")))
    return case


def special(case):
    s = gen.special_arg(case["special"])
    if case.get("special_array"):
        return np.array(s)
    return s


def options(case):
    o = dict(case["opt"])
    for k in ("user_splits", "user_splits_fixed"):
        if k in o:
            o[k] = list(o[k])
    if "outlier_params" in o:
        o["outlier_params"] = dict(o["outlier_params"])
    return o


def score(xc, yc, splits, binary):
    """The objective of the underlying plain binning."""
    idx = np.digitize(xc, splits)
    tot = 0.0
    for i in range(len(splits) + 1):
        z = yc[idx == i]
        if not len(z):
            return None
        if binary:
            e, n = int(z.sum()), int(len(z) - z.sum())
            tot += ref.iv_term(n, e, len(yc) - int(yc.sum()), int(yc.sum()))
        else:
            tot += abs(float(z.mean()) - float(yc.mean()))
    return tot


def reference(case, xc, yc, pred, splits):
    """Coefficients by the documented two-step procedure: the splits of a
    plain binning (equally good ones are accepted) and a robust
    regression."""
    from optbinning import ContinuousOptimalBinning, OptimalBinning
    from ropwr import RobustPWRegression
    o = case["opt"]
    kw = {k: v for k, v in options(case).items() if k in OPT}
    if kw["monotonic_trend"] in ("concave", "convex"):
        kw["monotonic_trend"] = "auto"
    cls = OptimalBinning if pred is not None else ContinuousOptimalBinning
    ob = cls(name="v", dtype="numerical", **kw)
    try:
        ob.fit(xc, yc)
    except ValueError as e:
        if "produce pure prebins" in str(e):
            raise Skip("fixed split leaves a pure pre-bin")
        raise
    plain = np.asarray(ob.splits, dtype=float)
    if splits is None:
        splits = plain
    elif plain.tolist() != splits.tolist():
        if ob.status != "OPTIMAL":
            raise Skip("plain binning not solved to optimality")
        a = score(xc, yc, splits, pred is not None)
        b = score(xc, yc, plain, pred is not None)
        check(a is not None and b is not None and
              abs(a - b) <= 2e-5 * max(1.0, abs(b)),
              "splits {} (objective {}), a plain binning gives {} ({})",
              splits.tolist(), a, plain.tolist(), b)
    trend = o["monotonic_trend"]
    if trend == "auto":
        from optbinning.binning.auto_monotonic import \
            type_of_monotonic_trend
        idx = np.digitize(xc, splits)
        m = np.array([yc[idx == i].mean() for i in range(len(splits) + 1)])
        trend = type_of_monotonic_trend(m)
        trend = next((t for t in ("peak", "valley") if t in trend), trend)
        if trend in ("undefined", "no monotonic"):
            trend = None
    reg = RobustPWRegression(monotonic_trend=trend, extrapolation="continue",
                             **{k: o[k] for k in REG if k in o})
    try:
        reg.fit(xc, yc if pred is None else pred, splits, lb=case["lb"],
                ub=case["ub"])
    except Exception as e:          # the external solver refuses
        raise Skip("regression: {}".format(type(e).__name__))
    if reg.coef_ is None or not np.all(np.isfinite(
            np.asarray(reg.coef_, dtype=float))):
        raise Skip("regression without solution")
    if "n_subsamples" in o and o["n_subsamples"] < len(xc):
        return None
    return np.asarray(reg.coef_, dtype=float)


def fit(case, ob, X, Y, xc, yc, pred):
    try:
        ob.fit(X, Y, lb=case["lb"], ub=case["ub"])
    except Exception as e:
        # the external regression may refuse the problem: then it has to
        # refuse the reference problem, too (unless it saw a subsample)
        tb, inside = e.__traceback__, "produce pure prebins" in str(e)
        while tb is not None:
            inside |= "ropwr" in tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        if inside:
            if "n_subsamples" in case["opt"]:
                raise Skip("regression of a subsample")
            reference(case, xc, yc, pred, None)
        raise
    return ob


def value(c, v):
    """Polynomial and the magnitude that bounds its rounding error."""
    t = [ck * v ** k for k, ck in enumerate(c)]
    return math.fsum(t), math.fsum(map(abs, t))


def well_posed(xc, splits, degree):
    """Every bin has more distinct values than coefficients."""
    idx = np.digitize(xc, splits)
    return all(len(set(xc[idx == i].tolist())) >= degree + 2
               for i in range(len(splits) + 1))


def coefficients(df, n_bins, degree):
    cols = ["c%d" % i for i in range(degree + 1)]
    check([c for c in df.columns if c[0] == "c" and c[1:].isdigit()] == cols,
          "columns {}", list(df.columns))
    return np.array([[float(v) for v in df[c].values[:n_bins]]
                     for c in cols]).T


def loss(o, c, xc, t, idx):
    e = [abs(z - value(c[i], v)[0]) for v, z, i in zip(xc, t, idx)]
    d = [z - value(c[i], v)[0] for v, z, i in zip(xc, t, idx)]
    if o["objective"] == "l2":
        return math.sqrt(math.fsum(v * v for v in e) / len(e))
    if o["objective"] == "l1":
        return math.fsum(e) / len(e)
    if o["objective"] == "quantile":
        q = o["quantile"]
        return math.fsum(max(q * v, (q - 1) * v) for v in d) / len(e)
    return None


def check_coef(case, c, want, xc, target, splits):
    """The same function on the training values (coefficients may be
    ill-determined, and the iterative solvers are only accurate to some
    digits and not deterministic), or an equally good one."""
    check(c.shape == want.shape, "coefficients of shape {}, expected {}",
          c.shape, want.shape)
    o = case["opt"]
    idx = np.digitize(xc, splits)
    rng = max(float(np.max(target) - np.min(target)),
              1e-3 * float(np.max(np.abs(target))), 1e-3)
    worst = None
    for v, i in zip(xc, idx):
        a, m = value(c[i], v)
        b, _ = value(want[i], v)
        d = abs(a - b) - 1e-6 * m - 2e-3 * rng
        if d > 0 and (worst is None or d > worst[0]):
            worst = d, "prediction at {!r}: {}, the documented procedure " \
                "gives {}".format(float(v), a, b)
    if worst is None or o.get("regularization"):
        return
    a, b = loss(o, c, xc, target, idx), loss(o, want, xc, target, idx)
    if a is None:
        return
    check(abs(a - b) <= 1e-3 * max(a, b) + 1e-4 * rng, "{} (loss {} and {})",
          worst[1], a, b)


def semantics(case, c, splits, xc, scale):
    """Continuity, trend and bounds of the fitted function (degree <= 1)."""
    o = case["opt"]
    if o["degree"] > 1 or o.get("n_subsamples") or o.get("regularization"):
        return False
    if o.get("solver") == "scs" or not well_posed(xc, splits, 1):
        return False
    tol = 2e-3 * scale
    if o.get("continuous", True) and o["degree"] == 1:
        for i, s in enumerate(splits):
            a, b = value(c[i], s)[0], value(c[i + 1], s)[0]
            check(abs(a - b) <= tol, "jump at split {}: {} to {}", s, a, b)
    pts = sorted(set(xc.tolist()) | set(splits.tolist()))
    p = [value(c[i], v)[0] for v, i in zip(pts, np.digitize(pts, splits))]
    for nm, s in (("lb", 1), ("ub", -1)):
        if case[nm] is not None and o["monotonic_trend"] in (
                None, "ascending", "descending"):
            bad = [v for v, q in zip(xc, [
                value(c[i], v)[0] for v, i in
                zip(xc, np.digitize(xc, splits))]) if
                s * (q - case[nm]) < -tol]
            check(not bad, "{}={} violated at training values {}", nm,
                  case[nm], bad[:3])
    t = o["monotonic_trend"]
    if not (o.get("continuous", True) or o["degree"] == 0):
        return True
    d = np.diff(p)
    if t == "ascending":
        check(d.min(initial=0) >= -tol, "not ascending: {}", p)
    elif t == "descending":
        check(d.max(initial=0) <= tol, "not descending: {}", p)
    elif t in ("peak", "valley"):
        s = 1 if t == "peak" else -1
        q = s * np.array(p)
        k = int(np.argmax(q))
        up, down = np.maximum.accumulate(q[:k + 1]), np.minimum.accumulate(
            q[k:])
        check((up - q[:k + 1]).max() <= 2 * tol and
              (q[k:] - down).max() <= 2 * tol, "no {}: {}", t, p)
    elif t in ("convex", "concave") and o["degree"] == 1:
        s = 1 if t == "convex" else -1
        sl = s * c[:, 1]
        check(np.diff(sl).min(initial=0) >= -tol, "not {}: slopes {}", t,
              c[:, 1].tolist())
    return True


def groups(case):
    """Names and values of the special rows."""
    s = case["special"]
    if isinstance(s, dict):
        return [(k, set(v) if isinstance(v, list) else {v})
                for k, v in s.items()]
    return [("Special", set(s or []))]


def row_of(v, splits, sg):
    if ref.is_missing(v):
        return len(splits) + 1 + len(sg)
    for i, (_, g) in enumerate(sg):
        if v in g:
            return len(splits) + 1 + i
    return int(np.digitize(v, splits)) if len(splits) else 0


def clean(case):
    """Indices of clean, not outlying records."""
    from props import p01
    out = p01.outlier_set(case)
    sv = set(gen.special_values(case["special"]))
    idx = [i for i, v in enumerate(case["x"])
           if v is not None and v not in sv and i not in out]
    return idx, out


def labels(df, splits, digits, sg):
    want = ref.num_labels([float(s) for s in splits], digits) + \
        [k for k, _ in sg] + ["Missing"]
    check([str(v) for v in df["Bin"].values[:len(want)]] == want,
          "labels {}, expected {}", list(df["Bin"].values), want)


def report(fn, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn(**kw)
    return buf.getvalue()


def queries(case, splits):
    q = [v for v in gen.expand_query(case["query"], case, list(splits))
         if v is None or abs(v) < 1e9]
    return q, p03.container(q, case, case["tr"]["container"])


__all__ = ["p02", "observing"]
