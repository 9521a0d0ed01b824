"""Scorecards: generated cases and the expected table and scores."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

import frames
import gen
import ref
from core import Skip, check, check_close
from props import p22

COLUMN = {"woe": "WoE", "event_rate": "Event rate", "mean": "Mean"}
EST = {"binary": ("logistic", "logistic", "logistic_c", "no_intercept",
                  "strong"),
       "continuous": ("linear", "ridge", "huber", "no_intercept", "lasso")}


@st.composite
def score_opts(draw, tgt, rounding=True):
    s = draw(st.sampled_from((None, "pdo_odds", "min_max", "min_max")
                             if tgt == "binary" else
                             (None, "min_max", "min_max")))
    o = dict(scaling_method=s,
             intercept_based=draw(st.integers(0, 2)) == 0,
             reverse_scorecard=draw(st.booleans()))
    o["rounding"] = bool(rounding and s and draw(st.integers(0, 2)) == 0)
    if s == "pdo_odds":
        o["scaling_method_params"] = dict(
            pdo=draw(st.sampled_from((20, 50.5, 1, 100))),
            odds=draw(st.sampled_from((1, 2.5, 50, 0.1))),
            scorecard_points=draw(st.sampled_from((600, 10.5, 1000))))
    elif s == "min_max":
        a = draw(st.sampled_from((0, 300, -100, 1)))
        b = a + draw(st.sampled_from((1, 10, 100, 550)))
        if not o["rounding"] and draw(st.booleans()):
            a, b = a + 0.12, b + 0.66
        o["scaling_method_params"] = dict(min=a, max=b)
    return o


@st.composite
def cases(draw, tgt, m_hi=4, rounding=True, params=True, m_lo=1):
    fr = draw(frames.frame(tgt, m_lo=m_lo, m_hi=m_hi, n_lo=40, n_hi=160,
                           strong=draw(st.booleans())))
    o = draw(frames.process_opts(fr))
    fp = {}
    for j, v in enumerate(fr["names"]):
        p = draw(p22.fit_params(fr, j))
        if tgt == "binary":
            p["solver"] = "mip"
        if fr["kinds"][j] in ("cat", "catnum") and \
                draw(st.integers(0, 3)) == 0:
            p["cat_unknown"] = draw(st.sampled_from((0.5, 2)))
        if p:
            fp[v] = p
    tp = None
    if params and draw(st.integers(0, 2)) == 0:
        tp = draw(frames.transform_params(
            fr, ["woe", "event_rate"] if tgt == "binary" else ["mean"], p=1))
    w = None
    if tgt == "binary" and draw(st.integers(0, 3)) == 0:
        w = [1 + b % 3 for b in gen.rbytes(draw, fr["n"])]
    top = draw(st.sampled_from((None, None, 1, 2)))
    if top:
        o["selection_criteria"] = {
            "iv" if tgt == "binary" else "woe":
            {"strategy": "highest", "top": top}}
    call = {}
    for k in ("metric_special", "metric_missing"):
        if draw(st.booleans()):
            call[k] = draw(st.sampled_from(("empirical", "empirical", 0, 1.5,
                                            -2)))
    if draw(st.integers(0, 3)) == 0:
        call["show_digits"] = draw(st.integers(0, 5))
    m = draw(st.integers(3, 25))
    return dict(fr=fr, opt=o, fit=fp, tp=tp, w=w, call=call,
                est=draw(st.sampled_from(EST[tgt])),
                sc=draw(score_opts(tgt, rounding)),
                before=draw(st.one_of(st.none(), st.none(), score_opts(
                    tgt, rounding))),
                perm=draw(st.permutations(range(len(fr["names"])))),
                extra=draw(st.booleans()), index=draw(st.booleans()),
                ndarray=False, array_codes=draw(st.booleans()),
                query=[gen.rbytes(draw, 2 * len(fr["names"]))
                       for _ in range(m)])


def estimator(case):
    from sklearn.linear_model import (HuberRegressor, Lasso,
                                      LinearRegression,
                                      LogisticRegression, Ridge)
    e = case["est"]
    if case["fr"]["target"] == "binary":
        return {"logistic": LogisticRegression(),
                "logistic_c": LogisticRegression(C=0.05),
                "strong": LogisticRegression(C=50.0),
                "no_intercept": LogisticRegression(fit_intercept=False),
                }[e]
    return {"linear": LinearRegression(), "ridge": Ridge(alpha=2.0),
            "huber": HuberRegressor(max_iter=500),
            "no_intercept": LinearRegression(fit_intercept=False),
            "lasso": Lasso(alpha=1.0)}[e]


def codes_of(case, j):
    """Special codes of a variable as generated."""
    return case["fr"]["own"][j] or case["fr"]["special"]


def frame_of(case, rows=None):
    fr = case["fr"]
    n = fr["n"]
    idx = [7 * i + 3 for i in range(n)] if case["index"] else None
    return frames.dataframe(fr, rows, index=idx, order=case["perm"],
                            extra=case["extra"])


def query_frame(case, splits):
    """Rows of training values, missing, special, new and split values."""
    import pandas as pd
    fr = case["fr"]
    cols = []
    for j, v in enumerate(fr["names"]):
        sub = dict(x=fr["cols"][j], special=codes_of(case, j), cat=False)
        cat = fr["kinds"][j] in ("cat", "catnum")
        pairs = [q[2 * j:2 * j + 2] for q in case["query"]]
        sp = [] if cat else splits.get(v, [])
        if fr["kinds"][j] == "catnum":
            spec = gen.special_values(sub["special"])
            cl = sorted({c for c in sub["x"]
                         if c is not None and c not in spec})
            c = [[None, 999.0, -3.5][b % 3] if a % 6 == 0 else
                 (spec[b % len(spec)] if a % 6 == 1 and spec else
                  cl[b % len(cl)]) for a, b in pairs]
        else:
            c = gen.expand_query(pairs, sub, sp, fr["kinds"][j] == "cat")
        cols.append(c)
    order = case["perm"]
    df = pd.DataFrame({fr["names"][j]: gen.xarray(
        cols[j], fr["kinds"][j] == "cat") for j in order})
    if case["extra"]:
        df["zz extra"] = 1.0
    if case["index"]:
        df.index = [11 * i + 5 for i in range(len(df))]
    return df, cols


def make(case, **kw):
    from optbinning import Scorecard
    o = dict(case["sc"], **kw)
    if o.get("scaling_method_params"):
        o["scaling_method_params"] = dict(o["scaling_method_params"])
    return Scorecard(p22.make(case), estimator(case), **o)


def weights(case):
    return None if case["w"] is None else np.array(case["w"], dtype=float)


def fit(case, sc, X, y):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return sc.fit(X, y, sample_weight=weights(case), **case["call"])
        except ValueError as e:
            if "convergence failed" in str(e):
                raise Skip("the estimator does not converge")
            raise


def fitted(case):
    """(scorecard, the same steps made by hand)."""
    fr = case["fr"]
    X, y = frame_of(case), frames.target(fr)
    bp = p22.make(case)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            bp.fit(X[fr["names"]], y, weights(case))
    except ValueError as e:
        if "produce pure prebins" in str(e) or "cat" in str(e):
            raise Skip("a variable cannot be binned")
        raise
    if not bp.get_support().any():
        raise Skip("no variable selected")
    sc = make(case)
    if case["before"]:
        sc.set_params(**dict(dict(scaling_method_params=None),
                             **case["before"]))
        fit(case, sc, X, y)
        sc.set_params(**dict(dict(scaling_method_params=None), **case["sc"]))
    fit(case, sc, X, y)
    for v in fr["names"]:
        if frames.tie(sc.binning_process_.get_binned_variable(v),
                      bp.get_binned_variable(v),
                      p22.objective(fr["target"])):
            raise Skip("equally good solutions")
    return sc, bp, X, y


class Variable:
    """Rows of one variable's table and their model values."""
    def __init__(self, case, v, ob, coef):
        fr = case["fr"]
        self.name, self.ob, self.coef = v, ob, coef
        j = fr["names"].index(v)
        self.j = j
        cat = fr["kinds"][j] in ("cat", "catnum")
        self.case = dict(special=codes_of(case, j), cat=cat)
        self.gmap = ref.group_map([list(g) for g in ob.splits]) if cat \
            else None
        self.splits = [] if cat else ref.finite_increasing(ob.splits)
        self.n_bins, self.sg, self.n_rows = ref.row_layout(
            self.case, self.splits, ob.splits)
        p = (case["tp"] or {}).get(v, {})
        tgt = fr["target"]
        self.metric = p.get("metric", "woe" if tgt == "binary" else "mean")
        self.special = p.get("metric_special",
                             case["call"].get("metric_special", 0))
        self.missing = p.get("metric_missing",
                             case["call"].get("metric_missing", 0))
        t = ob.binning_table.build(
            show_digits=case["call"].get("show_digits", 2))
        self.table = t.iloc[:-1]
        check(len(self.table) == self.n_rows, "{}: {} rows, expected {}", v,
              len(self.table), self.n_rows)
        col = [float(q) for q in self.table[COLUMN[self.metric]]]
        if self.special != "empirical":
            for i in range(self.n_bins, self.n_rows - 1):
                col[i] = float(self.special)
        if self.missing != "empirical":
            col[-1] = float(self.missing)
        self.values = col
        cu = case["fit"].get(v, {}).get("cat_unknown")
        if cu is not None:
            self.unknown = float(cu)
        elif self.metric == "woe":
            self.unknown = 0.0
        else:
            self.unknown = float(t[COLUMN[self.metric]].values[-1])
        self.raw = [coef * q for q in self.values]

    def row(self, value):
        return ref.row_of(value, self.case, self.splits, self.gmap,
                          self.n_bins, self.sg)

    def value(self, value):
        r = self.row(value)
        return self.unknown if r is None else self.values[r]


def intercept_of(est):
    return float(np.ravel(getattr(est, "intercept_", 0.0))[0])


class Scale:
    """points = slope * raw + base; score = n * base + slope * sum."""
    def __init__(self, case, vs, intercept):
        s, p = case["sc"]["scaling_method"], \
            case["sc"].get("scaling_method_params")
        rev = case["sc"]["reverse_scorecard"]
        n = len(vs)
        self.intercept = intercept
        if s is None:
            self.slope, self.base = 1.0, 0.0
        elif s == "pdo_odds":
            f = p["pdo"] / math.log(2)
            self.slope = f if rev else -f
            off = p["scorecard_points"] - f * math.log(p["odds"])
            self.base = (self.slope * intercept + off) / n
        else:
            lo = intercept + math.fsum(min(v.raw) for v in vs)
            hi = intercept + math.fsum(max(v.raw) for v in vs)
            if hi - lo <= 1e-9 * (1 + abs(hi) + abs(lo)):
                raise Skip("all rows have the same points")
            self.slope = (p["max"] - p["min"]) / (hi - lo)
            shift = p["min"] - self.slope * lo
            if not rev:
                self.slope = -self.slope
                shift = p["max"] - self.slope * lo
            self.base = (shift + self.slope * intercept) / n

    def points(self, raw):
        return self.slope * raw + self.base

    def total(self, raws):
        return math.fsum(self.points(r) for r in raws)


def variables(case, sc):
    names = [str(v) for v in sc.binning_process_.get_support(names=True)]
    coef = [float(c) for c in np.ravel(sc.estimator_.coef_)]
    check(len(coef) == len(names), "{} coefficients for {} variables",
          len(coef), len(names))
    return [Variable(case, v, sc.binning_process_.get_binned_variable(v), c)
            for v, c in zip(names, coef)]


def table_points(sc, vs):
    """Points of the table by variable and row."""
    t = sc.table(style="summary")
    out = {}
    for v in vs:
        out[v.name] = [float(p) for p in t[t["Variable"] == v.name]["Points"]]
        check(len(out[v.name]) == v.n_rows, "table has {} rows of {}, "
              "expected {}", len(out[v.name]), v.name, v.n_rows)
    return out


def tol_of(scale, vs):
    return 1e-7 * (1 + abs(scale.base) * len(vs) +
                   max(abs(scale.points(r)) for v in vs for r in v.raw))
