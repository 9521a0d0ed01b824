"""Uniform handling of the public estimators: making one, fitting it on one
of several data sets, and reading everything it reports."""
import contextlib
import copy
import io
import math
import warnings

import numpy as np
from hypothesis import strategies as st

import binopts
import frames
import gen
from core import Violation, check, check_close


# ---------------------------------------------------------------------------
# comparison of anything an estimator returns
# ---------------------------------------------------------------------------
def same(u, v, what, rtol=1e-9, atol=1e-9):
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        check(isinstance(u, pd.DataFrame), "{}: {} instead of a frame", what,
              type(u).__name__)
        check([str(c) for c in u.columns] == [str(c) for c in v.columns],
              "{}: columns {} and {}", what, list(u.columns),
              list(v.columns))
        check([str(c) for c in u.index] == [str(c) for c in v.index],
              "{}: index {} and {}", what, list(u.index), list(v.index))
        for i, c in enumerate(v.columns):
            same(list(u.iloc[:, i]), list(v.iloc[:, i]),
                 lambda: "{} column {}".format(what, c), rtol, atol)
    elif isinstance(v, dict):
        check(isinstance(u, dict) and list(map(str, u)) == list(map(str, v)),
              "{}: {!r} and {!r}", what, u, v)
        for k in v:
            same(u[k], v[k], lambda: "{}[{!r}]".format(what, k), rtol, atol)
    elif isinstance(v, (list, tuple, np.ndarray, pd.Series)):
        if isinstance(u, (list, tuple, np.ndarray, pd.Series)):
            u, v = list(u), list(v)
            check(len(u) == len(v), "{}: {} and {} entries", what, len(u),
                  len(v))
            for i, (a, b) in enumerate(zip(u, v)):
                same(a, b, lambda: "{} [{}]".format(
                    what() if callable(what) else what, i), rtol, atol)
        else:
            raise Violation("{}: {!r} instead of {!r}".format(what, u, v))
    elif isinstance(v, (bool, str)) or v is None or isinstance(u, str):
        check(str(u) == str(v), "{}: {!r} and {!r}",
              what() if callable(what) else what, u, v)
    else:
        try:
            float(u), float(v)
        except (TypeError, ValueError):
            check(str(u) == str(v), "{}: {!r} and {!r}",
                  what() if callable(what) else what, u, v)
            return
        check_close(float(u), float(v), what, rtol, atol)


def unchanged(u, v, what):
    """Strict equality (type, dtype, order, value) of arguments."""
    import pandas as pd
    from sklearn.base import BaseEstimator
    if isinstance(v, BaseEstimator):
        check(type(u) is type(v), "{} is now a {}", what, type(u).__name__)
        unchanged(u.get_params(deep=False), v.get_params(deep=False), what)
        return
    check(type(u) is type(v), "{}: now {}, was {}", what, type(u).__name__,
          type(v).__name__)
    if isinstance(v, (list, tuple)):
        check(len(u) == len(v), "{}: now {!r}, was {!r}", what, u, v)
        for i, (a, b) in enumerate(zip(u, v)):
            unchanged(a, b, what)
    elif isinstance(v, dict):
        check(list(u) == list(v), "{}: now {!r}, was {!r}", what, u, v)
        for k in v:
            unchanged(u[k], v[k], what)
    elif isinstance(v, np.ndarray):
        check(u.dtype == v.dtype and u.shape == v.shape, "{}: now {}, was {}",
              what, (u.dtype, u.shape), (v.dtype, v.shape))
        if v.dtype == object:
            unchanged(list(u.ravel()), list(v.ravel()), what)
        else:
            check(u.tobytes() == v.tobytes() or np.array_equal(
                u, v, equal_nan=v.dtype.kind == "f"),
                "{}: now {!r}, was {!r}", what, u, v)
    elif isinstance(v, pd.DataFrame):
        check(list(u.columns) == list(v.columns) and
              u.index.equals(v.index), "{}: rows or columns changed", what)
        for i in range(v.shape[1]):
            unchanged(u.iloc[:, i], v.iloc[:, i], what)
    elif isinstance(v, pd.Series):
        check(u.index.equals(v.index), "{}: index changed", what)
        unchanged(u.values, v.values, what)
    elif isinstance(v, float) and math.isnan(v):
        check(math.isnan(u), "{}: now {!r}, was nan", what, u)
    else:
        check(u == v, "{}: now {!r}, was {!r}", what, u, v)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def table_values(t):
    names = ("iv", "js", "gini", "ks", "quality_score", "hellinger",
             "triangular", "woe", "hhi")
    return [(n, getattr(t, n, None)) for n in names
            if isinstance(getattr(t, n, None), (int, float, np.number))]


def analysed(t, **kw):
    t.build()
    t.analysis(print_output=False, **kw)
    return table_values(t)


# ---------------------------------------------------------------------------
class Kind:
    """One estimator; `case` holds options and the data sets "d0", "d1"."""

    def __init__(self, case):
        self.case = case

    TOL = 1e-9
    CLONES = True       # a clone's settings suffice for fitting it


class Binning1D(Kind):
    METRICS = {"binary": ("woe", "event_rate", "indices", "bins"),
               "continuous": ("mean", "indices", "bins"),
               "multiclass": ("mean_woe", "weighted_mean_woe", "indices",
                              "bins")}

    @staticmethod
    @st.composite
    def cases(draw, target, cat=False):
        gx = {"binary": gen.xy_binary, "continuous": gen.xy_continuous,
              "multiclass": gen.xy_multiclass}[target]
        kw = {} if target == "multiclass" else {"cat": cat}
        a = draw(gx(n_hi=120, **kw))
        b = draw(gx(n_hi=120, **kw))
        if target == "multiclass":
            a["cat"] = b["cat"] = False
            o = draw(binopts.multi_opts(a))
        elif target == "binary":
            o = draw(binopts.base_opts(a))
        else:
            o = draw(binopts.cont_opts(a, trends=(
                None, "auto", "ascending", "peak", "convex")))
        if target != "continuous" and draw(st.integers(0, 3)):
            o["solver"] = "mip"
        if draw(st.integers(0, 3)) == 0:
            o["max_n_bins"] = draw(st.integers(1, 4))
        if "user_splits" in o and not cat and draw(st.booleans()):
            if draw(st.booleans()):
                o["user_splits"] = o["user_splits"][::-1]
            o["user_splits_fixed"] = [draw(st.booleans())
                                      for _ in o["user_splits"]]
        weighted = target != "multiclass" and "outlier_detector" not in o
        ds = []
        for c in (a, b):
            d = dict(x=c["x"], y=c["y"],
                     form=draw(st.sampled_from(("array", "array", "series",
                                                "list"))))
            if weighted and draw(st.integers(0, 3)) == 0:
                d["w"] = [1 + v % 3 for v in gen.rbytes(draw, len(c["x"]))]
            ds.append(d)
        if target == "binary" and draw(st.integers(0, 5)) == 0:
            o["class_weight"] = draw(st.sampled_from(("balanced",
                                                      {"0": 1, "1": 2})))
        return dict(target=target, cat=cat, special=a["special"], opt=o,
                    d=ds, arrays=draw(st.booleans()),
                    q=draw(gen.query_spec(3, 12)),
                    tr=[dict(metric_special=draw(st.sampled_from(
                        ("empirical", 0, 2.5))), metric_missing=draw(
                        st.sampled_from(("empirical", 0, -1.5))))
                        for _ in range(2)])

    def make(self):
        import optbinning as ob
        c = self.case
        kw = binopts.lib_opts(c["opt"], c["special"])
        if c["arrays"] and isinstance(kw["special_codes"], list) and \
                not c["cat"]:
            kw["special_codes"] = np.array(kw["special_codes"])
        if c["arrays"] and kw.get("user_splits") is not None:
            us = kw["user_splits"]
            if c["cat"]:
                arr = np.empty(len(us), dtype=object)
                for i, g in enumerate(us):
                    arr[i] = np.array(g, dtype=object)
                us = arr
            kw["user_splits"] = np.array(us, dtype=object if c["cat"]
                                         else float)
            if kw.get("user_splits_fixed") is not None:
                kw["user_splits_fixed"] = np.array(kw["user_splits_fixed"])
        return dict(binary=ob.OptimalBinning,
                    continuous=ob.ContinuousOptimalBinning,
                    multiclass=ob.MulticlassOptimalBinning)[c["target"]](
                        name="v", **kw)

    def args(self, i):
        import pandas as pd
        d = self.case["d"][i]
        x = gen.xarray(d["x"], self.case["cat"])
        y = np.array(d["y"])
        kw = {}
        if "w" in d:
            kw["sample_weight"] = np.array(d["w"], dtype=float)
        if d["form"] == "series":
            x = pd.Series(x, index=[3 * j for j in range(len(x))])
            y = pd.Series(y, index=x.index)
        elif d["form"] == "list":
            x, y = list(x), list(y)
            if kw:
                kw["sample_weight"] = list(kw["sample_weight"])
        return [x, y], kw

    def query(self, est):
        c = self.case
        sub = dict(x=c["d"][0]["x"], special=c["special"])
        sp = [] if c["cat"] else [float(s) for s in est.splits]
        return gen.xarray(gen.expand_query(c["q"], sub, sp, c["cat"]),
                          c["cat"])

    def observations(self):
        c = self.case
        out = [
            ("splits", lambda e: [list(s) if c["cat"] else s
                                  for s in e.splits]),
            ("status", lambda e: e.status),
            ("build", lambda e: e.binning_table.build()),
            ("build 5", lambda e: e.binning_table.build(
                show_digits=5, add_totals=False)),
            ("analysis", lambda e: analysed(e.binning_table)),
            ("information", lambda e: e.information(print_level=1)),
        ]
        if c["target"] == "binary":
            out.append(("analysis fisher", lambda e: analysed(
                e.binning_table, pvalue_test="fisher")))
            out.append(("show_bin_labels", lambda e: analysed(
                e.binning_table)))
        for k, t in enumerate(c["tr"]):
            for m in self.METRICS[c["target"]]:
                out.append(("transform %s %s" % (m, t),
                            lambda e, m=m, t=t: e.transform(
                                self.query(e), metric=m, **t)))
        return out

    def fit_transform(self, est, i):
        a, k = self.args(i)
        return est.fit_transform(*a, **k)

    def transform_train(self, est, i):
        return est.transform(self.args(i)[0][0])

    def tie(self, a, b):
        return frames.tie(a, b, self.objective)

    def objective(self, e):
        if self.case["target"] == "binary":
            return frames.divergence_of(e)
        from props import p22
        return p22.objective(self.case["target"])(e)


class Scenario(Kind):
    @staticmethod
    @st.composite
    def cases(draw):
        from props import p14
        a, b = draw(p14.data_cases()), draw(p14.data_cases())
        return dict(target="scenario", cat=False, special=a["special"],
                    opt=a["opt"], d=[dict(sc=c["sc"], w=c["weights"])
                                     for c in (a, b)],
                    q=a["query"], x=a["x"],
                    tr=[dict(metric_special=a["special_t"],
                             metric_missing=a["missing_t"])])

    def make(self):
        from optbinning import SBOptimalBinning
        c = self.case
        return SBOptimalBinning(name="v", **binopts.lib_opts(
            c["opt"], c["special"]))

    def args(self, i):
        d = self.case["d"][i]
        kw = {}
        if d["w"] is not None:
            kw["weights"] = list(d["w"])
        return [[gen.xarray(x) for x, _ in d["sc"]],
                [np.array(y) for _, y in d["sc"]]], kw

    def query(self, est):
        return gen.xarray(gen.expand_query(
            self.case["q"], self.case, [float(s) for s in est.splits]))

    def observations(self):
        t = self.case["tr"][0]
        out = [("splits", lambda e: list(e.splits)),
               ("status", lambda e: e.status),
               ("build", lambda e: e.binning_table.build()),
               ("information", lambda e: e.information(print_level=1)),
               ("analysis", lambda e: analysed(e.binning_table)),
               ("scenario", lambda e: e.binning_table_scenario(0).build()),
               ("scenario analysis", lambda e: analysed(
                   e.binning_table_scenario(0)))]
        for m in ("woe", "event_rate", "indices", "bins"):
            out.append(("transform %s %s" % (m, t), lambda e, m=m:
                        e.transform(self.query(e), metric=m, **t)))
        return out

    fit_transform = None

    def tie(self, a, b):
        def iv(e):
            e.binning_table.build()
            e.binning_table.analysis(print_output=False)
            return e.binning_table.iv
        return frames.tie(a, b, iv)


class Binning2D(Kind):
    @staticmethod
    @st.composite
    def cases(draw, continuous):
        from props import p15
        a = draw(p15.cases(continuous))
        b = draw(p15.xyz(continuous))
        a["opt"]["strategy"] = "grid"
        if not continuous and draw(st.integers(0, 3)):
            a["opt"]["solver"] = "mip"
        b["cat"] = a["cat"] if a["cat"] == b["cat"] else a["cat"]
        keys = ("x", "y", "z")
        d = [dict((k, c[k]) for k in keys) for c in (a, b)]
        if [isinstance(next((v for v in c[k] if v is not None), ""), str)
                for c in d for k in ("x", "y")] != 2 * list(
                    map(bool, a["cat"])):
            d[1] = {k: v[: max(12, 2 * len(v) // 3)] for k, v in d[0].items()}
        return dict(base=a, d=d, special=a["special"], cat=a["cat"],
                    tr=[dict(metric_special=a["sp"],
                             metric_missing=a["mi"])])

    def make(self):
        from props import p15
        with quiet():
            return p15.estimator(self.case["base"])

    def args(self, i):
        from props import p15
        return list(p15.arrays(dict(self.case["base"],
                                    **self.case["d"][i]))), {}

    def observations(self):
        c = self.case
        cont = c["base"]["continuous"]
        t = c["tr"][0]
        from props import p15
        q = p15.arrays(dict(c["base"], **c["d"][0]))[:2]
        out = [("splits", lambda e: [[[str(v) for v in s] for s in side]
                                     for side in e.splits]),
               ("status", lambda e: e.status),
               ("build", lambda e: e.binning_table.build()),
               ("build 4", lambda e: e.binning_table.build(
                   show_digits=4, show_bin_xy=True, add_totals=False)),
               ("information", lambda e: e.information(print_level=1)),
               ("analysis", lambda e: analysed(e.binning_table))]
        for m in (("mean",) if cont else ("woe", "event_rate")) + (
                "indices", "bins"):
            out.append(("transform %s %s" % (m, t), lambda e, m=m:
                        e.transform(q[0], q[1], metric=m, **t)))
        return out

    def fit_transform(self, est, i):
        a, k = self.args(i)
        return est.fit_transform(*a, **k)

    def transform_train(self, est, i):
        return est.transform(*self.args(i)[0][:2])

    def tie(self, a, b):
        if [[list(map(str, s)) for s in side] for side in a.splits] == [
                [list(map(str, s)) for s in side] for side in b.splits]:
            return False
        if a.status != b.status:
            return False
        va, vb = [sum(float(v) for v in e.binning_table.build()["IV"][:-1])
                  for e in (a, b)]
        # criteria with a concentration term share their optimal value only
        return "gamma" in self.case["base"]["opt"] or \
            abs(va - vb) <= 2e-5 + 1e-3 * max(abs(va), abs(vb))


class Piecewise(Kind):
    TOL = 5e-3

    @staticmethod
    @st.composite
    def cases(draw, continuous):
        import pw
        a, b = draw(pw.cases(continuous)), draw(pw.cases(continuous))
        o = a["opt"]
        o["degree"] = min(o["degree"], 1)
        o["objective"] = draw(st.sampled_from(("l2", "l2", "l1")))
        for k in ("quantile", "h_epsilon"):
            o.pop(k, None)
        o["solver"] = "ecos"    # osqp and scs adapt to the clock
        return dict(base=a, continuous=continuous,
                    d=[dict(x=c["x"], y=c["y"]) for c in (a, b)],
                    q=a["query"], tr=a["tr"], cat=False,
                    special=a["special"])

    def make(self):
        import pw
        from optbinning import ContinuousOptimalPWBinning, OptimalPWBinning
        from sklearn.linear_model import LogisticRegression
        c = self.case
        kw = dict(pw.options(c["base"]), special_codes=pw.special(c["base"]))
        if c["continuous"]:
            return ContinuousOptimalPWBinning(name="v", **kw)
        if c["base"]["estimator"]:
            kw["estimator"] = LogisticRegression(C=0.5)
        return OptimalPWBinning(name="v", **kw)

    def args(self, i):
        d = self.case["d"][i]
        b = self.case["base"]
        return [gen.xarray(d["x"]), np.array(d["y"])], dict(lb=b["lb"],
                                                            ub=b["ub"])

    def query(self, est):
        sub = dict(x=self.case["d"][0]["x"], special=self.case["special"])
        sp = [float(s) for s in est.splits]
        return gen.xarray([v for v in gen.expand_query(
            self.case["q"], sub, sp) if v is None or abs(v) < 1e3])

    def observations(self):
        tr = dict(metric_special=self.case["tr"]["special"],
                  metric_missing=self.case["tr"]["missing"])
        out = [("splits", lambda e: list(e.splits)),
               ("status", lambda e: e.status),
               ("build", lambda e: e.binning_table.build()),
               ("build 4", lambda e: e.binning_table.build(
                   show_digits=4, add_totals=False)),
               ("information", lambda e: e.information(print_level=1)),
               ("analysis", lambda e: (e.binning_table.build(),
                                       e.binning_table.analysis(
                                           print_output=False), None)[2])]
        for m in ({},) if self.case["continuous"] else (
                {"metric": "event_rate"}, {"metric": "woe"}):
            out.append(("transform %s" % m, lambda e, m=m: e.transform(
                self.query(e), **dict(tr, **m))))
        return out

    fit_transform = None

    def tie(self, a, b):
        return [float(s) for s in a.splits] != [float(s) for s in b.splits]


class Process(Kind):
    @staticmethod
    @st.composite
    def cases(draw, target):
        from props import p22
        a = draw(p22.cases(target, 3))
        fr = a["fr"]
        rows = gen.rbytes(draw, draw(st.integers(30, 100)))
        a["d"] = [list(range(fr["n"])), [r * fr["n"] // 256 for r in rows]]
        a["sel"] = draw(frames.criteria_spec(target))
        return a

    def make(self):
        from props import p22
        return p22.make(self.case)

    def args(self, i):
        from props import p22
        c = self.case
        rows = c["d"][i]
        kw = {}
        if c["w"] is not None:
            kw["sample_weight"] = np.array([c["w"][r] for r in rows],
                                           dtype=float)
        return [p22.data(c, rows), frames.target(c["fr"], rows)], kw

    def observations(self):
        from props import p22
        c = self.case
        names = c["fr"]["names"]
        X = p22.data(c)
        out = [("summary", lambda e: e.summary()),
               ("support", lambda e: e.get_support(names=True)),
               ("indices", lambda e: e.get_support(indices=True)),
               ("information", lambda e: e.information(print_level=1))]
        for v in names:
            out.append(("table of " + v, lambda e, v=v: e.get_binned_variable(
                v).binning_table.build()))
            out.append(("analysis of " + v, lambda e, v=v: analysed(
                e.get_binned_variable(v).binning_table)))
        for m in p22.METRICS[c["fr"]["target"]]:
            out.append(("transform %s" % m, lambda e, m=m: e.transform(
                X, **({"metric": m} if m else {}))))
        out.append(("call", lambda e: e.transform(X, **c["call"])))
        return out

    def fit_transform(self, est, i):
        a, k = self.args(i)
        return est.fit_transform(*a, **k)

    def transform_train(self, est, i):
        return est.transform(self.args(i)[0][0])

    def tie(self, a, b):
        from props import p22
        return any(frames.tie(a.get_binned_variable(v),
                              b.get_binned_variable(v),
                              p22.objective(self.case["fr"]["target"]))
                   for v in self.case["fr"]["names"])


class Card(Kind):
    @staticmethod
    @st.composite
    def cases(draw, target):
        import sc
        a = draw(sc.cases(target, 3))
        fr = a["fr"]
        rows = gen.rbytes(draw, draw(st.integers(40, 100)))
        a["d"] = [list(range(fr["n"])), [r * fr["n"] // 256 for r in rows]]
        return a

    def make(self):
        import sc
        return sc.make(self.case)

    def args(self, i):
        import sc
        c = self.case
        rows = c["d"][i]
        kw = dict(c["call"])
        if c["w"] is not None:
            kw["sample_weight"] = np.array([c["w"][r] for r in rows],
                                           dtype=float)
        X = sc.frame_of(c).iloc[rows]
        return [X, frames.target(c["fr"], rows)], kw

    def observations(self):
        import sc
        c = self.case
        X = sc.frame_of(c)
        out = [("table", lambda e: e.table()),
               ("detailed", lambda e: e.table(style="detailed")),
               ("intercept", lambda e: e.intercept_),
               ("score", lambda e: e.score(X)),
               ("predict", lambda e: e.predict(X)),
               ("transform", lambda e: e.transform(X)
                if hasattr(e, "transform") else None),
               ("information", lambda e: e.information(print_level=1)),
               ("process", lambda e: e.binning_process_.summary())]
        if c["fr"]["target"] == "binary":
            out.append(("proba", lambda e: e.predict_proba(X)))
        return out

    fit_transform = None

    def tie(self, a, b):
        from props import p22
        return any(frames.tie(a.binning_process_.get_binned_variable(v),
                              b.binning_process_.get_binned_variable(v),
                              p22.objective(self.case["fr"]["target"]))
                   for v in self.case["fr"]["names"])


class Monitor(Kind):
    CLONES = False      # its scorecard is cloned, unfitted, too

    @staticmethod
    @st.composite
    def cases(draw, target):
        from props import p27
        a = draw(p27.cases(target))
        a["d"] = [draw(p27.sample_spec(a)), draw(p27.sample_spec(a))]
        return a

    def make(self):
        import sc
        from optbinning.scorecard import ScorecardMonitoring
        c = self.case
        if not hasattr(self, "sc"):
            self.sc = sc.fitted(c)[0]
        return ScorecardMonitoring(
            self.sc, psi_method=c["method"], psi_n_bins=c["n_bins"],
            psi_min_bin_size=c["size"], show_digits=c["digits"])

    def args(self, i):
        from props import p27
        XE, ye = p27.sample(self.case, self.case["expected"])
        XA, ya = p27.sample(self.case, self.case["d"][i])
        return [XA, p27.form(ya, self.case["form"]), XE,
                p27.form(ye, self.case["form"])], {}

    def observations(self):
        X = self.args(0)[0][0]
        return [("psi", lambda e: e.psi_table()),
                ("psi variables", lambda e: e.psi_variable_table()),
                ("psi detailed", lambda e: e.psi_variable_table(
                    style="detailed")),
                ("tests", lambda e: e.tests_table()),
                ("splits", lambda e: list(e.psi_splits)),
                ("report", lambda e: e.system_stability_report()),
                ("information", lambda e: e.information(print_level=1)),
                ("scorecard", lambda e: self.sc.table(style="detailed")),
                ("scores", lambda e: self.sc.score(X))]

    fit_transform = None

    def tie(self, a, b):
        return False


class Mdlp(Kind):
    @staticmethod
    @st.composite
    def cases(draw):
        a, b = draw(gen.xy_binary()), draw(gen.xy_binary())
        return dict(d=[dict(x=[v for v in c["x"] if v is not None],
                            y=[z for v, z in zip(c["x"], c["y"])
                               if v is not None]) for c in (a, b)],
                    opt=dict(min_samples_split=draw(st.integers(2, 6)),
                             min_samples_leaf=draw(st.integers(1, 4)),
                             max_candidates=draw(st.integers(1, 40))))

    def make(self):
        from optbinning import MDLP
        return MDLP(**self.case["opt"])

    def args(self, i):
        d = self.case["d"][i]
        return [np.array(d["x"], dtype=float), np.array(d["y"])], {}

    def observations(self):
        return [("splits", lambda e: list(e.splits))]

    fit_transform = None

    def tie(self, a, b):
        return False


class Outlier(Kind):
    @staticmethod
    @st.composite
    def cases(draw):
        out = []
        for _ in range(2):
            c = draw(gen.xy_continuous())
            x = [v for v in c["x"] if v is not None]
            out.append(dict(x=x, y=[z for v, z in zip(c["x"], c["y"])
                                    if v is not None]))
        kind = draw(st.sampled_from(("range", "zscore", "yquantile")))
        o = {}
        if kind == "range":
            o = dict(interval_length=draw(st.sampled_from((0.5, 0.9))),
                     k=draw(st.sampled_from((0.0, 1.5))),
                     method=draw(st.sampled_from(("ETI", "HDI"))))
        elif kind == "zscore":
            o = dict(threshold=draw(st.sampled_from((1.5, 3.5))))
        else:
            o = dict(n_bins=draw(st.integers(1, 6)),
                     outlier_detector=draw(st.sampled_from(("range",
                                                            "zscore"))))
        return dict(kind=kind, opt=o, d=out)

    def make(self):
        from optbinning.binning import outlier as m
        return {"range": m.RangeDetector, "zscore": m.ModifiedZScoreDetector,
                "yquantile": m.YQuantileDetector}[self.case["kind"]](
                    **self.case["opt"])

    def args(self, i):
        d = self.case["d"][i]
        a = [np.array(d["x"], dtype=float)]
        if self.case["kind"] == "yquantile":
            a.append(np.array(d["y"], dtype=float))
        return a, {}

    def observations(self):
        return [("support", lambda e: e.get_support()),
                ("indices", lambda e: e.get_support(indices=True))]

    fit_transform = None

    def tie(self, a, b):
        return False


def snapshot(obj):
    return copy.deepcopy(obj)
