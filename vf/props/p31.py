"""P31: parameters are validated, unfitted instances refuse to answer."""
import contextlib
import io
import math
import os
import tempfile
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import boot
from core import Skip, Sub, Violation, check, observing

RULE = ("A case is an estimator, a small data set, some parameters at "
        "documented values and, for refusals, one parameter (or pair of "
        "parameters) outside its documented domain: wrong type, wrong word, "
        "just beyond a bound, on an excluded bound, NaN, or missing although "
        "required. Refusals must be a value or type error and leave the "
        "instance unfitted; documented values must be accepted. Non-trivial: "
        "an invalid value was refused after at least one other parameter was "
        "changed, or two or more documented values were accepted together.")
ASSUMPTIONS = ["time_limit=0, booleans given as integers, infinite strengths, "
               "tuples and outlier_params without a detector are not judged",
               "the LocalSolver and t-digest back ends are not installed",
               "heuristic trends of the piecewise estimators (listed in their "
               "documentation, refused by their validation) are not judged",
               "combinations that only the piecewise regression package "
               "refuses are not judged"]

NAN = float("nan")
REFUSED = (ValueError, TypeError)


class Dom:
    def __init__(self, valid, invalid):
        self.valid, self.invalid = list(valid), list(invalid)


def enum(*words, opt=False, wrong=()):
    return Dom(list(words) + [None] * opt,
               ["", "nope", words[0].swapcase(), words[-1] + " ", 5, 1.5,
                [words[0]], {words[0]: 1}] + list(wrong) +
               ([] if opt else [None]))


def integer(lo, hi=None, opt=False, valid=()):
    ok = list(valid) or [lo, lo + 1, np.int64(lo + 2), np.int32(lo + 4)]
    bad = [lo - 1, lo - 3, lo + 0.5, float(lo + 2), str(lo + 1), NAN, [lo],
           np.int64(lo - 1), np.float64(lo + 1)]
    if hi is not None:
        ok = list(valid) or [lo, hi, np.int64(hi), (lo + hi) // 2]
        bad += [hi + 1, hi + 10, np.int32(hi + 1)]
    return Dom(ok + [None] * opt, bad + ([] if opt else [None]))


def real(lo, hi=math.inf, open_lo=False, open_hi=False, opt=False, valid=(),
         inf=True):
    mid = lo + 1 if hi == math.inf else (lo + hi) / 2
    ok = [mid, np.float64(mid), np.float32(mid)] + list(valid)
    bad = [lo - 0.25, np.nextafter(lo, lo - 1), NAN, "0.1", [mid], -math.inf,
           np.float64("nan"), {"a": 1}]
    if open_lo:
        bad.append(lo)
    else:
        ok.append(lo)
    if hi != math.inf:
        bad += [hi + 0.25, np.nextafter(hi, hi + 1), math.inf]
        if open_hi:
            bad.append(hi)
        else:
            ok.append(hi)
    return Dom(ok + [None] * opt, bad + ([] if opt else [None]))


def flag():
    return Dom([True, False], ["True", 0, 1, None, 1.0, "", []])


def word():
    return Dom(["v", "", "feature 1"], [5, None, ["v"], 1.5])


def array(valid, opt=True, mapping=False, wrong=()):
    return Dom(list(valid) + [None] * opt,
               ["abc", 5, 2.5] + ([] if mapping else [{"a": 1}]) +
               list(wrong) + ([] if opt else [None]))


def mapping(valid, opt=True, wrong=()):
    return Dom(list(valid) + [None] * opt,
               ["abc", 5, ["a"]] + list(wrong) + ([] if opt else [None]))


TRENDS1 = ("auto", "auto_heuristic", "auto_asc_desc", "ascending",
           "descending", "convex", "concave", "peak", "valley",
           "peak_heuristic", "valley_heuristic")


def sizes(pre=True):
    d = dict(min_n_bins=integer(1, opt=True, valid=(1, 2, np.int64(2))),
             max_n_bins=integer(1, opt=True, valid=(3, 5, np.int64(8))),
             min_bin_size=real(0, 0.5, True, opt=True, valid=(0.05, 0.1)),
             max_bin_size=real(0, 1, True, opt=True, valid=(0.9, 0.8, 1)),
             split_digits=integer(0, 8, opt=True),
             verbose=flag())
    if pre:
        d.update(max_n_prebins=integer(2, valid=(2, 5, 20, np.int64(7))),
                 min_prebin_size=real(0, 0.5, True, valid=(0.05, 0.1)))
    return d


def pvalue():
    return dict(max_pvalue=real(0, 1, True, opt=True, valid=(0.05, 0.5)),
                max_pvalue_policy=enum("consecutive", "all"))


def counts():
    return {k: integer(1, opt=True, valid=(v, np.int64(v)))
            for k, v in (("min_bin_n_event", 1), ("max_bin_n_event", 40),
                         ("min_bin_n_nonevent", 2),
                         ("max_bin_n_nonevent", 50))}


def splits(fixed=True, combos=None):
    return dict(user_splits=array(([1.0, 3.0], np.array([0.5, 2.5, 4.5]))),
                special_codes=array(([-9.0], np.array([-9.0, -8.0]), []),
                                    mapping=True, wrong=({},)))


PAIRS = [dict(min_n_bins=3, max_n_bins=2), dict(min_n_bins=9, max_n_bins=1),
         dict(min_bin_size=0.3, max_bin_size=0.25),
         dict(min_bin_size=0.5, max_bin_size=0.1)]
PAIRS_N = [dict(min_bin_n_event=5, max_bin_n_event=4),
           dict(min_bin_n_nonevent=9, max_bin_n_nonevent=1)]
FIXED = [dict(user_splits_fixed=[True]),
         dict(user_splits_fixed=np.array([True, False])),
         dict(user_splits=[1.0, 3.0], user_splits_fixed=[True]),
         dict(user_splits=[1.0, 3.0], user_splits_fixed=[True] * 3),
         dict(user_splits=[1.0, 3.0], user_splits_fixed=[1, 0]),
         dict(user_splits=[1.0, 3.0], user_splits_fixed=["True", "no"]),
         dict(user_splits=[1.0, 3.0], user_splits_fixed="ab"),
         dict(user_splits=[1.0, 3.0], user_splits_fixed={1: True, 2: False}),
         dict(user_splits=[1.0, 3.0], user_splits_fixed=[None, True]),
         dict(user_splits=[1.0, 3.0], user_splits_fixed=np.array([0.5, 1.0]))]
FIXED_OK = [dict(user_splits=[1.0, 3.0], user_splits_fixed=[True, False]),
            dict(user_splits=np.array([1.0, 3.0]),
                 user_splits_fixed=np.array([False, True])),
            dict(user_splits=[1.0, 3.0],
                 user_splits_fixed=list(np.array([True, True])))]
OUT = [dict(outlier_detector=d, outlier_params=p)
       for d in ("range", "zscore") for p in ("abc", 5, ["threshold"])] + [
    dict(outlier_detector="range", outlier_params=p) for p in (
        {"interval_length": 1.5}, {"interval_length": -0.1},
        {"interval_length": "a"}, {"k": "a"},
        {"method": "eti"}, {"method": 3})] + [
    dict(outlier_detector="zscore", outlier_params=p) for p in (
        {"threshold": -1}, {"threshold": "a"}, {"nope": 3})]
OUT_OK = [dict(outlier_detector="range", outlier_params=p) for p in (
    None, {}, {"interval_length": 0.8}, {"k": 3}, {"method": "HDI"})] + [
    dict(outlier_detector="zscore", outlier_params={"threshold": 4})]
OUT_Y = [dict(outlier_detector="yquantile", outlier_params=p) for p in (
    {"n_bins": 0}, {"n_bins": 2.5}, {"outlier_detector": "iqr"},
    {"outlier_params": 5})]
OUT_Y_OK = [dict(outlier_detector="yquantile", outlier_params=p) for p in (
    None, {"n_bins": 3}, {"outlier_detector": "range"})]
SPECIAL_OK = [dict(special_codes={"a": -9.0}),
              dict(special_codes={"a": -9.0, "b": [-8.0, -7.0]})]
MARGIN = dict(min_event_rate_diff=real(0, 1, valid=(0.01,)))


def outlier(y=False):
    words = ("range", "zscore") + ("yquantile",) * y
    return dict(outlier_detector=enum(*words, opt=True))


class Est:
    """name, parameters, good and bad combinations, calls."""

    def __init__(self, params, bad=(), good=(), alone=()):
        self.params, self.bad, self.good = params, list(bad), list(good)
        self.alone = set(alone)

    unfitted = "NotFittedError"
    clone_of = None

    def data(self, seed):
        rng = np.random.RandomState(seed)
        n = 90
        x = np.round(rng.rand(n) * 6, 1)
        y = (rng.rand(n) < 0.2 + 0.1 * x).astype(int)
        return x, y

    def fit(self, e, data):
        return e.fit(*data)

    def results(self, e, data):
        """(name, call) of everything that needs a fit."""
        q = data[0]
        out = [("splits", lambda: e.splits), ("status", lambda: e.status),
               ("binning_table", lambda: e.binning_table),
               ("information", lambda: e.information()),
               ("transform", lambda: e.transform(q))]
        return out + self.more(e, data)

    def more(self, e, data):
        return [("to_json", lambda: with_path(e.to_json))]

    def adjust(self, kw):
        return kw


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def with_path(f):
    fd, path = tempfile.mkstemp(dir=boot.SCRATCH, suffix=".json")
    os.close(fd)
    try:
        return f(path)
    finally:
        os.unlink(path)


def cats(data):
    x = np.array(["abcdef"[int(v) % 6] for v in data[0]], dtype=object)
    return (x,) + tuple(data[1:])


class Binary(Est):
    def __init__(self):
        super().__init__(
            dict(sizes(), **pvalue(), **counts(), **splits(), **outlier(),
                 **MARGIN,
                 name=word(), dtype=enum("numerical", "categorical"),
                 prebinning_method=enum("cart", "mdlp", "quantile",
                                        "uniform"),
                 solver=enum("cp", "mip"),
                 divergence=enum("iv", "js", "hellinger", "triangular"),
                 monotonic_trend=enum(*TRENDS1, opt=True),
                 gamma=real(0, valid=(0.5,)),
                 class_weight=Dom(["balanced", {0: 1, 1: 2}, None],
                                  ["nope", 5, 2.5, ["balanced"], ""]),
                 cat_cutoff=real(0, 1, True, opt=True, valid=(0.05,)),
                 cat_unknown=Dom([None, 0.5, 3],
                                 [[1], {"a": 1}, (1, 2)]),
                 mip_solver=enum("bop", "cbc"),
                 time_limit=Dom([100, 20, 30.5, np.int64(30)],
                                [-1, -0.5, NAN, "5", None, [5]])),
            PAIRS + PAIRS_N + FIXED + OUT, FIXED_OK + OUT_OK + SPECIAL_OK)

    def make(self, **kw):
        from optbinning import OptimalBinning
        return OptimalBinning(**kw)

    def fit(self, e, data):
        if e.dtype == "categorical":
            data = cats(data)
        return e.fit(*data)

    def adjust(self, kw):
        if kw.get("dtype") == "categorical":
            for k in ("user_splits", "user_splits_fixed", "special_codes",
                      "outlier_detector", "outlier_params", "split_digits"):
                kw.pop(k, None)
            if kw.get("prebinning_method") == "mdlp":
                kw.pop("prebinning_method")
            kw["cat_cutoff"] = None
        return kw


class Continuous(Binary):
    def __init__(self):
        b = Binary().params
        keep = {k: b[k] for k in (
            "name", "dtype", "min_n_bins", "max_n_bins", "min_bin_size",
            "max_bin_size", "split_digits", "verbose", "max_n_prebins",
            "min_prebin_size", "max_pvalue", "max_pvalue_policy",
            "user_splits", "special_codes", "monotonic_trend", "gamma",
            "cat_cutoff", "cat_unknown", "time_limit")}
        Est.__init__(
            self, dict(keep, **outlier(True), prebinning_method=enum(
                "cart", "quantile", "uniform", wrong=("mdlp",)),
                min_mean_diff=real(0, valid=(0.01,))),
            PAIRS + FIXED + OUT + OUT_Y,
            FIXED_OK + OUT_OK + SPECIAL_OK + OUT_Y_OK)

    def make(self, **kw):
        from optbinning import ContinuousOptimalBinning
        return ContinuousOptimalBinning(**kw)

    def data(self, seed):
        x, y = super().data(seed)
        return x, y + np.round(x / 2) / 4


class Multiclass(Est):
    def __init__(self):
        b = Binary().params
        keep = {k: b[k] for k in (
            "name", "min_n_bins", "max_n_bins", "min_bin_size",
            "max_bin_size", "split_digits", "verbose", "max_n_prebins",
            "min_prebin_size", "max_pvalue", "max_pvalue_policy", "solver",
            "user_splits", "special_codes", "outlier_detector",
            "min_event_rate_diff", "mip_solver", "time_limit")}
        super().__init__(
            dict(keep, prebinning_method=enum("cart", "quantile", "uniform",
                                              wrong=("mdlp",)),
                 monotonic_trend=Dom(
                     list(TRENDS1[:3]) + [None, ["auto", "ascending",
                                                 "peak"],
                                      ["auto", None, "convex"]],
                     ["nope", "", "AUTO", 5, ["auto"] * 2, ["auto"] * 4,
                      ["auto", "nope", "peak"], {"a": 1}])),
            PAIRS + FIXED + OUT, FIXED_OK + OUT_OK + SPECIAL_OK)

    def make(self, **kw):
        from optbinning import MulticlassOptimalBinning
        return MulticlassOptimalBinning(**kw)

    def data(self, seed):
        x, y = super().data(seed)
        return x, (y + np.arange(len(y)) % 2)

    def more(self, e, data):
        return super().more(e, data) + [("classes", lambda: e.classes)]


class Scenario(Est):
    def __init__(self):
        b = Binary().params
        keep = {k: b[k] for k in (
            "name", "min_n_bins", "max_n_bins", "min_bin_size",
            "max_bin_size", "split_digits", "verbose", "max_n_prebins",
            "min_prebin_size", "max_pvalue", "max_pvalue_policy",
            "user_splits", "min_event_rate_diff", "class_weight",
            "time_limit")}
        super().__init__(
            dict(keep, prebinning_method=enum("cart", "quantile", "uniform",
                                              wrong=("mdlp",)),
                 special_codes=array(([-9.0], np.array([-9.0]), [])),
                 monotonic_trend=enum("ascending", "descending", "concave",
                                      "convex", "peak", "valley", opt=True)),
            PAIRS + FIXED, FIXED_OK)

    def make(self, **kw):
        from optbinning import SBOptimalBinning
        return SBOptimalBinning(**kw)

    def data(self, seed):
        x, y = super().data(seed)
        return [x, x[:60]], [y, y[:60]]

    def results(self, e, data):
        return super().results(e, [data[0][0]]) + [
            ("binning_table_scenario", lambda: e.binning_table_scenario(0))]


class TwoD(Est):
    def __init__(self, continuous):
        self.continuous = continuous
        b = Binary().params
        keep = {k: b[k] for k in (
            "min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size",
            "split_digits", "verbose", "solver", "gamma", "time_limit")}
        p = dict(keep, prebinning_method=enum("cart", "mdlp", "quantile",
                                              "uniform"),
                 strategy=enum("grid", "cart"),
                 n_jobs=Dom([1, 2, None, np.int64(1)],
                            [1.5, "2", [1], NAN, 2.0]))
        for s in "xy":
            p["name_" + s] = word()
            p["dtype_" + s] = enum("numerical", "categorical")
            p["max_n_prebins_" + s] = integer(2, valid=(2, 4, np.int64(3)))
            p["min_prebin_size_" + s] = real(0, 0.5, True, valid=(0.1,))
            p["monotonic_trend_" + s] = enum("ascending", "descending",
                                             opt=True, wrong=("auto",
                                                              "peak"))
            p["special_codes_" + s] = array(([-9.0], np.array([-9.0]), []))
            if continuous:
                p["min_mean_diff_" + s] = real(0, valid=(0.01,))
            else:
                p["min_event_rate_diff_" + s] = real(0, 1, valid=(0.01,))
        if continuous:
            p["prebinning_method"] = enum("cart", "quantile", "uniform")
        else:
            p.update(counts(), divergence=b["divergence"])
        super().__init__(p, PAIRS + ([] if continuous else PAIRS_N))

    def make(self, **kw):
        from optbinning import ContinuousOptimalBinning2D, OptimalBinning2D
        return (ContinuousOptimalBinning2D if self.continuous else
                OptimalBinning2D)(**kw)

    def data(self, seed):
        x, z = super().data(seed)
        y = np.round(np.random.RandomState(seed + 1).rand(len(x)) * 4, 1)
        return x, y, (z * 2 + x / 4 if self.continuous else z)

    def fit(self, e, data):
        x, y, z = data
        if e.dtype_x == "categorical":
            x = cats((x,))[0]
        if e.dtype_y == "categorical":
            y = cats((y,))[0]
        return e.fit(x, y, z)

    def results(self, e, data):
        out = super().results(e, data)[:-2]
        return out + [("transform", lambda: e.transform(*data[:2]))]

    def adjust(self, kw):
        for s in "xy":
            if kw.get("dtype_" + s) == "categorical":
                kw.pop("special_codes_" + s, None)
                if kw.get("prebinning_method") == "mdlp":
                    kw.pop("prebinning_method")
        for s in "xy":      # keep the models small
            kw.setdefault("max_n_prebins_" + s, 3)
        if kw.get("prebinning_method") == "mdlp" and kw.get(
                "strategy") == "cart":
            kw.pop("strategy")
        return kw


class Pw(Est):
    def __init__(self, continuous):
        self.continuous = continuous
        b = Continuous().params
        keep = {k: b[k] for k in (
            "name", "min_n_bins", "max_n_bins", "min_bin_size",
            "max_bin_size", "split_digits", "verbose", "max_n_prebins",
            "min_prebin_size", "max_pvalue", "max_pvalue_policy",
            "user_splits", "special_codes", "prebinning_method")}
        p = dict(keep, objective=enum("l2", "l1", "huber", "quantile"),
                 degree=integer(0, 5, valid=(0, 1, np.int64(1), 2)),
                 continuous=flag(), continuous_deriv=flag(),
                 monotonic_trend=enum("auto", "ascending", "descending",
                                      "convex", "concave", "peak", "valley",
                                      opt=True),
                 n_subsamples=integer(1, opt=True, valid=(40, np.int64(60))),
                 solver=enum("auto", "ecos", "osqp", "direct", "scs",
                             "highs"),
                 h_epsilon=real(1, valid=(1.35,)),
                 quantile=real(0, 1, True, True, valid=(0.3,)),
                 regularization=enum("l1", "l2", opt=True),
                 reg_l1=real(0, valid=(0.5,)), reg_l2=real(0, valid=(0.5,)),
                 random_state=Dom([None, 0, 7, np.random.RandomState(3)],
                                  ["a", 1.5, [1]]),
                 **outlier(True))
        p["special_codes"] = array(([-9.0], np.array([-9.0])), mapping=True)
        bad = PAIRS + FIXED + OUT + OUT_Y + [
            dict(monotonic_trend=t, degree=g) for t in ("convex", "concave")
            for g in (2, 5)]
        if not continuous:
            from sklearn.linear_model import LinearRegression
            p["estimator"] = Dom(
                [None], ["logit", 5, LinearRegression(), object()])
        super().__init__(
            p, bad, FIXED_OK + SPECIAL_OK,
            alone=("solver", "objective", "regularization", "degree",
                   "continuous", "continuous_deriv"))

    def make(self, **kw):
        from optbinning import ContinuousOptimalPWBinning, OptimalPWBinning
        if isinstance(kw.get("random_state"), np.random.RandomState):
            kw["random_state"] = np.random.RandomState(3)
        return (ContinuousOptimalPWBinning if self.continuous else
                OptimalPWBinning)(**kw)

    def data(self, seed):
        x, y = super().data(seed)
        return x, (y * 2 + x / 4 if self.continuous else y)

    def more(self, e, data):
        return []

    def adjust(self, kw):
        if "solver" in kw:
            ok = dict(ecos=("l2", "l1"), osqp=("l2", "l1"), direct=("l2",),
                      scs=("l2", "l1"), highs=("l1",), auto=("l2",))
            kw["objective"] = ok[kw["solver"]][0]
            kw.pop("regularization", None)
            if kw["solver"] == "direct":
                kw["monotonic_trend"] = None
        if kw.get("continuous") is False:
            kw.setdefault("monotonic_trend", None)
        if kw.get("degree", 1) == 0:
            kw["continuous"] = False
            kw["continuous_deriv"] = False
            kw["monotonic_trend"] = "ascending"
        return kw


class Frame(Est):
    def data(self, seed):
        rng = np.random.RandomState(seed)
        x, y = super().data(seed)
        X = pd.DataFrame({"a": x, "b": np.round(rng.rand(len(x)) * 5, 1)})
        c = (rng.rand(len(x)) * 3).astype(int)
        X["c"] = c if self.numeric else ["uvw"[v] for v in c]
        return X, y

    numeric = False


class Process(Frame):
    def __init__(self, sketch=False):
        self.sketch = sketch
        self.numeric = sketch       # nothing is inferred in streams
        if sketch:
            self.unfitted = "NotSolvedError"
        p = dict(sizes(), **pvalue(),
                 variable_names=array((["a", "b", "c"],
                                       np.array(["a", "b", "c"])), opt=False),
                 selection_criteria=mapping((
                     {"iv": {"min": 0.01, "max": 2.5, "strategy": "highest",
                             "top": 2}},
                     {"gini": {"min": 0, "max": 1}},
                     {"quality_score": {"strategy": "lowest", "top": 0.5}},
                     {"js": {"max": 0.2}}, {})),
                 categorical_variables=array(
                     (["c"], np.array(["c"]), []), wrong=([5], ["c", 1.5],
                                                          [None])),
                 special_codes=array(([-9.0], np.array([-9.0]), []),
                                     mapping=not sketch,
                                     wrong=() if sketch else ({},)),
                 binning_fit_params=mapping(
                     ({}, {"a": {"max_n_bins": 3}},
                      {"a": {"solver": "mip"}, "c": {"gamma": 1}})),
                 binning_transform_params=mapping(
                     ({}, {"a": {"metric": "event_rate"}})))
        crit = ["selection_criteria"]
        bad = PAIRS + [{c: v} for c in crit for v in (
            {"nope": {"min": 0}}, {"iv": 3}, {"iv": ["min"]},
            {"iv": {"min": -0.5}}, {"gini": {"max": 1.5}},
            {"iv": {"strategy": "best", "top": 2}},
            {"iv": {"strategy": "highest", "top": 0}},
            {"iv": {"strategy": "highest", "top": 1.5}},
            {"iv": {"strategy": "highest", "top": 0.0}},
            {"iv": {"strategy": "highest", "top": -2}},
            {"iv": {"strategy": "highest", "top": NAN}})]
        bad += [dict(binning_fit_params=v) for v in (
            {"a": {"max_n_bins": 0}}, {"a": {"solver": "nope"}},
            {"a": {"nope": 3}}, {"b": {"monotonic_trend": "nope"}})]
        if sketch:
            p.pop("min_prebin_size")
        else:
            p.update(fixed_variables=array((["a"], np.array(["b", "c"]),
                                            [])),
                     n_jobs=Dom([None, 1, np.int64(1)],
                                [1.5, "2", [1], NAN, 2.0]))
            bad += [dict(binning_fit_params={"a": {"user_splits_fixed":
                                                   [True]}})]
        super().__init__(p, bad)

    def make(self, **kw):
        from optbinning import BinningProcess, BinningProcessSketch
        kw.setdefault("variable_names", ["a", "b", "c"])
        return (BinningProcessSketch if self.sketch else BinningProcess)(**kw)

    def fit(self, e, data):
        if not self.sketch:
            return e.fit(*data)
        e.add(*data)
        return e.solve()

    def results(self, e, data):
        return [("summary", lambda: e.summary()),
                ("information", lambda: e.information()),
                ("transform", lambda: e.transform(data[0])),
                ("get_support", lambda: e.get_support()),
                ("get_binned_variable", lambda: e.get_binned_variable("a"))]


class Sketch(Binary):
    unfitted = "NotSolvedError"

    def __init__(self):
        b = Binary()
        p = {k: b.params[k] for k in (
            "name", "dtype", "solver", "divergence", "max_n_prebins",
            "min_n_bins", "max_n_bins", "min_bin_size", "max_bin_size",
            "min_bin_n_nonevent", "max_bin_n_nonevent", "min_bin_n_event",
            "max_bin_n_event", "monotonic_trend", "min_event_rate_diff",
            "max_pvalue", "max_pvalue_policy", "gamma", "cat_cutoff",
            "cat_unknown", "split_digits", "mip_solver", "time_limit",
            "verbose")}
        p.update(sketch=Dom(["gk"], ["", "nope", "GK", 5, None, ["gk"]]),
                 eps=Dom([1e-4, 0.01, 0.1, np.float64(0.05)],
                         [-0.1, 1.1, NAN, "0.1", None, [0.1], 5]),
                 K=integer(1, valid=(25, 1, np.int64(10))),
                 cat_heuristic=flag(),
                 special_codes=array(([-9.0], np.array([-9.0]), [])))
        Est.__init__(self, p, PAIRS + PAIRS_N)

    def make(self, **kw):
        from optbinning import OptimalBinningSketch
        return OptimalBinningSketch(**kw)

    def fit(self, e, data):
        if e.dtype == "categorical":
            data = cats(data)
        e.add(*data)
        return e.solve()

    def more(self, e, data):
        return [("plot_progress", lambda: e.plot_progress())]


def process(**kw):
    from optbinning import BinningProcess
    return BinningProcess(["a", "b", "c"], **kw)


class Card(Frame):
    def __init__(self):
        from sklearn.linear_model import LinearRegression, LogisticRegression
        from optbinning import OptimalBinning
        p = dict(binning_process=Dom([], [
                     None, "process", OptimalBinning(), 5, process]),
                 estimator=Dom([],
                               [None, "logit", object(), 5]),
                 scaling_method=Dom([None], ["nope", "PDO_ODDS", "", 5,
                                             ["min_max"]]),
                 intercept_based=flag(), reverse_scorecard=flag(),
                 rounding=Dom([False], [0, 1, "True", None, True]),
                 verbose=flag())
        pdo = dict(pdo=20, odds=10, scorecard_points=600)
        mm = dict(min=300, max=850)

        def s(m, q, **kw):
            return dict(scaling_method=m, scaling_method_params=q, **kw)
        bad = [s(m, q) for m in ("pdo_odds", "min_max")
               for q in (None, "a", 5, [1, 2], {}, {"min": 3})]
        bad += [s("pdo_odds", mm), s("min_max", pdo),
                s("min_max", dict(mm, extra=1)),
                s("pdo_odds", dict(pdo, extra=1)),
                s("min_max", dict(min=5, max=4)),
                s("min_max", dict(min="300", max=850)),
                s("min_max", dict(min=300, max=None)),
                s("min_max", dict(min=0.5, max=100), rounding=True),
                s("min_max", dict(min=0, max=99.5), rounding=True)]
        for k in pdo:
            for v in (0, -1, "20", None, [20]):
                bad.append(s("pdo_odds", dict(pdo, **{k: v})))
            bad.append(s("pdo_odds", {a: b for a, b in pdo.items()
                                      if a != k}))
        good = [s("pdo_odds", pdo), s("min_max", mm),
                s("min_max", mm, rounding=True),
                s("pdo_odds", pdo, rounding=True),
                s("min_max", mm, reverse_scorecard=True),
                s("pdo_odds", dict(pdo=20.5, odds=1, scorecard_points=1e-3)),
                s("min_max", dict(min=-1.5, max=np.float64(2))),
                dict(scaling_method=None, scaling_method_params={"a": 1})]
        super().__init__(p, bad, good)

    def make(self, **kw):
        from optbinning import Scorecard
        from sklearn.linear_model import LogisticRegression
        kw.setdefault("binning_process", process())
        kw.setdefault("estimator", LogisticRegression())
        return Scorecard(**kw)

    def results(self, e, data):
        X = data[0]
        out = [(k, lambda k=k: getattr(e, k)(X)) for k in (
            "score", "predict", "predict_proba", "decision_function")]
        return out + [("table", lambda: e.table()),
                      ("information", lambda: e.information())]


_CARD = {}


def card(seed=0):
    if seed not in _CARD:
        k = Card()
        with quiet():
            _CARD[seed] = k.make().fit(*k.data(seed))
    return _CARD[seed]


class Monitor(Frame):
    def __init__(self):
        from sklearn.linear_model import LogisticRegression
        p = dict(scorecard=Dom([], [None, "card", 5, process(),
                                          LogisticRegression()]),
                 psi_method=enum("cart", "quantile", "uniform",
                                 wrong=("mdlp",)),
                 psi_n_bins=Dom([20, 2, np.int64(5)],
                                [0, -1, 2.5, "3", NAN, [3], 5.0]),
                 psi_min_bin_size=Dom([0.05, 0.5, np.float64(0.1)],
                                      [0, -0.1, 0.51, NAN, "0.1", [0.1], 0.0,
                                       math.inf]),
                 show_digits=integer(0, 8), verbose=flag())
        super().__init__(p)

    def make(self, **kw):
        from optbinning.scorecard import ScorecardMonitoring
        kw.setdefault("scorecard", card())
        return ScorecardMonitoring(**kw)

    def fit(self, e, data):
        X, y = data
        return e.fit(X[:50], y[:50], X, y)

    def results(self, e, data):
        return [(k, lambda k=k: getattr(e, k)()) for k in (
            "information", "psi_table", "psi_variable_table", "tests_table",
            "system_stability_report", "psi_plot")] + [
            ("psi_splits", lambda: e.psi_splits)]


class Cf(Frame):
    def __init__(self):
        from sklearn.linear_model import LogisticRegression
        super().__init__(dict(
            scorecard=Dom([], [None, "card", 5, process(),
                                     LogisticRegression()]),
            special_missing=flag(), n_jobs=integer(1, valid=(1, 2)),
            verbose=flag()))

    def make(self, **kw):
        from optbinning.scorecard import Counterfactual
        kw.setdefault("scorecard", card())
        return Counterfactual(**kw)

    def fit(self, e, data):
        return e.fit(data[0])

    def results(self, e, data):
        return [("generate", lambda: e.generate(
            data[0].iloc[:1], 1, "binary", 1))]


class MdlpE(Est):
    def __init__(self):
        super().__init__(dict(min_samples_split=integer(2),
                              min_samples_leaf=integer(1),
                              max_candidates=integer(1, valid=(8, 32))))

    def make(self, **kw):
        from optbinning import MDLP
        return MDLP(**kw)

    def results(self, e, data):
        return [("splits", lambda: e.splits)]


class Detect(Est):
    def __init__(self, kind):
        self.kind = kind
        p = dict(
            range=dict(interval_length=real(0, 1),
                       k=Dom([0, 1.5, np.float32(2)], ["a", None]),
                       method=enum("ETI", "HDI")),
            zscore=dict(threshold=real(0, valid=(3.5,))),
            yquantile=dict(outlier_detector=enum("zscore", "range",
                                                 wrong=("yquantile",)),
                           outlier_params=mapping(({},)),
                           n_bins=integer(1)))[kind]
        super().__init__(p, [dict(outlier_detector="zscore", outlier_params={
            "threshold": -1})] if kind == "yquantile" else [])

    def make(self, **kw):
        from optbinning.binning import outlier as m
        return {"range": m.RangeDetector, "zscore": m.ModifiedZScoreDetector,
                "yquantile": m.YQuantileDetector}[self.kind](**kw)

    def results(self, e, data):
        return [("get_support", lambda: e.get_support()),
                ("indices", lambda: e.get_support(indices=True))]


MAKERS = dict(
    binary=Binary, continuous=Continuous, multiclass=Multiclass,
    scenario=Scenario, binary2d=lambda: TwoD(False),
    continuous2d=lambda: TwoD(True), pw=lambda: Pw(False),
    pwcontinuous=lambda: Pw(True), process=Process,
    processsketch=lambda: Process(True), sketch=Sketch, card=Card,
    monitor=Monitor, counterfactual=Cf, mdlp=MdlpE,
    range=lambda: Detect("range"), zscore=lambda: Detect("zscore"),
    yquantile=lambda: Detect("yquantile"))
_EST = {}


def est(name):
    if name not in _EST:
        _EST[name] = MAKERS[name]()
    return _EST[name]


# ---------------------------------------------------------------------------
def pick(draw, names, k):
    out = []
    for _ in range(k):
        n = draw(st.sampled_from(names))
        if n not in out:
            out.append(n)
    return out


def settings(E, case):
    """The documented settings of the case, made consistent."""
    kw = {}
    for n, i in case["set"]:
        if n == "*":
            continue
        elif not (n in E.alone and E.alone & set(kw)):
            d = E.params[n].valid
            kw[n] = d[i % len(d)]
    for n, i in case["set"]:
        if n == "*":
            kw.update(E.good[i % len(E.good)])
    return E.adjust(kw)


def consistent(kw):
    for a, b in (("min_n_bins", "max_n_bins"),
                 ("min_bin_size", "max_bin_size"),
                 ("min_bin_n_event", "max_bin_n_event"),
                 ("min_bin_n_nonevent", "max_bin_n_nonevent")):
        if kw.get(a) is not None and kw.get(b) is not None and \
                kw[a] > kw[b]:
            kw.pop(b)
    return kw


@st.composite
def cases(draw, name, bad):
    E = est(name)
    names = sorted(E.params)
    case = dict(est=name, seed=draw(st.integers(0, 40)), set=[])
    ok = [n for n in names if E.params[n].valid]
    for n in pick(draw, ok + ["*"] * (2 if E.good else 0),
                  draw(st.integers(0, 4))):
        case["set"].append([n, draw(st.integers(0, 20))])
    if bad:
        case["bad"] = []
        for _ in range(draw(st.integers(1, 8))):
            if E.bad and draw(st.integers(0, 3)) == 0:
                b = ["*", draw(st.integers(0, len(E.bad) - 1))]
            else:
                n = draw(st.sampled_from(names))
                b = [n, draw(st.integers(
                    0, max(0, len(E.params[n].invalid) - 1)))]
            if b not in case["bad"]:
                case["bad"].append(b)
        case["how"] = "make" if E.unfitted == "NotSolvedError" else draw(
            st.sampled_from(("make", "set", "refit")))
    return case


def unfitted(E, e, data, what):
    for name, call in E.results(e, data):
        try:
            with quiet():
                call()
        except Exception as ex:
            check(type(ex).__name__ in (E.unfitted, "NotFittedError"),
                  "{}: {} raised {}: {} instead of a not-fitted error", what,
                  name, type(ex).__name__, ex)
        else:
            raise Violation("{}: {} answered".format(what, name))


def show(kw):
    return {k: repr(v)[:60] for k, v in kw.items()}


def check_refused(case, rec):
    for n, i in case["bad"]:
        check_refusal(case, n, i, rec)


def check_refusal(case, n, i, rec):
    E = est(case["est"])
    if n == "*":
        bad = dict(E.bad[i % len(E.bad)])
    else:
        inv = E.params[n].invalid
        if not inv:
            return
        bad = {n: inv[i % len(inv)]}
    kw = consistent(settings(E, case))
    for a, b in (("min_n_bins", "max_n_bins"),
                 ("min_bin_size", "max_bin_size"),
                 ("min_bin_n_event", "max_bin_n_event"),
                 ("min_bin_n_nonevent", "max_bin_n_nonevent")):
        if a in bad or b in bad:
            kw.pop(a, None), kw.pop(b, None)
    for k in ("user_splits", "user_splits_fixed", "outlier_detector",
              "outlier_params", "scaling_method", "scaling_method_params"):
        kw.pop(k, None)
    if any(k.startswith(("outlier", "user_splits")) for k in bad):
        kw.pop("dtype", None)
    if "rounding" in bad:
        pass
    elif "scaling_method" in bad:
        kw.pop("rounding", None)
    if "degree" in bad or "monotonic_trend" in bad:
        kw.pop("degree", None), kw.pop("monotonic_trend", None)
    for k in bad:
        kw.pop(k, None)
    rec.label("est", case["est"], "bad", sorted(bad)[0] if n != "*" else
              "combination")
    data = E.data(case["seed"])
    what = "{} with {}{}".format(case["est"], show(bad),
                                 " and {}".format(show(kw)) if kw else "")
    fresh = case["how"] != "refit"
    try:
        with quiet():
            if case["how"] == "make":
                e = None
                e = E.make(**dict(kw, **bad))
            else:
                e = E.make(**kw)
                if not fresh:
                    E.fit(e, data)
                e.set_params(**bad)
    except REFUSED as ex:
        if case["how"] == "make":
            rec.nontrivial(bool(kw))
            return              # refused by the constructor
        if not fresh:
            raise Skip("valid settings refused: {}".format(ex))
        raise Violation("{}: building the estimator raised {}: {}".format(
            what, type(ex).__name__, ex))
    try:
        with quiet():
            E.fit(e, data)
    except REFUSED:
        pass
    except Exception as ex:
        raise Violation("{}: refused with {}: {}".format(
            what, type(ex).__name__, ex))
    else:
        raise Violation("{}: accepted".format(what))
    if fresh:
        unfitted(E, e, data, what + ", after the refusal")
    rec.nontrivial(bool(kw))


def check_accepted(case, rec):
    E = est(case["est"])
    kw = consistent(settings(E, case))
    rec.label("est", case["est"])
    for k in kw:
        rec.label("param", k)
    data = E.data(case["seed"])
    what = "{} with {}".format(case["est"], show(kw))
    try:
        with quiet():
            e = E.make(**kw)
        unfitted(E, e, data, what + ", before fit")
        with quiet():
            r = E.fit(e, data)
    except REFUSED as ex:
        msg = str(ex)
        if "pure prebins" in msg:
            raise Skip(msg)
        raise Violation("{}: refused with {}: {}".format(
            what, type(ex).__name__, ex))
    check(r is e, "{}: fit returned {}", what, type(r).__name__)
    for name, call in E.results(e, data):
        if name == "plot_progress":
            continue
        try:
            with quiet():
                call()
        except Exception as ex:
            raise Violation("{}: {} raised {}: {}".format(
                what, name, type(ex).__name__, ex))
    rec.nontrivial(len(kw) >= 2)


# ---------------------------------------------------------------------------
# options of the methods of a fitted instance
DIGITS = [-1, 9, 2.5, "2", None]
LEVEL = [dict(print_level=v) for v in (-1, 1.5, "1", None)]
TRANSFORM = [dict(metric=m) for m in ("nope", "", 5, "WOE", ["woe"])] + [
    dict(show_digits=v, metric="bins") for v in DIGITS] + [
    dict(metric_special=v) for v in ("nope", [1], "EMPIRICAL")] + [
    dict(metric_missing=v) for v in ("nope", [1], "EMPIRICAL")]
BUILD = [dict(show_digits=v) for v in DIGITS] + [
    dict(add_totals=v) for v in (1, "True", None)]
ANALYSIS = [dict(pvalue_test=v) for v in ("nope", None, 5, "Fisher")] + [
    dict(n_samples=v) for v in (0, -1, 2.5, "3")]
PLOT = [dict(metric="nope"), dict(metric=5)]
PLOT1D = PLOT + [
    dict(add_special=1), dict(add_special="x"), dict(add_missing=0),
    dict(style="nope"), dict(style=3), dict(style=None),
    dict(show_bin_labels=1), dict(figsize="a"), dict(figsize=[3, 2]),
    dict(style="actual", show_bin_labels=True)]
SAVE = [dict(savefig=5), dict(savefig=["a"]), dict(savefig=True)]
GENERATE = [
    dict(query=None), dict(query=[1, 2]), dict(query="a"), dict(y="1"),
    dict(y=None), dict(y=2), dict(y=0.5), dict(y=-1),
    dict(outcome_type="nope"), dict(outcome_type="continuous"),
    dict(outcome_type=None), dict(n_cf=0), dict(n_cf=-1), dict(n_cf=1.5),
    dict(n_cf="1"), dict(n_cf=None), dict(method="nope"), dict(method=None),
    dict(objectives=["proximity"]), dict(objectives={}),
    dict(objectives={"nope": 1}), dict(objectives={"proximity": 0}),
    dict(objectives={"proximity": -1}), dict(objectives={"closeness": "a"}),
    dict(max_changes=0), dict(max_changes=-2), dict(max_changes=1.5),
    dict(max_changes="1"), dict(actionable_features="a"),
    dict(actionable_features=["nope"]), dict(actionable_features=["a", 5]),
    dict(actionable_features={"a": 1}), dict(hard_constraints="abc"),
    dict(hard_constraints={"diversity_values": 1}),
    dict(hard_constraints=["nope"]), dict(hard_constraints=["min_outcome"]),
    dict(hard_constraints=["diversity_values"] * 2),
    dict(soft_constraints=["diversity_values"]),
    dict(soft_constraints={"nope": 1}),
    dict(soft_constraints={"diff_outcome": 1}),
    dict(soft_constraints={"diversity_values": 0}),
    dict(soft_constraints={"diversity_values": "a"}),
    dict(priority_tol=-0.1), dict(priority_tol=1.1), dict(priority_tol=NAN),
    dict(priority_tol="a"), dict(priority_tol=None), dict(time_limit=0),
    dict(time_limit=-1), dict(time_limit="a"), dict(time_limit=None),
    dict(outcome_type="probability"),
    dict(outcome_type="probability", y=1.5),
    dict(outcome_type="probability", y=-0.1),
    dict(outcome_type="probability", hard_constraints=["diversity_values"])]
GENERATE_OK = [
    {}, dict(y=0), dict(y=np.int64(1)), dict(method="hierarchical"),
    dict(objectives={"proximity": 1, "closeness": 0.5}),
    dict(max_changes=np.int64(2)), dict(actionable_features=["a", "b"]),
    dict(actionable_features=np.array(["a"])),
    dict(outcome_type="probability", y=0.5,
         hard_constraints=["min_outcome"]),
    dict(outcome_type="probability", y=np.float64(0.5),
         soft_constraints={"diff_outcome": 2}),
    dict(soft_constraints={"diversity_values": 1}, n_cf=2),
    dict(hard_constraints=("diversity_features",), n_cf=np.int64(2)),
    dict(priority_tol=0), dict(priority_tol=1, method="hierarchical"),
    dict(time_limit=3.5)]
PERF = [dict(title=5), dict(xlabel=5), dict(ylabel=["a"]), dict(savefig=1),
        dict(savefig="a.png"), dict(fname=5), dict(savefig=True)]


def table_calls(kind, e):
    t = e.binning_table
    two = kind in ("binary2d", "continuous2d")
    pw = kind.startswith("pw")
    out = [("build", t.build, BUILD)]
    if kind in ("binary", "scenario", "binary2d", "multiclass", "pw",
                "sketch"):
        an = ANALYSIS
        if kind == "multiclass":
            an = ANALYSIS[:0]
        out.append(("analysis", lambda **k: t.analysis(
            print_output=False, **k), an))
    # a plain option is a type error where it does not exist
    out.append(("plot", t.plot, (PLOT if two else PLOT1D) + SAVE))
    if two:
        out.append(("build", t.build, [dict(show_bin_xy=v)
                                       for v in ("a", 1, None)]))
    if pw:
        out.append(("plot", t.plot, [dict(n_samples=v)
                                     for v in (-1, "a", 2.5)]))
    return out


def calls(kind, e, data):
    """(method, call, invalid options) of a fitted instance."""
    E = est(kind)
    q = data[0][0] if kind == "scenario" else data[0]
    if kind in ("range", "zscore", "yquantile", "mdlp"):
        return []
    out = []
    if kind not in ("card", "monitor", "counterfactual"):
        a = data[:2] if "2d" in kind else (q,)
        tr = TRANSFORM
        if kind == "pwcontinuous":
            tr = [k for k in TRANSFORM if "metric" not in k]
        if kind == "pw":
            tr = [k for k in TRANSFORM if "show_digits" not in k]
        out.append(("transform", lambda **k: e.transform(*a, **k), tr))
        if "process" not in kind:
            e.binning_table.build()
            if kind != "continuous":
                e.binning_table.analysis(print_output=False)
            out += table_calls(kind, e)
        else:
            out += [("get_support", e.get_support,
                     [dict(indices=True, names=True)]),
                    ("get_binned_variable", e.get_binned_variable,
                     [dict(name=v) for v in ("nope", 5, None)])]
            out.append(("save", e.save, [dict(path=v)
                                         for v in (5, None, ["a"])]))
        if kind in ("binary", "continuous", "multiclass"):
            out.append(("to_json", e.to_json, [dict(path=None)]))
    elif kind == "card":
        out += [("table", e.table, [dict(style=v) for v in
                                    ("nope", None, 5, "Summary")]),
                ("save", e.save, [dict(path=v) for v in (5, None, ["a"])])]
    elif kind == "monitor":
        out += [("psi_variable_table", e.psi_variable_table,
                 [dict(style=v) for v in ("nope", None, 5)] +
                 [dict(name=v) for v in ("nope", 5)] +
                 [dict(name="a", style="nope")]),
                ("psi_plot", e.psi_plot, SAVE)]
    else:
        full = dict(query=q.iloc[:1], y=1, outcome_type="binary", n_cf=1)
        out.append(("generate", lambda **k: e.generate(**dict(full, **k)),
                    GENERATE))
        with quiet():
            e.generate(**full)
        out.append(("display", e.display, [
            dict([(k, v)]) for k in ("show_only_changes", "show_outcome")
            for v in (1, "True", None)]))
    if hasattr(e, "information"):
        out.append(("information", e.information, LEVEL))
    return out


_FITTED = {}


def fitted(kind, seed):
    if (kind, seed) not in _FITTED:
        E = est(kind)
        d = E.data(seed)
        with quiet():
            e = E.make()
            E.fit(e, d)
        _FITTED[kind, seed] = e, d
    return _FITTED[kind, seed]


@st.composite
def call_cases(draw, kinds):
    return dict(est=draw(st.sampled_from(kinds)), seed=draw(
        st.integers(0, 3)), call=draw(st.integers(0, 12)),
        opt=draw(st.integers(0, 70)))


def check_calls(case, rec):
    import matplotlib.pyplot as plt
    kind = case["est"]
    e, data = fitted(kind, case["seed"])
    with quiet():
        cs = [c for c in calls(kind, e, data) if c[2]]
    if not cs:
        raise Skip("no options")
    name, f, bad = cs[case["call"] % len(cs)]
    rec.label("est", kind, "method", name)
    for i in range(min(8, len(bad))):
        kw = bad[(case["opt"] + i) % len(bad)]
        what = "{}.{}({})".format(kind, name, show(kw))
        try:
            with quiet():
                f(**kw)
        except REFUSED:
            rec.nontrivial()
        except Exception as ex:
            raise Violation("{}: refused with {}: {}".format(
                what, type(ex).__name__, ex))
        else:
            raise Violation("{}: accepted".format(what))
        finally:
            plt.close("all")


@st.composite
def plot_perf_cases(draw):
    return dict(plot=draw(st.sampled_from(("auc_roc", "cap", "ks"))),
                opt=draw(st.integers(0, len(PERF) - 1)))


def check_plot_perf(case, rec):
    import matplotlib.pyplot as plt
    import optbinning.scorecard as m
    y, s = [0, 1, 0, 1, 1], [0.1, 0.4, 0.3, 0.9, 0.7]
    kw = PERF[case["opt"]]
    what = "plot_{}({})".format(case["plot"], show(kw))
    try:
        with quiet():
            getattr(m, "plot_" + case["plot"])(y, s, **kw)
    except REFUSED:
        rec.nontrivial()
    except Exception as ex:
        raise Violation("{}: refused with {}: {}".format(
            what, type(ex).__name__, ex))
    else:
        raise Violation("{}: accepted".format(what))
    finally:
        plt.close("all")


@st.composite
def generate_cases(draw):
    return dict(seed=draw(st.integers(0, 3)), row=draw(st.integers(0, 80)),
                opt=draw(st.integers(0, len(GENERATE_OK) - 1)))


def check_generate(case, rec):
    """Documented requests are accepted, or found to have no answer."""
    e, data = fitted("counterfactual", case["seed"])
    kw = GENERATE_OK[case["opt"]]
    q = data[0].iloc[case["row"]:case["row"] + 1]
    full = dict(dict(query=q, y=1, outcome_type="binary", n_cf=1), **kw)
    try:
        with quiet():
            e.generate(**full)
    except REFUSED as ex:
        if "singular" in str(ex).lower():
            raise Skip(str(ex))
        raise Violation("generate({}): refused with {}: {}".format(
            show(kw), type(ex).__name__, ex))
    except np.linalg.LinAlgError as ex:
        raise Skip(str(ex))
    except Exception as ex:
        if type(ex) is not Exception:
            raise
        raise Skip("hierarchical problem without an answer")
    check(isinstance(e.status, str), "status {!r}", e.status)
    rec.nontrivial(bool(kw))


@st.composite
def table_cases(draw):
    return dict(est=draw(st.sampled_from((
        "binary", "continuous", "multiclass", "scenario", "binary2d",
        "continuous2d", "pw", "pwcontinuous"))),
        seed=draw(st.integers(0, 20)), built=draw(st.booleans()))


def check_tables(case, rec):
    """Tables refuse to answer before they are built and analysed."""
    E = est(case["est"])
    data = E.data(case["seed"])
    with quiet():
        e = E.make()
        E.fit(e, data)
        t = e.binning_table
        if case["built"]:
            t.build()
    # a table handed out again may be the same object, which is then built
    names = ["quality_score"] if case["built"] else [
        "iv", "js", "gini", "ks", "hellinger", "triangular", "woe",
        "quality_score"]
    # values carried over from the fit need not be refused: only a call that
    # has nothing to return
    for n in names:
        if n not in dir(type(t)):
            continue
        what = "{}: {} of a table not {}".format(
            case["est"], n, "analysed" if case["built"] else "built")
        try:
            v = getattr(t, n)
        except Exception as ex:
            check(type(ex).__name__ == "NotFittedError",
                  "{} raised {}: {}", what, type(ex).__name__, ex)
        else:
            check(v is not None, "{} is None", what)
    if not case["built"]:
        for n in ("plot", "analysis"):
            what = "{}: {} of a table not built".format(case["est"], n)
            try:
                with quiet():
                    getattr(t, n)()
            except Exception as ex:
                check(type(ex).__name__ == "NotFittedError",
                      "{} raised {}: {}", what, type(ex).__name__, ex)
            else:
                raise Violation(what + " answered")
    rec.label("est", case["est"])
    rec.nontrivial()


def sub(name, bad, quick):
    return Sub(("refuse-" if bad else "accept-") + name, lambda: cases(name, bad),
               check_refused if bad else check_accepted, quick)


SUBS = []
for _n in MAKERS:
    SUBS += [sub(_n, True, 100), sub(_n, False, 60)]
CALLS = ("binary", "continuous", "multiclass", "scenario", "binary2d",
         "continuous2d", "pw", "pwcontinuous", "process", "processsketch",
         "sketch", "card", "monitor", "counterfactual")
SUBS += [Sub("calls", lambda: call_cases(CALLS), check_calls, 600),
         Sub("calls-counterfactual", lambda: call_cases(("counterfactual",)),
             check_calls, 200),
         Sub("generate-accepted", generate_cases, check_generate, 60),
         Sub("performance-plots", plot_perf_cases, check_plot_perf, 40),
         Sub("tables-before-build", table_cases, check_tables, 80)]
