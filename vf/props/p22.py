"""P22: a binning process against one binning per variable."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

import frames
import gen
from core import Skip, Sub, check, must_raise, observing

RULE = ("A case is a data frame (or array) of mixed variables with a binary, "
        "continuous or multiclass target, process options, options and "
        "transform options of single variables, a selection and calls of "
        "transform. Every variable is also binned on its own with the same "
        "options; statuses, splits, tables and transformed columns must be "
        "equal. Non-trivial: two or more variables, two of them binned into "
        "two or more bins, and options of a single variable.")
ASSUMPTIONS = ["cases are skipped where the CP solver returns another "
               "equally good solution",
               "where an individual binning cannot be fitted, the process "
               "must fail as well",
               "columns of dtype object and those listed in "
               "categorical_variables are categorical"]

METRICS = {"binary": ("woe", "woe", "event_rate", "indices", "bins", None),
           "continuous": ("mean", "indices", "bins", None),
           "multiclass": ("mean_woe", "weighted_mean_woe", "indices", "bins",
                          None)}
DEFAULT = {"binary": "woe", "continuous": "mean", "multiclass": "mean_woe"}


@st.composite
def fit_params(draw, fr, j):
    p = {}
    t, kind = fr["target"], fr["kinds"][j]
    cat = kind in ("cat", "catnum")
    if fr["own"][j]:
        p["special_codes"] = list(fr["own"][j])
    if draw(st.integers(0, 3)) == 0:
        p["max_n_bins"] = draw(st.integers(2, 6))
    if draw(st.integers(0, 3)) == 0:
        p["max_bin_size"] = draw(st.sampled_from((0.5, 0.7, 1.0)))
    if draw(st.integers(0, 4)) == 0:
        p["min_prebin_size"] = draw(st.sampled_from((0.02, 0.1)))
    if draw(st.integers(0, 4)) == 0:
        p["max_n_prebins"] = draw(st.integers(2, 8))
    if draw(st.integers(0, 3)) == 0 and not cat:
        p["prebinning_method"] = draw(st.sampled_from(("quantile",
                                                       "uniform")))
    if t == "binary" and draw(st.integers(0, 4)) == 0:
        p["divergence"] = draw(st.sampled_from(("js", "hellinger")))
    if draw(st.integers(0, 3)) == 0:
        p["monotonic_trend"] = draw(st.sampled_from((
            ["ascending", None] if t != "multiclass" else [None, "auto"])))
    if t != "continuous" and draw(st.integers(0, 4)):
        p["solver"] = "mip"
    if t != "multiclass" and cat and draw(st.booleans()):
        p["cat_cutoff"] = draw(st.sampled_from((0.05, 0.2)))
    if kind == "catnum" and draw(st.integers(0, 2)) == 0:
        p["dtype"] = "categorical"  # and not a categorical_variable
    return p


@st.composite
def cases(draw, tgt, m_hi=4, m_lo=1):
    fr = draw(frames.frame(tgt, m_lo=m_lo, m_hi=m_hi, n_hi=140,
                           cats=tgt != "multiclass"))
    o = draw(frames.process_opts(fr))
    if draw(st.integers(0, 2)) == 0:
        o["min_prebin_size"] = draw(st.sampled_from((0.02, 0.1, 0.2)))
    nj = draw(st.sampled_from((None, None, 1, 2, 3)))
    if nj:
        o["n_jobs"] = nj
    fp = {}
    for j, v in enumerate(fr["names"]):
        p = draw(fit_params(fr, j))
        if p:
            fp[v] = p
    mets = METRICS[tgt]
    w = None
    if tgt == "binary" and draw(st.integers(0, 3)) == 0:
        w = [1 + b % 3 for b in gen.rbytes(draw, fr["n"])]
    tp = None
    if draw(st.integers(0, 2)):
        tp = draw(frames.transform_params(
            fr, [q for q in mets if q not in (None, "bins")], p=1))
    return dict(fr=fr, opt=o, fit=fp, w=w, tp=tp,
                array_codes=draw(st.booleans()),
                ndarray=draw(st.integers(0, 2)) == 0,
                call=draw(frames.call_opts(mets)),
                crit=draw(frames.criteria_spec(tgt)),
                use_crit=draw(st.booleans()),
                fixed=draw(st.integers(0, 3)) == 0,
                perm=draw(st.permutations(range(len(fr["names"])))),
                rows=gen.rbytes(draw, draw(st.integers(1, 20))),
                extra=draw(st.booleans()))


def codes(case):
    s = gen.special_arg(case["fr"]["special"])
    if isinstance(s, list) and case.get("array_codes"):
        return np.array(s)
    return s


def cat_names(fr):
    return [v for v, k in zip(fr["names"], fr["kinds"]) if k == "catnum"]


def is_array(case):
    return case["ndarray"] and "cat" not in case["fr"]["kinds"]


def process_args(case, **kw):
    fr = case["fr"]
    return dict(
        variable_names=list(fr["names"]),
        categorical_variables=[
            v for v in cat_names(fr)
            if "dtype" not in case["fit"].get(v, {})] or None,
        special_codes=codes(case),
        binning_fit_params={k: dict(v) for k, v in case["fit"].items()}
        or None,
        binning_transform_params=({k: dict(v) for k, v in
                                   case["tp"].items()}
                                  if case["tp"] else None),
        **dict(case["opt"], **kw))


def make(case, **kw):
    from optbinning import BinningProcess
    return BinningProcess(**process_args(case, **kw))


def data(case, rows=None, **kw):
    if is_array(case):
        return frames.matrix(case["fr"], rows)
    return frames.dataframe(case["fr"], rows, **kw)


def col(case, X, j):
    if isinstance(X, np.ndarray):
        return X[:, j]
    return X[case["fr"]["names"][j]]


def make_one(case, j):
    import optbinning
    fr = case["fr"]
    v = fr["names"][j]
    kw = {k: q for k, q in case["opt"].items() if k != "n_jobs"}
    kw["special_codes"] = codes(case)
    kw.update(case["fit"].get(v, {}))
    kw.pop("dtype", None)
    if fr["target"] == "multiclass":
        return optbinning.MulticlassOptimalBinning(name=v, **kw)
    cls = {"binary": optbinning.OptimalBinning,
           "continuous": optbinning.ContinuousOptimalBinning}[fr["target"]]
    return cls(name=v, dtype=("categorical" if fr["kinds"][j] in
                              ("cat", "catnum") else "numerical"), **kw)


def fit_one(case, ob, x, y):
    if case.get("w") is not None:
        return ob.fit(x, y, sample_weight=np.array(case["w"], dtype=float))
    return ob.fit(x, y)


def objective(tgt):
    if tgt == "binary":
        return frames.divergence_of

    def f(ob):
        ob.binning_table.build()
        ob.binning_table.analysis(print_output=False)
        return float(ob.binning_table.woe if tgt == "continuous" else
                     ob.binning_table.js)
    return f


def same_binnings(case, bp, ones, what):
    """Binnings of the process and the individual ones."""
    fr = case["fr"]
    got = [bp.get_binned_variable(v) for v in fr["names"]]
    tabs = [g.binning_table.build() for g in got]
    wants = [o.binning_table.build() for o in ones]
    with observing(what + "binnings"):
        for j, v in enumerate(fr["names"]):
            w = "{}variable {}".format(what, v)
            g, o = got[j], ones[j]
            check(type(g) is type(o), "{}: {} instead of {}", w, type(g),
                  type(o))
            check(g.name == v and g.dtype == o.dtype, "{}: name {} and dtype "
                  "{}", w, g.name, g.dtype)
            check(g.status == o.status, "{}: status {}, expected {}", w,
                  g.status, o.status)
            if frames.tie(g, o, objective(fr["target"])):
                raise Skip("equally good solutions")
            frames.same_splits(g.splits, o.splits, w)
            frames.same_table(tabs[j], wants[j], w)


def transformed(case, bp, ones, X, call, sel, what):
    """transform of the process against the individual columns."""
    fr = case["fr"]
    names, tp = fr["names"], case["tp"] or {}
    dflt = DEFAULT[fr["target"]]
    n = len(X)
    if not sel:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            T = bp.transform(X, **call)
        check(T.shape == (n, 0), "{}shape {} without selected variables",
              what, T.shape)
        return False
    ms = {tp.get(names[j], {}).get("metric", call.get("metric"))
          for j in sel}
    if call.get("metric") is not None:
        ms.add(call["metric"])
    if "bins" in ms and len(ms) > 1:
        with must_raise(ValueError, what + "mixing bins and numbers"):
            bp.transform(X, **call)
        return False
    before = X.copy()
    T = bp.transform(X, **call)
    frame = not isinstance(X, np.ndarray)
    with observing(what + "transform"):
        if frame:
            check(X.equals(before), "{}transform changed its input", what)
            check(list(T.columns) == [names[j] for j in sel] and
                  list(T.index) == list(X.index),
                  "{}columns {} and index {}..., expected {}", what,
                  list(T.columns), list(T.index)[:3], [names[j] for j in sel])
        else:
            check(np.array_equal(X, before, equal_nan=True),
                  "{}transform changed its input", what)
            check(isinstance(T, np.ndarray) and T.shape == (n, len(sel)),
                  "{}{} of shape {}", what, type(T), np.shape(T))
        for i, j in enumerate(sel):
            kw = dict(call)
            kw.update(tp.get(names[j], {}))
            if kw.get("metric") is None:
                kw["metric"] = dflt
            want = ones[j].transform(col(case, X, j), **kw)
            got = T.iloc[:, i] if frame else T[:, i]
            frames.same_column(list(got), list(want), "{}{} of {}".format(
                what, kw["metric"], names[j]))
    return True


def fitted(case, X, y):
    """Individual binnings, or the error one of them raises."""
    ones = []
    for j in range(len(case["fr"]["names"])):
        ob = make_one(case, j)
        try:
            fit_one(case, ob, col(case, X, j), y)
        except Exception as e:
            return None, e
        ones.append(ob)
    return ones, None


def run(case, rec):
    fr = case["fr"]
    tgt, names = fr["target"], fr["names"]
    X, y = data(case), frames.target(fr)
    if not isinstance(X, np.ndarray):
        X = frames.dataframe(fr, index=np.arange(fr["n"]) * 2 + 1,
                             order=case["perm"])
    if tgt == "multiclass" and len(set(fr["y"])) < 3:
        raise Skip("two classes")
    wkw = {} if case["w"] is None else {"sample_weight": np.array(
        case["w"], dtype=float)}
    ones, err = fitted(case, X, y)
    bp = make(case)
    if err is not None:
        with must_raise((Exception,), "fit although {!r}".format(err)):
            bp.fit(X, y, **wkw)
        raise Skip("an individual binning cannot be fitted")
    before = X.copy()
    bp.fit(X, y, **wkw)
    check(X.equals(before) if hasattr(X, "equals") else
          np.array_equal(X, before, equal_nan=True), "fit changed its input")
    same_binnings(case, bp, ones, "")
    with observing("support"):
        check(all(bp.get_support()) and len(bp.get_support()) == len(names),
              "without criteria {} are selected", list(bp.get_support()))
    every = list(range(len(names)))
    call = case["call"]
    transformed(case, bp, ones, X, call, every, "")
    # other rows, other column order, further columns
    rows = [b * fr["n"] // 256 for b in case["rows"]]
    if isinstance(X, np.ndarray):
        Q = frames.matrix(fr, rows)
    else:
        Q = frames.dataframe(fr, rows, index=[7] * len(rows),
                             extra=case["extra"])
    transformed(case, bp, ones, Q, call, every, "new rows: ")
    transformed(case, bp, ones, Q, {}, every, "default metric: ")
    # fit_transform and a selection
    crit, fixed = None, None
    if case["use_crit"]:
        vals = {v: frames.stats(ob, tgt) for v, ob in zip(names, ones)}
        if any(x != x for q in vals.values() for x in q.values()):
            raise Skip("statistics are not defined")
        crit = frames.criteria(case["crit"], vals, names, tgt)
        if case["fixed"]:
            fixed = [names[case["rows"][0] % len(names)]]
    bp = make(case, selection_criteria=crit, fixed_variables=fixed)
    tp = case["tp"] or {}
    ms = {tp.get(v, {}).get("metric", call["metric"]) for v in names}
    if "bins" in ms | {call["metric"]}:
        T = bp.fit(X, y, **wkw)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            T = bp.fit_transform(X, y, **wkw, **call)
            T2 = bp.transform(X, **call)
        check(np.array_equal(np.asarray(T, dtype=float),
                             np.asarray(T2, dtype=float), equal_nan=True),
              "fit_transform differs from fit and transform")
    same_binnings(case, bp, ones, "with criteria: ")
    sel = [j for j, b in enumerate(bp.get_support()) if b]
    if crit is not None:
        ok = frames.supports(vals, crit, fixed, names, tgt)
        check(frozenset(sel) in ok, "selected {}, expected {} with {}", sel,
              lambda: [sorted(q) for q in ok], crit)
    transformed(case, bp, ones, Q, call, sel, "with criteria: ")
    now, args = bp.get_params(), process_args(case)
    for k in ("binning_fit_params", "binning_transform_params",
              "categorical_variables", "variable_names"):
        check(now[k] == args[k], "{} was {} and is {}", k, args[k], now[k])
    with observing("summary"):
        s = bp.summary().set_index("name")
        for v, o in zip(names, ones):
            check(s.loc[v, "dtype"] == o.dtype, "summary: dtype of {} is {}",
                  v, s.loc[v, "dtype"])
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        bp.information(print_level=2)
    with observing("information"):
        lines = [ln.split() for ln in buf.getvalue().splitlines()]
        for label, k in (("records", fr["n"]), ("variables", len(names)),
                         ("selected", len(sel)),
                         ("categorical", sum(k in ("cat", "catnum")
                                             for k in fr["kinds"]))):
            ln = [q for q in lines if q[:3] == ["Number", "of", label]]
            check(ln and ln[0][-1] == str(k), "information shows {}, {} "
                  "expected {}", ln, label, k)
    rec.label(tgt, "vars=%d" % len(names), "metric=%s" % call["metric"],
              "array" if isinstance(X, np.ndarray) else "frame",
              "jobs=%s" % case["opt"].get("n_jobs"))
    rec.nontrivial(len(names) >= 2 and bool(case["fit"] or case["tp"]) and
                   sum(len(ob.splits) >= 1 for ob in ones) >= 2)


SUBS = [
    Sub("binary", lambda: cases("binary"), run, 400, rule="binary target"),
    Sub("continuous", lambda: cases("continuous"), run, 300,
        rule="continuous target"),
    Sub("multiclass", lambda: cases("multiclass"), run, 300,
        rule="multiclass target"),
]
