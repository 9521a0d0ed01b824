"""P33: checked input is refused when invalid and changes nothing otherwise."""
import copy

import numpy as np
from hypothesis import strategies as st

import gen
import zoo
from core import Skip, Sub, check
from props import p07

RULE = ("A case is an estimator with drawn options, a data set and one way "
        "of spoiling it (an infinite feature value, a missing target, a "
        "target of another length, weights of another length). The estimator "
        "fitted with check_input=True has to report what the one fitted "
        "without reports; the spoiled data has to be refused with a "
        "ValueError by fit (and an infinite value by transform), and the "
        "refused instance still fits the valid data. Non-trivial: the valid "
        "data is fitted and the spoiled one differs from it.")
ASSUMPTIONS = ["without check_input spoiled data is not judged, except "
               "weights of another length, which are always refused",
               "an instance which has solved a problem with an equally good "
               "solution is skipped"]


def spoil_x(x, k, v, only=None):
    """A copy of the feature(s) with one numeric value replaced, or None."""
    import pandas as pd
    if isinstance(x, list) and x and isinstance(x[0], np.ndarray):
        j = k % len(x)
        z = spoil_x(x[j], k // len(x), v)
        return None if z is None else x[:j] + [z] + x[j + 1:]
    if isinstance(x, pd.DataFrame):
        cols = [i for i in range(x.shape[1]) if x.dtypes.iloc[i].kind in "fiu"
                and (only is None or x.columns[i] in only)]
        if not cols:
            return None
        i = cols[k % len(cols)]
        z = x.copy()
        c = x.iloc[:, i].astype(float).copy()
        c.iloc[k // 7 % len(c)] = v
        z[z.columns[i]] = c
        return z
    if isinstance(x, list):
        z = spoil_x(np.asarray(x), k, v)
        return None if z is None else list(z)
    if x.dtype.kind not in "fiu":
        return None
    z = x.astype(float).copy()
    if getattr(z, "ndim", 1) == 2:
        z[k // 7 % len(z), k % z.shape[1]] = v
    elif isinstance(z, pd.Series):
        z.iloc[k % len(z)] = v
    else:
        z[k % len(z)] = v
    return z


def cut(y, extra=False):
    """A copy with one entry less (or more)."""
    import pandas as pd
    if isinstance(y, list) and y and isinstance(y[0], np.ndarray):
        return [cut(y[0])] + y[1:]
    if isinstance(y, pd.Series):
        return y.iloc[:-1]
    return y[:-1]


KINDS = {
    "binary": (zoo.Binning1D, ("binary",)),
    "categorical": (zoo.Binning1D, ("binary", True)),
    "continuous": (zoo.Binning1D, ("continuous",)),
    "categorical-mean": (zoo.Binning1D, ("continuous", True)),
    "multiclass": (zoo.Binning1D, ("multiclass",)),
    "scenario": (zoo.Scenario, ()),
    "binary2d": (zoo.Binning2D, (False,)),
    "continuous2d": (zoo.Binning2D, (True,)),
    "piecewise": (zoo.Piecewise, (False,)),
    "piecewise-mean": (zoo.Piecewise, (True,)),
    "process": (zoo.Process, ("binary",)),
    "process-mean": (zoo.Process, ("continuous",)),
    "card": (zoo.Card, ("binary",)),
}


@st.composite
def cases(draw, kind):
    K, a = KINDS[kind]
    return dict(case=draw(K.cases(*a)), kind=kind,
                way=draw(st.sampled_from(("inf", "inf", "y nan", "y short",
                                          "weights"))),
                k=draw(st.integers(0, 500)), sign=draw(st.sampled_from(
                    (1.0, -1.0))), arg=draw(st.integers(0, 1)))


def spoiled(case, a, k):
    """Arguments of fit, or None where the way does not apply."""
    a, k = list(a), dict(k)
    way, kind = case["way"], case["kind"]
    t = len(a) - 1
    if way == "inf":
        i = case["arg"] if kind.endswith("2d") else 0
        # columns which are no variables are not looked at
        only = case["case"]["fr"]["names"] if kind == "card" else None
        z = spoil_x(a[i], case["k"], case["sign"] * np.inf, only)
        if z is None:
            return None
        a[i] = z
    elif way == "y nan":
        z = spoil_x(a[t], case["k"], np.nan)
        if z is None:
            return None
        a[t] = z
    elif way == "y short":
        a[t] = cut(a[t])
    else:
        if kind in ("multiclass", "scenario", "binary2d", "continuous2d",
                    "piecewise", "piecewise-mean"):
            return None
        k["sample_weight"] = np.ones(len(a[t]) + 1)
    return a, k


def refuse(fn, what):
    _, e = p07.attempt(fn)
    check(e is not None, "{}: no error", what)
    check(isinstance(e, ValueError), "{}: {!r} instead of a ValueError",
          what, e)


def run(case, rec):
    from props.p32 import external
    k = KINDS[case["kind"]][0](case["case"])
    plain = k.make()
    a, kw = k.args(0)
    _, e = p07.attempt(lambda: plain.fit(*a, **kw))
    if e is not None:
        if isinstance(e, (ValueError, np.linalg.LinAlgError)) or external(e):
            raise Skip("refused data")
        raise e
    est = k.make()
    a, kw = k.args(0)
    bad = spoiled(case, a, kw)
    if bad is not None:
        checked = dict(bad[1], check_input=True)
        what = "{} with {}".format(case["kind"], case["way"])
        refuse(lambda: est.fit(*copy.deepcopy(bad[0]), **checked), what)
        if case["way"] == "weights":
            refuse(lambda: k.make().fit(*copy.deepcopy(bad[0]), **bad[1]),
                   what + " (unchecked)")
    a, kw = k.args(0)
    a0, kw0 = copy.deepcopy((a, kw))
    _, e = p07.attempt(lambda: est.fit(*a, **dict(kw, check_input=True)))
    check(e is None, "{}: valid data is refused: {!r}", case["kind"], e)
    zoo.unchanged(a, a0, "arguments of a checked fit")
    if k.tie(est, plain):
        raise Skip("equally good solutions")
    for name, fn in k.observations():
        p07.match(k, name, p07.attempt(lambda: fn(est)),
                  p07.attempt(lambda: fn(plain)), "checked: " + name)
    # transform
    tr = getattr(est, "transform", None)
    if tr is not None and case["kind"] != "card":
        X = k.args(0)[0]
        X = X[:2] if case["kind"].endswith("2d") else [
            X[0][0] if case["kind"] == "scenario" else X[0]]
        tie_free = p07.attempt(lambda: plain.transform(*X))
        p07.match(k, "transform", p07.attempt(
            lambda: est.transform(*X, check_input=True)), tie_free,
            "checked transform")
        i = case["arg"] if len(X) > 1 else 0
        z = spoil_x(X[i], case["k"], case["sign"] * np.inf)
        if z is not None and selected(case, est, X[i], z):
            Z = X[:i] + [z] + X[i + 1:]
            refuse(lambda: est.transform(*Z, check_input=True),
                   "{}: transform of inf".format(case["kind"]))
    rec.label(case["kind"], case["way"] if bad else "no change")
    rec.nontrivial(bad is not None)


def selected(case, est, X, z):
    """Whether the spoiled column takes part in the transform."""
    if not case["kind"].startswith("process"):
        return True
    import pandas as pd
    names = list(est.variable_names)
    s = set(est.get_support(names=True))
    if isinstance(X, pd.DataFrame):
        new = {c for c in X.columns if not np.array_equal(
            np.asarray(X[c]), np.asarray(z[c])) and np.isinf(
                np.asarray(z[c], dtype=float)).any()}
    else:
        j = np.flatnonzero(np.isinf(z).any(axis=0))
        new = {names[i] for i in j}
    return bool(new & s)


# ---------------------------------------------------------------------------
@st.composite
def sketch_cases(draw):
    from props import p20
    c = draw(p20.cases(draw(st.booleans())))
    return dict(case=c, way=draw(st.sampled_from(("inf", "y nan",
                                                  "y short"))),
                kind="sketch", arg=0, k=draw(st.integers(0, 500)),
                sign=draw(st.sampled_from((1.0, -1.0))))


def sketch_run(case, rec):
    from props import p20
    c = case["case"]
    recs = list(zip(c["x"], c["y"]))
    cl = p20.clean_of(c, recs)
    if len({z for _, z in cl}) < 2:
        raise Skip("one class")
    plain, est = p20.make(c), p20.make(c)
    bad = spoiled(case, list(p20.arrays(c, recs)), {})
    if bad is not None:
        refuse(lambda: est.add(*bad[0], check_input=True),
               "sketch with " + case["way"])
    plain.add(*p20.arrays(c, recs))
    est.add(*p20.arrays(c, recs), check_input=True)
    for e in (plain, est):
        _, err = p07.attempt(e.solve)
        if err is not None:
            raise Skip("refused data")
    if est.status != plain.status or [str(s) for s in est.splits] != [
            str(s) for s in plain.splits]:
        if c["exact"] and c["opt"].get("solver") == "mip":
            check(False, "checked sketch: splits {} and {}",
                  list(est.splits), list(plain.splits))
        raise Skip("equally good solutions")
    zoo.same(est.binning_table.build(), plain.binning_table.build(),
             "checked sketch: table")
    x = p20.arrays(c, recs)[0]
    zoo.same(est.transform(x), plain.transform(x), "transform")
    rec.label("cat" if c["cat"] else "num", case["way"])
    rec.nontrivial(bad is not None)


SUBS = [Sub(n, lambda n=n: cases(n), run, 48 if n.startswith("p") or
            n == "card" else 100) for n in KINDS]
SUBS.append(Sub("sketch", sketch_cases, sketch_run, 140))
