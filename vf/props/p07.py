"""P07: repeatable fits, untouched inputs and settings, read-only results."""
import copy

from hypothesis import strategies as st
from sklearn.base import clone

import zoo
from core import Skip, Sub, Violation, check, observing

RULE = ("A case is an estimator with drawn options, two data sets and a "
        "history of fits on either of them, reads (tables, analyses, "
        "transforms, information), clones and parameter reads. After the "
        "history the instance is fitted once more and everything it reports "
        "is read in a drawn order and compared with an estimator built, "
        "fitted and read once. Arguments and parameters are compared with "
        "copies after every step. Non-trivial: at least two successful fits "
        "in the history, or a fit followed by three reads.")
ASSUMPTIONS = ["cases are skipped where the CP solver returns another "
               "equally good solution",
               "coefficients of piecewise functions are compared within "
               "5e-3 (first-order solvers)",
               "the cart strategy of 2D binning breaks ties at random and is "
               "not included"]


@st.composite
def histories(draw, kind, *args):
    case = draw(kind.cases(*args))
    op = st.one_of(
        st.tuples(st.just("fit"), st.integers(0, 1)),
        st.tuples(st.just("fit"), st.integers(0, 1)),
        st.tuples(st.just("fit_transform"), st.integers(0, 1)),
        st.tuples(st.just("read"), st.integers(0, 40)),
        st.tuples(st.just("read"), st.integers(0, 40)),
        st.tuples(st.just("read"), st.integers(0, 40)),
        st.tuples(st.just("clone"), st.just(0)),
        st.tuples(st.just("params"), st.just(0)))
    return dict(case=case, ops=draw(st.lists(op, min_size=1, max_size=7)),
                last=draw(st.sampled_from((0, 0, 0, 1, None))),
                order=draw(st.lists(st.integers(0, 99), max_size=12)))


def attempt(fn):
    """(value, error) of a call that may refuse its input."""
    try:
        with zoo.quiet():
            return fn(), None
    except (Violation, Skip):
        raise
    except Exception as e:
        return None, e


class Fresh:
    """An estimator fitted once on data set i, read in plain order."""

    def __init__(self, kind, i):
        self.est = kind.make()
        a, k = kind.args(i)
        _, self.error = attempt(lambda: self.est.fit(*a, **k))
        self.reads = {}
        if self.error is None:
            for name, fn in kind.observations():
                self.reads[name] = attempt(lambda: fn(self.est))


def match(kind, name, got, want, what):
    v, e = got
    w, f = want
    if f is not None or e is not None:
        check(type(e) is type(f), "{}: {} in the history, {} in a fresh "
              "estimator", what, repr(e), repr(f))
        return
    with observing(what):
        zoo.same(v, w, what, kind.TOL, kind.TOL)


def make_run(cls):
    def run(wrapped, rec):
        case = wrapped["case"]
        kind = cls(case)
        fresh = {}

        def twin(i):
            if i not in fresh:
                fresh[i] = Fresh(kind, i)
            return fresh[i]

        est = kind.make()
        params = copy.deepcopy(est.get_params(deep=False))
        obs = kind.observations()
        state, fits, reads = None, 0, 0
        steps = [tuple(o) for o in wrapped["ops"]]
        if wrapped["last"] is not None:
            steps.append(("fit", wrapped["last"]))
        hist = []

        def read(k):
            name, fn = obs[k % len(obs)]
            if twin(state).reads[name][1] is not None:
                rec.label("refused: " + name.split()[0])
            what = "{} after {}".format(name, hist)
            match(kind, name, attempt(lambda: fn(est)),
                  twin(state).reads[name], what)

        for op, v in steps:
            hist.append((op, obs[v % len(obs)][0] if op == "read" else v))
            what = "history {}".format(hist)
            if op == "fit_transform" and kind.fit_transform is None:
                op = "fit"
            if op in ("fit", "fit_transform"):
                a, k = kind.args(v)
                a0, k0 = copy.deepcopy((a, k))
                if op == "fit":
                    out, err = attempt(lambda: est.fit(*a, **k))
                else:
                    out, err = attempt(lambda: est.fit_transform(*a, **k))
                zoo.unchanged(a, a0, "arguments after " + what)
                zoo.unchanged(k, k0, "options of fit after " + what)
                f = twin(v)
                if op == "fit" or err is None or f.error is not None:
                    check(type(err) is type(f.error), "{}: fit gives {}, on "
                          "a fresh estimator {}", what, repr(err),
                          repr(f.error))
                if err is not None:
                    if f.error is None:         # transform of fit_transform
                        state = None
                        continue
                    state = None
                    continue
                if kind.tie(est, f.est):
                    raise Skip("another, equally good solution")
                state = v
                fits += 1
                if op == "fit":
                    check(out is est, "fit returns {!r}", out)
                else:
                    want = attempt(lambda: kind.transform_train(f.est, v))
                    match(kind, op, (out, None), want, what)
            elif op == "clone":
                if not kind.CLONES:
                    continue
                est = clone(est)
                state = None
            elif op == "params":
                est.get_params()
            elif state is not None:
                read(v)
                reads += 1
            zoo.unchanged(est.get_params(deep=False), params,
                          "parameters after " + what)
        if state is None:
            rec.label("unfitted at the end")
            return
        order = sorted(range(len(obs)), key=lambda j: (
            wrapped["order"][j] if j < len(wrapped["order"]) else 50, j))
        for j in order:
            hist.append(("read", obs[j][0]))
            read(j)
        zoo.unchanged(est.get_params(deep=False), params,
                      "parameters after history {}".format(hist))
        rec.label("fits=%d" % min(fits, 4), "clone" if any(
            o[0] == "clone" for o in steps) else "no clone")
        rec.nontrivial(fits >= 2 or reads >= 3)
    return run


def sub(name, cls, quick, *args):
    return Sub(name, lambda: histories(cls, *args), make_run(cls), quick,
               rule=name)


SUBS = [sub("binary", zoo.Binning1D, 700, "binary"),
        sub("binary_cat", zoo.Binning1D, 500, "binary", True),
        sub("continuous", zoo.Binning1D, 400, "continuous"),
        sub("continuous_cat", zoo.Binning1D, 300, "continuous", True),
        sub("multiclass", zoo.Binning1D, 400, "multiclass"),
        sub("scenario", zoo.Scenario, 200),
        sub("binary_2d", zoo.Binning2D, 250, False),
        sub("continuous_2d", zoo.Binning2D, 200, True),
        sub("piecewise", zoo.Piecewise, 150, False),
        sub("piecewise_continuous", zoo.Piecewise, 150, True),
        sub("process", zoo.Process, 100, "binary"),
        sub("process_continuous", zoo.Process, 60, "continuous"),
        sub("process_multiclass", zoo.Process, 60, "multiclass"),
        sub("scorecard", zoo.Card, 100, "binary"),
        sub("scorecard_continuous", zoo.Card, 60, "continuous"),
        sub("monitoring", zoo.Monitor, 60, "binary"),
        sub("monitoring_continuous", zoo.Monitor, 40, "continuous"),
        sub("mdlp", zoo.Mdlp, 500),
        sub("outlier", zoo.Outlier, 500)]
