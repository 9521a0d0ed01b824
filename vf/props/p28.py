"""P28: counterfactual explanations against enumeration of all changes."""
import contextlib
import io
import itertools
import math
import warnings

import numpy as np
from hypothesis import strategies as st

import frames
import gen
import sc as S
from core import Skip, Sub, check, check_close, observing

RULE = ("A scorecard of 2 to 4 variables (as in P25) and a query record "
        "(training values, split points, special, missing, unseen values) "
        "with a desired outcome, objectives and method, constraints, "
        "actionable features and a number of counterfactuals. Every "
        "displayed counterfactual is turned into a record with values of "
        "the displayed bins and given to the scorecard; all combinations of "
        "bins (pairs of them for two counterfactuals) are enumerated to "
        "judge optimality and infeasibility. Non-trivial: a counterfactual "
        "with changes, or several, was returned.")
ASSUMPTIONS = ["proximity is the sum of absolute changes of the model values "
               "divided by the range of the variable's points, closeness the "
               "l1 Mahalanobis distance to the training data",
               "closeness needs two or more variables and a regular "
               "covariance matrix of the training data",
               "counterfactuals are required to differ only under a hard "
               "diversity constraint",
               "optimality is judged up to the solver's gap of 1e-4, and not "
               "for outcome probability with diff_outcome, which is "
               "approximated"]


@st.composite
def cases(draw, tgt, outcome, multi=False):
    case = draw(S.cases(tgt, m_lo=2, m_hi=3 if multi else 4))
    case["before"] = None
    case["opt"].pop("selection_criteria", None)
    case["call"]["show_digits"] = 8
    case["query"] = [gen.rbytes(draw, 2 * len(case["fr"]["names"]))]
    case["outcome"] = outcome
    case["n_cf"] = draw(st.sampled_from((2, 2, 3))) if multi else 1
    case["sm"] = draw(st.integers(0, 2)) == 0
    case["method"] = draw(st.sampled_from(("weighted", "weighted",
                                           "hierarchical")))
    case["obj"] = draw(st.sampled_from((
        None, {"proximity": 1}, {"closeness": 1}, {"proximity": 2,
                                                   "closeness": 1},
        {"closeness": 3, "proximity": 1}, {"closeness": 0.5,
                                           "proximity": 1.5})))
    case["max_changes"] = draw(st.sampled_from((None, 1, 2, 4, 4)))
    case["action"] = draw(st.one_of(
        st.none(), st.none(), st.lists(st.integers(0, 3), min_size=1,
                                       max_size=3, unique=True)))
    hard, soft = [], {}
    if outcome != "binary":
        k = draw(st.integers(0, 3))
        if outcome == "probability":
            k = draw(st.sampled_from((0, 0, 0, k)))
        if k in (0, 3):
            hard.append(draw(st.sampled_from(("min_outcome",
                                              "max_outcome"))))
        if k in (1, 3) or (k == 2):
            soft["diff_outcome"] = draw(st.sampled_from((0.25, 1, 3)))
    if multi:
        d = draw(st.integers(0, 3))
        if d & 1:
            hard.append("diversity_features")
        if d & 2:
            hard.append("diversity_values")
        e = draw(st.integers(0, 7))
        if e in (1, 3):
            soft["diversity_features"] = draw(st.sampled_from((0.5, 3)))
        if e in (2, 3):
            soft["diversity_values"] = draw(st.sampled_from((0.7, 4)))
    elif draw(st.integers(0, 5)) == 0:
        hard.append("diversity_values")        # no effect with n_cf = 1
    case["hard"] = hard or None
    case["soft"] = soft or None
    case["y"] = (draw(st.integers(0, 1)) if outcome == "binary" else
                 draw(st.integers(1, 19)) / 20)
    case["off"] = draw(st.sampled_from((None, 1, -1, 5, -5, 20, -20,
                                        100)))
    case["time_limit"] = draw(st.sampled_from((30, 30, 20.5)))
    case["tol"] = draw(st.sampled_from((0.1, 0.1, 0, 0.5)))
    case["as_dict"] = draw(st.booleans())
    return case


def record(case, vs):
    """The query as values and as the library's input."""
    Q, cols = S.query_frame(case, {v.name: v.splits for v in vs})
    vals = [cols[v.j][0] for v in vs]
    if case["as_dict"]:
        d = {}
        for j in case["perm"]:
            c = cols[j][0]
            cat = case["fr"]["kinds"][j] == "cat"
            d[case["fr"]["names"][j]] = (None if cat else math.nan) \
                if c is None else c
        return vals, d, Q
    return vals, Q, Q


def representative(case, v, r):
    """A value of row r of the variable."""
    if r == v.n_rows - 1:
        return None
    if r >= v.n_bins:
        vals = v.sg[r - v.n_bins][1]
        if not vals:
            raise Skip("no value is in the special bin")
        return vals[0]
    if v.case["cat"]:
        return list(v.ob.splits[r])[0]
    if not v.splits:
        val = 0.125
    elif r == 0:
        val = v.splits[0] - 1 - abs(v.splits[0])
    else:
        val = v.splits[r - 1]
    bad = {q for _, g in v.sg for q in g}
    while val in bad:
        if r == 0:
            val -= 1.0
        else:
            val = math.nextafter(val, math.inf)
    if v.row(val) != r:
        raise Skip("no representative of a bin")
    return val


class Space:
    """All single counterfactuals of a query."""
    def __init__(self, case, sc, vs, X, x, y):
        self.vs, self.x = vs, x
        m = len(vs)
        act = case["action"]
        names = [v.name for v in vs]
        if act is not None:
            act = [case["fr"]["names"][a % len(case["fr"]["names"])]
                   for a in act]
            act = [a for a in act if a in names]
        self.act = act
        self.maxc = case["max_changes"] or m // 2
        opts = []
        for i, v in enumerate(vs):
            o = [None]
            if act is None or v.name in act:
                n = v.n_rows if case["sm"] else v.n_bins
                o += [r for r in range(n)
                      if abs(v.values[r] - x[i]) > 1e-9 * abs(x[i]) + 1e-12]
            opts.append(o)
        size = 1
        for o in opts:
            size *= len(o)
        if size > 20000:
            raise Skip("too many combinations")
        self.combos = [c for c in itertools.product(*opts)
                       if sum(r is not None for r in c) <= self.maxc]
        V = np.array([[x[i] if r is None else vs[i].values[r]
                       for i, r in enumerate(c)] for c in self.combos])
        self.V = V
        coef = np.array([v.coef for v in vs])
        self.coef = coef
        self.inter = S.intercept_of(sc.estimator_)
        self.score = self.inter + V @ coef
        if callable(y):
            y = y(self.inter + V @ coef)
        self.y = y
        self.outcome = case["outcome"]
        s = self.score
        self.f = 1 / (1 + np.exp(-s)) if self.outcome == "probability" else s
        self.hard = list(case["hard"] or [])
        self.slack = np.full(len(s), np.inf)
        if self.outcome == "binary":
            self.slack = s - 1e-6 if y == 1 else -s
        else:
            b = y
            if self.outcome == "probability":
                b = math.log(y / (1 - y))
            if "min_outcome" in self.hard:
                self.slack = np.minimum(self.slack, s - b)
            if "max_outcome" in self.hard:
                self.slack = np.minimum(self.slack, b - s)
        rng = np.array([max(v.raw) - min(v.raw) for v in vs])
        rng[rng < 1e-9] = 1
        self.prox = np.abs(V - np.array(x)) @ (1 / rng)
        cov = np.atleast_2d(np.cov(X.T))
        if np.linalg.cond(cov) > 1e7 or (np.diag(cov) < 1e-12).any():
            raise Skip("singular covariance matrix")
        F = np.linalg.cholesky(np.linalg.inv(cov))
        self.close = np.abs((V - X.mean(axis=0)) @ F).sum(axis=1)
        self.dist = np.abs(self.f - y) if self.outcome != "binary" else 0 * s
        self.objs = {"proximity": self.prox, "closeness": self.close,
                     "diff_outcome": self.dist}

    def feasible(self, eps):
        return self.slack >= eps


def weights_of(case):
    o = case["obj"] or ({"proximity": 1, "closeness": 1}
                        if case["method"] == "weighted" else
                        {"proximity": 2, "closeness": 1})
    soft = {k: w for k, w in (case["soft"] or {}).items()
            if case["n_cf"] > 1 or not k.startswith("diversity")}
    return {**o, **soft}


def generate(case, sc, query, y, space):
    from optbinning.scorecard import Counterfactual
    cf = Counterfactual(sc, special_missing=case["sm"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cf.fit(S.frame_of(case))
        try:
            cf.generate(query, y, case["outcome"], case["n_cf"],
                        method=case["method"],
                        objectives=case["obj"],
                        max_changes=case["max_changes"],
                        actionable_features=space.act,
                        hard_constraints=case["hard"],
                        soft_constraints=case["soft"],
                        priority_tol=case["tol"],
                        time_limit=case["time_limit"])
        except Exception as e:
            if "problem in hierarchical model" in str(e):
                return cf, "INFEASIBLE"
            raise
    return cf, cf.status


def desired(case, scores):
    """The desired outcome; case["off"]: next to an attainable outcome."""
    y = case["y"]
    if case["outcome"] == "binary":
        return y
    s = sorted(scores)
    v = s[int(y * (len(s) - 1))]
    if case["outcome"] == "probability":
        if case["off"] is None:
            return y
        v = 1 / (1 + math.exp(-v))
        w = float(v + case["off"] * 1e-4)
        return w if 0.001 < w < 0.999 else y
    return float(v + (case["off"] or 100) * 1e-4 *
                 max(1.0, float(np.abs(s).max())))


def rows_of(case, vs, shown, vals, feats):
    """Chosen row (None: unchanged) of every variable as displayed."""
    out = []
    for v, q in zip(vs, vals):
        g = shown[v.name]
        if v.name not in feats:
            check(same_value(g, q), "{} is unchanged and shown as {!r}, the "
                  "query has {!r}", v.name, g, q)
            out.append(None)
            continue
        hit = [r for r, b in enumerate(v.table["Bin"])
               if str(b) == str(g)]
        check(hit, "{!r} is no bin of {}", g, v.name)
        if len(hit) > 1:
            raise Skip("bins with the same label")
        out.append(hit[0])
    return tuple(out)


def same_value(g, q):
    if q is None:
        return g is None or g != g
    return g == q


def run(case, rec):
    tgt = case["fr"]["target"]
    if case["outcome"] != "binary" and not (
            set(case["hard"] or []) & {"min_outcome", "max_outcome"} or
            "diff_outcome" in (case["soft"] or {})):
        raise Skip("no constraint on the outcome")
    sc, bp, X, y0 = S.fitted(case)
    with observing("fitted scorecard"):
        vs = S.variables(case, sc)
    vals, query, Q = record(case, vs)
    x = [v.value(q) for v, q in zip(vs, vals)]
    T = np.array([[v.value(c) for c in case["fr"]["cols"][v.j]]
                  for v in vs]).T
    sp = Space(case, sc, vs, T, x, lambda s: desired(case, s))
    y = sp.y
    cf, status = generate(case, sc, query, y, sp)
    strict = sp.feasible(1e-5 * max(1.0, float(np.abs(sp.score).max())))
    K = case["n_cf"]
    rec.label(tgt, case["outcome"], status, "n_cf=%d" % K)
    if status == "INFEASIBLE":
        judge_infeasible(case, sp, strict)
        return
    if status not in ("OPTIMAL", "FEASIBLE"):
        raise Skip("solver status " + str(status))
    shown = cf.display(show_outcome=True)
    only = cf.display(show_only_changes=True)
    with contextlib.redirect_stdout(io.StringIO()):
        cf.information(print_level=1)
    with observing("display"):
        check(len(shown) == len(only) == K, "{} counterfactuals, requested "
              "{}", len(shown), K)
        chosen = []
        for k in range(K):
            a, b = shown.iloc[k], only.iloc[k]
            feats = [v.name for v in vs
                     if not (isinstance(b[v.name], str) and
                             b[v.name] == "-")]
            for v in feats:
                check(str(a[v]) == str(b[v]), "{}: {!r} and {!r}", v, a[v],
                      b[v])
            rows = rows_of(case, vs, a, vals, feats)
            chosen.append(rows)
            check(len(feats) <= sp.maxc, "{} changes, at most {} requested",
                  len(feats), sp.maxc)
            check(sp.act is None or set(feats) <= set(sp.act), "{} changed, "
                  "actionable are {}", feats, sp.act)
            for v, r in zip(vs, rows):
                check(r is None or case["sm"] or r < v.n_bins, "{} is "
                      "changed to row {}", v.name, r)
            valid(case, sc, vs, rows, vals, a, y, Q)
        for a in range(K):
            for b in range(a + 1, K):
                diverse(case, chosen[a], chosen[b])
        if status == "OPTIMAL":
            optimal(case, sp, strict, chosen)
    if case["outcome"] == "probability" and not case["soft"]:
        rec.label("tight" if np.abs(sp.slack).min() < 0.02 else "loose")
    rec.label("changes=%d" % sum(r is not None for r in chosen[0]))
    rec.nontrivial(K > 1 or any(r is not None for r in chosen[0]))


def diverse(case, a, b):
    if "diversity_features" in (case["hard"] or []):
        check([r is None for r in a] != [r is None for r in b],
              "counterfactuals {} and {} change the same features", a, b)
    if "diversity_values" in (case["hard"] or []):
        for r, q in zip(a, b):
            check(r is None or r != q, "counterfactuals {} and {} share a "
                  "value", a, b)


def valid(case, sc, vs, rows, vals, shown, y, Q):
    """The scorecard's own outcome for a record in the displayed bins."""
    import pandas as pd
    fr = case["fr"]
    try:
        d = {v.name: (q if r is None else representative(case, v, r))
             for v, r, q in zip(vs, rows, vals)}
    except Skip:
        return
    R = pd.DataFrame({c: (gen.xarray([d[c]], fr["kinds"][
        fr["names"].index(c)] == "cat") if c in d else Q[c].values)
        for c in Q.columns})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["outcome"] == "continuous":
            got = float(sc.predict(R)[0])
        else:
            got = float(sc.predict_proba(R)[0, 1])
            cls = int(sc.predict(R)[0])
    out = float(shown["outcome"])
    check_close(out, got, "outcome shown for {}".format(d), 1e-6, 1e-7)
    if case["outcome"] == "binary":
        check(cls == y or abs(got - 0.5) < 1e-7, "counterfactual {} has "
              "class {}, requested {}", d, cls, y)
    tol = 1e-6 * (1 + abs(y))
    if "min_outcome" in (case["hard"] or []):
        check(got >= y - tol, "outcome {} below the minimum {}", got, y)
    if "max_outcome" in (case["hard"] or []):
        check(got <= y + tol, "outcome {} above the maximum {}", got, y)


def pair_ok(case, a, b):
    if "diversity_features" in (case["hard"] or []) and \
            [r is None for r in a] == [r is None for r in b]:
        return False
    if "diversity_values" in (case["hard"] or []):
        return not any(r is not None and r == q for r, q in zip(a, b))
    return True


def diversity(kind, a, b):
    """Features changed in one of both; values taken by one of both."""
    if kind == "diversity_features":
        return sum((r is None) != (q is None) for r, q in zip(a, b))
    return sum((r is not None) + (q is not None) for r, q in zip(a, b)
               if r != q)


def judge_infeasible(case, sp, strict):
    ok = [c for c, s in zip(sp.combos, strict) if s]
    with observing("infeasible"):
        if case["n_cf"] == 1:
            check(not ok, "reported infeasible, but {} is a counterfactual",
                  ok and ok[0])
        elif case["n_cf"] == 2 and len(ok) <= 400:
            for a, b in itertools.combinations_with_replacement(ok, 2):
                check(not pair_ok(case, a, b), "reported infeasible, but {} "
                      "and {} are counterfactuals", a, b)


def optimal(case, sp, strict, chosen):
    """No admissible combination is closer."""
    w = weights_of(case)
    if case["outcome"] == "probability" and "diff_outcome" in w:
        return
    idx = [sp.combos.index(c) for c in chosen]
    for c, i in zip(chosen, idx):
        check(sp.slack[i] >= -1e-6 * (1 + abs(sp.y)), "counterfactual {} "
              "misses the outcome by {}", c, -sp.slack[i])
    ok = np.flatnonzero(strict)
    K = case["n_cf"]
    if K > 2 or (K == 2 and len(ok) > 250):
        return
    objs = {k: sp.objs[k] for k in w if not k.startswith("diversity")}
    if K == 1:
        cand = {k: o[ok] for k, o in objs.items()}
        got = {k: float(o[idx[0]]) for k, o in objs.items()}
    else:
        pairs = [(a, b) for a in ok for b in ok
                 if a <= b and pair_ok(case, sp.combos[a], sp.combos[b])]
        cand = {k: np.array([o[a] + o[b] for a, b in pairs])
                for k, o in objs.items()}
        got = {k: float(sum(o[i] for i in idx)) for k, o in objs.items()}
        for k in w:
            if k.startswith("diversity"):
                cand[k] = np.array([-diversity(k, sp.combos[a], sp.combos[b])
                                    for a, b in pairs], dtype=float)
                got[k] = -float(diversity(k, *chosen))
    n = len(next(iter(cand.values())))
    if n == 0:
        return

    def tol(v):
        return 3e-4 * abs(v) + 1e-5

    if case["method"] == "weighted":
        best = min(sum(w[k] * cand[k] for k in w))
        have = sum(w[k] * got[k] for k in w)
        check(have <= best + tol(best), "objective {} of {}, but {} is "
              "possible", have, chosen, best)
        return
    names = sorted(w, key=lambda k: -w[k])
    if len(set(w.values())) < len(w) and len(names) > 1:
        names = [k for k, _ in sorted(w.items(), key=lambda t: t[1],
                                      reverse=True)]
    keep = np.ones(n, dtype=bool)
    for name in names:
        if not keep.any():
            return
        best = float(cand[name][keep].min())
        t = case["tol"] * abs(best) if name != names[-1] else 0.0
        if len(names) <= 2 or name == names[0]:
            check(got[name] <= best + t + tol(best), "{} of {} is {}, but "
                  "{} is possible (tolerance {})", name, chosen, got[name],
                  best, case["tol"])
        # strictly inside, so that rounding does not matter
        keep &= np.abs(cand[name] - best) <= t * 0.999 + (
            1e-9 if t == 0 else -1e-6)
        if t == 0 and name != names[-1]:
            return
        if sp.feasible(-1e-5 * max(1.0, float(np.abs(sp.score).max()))
                       ).sum() > strict.sum():
            return


SUBS = [
    Sub("binary", lambda: cases("binary", "binary"), run, 400,
        rule="binary outcome"),
    Sub("probability", lambda: cases("binary", "probability"), run, 350,
        rule="outcome probability"),
    Sub("continuous", lambda: cases("continuous", "continuous"), run, 300,
        rule="continuous outcome"),
    Sub("multi", lambda: st.one_of(cases("binary", "binary", True),
                                   cases("continuous", "continuous", True),
                                   cases("binary", "probability", True)),
        run, 150, rule="several counterfactuals"),
]
