"""P25: scorecard scores are sums of table points."""
import warnings

import numpy as np

import frames
import sc as S
from core import Skip, Sub, check, check_close, observing

RULE = ("A case is a data frame of mixed variables, a binning process, an "
        "estimator, special/missing options (of the call and of single "
        "variables), a scaling, reverse/intercept-based/rounding flags, "
        "optionally an earlier fit with other settings, and query rows "
        "(training values, split points, specials, missing values, unseen "
        "categories). Points and scores are recomputed from the binning "
        "tables and the coefficients of the same model fitted by hand. "
        "Non-trivial: two or more table rows are hit by the query.")
ASSUMPTIONS = ["binning tables and transforms are those decided by other "
               "properties", "without scaling the score has no intercept",
               "cases are skipped where the CP solver returns another "
               "equally good solution"]


def run(case, rec):
    fr = case["fr"]
    tgt = fr["target"]
    sc, bp, X, y = S.fitted(case)
    with observing("fitted scorecard"):
        vs = S.variables(case, sc)
        est = sc.estimator_
        I = S.intercept_of(est)
        scale = S.Scale(case, vs, I)
        tol = S.tol_of(scale, vs)
    # the model is the one fitted by hand on the transformed data
    call = {k: q for k, q in case["call"].items()}
    metric = "woe" if tgt == "binary" else "mean"
    hand = S.estimator(case)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        Xt = bp.transform(X[fr["names"]], metric=metric,
                          **{"metric_special": 0, "metric_missing": 0,
                             **call})
        if case["w"] is None:
            hand.fit(Xt, y)
        else:
            hand.fit(Xt, y, sample_weight=S.weights(case))
    with observing("model"):
        check([str(v) for v in bp.get_support(names=True)] ==
              [v.name for v in vs], "selected {}, expected {}",
              [v.name for v in vs], list(bp.get_support(names=True)))
        for v, c in zip(vs, np.ravel(hand.coef_)):
            check_close(v.coef, float(c), "coefficient of " + v.name, 1e-6,
                        1e-7)
        check_close(I, S.intercept_of(hand), "intercept", 1e-6, 1e-7)
    # table
    rounding, based = case["sc"]["rounding"], case["sc"]["intercept_based"]
    tab, det = sc.table(), sc.table(style="detailed")
    with observing("table"):
        check(list(tab.columns) == ["Variable", "Bin", "Points"],
              "summary columns {}", list(tab.columns))
        check(list(det["Points"]) == list(tab["Points"]) and
              list(det["Bin"]) == list(tab["Bin"]), "styles disagree")
        pts = S.table_points(sc, vs)
        check(len(tab) == sum(v.n_rows for v in vs), "{} rows, expected {}",
              len(tab), sum(v.n_rows for v in vs))
        inter, low, ref_pts = 0.0, {}, {}
        for v in vs:
            want = [scale.points(r) for r in v.raw]
            low[v.name] = min(want) if based else 0.0
            inter += low[v.name]
            want = ref_pts[v.name] = [p - low[v.name] for p in want]
            m = (det["Variable"] == v.name).values
            d = det[m]
            check(list(d["Bin id"]) == list(range(v.n_rows)),
                  "{}: bin ids {}", v.name, list(d["Bin id"]))
            check([str(b) for b in d["Bin"]] ==
                  [str(b) for b in v.table["Bin"]], "{}: bins {}", v.name,
                  list(d["Bin"]))
            for c in v.table.columns:
                if c != "Bin":
                    for i, (a, b) in enumerate(zip(d[c], v.table[c])):
                        frames.same_value(a, b, "{} {} row {}".format(
                            v.name, c, i))
            for i, (p, e) in enumerate(zip(pts[v.name], want)):
                check_close(float(d["Coefficient"].values[i]), v.coef,
                            "coefficient in table", 1e-9, 1e-9)
                if not rounding:
                    check_close(p, e, lambda: "{}: points of row {}".format(
                        v.name, i), 1e-7, tol)
                else:
                    lim = 1 if case["sc"]["scaling_method"] == "min_max" \
                        else 0.5
                    check(p == int(p) and abs(p - e) <= lim + tol,
                          "{}: points {} of row {} rounded to {}", v.name, e,
                          i, p)
        if not based:
            check_close(float(sc.intercept_), 0.0, "intercept_", 0, 1e-12)
        elif not rounding:
            check_close(float(sc.intercept_), inter, "intercept_", 1e-7, tol)
        else:
            check(abs(float(sc.intercept_) - inter) <= 0.5 + tol,
                  "intercept {} rounded to {}", inter, sc.intercept_)
    # scores
    Q, cols = S.query_frame(case, {v.name: v.splits for v in vs})
    keep = Q.copy(deep=True)
    n = len(Q)
    got = sc.score(Q)
    hit, unseen = set(), 0
    with observing("score"):
        got = [float(g) for g in np.ravel(got)]
        check(len(got) == n, "{} scores for {} rows", len(got), n)
        rows = [[v.row(cols[v.j][i]) for v in vs] for i in range(n)]
        for i in range(n):
            e, slack = float(sc.intercept_), 0.0
            for v, r in zip(vs, rows[i]):
                if r is None:
                    unseen += 1
                    e += scale.points(v.coef * v.unknown) - low[v.name]
                    slack += 0.5 if rounding else 0.0
                else:
                    hit.add((v.name, r))
                    e += pts[v.name][r]
            check(abs(got[i] - e) <= slack + tol + 1e-9 * abs(e),
                  "score of row {} ({}) is {}, expected {}", i,
                  [(v.name, cols[v.j][i]) for v in vs], got[i], e)
            if rounding:
                check(got[i] == int(got[i]), "rounded score {}", got[i])
    # predictions
    Z = np.array([[v.value(cols[v.j][i]) for v in vs] for i in range(n)])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        calls = ["predict"]
        if tgt == "binary":
            calls += ["predict_proba", "decision_function"]
        for c in calls:
            a = np.asarray(getattr(sc, c)(Q), dtype=float)
            b = np.asarray(getattr(est, c)(Z), dtype=float)
            with observing(c):
                check(a.shape == b.shape, "{}: shape {}", c, a.shape)
                if c == "predict" and tgt == "binary":
                    d = est.decision_function(Z)
                    a, b = a[abs(d) > 1e-9], b[abs(d) > 1e-9]
                check(np.allclose(a, b, rtol=1e-7, atol=1e-9),
                      "{}: {}, expected {}", c, a.tolist(), b.tolist())
    with observing("inputs"):
        check(Q.equals(keep), "the query frame was changed")
    rec.label(tgt, str(case["sc"]["scaling_method"]), case["est"])
    if unseen:
        rec.label("unseen category")
    if rounding:
        rec.label("rounding")
    if case["tp"]:
        rec.label("options of single variables")
    rec.nontrivial(len(hit) >= 2)


SUBS = [
    Sub("binary", lambda: S.cases("binary"), run, 500,
        rule="binary target"),
    Sub("continuous", lambda: S.cases("continuous"), run, 500,
        rule="continuous target"),
]
