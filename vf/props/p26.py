"""P26: scaling and rounding of scorecards."""
import math
import warnings

import numpy as np

import frames
import sc as S
from core import Skip, Sub, check, check_close, observing

RULE = ("Scorecards as in P25, scaled with pdo_odds or min_max and fitted "
        "with and without the reverse, intercept-based and rounding flags. "
        "Scores are compared with the model's log-odds (from "
        "predict_proba) or prediction: the requested odds at the reference "
        "score and points to double, the ends of the range at the table's "
        "extreme rows, direction, ranking, rounded points. Non-trivial: two "
        "or more different predictions among the query rows.")
ASSUMPTIONS = ["min_max without reverse gives the largest score to the "
               "smallest prediction", "odds are those of non-events to "
               "events, with reverse of events to non-events",
               "cases are skipped where the CP solver returns another "
               "equally good solution"]


def by_hand(sc, Q, tgt):
    """Model's log-odds or prediction of the query rows."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if tgt == "continuous":
            return [float(v) for v in sc.predict(Q)]
        p = np.asarray(sc.predict_proba(Q), dtype=float)
    return [math.log(b / a) if min(a, b) > 1e-9 else math.nan for a, b in p]


def extremes(pts, sc):
    i = float(sc.intercept_)
    return (i + math.fsum(min(p) for p in pts.values()),
            i + math.fsum(max(p) for p in pts.values()))


def refit(case, X, y, splits_of, vs, **flags):
    c = dict(case, sc=dict(case["sc"], **flags))
    sc = S.fit(c, S.make(c), X, y)
    for v in vs:
        if frames.tie(sc.binning_process_.get_binned_variable(v.name), v.ob,
                      S.p22.objective(case["fr"]["target"])):
            raise Skip("equally good solutions")
    return sc, S.table_points(sc, vs)


def run(case, rec):
    tgt = case["fr"]["target"]
    o = dict(case["sc"], rounding=False)
    plain = dict(case, sc=o)
    sc, bp, X, y = S.fitted(plain)
    with observing("fitted scorecard"):
        vs = S.variables(plain, sc)
        scale = S.Scale(plain, vs, S.intercept_of(sc.estimator_))
        tol = S.tol_of(scale, vs)
        pts = S.table_points(sc, vs)
    Q, cols = S.query_frame(case, {v.name: v.splits for v in vs})
    d = by_hand(sc, Q, tgt)
    s = [float(v) for v in sc.score(Q)]
    method, prm = o["scaling_method"], o.get("scaling_method_params")
    rev = o["reverse_scorecard"]
    ok = [i for i in range(len(s)) if d[i] == d[i]]
    known = [all(v.row(cols[v.j][i]) is not None for v in vs)
             for i in range(len(s))]
    lo, hi = extremes(pts, sc)
    with observing("scores"):
        if method == "pdo_odds":
            f = prm["pdo"] / math.log(2)
            for i in ok:
                e = math.log(prm["odds"])
                e = (d[i] - e) if rev else (-d[i] - e)
                check_close(s[i], prm["scorecard_points"] + f * e,
                            lambda: "score at log-odds {}".format(d[i]),
                            1e-6, 1e-5 * (1 + f))
        elif method == "min_max":
            a, b = prm["min"], prm["max"]
            check_close(lo, a, "score of the lowest rows", 1e-7, tol)
            check_close(hi, b, "score of the highest rows", 1e-7, tol)
            for i in range(len(s)):
                if known[i]:
                    check(a - tol <= s[i] <= b + tol, "score {} outside "
                          "[{}, {}]", s[i], a, b)
        else:
            inter = S.intercept_of(sc.estimator_)
            if tgt == "continuous":
                for i in ok:
                    check_close(s[i], d[i] - inter, "score without scaling",
                                1e-6, 1e-6 * (1 + abs(d[i]) + abs(inter)))
        # ranking
        sign = 1 if (rev or method is None) else -1
        # (non-reversed scaled scores fall as the prediction rises)
        if abs(scale.slope) > 1e-9:
            for i in ok:
                for j in ok:
                    gap = 1e-6 * (1 + abs(d[i]) + abs(d[j]) +
                                  abs(tol / scale.slope))
                    if d[i] > d[j] + gap:
                        check(sign * (s[i] - s[j]) > 0, "predictions {} > {} "
                              "have scores {} and {}", d[i], d[j], s[i],
                              s[j])
                    if method == "min_max" and abs(d[i] - d[j]) > gap \
                            and tgt == "continuous":
                        r = (s[i] - s[j]) / (d[i] - d[j])
                        check_close(r, scale.slope, "slope", 1e-4, 1e-7)
        # intercept-based scorecards move points into the intercept
        if o["intercept_based"]:
            for v in vs:
                check_close(min(pts[v.name]), 0.0, "smallest points of " +
                            v.name, 0, tol)
        else:
            check(float(sc.intercept_) == 0, "intercept_ {}", sc.intercept_)
    other, opts = refit(plain, X, y, None, vs,
                        intercept_based=not o["intercept_based"])
    t = [float(v) for v in other.score(Q)]
    with observing("intercept-based"):
        for i, (u, v) in enumerate(zip(s, t)):
            check_close(u, v, lambda: "score of row {} with/without "
                        "intercept_based".format(i), 1e-7, tol)
    if method is not None:
        flip, fpts = refit(plain, X, y, None, vs, reverse_scorecard=not rev)
        t = [float(v) for v in flip.score(Q)]
        with observing("reverse"):
            c = [u + v for u, v in zip(s, t)]
            for u in c:
                check_close(u, c[0], "score + reversed score", 1e-7, 4 * tol)
    if method is not None and (method == "pdo_odds" or
                               prm["min"] == int(prm["min"])):
        rnd, rpts = refit(plain, X, y, None, vs, rounding=True)
        t = [float(v) for v in rnd.score(Q)]
        with observing("rounding"):
            lim = 0.5 if method == "pdo_odds" else 1
            for v in vs:
                for i, (p, r) in enumerate(zip(pts[v.name], rpts[v.name])):
                    check(r == int(r) and abs(r - p) <= lim + tol, "{} row "
                          "{}: {} rounded to {}", v.name, i, p, r)
                z = sorted(zip(pts[v.name], rpts[v.name]))
                for (p, r), (p2, r2) in zip(z, z[1:]):
                    check(r <= r2 or p2 - p < tol, "{}: points {} < {} "
                          "rounded to {} > {}", v.name, p, p2, r, r2)
            check(float(rnd.intercept_) == int(rnd.intercept_) and
                  abs(rnd.intercept_ - sc.intercept_) <= 0.5 + tol,
                  "intercept {} rounded to {}", sc.intercept_,
                  rnd.intercept_)
            for u, v, k in zip(s, t, known):
                check(v == int(v), "rounded score {}", v)
                check(abs(u - v) <= lim * len(vs) + 0.5 + len(vs) * tol,
                      "score {} rounded to {}", u, v)
            if method == "min_max":
                a, b = extremes(rpts, rnd)
                check(a == prm["min"] and b == prm["max"], "rounded scores "
                      "range from {} to {}, requested {} to {}", a, b,
                      prm["min"], prm["max"])
                for v, k in zip(t, known):
                    check(not k or prm["min"] <= v <= prm["max"],
                          "rounded score {} outside the range", v)
        rec.label("rounding")
    rec.label(tgt, str(method), "reverse" if rev else "not reversed")
    rec.nontrivial(len({round(d[i], 9) for i in ok}) >= 2)


SUBS = [
    Sub("binary", lambda: S.cases("binary"), run, 350,
        rule="binary target"),
    Sub("continuous", lambda: S.cases("continuous"), run, 350,
        rule="continuous target"),
]
