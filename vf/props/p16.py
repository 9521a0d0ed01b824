"""P16: 2D solutions honour the constraints and are optimal over tilings."""
import functools
import math

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Sub, check, check_close, observing
from props import p15

RULE = ("exact: a case is a small grid with the records of every cell and "
        "constraints, each level its own pre-bin; all tilings of the grid by "
        "rectangles are enumerated; non-trivial: two or more admissible "
        "tilings, or infeasible. data: arbitrary features and options, the "
        "reported rectangles are recounted and judged against the "
        "constraints; non-trivial: two or more rectangles and a constraint.")
ASSUMPTIONS = ["objective compared up to the solvers' documented gap (1e-4 "
               "relative for CBC, 1e-6 per bin for CP-SAT)",
               "with gamma > 0 only Pareto dominance (objective, spread of "
               "bin sizes) is judged",
               "rates equal up to 1e-9 may be judged either way by a trend"]
EPS = 1e-9
TOL = 3e-5
SHAPES = [(m, n) for m in range(1, 6) for n in range(1, 6)
          if 2 <= m * n <= 12]


@functools.lru_cache(None)
def tilings(m, n):
    """Rectangles (i0, i1, j0, j1) and the 0/1 matrix of all tilings."""
    rects = [(i, k, j, l) for i in range(m) for k in range(i, m)
             for j in range(n) for l in range(j, n)]
    at = {}
    for r, (i, k, j, l) in enumerate(rects):
        at.setdefault((i, j), []).append(r)
    out = []

    def rec(used, chosen):
        p = next((q for q in range(m * n) if not used >> q & 1), None)
        if p is None:
            out.append(list(chosen))
            return
        for r in at[divmod(p, n)]:
            i, k, j, l = rects[r]
            mask = 0
            for a in range(i, k + 1):
                for b in range(j, l + 1):
                    mask |= 1 << (a * n + b)
            if used & mask:
                continue
            chosen.append(r)
            rec(used | mask, chosen)
            chosen.pop()

    rec(0, [])
    t = np.zeros((len(out), len(rects)), dtype=np.int32)
    for i, c in enumerate(out):
        t[i, c] = 1
    right = np.zeros((len(rects), len(rects)), dtype=np.int32)
    below = right.copy()
    for a, (i, k, j, l) in enumerate(rects):
        for b, (p, q, r, s) in enumerate(rects):
            if r == l + 1 and p <= k and i <= q:
                right[a, b] = 1
            if p == k + 1 and r <= l and j <= s:
                below[a, b] = 1
    return rects, t, right, below


@st.composite
def exact_cases(draw, continuous):
    m, n = draw(st.sampled_from(SHAPES))
    cell = []
    mode = draw(st.sampled_from(("any", "mean", "mean", "x", "y")))
    px = draw(gen.level_profile(n))[1]
    py = draw(gen.level_profile(m))[1]
    mx = draw(st.sampled_from((6, 20, 60)))
    b = gen.rbytes(draw, 3 * m * n)
    scale = draw(st.sampled_from((0.01, 1.0, 1.0, 100.0)))
    for i in range(m):
        for j in range(n):
            p = {"any": b[3 * (i * n + j) + 2], "mean": (px[j] + py[i]) // 2,
                 "x": px[j], "y": py[i]}[mode]
            u, v = b[3 * (i * n + j)], b[3 * (i * n + j) + 1]
            if continuous:
                c = u % mx
                cell.append([round((p - 100 + ((v + 7 * t) % 11)) * scale, 4)
                             for t in range(c)])
            else:
                cell.append([(u % mx) * p // 255,
                             (v % mx) * (255 - p) // 255])
    size = (lambda c: len(c)) if continuous else sum
    # first and last level of each axis occur
    for j in (0, n - 1):
        if not any(size(cell[i * n + j]) for i in range(m)):
            cell[j] = [scale] if continuous else [1, 1]
    for i in (0, m - 1):
        if not any(size(cell[i * n + j]) for j in range(n)):
            cell[i * n] = [scale] if continuous else [1, 1]
    if not continuous:
        if not any(c[0] for c in cell):
            cell[0] = [1, cell[0][1]]
        if not any(c[1] for c in cell):
            cell[-1] = [cell[-1][0], 1]
    N = sum(map(size, cell))
    o = draw(p15.constraints(continuous, N))
    if not continuous:
        o["divergence"] = draw(st.sampled_from(("iv", "iv", "js",
                                                "hellinger", "triangular")))
    return dict(shape=[m, n], cell=cell, opt=o, continuous=continuous,
                missing=draw(st.sampled_from((0, 0, 3, 15))))


def rect_data(case):
    """Per rectangle: size, rate (or mean), objective term, admissible."""
    m, n = case["shape"]
    rects = tilings(m, n)[0]
    o = case["opt"]
    cont = case["continuous"]
    cell = case["cell"]
    N = sum(len(c) if cont else sum(c) for c in cell) + case["missing"]
    if cont:
        tot = [v for c in cell for v in c]
        mu = math.fsum(tot) / len(tot)
    else:
        te = sum(c[0] for c in cell)
        tn = sum(c[1] for c in cell)
        term = {"iv": ref.iv_term, "js": ref.js_term,
                "hellinger": ref.hellinger_term,
                "triangular": ref.triangular_term}[o["divergence"]]
    size, rate, obj, ok = [], [], [], []
    for i, k, j, l in rects:
        cs = [cell[a * n + b] for a in range(i, k + 1)
              for b in range(j, l + 1)]
        if cont:
            v = [u for c in cs for u in c]
            s, good = len(v), len(v) > 0
            rate.append(math.fsum(v) / s if s else 0.0)
            obj.append(abs(rate[-1] - mu) if s else 0.0)
        else:
            e, q = sum(c[0] for c in cs), sum(c[1] for c in cs)
            s, good = e + q, e > 0 and q > 0
            rate.append(e / s if s else 0.0)
            obj.append(term(q, e, tn, te) if good else 0.0)
            for nm, w in (("event", e), ("nonevent", q)):
                lo, hi = (o.get("min_bin_n_" + nm), o.get("max_bin_n_" + nm))
                good = good and not (lo is not None and w < lo)
                good = good and not (hi is not None and w > hi)
        lo, hi = o.get("min_bin_size"), o.get("max_bin_size")
        good = good and not (lo is not None and s < math.ceil(lo * N))
        good = good and not (hi is not None and s > math.ceil(hi * N))
        size.append(s)
        ok.append(good)
    return [np.array(a) for a in (size, rate, obj, ok)]


def admissible(case, size, rate, ok, strict):
    """Mask of the tilings meeting the constraints."""
    m, n = case["shape"]
    rects, t, right, below = tilings(m, n)
    o = case["opt"]
    good = (t[:, ~ok].sum(axis=1) == 0)
    k = t.sum(axis=1)
    if o.get("min_n_bins") is not None:
        good &= k >= o["min_n_bins"]
    if o.get("max_n_bins") is not None:
        good &= k <= o["max_n_bins"]
    nm = "min_mean_diff_" if case["continuous"] else "min_event_rate_diff_"
    eps = EPS * max(1.0, np.abs(rate).max())
    for a, adj in (("x", right), ("y", below)):
        tr = o.get("monotonic_trend_" + a)
        if tr is None:
            continue
        s = 1 if tr == "ascending" else -1
        gap = s * (rate[None, :] - rate[:, None])
        bad = gap <= o.get(nm + a, 0) + (eps if strict else -eps)
        F = adj * bad
        good &= ((t @ F) * t).sum(axis=1) == 0
    return good


def run_exact(case, rec):
    from optbinning import ContinuousOptimalBinning2D, OptimalBinning2D
    m, n = case["shape"]
    cont = case["continuous"]
    cls = ContinuousOptimalBinning2D if cont else OptimalBinning2D
    X, Y, Z = [], [], []
    for i in range(m):
        for j in range(n):
            c = case["cell"][i * n + j]
            z = list(c) if cont else [1] * c[0] + [0] * c[1]
            X += [float(j)] * len(z)
            Y += [float(i)] * len(z)
            Z += z
    X += [float("nan")] * case["missing"]
    Y += [0.0] * case["missing"]
    Z += [1] * case["missing"]
    ob = cls(prebinning_method="uniform", max_n_prebins_x=max(n, 2),
             max_n_prebins_y=max(m, 2), **case["opt"])
    ob.fit(np.array(X), np.array(Y), np.array(Z))
    status = str(ob.status)
    P = np.asarray(ob.binning_table.P)
    with observing("solution"):
        check(P.shape == (m, n), "pre-bin grid {} for {}x{} levels", P.shape,
              m, n)
        rects, t, right, below = tilings(m, n)
        size, rate, obj, ok = rect_data(case)
        loose = admissible(case, size, rate, ok, False)
        sure = admissible(case, size, rate, ok, True)
        mine = []
        for b in sorted(set(P.ravel().tolist())):
            i, j = np.where(P == b)
            mine.append(rects.index((i.min(), i.max(), j.min(), j.max())))
        rec.label("status=" + status, "shape=%dx%d" % (m, n),
                  "solver=" + case["opt"]["solver"])
        nm = ",".join(sorted(k for k in case["opt"] if k not in
                             ("solver", "divergence")))
        rec.label("constraints=" + nm)
        check(status in ("OPTIMAL", "FEASIBLE", "INFEASIBLE"), "status {}",
              status)
        if status == "INFEASIBLE":
            rec.nontrivial(m * n > 2)
            check(not sure.any(), "infeasible, but {} meets the constraints",
                  lambda: shape_of(rects, t, int(np.argmax(sure))))
            check(len(mine) == 1, "infeasible with {} bins", len(mine))
            return
        row = np.zeros(len(rects), dtype=np.int32)
        row[mine] = 1
        idx = np.where((t == row).all(axis=1))[0]
        check(len(idx) == 1, "bins {} are no tiling", P.tolist())
        me = int(idx[0])
        check(loose[me], "solution {} with sizes {} and rates {} breaks {}",
              P.tolist(), size[mine].tolist(), rate[mine].tolist(),
              case["opt"])
        rec.nontrivial(int(loose.sum()) >= 2)
        if status != "OPTIMAL":
            return
        val = t @ obj
        tol = TOL
        if case["opt"]["solver"] == "mip":
            tol += 1.01e-4 * (abs(val[me]) + case["opt"].get("gamma", 0))
        elif cont:
            tol += 1e-9 * abs(val[me])
        better = sure & (val > val[me] + tol)
        g = case["opt"].get("gamma")
        if g:
            big = np.where(t > 0, size[None, :], -1).max(axis=1)
            sml = np.where(t > 0, size[None, :], 1 << 30).min(axis=1)
            sp = big - sml
            better &= sp <= sp[me]
        check(not better.any(), "optimal {} has objective {}, but {} has {}",
              P.tolist(), val[me],
              lambda: shape_of(rects, t, int(np.argmax(better))),
              lambda: val[np.argmax(better)])


def shape_of(rects, t, i):
    return [rects[r] for r in np.where(t[i])[0]]


@st.composite
def data_cases(draw, continuous):
    case = draw(p15.xyz(continuous))
    case["opt"] = draw(p15.options(case))
    if draw(st.integers(0, 3)) == 0:
        case["opt"]["strategy"] = "cart"
    return case


def run_data(case, rec):
    ob = p15.estimator(case)
    X, Y, Z = p15.arrays(case)
    ob.fit(X, Y, Z)
    o = case["opt"]
    cont = case["continuous"]
    status = str(ob.status)
    with observing("solution"):
        lay = p15.Layout(case, ob)
        nb = lay.n_bins
        rows = [[] for _ in range(nb + 2)]
        for u, v, z in zip(case["x"], case["y"], case["z"]):
            rows[lay.row(u, v)].append(z)
        P = np.asarray(ob.binning_table.P)
        rec.label("status=" + status, "strategy=" + o["strategy"])
        if status == "INFEASIBLE":
            check(nb == 1, "infeasible with {} bins", nb)
            return
        check(status in ("OPTIMAL", "FEASIBLE"), "status {}", status)
        N = len(case["x"])
        cs = [k for k in o if k[:4] in ("min_", "max_", "mono")]
        rec.nontrivial(nb >= 2 and
                       any("prebin" not in k for k in cs))
        size = [len(r) for r in rows[:nb]]
        if o.get("min_n_bins") is not None:
            check(nb >= o["min_n_bins"], "{} bins, at least {} requested",
                  nb, o["min_n_bins"])
        if o.get("max_n_bins") is not None:
            check(nb <= o["max_n_bins"], "{} bins, at most {} requested", nb,
                  o["max_n_bins"])
        for k, s in enumerate(size):
            if o.get("min_bin_size") is not None:
                check(s >= math.ceil(o["min_bin_size"] * N),
                      "bin {} has {} of {} records, minimum share {}", k, s,
                      N, o["min_bin_size"])
            if o.get("max_bin_size") is not None:
                check(s <= math.ceil(o["max_bin_size"] * N),
                      "bin {} has {} of {} records, maximum share {}", k, s,
                      N, o["max_bin_size"])
            if not cont:
                e = sum(rows[k])
                for nm, w in (("event", e), ("nonevent", s - e)):
                    lo = o.get("min_bin_n_" + nm, 1)
                    hi = o.get("max_bin_n_" + nm, s)
                    check(lo <= w <= hi, "bin {} has {} {}s, allowed {} to "
                          "{}", k, w, nm, lo, hi)
        rate = [sum(r) / len(r) for r in rows[:nb]]
        eps = EPS * max(1.0, max(map(abs, rate)))
        nm = "min_mean_diff_" if cont else "min_event_rate_diff_"
        for a, di, dj in (("x", 0, 1), ("y", 1, 0)):
            tr = o.get("monotonic_trend_" + a)
            if tr is None:
                continue
            s = 1 if tr == "ascending" else -1
            for i in range(P.shape[0] - di):
                for j in range(P.shape[1] - dj):
                    p, q = int(P[i, j]), int(P[i + di, j + dj])
                    if p == q:
                        continue
                    check(s * (rate[q] - rate[p]) > o.get(nm + a, 0) - eps,
                          "{} trend along {}: neighbouring bins {} and {} "
                          "have {} and {} (min diff {})", tr, a, p, q,
                          rate[p], rate[q], o.get(nm + a, 0))


SUBS = [
    Sub("exact", lambda: exact_cases(False), run_exact, 2000,
        rule="binary grids against all tilings"),
    Sub("exact-continuous", lambda: exact_cases(True), run_exact, 1500,
        rule="continuous grids against all tilings"),
    Sub("data", lambda: data_cases(False), run_data, 1200,
        rule="binary, arbitrary features"),
    Sub("data-continuous", lambda: data_cases(True), run_data, 1000,
        rule="continuous, arbitrary features"),
]
