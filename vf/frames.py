"""Data frames of several variables with one target, process options and the
selection rule."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import check, check_close

METRICS = {"binary": ["iv", "js", "gini", "quality_score"],
           "multiclass": ["js", "quality_score"],
           "continuous": ["woe", "quality_score"]}


@st.composite
def frame(draw, target="binary", m_lo=1, m_hi=5, n_lo=30, n_hi=160,
          cats=True, missing=True, kinds=("num", "num", "cat", "int",
                                          "catnum"), strong=False):
    """Columns with missing values and special codes.  kinds: num (float),
    int (integers without missing values), cat (strings), catnum (numbers to
    be treated as categories)."""
    n = draw(st.integers(n_lo, n_hi))
    m = draw(st.integers(m_lo, m_hi))
    z = gen.rbytes(draw, n)
    e = gen.rbytes(draw, n)
    noise = draw(st.sampled_from((0, 64, 128)))
    lat = [min(255, max(0, a + (b - 128) * noise // 128))
           for a, b in zip(z, e)]
    if target == "binary":
        cut = draw(st.integers(60, 200))
        y = [1 if v < cut else 0 for v in lat]
        y[0], y[-1] = 0, 1
    elif target == "continuous":
        f = draw(st.sampled_from((1.0, 7.0, 1e-3)))
        y = [v / f - 10.25 for v in lat]
        y[0] += 0.125
    else:
        nc = draw(st.integers(3, 4))
        y = [min(nc - 1, v * nc // 256) for v in lat]
        y[:nc] = list(range(nc))
    spec = draw(st.sampled_from((None, None, [-9999.0], [-9999.0, -9998.0],
                                 {"a": -9999.0, "b": [-9998.0, 99999.0]})))
    cols, kd, names, own = [], [], [], []
    pool = draw(st.sampled_from((
        ["v0", "v1", "x", "A b", "w", "long_name", "b"],
        ["number_of_days_since_first_use", "number_of_days_since_last_use",
         "a.b", "\u00e9t\u00e9", "1", "Points", "x"])))
    for j in range(m):
        k = draw(st.sampled_from(kinds if cats else ("num", "num", "int")))
        if k == "cat":
            lv = draw(gen.cat_levels(1, 7))[1]
        elif k in ("int", "catnum"):
            top = draw(st.integers(1, 7 if k == "catnum" else 30))
            lv = [float(v) for v in range(top)]
            if draw(st.booleans()):
                lv = lv[::-1]
        else:
            lv = draw(gen.levels(1, 14))[1]
        rho = draw(st.sampled_from((0, 100, 200, 256) if not strong
                                   else (150, 220, 256)))
        b = gen.rbytes(draw, n)
        c = gen.rbytes(draw, n)
        x = [lv[(z[i] if b[i] < rho else c[i]) * len(lv) // 256]
             for i in range(n)]
        o = None
        if k != "int":
            sp = spec
            if k == "cat":
                o = draw(st.sampled_from((None, None, ["SPC_A"],
                                          ["SPC_A", "SPC_B"])))
                sp = o
            pm = draw(st.sampled_from((0, 0, 8, 30))) if missing else 0
            ps = draw(st.sampled_from((0, 20, 40))) if sp else 0
            sv = gen.special_values(sp)
            d = gen.rbytes(draw, n)
            for i in range(1, n - 1):
                if d[i] < pm:
                    x[i] = None
                elif ps and d[i] >= 256 - ps:
                    x[i] = sv[d[i] % len(sv)]
        cols.append(x)
        kd.append(k)
        names.append(pool[j])
        own.append(o)
    return dict(target=target, n=n, names=names, kinds=kd, cols=cols, y=y,
                special=spec, own=own)


def categorical(fr):
    return [v for v, k in zip(fr["names"], fr["kinds"]) if k == "catnum"]


def column(fr, j, rows=None):
    """One column as the array a data frame would hold."""
    x = fr["cols"][j]
    if rows is not None:
        x = [x[i] for i in rows]
    k = fr["kinds"][j]
    if k == "cat":
        return gen.xarray(x, True)
    if k == "int":
        return np.array(x, dtype=int)
    return gen.xarray(x)


def dataframe(fr, rows=None, index=None, order=None, extra=False):
    import pandas as pd
    n = fr["n"] if rows is None else len(rows)
    js = range(len(fr["names"])) if order is None else order
    d = {}
    if extra:
        d["zz extra"] = np.arange(n)
    for j in js:
        d[fr["names"][j]] = column(fr, j, rows)
    df = pd.DataFrame(d)
    if index is not None:
        df.index = index
    return df


def matrix(fr, rows=None):
    return np.column_stack([column(fr, j, rows).astype(float)
                            for j in range(len(fr["names"]))])


def target(fr, rows=None):
    y = fr["y"] if rows is None else [fr["y"][i] for i in rows]
    return np.array(y, dtype=float if fr["target"] == "continuous" else int)


@st.composite
def process_opts(draw, fr):
    o = dict(max_n_prebins=draw(st.integers(2, 20)))
    if draw(st.integers(0, 2)) == 0:
        o["min_n_bins"] = draw(st.integers(1, 2))
    if draw(st.integers(0, 2)) == 0:
        o["max_n_bins"] = draw(st.integers(2, 5))
    if draw(st.integers(0, 2)) == 0:
        o["min_bin_size"] = draw(st.sampled_from((0.05, 0.1, 0.2)))
    if draw(st.integers(0, 3)) == 0:
        o["max_bin_size"] = draw(st.sampled_from((0.4, 0.6, 0.8)))
    if draw(st.integers(0, 3)) == 0:
        o["max_pvalue"] = draw(st.sampled_from((0.05, 0.3)))
        o["max_pvalue_policy"] = draw(st.sampled_from(("consecutive",
                                                       "all")))
    if draw(st.integers(0, 4)) == 0:
        o["split_digits"] = draw(st.integers(0, 3))
    return o


@st.composite
def transform_params(draw, fr, metrics, p=2):
    """{name: {metric, metric_special, metric_missing}} for some."""
    out = {}
    for v in fr["names"]:
        if draw(st.integers(0, p)):
            continue
        t = {}
        if draw(st.booleans()):
            t["metric"] = draw(st.sampled_from(metrics))
        if draw(st.booleans()):
            t["metric_special"] = draw(st.sampled_from(("empirical", 1.5,
                                                        -2)))
        if draw(st.booleans()):
            t["metric_missing"] = draw(st.sampled_from(("empirical", 0.75,
                                                        -3)))
        if t:
            out[v] = t
    return out


@st.composite
def call_opts(draw, metrics):
    o = dict(metric=draw(st.sampled_from(metrics)))
    for k in ("metric_special", "metric_missing"):
        if draw(st.booleans()):
            o[k] = draw(st.sampled_from(("empirical", 0, 2.5)))
    if draw(st.integers(0, 3)) == 0:
        o["show_digits"] = draw(st.integers(0, 6))
    return o


# ---------------------------------------------------------------------------
# statistics and the selection rule
# ---------------------------------------------------------------------------
def stats(ob, tgt):
    """Statistics of one fitted binning as its table reports them."""
    t = ob.binning_table
    t.build()
    t.analysis(print_output=False)
    return {k: float(getattr(t, k)) for k in METRICS[tgt]}


def supports(values, criteria, fixed, names, tgt):
    """All admissible supports (ties at a cut-off may go either way)."""
    cur = {frozenset(range(len(names)))}
    for metric in METRICS[tgt]:
        info = (criteria or {}).get(metric)
        if info is None:
            continue
        v = [values[n][metric] for n in names]
        nxt = set()
        for s in cur:
            s = [i for i in s if ("min" not in info or v[i] >= info["min"])
                 and ("max" not in info or v[i] <= info["max"])]
            if "strategy" not in info or "top" not in info:
                nxt.add(frozenset(s))
                continue
            top = info["top"]
            if not isinstance(top, int):
                top = math.ceil(len(s) * top)
            top = min(top, len(s))
            sign = -1 if info["strategy"] == "highest" else 1
            o = sorted(sign * v[i] for i in s)
            if top == 0:
                nxt.add(frozenset())
                continue
            c = o[top - 1]
            sure = [i for i in s if sign * v[i] < c]
            tie = [i for i in s if sign * v[i] == c]
            from itertools import combinations
            for extra in combinations(tie, top - len(sure)):
                nxt.add(frozenset(sure + list(extra)))
        cur = nxt
    f = {names.index(v) for v in (fixed or [])}
    return {s | f for s in cur}


@st.composite
def criteria_spec(draw, tgt):
    """Criteria relative to the statistics still to be computed."""
    out = {}
    for m in METRICS[tgt]:
        if draw(st.integers(0, 1)):
            continue
        d = {}
        for k in ("min", "max"):
            if draw(st.integers(0, 2)) == 0:
                d[k] = [draw(st.integers(0, 5)), draw(st.sampled_from(
                    (0, 0, -1, 1)))]
        if draw(st.booleans()):
            d["strategy"] = draw(st.sampled_from(("highest", "lowest")))
            d["top"] = draw(st.sampled_from((1, 2, 3, 9, 0.25, 0.5, 0.7)))
        if draw(st.integers(0, 7)) == 0:
            d.pop("top", None)
        out[m] = d
    return out


def criteria(spec, values, names, tgt):
    """Bounds become observed statistics, or values just off them."""
    lim = {"gini": 1.0, "quality_score": 1.0}
    out = {}
    for m, d in spec.items():
        c = {k: v for k, v in d.items() if k not in ("min", "max")}
        for k in ("min", "max"):
            if k in d:
                i, off = d[k]
                v = values[names[i % len(names)]][m]
                if off:
                    v += off * 1e-4 * (1 + abs(v))
                c[k] = min(max(v, 0.0), lim.get(m, math.inf))
        out[m] = c
    return out


# ---------------------------------------------------------------------------
# comparisons
# ---------------------------------------------------------------------------
def same_table(a, b, what, rtol=1e-9, atol=1e-9):
    check(list(map(str, a.columns)) == list(map(str, b.columns)),
          "{}: columns {} and {}", what, list(a.columns), list(b.columns))
    check(len(a) == len(b), "{}: {} and {} rows", what, len(a), len(b))
    for c in a.columns:
        for i, (u, v) in enumerate(zip(a[c].values, b[c].values)):
            same_value(u, v, lambda: "{}: row {} {}".format(what, i, c), rtol,
                       atol)


def same_value(u, v, what, rtol=1e-9, atol=1e-9):
    try:
        f, g = float(u), float(v)
    except (TypeError, ValueError):
        check(str(u) == str(v), "{}: {!r} and {!r}", what, u, v)
        return
    check_close(f, g, what() if callable(what) else what, rtol, atol)


def same_column(got, want, what):
    check(len(got) == len(want), "{}: {} and {} values", what, len(got),
          len(want))
    for i, (u, v) in enumerate(zip(got, want)):
        if isinstance(v, str) or isinstance(u, str):
            check(str(u) == str(v), "{} [{}]: {!r}, expected {!r}", what, i,
                  u, v)
        else:
            check_close(float(u), float(v), lambda: "{} [{}]".format(what, i),
                        1e-9, 1e-9)


def same_splits(a, b, what):
    a, b = list(a), list(b)
    check(len(a) == len(b), "{}: splits {} and {}", what, a, b)
    for u, v in zip(a, b):
        if isinstance(u, (list, np.ndarray)):
            check([str(q) for q in u] == [str(q) for q in v],
                  "{}: splits {} and {}", what, a, b)
        else:
            check_close(float(u), float(v), what + " splits", 1e-12, 1e-12)


def tie(a, b, metric):
    """Two solved binnings that differ although their objectives are equal
    (the CP solver does not always return the same one of them)."""
    sa, sb = list(a.splits), list(b.splits)
    if len(sa) == len(sb) and all(
            (set(map(str, u)) == set(map(str, v)))
            if isinstance(u, (list, np.ndarray))
            else abs(float(u) - float(v)) <= 1e-9 * (1 + abs(float(v)))
            for u, v in zip(sa, sb)):
        return False
    if a.status != b.status:
        return False
    va, vb = metric(a), metric(b)
    return abs(va - vb) <= 2e-5 + 1e-4 * max(abs(va), abs(vb))


def divergence_of(ob):
    """Objective of a binary binning, from its table's counts."""
    t = ob.binning_table.build()
    ne, ev = ref.table_cols(t, ["Non-event", "Event"])
    f = {"iv": ref.iv_term, "js": ref.js_term,
         "hellinger": ref.hellinger_term,
         "triangular": ref.triangular_term}[ob.divergence]
    nb = len(ob.splits) + (0 if ob.dtype == "categorical" else 1)
    return math.fsum(f(x, y, ne[-1], ev[-1])
                     for x, y in zip(ne[:nb], ev[:nb]))
