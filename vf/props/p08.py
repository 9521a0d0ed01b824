"""P08: equivalent presentations of the same data give equivalent binnings."""
import math

import numpy as np
from hypothesis import strategies as st

import frames
import gen
import zoo
from core import Skip, Sub, check, check_close, observing
from props import p01, p06

RULE = ("A case is a data set, options and a set of presentations of the same "
        "data: permuted rows, another container or dtype, a feature scaled "
        "by a power of two, categories renamed in order, codes of a special "
        "group exchanged, classes renumbered, a scaled continuous target, "
        "event labels swapped. Both are fitted; splits, statuses, tables, "
        "analysis values and transforms must correspond. Non-trivial: two or "
        "more bins.")
ASSUMPTIONS = ["cases are skipped where the CP solver returns another "
               "equally good solution",
               "features are scaled within 1e-4..1e12 gaps (scikit-learn "
               "trees work with absolute precision 1e-7 in float32)",
               "collinear rates decide convexity by rounding, so convex and "
               "concave trends are not used with swapped labels",
               "targets and weights have exact sums, so that permutations "
               "do not change them by rounding"]

FORMS = ("array", "array", "list", "series", "strided", "readonly", "tuple")


def exact_target(y):
    out = []
    for v in y:
        v = math.fmod(v, 1e6)
        out.append(round(v * 4) / 4.0)
    return out


@st.composite
def presentation(draw, case):
    t, cat = case["target"], case["cat"]
    d = case["d"][0]
    n = len(d["x"])
    opts = ["perm", "perm", "form", "form", "dtype", "name"]
    if cat:
        opts += ["rename", "rename"]
    elif "split_digits" not in case["opt"]:
        opts += ["scale", "scale", "scale"]
    if not cat and t == "binary" and case["swappable"]:
        opts += ["swap", "swap"]
    if t == "multiclass":
        opts += ["classes"]
    if t == "continuous":
        opts += ["yscale"]
    if case["special"]:
        opts += ["codes", "codes"]
    v = {}
    for o in draw(st.lists(st.sampled_from(opts), min_size=1, max_size=3,
                           unique=True)):
        if o == "perm":
            b = gen.rbytes(draw, n)
            v[o] = sorted(range(n), key=lambda i: (b[i], i))
        elif o == "form":
            v[o] = [draw(st.sampled_from(FORMS)) for _ in range(2)]
        elif o == "dtype":
            v[o] = [draw(st.sampled_from(
                ("object", "U", "category") if cat else
                ("float32", "int64", "int32", "int16") + (
                    ("object",) if t != "multiclass" else ()))),
                draw(st.sampled_from({
                    "binary": ("bool", "int8", "uint8", "float64",
                               "float32", "int32"),
                    "continuous": ("int64", "int32", "float32", "int16", "int8",
                                   "uint8", "float16"),
                    "multiclass": ("int8", "int32", "int16")}[t])),
                draw(st.sampled_from(("int64", "float32", "int8")))]
        elif o == "scale":
            v[o] = draw(st.sampled_from((-6, -3, -1, 1, 2, 5, 9)))
        elif o == "yscale":
            v[o] = draw(st.integers(1, 5))
        elif o == "classes":
            v[o] = sorted(draw(st.sets(st.integers(-3, 40), min_size=5,
                                       max_size=5)))
        elif o == "codes":
            v[o] = list(gen.rbytes(draw, n))
        elif o == "rename":
            v[o] = draw(st.integers(0, 2))
        elif o == "name":
            v[o] = draw(st.sampled_from(("", "another", "x_1")))
        else:
            v[o] = True
    return v


SWAP = {None: None, "ascending": "descending", "descending": "ascending",
        "peak": "valley", "valley": "peak"}


@st.composite
def cases(draw, target, cat=False):
    case = draw(zoo.Binning1D.cases(target, cat))
    del case["d"][1]
    case["arrays"] = False
    d = case["d"][0]
    d["form"] = "array"
    o = case["opt"]
    if o.get("class_weight") == "balanced":
        o["class_weight"] = {"0": 2, "1": 1}
    if target == "continuous":
        d["y"] = exact_target(d["y"])
        if draw(st.booleans()) and not cat:
            o["min_mean_diff"] = draw(st.sampled_from((0.5, 4.0)))
    if target == "binary":
        if draw(st.integers(0, 3)) == 0:
            k = draw(st.sampled_from(("min_bin_n_event", "min_bin_n_nonevent",
                                      "max_bin_n_event")))
            o[k] = draw(st.integers(1, 20))
        if draw(st.integers(0, 3)) == 0:
            o["min_event_rate_diff"] = draw(st.sampled_from((0.0503, 0.1973)))
        if draw(st.integers(0, 3)) == 0:
            o["max_pvalue"] = draw(st.sampled_from((0.05, 0.3)))
    if draw(st.integers(0, 3)) == 0:
        o["max_bin_size"] = draw(st.sampled_from((0.4, 0.6, 1.0)))
    case["swappable"] = (target == "binary" and
                         o.get("monotonic_trend") in SWAP)
    case["v"] = draw(presentation(case))
    return case


# ---------------------------------------------------------------------------
class Mapped:
    """The second presentation of a case."""

    def __init__(self, case):
        v = case["v"]
        d = case["d"][0]
        self.case, self.v = case, v
        self.scale = 1.0
        if "scale" in v:
            vals = sorted({abs(a - b) for a in set(d["x"]) | set(
                gen.special_values(case["special"])) for b in (0.0,)
                if a is not None})
            clean = sorted({a for a in d["x"] if a is not None} |
                           set(gen.special_values(case["special"])) |
                           set(map(float, case["opt"].get("user_splits",
                                                          []))))
            gaps = [b - a for a, b in zip(clean, clean[1:])] or [1.0]
            s = 2.0 ** v["scale"]
            if min(gaps) * min(s, 1) < 1e-4 or max(vals) * max(s, 1) > 1e12:
                raise Skip("scaled gaps out of range")
            self.scale = s
        self.cats = {}
        if "rename" in v:
            spec = gen.special_values(case["special"])
            names = {a for a in d["x"] if a is not None} | set(spec)
            for g in case["opt"].get("user_splits", []):
                names |= set(g)
            for i, a in enumerate(sorted(names)):
                self.cats[a] = ("n%04d" % (3 * i), "%06d" % i,
                                "z" * (i + 1))[v["rename"]]
        self.yscale = 2.0 ** v.get("yscale", 0)
        self.swap = "swap" in v
        self.classes = None
        if "classes" in v:
            self.classes = dict(zip(sorted(set(d["y"])), v["classes"]))
        self.codes = v.get("codes")

    def x(self, a, i=None):
        if a is None:
            return None
        if self.codes is not None and i is not None:
            for _, g in gen.special_groups(self.case["special"]):
                if a in g:
                    a = g[self.codes[i % len(self.codes)] % len(g)]
        if self.case["cat"]:
            return self.cats.get(a, a)
        return a * self.scale

    def y(self, b):
        if self.swap:
            return 1 - b
        if self.classes:
            return self.classes[b]
        return b * self.yscale if self.yscale != 1 else b

    def special(self):
        s = self.case["special"]
        if s is None:
            return None
        if isinstance(s, dict):
            return {k: ([self.x(q) for q in g] if isinstance(g, list)
                        else self.x(g)) for k, g in s.items()}
        return [self.x(q) for q in s]

    def options(self):
        o = dict(self.case["opt"])
        if "user_splits" in o:
            o["user_splits"] = [[self.x(q) for q in g] if
                                isinstance(g, list) else self.x(g)
                                for g in o["user_splits"]]
        if self.swap:
            o["monotonic_trend"] = SWAP[o["monotonic_trend"]]
            for p in ("min", "max"):
                a, b = p + "_bin_n_event", p + "_bin_n_nonevent"
                va, vb = o.pop(a, None), o.pop(b, None)
                if va is not None:
                    o[b] = va
                if vb is not None:
                    o[a] = vb
            if isinstance(o.get("class_weight"), dict):
                w = o["class_weight"]
                o["class_weight"] = {"0": w["1"], "1": w["0"]}
        if "min_mean_diff" in o:
            o["min_mean_diff"] *= self.yscale
        return o

    def query(self, q):
        return [self.x(a) if self.case["cat"] or a is None else
                a * self.scale for a in q]

    def arrays(self):
        """(x, y, weights) as presented."""
        c, v, d = self.case, self.v, self.case["d"][0]
        n = len(d["x"])
        order = v.get("perm", range(n))
        x = [self.x(d["x"][i], i) for i in order]
        y = [self.y(d["y"][i]) for i in order]
        w = [d["w"][i] for i in order] if "w" in d else None
        xt, yt, wt = v.get("dtype", (None, None, None))
        X = typed_x(x, c["cat"], xt)
        Y = np.array(y)
        if yt:
            Z = Y.astype(yt)
            if np.array_equal(Z.astype(float), Y.astype(float)):
                Y = Z
        W = None
        if w is not None:
            W = np.array(w, dtype=wt or float)
        fx, fy = v.get("form", ("array", "array"))
        return (contained(X, fx), contained(Y, fy),
                None if W is None else contained(W, fy))


def typed_x(x, cat, kind):
    import pandas as pd
    if cat:
        X = gen.xarray(x, True)
        if kind == "U" and all(a is not None for a in x):
            return np.array([str(a) for a in x])
        if kind == "category":
            return pd.Series(pd.Categorical(x))
        return X
    X = gen.xarray(x)
    if kind == "object":
        return X.astype(object)
    if kind:
        if kind.startswith("int") and (
                np.isnan(X).any() or np.abs(X).max() > 3e4 and
                kind == "int16" or np.abs(X).max() > 2e9 and
                kind == "int32"):
            return X
        Z = X.astype(kind)
        if np.array_equal(Z.astype(float), X, equal_nan=True):
            return Z
    return X


def contained(a, form):
    import pandas as pd
    if isinstance(a, pd.Series):
        return a
    if form == "list":
        return a.tolist()
    if form == "tuple":
        return tuple(a.tolist())
    if form == "series":
        return pd.Series(a, index=[(7 * i) % 1009 for i in range(len(a))])
    if form == "strided":
        b = np.empty(2 * len(a), dtype=a.dtype)
        b[::2] = a
        b[1::2] = a[::-1]
        return b[::2]
    if form == "readonly":
        a = a.copy()
        a.setflags(write=False)
        return a
    return a


X_TYPES = (None, None, "float32", "int64", "int16", "int8", "uint8")
Y_TYPES = (None, "float32", "float64", "int64", "int32", "int16", "int8",
           "uint8", "bool", "float16")


def retyped(a, t):
    """a in another type, if it holds the same values."""
    if t is None or a.dtype.kind not in "fiub":
        return a
    v = np.asarray(a, dtype=float)
    if "int" in t and not np.isfinite(v).all():
        return a
    with np.errstate(all="ignore"):
        z = np.asarray(a).astype(t)
    ok = np.array_equal(np.asarray(z, dtype=float), np.asarray(a, dtype=float),
                        equal_nan=True)
    return z if ok else a


# ---------------------------------------------------------------------------
def run(case, rec):
    tgt, cat = case["target"], case["cat"]
    d = case["d"][0]
    sub = dict(case, x=d["x"], y=d["y"], classes=sorted(set(d["y"])))
    p06.clean_records(sub)
    if "w" in d and tgt == "binary":
        p01.prepare(sub)
    kind = zoo.Binning1D(case)
    m = Mapped(case)
    kind2 = zoo.Binning1D(dict(case, opt=m.options(), special=m.special()))
    a = kind.make()
    (x, y), kw = kind.args(0)
    try:
        a.fit(x, y, **kw)
    except ValueError as e:
        if "are removed because produce pure prebins" in str(e):
            raise Skip("fixed split next to a pure pre-bin (documented)")
        raise
    b = kind2.make()
    if "name" in case["v"]:
        b.set_params(name=case["v"]["name"])
    X, Y, W = m.arrays()
    what = "presented as {}".format({k: v for k, v in case["v"].items()
                                     if k not in ("perm", "codes")} |
                                    {k: True for k in ("perm", "codes")
                                     if k in case["v"]})
    b.fit(X, Y, **({} if W is None else {"sample_weight": W}))
    judge(case, kind, kind2, m, a, b, what, rec)


def judge(case, kind, kind2, m, a, b, what, rec):
    tgt, cat = case["target"], case["cat"]
    f32 = isinstance(case["v"].get("dtype"), list) and not cat and \
        case["v"]["dtype"][0] == "float32"
    with observing(what):
        if cat:
            sa = [sorted(m.cats.get(str(q), str(q)) for q in g)
                  for g in a.splits]
            sb = [sorted(str(q) for q in g) for g in b.splits]
            equal = sa == sb
        else:
            sa = [float(s) * m.scale for s in a.splits]
            sb = [float(s) for s in b.splits]
            tol = 1e-6 if f32 else 1e-12
            equal = len(sa) == len(sb) and all(
                abs(u - v) <= tol * max(abs(u), abs(v), 1e-3)
                for u, v in zip(sa, sb))
    oa, ob = kind.objective(a), kind2.objective(b) / m.yscale
    if not equal and a.status == b.status and \
            abs(oa - ob) <= 2e-5 + 1e-4 * max(abs(oa), abs(ob)):
        raise Skip("another, equally good solution")
    if not equal and m.swap and case["opt"].get("monotonic_trend") and \
            (tied(a, sa) or tied(b, sb)):
        raise Skip("equal rates: rounding decides about the trend")
    check(equal, "{}: splits {}, expected {} ({} and {})", what, sb, sa,
          b.status, a.status)
    check(a.status == b.status, "{}: status {}, was {}", what, b.status,
          a.status)
    ta, tb = a.binning_table.build(), b.binning_table.build()
    compare_tables(m, ta, tb, tgt, what)
    va = dict(zoo.analysed(a.binning_table))
    vb = dict(zoo.analysed(b.binning_table))
    with observing(what + " analysis"):
        check(sorted(va) == sorted(vb), "{}: values {} and {}", what, va, vb)
        for k in va:
            w = va[k]
            if k in ("woe", "iv") and tgt == "continuous":
                w *= m.yscale
            if k in ("gini", "ks") and m.swap or k == "quality_score" and \
                    m.yscale != 1:
                continue
            check_close(vb[k], w, "{} of data {}".format(k, what), 1e-6, 1e-8)
    transforms(case, kind, m, a, b, ta, what)
    rec.label(tgt, *["by " + k for k in case["v"]])
    if cat:
        rec.label("categorical")
    rec.nontrivial(len(sa) >= (2 if cat else 1))


def tied(ob, splits):
    t = ob.binning_table.build()
    r = sorted(float(v) for v in t["Event rate"].values[:len(splits) + 1])
    return any(v - u < 1e-9 for u, v in zip(r, r[1:]))


def compare_tables(m, ta, tb, tgt, what):
    skip = {"Bin"} if (m.scale != 1 or m.cats or m.case["cat"] or
                       "float32" in m.v.get("dtype", ())) else set()
    cols = {c: c for c in ta.columns}
    sign = {}
    if m.swap:
        cols.update({"Event": "Non-event", "Non-event": "Event"})
        sign = {"WoE": -1.0}
    if m.classes:
        for u, v in m.classes.items():
            cols.update({"Event_%s" % u: "Event_%s" % v,
                         "Event_rate_%s" % u: "Event_rate_%s" % v})
    factor = {}
    if tgt == "continuous":
        factor = {c: m.yscale for c in ("Sum", "Mean", "Std", "Min", "Max",
                                        "WoE", "IV")}
    with observing(what + " table"):
        check(len(ta) == len(tb), "{}: {} rows, was {}", what, len(tb),
              len(ta))
        # single-record and constant bins: only rounding decides about 0
        big = 0.0
        if tgt == "continuous":
            big = max([abs(float(v)) for c in ("Min", "Max")
                       for v in ta[c].values
                       if v != "" and math.isfinite(float(v))] + [0.0])
        for c, c2 in cols.items():
            if c in skip:
                continue
            for i, (u, v) in enumerate(zip(ta[c].values, tb[c2].values)):
                w = "{}: {} of row {}".format(what, c2, i)
                try:
                    u, v = float(u), float(v)
                except (TypeError, ValueError):
                    check(str(u) == str(v), "{}: {!r}, was {!r}", w, v, u)
                    continue
                if c == "Event rate" and m.swap:
                    n, ev, ne = [float(ta[k].values[i]) for k in
                                 ("Count", "Event", "Non-event")]
                    u = ne / n if n and ev and ne or n and not ev else 0.0
                    if n and not ne:
                        u = 0.0
                    if n and not ev:
                        continue
                u *= sign.get(c, 1.0) * factor.get(c, 1.0)
                check_close(v, u, w, 1e-9, 1e-9 + 1e-7 * big * m.yscale)


def transforms(case, kind, m, a, b, ta, what):
    tgt, cat = case["target"], case["cat"]
    sub = dict(x=case["d"][0]["x"], special=case["special"])
    sp = [] if cat else [float(s) for s in a.splits]
    q = gen.expand_query(case["q"], sub, sp, cat)
    if not cat:
        # values next to a split may land on it in another dtype
        q = [v for v in q if v is None or v in sub["x"] or
             all(abs(v - s) > 1e-6 * max(1, abs(s)) for s in sp)]
        if not q:
            return
    q2 = m.query(q)
    for t in case["tr"]:
        for metric in kind.METRICS[tgt]:
            if m.swap and metric == "event_rate":
                continue
            if metric == "bins" and (cat or m.scale != 1 or "float32" in
                                     m.v.get("dtype", ())):
                continue
            u = a.transform(gen.xarray(q, cat), metric=metric, **t)
            v = b.transform(gen.xarray(q2, cat), metric=metric, **t)
            with observing(what + " transform"):
                f = 1.0
                if metric == "mean":
                    f = m.yscale
                if metric == "woe" and m.swap:
                    f = -1.0
                u = list(u)
                if f != 1.0:
                    spec = gen.special_values(case["special"])
                    for i, z in enumerate(q):
                        fixed = None
                        if z is None:
                            fixed = t["metric_missing"]
                        elif z in spec:
                            fixed = t["metric_special"]
                        if fixed is None or fixed == "empirical":
                            u[i] = float(u[i]) * f
                frames.same_column(list(v), u, "{} {}".format(what, metric))


# ---------------------------------------------------------------------------
# the other estimators: the same records in another order, form or scale
# ---------------------------------------------------------------------------
@st.composite
def cases_2d(draw, continuous):
    case = draw(zoo.Binning2D.cases(continuous))
    d = case["d"][0]
    case["d"] = [d]
    if continuous:
        d["z"] = exact_target(d["z"])
    n = len(d["x"])
    b = gen.rbytes(draw, n)
    case["perm"] = sorted(range(n), key=lambda i: (b[i], i))
    case["form"] = [draw(st.sampled_from(FORMS)) for _ in range(3)]
    case["types"] = [draw(st.sampled_from(t)) for t in (X_TYPES, X_TYPES,
                                                        Y_TYPES)]
    case["scale"] = [draw(st.sampled_from((0, 0, -2, 1, 4)))
                     for _ in range(2)]
    if "split_digits" in case["base"]["opt"]:
        case["scale"] = [0, 0]
    return case


def scaled(values, k, cat):
    if cat or values is None:
        return values
    return [None if v is None else v * 2.0 ** k for v in values]


def run_2d(case, rec):
    kind = zoo.Binning2D(case)
    base, d = case["base"], case["d"][0]
    for j, k in enumerate(case["scale"]):
        v = sorted({u for u in d["xy"[j]] if u is not None} |
                   set(case["special"][j] or [])) if not case["cat"][j] \
            else [0, 1]
        gaps = [q - p for p, q in zip(v, v[1:])] or [1.0]
        if k and not case["cat"][j] and min(gaps) < 1e-3:
            raise Skip("scaled gaps out of range")
    case2 = dict(case, base=dict(base, special=[
        scaled(base["special"][j], case["scale"][j], case["cat"][j])
        for j in (0, 1)]), d=[dict(
            x=scaled(d["x"], case["scale"][0], case["cat"][0]),
            y=scaled(d["y"], case["scale"][1], case["cat"][1]), z=d["z"])])
    case2["special"] = case2["base"]["special"]
    kind2 = zoo.Binning2D(case2)
    a, b = kind.make(), kind2.make()
    with zoo.quiet():
        a.fit(*kind.args(0)[0])
        args = [contained(retyped(v[case["perm"]], t), f) for v, f, t in
                zip(kind2.args(0)[0], case["form"], case["types"])]
        b.fit(*args)
    what = "presented as {} {} {}".format(case["form"], case["types"],
                                          case["scale"])
    same_2d = case["scale"] == [0, 0]
    fa, fb = [[[[u if case["cat"][j] else float(u) * 2.0 ** k for u in s]
                for s in e.splits[j]]
               for j, k in enumerate(ks)]
              for e, ks in ((a, case["scale"]), (b, (0, 0)))]
    with observing(what):
        equal = str(fa) == str(fb)
        ta, tb = a.binning_table.build(), b.binning_table.build()
        va, vb = [sum(float(v) for v in t["IV"].values[:-1])
                  for t in (ta, tb)]
        if not equal and a.status == b.status and (
                "gamma" in base["opt"] or
                abs(va - vb) <= 2e-5 + 1e-3 * max(abs(va), abs(vb))):
            raise Skip("another, equally good solution")
        check(equal and a.status == b.status, "{}: splits {} ({}), expected "
              "{} ({})", what, fb, b.status, fa, a.status)
        for c in ta.columns:
            if c in ("Bin x", "Bin y"):
                continue
            zoo.same(list(tb[c].values), list(ta[c].values),
                     what + " column " + c, 1e-9, 1e-9)
    for (name, fn), (_, fn2) in zip(kind.observations(),
                                    kind2.observations()):
        if name.startswith("transform") and (same_2d or "bins" not in name):
            u, v = fn(a), fn2(b)
            zoo.same(v, u, what + " " + name)
    rec.label("2d", "scaled" if not same_2d else "permuted")
    rec.nontrivial(len(a.splits[0]) >= 2)


@st.composite
def cases_sc(draw):
    case = draw(zoo.Scenario.cases())
    d = case["d"][0]
    case["d"] = [d]
    if d["w"] is not None:
        d["w"] = [max(1, round(w)) for w in d["w"]]
    k = len(d["sc"])
    case["perm"] = draw(st.permutations(range(k)))
    case["rows"] = []
    for x, _ in d["sc"]:
        b = gen.rbytes(draw, len(x))
        case["rows"].append(sorted(range(len(x)), key=lambda i: (b[i], i)))
    case["form"] = draw(st.sampled_from(FORMS))
    case["types"] = [draw(st.sampled_from(t)) for t in (X_TYPES, Y_TYPES)]
    return case


def run_sc(case, rec):
    kind = zoo.Scenario(case)
    d = case["d"][0]
    a, b = kind.make(), kind.make()
    (X, Y), kw = kind.args(0)
    (X2, Y2), kw2 = kind.args(0)
    X2, Y2 = [[contained(retyped(V[j][case["rows"][j]], t), case["form"])
               for j in case["perm"]]
              for V, t in zip((X2, Y2), case["types"])]
    if kw2:
        kw2["weights"] = [kw2["weights"][j] for j in case["perm"]]
    try:
        a.fit(X, Y, **kw)
    except ValueError as e:
        if "pure prebins" in str(e):
            raise Skip("fixed split next to a pure pre-bin (documented)")
        raise
    b.fit(X2, Y2, **kw2)
    if kind.tie(a, b):
        raise Skip("another, equally good solution")
    what = "scenarios in order {}, as {}".format(case["perm"], case["form"])
    for name, fn in kind.observations():
        if name.startswith("scenario"):
            continue
        with zoo.quiet():
            u, v = fn(a), fn(b)
        with observing(what):
            zoo.same(v, u, what + " " + name, 1e-8, 1e-8)
    for i, j in enumerate(case["perm"]):
        u = a.binning_table_scenario(j).build()
        v = b.binning_table_scenario(i).build()
        with observing(what):
            zoo.same(v, u, what + " scenario %d" % j)
    rec.label("scenarios=%d" % len(d["sc"]))
    rec.nontrivial(len(a.splits) >= 1)


def letters(v):
    """Labels up to the order of the rare categories in them."""
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        return v.map(letters)
    if isinstance(v, (list, np.ndarray)):
        return "".join(sorted(str(v)))
    return "".join(sorted(v)) if isinstance(v, str) else v


@st.composite
def cases_bp(draw, target):
    case = draw(zoo.Process.cases(target))
    fr = case["fr"]
    if target == "continuous":
        fr["y"] = exact_target(fr["y"])
    case["d"] = [case["d"][0]]
    b = gen.rbytes(draw, fr["n"])
    case["rows"] = sorted(range(fr["n"]), key=lambda i: (b[i], i))
    case["form"] = [draw(st.sampled_from(("array", "list", "series",
                                          "readonly", "strided"))),
                    draw(st.sampled_from((None, 3, -1)))]
    case["types"] = [draw(st.sampled_from(X_TYPES)) for _ in range(3)] + [
        # labels are part of the columns of a multiclass table
        draw(st.sampled_from(Y_TYPES if target != "multiclass" else
                             ("int64", "int16", "uint8", "int8")))]
    return case


def run_bp(case, rec):
    import pandas as pd
    kind = zoo.Process(case)
    a, b = kind.make(), kind.make()
    (X, y), kw = kind.args(0)
    try:
        with zoo.quiet():
            a.fit(X, y, **kw)
    except ValueError as e:
        if "pure prebins" in str(e) or "cat" in str(e):
            raise Skip("a variable cannot be binned")
        raise
    kind.case = dict(case, d=[case["rows"]])
    (X2, y2), kw2 = kind.args(0)
    y2 = contained(retyped(np.asarray(y2), case["types"][3]),
                   case["form"][0])
    if isinstance(X2, pd.DataFrame):
        for j, c in enumerate(list(X2.columns)):
            if X2[c].dtype.kind in "fiub":
                X2[c] = retyped(X2[c].values, case["types"][j % 3])
    if isinstance(X2, pd.DataFrame) and case["form"][1]:
        X2.index = [case["form"][1] * i for i in range(len(X2))]
    with zoo.quiet():
        b.fit(X2, y2, **kw2)
    kind.case = case
    if kind.tie(a, b):
        raise Skip("another, equally good solution")
    what = "permuted rows, target as {}".format(case["form"][0])
    for name, fn in kind.observations():
        with zoo.quiet():
            try:
                u = fn(a)
            except (TypeError, ValueError):
                continue            # mixed metrics, refused
            v = fn(b)
        with observing(what):
            zoo.same(letters(v), letters(u), what + " " + name, 1e-8, 1e-8)
    rec.label("variables=%d" % len(case["fr"]["names"]))
    rec.nontrivial(any(len(a.get_binned_variable(v).splits) >= 1
                       for v in case["fr"]["names"]))


@st.composite
def cases_mdlp(draw):
    case = draw(zoo.Mdlp.cases())
    del case["d"][1]
    n = len(case["d"][0]["x"])
    b = gen.rbytes(draw, n)
    case["rows"] = sorted(range(n), key=lambda i: (b[i], i))
    case["scale"] = draw(st.sampled_from((-9, -1, 0, 3, 12)))
    case["form"] = [draw(st.sampled_from(FORMS)) for _ in range(2)]
    case["dtype"] = draw(st.sampled_from(("int64", "bool", "float64",
                                          "uint8")))
    case["swap"] = draw(st.booleans())
    return case


def run_mdlp(case, rec):
    kind = zoo.Mdlp(case)
    a, b = kind.make(), kind.make()
    (x, y), _ = kind.args(0)
    a.fit(x, y)
    X = contained(x[case["rows"]] * 2.0 ** case["scale"], case["form"][0])
    Y = y[case["rows"]].astype(case["dtype"])
    if case["swap"]:
        Y = (1 - y[case["rows"]]).astype(case["dtype"])
    b.fit(X, contained(Y, case["form"][1]))
    with observing("splits"):
        u = [float(v) * 2.0 ** case["scale"] for v in a.splits]
        v = [float(v) for v in b.splits]
        check(u == v, "presented as {}: splits {}, expected {}",
              {k: case[k] for k in ("scale", "form", "dtype", "swap")}, v, u)
    rec.nontrivial(len(u) >= 1)


SUBS = [Sub("binary", lambda: cases("binary"), run, 2500,
            rule="binary target"),
        Sub("binary_cat", lambda: cases("binary", True), run, 1500,
            rule="binary target, categories"),
        Sub("continuous", lambda: cases("continuous"), run, 1500,
            rule="continuous target"),
        Sub("continuous_cat", lambda: cases("continuous", True), run, 1000,
            rule="continuous target, categories"),
        Sub("multiclass", lambda: cases("multiclass"), run, 1500,
            rule="multiclass target"),
        Sub("binary_2d", lambda: cases_2d(False), run_2d, 350,
            rule="2D, binary target"),
        Sub("continuous_2d", lambda: cases_2d(True), run_2d, 300,
            rule="2D, continuous target"),
        Sub("scenario", cases_sc, run_sc, 500, rule="scenarios"),
        Sub("process", lambda: cases_bp("binary"), run_bp, 150,
            rule="process, binary target"),
        Sub("process_other", lambda: st.one_of(cases_bp("continuous"),
                                               cases_bp("multiclass")),
            run_bp, 150, rule="process, other targets"),
        Sub("mdlp", cases_mdlp, run_mdlp, 1500, rule="MDLP")]
