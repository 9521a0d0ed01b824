"""P21: binning process of data streams."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

import frames
import gen
from core import Skip, Sub, Violation, check, must_raise, observing

RULE = ("A case is a data frame, process options, options of single "
        "variables and a history over up to two processes: slices of the "
        "rows (possibly with some columns only) are added, processes are "
        "merged and solved. Every process is mirrored by one sketch per "
        "variable that gets the same batches; statuses, splits, tables, "
        "statistics, selection and transformed columns are compared. "
        "Non-trivial: two or more variables, one with two or more bins, "
        "after at least two additions or a merge.")
ASSUMPTIONS = ["ties at the cut-off of a selection may go either way",
               "cases are skipped where the CP solver returns another "
               "equally good solution",
               "where an individual sketch cannot be solved, the process "
               "must fail as well"]

METRICS = ("woe", "woe", "event_rate", "indices", "bins")


@st.composite
def cases(draw):
    fr = draw(frames.frame("binary", m_hi=4, n_hi=140))
    if isinstance(fr["special"], dict):
        fr["special"] = gen.special_values(fr["special"])
    o = draw(frames.process_opts(fr))
    fp = {}
    for j, v in enumerate(fr["names"]):
        p = {}
        if fr["own"][j]:
            p["special_codes"] = list(fr["own"][j])
        if draw(st.integers(0, 3)) == 0:
            p["max_n_bins"] = draw(st.integers(2, 6))
        if draw(st.integers(0, 3)) == 0:
            p["divergence"] = draw(st.sampled_from(("iv", "js",
                                                    "hellinger")))
        if draw(st.integers(0, 3)) == 0:
            p["monotonic_trend"] = draw(st.sampled_from((
                "ascending", "descending", None)))
        if draw(st.integers(0, 4)):
            p["solver"] = "mip"
        if fr["kinds"][j] in ("cat", "catnum") and draw(st.booleans()):
            p["cat_cutoff"] = draw(st.sampled_from((0.05, 0.2)))
        if fr["kinds"][j] not in ("cat", "catnum") and draw(
                st.integers(0, 4)) == 0:
            p["eps"] = 0.05
        if fr["kinds"][j] in ("cat", "catnum") and draw(
                st.integers(0, 3)) == 0:
            p["dtype"] = "categorical"  # and not a categorical_variable
        if p:
            fp[v] = p
    m = draw(st.integers(1, 2))
    cut = st.integers(0, 8)
    mask = st.one_of(st.just(15), st.just(15), st.integers(1, 15))
    op = st.one_of(
        st.tuples(st.just("add"), st.integers(0, m - 1), cut, cut, mask),
        st.tuples(st.just("add"), st.integers(0, m - 1), cut, cut, mask),
        st.tuples(st.just("merge"), st.integers(0, m - 1),
                  st.integers(0, m - 1)),
        st.tuples(st.just("solve"), st.integers(0, m - 1)))
    c = draw(cut)
    start = [("add", 0, 0, c, 15), ("add", m - 1, c, 8, 15)]
    ops = start[:draw(st.integers(1, 2))] + draw(st.lists(op, max_size=4))
    if m > 1 and draw(st.booleans()):
        ops.append(("merge", draw(st.integers(0, 1)), 1))
    return dict(fr=fr, opt=o, fit=fp, m=m, ops=ops,
                array_codes=draw(st.booleans()),
                tp=draw(frames.transform_params(
                    fr, METRICS[1:4])) if draw(st.booleans()) else None,
                call=draw(frames.call_opts(METRICS)),
                crit=draw(frames.criteria_spec("binary")),
                perm=draw(st.permutations(range(len(fr["names"])))),
                extra=draw(st.booleans()))


def codes(case):
    s = case["fr"]["special"]
    if s is None:
        return None
    return np.array(s) if case["array_codes"] else list(s)


def make(case):
    from optbinning import BinningProcessSketch
    fr = case["fr"]
    cat = [v for v, k in zip(fr["names"], fr["kinds"])
           if k in ("cat", "catnum")
           and "dtype" not in case["fit"].get(v, {})]
    return BinningProcessSketch(
        list(fr["names"]), categorical_variables=cat or None,
        special_codes=codes(case),
        binning_fit_params={k: dict(v) for k, v in case["fit"].items()}
        or None,
        binning_transform_params=({k: dict(v) for k, v in
                                   case["tp"].items()}
                                  if case["tp"] else None), **case["opt"])


def make_one(case, j):
    from optbinning import OptimalBinningSketch
    fr = case["fr"]
    v = fr["names"][j]
    kw = dict(case["opt"])
    kw["special_codes"] = codes(case)
    kw.update(case["fit"].get(v, {}))
    kw.pop("dtype", None)
    return OptimalBinningSketch(
        name=v, dtype=("categorical" if fr["kinds"][j] in ("cat", "catnum")
                       else "numerical"), **kw)


def compare(case, bp, ones, n, adds, crit, rec, what):
    """One solved process against its solved sketches."""
    fr = case["fr"]
    names = fr["names"]
    tabs = [bp.get_binned_variable(v).binning_table.build() for v in names]
    wants = [ob.binning_table.build() for ob in ones]
    vals = {v: frames.stats(ob, "binary") for v, ob in zip(names, ones)}
    s = bp.summary()
    mask = bp.get_support()
    idx, sel = bp.get_support(indices=True), bp.get_support(names=True)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        bp.information(print_level=2)
    with observing(what + "solution"):
        for j, v in enumerate(names):
            ob = bp.get_binned_variable(v)
            w = "{}variable {}".format(what, v)
            check(ob.status == ones[j].status, "{}: status {}, expected {}",
                  w, ob.status, ones[j].status)
            if frames.tie(ob, ones[j], frames.divergence_of):
                raise Skip("equally good solutions")
            frames.same_splits(ob.splits, ones[j].splits, w)
            frames.same_table(tabs[j], wants[j], w)
        check(list(s["name"]) == list(names), "{}summary of {}", what,
              list(s["name"]))
        for j, v in enumerate(names):
            row = s.iloc[j]
            cat = fr["kinds"][j] in ("cat", "catnum")
            check(row["dtype"] == ("categorical" if cat else "numerical"),
                  "{}dtype {} of {}", what, row["dtype"], v)
            check(row["status"] == ones[j].status, "{}status {} of {}", what,
                  row["status"], v)
            nb = len(ones[j].splits) + (0 if cat else 1)
            check(int(row["n_bins"]) == nb, "{}{} bins of {}, expected {}",
                  what, row["n_bins"], v, nb)
            for k, x in vals[v].items():
                frames.same_value(row[k], x, "{}{} of {}".format(what, k, v))
        ok = frames.supports(vals, crit, None, names, "binary")
        got = frozenset(i for i, b in enumerate(mask) if b)
        check(got in ok, "{}selected {}, expected {} with {}", what,
              sorted(got), lambda: [sorted(q) for q in ok], crit)
        check(list(s["selected"]) == list(mask) and list(idx) == sorted(got)
              and list(sel) == [names[i] for i in sorted(got)],
              "{}selections {}, {}, {}, {} differ", what, list(mask),
              list(s["selected"]), list(idx), list(sel))
        lines = [ln.split() for ln in buf.getvalue().splitlines()]
        for label, k in (("records", n), ("variables", len(names)),
                         ("selected", len(got)), ("Add", adds)):
            ln = [q for q in lines if (q[:3] == ["Number", "of", label] or
                                       q[:2] == [label, "operations"])]
            check(ln and ln[0][-1] == str(k), "{}information shows {}, {} "
                  "expected {}", what, ln, label, k)
    # transform
    X = frames.dataframe(fr, index=np.arange(fr["n"]) + 5,
                         order=case["perm"], extra=case["extra"])
    call = case["call"]
    got_names = [names[i] for i in sorted(got)]
    tp = case["tp"] or {}
    ms = {v: tp.get(v, {}).get("metric", call["metric"]) for v in got_names}
    if not got_names:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            T = bp.transform(X, **call)
        check(T.shape == (fr["n"], 0), "{}shape {} without selected "
              "variables", what, T.shape)
        return
    if "bins" in ms.values() and set(ms.values()) != {"bins"}:
        with must_raise(ValueError, what + "mixing bins and numbers"):
            bp.transform(X, **call)
        return
    before = X.copy()
    T = bp.transform(X, **call)
    with observing(what + "transform"):
        check(X.equals(before), "{}transform changed its input", what)
        check(list(T.columns) == got_names and list(T.index) ==
              list(X.index), "{}columns {} index {}..., expected {}", what,
              list(T.columns), list(T.index)[:3], got_names)
        for v in got_names:
            kw = dict(call)
            kw.update(tp.get(v, {}))
            want = ones[names.index(v)].transform(X[v], **kw)
            frames.same_column(list(T[v]), list(want),
                               "{}{} of {}".format(what, kw["metric"], v))


def run(case, rec):
    fr = case["fr"]
    names, n, m = fr["names"], fr["n"], case["m"]
    bps = [make(case) for _ in range(m)]
    ones = [[make_one(case, j) for j in range(len(names))]
            for _ in range(m)]
    count, adds = [0] * m, [0] * m
    solved = 0

    def solve(i, what):
        err = None
        for ob in ones[i]:
            try:
                ob.solve()
            except Exception as e:
                err = e
        if err is not None:
            with must_raise((Exception,), what + "solve although {!r}".format(
                    err)):
                bps[i].solve()
            bps[i].set_params(selection_criteria=None)
            return 0
        bps[i].solve()
        compare(case, bps[i], ones[i], count[i], adds[i], None, rec, what)
        vals = {v: frames.stats(ob, "binary")
                for v, ob in zip(names, ones[i])}
        if any(x != x for q in vals.values() for x in q.values()):
            return adds[i]                      # one class only: no Gini
        crit = frames.criteria(case["crit"], vals, names, "binary")
        bps[i].set_params(selection_criteria=crit)
        bps[i].solve()
        for ob in ones[i]:
            ob.solve()
        compare(case, bps[i], ones[i], count[i], adds[i], crit, rec,
                what + "with criteria, ")
        bps[i].set_params(selection_criteria=None)
        rec.label("criteria=%d" % len(crit))
        return adds[i]

    most = 0
    for k, op in enumerate(case["ops"]):
        i, what = op[1], "operation {} {}: ".format(k, op)
        if op[0] == "add":
            a, b = sorted((op[2] * n // 8, op[3] * n // 8))
            rows = list(range(a, b))
            js = [j for j in case["perm"] if op[4] >> j & 1]
            if not rows or not js:
                continue
            X = frames.dataframe(fr, rows, order=js, extra=case["extra"])
            y = frames.target(fr, rows)
            bps[i].add(X, y)
            for j in js:
                ones[i][j].add(X[names[j]], y)
            count[i] += len(rows)
            adds[i] += 1
        elif op[0] == "merge":
            j = op[2]
            if i == j:
                continue
            check(bps[i].mergeable(bps[j]), what + "not mergeable")
            bps[i].merge(bps[j])
            for p, q in zip(ones[i], ones[j]):
                p.merge(q)
            count[i] += count[j]
            adds[i] += adds[j]
        else:
            most = max(most, solve(i, what))
    for i in range(m):
        most = max(most, solve(i, "finally, process %d: " % i))
    other = make(case)
    other.set_params(max_n_prebins=case["opt"]["max_n_prebins"] + 1)
    check(not bps[0].mergeable(other), "processes with different parameters "
          "are mergeable")
    if not most:
        raise Skip("no process could be solved")
    big = any(len(ob.splits) >= 1 for q in ones for ob in q
              if getattr(ob, "_is_solved", False))
    rec.label("vars=%d" % len(names),
              "merge" if any(o[0] == "merge" for o in case["ops"])
              else "no merge", "metric=" + case["call"]["metric"])
    rec.nontrivial(most >= 2 and len(names) >= 2 and big)


SUBS = [Sub("process", cases, run, 500, rule="histories of processes")]
