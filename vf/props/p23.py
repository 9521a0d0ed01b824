"""P23: selection, summary and updates of a binning process."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

import frames
import gen
from core import Skip, Sub, check, must_raise, observing
from props import p22

RULE = ("A case is a binning process and a history: fits (with selection "
        "criteria placed at, above and below observed statistics, and fixed "
        "variables), fits from a dictionary, updates of single variables "
        "(by other options or a piecewise binning), changes of the criteria "
        "followed by a refit, possibly with fewer variables, and repeated "
        "reads. A model holds one binning per variable; summary, support, "
        "information and transform are recomputed from their tables after "
        "every step. Non-trivial: criteria select some but not all of the "
        "variables, or a variable was updated under criteria.")
ASSUMPTIONS = ["criteria are applied metric after metric in the order of the "
               "summary columns: bounds first, then the best k or fraction "
               "of what remains",
               "ties at a cut-off may go either way",
               "statistics are read from the binning tables (P02, P12 decide "
               "them)"]


@st.composite
def cases(draw, tgt):
    case = draw(p22.cases(tgt, m_hi=5))
    m = len(case["fr"]["names"])
    case["w"] = case["tp"] = None
    crit = st.one_of(st.none(), frames.criteria_spec(tgt),
                     frames.criteria_spec(tgt))
    op = st.one_of(
        st.tuples(st.just("fit"), crit, st.lists(st.integers(0, m - 1),
                                                 max_size=2), st.just(31)),
        st.tuples(st.just("fit"), crit, st.lists(st.integers(0, m - 1),
                                                 max_size=1),
                  st.integers(1, 31)),
        st.tuples(st.just("dict"), crit, st.lists(st.integers(0, m - 1),
                                                  max_size=1), st.just(31)),
        st.tuples(st.just("update"), st.integers(0, m - 1),
                  st.integers(2, 5), st.integers(0, 3)),
        st.tuples(st.just("update"), st.integers(0, m - 1),
                  st.integers(2, 5), st.integers(0, 3)))
    case["ops"] = [["fit", draw(crit), [], 31]] + [
        list(o) for o in draw(st.lists(op, min_size=1, max_size=4))]
    case["reads"] = list(gen.rbytes(draw, 8))
    case["unread"] = draw(st.integers(0, 31))
    return case


def stats(ob, tgt):
    t = ob.binning_table
    t.build()
    t.analysis(print_output=False)
    return {k: float(getattr(t, k, np.nan)) for k in frames.METRICS[tgt]}


def is_pw(ob):
    return "PW" in type(ob).__name__


def read(case, bp, model, crit, fixed, k, rec, n_records):
    """Summary, support, information and transform, in a drawn order."""
    fr = case["fr"]
    tgt = fr["target"]
    names = list(model)
    vals = {v: stats(ob, tgt) for v, ob in model.items()}
    ranked = [m for m in (crit or {}) if "strategy" in crit[m] and
              "top" in crit[m]]
    if any(vals[v][m] != vals[v][m] for v in names for m in ranked):
        raise Skip("ranking undefined statistics")
    ok = frames.supports(vals, crit, fixed, names, tgt)
    order = "stn"
    b = case["reads"][k % 8]
    order = [order[(b + i) % 3] for i in range(3)]
    seen = []
    what = "step {}: ".format(k)
    for act in order:
        if act == "s":
            s = bp.summary()
            with observing(what + "summary"):
                check(list(s["name"]) == names, "{}summary of {}, expected "
                      "{}", what, list(s["name"]), names)
                check(list(s.columns) == ["name", "dtype", "status",
                                          "selected", "n_bins"] +
                      frames.METRICS[tgt], "{}columns {}", what,
                      list(s.columns))
                for i, v in enumerate(names):
                    ob, row = model[v], s.iloc[i]
                    dt = getattr(ob, "dtype", "numerical")
                    check(row["dtype"] == dt, "{}dtype {} of {}", what,
                          row["dtype"], v)
                    check(row["status"] == ob.status, "{}status {} of {}",
                          what, row["status"], v)
                    nb = len(ob.splits) + (dt == "numerical")
                    check(int(row["n_bins"]) == nb, "{}{} bins of {}, "
                          "expected {}", what, row["n_bins"], v, nb)
                    for q, x in vals[v].items():
                        if x != x:
                            check(row[q] != row[q], "{}{} {} of {}", what, q,
                                  row[q], v)
                        else:
                            frames.same_value(row[q], x, "{}{} of {}".format(
                                what, q, v))
                seen.append([i for i, f in enumerate(s["selected"]) if f])
        elif act == "n":
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                bp.information(print_level=1)
            with observing(what + "information"):
                lines = [ln.split() for ln in buf.getvalue().splitlines()]
                got = {ln[2]: ln[-1] for ln in lines
                       if ln[:2] == ["Number", "of"]}
                cats = sum(getattr(ob, "dtype", "numerical") == "categorical"
                           for ob in model.values())
                want = dict(records=n_records, variables=len(names),
                            numerical=len(names) - cats, categorical=cats)
                for a, c in want.items():
                    check(got.get(a) == str(c), "{}information shows {} {}, "
                          "expected {}", what, got.get(a), a, c)
                seen.append(int(got["selected"]))
        else:
            mask = bp.get_support()
            idx = bp.get_support(indices=True)
            nm = bp.get_support(names=True)
            sel = [i for i, f in enumerate(mask) if f]
            with observing(what + "support"):
                check(len(mask) == len(names) and list(idx) == sel and
                      [str(q) for q in nm] == [names[i] for i in sel],
                      "{}supports {}, {}, {}", what, list(mask), list(idx),
                      list(nm))
                seen.append(sel)
            X = frames.dataframe(fr)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                T = bp.transform(X)
            with observing(what + "transform"):
                check(T.shape == (fr["n"], len(sel)), "{}transform has shape "
                      "{} for {} selected", what, T.shape, len(sel))
                tp = case["tp"] or {}
                for v in [names[i] for i in sel]:
                    if is_pw(model[v]):
                        continue
                    kw = dict(tp.get(v, {}))
                    frames.same_column(
                        list(T[v]), list(model[v].transform(X[v], **kw)),
                        what + "transform of " + v)
    with observing("selection"):
        for q in seen:
            if isinstance(q, int):
                check(any(len(s) == q for s in ok), "{}{} selected, expected "
                      "{} (criteria {}, fixed {})", what, q,
                      lambda: [sorted(s) for s in ok], crit, fixed)
            else:
                check(frozenset(q) in ok, "{}selected {}, expected {} "
                      "(criteria {}, fixed {}, statistics {})", what, q,
                      lambda: [sorted(s) for s in ok], crit, fixed, vals)
        sels = [q for q in seen if not isinstance(q, int)]
        check(all(q == sels[0] for q in sels) and
              all(q == len(sels[0]) for q in seen if isinstance(q, int)),
              "{}selections {} contradict each other", what, seen)
    return 0 < len(sels[0]) < len(names)


def run(case, rec):
    import optbinning
    fr = case["fr"]
    tgt = fr["target"]
    if tgt == "multiclass" and len(set(fr["y"])) < 3:
        raise Skip("two classes")
    names = fr["names"]
    case = dict(case, ndarray=False)
    X, y = frames.dataframe(fr), frames.target(fr)
    ones, err = p22.fitted(case, X, y)
    if err is not None:
        raise Skip("an individual binning cannot be fitted")
    vals = {v: frames.stats(ob, tgt) for v, ob in zip(names, ones)}
    if any(x != x for q in vals.values() for x in q.values()):
        raise Skip("statistics are not defined")
    bp = p22.make(case)
    model, crit, fixed = {}, None, None
    partial = updated = False
    for k, op in enumerate(case["ops"]):
        if op[0] in ("fit", "dict"):
            mask = op[3] if any(op[3] >> j & 1 for j in range(len(names))) \
                else 31
            use = [v for j, v in enumerate(names) if mask >> j & 1]
            crit = None if op[1] is None else frames.criteria(
                op[1], vals, names, tgt)
            fixed = [names[j] for j in op[2] if names[j] in use] or None
            bp.set_params(selection_criteria=crit, fixed_variables=fixed,
                          variable_names=list(use))
            if op[0] == "fit":
                bp.fit(X[use], y)
                for v in use:
                    if frames.tie(bp.get_binned_variable(v),
                                  ones[names.index(v)],
                                  p22.objective(tgt)):
                        raise Skip("equally good solutions")
                n_records = fr["n"]
                # the model gets its own binnings
                model = {v: ones[names.index(v)] for v in use}
            else:
                d = {v: p22.fit_one(case, p22.make_one(case,
                                                       names.index(v)),
                                    X[v], y) for v in use}
                bp.fit_from_dict(dict(reversed(list(d.items()))))
                n_records = 0
                model = d
        else:
            v = list(model)[op[1] % len(model)]
            j = names.index(v)
            cat = fr["kinds"][j] in ("cat", "catnum")
            kind = op[3]
            if kind == 3 and not cat and tgt != "multiclass" and \
                    fr["special"] is None:
                cls = {"binary": "OptimalPWBinning",
                       "continuous": "ContinuousOptimalPWBinning"}[tgt]
                ob = getattr(optbinning, cls)(name=v)
                try:
                    ob.fit(np.asarray(X[v], dtype=float), y)
                except Exception:
                    ob = None
            else:
                ob = p22.make_one(case, j)
                ob.set_params(max_n_bins=op[2], min_n_bins=None)
                if kind == 1:
                    ob.set_params(monotonic_trend=None)
                if kind == 2 and fr["kinds"][j] in ("catnum", "int") and \
                        tgt != "multiclass":
                    ob.set_params(
                        dtype="numerical" if cat else "categorical",
                        special_codes=None, prebinning_method="cart",
                        split_digits=None)
                try:
                    p22.fit_one(case, ob, X[v], y)
                except Exception:
                    ob = None
            if ob is not None and not is_pw(ob) and any(
                    x != x for x in stats(ob, tgt).values()):
                ob = None
            if ob is not None:
                bp.update_binned_variable(v, ob)
                check(bp.get_binned_variable(v) is ob, "update is ignored")
                model = dict(model)
                model[v] = ob
                updated = updated or crit is not None
        if k + 1 < len(case["ops"]) and case["unread"] >> k & 1:
            continue        # several changes between two queries
        partial |= read(case, bp, model, crit, fixed, k, rec, n_records)
        if k % 2:
            read(case, bp, model, crit, fixed, k + 1, rec, n_records)
    with must_raise(ValueError, "updating an unknown variable"):
        bp.update_binned_variable("not a variable", ones[0])
    with must_raise(ValueError, "get_binned_variable of an unknown name"):
        bp.get_binned_variable("not a variable")
    rec.label(tgt, "partial" if partial else "all or none",
              "updated" if updated else "not updated")
    rec.nontrivial((partial or updated) and len(names) >= 2)


SUBS = [
    Sub("binary", lambda: cases("binary"), run, 220, rule="binary target"),
    Sub("continuous", lambda: cases("continuous"), run, 220,
        rule="continuous target"),
    Sub("multiclass", lambda: cases("multiclass"), run, 220,
        rule="multiclass target"),
]
