"""P20: binning of data streams."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

import binopts
import gen
import ref
from core import Skip, Sub, check, check_close, check_vec, observing
from props import p03, p04

RULE = ("A case is a data set, options and a history over up to three "
        "sketches: slices of the records are added, sketches are merged and "
        "solved. Every sketch is mirrored by the list of its records; each "
        "solve is recounted, its constraints are checked, it is compared "
        "with one sketch that got all its records at once and (numerical) "
        "with a plain binning at the quantiles of the records; transform is "
        "compared with the table. Non-trivial: two or more bins after at "
        "least two additions or a merge.")
ASSUMPTIONS = ["both classes occur among the clean records of a solved "
               "sketch",
               "below 1/eps clean records GK sketches are exact; otherwise "
               "only totals, and cumulative counts within 2*eps are judged; "
               "for t-digest only totals",
               "the rare category cut-off is relative to all records",
               "equally good solutions are accepted"]


@st.composite
def cases(draw, cat=False):
    case = draw(gen.xy_binary(cat=cat, n_lo=20, n_hi=200))
    if isinstance(case["special"], dict):
        case["special"] = sorted(gen.special_values(case["special"]), key=str)
    case["special"] = draw(gen.nan_code(case["special"]))
    n = len(case["x"])
    o = dict(dtype="categorical" if cat else "numerical",
             solver=draw(st.sampled_from(("mip", "mip", "cp"))),
             divergence=draw(st.sampled_from(binopts.DIVS)),
             max_n_prebins=draw(st.integers(2, 20)))
    o.update(draw(p04.constraint_opts(
        n, trends=(None, "auto", "ascending", "descending", "peak",
                   "auto_asc_desc") + tuple(binopts.TRENDS))))
    exact = True
    if cat:
        if draw(st.integers(0, 1)):
            o["cat_cutoff"] = draw(st.sampled_from((0.05, 0.1, 0.2)))
        o["cat_heuristic"] = draw(st.booleans())
        if o["cat_heuristic"]:
            o["max_n_prebins"] = draw(st.integers(2, 6))
    else:
        if draw(st.integers(0, 4)) == 0:
            o["split_digits"] = draw(st.integers(0, 3))
        kind = draw(st.integers(0, 9))
        if kind == 0:
            o["sketch"] = "t-digest"
            o["eps"] = draw(st.sampled_from((0.01, 0.1)))
            exact = False
        elif kind < 4:
            o["eps"] = draw(st.sampled_from((0.01, 0.03, 0.1)))
            exact = False
    case["opt"] = o
    case["exact"] = exact
    case["m"] = m = draw(st.integers(1, 3))
    cut = st.integers(0, 12)
    op = st.one_of(
        st.tuples(st.just("add"), st.integers(0, m - 1), cut, cut),
        st.tuples(st.just("add"), st.integers(0, m - 1), cut, cut),
        st.tuples(st.just("missing"), st.integers(0, m - 1),
                  st.integers(1, 4)),
        st.tuples(st.just("merge"), st.integers(0, m - 1),
                  st.integers(0, m - 1)),
        st.tuples(st.just("solve"), st.integers(0, m - 1)))
    c = draw(st.integers(0, 12))
    start = [("add", 0, 0, c), ("add", m - 1, c, 12)]
    case["ops"] = start[:draw(st.integers(1, 2))] + draw(
        st.lists(op, max_size=6))
    if m > 1 and draw(st.booleans()):
        case["ops"].append(("merge", 0, m - 1))
    case["tr"] = draw(p03.transform_opts(case))
    case["query"] = draw(gen.query_spec())
    case["container"] = draw(st.sampled_from(("array", "array", "series")))
    case["array_codes"] = draw(st.booleans())
    return case


def arrays(case, recs):
    import pandas as pd
    x = gen.xarray([a for a, _ in recs], case["cat"])
    y = np.array([b for _, b in recs], dtype=int)
    if case["container"] == "series":
        return pd.Series(x), pd.Series(y)
    return x, y


def codes(case):
    """Fresh special codes, each NaN being an object of its own."""
    sp = case["special"]
    if sp is None:
        return None
    sp = [float("nan") if v is None else v for v in sp]
    if not case["array_codes"]:
        return sp
    return np.array(sp, dtype=object) if any(
        isinstance(v, str) for v in sp) else np.array(sp, dtype=float)


def make(case):
    from optbinning import OptimalBinningSketch
    return OptimalBinningSketch(name="v", special_codes=codes(case),
                                **case["opt"])


def divergence(o, df, nb):
    ne, ev = ref.table_cols(df, ["Non-event", "Event"])
    f = {"iv": ref.iv_term, "js": ref.js_term,
         "hellinger": ref.hellinger_term,
         "triangular": ref.triangular_term}[o["divergence"]]
    return math.fsum(f(a, b, ne[-1], ev[-1])
                     for a, b in zip(ne[:nb], ev[:nb]))


def clean_of(case, recs):
    sv = set(gen.special_values(case["special"]))
    return [(v, z) for v, z in recs if v is not None and v not in sv]


def quantile_prebins(o, xs):
    s, n = sorted(xs), len(xs)
    p = np.linspace(0, 1, o["max_n_prebins"] + 1)[1:-1]
    sp = sorted({s[int(q * (n - 1) + 1) - 1] for q in p})
    if "split_digits" in o:
        sp = sorted({float(v) for v in np.round(np.array(sp, dtype=float),
                                                o["split_digits"])})
    return sp


def judge(case, ob, recs, rec, what, adds):
    """One solved sketch against the list of its records."""
    o, cat = case["opt"], case["cat"]
    cl = clean_of(case, recs)
    xs = [v for v, _ in cl]
    n_e = sum(z for _, z in cl)
    eps = o.get("eps", 1e-4)
    exact = cat or (o.get("sketch") != "t-digest" and len(xs) * eps <= 1)
    sub = dict(case, x=[v for v, _ in recs], y=[z for _, z in recs])
    df = ob.binning_table.build()
    with observing(what + "table"):
        sp = ob.splits
        groups = [list(g) for g in sp] if cat else None
        splits = [] if cat else ref.finite_increasing(sp)
        gmap = ref.group_map(groups) if cat else None
        n_bins, sg, n_rows = ref.row_layout(sub, splits, groups)
        check(len(df) == n_rows + 1, "{}{} rows, expected {}", what, len(df),
              n_rows + 1)
        ne, ev, lab, woe, rate = ref.table_cols(
            df, ["Non-event", "Event", "Bin", "WoE", "Event rate"])
        wn, we = [0] * n_rows, [0] * n_rows
        for v, z in recs:
            r = ref.row_of(v, sub, splits, gmap, n_bins, sg)
            check(r is not None, "{}category {!r} is in no group", what, v)
            (we if z else wn)[r] += 1
        tot = [sum(wn), sum(we)]
        if not exact:
            check(ne[n_bins:] == wn[n_bins:] + [tot[0]] and
                  ev[n_bins:] == we[n_bins:] + [tot[1]],
                  "{}special, missing, total counts {} and {}, expected {} "
                  "and {}", what, ne[n_bins:], ev[n_bins:],
                  wn[n_bins:] + [tot[0]], we[n_bins:] + [tot[1]])
            if o.get("sketch") != "t-digest":
                for c, w, n in ((ne, wn, len(xs) - n_e), (ev, we, n_e)):
                    for k in range(1, n_bins):
                        check(abs(sum(c[:k]) - sum(w[:k])) <= 2 * eps * n + 1,
                              "{}{} records below split {}, true {}", what,
                              sum(c[:k]), splits[k - 1], sum(w[:k]))
        else:
            check(ne == wn + [tot[0]] and ev == we + [tot[1]],
                  "{}non-events {} and events {}, expected {} and {}", what,
                  ne, ev, wn + [tot[0]], we + [tot[1]])
        rare = cat and "cat_cutoff" in o and any(
            xs.count(c) / len(recs) < o["cat_cutoff"] for c in set(xs))
        nb = n_bins - (1 if rare else 0)
        if ob.status == "OPTIMAL" and nb >= 2:
            bad = p04.bins_ok(o, ne[:nb], ev[:nb], len(recs), cat)
            check(not bad, "{}violates {}", what, bad)
        if cat and rare:
            want = {c for c in xs
                    if xs.count(c) / len(recs) < o["cat_cutoff"]}
            check(set(groups[-1]) == want, "{}rare categories {}, expected "
                  "{}", what, groups[-1], want)
        rec.label(ob.status, "bins=%d" % min(nb, 5))
    # transform
    tr = case["tr"]
    q = gen.expand_query(case["query"], sub, splits, cat)
    n1 = float(ev[-1]) / float(ev[-1] + ne[-1])
    for metric in ("woe", "event_rate", "indices", "bins"):
        default = {"woe": 0.0, "event_rate": n1, "indices": -1,
                   "bins": "unknown"}[metric]
        col = {"woe": woe, "event_rate": rate}.get(metric)
        if metric == "bins":
            lab = ref.table_cols(ob.binning_table.build(
                show_digits=tr["digits"]), ["Bin"])[0]
        want = [p03.expected(v, metric, sub, col, lab, splits, gmap, n_bins,
                             sg, default, tr) for v in q]
        got = ob.transform(p03.container(q, case, tr["container"]),
                           metric=metric, metric_special=tr["special"],
                           metric_missing=tr["missing"],
                           show_digits=tr["digits"])
        with observing(what + "transform"):
            p03.compare(list(got), want, metric, q)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ob.information(print_level=2)
    with observing("information"):
        line = [ln for ln in buf.getvalue().splitlines()
                if "records" in ln.lower()]
        check(line and float(line[0].split()[-1]) == len(recs),
              "{}information shows {} for {} records", what, line, len(recs))
    # the same records in one batch, and a plain binning
    if not exact:
        return nb
    one = make(case)
    one.add(*arrays(case, recs))
    one.solve()
    compare(case, ob, one, df, nb, what + "one sketch with all records")
    if not cat:
        sp = quantile_prebins(o, xs)
        from optbinning import OptimalBinning
        kw = {k: v for k, v in o.items()
              if k not in ("eps", "sketch", "split_digits")}
        pl = OptimalBinning(name="v", special_codes=gen.special_arg(case["special"]),
                            user_splits=sp, **kw)
        pl.fit(*arrays(case, recs))
        compare(case, ob, pl, df, nb, what + "plain binning at quantiles")
    return nb


def compare(case, ob, other, df, nb, what):
    with observing("comparison"):
        o = case["opt"]
        check(ob.status == other.status, "{}: status {} and {}", what,
              ob.status, other.status)
        d2 = other.binning_table.build()
        if [str(v) for v in df["Bin"]] == [str(v) for v in d2["Bin"]]:
            for c in ("Count", "Non-event", "Event"):
                check_vec(ref.table_cols(df, [c])[0],
                          ref.table_cols(d2, [c])[0], what + ": " + c)
        elif ob.status == "OPTIMAL" and not o.get("gamma"):
            nb2 = nb + len(d2) - len(df)
            check_close(divergence(o, df, nb), divergence(o, d2, nb2),
                        what + ": divergence", 1e-4, 2e-5)


def run(case, rec):
    recs = list(zip(case["x"], case["y"]))
    n, m = len(recs), case["m"]
    obs, mine = [make(case) for _ in range(m)], [[] for _ in range(m)]
    adds = [0] * m
    solved = set()
    best = 0

    def solve(i, what):
        cl = clean_of(case, mine[i])
        if len({z for _, z in cl}) < 2:
            return 0
        if case["cat"] and "cat_cutoff" in case["opt"]:
            xs = [v for v, _ in cl]
            if max(xs.count(c) for c in set(xs)) / len(mine[i]) < \
                    case["opt"]["cat_cutoff"]:
                return 0
        obs[i].solve()
        solved.add(i)
        nb = judge(case, obs[i], mine[i], rec, what, adds[i])
        return nb if adds[i] >= 2 else 0

    for k, op in enumerate(case["ops"]):
        i, what = op[1], "operation {} {}: ".format(k, op)
        if op[0] == "add":
            a, b = sorted((op[2] * n // 12, op[3] * n // 12))
            part = recs[a:b]
        elif op[0] == "missing":
            part = [(None, (j + k) % 2) for j in range(op[2])]
        if op[0] in ("add", "missing"):
            if part:
                obs[i].add(*arrays(case, part))
                mine[i] = mine[i] + part
                adds[i] += 1
        elif op[0] == "merge":
            j = op[2]
            if i == j:
                continue
            check(obs[i].mergeable(obs[j]), what + "not mergeable")
            obs[i].merge(obs[j])
            mine[i] = mine[i] + mine[j]
            adds[i] += adds[j]
        else:
            best = max(best, solve(i, what))
    for i in range(m):
        best = max(best, solve(i, "finally, sketch %d: " % i))
    if not solved:
        raise Skip("no sketch with both classes")
    other = make(case)
    other.set_params(max_n_prebins=case["opt"]["max_n_prebins"] + 1)
    check(not obs[0].mergeable(other), "sketches with different parameters "
          "are mergeable")
    rec.label("merge" if any(op[0] == "merge" for op in case["ops"]) else
              "no merge", "eps=%s" % case["opt"].get("eps"),
              case["opt"].get("sketch", "gk"))
    rec.nontrivial(best >= 2)


# ---------------------------------------------------------------------------
@st.composite
def direct_cases(draw):
    """Histories of the sketches of counts themselves."""
    cat = draw(st.booleans())
    m = draw(st.integers(2, 3))
    specs = [draw(st.sampled_from((None, None, [-9.0], [-9.0, 7.0],
                                   [7.0, -9.0], [None, 7.0])))]
    specs += [specs[0] if draw(st.integers(0, 3)) else draw(st.sampled_from(
        (None, [-9.0], [7.0, -9.0], [7.0]))) for _ in range(m - 1)]
    val = st.sampled_from([-9.0, 7.0, None, 0.0, 1.0, 1.0, 2.5, 3.0, 10.0])
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("add"), st.integers(0, m - 1), st.lists(
            st.tuples(val, st.integers(0, 1)), min_size=1, max_size=40)),
        st.tuples(st.just("add"), st.integers(0, m - 1), st.lists(
            st.tuples(val, st.integers(0, 1)), min_size=1, max_size=9)),
        st.tuples(st.just("merge"), st.integers(0, m - 1),
                  st.integers(0, m - 1))), min_size=2, max_size=7))
    return dict(cat=cat, specs=specs, ops=ops,
                sketch=draw(st.sampled_from(("gk", "gk", "t-digest"))),
                eps=draw(st.sampled_from((0.001, 0.002, 0.05))),
                cutoff=draw(st.sampled_from((None, 0.1, 0.3))),
                splits=sorted(draw(st.sets(st.sampled_from(
                    (0.0, 0.5, 1.0, 2.0, 2.5, 3.0, 9.0, 11.0)),
                    max_size=4))),
                bad=draw(st.sampled_from((1.5, -0.1, -1, 2, "a", None))))


def run_direct(case, rec):
    from optbinning.binning.distributed import BCatSketch, BSketch
    cat, specs = case["cat"], case["specs"]
    sks, logs = [], []
    for sp in specs:
        sp = None if sp is None else [float("nan") if v is None else v
                                      for v in sp]
        sks.append(BCatSketch(case["cutoff"], sp) if cat else BSketch(
            case["sketch"], case["eps"], special_codes=sp))
        logs.append([])
    norm = [None if sp is None else frozenset(sp) for sp in specs]

    def look(i, what):
        b, log = sks[i], logs[i]
        bad = set(specs[i] or ())
        cl = [(v, t) for v, t in log if v is not None and v not in bad]
        check(b.n == len(log) and b.n_event == sum(t for _, t in log) and
              b.n_nonevent == sum(1 - t for _, t in log),
              "{}: sketch {} counts {} = {} + {} records of {}", what, i, b.n,
              b.n_event, b.n_nonevent, log)
        if not cl:
            return
        if not cat:
            e, ne = b.bins(np.array(case["splits"]))
            we, wn = [0] * len(e), [0] * len(e)
            for v, t in cl:
                k = sum(s <= v for s in case["splits"])
                we[k] += t
                wn[k] += 1 - t
            check(sum(e) == sum(we) and sum(ne) == sum(wn),
                  "{}: {} and {} records in bins, expected {} and {}", what,
                  sum(e), sum(ne), sum(we), sum(wn))
            if case["sketch"] == "gk" and len(cl) * case["eps"] <= 1:
                check(list(e) == we and list(ne) == wn,
                      "{}: bins {} and {}, expected {} and {}", what, list(e),
                      list(ne), we, wn)
                rec.nontrivial(len(case["splits"]) > 0)
            return
        _, cats, ne, e, others, no, eo = b.bins()
        want = {}
        for v, t in cl:
            want.setdefault(v, [0, 0])[t] += 1
        rare = {v for v, w in want.items() if case["cutoff"] is not None and
                sum(w) / len(log) < case["cutoff"]}
        check(set(others) == rare and len(others) == len(rare),
              "{}: rare categories {}, expected {}", what, list(others),
              sorted(rare))
        got = {v: [p, q] for v, p, q in zip(cats, ne, e)}
        check(got == {v: w for v, w in want.items() if v not in rare},
              "{}: categories {}, records {}", what, got, want)
        rate = [q / (p + q) for p, q in zip(ne, e)]
        check(rate == sorted(rate), "{}: event rates {}", what, rate)
        if case["cutoff"] is not None:
            check([no, eo] == [sum(want[v][k] for v in rare)
                               for k in (0, 1)],
                  "{}: others count {} and {}", what, no, eo)
        rec.nontrivial(len(want) > 1)

    for op in case["ops"]:
        if op[0] == "add":
            _, i, recs = op
            x = gen.xarray([v for v, _ in recs])
            sks[i].add(x, np.array([t for _, t in recs]))
            logs[i] = logs[i] + list(recs)
        else:
            _, i, j = op
            if i == j:
                continue
            if norm[i] != norm[j]:
                try:
                    sks[i].merge(sks[j])
                except Exception:
                    rec.label("merge refused")
                else:
                    check(False, "merged sketches with special codes {} and "
                          "{}", specs[i], specs[j])
            else:
                sks[i].merge(sks[j])
                logs[i] = logs[i] + logs[j]
                rec.label("merge")
            look(j, "merged from, {}".format(op))
        look(op[1], "after {}".format(op[0]))
    for i in range(len(sks)):
        look(i, "at the end")
    if not cat:
        try:
            BSketch(eps=case["bad"])
        except (TypeError, ValueError):
            pass
        else:
            check(False, "eps={!r} accepted", case["bad"])


SUBS = [
    Sub("num", lambda: cases(False), run, 1300, rule="numerical features"),
    Sub("cat", lambda: cases(True), run, 1300, rule="categorical features"),
    Sub("direct", direct_cases, run_direct, 800,
        rule="two or more categories, or exact counts by given splits"),
]
