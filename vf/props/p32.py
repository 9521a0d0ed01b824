"""P32: plots and printed reports show the fitted results."""
import contextlib
import inspect
import io
import math
import os
import re
import time

import numpy as np
from hypothesis import strategies as st

import boot
import gen
import ref
import zoo
from core import Skip, Sub, check, check_close, observing
from zoo import quiet

RULE = ("A fitted estimator (as in the other properties) whose plots, under "
        "generated display options, are read back from the figure (bar "
        "heights and positions, points, curves, tick labels, heat map cells, "
        "title) and compared with its tables, or whose printed reports are "
        "parsed and compared with its settings, status and the data. "
        "Non-trivial: two or more bins are shown, or a report with options.")
ASSUMPTIONS = ["bars follow the order of the table rows; rows of special "
               "codes or missing values are left out where not requested",
               "curves of piecewise plots are compared with transform where "
               "the event rate is strictly inside the plotted range",
               "labels of categorical bins are cut after 27 characters"]


@contextlib.contextmanager
def figure():
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        with quiet():
            yield plt
    finally:
        plt.close("all")


def bars(ax):
    """[(left, width, bottom, height)] of each bar group."""
    out = []
    for c in ax.containers:
        out.append([(float(p.get_x()), float(p.get_width()),
                     float(p.get_y()), float(p.get_height()))
                    for p in c.patches])
    return out


def points(ax):
    """{x position: {y}} of all marked points of a plot."""
    pts = {}
    for ln in ax.lines:
        if ln.get_marker() in (None, "None", ""):
            continue
        for x, y in zip(ln.get_xdata(), ln.get_ydata()):
            pts.setdefault(float(x), []).append(float(y))
    return pts


def shown_rows(n_rows, n_special, special, missing):
    n_bins = n_rows - 1 - n_special
    rows = list(range(n_bins))
    if special:
        rows += list(range(n_bins, n_bins + n_special))
    if missing:
        rows.append(n_rows - 1)
    return rows


def same_bars(got, centers, heights, bottoms, what):
    check(len(got) == len(heights), "{}: {} bars, expected {}", what,
          len(got), len(heights))
    for k, (x, w, b, h) in enumerate(got):
        check_close(x + w / 2, centers[k], "{}: position of bar {}".format(
            what, k), 1e-9, 1e-9)
        check_close(h, heights[k], "{}: height of bar {}".format(what, k))
        check_close(b, bottoms[k], "{}: base of bar {}".format(what, k))


def tick_labels(ax):
    return [t.get_text() for t in ax.get_xticklabels()]


def short(label):
    s = str(label)
    return s if len(s) <= 27 else s[:27] + "..."


@st.composite
def plot_opts(draw, metrics):
    return dict(add_special=draw(st.booleans()),
                add_missing=draw(st.booleans()),
                style=draw(st.sampled_from(("bin", "bin", "bin", "actual"))),
                show_bin_labels=draw(st.booleans()),
                metric=draw(st.sampled_from(metrics)),
                save=draw(st.integers(0, 15)) == 0,
                digits=draw(st.integers(0, 6)))


METRICS = {"binary": ("woe", "event_rate", "iv"),
           "continuous": ("mean", "iv", "woe"),
           "multiclass": ("event_rate",)}
COLUMN = {"woe": "WoE", "event_rate": "Event rate", "iv": "IV",
          "mean": "Mean"}


@st.composite
def table_cases(draw, kind, target):
    if kind == "scenario":
        case = draw(zoo.Scenario.cases())
    else:
        case = draw(zoo.Binning1D.cases(target, cat=kind == "cat"))
        if kind == "cat" and "user_splits" not in case["opt"]:
            case["opt"]["cat_cutoff"] = draw(st.sampled_from(
                (None, 0.05, 0.1, 0.2)))
    case["plots"] = draw(st.lists(plot_opts(METRICS[target]), min_size=2,
                                  max_size=4))
    case["which"] = draw(st.integers(-1, 2))
    return case


def fit(kind, case):
    k = kind(case)
    est = k.make()
    a, kw = k.args(0)
    with accept(), quiet():
        est.fit(*a, **kw)
    return est


def external(e):
    """Whether the external regression refused the problem."""
    tb = e.__traceback__
    while tb is not None:
        if "ropwr" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def save_path():
    return os.path.join(boot.SCRATCH, "plot%d.png" % os.getpid())


def call_plot(t, o, **kw):
    """Plot; returns the saved file, if any, and checks it is written."""
    if o.get("save"):
        f = save_path()
        if os.path.exists(f):
            os.unlink(f)
        t.plot(savefig=f, **kw)
        ok = os.path.exists(f) and open(f, "rb").read(4)[1:] == b"PNG"
        if os.path.exists(f):
            os.unlink(f)
        with observing("saved plot"):
            check(ok, "plot(savefig=...) wrote no image")
        return True
    t.plot(**kw)
    return False


def check_table(case, rec, kind, target):
    scenario = kind == "scenario"
    est = fit(zoo.Scenario if scenario else zoo.Binning1D, case)
    t = est.binning_table
    if scenario and case["which"] >= 0:
        t = est.binning_table_scenario(case["which"] % len(
            case["d"][0]["sc"]))
    cat = kind == "cat"
    for o in case["plots"]:
        df = t.build(show_digits=o["digits"], add_totals=False)
        n_rows = len(df)
        sp = case["special"]
        ns = len(sp) if isinstance(sp, dict) else 1
        kw = dict(add_special=o["add_special"], add_missing=o["add_missing"],
                  show_bin_labels=o["show_bin_labels"])
        actual = o["style"] == "actual"
        if target != "multiclass":
            kw.update(style=o["style"], metric=o["metric"])
        else:
            actual = False
        if actual:
            kw["show_bin_labels"] = False
            if cat:
                continue
        what = "plot({})".format(kw)
        with figure() as plt:
            if call_plot(t, o, **kw):
                continue
            fig = plt.gcf()
            with observing(what):
                check(len(fig.axes) == 2, "{}: {} axes", what, len(fig.axes))
                ax1, ax2 = fig.axes
                check(ax2.get_title() == "v" or ax1.get_title() == "v",
                      "{}: title {!r}", what, ax2.get_title())
                one_table(case, df, ns, o, kw, actual, target, cat, ax1, ax2,
                          est, what)
        rec.label("rows-%d" % min(n_rows - 1 - ns, 5), "actual" if actual else
                  "bin")
        rec.nontrivial(n_rows - 1 - ns >= 2)


def one_table(case, df, ns, o, kw, actual, target, cat, ax1, ax2, est, what):
    n_rows = len(df)
    nb = n_rows - 1 - ns
    rows = list(range(nb)) if actual else shown_rows(
        n_rows, ns, kw["add_special"], kw["add_missing"])
    if target == "multiclass":
        stack = [c for c in df.columns if str(c).startswith("Event_") and
                 not str(c).startswith("Event_rate_")]
        rates = [c for c in df.columns if str(c).startswith("Event_rate_")]
    elif target == "binary":
        stack = ["Event", "Non-event"]
    else:
        stack = ["Count"]
    cols = [[float(v) for v in df[c]] for c in stack]
    got = bars(ax1)
    check(len(got) == len(stack), "{}: {} bar groups", what, len(got))
    if actual:
        splits = [float(s) for s in est.splits]
        ends = [got[0][0][0]] + splits + [got[0][-1][0] + got[0][-1][1]]
        xs = [v for d in ([case["d"][0]["sc"]] if "sc" in case["d"][0] else
                          [[(case["d"][0]["x"], 0)]]) for x, _ in d
              for v in x if v is not None]
        check(min(xs) - 1e-9 <= ends[0] and ends[-1] <= max(xs) + 1e-9,
              "{}: plotted from {} to {}, data from {} to {}", what, ends[0],
              ends[-1], min(xs), max(xs))
        if not case["opt"].get("outlier_detector"):
            if "sc" in case["d"][0] and case["which"] >= 0:
                sc = case["d"][0]["sc"]
                xs = sc[case["which"] % len(sc)][0]
            bad = gen.special_values(case["special"])
            xs = [v for v in xs if v is not None and v not in bad]
            check_close(ends[0], min(xs), what + ": left end")
            check_close(ends[-1], max(xs), what + ": right end")
        centers = [(a + b) / 2 for a, b in zip(ends, ends[1:])]
        for x, w, _, _ in got[0]:
            check(any(abs(x - e) <= 1e-9 * max(1, abs(e))
                      for e in ends[:-1]), "{}: bar at {}", what, x)
    else:
        centers = list(range(len(rows)))
    base = [0.0] * len(rows)
    for g, c, name in zip(got, cols, stack):
        h = [c[r] for r in rows]
        same_bars(g, centers, h, base, "{} {}".format(what, name))
        base = [a + b for a, b in zip(base, h)]
    pts = points(ax2)
    series = [[float(v) for v in df[c]] for c in
              (rates if target == "multiclass" else [COLUMN[o["metric"]]])]
    check(len(pts) == len(rows) and all(
        any(abs(p - c) <= 1e-9 * max(1, abs(c)) for p in pts)
        for c in centers), "{}: points at {}, expected {}", what,
        sorted(pts), centers)
    for c, r in zip(centers, rows):
        p = min(pts, key=lambda v: abs(v - c))
        ys = sorted(set(pts[p]))
        for y in ys:
            check(any(ref_close(y, s[r]) for s in series),
                  "{}: point {} at row {} ({}), the table shows {}", what, y,
                  r, df["Bin"].iloc[r], [s[r] for s in series])
        for s in series:
            check(any(ref_close(y, s[r]) for y in ys),
                  "{}: points {} at row {}, the table shows {}", what, ys, r,
                  s[r])
    if kw["show_bin_labels"]:
        labels = [str(df["Bin"].iloc[r]) for r in rows]
        if cat:
            labels = [short(v) for v in labels]
        check(tick_labels(ax1) == labels, "{}: tick labels {}, expected {}",
              what, tick_labels(ax1), labels)
        check([float(v) for v in ax1.get_xticks()] == [
            float(v) for v in range(len(rows))], "{}: ticks {}", what,
            list(ax1.get_xticks()))


def ref_close(a, b):
    return (math.isnan(a) and math.isnan(b)) or a == b or \
        abs(a - b) <= 1e-9 + 1e-9 * max(abs(a), abs(b))


# ---------------------------------------------------------------------------
@st.composite
def pw_cases(draw, continuous):
    case = draw(zoo.Piecewise.cases(continuous))
    case["plots"] = draw(st.lists(st.fixed_dictionaries(dict(
        metric=st.sampled_from(("woe", "event_rate")),
        n_samples=st.sampled_from((2, 57, 300)),
        save=st.sampled_from((False, False, False, False, True)))),
        min_size=1, max_size=2))
    return case


def check_pw(case, rec, continuous):
    est = fit(zoo.Piecewise, case)
    t = est.binning_table
    df = t.build(add_totals=False)
    splits = [float(s) for s in est.splits]
    sv = set(gen.special_values(case["special"]))
    xs = [v for v in case["d"][0]["x"] if v is not None and v not in sv]
    for o in case["plots"]:
        pk = dict(n_samples=o["n_samples"])
        if not continuous:
            pk["metric"] = o["metric"]
        what = "plot({})".format(pk)
        with figure() as plt:
            if call_plot(t, o, **pk):
                continue
            ax1, ax2 = plt.gcf().axes
            with observing(what):
                nb = len(splits) + 1
                stack = ["Count"] if continuous else ["Event", "Non-event"]
                got = bars(ax1)
                check(len(got) == len(stack), "{}: {} bar groups", what,
                      len(got))
                lo, hi = got[0][0][0], got[0][-1][0] + got[0][-1][1]
                if "outlier_detector" not in case["base"]["opt"]:
                    check_close(lo, min(xs), what + ": first value")
                    check_close(hi, max(xs), what + ": last value")
                ends = [lo] + splits + [hi]
                if any(p > q for p, q in zip(ends, ends[1:])):
                    raise Skip("splits outside the data")
                centers = [(p + q) / 2 for p, q in zip(ends, ends[1:])]
                base = [0.0] * nb
                for g, c in zip(got, stack):
                    h = [float(v) for v in df[c][:nb]]
                    same_bars(g, centers, h, base, "{} {}".format(what, c))
                    base = [p + q for p, q in zip(base, h)]
                line = [ln for ln in ax2.lines
                        if len(ln.get_xdata()) == o["n_samples"] and
                        ln.get_color() == "black"]
                check(len(line) == 1, "{}: {} curves", what, len(line))
                lx = np.asarray(line[0].get_xdata(), dtype=float)
                ly = np.asarray(line[0].get_ydata(), dtype=float)
                check_close(float(lx[0]), lo, what + ": start of the curve")
                check_close(float(lx[-1]), hi, what + ": end of the curve")
            ok = ~np.isin(lx, list(sv)) if sv else np.ones(len(lx), bool)
            if continuous:
                want = np.asarray(est.transform(lx, lb=case["base"]["lb"],
                                                ub=case["base"]["ub"]))
            else:
                want = np.asarray(est.transform(lx, metric=o["metric"]))
                rate = np.asarray(est.transform(lx, metric="event_rate"))
                ok &= (rate > 1e-6) & (rate < 1 - 1e-6)
            with observing(what):
                for i in np.flatnonzero(ok):
                    check_close(float(ly[i]), float(want[i]),
                                "{}: curve at {}".format(what, lx[i]), 1e-9,
                                1e-9)
        rec.label("bins-%d" % min(nb, 5))
        rec.nontrivial(nb >= 2)


@contextlib.contextmanager
def accept():
    try:
        yield
    except Exception as e:
        # refused data: judged by other properties
        if isinstance(e, (ValueError, np.linalg.LinAlgError)) or external(e):
            raise Skip(str(e)[:60])
        raise


# ---------------------------------------------------------------------------
@st.composite
def grid_cases(draw, continuous):
    case = draw(zoo.Binning2D.cases(continuous))
    case["metric"] = draw(st.sampled_from(("woe", "event_rate")))
    case["save"] = draw(st.integers(0, 15)) == 0
    return case


def check_2d(case, rec, continuous):
    est = fit(zoo.Binning2D, case)
    t = est.binning_table
    df = t.build(add_totals=False)
    pk = {} if continuous else {"metric": case["metric"]}
    col = [float(v) for v in df["Mean" if continuous else
                                COLUMN[case["metric"]]]]
    what = "plot({})".format(pk)
    with figure() as plt:
        if call_plot(t, case, **pk):
            return
        axes = plt.gcf().axes
        with observing(what):
            main = [a for a in axes if a.images and len(a.texts)]
            check(len(main) == 1, "{}: {} grids", what, len(main))
            ax = main[0]
            img = np.asarray(ax.images[0].get_array(), dtype=float)
            m, n = img.shape
            P = {}
            for tx in ax.texts:
                j, i = tx.get_position()
                P[int(i), int(j)] = int(tx.get_text())
            check(len(P) == m * n, "{}: {} cells labelled of {}", what,
                  len(P), m * n)
            ids = set(P.values())
            check(ids == set(range(len(df) - 2)), "{}: bins {}, expected {}",
                  what, sorted(ids), len(df) - 2)
            for (i, j), p in P.items():
                check(ref_close(float(img[i, j]), col[p]), "{}: cell {} of "
                      "bin {} shows {}, the table {}", what, (i, j), p,
                      img[i, j], col[p])
            # rectangles
            for p in ids:
                ii = {i for (i, j), q in P.items() if q == p}
                jj = {j for (i, j), q in P.items() if q == p}
                check(len(ii) * len(jj) == sum(
                    1 for q in P.values() if q == p), "{}: bin {} is no "
                    "rectangle", what, p)
            rest = [a for a in axes if a is not ax]
            top = {tuple(float(v) for v in ln.get_ydata()[:-1])
                   for a in rest for ln in a.lines
                   if ln.get_label().startswith("(") and
                   ln.get_drawstyle() == "steps-post"}
            right = {tuple(float(v) for v in ln.get_xdata()[:-1])
                     for a in rest for ln in a.lines
                     if ln.get_label().startswith("(") and
                     ln.get_drawstyle() == "steps-pre"}
            rows = {tuple(col[P[i, j]] for j in range(n)) for i in range(m)}
            cols = {tuple(col[P[i, j]] for i in range(m)) for j in range(n)}
            same_lines(top, rows, what + " x trends")
            same_lines(right, cols, what + " y trends")
    # the grid against the records
    q = zoo.Binning2D(case).args(0)[0][:2]
    idx = [int(v) for v in est.transform(*q, metric="indices")]
    with observing(what):
        used = {v for v in idx if v >= 0 and v < len(df) - 2}
        check(used <= ids, "{}: bins {} are not in the grid", what,
              used - ids)
    rec.label("bins-%d" % min(len(df) - 2, 6))
    rec.nontrivial(len(df) - 2 >= 2)


def same_lines(got, want, what):
    for a, b, w in ((got, want, "shown but not in the grid"),
                    (want, got, "not shown")):
        for u in a:
            check(any(len(u) == len(v) and all(map(ref_close, u, v))
                      for v in b), "{}: {} {}", what, u, w)


# ---------------------------------------------------------------------------
def check_psi(case, rec):
    k = zoo.Monitor(case)
    est = k.make()
    a, kw = k.args(0)
    with accept(), quiet():
        est.fit(*a, **kw)
    psi = est.psi_table()
    tests = est.tests_table()
    binary = case["fr"]["target"] == "binary"
    with figure() as plt:
        est.psi_plot()
        ax1, ax2 = plt.gcf().axes
        with observing("psi_plot"):
            got = bars(ax1)
            check(len(got) == 2, "psi_plot: {} bar groups", len(got))
            n = len(psi) - 1
            for g, c in zip(got, ("Count A (%)", "Count E (%)")):
                h = [100 * float(v) for v in psi[c][:n]]
                check(len(g) == n, "psi_plot: {} bars, expected {}", len(g),
                      n)
                for i, b in enumerate(g):
                    check(ref_close(b[3], h[i]), "psi_plot: bar {} of {} is "
                          "{}, the table shows {}", i, c, b[3], h[i])
                    check(i - 1 < b[0] and b[0] + b[1] <= i + 1,
                          "psi_plot: bar {} at {}", i, b[0])
            check(len(ax2.lines) == 2, "psi_plot: {} lines", len(ax2.lines))
            name = "Event rate {} (%)" if binary else "Mean {}"
            for ln, s in zip(ax2.lines, "AE"):
                c = [x for x in tests.columns if x in (
                    name.format(s), "Event rate " + s, "Mean " + s)]
                check(len(c) == 1, "tests_table: no column for {}", s)
                ys = [float(v) for v in ln.get_ydata()]
                want = [float(v) for v in tests[c[0]][:n]]
                check([float(v) for v in ln.get_xdata()] == list(range(n)),
                      "psi_plot: points at {}", list(ln.get_xdata()))
                for i in range(n):
                    check(ref_close(ys[i], want[i]), "psi_plot: {} of bin {} "
                          "is {}, the table shows {}", c[0], i, ys[i],
                          want[i])
    rec.nontrivial(n >= 2)


@st.composite
def progress_cases(draw):
    from props import p20
    case = draw(p20.cases())
    case["steps"] = draw(st.integers(1, 5))
    case["plots"] = draw(st.lists(plot_opts(METRICS["binary"]), min_size=1,
                                  max_size=2))
    return case


def check_progress(case, rec):
    from props import p20
    ob = p20.make(case)
    recs = list(zip(case["x"], case["y"]))
    n, k = len(recs), case["steps"]
    done, hist = [], []
    for i in range(k):
        part = recs[i * n // k:(i + 1) * n // k]
        if not part:
            continue
        with quiet():
            ob.add(*p20.arrays(case, part))
        done += part
        cl = p20.clean_of(case, done)
        if len({z for _, z in cl}) < 2:
            continue
        with quiet():
            ob.solve()
        df = ob.binning_table.build()
        hist.append((len(done), p20.divergence(case["opt"], df,
                                               len(ob.splits) + 1),
                     p20.divergence(case["opt"], df, len(df) - 1)))
    if not hist:
        raise Skip("nothing solved")
    with figure() as plt:
        ob.plot_progress()
        ax = plt.gca()
        with observing("plot_progress"):
            ln = ax.lines[0]
            xs = [float(v) for v in ln.get_xdata()]
            ys = [float(v) for v in ln.get_ydata()]
            check(xs == [float(h[0]) for h in hist], "plot_progress: points "
                  "at {}, expected {}", xs, [h[0] for h in hist])
            for y, h in zip(ys, hist):
                check(any(abs(y - v) <= 1e-9 + 1e-7 * abs(v)
                          for v in h[1:]), "plot_progress: divergence {}, "
                      "the tables give {}", y, h[1:])
            mean = [float(v) for v in ax.lines[1].get_ydata()]
            for i, v in enumerate(mean):
                check_close(v, sum(ys[:i + 1]) / (i + 1),
                            "plot_progress: mean", 1e-9, 1e-9)
    rec.nontrivial(len(hist) >= 2)
    # the table's plot
    t = ob.binning_table
    for o in case["plots"]:
        df = t.build(show_digits=o["digits"], add_totals=False)
        kw = dict(add_special=o["add_special"], add_missing=o["add_missing"],
                  show_bin_labels=o["show_bin_labels"], metric=o["metric"],
                  style="bin")
        what = "plot({})".format(kw)
        with figure() as plt:
            t.plot(**kw)
            with observing(what):
                one_table(case, df, 1, o, kw, False, "binary", False,
                          *plt.gcf().axes, ob, what)


# ---------------------------------------------------------------------------
# printed reports
def printed(est, level):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        est.information(print_level=level)
    return buf.getvalue()


def options_of(text):
    out = {}
    if "Begin options" not in text:
        return None
    body = text.split("Begin options")[1].split("End options")[0]
    for line in body.splitlines():
        m = re.match(r"\s*(\S+)\s+(.*?)\s+\* ([Ud])$", line)
        if m:
            out[m.group(1)] = (m.group(2), m.group(3))
    return out


def check_options(est, text):
    got = options_of(text)
    check(got is not None, "no options at print_level 2")
    sig = inspect.signature(type(est).__init__).parameters
    par = est.get_params(deep=False)
    for k, (v, flag) in got.items():
        if k == "estimator" and k not in par:
            continue        # the continuous piecewise binning has none
        check(k in par, "option {} is no parameter", k)
        want = par[k]
        default = sig[k].default
        if isinstance(want, (list, np.ndarray, dict)):
            show = ("yes", "U")
        elif want is None:
            show = ("no", "d" if default is None else "U")
        elif hasattr(want, "get_params"):
            show = ("yes", "U")
        else:
            show = (str(want), "d" if default is not inspect._empty and
                    default is not None and want == default else "U")
        check((v, flag) == show, "option {} is reported as {} ({}), it is "
              "{!r} (default {!r})", k, v, flag, want, default)
    must = [k for k in ("max_n_prebins", "special_codes", "verbose")
            if k in par]
    check(all(k in got for k in must), "options {} are not reported",
          [k for k in must if k not in got])


def number(text, label):
    m = re.search(r"^\s*" + re.escape(label) + r"\s*:?\s+(\S+)", text, re.M)
    check(m is not None, "{!r} is not reported", label)
    return m.group(1)


def reported_status(text):
    m = re.search(r"^\s*Status\s*: (\S+)", text, re.M)
    check(m is not None, "the status is not reported")
    return m.group(1)


class Spy:
    """Sizes of the MIP models and figures of the CP solutions of a fit."""
    def __enter__(self):
        from ortools.linear_solver import pywraplp
        from ortools.sat.python import cp_model
        self.cls, self.cp = pywraplp.Solver, cp_model.CpSolver
        self.var, self.con = self.cls.NumVariables, self.cls.NumConstraints
        self.solve = self.cp.Solve
        self.sizes, self.cps = set(), []
        spy = self

        def nv(s):
            spy.sizes.add((spy.var(s), spy.con(s)))
            return spy.var(s)

        def solve(s, *a, **kw):
            out = spy.solve(s, *a, **kw)
            if s.StatusName(out) in ("OPTIMAL", "FEASIBLE"):
                spy.cps.append({
                    "Number of booleans": s.NumBooleans(),
                    "Number of branches": s.NumBranches(),
                    "Number of conflicts": s.NumConflicts(),
                    "Objective value": int(s.ObjectiveValue()),
                    "Best objective bound": int(s.BestObjectiveBound())})
            return out
        self.cls.NumVariables = nv
        self.cp.Solve = solve
        return self

    def __exit__(self, *a):
        self.cls.NumVariables = self.var
        self.cp.Solve = self.solve


REPORT_KINDS = {
    "binary": (zoo.Binning1D, ("binary",), {}),
    "continuous": (zoo.Binning1D, ("continuous",), {}),
    "categorical": (zoo.Binning1D, ("binary", True), {}),
    "multiclass": (zoo.Binning1D, ("multiclass",), {}),
    "scenario": (zoo.Scenario, (), {}),
    "binary2d": (zoo.Binning2D, (False,), {}),
    "continuous2d": (zoo.Binning2D, (True,), {}),
    "pw": (zoo.Piecewise, (False,), {}),
    "pwcontinuous": (zoo.Piecewise, (True,), {}),
    "process": (zoo.Process, ("binary",), {}),
    "processcontinuous": (zoo.Process, ("continuous",), {}),
    "card": (zoo.Card, ("binary",), {}),
    "cardcontinuous": (zoo.Card, ("continuous",), {}),
    "monitor": (zoo.Monitor, ("binary",), {})}


@st.composite
def report_cases(draw, kind):
    K, a, kw = REPORT_KINDS[kind]
    return dict(case=draw(K.cases(*a, **kw)), kind=kind,
                verbose=draw(st.integers(0, 5)) == 0,
                named=draw(st.integers(0, 3)) > 0)


def check_report(case, rec):
    kind = case["kind"]
    K = REPORT_KINDS[kind][0]
    c = case["case"]
    k = K(c)
    est = k.make()
    if not case["named"] and "name" in est.get_params():
        est.set_params(name="")
    a, kw = k.args(0)
    t = time.perf_counter()
    with Spy() as spy, accept(), quiet():
        est.fit(*a, **kw)
    t = time.perf_counter() - t
    text = {i: printed(est, i) for i in range(3)}
    with observing("information"):
        check_options(est, text[2])
        check(options_of(text[1]) is None and options_of(text[0]) is None,
              "options are reported below print_level 2")
        par = est.get_params(deep=False)
        for i in range(3):
            if "status" in dir(est):
                check(reported_status(text[i]) == shown_status(est),
                      "reported status {}, it is {}",
                      reported_status(text[i]), est.status)
                if "name" in par:
                    check(number(text[i], "Name") == (par["name"] or
                                                      "UNKNOWN"),
                          "reported name {}", number(text[i], "Name"))
        for i in range(3):
            for w, p in re.findall(
                    r"(-?[\d.]+) *sec(?: *\( *(-?[\d.]+)%\))?", text[i]):
                check(-0.01 <= float(w) <= t + 0.05,
                      "{} seconds are reported, the fit took {:.3f}", w, t)
                check(not p or float(w) < 0.05 or -1 <= float(p) <= 105,
                      "{}% of the time is reported for {} seconds", p, w)
        full = text[1]
        if K in (zoo.Binning1D, zoo.Scenario, zoo.Binning2D):
            pre = int(number(full, "Number of pre-bins"))
            int(number(full, "Number of refinements"))
            if K is not zoo.Binning2D:
                nb = len(est.splits)
                if par.get("dtype") == "categorical":
                    nb -= 1         # the others
                else:
                    nb += 1
                check(pre >= nb or nb <= 1, "{} pre-bins reported, {} bins",
                      pre, nb)
            if spy.cps:
                got = {n: int(number(full, n)) for n in spy.cps[0]}
                check(got in spy.cps, "the solver's figures are reported as "
                      "{}, they are {}", got, spy.cps)
                rec.label("cp")
            if re.search(r"^\s*Type\s", full, re.M):
                sol = par.get("solver", "cp")
                check(number(full, "Type") == sol, "reported solver {}",
                      number(full, "Type"))
                if sol == "mip" and spy.sizes:
                    got = (int(number(full, "Number of variables")),
                           int(number(full, "Number of constraints")))
                    check(got in spy.sizes, "{} variables and {} "
                          "constraints are reported, the model has {}",
                          got[0], got[1], sorted(spy.sizes))
                    rec.label("mip")
        if K in (zoo.Process, zoo.Card):
            fr = c["fr"]
            bp = est if K is zoo.Process else est.binning_process_
            s = bp.summary()
            want = {"Number of records": len(a[0]),
                    "Number of variables": len(s),
                    "Number of numerical": sum(s.dtype == "numerical"),
                    "Number of categorical": sum(s.dtype == "categorical"),
                    "Number of selected": sum(map(bool, s.selected))}
            for n, v in want.items():
                check(int(number(full, n)) == v, "{}: {} reported, it is {}",
                      n, number(full, n), v)
            check(number(full, "Target type") == fr["target"],
                  "target type {}", number(full, "Target type"))
        if K is zoo.Monitor:
            for n, v in (("Number of records Actual", len(a[0])),
                         ("Number of records Expected", len(a[2]))):
                check(int(number(full, n)) == v, "{}: {} reported, it is {}",
                      n, number(full, n), v)
            check(int(number(text[0], "Number of records A")) == len(a[0])
                  and int(number(text[0], "Number of records E")) ==
                  len(a[2]), "records in the short report")
    rec.nontrivial()


def shown_status(est):
    s = est.status
    if isinstance(s, str):
        if s.upper() == s:
            return s.split()[0] if s else s
        return "OPTIMAL" if s.startswith("optimal") else s.upper()
    return str(s)


# ---------------------------------------------------------------------------
def table_sub(kind, target, quick):
    return Sub("plot-%s-%s" % (kind, target), lambda: table_cases(
        kind, target), lambda c, r: check_table(c, r, kind, target), quick)


SUBS = [
    table_sub("num", "binary", 64),
    table_sub("cat", "binary", 64),
    table_sub("num", "continuous", 64),
    table_sub("cat", "continuous", 64),
    table_sub("num", "multiclass", 48),
    table_sub("scenario", "binary", 64),
    Sub("plot-pw", lambda: pw_cases(False),
        lambda c, r: check_pw(c, r, False), 32),
    Sub("plot-pwcontinuous", lambda: pw_cases(True),
        lambda c, r: check_pw(c, r, True), 32),
    Sub("plot-2d", lambda: grid_cases(False),
        lambda c, r: check_2d(c, r, False), 32),
    Sub("plot-2dcontinuous", lambda: grid_cases(True),
        lambda c, r: check_2d(c, r, True), 32),
    Sub("plot-psi", lambda: zoo.Monitor.cases("binary"), check_psi, 24),
    Sub("plot-psicontinuous", lambda: zoo.Monitor.cases("continuous"),
        check_psi, 24),
    Sub("plot-progress", progress_cases, check_progress, 48),
] + [Sub("report-" + k, lambda k=k: report_cases(k), check_report, 24)
     for k in REPORT_KINDS]
