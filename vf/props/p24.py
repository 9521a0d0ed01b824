"""P24: persistence, files and JSON."""
import json
import os
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

import boot
import frames
import gen
from core import Skip, Sub, check, check_close, must_raise, observing
from props import p01, p06, p09, p12, p22

RULE = ("JSON: a fitted binning (binary, continuous, multiclass) is written, "
        "and read by a fresh object and by one fitted on other data; tables, "
        "analysis, splits, every transform metric (specials, missing, unseen "
        "categories) and a second round trip are compared. Process: saved "
        "and loaded with pickle, rebuilt from a dictionary of its binnings. "
        "Files: a frame is written to csv or parquet (in directories and "
        "names with dots, other separators), fitted from disk and "
        "transformed in chunks of a drawn size, and compared with the "
        "process fitted on and applied to the file's content in memory. "
        "Non-trivial: two or more bins (files: and two or more chunks).")
ASSUMPTIONS = ["in-memory content of a file is what pandas.read_csv / "
               "read_parquet returns for it",
               "the output file of transform_disk does not exist before",
               "columns with string categories that a file reader would turn "
               "into numbers as a whole are not generated",
               "cases are skipped where the CP solver returns another "
               "equally good solution"]


def scratch():
    return tempfile.mkdtemp(prefix="p24_", dir=boot.SCRATCH)


# ---------------------------------------------------------------------------
# JSON
# ---------------------------------------------------------------------------
@st.composite
def json_cases(draw, kind, cat=False):
    if kind == "binary":
        case = draw(p01.cases(cat))
        case["target"] = "binary"
    elif kind == "continuous":
        case = draw(p09.cases(cat))
    else:
        case = draw(p12.cases())
    case["query"] = draw(gen.query_spec(8, 25))
    case["tr"] = dict(
        special=draw(st.sampled_from(("empirical", 0, 2.5))),
        missing=draw(st.sampled_from(("empirical", 0, -1.5))),
        digits=draw(st.integers(0, 6)))
    case["dt"] = draw(st.sampled_from(("float64", "float64", "float32",
                                       "int64")))
    case["reader"] = draw(st.sampled_from(("fresh", "fresh", "used")))
    return case


def analysis_values(t, kind):
    t.build()
    t.analysis(print_output=False)
    names = {"binary": ("iv", "js", "gini", "ks", "quality_score"),
             "continuous": ("woe", "quality_score"),
             "multiclass": ("js", "quality_score")}[kind]
    return [(n, getattr(t, n)) for n in names]


def json_fit(case):
    kind = case["target"]
    if kind == "multiclass":
        p06.clean_records(case)
        return p06.fit(case)
    if kind == "binary":
        p01.prepare(case)
    else:
        p06.clean_records(case)
    ob = (p01 if kind == "binary" else p09).fit(case)
    if case["dt"] == "float64" or case["cat"]:
        return ob
    # the same values held in another dtype, where they fit
    x = [v for v in case["x"]]
    if case["dt"] == "int64" and any(v is None or v != int(v) for v in x):
        return ob
    a = gen.xarray(x).astype(case["dt"])
    ob.set_params(user_splits=None)
    return ob.fit(a, np.array(case["y"]))


def json_run(case, rec):
    kind = case["target"]
    ob = json_fit(case)
    tr = case["tr"]
    d = scratch()
    path = os.path.join(d, "binning.json")
    ob.to_json(path)
    fresh = type(ob)()
    if case["reader"] == "used":
        x = np.arange(40.0)
        y = {"binary": (x % 3 > 0).astype(int), "continuous": x * 2,
             "multiclass": (x % 3).astype(int)}[kind]
        fresh = type(ob)(name="other", special_codes=[3.0])
        fresh.fit(x, y)
    fresh.read_json(path)
    path2 = os.path.join(d, "again.json")
    fresh.to_json(path2)
    with observing("json files"):
        a, b = (json.load(open(p)) for p in (path, path2))
        check(json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True),
              "second file {} differs from {}", b, a)
        for k in ("name", "dtype"):
            if hasattr(ob, k):
                check(getattr(fresh, k) == getattr(ob, k), "{} {!r} read "
                      "back as {!r}", k, getattr(ob, k), getattr(fresh, k))
    t1 = ob.binning_table.build(show_digits=tr["digits"])
    t2 = fresh.binning_table.build(show_digits=tr["digits"])
    v1 = analysis_values(ob.binning_table, kind)
    v2 = analysis_values(fresh.binning_table, kind)
    with observing("tables"):
        frames.same_table(norm(t2), norm(t1), "table")
        for (n, u), (_, v) in zip(v2, v1):
            frames.same_value(u, v, n)
        frames.same_splits(fresh.splits, ob.splits, "splits")
        splits = [] if case["cat"] else list(ob.splits)
    q = gen.expand_query(case["query"], case, splits, case["cat"])
    Q = gen.xarray(q, case["cat"])
    for metric in [m for m in p22.METRICS[kind] if m]:
        kw = dict(metric=metric, metric_special=tr["special"],
                  metric_missing=tr["missing"], show_digits=tr["digits"])
        want = ob.transform(Q, **kw)
        got = fresh.transform(Q, **kw)
        with observing("transform"):
            if metric == "bins":
                want, got = [[" ".join(norm_label(s)) for s in w]
                             for w in (want, got)]
            frames.same_column(list(got), list(want), metric)
    rec.label(kind, "cat" if case["cat"] else "num", case["reader"])
    rec.nontrivial(len(list(ob.splits)) >= 1)


def norm_label(s):
    """Labels of groups up to the notation of a list (array or list)."""
    return str(s).replace("np.str_(", "").replace(")", "").replace(
        ",", " ").replace("\n", " ").split()


def norm(t):
    t = t.copy()
    t["Bin"] = [" ".join(norm_label(s)) for s in t["Bin"]]
    return t


# ---------------------------------------------------------------------------
# processes
# ---------------------------------------------------------------------------
@st.composite
def process_cases(draw, tgt):
    case = draw(p22.cases(tgt, m_hi=4))
    case["w"] = None
    return case


def same_process(case, a, b, X, call, what):
    """Summary, tables and transform of two processes."""
    fr = case["fr"]
    s1, s2 = a.summary(), b.summary()
    ones = [a.get_binned_variable(v) for v in a.variable_names]
    twos = [b.get_binned_variable(v) for v in b.variable_names]
    t1 = [o.binning_table.build() for o in ones]
    t2 = [o.binning_table.build() for o in twos]
    with observing(what + "comparison"):
        check(list(map(str, a.variable_names)) ==
              list(map(str, b.variable_names)), what + "variables differ")
        for v, p, q in zip(fr["names"], ones, twos):
            if frames.tie(p, q, p22.objective(fr["target"])):
                raise Skip("equally good solutions")
        frames.same_table(s2, s1, what + "summary")
        for v, p, q in zip(fr["names"], t1, t2):
            frames.same_table(q, p, what + "table of " + v)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            T1 = a.transform(X, **call)
    except ValueError:
        with must_raise(ValueError, what + "transform of the copy"):
            b.transform(X, **call)
        return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T2 = b.transform(X, **call)
    with observing(what + "transform"):
        check(type(T1) is type(T2) and T1.shape == T2.shape,
              "{}transforms have shapes {} and {}", what, T1.shape, T2.shape)
        if hasattr(T1, "columns"):
            check(list(T1.columns) == list(T2.columns), what + "columns")
        A, B = np.asarray(T1, dtype=object), np.asarray(T2, dtype=object)
        for j in range(A.shape[1]):
            frames.same_column(list(B[:, j]), list(A[:, j]),
                               "{}column {}".format(what, j))
    return T1


def with_criteria(case, ones):
    fr = case["fr"]
    if not case["use_crit"]:
        return {}
    vals = {v: frames.stats(ob, fr["target"])
            for v, ob in zip(fr["names"], ones)}
    if any(x != x for q in vals.values() for x in q.values()):
        return {}
    return dict(selection_criteria=frames.criteria(
        case["crit"], vals, fr["names"], fr["target"]))


def save_run(case, rec):
    from optbinning import BinningProcess
    fr = case["fr"]
    if fr["target"] == "multiclass" and len(set(fr["y"])) < 3:
        raise Skip("two classes")
    X, y = p22.data(case), frames.target(fr)
    ones, err = p22.fitted(case, X, y)
    if err is not None:
        raise Skip("an individual binning cannot be fitted")
    crit = with_criteria(case, ones)
    # a process saved before fitting, and after
    d = scratch()
    bp = p22.make(case, **crit)
    path = os.path.join(d, "process.pkl")
    bp.save(path)
    raw = BinningProcess.load(path)
    bp.fit(X, y)
    raw.fit(X, y)
    rows = [b * fr["n"] // 256 for b in case["rows"]]
    Q = p22.data(case, rows)
    same_process(case, bp, raw, Q, case["call"], "fitted after loading: ")
    bp.save(path)
    cp = BinningProcess.load(path)
    with observing("parameters"):
        check(repr(cp.get_params()) == repr(bp.get_params()),
              "parameters {} became {}", bp.get_params(), cp.get_params())
        check(list(cp.get_support()) == list(bp.get_support()),
              "selection {} became {}", list(bp.get_support()),
              list(cp.get_support()))
    same_process(case, bp, cp, Q, case["call"], "loaded: ")
    # from the binnings, given in any order
    dic = p22.make(case, **crit)
    dic.fit_from_dict({fr["names"][j]: bp.get_binned_variable(fr["names"][j])
                       for j in case["perm"]})
    same_process(case, bp, dic, Q, case["call"], "from dictionary: ")
    rec.label(fr["target"], "save")
    rec.nontrivial(sum(len(ob.splits) >= 1 for ob in ones) >= 1)


@st.composite
def disk_cases(draw, tgt):
    case = draw(process_cases(tgt))
    if draw(st.booleans()):
        # categories that look like numbers, next to others that do not
        fr = case["fr"]
        for x, k in zip(fr["cols"], fr["kinds"]):
            lv = sorted({c for c in x if k == "cat" and c is not None and
                         not c.startswith("SPC_")})
            new = dict(zip(lv[:-1], ("1", "02", "3.0", "1e2")))
            x[:] = [new.get(c, c) for c in x]
    case["sep"] = draw(st.sampled_from((",", ",", ";")))
    case["chunk"] = draw(st.sampled_from((1, 2, 7, 20, 64, 1000)))
    case["dir"] = draw(st.sampled_from(("plain", "with.dot", "v1.0.csv")))
    case["file"] = draw(st.sampled_from(("data", "my.data", "data.csv")))
    case["ext"] = draw(st.sampled_from(("csv", "csv", "csv", "parquet")))
    case["one_go"] = draw(st.booleans())
    case["relative"] = draw(st.booleans())
    return case


def disk_run(case, rec):
    import pandas as pd
    fr = case["fr"]
    if fr["target"] == "multiclass" and len(set(fr["y"])) < 3:
        raise Skip("two classes")
    d = os.path.join(scratch(), case["dir"])
    os.makedirs(d)
    df = frames.dataframe(fr, order=case["perm"], extra=case["extra"])
    df["the target"] = frames.target(fr)
    ext, rkw = case["ext"], {}
    path = os.path.join(d, case["file"] + "." + ext)
    cpath = path if ext == "csv" else os.path.join(d, "rows.csv")
    if case["sep"] != ",":
        rkw["sep"] = case["sep"]
    df.to_csv(cpath, index=False, sep=case["sep"])
    if ext == "parquet":
        df.to_parquet(path)
        mem, fkw = pd.read_parquet(path), {}
    else:
        mem, fkw = pd.read_csv(path, low_memory=False, **rkw), rkw
    file_mem = pd.read_csv(cpath, low_memory=False, **rkw)
    for v, k in zip(fr["names"], fr["kinds"]):
        if k == "cat":
            s = [c for c in file_mem[v] if c == c]
            m2 = [c for c in mem[v] if c is not None and c == c]
            if not (s and m2) or any(not isinstance(c, str) for c in s + m2):
                raise Skip("categories read as numbers or missing")
    X, y = mem[fr["names"]], mem["the target"].values
    c1 = dict(case, ndarray=False)
    ones, err = p22.fitted(c1, X, y)
    bp = p22.make(c1)
    if err is not None:
        with must_raise((Exception,), "fit_disk although {!r}".format(err)):
            bp.fit_disk(path, "the target", **fkw)
        raise Skip("an individual binning cannot be fitted")
    crit = with_criteria(case, ones)
    bp = p22.make(c1, **crit).fit(X, y)
    dk = p22.make(c1, **crit)
    dk.fit_disk(path, "the target", **fkw)
    call = case["call"]
    QX = file_mem[fr["names"]]
    T = same_process(case, bp, dk, QX, call, "fit_disk: ")
    out = os.path.join(d, "out.put.csv")
    if case["one_go"] and ext == "csv" and T is not None and T.shape[1]:
        dk = p22.make(c1, **crit)
        dk.fit_transform_disk(path, out, "the target", case["chunk"], **call,
                              **rkw)
        same_process(case, bp, dk, QX, call, "fit_transform_disk: ")
    elif T is None:
        with must_raise(ValueError, "transform_disk mixing bins and numbers"):
            dk.transform_disk(cpath, out, case["chunk"], **call, **rkw)
    elif T.shape[1]:
        dk.transform_disk(cpath, out, case["chunk"], **call, **rkw)
    if T is not None and T.shape[1]:
        with observing("transformed file"):
            got = pd.read_csv(out, keep_default_na=False, dtype=str)
            check(list(got.columns) == list(T.columns) and
                  len(got) == len(T), "file has columns {} and {} rows, "
                  "expected {} and {}", list(got.columns), len(got),
                  list(T.columns), len(T))
            for v in T.columns:
                for i, (u, w) in enumerate(zip(got[v], T[v])):
                    if isinstance(w, str) or not np.isscalar(w):
                        check(str(u) == str(w), "file: {} [{}] {!r}, expected"
                              " {!r}", v, i, u, w)
                    else:
                        check_close(float(u), float(w), lambda: "file: {} "
                                    "[{}]".format(v, i), 1e-12, 1e-12)
    with must_raise(ValueError, "fit_disk of a .txt file"):
        p22.make(c1).fit_disk(os.path.join(d, "data.csv.txt"), "the target")
    with must_raise(ValueError, "transform_disk with chunksize 0"):
        dk.transform_disk(cpath, out, 0, **rkw)
    chunks = -(-fr["n"] // case["chunk"])
    rec.label(fr["target"], ext, "chunks=%d" % min(chunks, 5))
    rec.nontrivial(chunks >= 2 and any(len(ob.splits) >= 1 for ob in ones))


SUBS = [
    Sub("json_binary", lambda: json_cases("binary"), json_run, 250,
        rule="JSON, binary numerical"),
    Sub("json_cat", lambda: json_cases("binary", True), json_run, 250,
        rule="JSON, binary categorical"),
    Sub("json_continuous", lambda: json_cases("continuous"), json_run, 200,
        rule="JSON, continuous numerical"),
    Sub("json_continuous_cat", lambda: json_cases("continuous", True),
        json_run, 200, rule="JSON, continuous categorical"),
    Sub("json_multiclass", lambda: json_cases("multiclass"), json_run, 200,
        rule="JSON, multiclass"),
    Sub("save", lambda: process_cases("binary"), save_run, 100,
        rule="saved process, binary target"),
    Sub("save_other", lambda: st.one_of(process_cases("continuous"),
                                        process_cases("multiclass")),
        save_run, 100, rule="saved process, other targets"),
    Sub("disk", lambda: disk_cases("binary"), disk_run, 160,
        rule="files, binary target"),
    Sub("disk_other", lambda: st.one_of(disk_cases("continuous"),
                                        disk_cases("multiclass")),
        disk_run, 160, rule="files, other targets"),
]
