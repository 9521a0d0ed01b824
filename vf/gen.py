"""Hypothesis generators.  Columns are decoded from drawn bytes, so one draw
gives a whole column, every choice stays inside Hypothesis and shrinks."""
import hashlib
import math

import numpy as np
from hypothesis import strategies as st

# ---------------------------------------------------------------------------
# levels: strictly increasing list of candidate feature values
# ---------------------------------------------------------------------------
LEVEL_KINDS = ("int", "int", "signed", "dec", "dec", "tiny", "huge", "gaps",
               "gaps", "dense", "dense")


_PAD = {k: hashlib.shake_128(b"pad%d" % k).digest(4096) for k in (1, 2, 3)}


def rbytes(draw, n):
    """n bytes; three times out of four mixed with a fixed pad so that the
    repetitive strings Hypothesis likes still give spread-out values."""
    b = draw(st.binary(min_size=n, max_size=n))
    if n < 8:
        return b
    key = draw(st.integers(0, 3))
    if key == 0:
        return b
    pad = _PAD[key]
    return bytes(v ^ pad[i % 4096] for i, v in enumerate(b))


@st.composite
def count_levels(draw, kmin, kmax):
    """Number of levels, small counts kept but not dominating."""
    mid = max(kmin, min(5, kmax))
    lo = mid if draw(st.integers(0, 5)) else kmin
    return draw(st.integers(lo, max(lo, kmax)))


@st.composite
def levels(draw, kmin=1, kmax=14, kinds=LEVEL_KINDS):
    kind = draw(st.sampled_from(kinds))
    if kind == "dense":
        k = draw(st.integers(max(kmin, 20), 64))
    else:
        k = draw(count_levels(kmin, kmax))
    if kind == "int":
        v = list(range(k))
    elif kind == "signed":
        v = [i - k // 2 for i in range(k)]
    elif kind == "dec":
        off = draw(st.integers(-5, 5))
        v = [round(0.1 * (i + off), 6) for i in range(k)]
    elif kind == "tiny":
        v = [round(1e-6 * (i + 1), 12) for i in range(k)]
    elif kind == "huge":
        v = [1e7 * (i - 2) for i in range(k)]
    else:
        b = rbytes(draw, k)
        s = -10.0
        v = []
        for x in b:
            s += (1 + x % 40) / 8.0
            v.append(s)
    return kind, [float(x) for x in v]


@st.composite
def column_index(draw, n, k):
    """n level indices with one of several occupation profiles."""
    b = rbytes(draw, n)
    prof = draw(st.sampled_from(("flat", "flat", "skew", "lump")))
    if prof == "flat":
        return [x % k for x in b]
    if prof == "skew":
        return [min(k - 1, (x * x * k) // 65536) for x in b]
    return [(0 if x < 128 else x % k) for x in b]


SHAPES = ("free", "free", "asc", "desc", "peak", "valley", "flat", "extreme")


@st.composite
def level_profile(draw, k, shapes=SHAPES):
    """k numbers in 0..255 (a rate or a mean per level) of a drawn shape."""
    b = list(rbytes(draw, k))
    shape = draw(st.sampled_from(shapes))
    if shape == "asc":
        b.sort()
    elif shape == "desc":
        b.sort(reverse=True)
    elif shape in ("peak", "valley"):
        t = draw(st.integers(0, k - 1))
        lo = sorted(b[:t])
        hi = sorted(b[t:], reverse=True)
        b = lo + hi
        if shape == "valley":
            b = [255 - x for x in b]
    elif shape == "flat":
        b = [b[0]] * k
    elif shape == "extreme":
        b = [0 if x < 64 else 255 if x > 191 else x for x in b]
    return shape, b


@st.composite
def sizes(draw, lo=12, hi=160):
    return draw(st.integers(lo, hi))


# ---------------------------------------------------------------------------
# special codes and missing values
# ---------------------------------------------------------------------------
NUM_SPECIALS = (-9999.0, -9998.0, 99999.0, -1.0e9)
CAT_SPECIALS = ("SPC_A", "SPC_B", "SPC_C", "SPC_D")


@st.composite
def special_spec(draw, cat=False, forms=("none", "none", "list", "list",
                                         "dict")):
    """JSON form: None, list of codes, or {"name": code or [codes]}."""
    form = draw(st.sampled_from(forms))
    pool = CAT_SPECIALS if cat else NUM_SPECIALS
    if form == "none":
        return None
    if form == "list":
        m = draw(st.integers(1, 3))
        return list(pool[:m])
    m = draw(st.integers(1, 3))
    if m == 1:
        return {"s_one": pool[0]}
    if m == 2:
        return {"s_one": [pool[0], pool[1]], "s_two": pool[2]}
    return {"s_one": pool[1], "s_two": [pool[0]], "s_three": [pool[2],
                                                              pool[3]]}


def special_values(spec):
    if spec is None:
        return []
    if isinstance(spec, dict):
        out = []
        for s in spec.values():
            out.extend(s if isinstance(s, list) else [s])
    else:
        out = list(spec)
    return [v for v in out if v is not None]


@st.composite
def nan_code(draw, spec):
    """spec, sometimes naming NaN (None in JSON) as a special code as well:
    missing values are missing whatever the special codes."""
    if draw(st.integers(0, 6)):
        return spec
    if spec is None:
        return [None]
    if isinstance(spec, dict):
        k = draw(st.sampled_from(sorted(spec) + ["s_nan"]))
        old = spec.get(k)
        return dict(spec, **{k: None if old is None else
                             (old if isinstance(old, list) else [old]) +
                             [None]})
    return list(spec) + [None]


def special_groups(spec):
    """List of (name, values), one per expected Special row."""
    if isinstance(spec, dict):
        return [(k, special_values(s if isinstance(s, list) else [s]))
                for k, s in spec.items()]
    return [("Special", special_values(spec))]


@st.composite
def contaminate(draw, x, spec):
    """Overwrite some entries of x by missing (None) and special codes."""
    n = len(x)
    b = rbytes(draw, n)
    p_miss = draw(st.sampled_from((0, 0, 8, 40)))
    p_spec = draw(st.sampled_from((0, 10, 50)))
    sv = special_values(spec)
    if sv and p_spec and draw(st.integers(0, 3)) == 0:
        sv = sv[:1]
    out = list(x)
    for i, v in enumerate(b):
        if v < p_miss:
            out[i] = None
        elif sv and v >= 256 - p_spec:
            out[i] = sv[v % len(sv)]
    return out


# ---------------------------------------------------------------------------
# data sets: dict(x=list with None, y=list, ...)
# ---------------------------------------------------------------------------
CATS = ["c%02d" % i for i in range(40)]
ODD_CATS = ["", " ", "a,b", "[x]", "é", "A", "a", "nan", "Missing", "Special",
            "0", "-1", "O'", "\"q\"", "zz", "b c"]


@st.composite
def cat_levels(draw, kmin=1, kmax=12):
    k = draw(count_levels(kmin, kmax))
    if draw(st.integers(0, 3)) == 0:
        names = ODD_CATS[:k]
    else:
        names = CATS[:k]
    perm = draw(st.permutations(list(range(len(names)))))
    return "cat", [names[i] for i in perm]


@st.composite
def xy_binary(draw, n_lo=12, n_hi=160, cat=False, spec_forms=None,
              missing=True, shapes=SHAPES, kinds=LEVEL_KINDS, kmin=1,
              kmax=14, both_classes=True):
    n = draw(sizes(n_lo, n_hi))
    if cat:
        kind, lv = draw(cat_levels(kmin, min(kmax, 12)))
    else:
        kind, lv = draw(levels(kmin, kmax, kinds))
    k = len(lv)
    idx = draw(column_index(n, k))
    shape, prof = draw(level_profile(k, shapes))
    yb = rbytes(draw, n)
    y = [1 if yb[i] < prof[idx[i]] else 0 for i in range(n)]
    if both_classes:
        y[0] = 0
        y[-1] = 1
    x = [lv[i] for i in idx]
    kw = {} if spec_forms is None else {"forms": spec_forms}
    spec = draw(special_spec(cat=cat, **kw))
    if missing:
        x = draw(contaminate(x, spec))
    if all(v is None or v in special_values(spec) for v in x):
        x[0] = lv[0]
        x[-1] = lv[-1]
    return dict(x=x, y=y, cat=bool(cat), special=spec, kind=kind, shape=shape)


Y_KINDS = ("int", "mixed", "real", "big", "small", "zeros", "const")


@st.composite
def xy_continuous(draw, n_lo=12, n_hi=160, cat=False, spec_forms=None,
                  missing=True, shapes=SHAPES, kinds=LEVEL_KINDS, kmin=1,
                  kmax=14, ykinds=Y_KINDS):
    n = draw(sizes(n_lo, n_hi))
    if cat:
        kind, lv = draw(cat_levels(kmin, min(kmax, 12)))
    else:
        kind, lv = draw(levels(kmin, kmax, kinds))
    k = len(lv)
    idx = draw(column_index(n, k))
    shape, prof = draw(level_profile(k, shapes))
    yb = rbytes(draw, n)
    yk = draw(st.sampled_from(ykinds))
    noise = draw(st.sampled_from((0, 8, 64)))
    y = []
    for i in range(n):
        e = (yb[i] - 128) * noise / 128.0
        v = prof[idx[i]] + e
        if yk == "int":
            v = float(round(v / 8))
        elif yk == "mixed":
            v = float(round(v - 128, 3))
        elif yk == "real":
            v = v / 7.0
        elif yk == "big":
            v = v * 1.0e5 - 3.0e6
        elif yk == "small":
            v = v * 1e-4
        elif yk == "zeros":
            v = 0.0 if yb[i] % 3 == 0 else float(round(v / 16))
        else:
            v = 5.0
        y.append(float(v))
    x = [lv[i] for i in idx]
    kw = {} if spec_forms is None else {"forms": spec_forms}
    spec = draw(special_spec(cat=cat, **kw))
    if missing:
        x = draw(contaminate(x, spec))
    if all(v is None or v in special_values(spec) for v in x):
        x[0] = lv[0]
        x[-1] = lv[-1]
    return dict(x=x, y=y, cat=bool(cat), special=spec, kind=kind, shape=shape,
                ykind=yk)


@st.composite
def xy_multiclass(draw, n_lo=15, n_hi=160, spec_forms=None, missing=True,
                  kinds=LEVEL_KINDS, kmin=1, kmax=14, cmin=2, cmax=4):
    n = draw(sizes(n_lo, n_hi))
    kind, lv = draw(levels(kmin, kmax, kinds))
    k = len(lv)
    idx = draw(column_index(n, k))
    nc = draw(st.integers(cmin, cmax))
    labels = draw(st.sampled_from(([0, 1, 2, 3, 4], [1, 2, 3, 4, 5],
                                   [-1, 0, 5, 7, 12])))[:nc]
    profs = [draw(level_profile(k))[1] for _ in range(nc - 1)]
    yb = rbytes(draw, n)
    y = []
    for i in range(n):
        c = nc - 1
        r = yb[i]
        for j in range(nc - 1):
            w = profs[j][idx[i]] // (nc - 1)
            if r < w:
                c = j
                break
            r -= w
        y.append(labels[c])
    for j in range(nc):          # every class occurs
        y[j] = labels[j]
    x = [lv[i] for i in idx]
    kw = {} if spec_forms is None else {"forms": spec_forms}
    spec = draw(special_spec(cat=False, **kw))
    if missing:
        x = draw(contaminate(x, spec))
    if all(v is None or v in special_values(spec) for v in x):
        x[0] = lv[0]
        x[-1] = lv[-1]
    return dict(x=x, y=y, cat=False, special=spec, kind=kind,
                classes=labels)


def xarray(x, cat=False, missing=None):
    if cat:
        a = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            a[i] = missing if v is None else v
        return a
    return np.array([math.nan if v is None else v for v in x], dtype=float)


def special_arg(spec):
    """Fresh copy to hand to the library."""
    if spec is None:
        return None
    if isinstance(spec, dict):
        return {k: (special_arg(v) if isinstance(v, list) else
                    math.nan if v is None else v)
                for k, v in spec.items()}
    return [math.nan if v is None else v for v in spec]


# ---------------------------------------------------------------------------
# query vectors for transform
# ---------------------------------------------------------------------------
@st.composite
def query_spec(draw, m_lo=3, m_hi=25):
    m = draw(st.integers(m_lo, m_hi))
    return [list(p) for p in zip(rbytes(draw, m), rbytes(draw, m))]


def expand_query(q, case, splits, cat=False):
    """Decode (a, b) byte pairs into query values around the splits."""
    spec = special_values(case["special"])
    clean = sorted({v for v in case["x"] if v is not None and v not in spec},
                   key=str if cat else None)
    out = []
    for a, b in q:
        r = a % 8
        if cat:
            if r == 0:
                out.append(None)
            elif r == 1 and spec:
                out.append(spec[b % len(spec)])
            elif r == 2:
                out.append("unseen_%d" % (b % 5))
            else:
                out.append(clean[b % len(clean)])
            continue
        if r == 0:
            out.append(None)
        elif r == 1 and spec:
            out.append(spec[b % len(spec)])
        elif r in (2, 3) and len(splits):
            s = float(splits[b % len(splits)])
            t = (b // 16) % 4
            out.append(s if t < 2 else (math.nextafter(s, -math.inf)
                                        if t == 2 else
                                        math.nextafter(s, math.inf)))
        elif r == 4:
            out.append([-math.inf, math.inf, -1e12, 1e12][b % 4])
        elif r == 5:
            out.append(b * 1.0 - 100.0)
        else:
            out.append(clean[b % len(clean)])
    return out
