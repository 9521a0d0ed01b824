"""P19: Greenwald-Khanna quantile sketch."""
import bisect

from hypothesis import strategies as st

from core import Sub, check, must_raise, observing

RULE = ("A case is a precision and a history of operations (add a stream of "
        "values, merge one sketch into another, copy) over up to four "
        "sketches, mirrored by the exact lists of values. After every "
        "operation the count, and for every touched sketch all quantiles of "
        "a grid are compared with the exact ranks. Non-trivial: some sketch "
        "holds more values than entries (compressed) or results from a "
        "merge.")
ASSUMPTIONS = ["finite values; 0.0005 <= eps <= 0.5"]

KINDS = ("asc", "desc", "zigzag", "const", "few", "random", "random", "float")


def stream(kind, n, off, seed):
    """n values of one kind, deterministic."""
    s = seed * 2654435761 % (1 << 32)
    out = []
    for i in range(n):
        s = (1664525 * s + 1013904223) % (1 << 32)
        r = s >> 8
        out.append({"asc": lambda: i, "desc": lambda: n - i,
                    "zigzag": lambda: i if i % 2 else n - i,
                    "const": lambda: 3, "few": lambda: r % 5,
                    "random": lambda: r % (2 * n + 1),
                    "float": lambda: r / 65536.0}[kind]() + off)
    return out


@st.composite
def cases(draw):
    m = draw(st.integers(1, 4))
    big = draw(st.integers(0, 9)) == 0
    op = st.one_of(
        st.tuples(st.just("add"), st.integers(0, m - 1),
                  st.sampled_from(KINDS),
                  st.one_of(st.integers(0, 8), st.integers(0, 40),
                            st.integers(0, 400),
                            st.integers(0, 3000 if big else 120)),
                  st.sampled_from((0, 0, -50, 17, 500)),
                  st.integers(0, 255)),
        st.tuples(st.just("merge"), st.integers(0, m - 1),
                  st.integers(0, m - 1)),
        st.tuples(st.just("copy"), st.integers(0, m - 1),
                  st.integers(0, m - 1)))
    return dict(eps=draw(st.sampled_from((0.0005, 0.01, 0.02, 0.05, 0.1,
                                          0.25, 0.5))), m=m,
                ops=draw(st.lists(op, min_size=1, max_size=9)))


def inspect(gk, vals, eps, qs, what):
    n = len(vals)
    check(gk.n == n, "{} counts {} of {} values", what, gk.n, n)
    if not n:
        check(len(gk) == 0, "{}: empty sketch has {} entries", what, len(gk))
        with must_raise((ValueError,), "quantile of an empty sketch"):
            gk.quantile(0.5)
        return
    check(1 <= len(gk) <= n, "{}: {} entries for {} values", what, len(gk),
          n)
    s = sorted(vals)
    got = []
    for q in qs:
        v = gk.quantile(q)
        got.append(v)
        lo, hi = bisect.bisect_left(s, v) + 1, bisect.bisect_right(s, v)
        check(lo <= hi, "{}: quantile {} is {}, not a value given", what, q,
              v)
        r = int(q * (n - 1) + 1)
        d = 0 if lo <= r <= hi else min(abs(r - lo), abs(r - hi))
        check(d <= eps * (n - 1) + 1 if eps * (n - 1) >= 1 else d == 0,
              "{}: quantile {} of {} values is {} with rank {}..{}, exact "
              "rank {} (allowed error {})", what, q, n, v, lo, hi, r,
              eps * (n - 1))
    check(got == sorted(got), "{}: quantiles not monotone: {}", what, got)


def run(case, rec):
    from optbinning.binning.distributed.gk import GK
    eps, m = case["eps"], case["m"]
    gks, vals = [GK(eps) for _ in range(m)], [[] for _ in range(m)]
    qs = sorted([k / 40 for k in range(41)] + [0.003, 0.997])
    merged = False
    for k, op in enumerate(case["ops"]):
        what = "operation {} {}".format(k, op[:4])
        i = op[1]
        touched = {i}
        if op[0] == "add":
            v = stream(op[2], op[3], op[4], op[5])
            for a in v:
                gks[i].add(a)
            vals[i] = vals[i] + v
        elif op[0] == "merge":
            j = op[2]
            touched.add(j)
            if i == j:
                continue
            check(gks[i].mergeable(gks[j]), "{}: not mergeable", what)
            before = [gks[j].quantile(q) for q in qs] if vals[j] else None
            gks[i].merge(gks[j])
            with observing("quantiles"):
                if before is not None:
                    check([gks[j].quantile(q) for q in qs] == before,
                          "{}: merge changed the other sketch", what)
            vals[i] = vals[i] + vals[j]
            merged |= bool(vals[j])
        else:
            j = op[2]
            touched.add(j)
            if i == j:
                continue
            gks[i].copy(gks[j])
            vals[i] = list(vals[j])
        for t in sorted(touched):
            inspect(gks[t], vals[t], eps, qs, "{}, sketch {}".format(what,
                                                                     t))
    for t in range(m):
        inspect(gks[t], vals[t], eps, qs, "at the end, sketch %d" % t)
    check(not gks[0].mergeable(GK(eps / 2)), "sketches of different "
          "precision are mergeable")
    total = sum(map(len, vals))
    comp = any(len(g) < len(v) for g, v in zip(gks, vals))
    rec.label("eps=%s" % eps, "merged" if merged else "no merge",
              "compressed" if comp else "exact",
              "n<=%d" % (10 ** len(str(total))))
    rec.nontrivial(comp or merged)


SUBS = [Sub("gk", cases, run, 2500, rule="histories of sketches")]
