"""C16: log-signatures and signatures of Lie increment streams against the product of their increments."""
from hypothesis import strategies as st
import gens as G
import longs as L
import model as M
import smodel as S
from fw import Arm, Discard
from rpyio import l2m, t2m, same, ctx_of
from smodel import TOL

RULE = ("cases are generated streams (rows of increments in many forms, with indices, resolution, support, storage, "
        "time channel) and queries (intervals, resolutions); non-trivial when the query selects at least two "
        "increments that do not commute, or selects some increments and leaves out others")


@st.composite
def case(draw):
    c = draw(S.stream_case())
    c["q"] = draw(st.lists(S.query(), min_size=1, max_size=3))
    return c


def run(c, tol=None, scale=1.0):
    s, sm = S.make(c)
    ct, w, d = c["ct"], c["w"], c["d"]
    labels = set()
    for q in c["q"]:
        a, k = S.qargs(q)
        i = S.qi(q)
        sel = sm.selected(i, q["r"])
        ls = s.log_signature(*a, **k)
        what = f"over {q['i']} at {sm.query_res(i, q['r'])}: increments {sel} of {len(sm.events)}"
        same(M.lie_expand(l2m(ls, ct)), sm.logsig(i, q["r"], d), ct, "log-signature " + what, tol or TOL[ct], scale)
        sg = s.signature(*a, **k)
        same(t2m(sg, ct), sm.sig(i, q["r"], d), ct, "signature " + what, tol or TOL[ct], scale)
        assert ls.width == sg.width == w and ls.max_degree == sg.max_degree == d
        if 0 < len(sel) < len(sm.events):
            labels.add("part")
        if S.noncommuting(sm, sel):
            labels.add("non-commuting")
    if not labels:
        return None
    return [ct, c["rows"]["form"], f"vt {c['vt']}", "time" if c["time"] else "no time",
            "default resolution" if c["res"] is None else "resolution"] + sorted(labels)


@st.composite
def long_case(draw):
    ct = draw(st.sampled_from("DDQ"))
    return {"n": draw(L.SIZES), "seed": draw(L.SEED), "ct": ct, "w": draw(st.integers(2, 3)), "d": 2, "nq": draw(st.one_of(st.integers(1, 12), st.integers(30, 60))), "time": draw(st.sampled_from([False, False, True])),
            "form": draw(st.sampled_from(["array", "lists", "strided", "fortran"])), "order": draw(st.sampled_from(["sorted", "sorted", "any", "grid", "none"])),
            "iform": draw(st.sampled_from(["array", "list"])), "res": draw(st.sampled_from([None, 0, 2, 4, 5])), "vt": draw(st.sampled_from([None, None, "dense", "sparse"])),
            "sup": draw(st.sampled_from([False, False, True]))}


def run_long(c):
    R = L.rng(c)
    n = c["n"] if c["order"] != "none" else min(c["n"], 300)
    k = c["w"] - c["time"]
    form = c["form"] if not c["time"] or c["form"] != "fortran" else "array"
    hi = n / 16 if c["order"] != "none" else n
    rows = [[[R.randrange(-4, 5), 1] for _ in range(k)] for _ in range(n)]
    c2 = {**c, "rows": {"form": form, "rows": rows}, "idx": L.parameters(R, n, 16, c["order"]) if c["order"] != "none" else None,
          "sup": [[R.randrange(-16, int(hi * 8)), 16], [R.randrange(int(hi * 8) + 1, int(hi * 16) + 17), 16]] if c["sup"] else None,
          "q": L.queries(R, c["nq"] if n < 150 else min(c["nq"], 12), hi)}
    if c["order"] == "none" and c["res"]:
        c2["res"] = min(c["res"], 2)
    total = sum(abs(x[0]) for r in rows for x in r) + hi
    t = run(c2, None if c["ct"] == "Q" else 1e-13, float(total) ** 2)
    return t and t + [f"length {10 ** (len(str(n)) - 1)}+"]


@st.composite
def res_case(draw):
    return {"idx": draw(st.lists(st.one_of(S.dyadic(0, 6, 8), S.dyadic(-6, 6, 3),
                                           st.integers(1, 10 ** 6).map(lambda n: [n, 10 ** 6])), min_size=1, max_size=6)),
            "off": draw(st.sampled_from([0, 0, 100, -5]))}


def run_res(c):
    """by default every increment at its own parameter is separated from the others"""
    import numpy as np
    import roughpy as rp
    from fractions import Fraction
    idx = sorted({float(S.frac(v) + c["off"]) for v in c["idx"]})
    n = len(idx)
    gap = min((b - a for a, b in zip(idx, idx[1:])), default=1.0)
    if gap < 2.0 ** -20:
        raise Discard()
    ctx = ctx_of(2, 2, "D")
    rows = np.array([[float(1 << i), float(i)] for i in range(n)])
    s = rp.LieIncrementStream.from_increments(rows, indices=np.array(idx), ctx=ctx)
    r = s.resolution
    fl = [M.floor_dyadic(Fraction(t), r) for t in idx]
    assert len(set(fl)) == n, f"resolution {r} does not separate the indices {idx}"
    got = l2m(s.log_signature(), "D").get(1, 0)
    assert got == (1 << n) - 1, f"the whole stream adds up to {got}"
    for i in range(n):
        lo = float(fl[i])
        hi = float(fl[i] + Fraction(2) ** -r)
        got = l2m(s.log_signature(rp.RealInterval(lo, hi)), "D").get(1, 0)
        assert got == (1 << i), f"increment {i} at {idx[i]}: {got} over [{lo}, {hi})"
    return [f"res {min(r, 12) // 4 * 4}+"] if n > 1 else None


@st.composite
def times_case(draw):
    n = draw(st.integers(1, 7))
    w, d = draw(st.sampled_from([(2, 1), (2, 2), (3, 1), (3, 2), (2, 3)]))
    v = st.one_of(st.integers(0, 70).map(lambda a: a / 10), st.integers(-20, 50).map(lambda a: a / 7),
                  st.floats(0, 5, allow_subnormal=False).map(lambda x: x if x == 0 or x > 1e-6 else 0.0))
    idx = draw(st.lists(v, min_size=n, max_size=n))
    if draw(st.sampled_from([True, True, False])):
        idx.sort()
    return {"ct": "D", "w": w, "d": d, "time": True, "idx": [list(x.as_integer_ratio()) for x in idx],
            "rows": draw(S.rows_case("D", w, d, n, cols=w - 1, forms=("array", "lists", "strided"))),
            "iform": draw(st.sampled_from(["array", "list"])), "res": draw(st.sampled_from([None, 0, 2, 5, 8, 12])),
            "sup": None, "vt": draw(st.sampled_from([None, None, "dense", "sparse"])),
            "q": [{"i": None, "r": None, "f": "real"}] + draw(st.lists(S.query(-3, 8, 4), max_size=2))}


def run_times(c):
    idx = sorted({S.frac(v) for v in c["idx"]})
    if c["res"] is None and any(b - a < 2.0 ** -20 for a, b in zip(idx, idx[1:])):
        raise Discard()
    c = {**c, "q": [q if q["r"] is None else {**q, "r": min(q["r"], 12)} for q in c["q"]]}
    run(c, 1e-13, 32.0 ** (c["d"] - 1) * 16)
    return [f"n {min(len(idx), 4)}"] if len(idx) > 1 else None


ARMS = [
    Arm("times", times_case(), run_times, quick=600, thorough=12000, what="the time channel and the selection of increments at "
        "parameters that are no dyadic numbers, to full precision"),
    Arm("query", case(), run, quick=3000, what="log-signature and signature over an interval are the product of the "
        "increments whose parameter, on the grid of the stream, falls in the interval rounded to the query resolution"),
    Arm("long", long_case(), run_long, quick=160, thorough=6000, what="the same for streams of up to about 1000 increments, after many queries"),
    Arm("grid", res_case(), run_res, quick=600, what="the default resolution separates the given parameter values"),
]
