"""C18: restrictions and simplifications of every kind of stream."""
from fractions import Fraction
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
import smodel as S
from fw import Arm, Discard
from rpyio import l2m, t2m, same, ctx_of, one
from smodel import TOL, frac
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import C19
import C20
import C21

RULE = ("cases are streams of every kind with an interval to restrict to, a partition and resolution to simplify with, and "
        "queries; non-trivial when the restriction cuts the query, or a piece of the partition with a non-zero "
        "log-signature is cut by the query or followed by one that does not commute with it")
R = rp.RealInterval


@st.composite
def stream(draw, kinds=("increments", "increments", "ticks", "pieces", "function", "brownian", "values")):
    k = draw(st.sampled_from(kinds))
    if k == "increments":
        b = draw(S.stream_case(maxdim=60, cts="QQDDSP"))
    elif k == "ticks":
        b = draw(C19.stream_case())
    elif k == "pieces":
        b = draw(C20.pas_case())
    elif k == "function":
        b = draw(C21.fn_case())
    elif k == "values":
        b = draw(C20.tv_case())
    else:
        w, d = draw(G.wd(40, dmax=4))
        b = {"ct": draw(st.sampled_from("DS")), "w": w, "d": d, "res": draw(st.sampled_from([0, 1, 3]))}
    return {"kind": k, "base": b}


def build(c):
    """-> (stream, coefficient type, width, depth, something to keep alive)"""
    k, b = c["kind"], c["base"]
    if k == "increments":
        s, keep = S.make(b)[0], None
    elif k == "ticks":
        s, keep = C19.build(b)[0], None
    elif k == "pieces":
        s, *keep = C20.build_pas(b)
    elif k == "values":
        v, *keep = C20.build_tv(b)
        s = v.increment_stream()
    elif k == "function":
        f = C21.Fn(b)
        kw = {"resolution": b["res"]} if b["res"] is not None else {}
        s, keep = rp.FunctionStream.from_function(f, ctx=ctx_of(b["w"], b["d"], b["ct"]), **kw), f
    else:
        s, keep = rp.BrownianStream.with_generator(ctx=ctx_of(b["w"], b["d"], b["ct"]), resolution=b["res"],
                                                   support=R(-4.0, 8.0)), None
    ct = {rp.DPReal: "D", rp.SPReal: "S", rp.Rational: "Q", rp.RationalPoly: "P"}[s.dtype]
    return s, ct, s.width, s.ctx.depth, keep


def rng(kind):
    """the resolutions asked of a kind of stream: those computed on demand get expensive"""
    return 5 if kind in ("function", "brownian") else 9


def bits(kind):
    """a partition of power-of-two lengths keeps the fractions exact; the grid of streams computed on demand is coarse"""
    return 3 if kind in ("function", "brownian") else 4


def real(i):
    return R(float(i[0]), float(i[1]))


def size(m):
    return max([1.0] + [abs(v) for v in m.values()])


def ask(s, i, r, kw):
    """-> (signature, log signature) over an interval or the support, at a resolution or the default one"""
    a = (() if i is None else (real(i),)) + (() if r is None else (r,))
    return s.signature(*a, **kw), s.log_signature(*a, **kw)


# ------------------------------------------------------------------------------------------------ restriction

@st.composite
def restrict_case(draw):
    c = draw(stream())
    m = rng(c["kind"])
    iv = st.one_of(S.interval(-1, 5, 1), S.interval(-1, 5, bits(c["kind"])))
    c["steps"] = draw(st.lists(st.fixed_dictionaries({
        "j": iv, "i": st.one_of(iv, iv, st.none()), "r": st.sampled_from([None, None, 0, 1, 2, 3, m]),
        "depth": st.sampled_from([None, None, None, "deeper", "shallower"]),
        "after": st.booleans(), "form": st.sampled_from(["real", "real", "dyadic", "partition"])}), min_size=1, max_size=3))
    return c


def run_restrict(c):
    s, ct, w, d, keep = build(c)
    labels = set()
    sup = s.support.inf(), s.support.sup()
    cur = s
    for t in c["steps"]:
        j = tuple(frac(v) for v in t["j"])
        jv = real(j)
        if t["form"] == "partition":
            jv = rp.Partition(jv)
        elif t["form"] == "dyadic" and j[0] < j[1]:
            n = (j[1] - j[0])
            if n.numerator & (n.numerator - 1) == 0 and (j[0] / n).denominator == 1:
                jv = rp.DyadicInterval(rp.Dyadic(int(j[0] / n), n.denominator.bit_length() - n.numerator.bit_length()))
                assert (jv.inf(), jv.sup()) == (float(j[0]), float(j[1]))
        if not t["after"]:
            cur = s
        x = cur.restrict(jv)
        assert (Fraction(x.support.inf()), Fraction(x.support.sup())) == j, f"restricted to {jv}, support {x.support}"
        assert x.width == w and x.dtype == s.dtype and x.resolution == s.resolution and x.ctx.depth == d
        kw, depth = {}, d
        if t["depth"] == "deeper" and M.tensor_dim(w, d + 1) < 100:
            depth = d + 1
        elif t["depth"] == "shallower" and d > 1:
            depth = d - 1
        if depth != d:
            kw["depth"] = depth
        i = None if t["i"] is None else tuple(frac(v) for v in t["i"])
        k = j if i is None else (max(i[0], j[0]), min(i[1], j[1]))
        got = ask(x, i, t["r"], kw)
        if k[0] >= k[1]:
            e = {(): one(ct)}, {}
            labels.add("nothing left")
        else:
            # a stream with a support that covers it answers the part of the query that is left
            y = s.restrict(R(-9.0, 9.0))
            r = t["r"]
            if r is None:
                r = max(s.resolution, S.param_to_resolution(float(k[1] - k[0])) + 2)
            e = ask(y, k, r, kw)
            e = t2m(e[0], ct), M.lie_expand(l2m(e[1], ct))
            if e[1] and i is not None and k != i:
                labels.add("cut")
            elif e[1]:
                labels.add("whole")
        what = f"over {t['i']} at {t['r']} restricted to {t['j']}"
        same(t2m(got[0], ct), e[0], ct, "signature " + what, TOL[ct])
        same(M.lie_expand(l2m(got[1], ct)), e[1], ct, "log signature " + what, TOL[ct],
             size(e[0]) if ct in "DS" else 1.0)
        assert got[0].max_degree == got[1].max_degree == depth
        assert (s.support.inf(), s.support.sup()) == sup, "restrict changed the stream"
        cur = x
    if not labels & {"cut", "whole"}:
        return None
    return [c["kind"], ct] + sorted(labels)


# ------------------------------------------------------------------------------------------------ simplification

@st.composite
def simplify_case(draw):
    c = draw(stream())
    m, b = rng(c["kind"]), bits(c["kind"])
    c["cuts"] = draw(st.lists(st.one_of(S.dyadic(0, 4, 2), S.dyadic(-1, 5, b)), min_size=3, max_size=6,
                                    unique_by=frac))
    c["pow2"] = draw(st.sampled_from([True, True, False]))
    c["r"] = draw(st.sampled_from([None, 1, 2, 3, 4, m]))
    c["as"] = draw(st.sampled_from([None, None, None, "depth+", "depth-", "ctx", "ctx+"]))
    c["restrict"] = draw(st.one_of(st.none(), st.none(), S.interval(-1, 5, 2), S.interval(0, 2, 2).map(
        lambda i: [i[0], [i[1][0] + 2 * i[1][1], i[1][1]]])))
    c["q"] = draw(st.lists(st.fixed_dictionaries({
        "i": st.one_of(st.none(), st.tuples(st.integers(0, 4), st.integers(0, 4)).map(list), S.interval(-1, 5, 2),
                       S.interval(-1, 5, b)),
        "r": st.sampled_from([None, None, 3, 4, m, 12])}), min_size=1, max_size=4))
    c["again"] = draw(st.booleans())
    return c


def run_simplify(c):
    s, ct, w, d, keep = build(c)
    cuts = sorted({frac(v) for v in c["cuts"]})
    if c["restrict"]:
        j = tuple(frac(v) for v in c["restrict"])
        if j[0] >= j[1]:
            raise Discard()
        s = s.restrict(real(j))
    if len(cuts) < 2:
        raise Discard()
    if ct == "P" or c["pow2"]:
        # pieces of power-of-two lengths, so that fractions of them are exact
        keepers = [cuts[0]]
        for x in cuts[1:]:
            n = (x - keepers[-1]).numerator
            if n & (n - 1) == 0:
                keepers.append(x)
        cuts = keepers
        if len(cuts) < 2:
            raise Discard()
    exact = all((b - a).numerator & ((b - a).numerator - 1) == 0 for a, b in zip(cuts, cuts[1:]))
    p = rp.Partition(R(float(cuts[0]), float(cuts[-1])), [float(x) for x in cuts[1:-1]])
    kw, depth = {}, d
    if c["as"] and c["as"].endswith("+") and M.tensor_dim(w, d + 1) < 100:
        depth = d + 1
    elif c["as"] == "depth-" and d > 1:
        depth = d - 1
    if c["as"] and c["as"].startswith("ctx"):
        kw["ctx"] = ctx_of(w, depth, ct)
    elif depth != d:
        kw["depth"] = depth
    r = s.resolution if c["r"] is None else c["r"]
    if r > 12:
        raise Discard()
    x = s.simplify(p, **kw) if c["r"] is None else s.simplify(p, r, **kw)
    assert (Fraction(x.support.inf()), Fraction(x.support.sup())) == (cuts[0], cuts[-1]), \
        f"support {x.support} of a path simplified to {p}"
    assert x.width == w and x.dtype == s.dtype and x.resolution == r and x.ctx.depth == depth
    pieces = []
    dk = {"depth": depth} if depth != d else {}
    for k in range(len(cuts) - 1):
        lg = s.log_signature(R(float(cuts[k]), float(cuts[k + 1])), r, **dk)
        pieces.append(((cuts[k], cuts[k + 1]), M.lie_expand(l2m(lg, ct))))
    sm = S.SM([], r, (cuts[0], cuts[-1]), ct)
    labels = set()
    for q in c["q"] + (c["q"][:1] if c["again"] else []):
        i = q["i"]
        if i is not None:
            if isinstance(i[0], int):       # between points of the partition
                i = sorted((cuts[i[0] % len(cuts)], cuts[i[1] % len(cuts)]))
                if i[0] == i[1]:
                    i = [cuts[0], cuts[-1]]
            else:
                i = [frac(v) for v in i]
            i = tuple(i)
        got = ask(x, i, q["r"], {})
        t = sm.trimmed(i)
        rr = sm.query_res(i, q["r"])
        e = {(): one(ct)}
        used = []
        aligned = t is not None
        if t is not None:
            lo, hi = M.floor_dyadic(t[0], rr), M.floor_dyadic(t[1], rr)
            aligned = lo in cuts and hi in cuts and lo < hi
            for (a, b), m in pieces:
                f = (min(b, hi) - max(a, lo)) / (b - a)
                if f > 0 and m:
                    if f < 1:
                        labels.add("cut")
                    used.append(m)
                    sc = f if ct == "Q" else M.Poly({(): f}) if ct == "P" else float(f)
                    e = M.mul(e, M.exp(M.smul(m, sc), depth, one(ct)), depth)
        if len(used) > 1 and any(M.bracket(used[0], m, 9) for m in used[1:]):
            labels.add("non-commuting")
        what = f"over {i and [str(v) for v in i]} at {rr} of the path simplified to {p} at {r}"
        cmp_ct, tol = (ct, TOL[ct]) if exact or ct != "Q" else ("D", 1e-9)
        fl = (lambda m: m) if cmp_ct == ct else (lambda m: {k: float(v) for k, v in m.items()})
        same(fl(t2m(got[0], ct)), fl(e), cmp_ct, "signature " + what, tol)
        same(fl(M.lie_expand(l2m(got[1], ct))), fl(M.log(e, depth)), cmp_ct, "log signature " + what, tol,
             size(e) if ct in "DS" else 1.0)
        assert got[0].max_degree == got[1].max_degree == depth
        if aligned and used:
            # between points of the partition the path has the signature of the stream
            y = s.signature(R(float(lo), float(hi)), r, **dk)
            if ct == "Q" and c["kind"] == "pieces":     # whose own fractions may be rounded
                cmp_ct, tol, fl = "D", 1e-9, (lambda m: {k: float(v) for k, v in m.items()})
            same(fl(t2m(got[0], ct)), fl(t2m(y, ct)), cmp_ct, "signature of the stream and " + what, tol)
            labels.add("aligned")
    if not labels:
        return None
    return [c["kind"], ct, f"as {c['as']}"] + sorted(labels) + (["restricted"] if c["restrict"] else [])


ARMS = [
    Arm("restrict", restrict_case(), run_restrict, quick=700, thorough=14000,
        what="queries of restricted streams of every kind against queries of the part of the interval that is left"),
    Arm("simplify", simplify_case(), run_simplify, quick=700, thorough=14000,
        what="queries of simplified streams of every kind: fractions of the log-signatures over the partition, and the "
             "signature of the stream between its points"),
]
