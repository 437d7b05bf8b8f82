"""C20: piecewise abelian streams and tensor-valued streams."""
from fractions import Fraction
from hypothesis import strategies as st
import gens as G
import longs as L
import model as M
import roughpy as rp
import smodel as S
from fw import Arm, Discard
from rpyio import l2m, t2m, rlie, rtensor, mlie, same, ctx_of, one
from smodel import TOL, frac

RULE = ("cases are generated pieces (intervals with Lie elements, out of order, with gaps) and values (at parameters out of "
        "order and repeated) with queries; non-trivial when a query cuts a piece, or spans two or more increments that do "
        "not commute, or leaves out some")
R = rp.RealInterval
DT = {"D": rp.DPReal, "S": rp.SPReal, "Q": rp.Rational, "P": rp.RationalPoly}


def real(i):
    return R(float(i[0]), float(i[1]))


@st.composite
def queries(draw, n=4, lo=-1, hi=5):
    return draw(st.lists(st.fixed_dictionaries({"q": S.query(lo, hi),
                                                "as": st.sampled_from([None, None, None, "deeper", "shallower", "dtype"])}),
                         min_size=1, max_size=n))


def as_kw(c, how):
    """-> keyword arguments, depth, coefficient type of a query"""
    ct, w, d = c["ct"], c["w"], c["d"]
    if how == "deeper" and M.tensor_dim(w, d + 1) < 130:
        return {"depth": d + 1}, d + 1, ct
    if how == "shallower" and d > 1:
        return {"depth": d - 1}, d - 1, ct
    if how == "dtype" and ct == "D":
        return {"dtype": rp.SPReal}, d, "S"
    return {}, d, ct


# ------------------------------------------------------------------------------------------------ piecewise abelian

@st.composite
def pas_case(draw):
    ct = draw(st.sampled_from("QQQDDSP"))
    w, d = draw(G.wd({"Q": 130, "P": 30}.get(ct, 100), dmax=5))
    n = draw(st.integers(1, 5 if ct != "P" else 3))
    cuts = draw(st.lists(S.dyadic(0, 4, 4), min_size=n + 1, max_size=2 * n, unique_by=lambda v: frac(v)))
    cuts = sorted(cuts, key=frac)
    pieces = []
    i = 0
    while i + 1 < len(cuts) and len(pieces) < n:
        pieces.append([cuts[i], cuts[i + 1]])
        i += draw(st.sampled_from([1, 1, 1, 2]))
    if ct == "P":
        pieces = [p for p in pieces if exact_len(p)]
    return {"ct": ct, "w": w, "d": d,
            "pieces": [{"i": p, "l": draw(G.lie(ct, w, d, max_size=3))} for p in draw(st.permutations(pieces))],
            "res": draw(st.sampled_from([None, 0, 1, 2, 4])),
            "sup": draw(st.one_of(st.none(), st.none(), S.interval(-1, 5))),
            "vt": draw(st.sampled_from([None, None, "dense", "sparse"])),
            "q": draw(queries())}


def exact_len(p):
    n = (frac(p[1]) - frac(p[0])).numerator
    return n & (n - 1) == 0


def build_pas(c):
    """-> (stream, pieces given, pieces in the model)"""
    ct, w, d = c["ct"], c["w"], c["d"]
    if not c["pieces"]:
        raise Discard()
    ctx = ctx_of(w, d, ct)
    kw = {}
    if c["res"] is not None:
        kw["resolution"] = c["res"]
    if c["sup"]:
        if frac(c["sup"][0]) >= frac(c["sup"][1]):
            raise Discard()
        kw["support"] = real([frac(v) for v in c["sup"]])
    if c["vt"]:
        kw["vtype"] = S.VT[c["vt"]]
    ps = []
    for p in c["pieces"]:
        m = mlie(p["l"], w, d, ct)
        ps.append((tuple(frac(v) for v in p["i"]), m, rlie(m, w, d, ct, p["l"]["st"])))
    given = [(real(i), x) for i, _, x in ps]
    return rp.PiecewiseAbelianStream.construct(given, ctx=ctx, **kw), given, ps


def run_pas(c, tol_=None, scale=1.0):
    ct, w, d = c["ct"], c["w"], c["d"]
    s, _, ps = build_pas(c)
    ps = sorted([(i, M.lie_expand(m)) for i, m, _ in ps], key=lambda t: t[0])
    sup = tuple(frac(v) for v in c["sup"]) if c["sup"] else (ps[0][0][0], ps[-1][0][1])
    assert (Fraction(s.support.inf()), Fraction(s.support.sup())) == sup, f"support is {s.support}, not {sup}"
    sm = S.SM([], c["res"] or 0, sup, ct)
    exact = all(exact_len(p["i"]) for p in c["pieces"])
    labels = set()
    for q_ in c["q"]:
        q = q_["q"]
        a, k = S.qargs(q)
        kw2, depth, ct2 = as_kw(c, q_["as"])
        t = sm.trimmed(S.qi(q))
        r = sm.query_res(S.qi(q), q["r"])
        exp = {(): one(ct)}
        used = []
        if t is not None:
            lo, hi = M.floor_dyadic(t[0], r), M.floor_dyadic(t[1], r)
            for (x, y), m in ps:
                f = (min(y, hi) - max(x, lo)) / (y - x)
                if f > 0 and m:
                    if f < 1:
                        labels.add("cut")
                    if lo > x and hi < y:
                        labels.add("inside")
                    used.append(m)
                    sc = f if ct == "Q" else M.Poly({(): f}) if ct == "P" else float(f)
                    exp = M.mul(exp, M.exp(M.truncate(M.smul(m, sc), depth), depth, one(ct)), depth)
        if len(used) > 1 and any(M.bracket(used[0], m, 9) for m in used[1:]):
            labels.add("non-commuting")
        what = f"over {q['i']} at {r}: pieces {[[str(v) for v in i] for i, _ in ps]}"
        cmp_ct, tol = (ct2, TOL[ct2]) if exact or ct2 != "Q" else ("D", 1e-9)
        fl = (lambda m: m) if cmp_ct == ct2 else (lambda m: {k: float(v) for k, v in m.items()})
        sg = s.signature(*a, **k, **kw2)
        same(fl(t2m(sg, ct2)), fl(exp), cmp_ct, "signature " + what, tol_ or tol, scale)
        ls = s.log_signature(*a, **k, **kw2)
        same(fl(M.lie_expand(l2m(ls, ct2))), fl(M.log(exp, depth)), cmp_ct, "log-signature " + what, tol_ or tol, scale)
        assert sg.max_degree == ls.max_degree == depth
    return [ct] + sorted(labels) if labels else None


# ------------------------------------------------------------------------------------------------ tensor valued

@st.composite
def tv_case(draw):
    ct = draw(st.sampled_from("QQQDDS"))
    w, d = draw(G.wd(60, dmax=4))
    n = draw(st.integers(1, 6))
    return {"ct": ct, "w": w, "d": d,
            "t": draw(st.lists(st.one_of(S.dyadic(0, 4, 3), S.dyadic(0, 3, 0)), min_size=n, max_size=n)),
            "v": [draw(G.lie(ct, w, d, max_size=3)) for _ in range(n)],
            "lie": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            "how": draw(st.sampled_from(["ctx", "ctx", "wd", "w", "none", "kw"])),
            "res": draw(st.sampled_from([None, None, 1, 2, 4])),
            "sub": draw(st.lists(S.interval(-1, 5, 4), max_size=3)),
            "q": draw(queries(3))}


def build_tv(c):
    """-> (stream of values, values given, values in the model)"""
    ct, w, d = c["ct"], c["w"], c["d"]
    ctx = ctx_of(w, d, ct)
    items, vals = [], []
    for t, v, lie in zip(c["t"], c["v"], c["lie"]):
        m = mlie(v, w, d, ct)
        if ct in "DS":
            m = {k: x / 4 for k, x in m.items()}
        x = rlie(m, w, d, ct, v["st"])
        e = M.exp(M.lie_expand(m), d, one(ct))
        items.append((float(frac(t)), x if lie else ctx.lie_to_tensor(x).exp()))
        vals.append((frac(t), e))
    kw = {"ctx": {"ctx": ctx}, "wd": {"width": w, "depth": d, "dtype": DT[ct]}, "w": {"width": w}, "none": {},
          "kw": {"ctx": ctx, "values": items}}[c["how"]]
    if c["res"] is not None:
        kw["resolution"] = c["res"]
    return rp.TensorValuedStream.from_values(*(() if c["how"] == "kw" else (items,)), **kw), items, vals


def run_tv(c, tol_=None, scale=1.0):
    ct, w, d = c["ct"], c["w"], c["d"]
    ctx = ctx_of(w, d, ct)
    tv, _, vals = build_tv(c)
    order = sorted(range(len(vals)), key=lambda i: vals[i][0])
    vals = [vals[i] for i in order]
    inc = tv.increment_stream()
    res = inc.resolution
    if c["res"] is not None:
        assert res == c["res"]
    else:
        fl = {M.floor_dyadic(t, res) for t, _ in vals}
        assert len(fl) == len({t for t, _ in vals}), f"resolution {res} does not separate {[str(t) for t, _ in vals]}"
    dom = (Fraction(tv.domain().inf()), Fraction(tv.domain().sup()))
    assert dom[0] == vals[0][0] and M.floor_dyadic(dom[1], res) > M.floor_dyadic(vals[-1][0], res), \
        f"domain {tv.domain()} does not have all of the values"
    events = [(t, M.log(M.mul(M.inverse(p, d), v, d), d)) for (_, p), (t, v) in zip(vals, vals[1:])]
    sm = S.SM(events, res, dom, ct, d)
    tol = tol_ or TOL[ct]
    labels = set()

    def check(tv, dom, init, what):
        """init: the model of the initial value"""
        assert (Fraction(tv.domain().inf()), Fraction(tv.domain().sup())) == dom, f"{what}: domain {tv.domain()}"
        same(t2m(tv.initial_value(), ct), init, ct, what + ": initial value", tol, scale)
        end = M.mul(init, sm.sig(dom, res, d), d)
        same(t2m(tv.terminal_value(), ct), end, ct, what + ": terminal value", tol, scale)
        same(t2m(tv.initial_value() * tv.signature(), ct), end, ct, what + ": initial value and signature", tol, scale)
        same(t2m(ctx.lie_to_tensor(tv.log_signature()).exp(), ct), sm.sig(dom, res, d), ct, what + ": log-signature", tol, scale)
        for q_ in c["q"]:
            q = q_["q"]
            a, k = S.qargs(q)
            kw2, depth, ct2 = as_kw(c, q_["as"])
            i = S.qi(q) or dom
            i = (max(i[0], dom[0]), min(i[1], dom[1]))
            r = res if q["r"] is None else q["r"]
            e = sm.sig(i, r, depth) if i[0] < i[1] else {(): one(ct)}
            same(t2m(tv.signature(*a, **k, **kw2), ct2), e, ct2, f"{what}: signature over {q['i']} at {r}", tol_ or TOL[ct2], scale)
            ls = tv.log_signature(*a, **k, **kw2)
            same(M.exp(M.lie_expand(l2m(ls, ct2)), depth, one(ct2)), e, ct2,
                 f"{what}: log-signature over {q['i']} at {r}", tol_ or TOL[ct2], scale)
            sel = sm.selected(i, r) if i[0] < i[1] else ()
            if 0 < len(sel) < len(sm.events):
                labels.add("part")
            if S.noncommuting(sm, sel):
                labels.add("non-commuting")

    init = vals[0][1]
    check(tv, dom, init, "stream of values")
    # the value at a parameter is the last value before it
    last = [v for t, v in vals if M.floor_dyadic(t, res) < M.floor_dyadic(dom[1], res)][-1]
    same(t2m(tv.terminal_value(), ct), last, ct, "terminal value", tol, scale)
    repr(tv)
    for i in c["sub"]:
        i = (frac(i[0]), frac(i[1]))
        j = (max(i[0], dom[0]), min(i[1], dom[1]))
        if j[0] >= j[1] or i[0] == i[1]:
            continue
        new = tv.query(real(i))
        assert isinstance(new, rp.TensorValuedStream)
        if j[0] > dom[0]:
            init = M.mul(init, sm.sig((dom[0], j[0]), res, d), d)
        tv, dom = new, j
        labels.add("sub")
        check(tv, dom, init, f"values over {[str(v) for v in j]}")
    return [ct, c["how"]] + sorted(labels) if labels else None


@st.composite
def long_case(draw):
    return {"n": draw(L.SIZES), "seed": draw(L.SEED), "kind": draw(st.sampled_from(["pieces", "values"])), "ct": draw(st.sampled_from("DDQ")), "w": draw(st.integers(2, 3)), "d": 2,
            "res": draw(st.sampled_from([None, 0, 2, 4])), "vt": draw(st.sampled_from([None, None, "dense", "sparse"])), "nq": draw(st.integers(1, 8)), "how": draw(st.sampled_from(["ctx", "wd", "kw"])),
            "sup": draw(st.sampled_from([False, False, True])), "sub": draw(st.integers(0, 2))}


def run_long(c):
    """many pieces, or many values"""
    Rn = L.rng(c)
    n = c["n"] if c["kind"] == "pieces" and c["ct"] == "D" else min(c["n"], 280)
    hi = n // 16 + 1
    el = lambda: {"e": [[i, [Rn.randrange(-4, 5), 1]] for i in range(c["w"]) if Rn.random() < 0.8], "st": Rn.choice(["dense", "dense", "map", "vs"])}
    q = [{"q": x, "as": None} for x in L.queries(Rn, c["nq"], hi, (None, 0, 2, 4))]
    tol = None if c["ct"] == "Q" else 1e-12
    if c["kind"] == "pieces":
        cuts = sorted({(Rn.randrange(0, hi * 16 + 1)) for _ in range(2 * n)})
        ps = [{"i": [[a, 16], [b, 16]], "l": el()} for a, b in zip(cuts, cuts[1:]) if Rn.random() < 0.9]
        if Rn.random() < 0.5:
            Rn.shuffle(ps)
        c2 = {**c, "pieces": ps, "sup": [[-8, 16], [hi * 16 - 5, 16]] if c["sup"] else None, "q": q}
        t = run_pas(c2, tol, float(30 * n) ** 2)
    else:
        ts = L.parameters(Rn, n, 16, Rn.choice(["sorted", "any", "grid"]))
        sub = []
        for _ in range(c["sub"]):
            a, b = sorted(Rn.sample(range(0, hi * 16 + 1), 2))
            sub.append([[a, 16], [b, 16]])
        c2 = {**c, "t": ts, "v": [el() for _ in range(n)], "lie": [Rn.random() < 0.5 for _ in range(n)], "sub": sub, "q": q}
        t = run_tv(c2, tol, float(30 * n) ** 2)
    return t and t + [c["kind"], f"length {10 ** (len(str(n)) - 1)}+"]


@st.composite
def tvs_case(draw):
    c = draw(S.stream_case("QQDS", maxdim=60))
    c["v0"] = draw(G.lie(c["ct"], c["w"], c["d"], max_size=3))
    c["dom"] = draw(S.interval(-1, 5, 4))
    c["sub"] = draw(S.interval(-1, 5, 4))
    c["q"] = draw(queries(2))
    return c


def run_tvs(c):
    """a tensor-valued stream made from a stream and an initial value"""
    ct, w, d = c["ct"], c["w"], c["d"]
    s, sm = S.make(c)
    dom = tuple(frac(v) for v in c["dom"])
    dom = (max(dom[0], sm.support[0]), min(dom[1], sm.support[1]))
    if dom[0] >= dom[1]:
        raise Discard()
    m0 = M.exp(M.lie_expand(mlie(c["v0"], w, d, ct)), d, one(ct))
    tv = rp.TensorValuedStream(s, rtensor(m0, w, d, ct, "dense"), real(dom))
    tol = TOL[ct] and TOL[ct] * 20
    sel = sm.selected(dom, sm.res)
    for what, iv in (("stream", None), ("part", tuple(frac(v) for v in c["sub"]))):
        init, i = m0, dom
        if iv:
            i = (max(iv[0], dom[0]), min(iv[1], dom[1]))
            if i[0] >= i[1]:
                continue
            tv = tv.query(real(iv))
            if i[0] > dom[0]:
                init = M.mul(m0, sm.sig((dom[0], i[0]), sm.res, d), d)
        same(t2m(tv.initial_value(), ct), init, ct, what + ": initial value", tol)
        same(t2m(tv.terminal_value(), ct), M.mul(init, sm.sig(i, sm.res, d), d), ct, what + ": terminal value", tol)
        same(t2m(tv.signature(), ct), sm.sig(i, sm.res, d), ct, what + ": signature", tol)
        for q_ in c["q"]:
            q = q_["q"]
            a, k = S.qargs(q)
            kw2, depth, ct2 = as_kw(c, q_["as"])
            j = S.qi(q) or i
            j = (max(i[0], j[0]), min(i[1], j[1]))
            r = sm.res if q["r"] is None else q["r"]
            e = sm.sig(j, r, depth) if j[0] < j[1] else {(): one(ct)}
            same(t2m(tv.signature(*a, **k, **kw2), ct2), e, ct2, f"{what}: signature over {q['i']} at {r}",
                 TOL[ct2] and 20 * TOL[ct2])
    return [ct] if S.noncommuting(sm, sel) else None


ARMS = [
    Arm("pieces", pas_case(), run_pas, quick=2500, what="a piecewise abelian stream over an interval is the product of "
        "the exponentials of the fractions of its pieces there"),
    Arm("values", tv_case(), run_tv, quick=1800, what="a stream of values takes each value from its parameter to the next "
        "one; parts of it, signatures, and initial and terminal values fit together"),
    Arm("long", long_case(), run_long, quick=100, thorough=4000, what="the same for up to about 1000 pieces and 300 values"),
    Arm("increments", tvs_case(), run_tvs, quick=1200, what="the value is the initial value times the signature up to there"),
]
