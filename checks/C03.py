"""C03: exp, log, fused multiply-exponential and antipode of free tensors."""
from fractions import Fraction
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
from alg import make
from fw import Arm, Discard
from rpyio import mtensor, mlie, rtensor, rlie, t2m, l2m, same, one, ctx_of

RULE = ("cases are generated free tensors (widths 1..6, depths 1..8, dense/map/pair construction, four coefficient "
        "types); non-trivial when the argument has at least two non-zero coefficients beyond the constant term and "
        "the depth is at least 2")

TOL = {"Q": None, "P": None, "D": 1e-9, "S": 2e-3}
DIM = {"Q": 160, "P": 40, "D": 260, "S": 160}


@st.composite
def op_case(draw):
    ct = draw(G.ct())
    w, d = draw(G.wd(DIM[ct], dmax=8))
    return {"ct": ct, "w": w, "d": d, "x": draw(G.tensor(ct, w, d, max_size=8)), "a": draw(G.tensor(ct, w, d, max_size=8)),
            "c0": draw(st.sampled_from(["keep", "none", "none"])),
            "op": draw(st.sampled_from(["exp", "exp", "log", "fmexp", "antipode", "logexp", "explog"]))}


def vec(case, w, d, ct, const):
    m = mtensor(case, w, d, ct)
    if const == 0:
        m.pop((), None)
    elif const is not None:
        m[()] = const
    return rtensor(m, w, d, ct, case["st"]), m


def small(m, ct):
    """keep floating point iterates of size about one so that a fixed relative tolerance is right"""
    if ct in "DS":
        return {k: v / 4 for k, v in m.items()}
    return m


def run_op(c):
    ct, w, d, op = c["ct"], c["w"], c["d"], c["op"]
    tol = TOL[ct]
    o = one(ct)
    mx = small(mtensor(c["x"], w, d, ct), ct)
    if op in ("log", "explog"):
        mx[()] = o
    elif op in ("fmexp", "logexp") or (op == "exp" and c["c0"] == "none"):
        mx.pop((), None)
    x = rtensor(mx, w, d, ct, c["x"]["st"])
    r0 = x
    if op == "exp":
        r, e = x.exp(), M.exp_nilpotent(mx, d, o)      # the series up to the power given by the depth
    elif op == "log":
        r, e = x.log(), M.log(mx, d)
    elif op == "logexp":
        r, e = x.exp().log(), mx
    elif op == "explog":
        r, e = x.log().exp(), mx
    elif op == "antipode":
        r, e = x.antipode(), M.antipode(mx)
    else:
        ma = mtensor(c["a"], w, d, ct)
        a = rtensor(ma, w, d, ct, c["a"]["st"])
        r, e = a.fmexp(x), M.mul(ma, M.exp(mx, d, o), d)
        same(t2m(a, ct), e, ct, "target of the fused multiply-exponential", tol)
        if not ma:
            return None
    same(t2m(r, ct), e, ct, op, tol)
    same(t2m(r0, ct), mx, ct, f"argument after {op}")
    assert r.width == w and r.max_degree == d
    return [ct, op, c["x"]["st"]] if len([k for k in mx if k]) >= 2 and d >= 2 else None


# ---------------------------------------------------------------- laws: on the implementation alone, exactly

@st.composite
def law_case(draw):
    ct = draw(st.sampled_from("QQQQP"))
    w, d = draw(G.wd(110 if ct == "Q" else 30, dmax=7))
    return {"ct": ct, "w": w, "d": d, "x": draw(G.lie(ct, w, d, max_size=6)), "y": draw(G.lie(ct, w, d, max_size=6)),
            "t": draw(G.tensor(ct, w, d, max_size=6)), "u": draw(G.tensor(ct, w, d, max_size=6)),
            "wa": draw(st.lists(st.integers(1, w), max_size=d)), "cut": draw(st.integers(0, d))}


def run_law(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    ctx = ctx_of(w, d, ct)
    mlx = mlie(c["x"], w, d, ct)
    x = rlie(mlx, w, d, ct, c["x"]["st"])
    y = rlie(mlie(c["y"], w, d, ct), w, d, ct, c["y"]["st"])
    t, u = make("free", c["t"], w, d, ct)[0], make("free", c["u"], w, d, ct)[0]
    gx, gy = ctx.lie_to_tensor(x).exp(), ctx.lie_to_tensor(y).exp()
    o = rtensor({(): one(ct)}, w, d, ct)
    # group elements: the antipode is the inverse, and exp of the negative
    assert gx * gx.antipode() == o and gx.antipode() * gx == o, "the antipode of exp(Lie) is not its inverse"
    assert ctx.lie_to_tensor(-x).exp() == gx.antipode(), "exp(-x) is not the antipode of exp(x)"
    # products of group elements stay group elements: log is Lie
    g = gx * gy
    lg = t2m(g.log(), ct)
    if ct == "Q":
        assert M.is_lie(lg, d), "log of a product of exponentials of Lie elements is not a Lie element"
    assert ctx.lie_to_tensor(ctx.tensor_to_lie(g.log())) == g.log()
    # antipode: linear involution that reverses products
    assert t.antipode().antipode() == t, "the antipode is not an involution"
    assert (t * u).antipode() == u.antipode() * t.antipode(), "the antipode does not reverse products"
    assert (t + u).antipode() == t.antipode() + u.antipode()
    # exp on commuting arguments
    assert (ctx.lie_to_tensor(x) * 2).exp() == gx * gx, "exp(2x) is not exp(x)^2"
    # group-like: coefficients multiply by shuffles
    wa = tuple(c["wa"])
    k = min(c["cut"], len(wa))
    a, b = wa[:k], wa[k:]
    mg = t2m(g, ct)
    lhs = mg.get(a, 0) * mg.get(b, 0) if a in mg and b in mg else (one(ct) - one(ct))
    rhs = sum((mg[s] * n for s, n in M.shuffle_words(a, b) if s in mg), one(ct) - one(ct))
    assert lhs == rhs, f"exp(Lie) is not group-like: <{a}><{b}> = {lhs}, shuffle {rhs}"
    return [ct] if mlx and d >= 2 and not x.is_zero() and not y.is_zero() else None


# ---------------------------------------------------------------- large tensors

@st.composite
def big_case(draw):
    w, d = draw(st.sampled_from([(w, d) for w in range(1, 26) for d in range(2, 15)
                                 if 60 <= M.tensor_dim(w, d) <= 12000 or w == 1]))
    ct = draw(st.sampled_from("DDSQ" if M.tensor_dim(w, d) <= 3000 else "DDS"))
    return {"w": w, "d": d, "ct": ct, "op": draw(st.sampled_from(["antipode", "antipode", "exp1", "log1"])),
            "n": draw(st.integers(0, 10 ** 6)), "a": draw(st.integers(1, 97)), "m": draw(st.integers(2, 23)),
            "full": draw(st.booleans()), "v": draw(st.lists(st.integers(-3, 3), min_size=w, max_size=w))}


def run_big(c):
    w, d, ct = c["w"], c["d"], c["ct"]
    ctx = ctx_of(w, d, ct)
    W = M.word_list(w, d)
    n = len(W) if c["full"] else 1 + c["n"] % len(W)
    num = (lambda v: int(v)) if ct == "Q" else float
    if c["op"] == "antipode":
        vals = [(i * c["a"] + i * i // 5) % c["m"] + 1 for i in range(n)]
        x = rp.FreeTensor([num(v) for v in vals], ctx=ctx)
        r = t2m(x.antipode(), ct)
        e = {W[i][::-1]: (v if len(W[i]) % 2 == 0 else -v) for i, v in enumerate(vals)}
        same(r, e, ct, "antipode")
        return [f"{w},{d}"]
    den = 4 if ct in "DS" else 1
    v = [Fraction(a, den) for a in c["v"]]
    x = rp.FreeTensor([num(0)] + [num(a) for a in v], ctx=ctx)
    # exp of a letter combination: the coefficient of a word is the product of those of its letters over the factorial
    e, last = {}, {(): Fraction(1)}
    for k in range(d + 1):
        e.update(last)
        if len(last) * w > 20000:
            break
        last = {u + (l + 1,): p * v[l] / (k + 1) for u, p in last.items() for l in range(w) if v[l]}
    if ct != "Q":
        e = {k: float(a) for k, a in e.items()}
    e = {k: a for k, a in e.items() if a}
    g = x.exp()
    if c["op"] == "exp1":
        same(t2m(g, ct), e, ct, "exp", TOL[ct])
    else:
        if ct == "Q" or w ** d <= 3000:
            same(t2m(g.log(), ct), {(i + 1,): (a if ct == "Q" else float(a)) for i, a in enumerate(v) if a}, ct, "log of exp",
                 TOL[ct])
    return [f"{w},{d}"] if any(v) else None


@st.composite
def linlog_case(draw):
    ct = draw(st.sampled_from("QQDDSP"))
    w, d = draw(st.sampled_from([(1, 2), (2, 1), (2, 2), (3, 2), (4, 2), (2, 3), (2, 3), (3, 3), (2, 4), (1, 5)]))
    return {"ct": ct, "w": w, "d": d, "x": draw(G.tensor(ct, w, d, max_size=6)),
            "kind": draw(st.sampled_from(["tensor", "tensor", "group", "shuffle", "sum"])),
            "y": draw(G.tensor(ct, w, d, max_size=4))}


def blocks(n, k):
    """all ways to give n positions to k non-empty blocks"""
    def rec(i, left):
        if i == n:
            if not left:
                yield ()
            return
        for b in range(k):
            rest = left - {b}
            if len(rest) <= n - i - 1:
                for t in rec(i + 1, rest):
                    yield (b,) + t
    return rec(0, frozenset(range(k)))


_LL = {}


def linlog_word(n):
    """{permutation of positions: coefficient} of the linear map that is the logarithm on group-like elements"""
    if n not in _LL:
        r = {}
        for k in range(1, n + 1):
            for t in blocks(n, k):
                perm = tuple(i for b in range(k) for i in range(n) if t[i] == b)
                r[perm] = r.get(perm, 0) + Fraction((-1) ** (k + 1), k)
        _LL[n] = {p: v for p, v in r.items() if v}
    return _LL[n]


def linlog(m):
    r = {}
    for k, v in m.items():
        if k:
            for p, a in linlog_word(len(k)).items():
                u = tuple(k[i] for i in p)
                r[u] = r[u] + v * a if u in r else v * a
    return M.clean(r)


def run_linlog(c):
    from roughpy.tensor_functions import Log
    ct, w, d, kind = c["ct"], c["w"], c["d"], c["kind"]
    mx = small(mtensor(c["x"], w, d, ct), ct)
    if kind == "group":
        mx.pop((), None)
        mx = {k: v for k, v in mx.items() if len(k) == 1}
        mx = M.exp(mx, d, one(ct)) if mx else {(): one(ct)}
    cls = rp.ShuffleTensor if kind == "shuffle" else rp.FreeTensor
    x = rtensor(mx, w, d, ct, c["x"]["st"], *([cls] if kind == "shuffle" else []))
    r = Log(x)
    assert type(r) is cls
    e = linlog(mx)
    if ct in "DS":
        e = {k: float(v) for k, v in e.items()}
    same(t2m(r, ct), e, ct, "Log", TOL[ct])
    same(t2m(x, ct), mx, ct, "argument of Log", TOL[ct])
    if kind == "group":
        same(t2m(x.log(), ct), e, ct, "log of a group-like element, against Log", TOL[ct])
    elif kind == "sum":
        y = rtensor(small(mtensor(c["y"], w, d, ct), ct), w, d, ct, c["y"]["st"])
        same(t2m(Log(x + y), ct), t2m(r + Log(y), ct), ct, "Log of a sum", TOL[ct])
    return [kind, ct] if len([k for k in mx if len(k) >= 2]) >= 1 and d >= 2 else None


ARMS = [
    Arm("linearlog", linlog_case(), run_linlog, quick=900, thorough=8000, what="tensor_functions.Log: the linear map that "
        "is the logarithm on group-like elements, on any tensor"),
    Arm("large", big_case(), run_big, quick=160, thorough=4000, what="antipode, and exp and log of letters, on tensors "
        "of up to 12000 coefficients and every depth up to 14"),
    Arm("ops", op_case(), run_op, quick=3500, what="exp, log, fmexp and antipode against their series and definition; "
        "log and exp undo each other; arguments unchanged"),
    Arm("laws", law_case(), run_law, quick=1200, what="antipode inverts group elements, is an involution and reverses "
        "products; exp of a Lie element is group-like; log of a product of group elements is Lie"),
]
