"""C01: free and shuffle tensors are a vector space: coefficientwise sums, differences, scalar multiples."""
import operator
from fractions import Fraction
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
from alg import CLS, make, read
from fw import Arm, Discard
from rpyio import (DT, ctx_of, mcoeff, mtensor, mlie, rtensor, rlie, t2m, l2m, same, scalar, sval, one, hall, TOL,
                   tkey, ct_of)

RULE = ("cases are generated pairs of elements (dense, map or pair construction; rational, polynomial, double, float "
        "coefficients) with an operation; a case is non-trivial when no operand is zero and, for binary operations, "
        "the operands overlap or have different storage")

# ---------------------------------------------------------------- linear operations

LINEAR = ["add", "sub", "iadd", "isub", "neg", "smul", "rsmul", "sdiv", "ismul", "isdiv", "asm", "ssm", "asd", "ssd",
          "self_add", "self_sub"]


@st.composite
def linear_case(draw, kinds=("free", "shuffle", "lie")):
    ct = draw(G.ct())
    kind = draw(st.sampled_from(kinds))
    w, d = draw(G.wd(130 if kind != "lie" else 400))
    mk = G.lie if kind == "lie" else G.tensor
    big = ct == "Q" and draw(st.booleans())
    x, y = draw(mk(ct, w, d, big=big)), draw(mk(ct, w, d, big=big))
    # the scalar: an int, a float that is exact, or an element of the coefficient ring as rp.Scalar
    s = draw(st.one_of(st.tuples(st.just("int"), st.integers(-6, 6)),
                       st.tuples(st.just("float"), st.integers(-24, 24)),
                       st.tuples(st.just("scalar"), G.coeff(ct))).map(list))
    return {"ct": ct, "k": kind, "w": w, "d": d, "x": x, "y": y, "s": s, "op": draw(st.sampled_from(LINEAR))}


def run_linear(c):
    ct, kind, w, d, op = c["ct"], c["k"], c["w"], c["d"], c["op"]
    x, mx = make(kind, c["x"], w, d, ct)
    y, my = make(kind, c["y"], w, d, ct)
    skind, sv = c["s"]
    if op in ("asm", "ssm", "asd", "ssd"):
        skind = "scalar"
        if not isinstance(sv, list):
            sv = [[sv, 1, []]] if ct == "P" else [sv, 1]
    if skind == "int":
        s, ms = sv, (Fraction(sv) if ct in "QP" else float(sv))
    elif skind == "float":
        s = sv / 8.0
        ms = Fraction(sv, 8) if ct in "QP" else s
    else:
        ms = mcoeff(sv, ct)
        s = scalar(ms, ct)
    dividing = op in ("sdiv", "isdiv", "asd", "ssd")
    if dividing:
        if not ms:
            raise Discard()
        if isinstance(ms, M.Poly):
            if set(ms.t) != {()}:
                raise Discard()          # only constant polynomials are units
            ms = ms.t[()]
            if skind == "scalar":
                # dividing by a polynomial scalar is refused; use the rational it is
                s = scalar(ms, "Q")
    tol = 1e-6 if ct == "S" else 1e-13
    if op == "add":
        r, e = x + y, M.add(mx, my)
    elif op == "sub":
        r, e = x - y, M.sub(mx, my)
    elif op == "self_add":
        r, e = x + x, M.add(mx, mx)
    elif op == "self_sub":
        r, e = x - x, {}
    elif op == "neg":
        r, e = -x, M.neg(mx)
    elif op == "smul":
        r, e = x * s, M.smul(mx, ms)
    elif op == "rsmul":
        r, e = s * x, M.smul(mx, ms)
    elif op == "sdiv":
        r, e = x / s, M.sdiv(mx, ms)
    elif op in ("iadd", "isub", "ismul", "isdiv", "asm", "ssm", "asd", "ssd"):
        r = make(kind, c["x"], w, d, ct)[0]
        r0 = r
        if op == "iadd":
            r += y
            e = M.add(mx, my)
        elif op == "isub":
            r -= y
            e = M.sub(mx, my)
        elif op == "ismul":
            r *= s
            e = M.smul(mx, ms)
        elif op == "isdiv":
            r /= s
            e = M.sdiv(mx, ms)
        else:
            t = {"asm": r.add_scal_mul, "ssm": r.sub_scal_mul, "asd": r.add_scal_div, "ssd": r.sub_scal_div}[op](y, s)
            sy = M.smul(my, ms) if op[1:] == "sm" else M.sdiv(my, ms)
            e = M.add(mx, sy) if op[0] == "a" else M.sub(mx, sy)
            same(read(kind, t, ct), e, ct, f"value returned by {op}", tol)
        same(read(kind, r0, ct), e, ct, f"target of in-place {op}", tol)
    same(read(kind, r, ct), e, ct, f"{kind} {op}", tol)
    same(read(kind, x, ct), mx, ct, f"left operand after {op}")
    same(read(kind, y, ct), my, ct, f"right operand after {op}")
    # the summary accessors describe the same element
    assert r.is_zero() == (not e) or ct in "DS", f"is_zero() is {r.is_zero()} for an element with {len(e)} non-zero coefficients"
    assert r.width == w and r.max_degree == d
    assert r.size() == len(read(kind, r, ct)), f"size() is {r.size()}, iteration gives {len(read(kind, r, ct))} non-zero coefficients"
    if ct in "QP":
        z = (r == x)
        assert z == (e == mx), f"== says {z} for the result and the left operand"
        assert (r != x) == (e != mx), "!= disagrees with =="
    binary = op in ("add", "sub", "iadd", "isub", "asm", "ssm", "asd", "ssd")
    if not mx or (binary and not my):
        return None
    return [f"{kind}-{ct}", op, "built " + c['x']['st'], "by " + c['y']['st']]


# ---------------------------------------------------------------- reading coefficients, size, degree

@st.composite
def read_case(draw):
    ct = draw(G.ct())
    kind = draw(st.sampled_from(["free", "shuffle", "lie"]))
    w, d = draw(G.wd(130 if kind != "lie" else 300))
    mk = G.lie if kind == "lie" else G.tensor
    return {"ct": ct, "k": kind, "w": w, "d": d, "x": draw(mk(ct, w, d)),
            "i": draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4))}


def run_read(c):
    ct, kind, w, d = c["ct"], c["k"], c["w"], c["d"]
    x, mx = make(kind, c["x"], w, d, ct)
    same(read(kind, x, ct), mx, ct, "construct then iterate")
    keys = hall(w, d) if kind == "lie" else M.word_list(w, d)
    zero = M.Poly() if ct == "P" else 0
    deg = max((M.tree_degree(k) if kind == "lie" else len(k) for k in mx), default=0)
    for i in c["i"]:
        i %= len(keys)
        k = keys[i]
        e = mx.get(k, zero)
        g = sval(x[i + 1 if kind == "lie" else i], ct)
        assert g == e, f"coefficient of basis element number {i} {k}: {g} instead of {e}"
        if kind == "lie":
            g = sval(x[rp.LieKey(k if isinstance(k, int) else _tl(k), width=w, depth=d)], ct)
        else:
            g = sval(x[tkey(k, w, d)], ct)
        assert g == e, f"coefficient of {k}: {g} instead of {e}"
    # copies taken from a temporary stay what they were
    vals = [(it.key(), it.value()) for it in x]
    y = x + x
    y *= 3
    x2, _ = make(kind, c["x"], w, d, ct)
    x2 *= 0
    del x2
    assert len({str(k) for k, _ in vals}) == len(vals)
    # summary accessors
    assert x.size() >= len(mx) and x.dimension() >= x.size(), (x.size(), x.dimension(), len(mx))
    if x.storage_type == rp.VectorType.SparseVector:
        assert x.size() == len(mx), f"size() {x.size()} of a sparse element with {len(mx)} non-zero coefficients"
    assert x.dimension() <= len(keys)
    assert deg <= x.degree() <= d, f"degree() {x.degree()}, the element has degree {deg}"
    if x.storage_type == rp.VectorType.SparseVector:
        assert x.degree() == deg, f"degree() {x.degree()} of a sparse element of degree {deg}"
    assert x.is_zero() == (not mx), f"is_zero() {x.is_zero()}"
    assert ct_of(x) == ct
    return [kind, ct, c["x"]["st"]] if mx else None


def _tl(t):
    return t if isinstance(t, int) else [_tl(t[0]), _tl(t[1])]


ARMS = [
    Arm("linear", linear_case(), run_linear, quick=6000, what="sum, difference, negative, scalar multiples and "
        "quotients, in place and fused, of free tensors, shuffle tensors and Lie elements against the coefficientwise "
        "definition; operands unchanged; == and is_zero agree"),
    Arm("read", read_case(), run_read, quick=2500, what="construction, indexing by number and by key, iteration, "
        "size, dimension, degree, is_zero describe the same coefficients"),
]
