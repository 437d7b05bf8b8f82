"""C05: the Lie bracket, and the maps between Lie elements and tensors."""
from fractions import Fraction
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
from alg import make
from fw import Arm, Discard
from rpyio import mcoeff, mlie, rlie, rtensor, t2m, l2m, same, scalar, ctx_of, hall, lkey, one

RULE = ("cases are generated Lie elements / tensors (widths 1..9, depths 1..8, dense or map construction, four "
        "coefficient types); non-trivial when the arguments are non-zero and so is the expected result")
TOL = {"Q": None, "P": None, "D": 1e-10, "S": 1e-3}
FORMS = ["mul", "mul", "mul", "imul", "add_mul", "sub_mul", "mul_smul", "mul_sdiv", "imul_self", "add_mul_a1"]
SIZES = [(w, d) for w in range(1, 7) for d in range(1, 9) if M.tensor_dim(w, d) <= 700 and M.lie_dim(w, d) <= 200]
GOOD = [x for x in SIZES if x[0] >= 2 and x[1] >= 2]
wds = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(SIZES))


@st.composite
def br_case(draw):
    ct = draw(G.ct())
    w, d = draw(wds)
    ms = 6 if ct != "P" else 3
    return {"ct": ct, "w": w, "d": d, "x": draw(G.lie(ct, w, d, max_size=ms)), "y": draw(G.lie(ct, w, d, max_size=ms)),
            "z": draw(G.lie(ct, w, d, max_size=ms)), "s": draw(G.coeff(ct)), "form": draw(st.sampled_from(FORMS))}


def run_br(c):
    ct, w, d, form = c["ct"], c["w"], c["d"], c["form"]
    (x, mx), (y, my), (z, mz) = (make("lie", c[k], w, d, ct) for k in "xyz")
    s = mcoeff(c["s"], ct)
    ctr = ct
    if form == "mul_sdiv":
        if not s:
            raise Discard()
        if ct == "P":
            if set(s.t) != {()}:
                raise Discard()
            s, ctr = s.t[()], "Q"
    tx, ty, tz = M.lie_expand(mx), M.lie_expand(my), M.lie_expand(mz)
    B = lambda a, b: M.truncate(M.bracket(a, b, d), d)
    r = make("lie", c["x"], w, d, ct)[0]
    if form == "mul":
        r, e = x * y, B(tx, ty)
    elif form == "imul":
        r *= y
        e = B(tx, ty)
    elif form == "imul_self":
        r *= r
        e = {}
    elif form == "add_mul":
        r.add_mul(y, z)
        e = M.add(tx, B(ty, tz))
    elif form == "add_mul_a1":
        r.add_mul(r, y)
        e = M.add(tx, B(tx, ty))
    elif form == "sub_mul":
        r.sub_mul(y, z)
        e = M.sub(tx, B(ty, tz))
    elif form == "mul_smul":
        r.mul_smul(y, scalar(s, ctr))
        e = M.smul(B(tx, ty), s)
    else:
        r.mul_sdiv(y, scalar(s, ctr))
        e = M.sdiv(B(tx, ty), s)
    # equality in the free Lie algebra is equality of the expansions in the tensor algebra
    same(M.lie_expand(l2m(r, ct)), e, ct, f"expansion of the bracket ({form})", TOL[ct])
    same(l2m(x, ct), mx, ct, "left operand afterwards")
    same(l2m(y, ct), my, ct, "right operand afterwards")
    if not mx or not my or (not e and form != "imul_self"):
        return None
    return [ct, form, "built " + c['x']['st'], "by " + c['y']['st'], f"deg {max((len(k) for k in e), default=0)}"]


# ---------------------------------------------------------------- brackets of Hall basis elements: structure constants

@st.composite
def hall_case(draw):
    w, d = draw(st.sampled_from([(2, 9), (2, 10), (3, 6), (3, 7), (4, 5), (5, 4), (5, 5), (6, 4), (8, 3), (9, 3), (12, 3)]))
    H = hall(w, d)
    i = draw(st.integers(0, len(H) - 1))
    di = M.tree_degree(H[i])
    lim = sum(1 for t in H if M.tree_degree(t) <= d - di)
    j = draw(st.integers(0, max(lim - 1, 0)))
    return {"w": w, "d": d, "i": i, "j": j, "vt": draw(st.sampled_from(["dense", "map"]))}


def run_hall(c):
    w, d = c["w"], c["d"]
    H = hall(w, d)
    a, b = H[c["i"]], H[c["j"]]
    x = rlie({a: Fraction(1)}, w, d, "Q", c["vt"])
    y = rlie({b: Fraction(1)}, w, d, "Q", c["vt"])
    e = M.truncate(M.bracket(M.tree_expand(a), M.tree_expand(b), d), d)
    r = l2m(x * y, "Q")
    same(M.lie_expand(r), e, "Q", f"[{M.tree_str(a)}, {M.tree_str(b)}]")
    r2 = l2m(y * x, "Q")
    same(r2, M.neg(r), "Q", "antisymmetry")
    return [f"{w},{d}", "in basis" if len(r) == 1 and list(r) == [(a, b)] else "rewritten" if r else "zero"] if e else None


# ---------------------------------------------------------------- Lie algebra laws, exactly

@st.composite
def law_case(draw):
    ct = draw(st.sampled_from("QQQP"))
    w, d = draw(wds)
    ms = 5 if ct == "Q" else 2
    k = G.lie(ct, w, d, max_size=ms)
    return {"ct": ct, "w": w, "d": d, "x": draw(k), "y": draw(k), "z": draw(k)}


def run_law(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    (x, mx), (y, my), (z, mz) = (make("lie", c[k], w, d, ct) for k in "xyz")
    assert (x * x).is_zero(), "[x,x] is not zero"
    assert x * y == -(y * x), "the bracket is not antisymmetric"
    assert (x + y) * z == x * z + y * z and x * (y + z) == x * y + x * z, "the bracket is not bilinear"
    j = x * (y * z) + y * (z * x) + z * (x * y)
    assert j.is_zero() or j == x - x, f"the Jacobi identity fails: {j}"
    ctx = ctx_of(w, d, ct)
    tx, ty = ctx.lie_to_tensor(x), ctx.lie_to_tensor(y)
    assert ctx.lie_to_tensor(x * y) == tx * ty - ty * tx, "the bracket is not the commutator of the tensors"
    return [ct] if mx and my and mz and not (x * y).is_zero() else None


# ---------------------------------------------------------------- maps

@st.composite
def map_case(draw):
    ct = draw(G.ct())
    w, d = draw(wds)
    ms = 8 if ct != "P" else 4
    return {"ct": ct, "w": w, "d": d, "x": draw(G.lie(ct, w, d, max_size=ms)), "t": draw(G.tensor(ct, w, d, max_size=ms)),
            "dd": draw(st.sampled_from([0, 0, 0, -1, 1]))}


def run_map(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    x, mx = make("lie", c["x"], w, d, ct)
    t, mt = make("free", c["t"], w, d, ct)
    d2 = max(1, d + c["dd"])
    if M.tensor_dim(w, d2) > 1200:
        d2 = d
    ctx = ctx_of(w, d2, ct)
    tx = ctx.lie_to_tensor(x)
    ex = M.truncate(M.lie_expand(mx), d2)
    same(t2m(tx, ct), ex, ct, "tensor of a Lie element", TOL[ct])
    assert tx.max_degree == d2
    # Lie to tensor and back
    back = ctx.tensor_to_lie(tx)
    same(l2m(back, ct), {k: v for k, v in mx.items() if M.tree_degree(k) <= d2}, ct, "Lie element, to tensor and back", TOL[ct])
    # any tensor: the projection along the kernel of bracketing words from the right, divided by their length
    lt = ctx.tensor_to_lie(t)
    mt2 = {k: v for k, v in mt.items() if len(k) <= d2}
    if ct in "DS":
        e = {k: float(v) for k, v in M.dynkin({k: Fraction(v) for k, v in mt2.items()}).items()}
    else:
        e = M.dynkin(mt2)
    same(M.lie_expand(l2m(lt, ct)), e, ct, "projection of a tensor on the Lie elements", TOL[ct])
    assert lt.max_degree == d2
    same(t2m(t, ct), mt, ct, "argument afterwards")
    same(l2m(x, ct), mx, ct, "argument afterwards")
    if ct in "QP":
        assert ctx.tensor_to_lie(ctx.lie_to_tensor(lt)) == lt, "projecting twice is not projecting once"
    return [ct, c["x"]["st"], c["t"]["st"], f"depth {c['dd']:+d}"] if mx and mt and ex else None


ARMS = [
    Arm("bracket", br_case(), run_br, quick=3000, what="every way of multiplying Lie elements gives the commutator of "
        "their expansions in the tensor algebra, truncated"),
    Arm("hall", hall_case(), run_hall, quick=1500, what="brackets of Hall basis elements in larger algebras"),
    Arm("laws", law_case(), run_law, quick=1500, what="bilinear, antisymmetric, Jacobi; the embedding in tensors is a "
        "homomorphism"),
    Arm("maps", map_case(), run_map, quick=3000, what="Lie to tensor is the expansion of brackets; tensor to Lie inverts "
        "it and is the right-bracketing projection on every tensor; also between truncation depths"),
]
