"""C04: shuffle product, half-shuffle, the pairing with free tensors, and the adjoint of multiplication."""
from fractions import Fraction
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
from alg import make, CLS
from fw import Arm, Discard
from rpyio import mcoeff, rtensor, t2m, same, scalar, sval, one, ctx_of

RULE = ("cases are generated pairs of shuffle/free tensors (dense, map or pair construction, four coefficient types); "
        "non-trivial when both arguments are non-zero and the truncated result is non-zero")
TOL = {"Q": None, "P": None, "D": 1e-10, "S": 1e-3}
FORMS = ["mul", "mul", "shuffle_multiply", "sf", "ff", "fs", "imul", "imul_self", "add_mul", "sub_mul", "mul_smul",
         "mul_sdiv"]


def half(x, y, depth):
    """x < y : the first letter comes from x"""
    r = {}
    for a, u in x.items():
        if not a:
            continue
        for b, v in y.items():
            if len(a) + len(b) <= depth:
                p = u * v
                for k, n in M.shuffle_words(a[1:], b):
                    k = a[:1] + k
                    r[k] = r.get(k, 0) + p * n
    return M.clean(r)


@st.composite
def sh_case(draw):
    ct = draw(G.ct())
    w, d = draw(G.wd(130 if ct != "P" else 50))
    return {"ct": ct, "w": w, "d": d, "x": draw(G.tensor(ct, w, d, max_size=9)), "y": draw(G.tensor(ct, w, d, max_size=9)),
            "z": draw(G.tensor(ct, w, d, max_size=5)), "s": draw(G.coeff(ct)), "form": draw(st.sampled_from(FORMS))}


def run_sh(c):
    ct, w, d, form = c["ct"], c["w"], c["d"], c["form"]
    kx = "free" if form in ("ff", "fs") else "shuffle"
    ky = "free" if form in ("ff", "sf") else "shuffle"
    x, mx = make(kx, c["x"], w, d, ct)
    y, my = make(ky, c["y"], w, d, ct)
    z, mz = make("shuffle", c["z"], w, d, ct)
    s = mcoeff(c["s"], ct)
    ctr = ct
    if form == "mul_sdiv":
        if not s:
            raise Discard()
        if ct == "P":
            if set(s.t) != {()}:
                raise Discard()
            s, ctr = s.t[()], "Q"
    r = make(kx, c["x"], w, d, ct)[0]
    if form == "mul":
        r, e = x * y, M.shuffle(mx, my, d)
    elif form in ("shuffle_multiply", "sf", "ff", "fs"):
        r, e = rp.shuffle_multiply(x, y), M.shuffle(mx, my, d)
    elif form == "imul":
        r *= y
        e = M.shuffle(mx, my, d)
    elif form == "imul_self":
        r *= r
        e = M.shuffle(mx, mx, d)
    elif form == "add_mul":
        r.add_mul(y, z)
        e = M.add(mx, M.shuffle(my, mz, d))
    elif form == "sub_mul":
        r.sub_mul(y, z)
        e = M.sub(mx, M.shuffle(my, mz, d))
    elif form == "mul_smul":
        r.mul_smul(y, scalar(s, ctr))
        e = M.shuffle(mx, M.smul(my, s), d)
    else:
        r.mul_sdiv(y, scalar(s, ctr))
        e = M.shuffle(mx, M.sdiv(my, s), d)
    same(t2m(r, ct), e, ct, f"shuffle product ({form})", TOL[ct])
    assert type(r) is CLS[kx], f"{type(r)} from a product with a {kx} tensor on the left"
    same(t2m(x, ct), mx, ct, "left operand afterwards")
    same(t2m(y, ct), my, ct, "right operand afterwards")
    if not mx or not my or not e:
        return None
    return [ct, form, "built " + c['x']['st']]


# ---------------------------------------------------------------- half-shuffle, pairing, adjoint

@st.composite
def bil_case(draw):
    ct = draw(G.ct())
    w, d = draw(G.wd(130 if ct != "P" else 50))
    kinds = st.sampled_from(["free", "shuffle"])
    return {"ct": ct, "w": w, "d": d, "x": draw(G.tensor(ct, w, d)), "y": draw(G.tensor(ct, w, d)),
            "kx": draw(kinds), "ky": draw(kinds), "op": draw(st.sampled_from(["half", "adjoint", "pairing"]))}


def run_bil(c):
    ct, w, d, op = c["ct"], c["w"], c["d"], c["op"]
    kx, ky = ("shuffle", "free") if op == "pairing" else (c["kx"], c["ky"])
    x, mx = make(kx, c["x"], w, d, ct)
    y, my = make(ky, c["y"], w, d, ct)
    if op == "half":
        r, e = rp.half_shuffle_multiply(x, y), half(mx, my, d)
    elif op == "adjoint":
        r, e = rp.adjoint_to_free_multiply(x, y), M.adjoint_left_mul(mx, my)
    else:
        r = x @ y
        e = M.pairing(mx, my)
        g = sval(r, ct)
        ok = g == e if ct in "QP" else abs(g - e) <= TOL[ct] * max(1, abs(e))
        assert ok, f"the pairing gives {g} instead of {e}"
    if op != "pairing":
        same(t2m(r, ct), e, ct, op, TOL[ct])
        assert type(r) in (CLS[kx], CLS[ky])
        # the result is a working element of its class
        y2 = CLS["free" if type(r) is rp.FreeTensor else "shuffle"](ctx=r.context)
        v = r + y2
        v += r
        same(t2m(v, ct), M.add(e, e), ct, op + " added to itself", TOL[ct])
    same(t2m(x, ct), mx, ct, "left operand afterwards")
    same(t2m(y, ct), my, ct, "right operand afterwards")
    return [ct, op, kx + "," + ky, "built " + c['x']['st']] if mx and my and e else None


# ---------------------------------------------------------------- laws

@st.composite
def law_case(draw):
    ct = draw(st.sampled_from("QQQP"))
    w, d = draw(G.wd(90 if ct == "Q" else 30))
    ms = 6 if ct == "Q" else 3
    t = G.tensor(ct, w, d, max_size=ms)
    return {"ct": ct, "w": w, "d": d, "x": draw(t), "y": draw(t), "z": draw(t), "m": draw(t)}


def run_law(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    (x, mx), (y, my), (z, mz) = (make("shuffle", c[k], w, d, ct) for k in "xyz")
    m, mm = make("free", c["m"], w, d, ct)
    t, mt = make("free", c["z"], w, d, ct)
    xy = x * y
    assert xy == y * x, "the shuffle product is not commutative"
    assert xy * z == x * (y * z), "the shuffle product is not associative"
    assert x * (y + z) == xy + x * z, "the shuffle product does not distribute"
    o = rtensor({(): one(ct)}, w, d, ct, cls=rp.ShuffleTensor)
    assert o * x == x and x * o == x, "one is not the unit of the shuffle product"
    # splitting by the first letter: x.y = x<y + y<x + x0 y0
    x0, y0 = mx.get((), one(ct) - one(ct)), my.get((), one(ct) - one(ct))
    h = rp.half_shuffle_multiply(x, y) + rp.half_shuffle_multiply(y, x) + rtensor(M.clean({(): x0 * y0}), w, d, ct, cls=rp.ShuffleTensor)
    assert h == xy, "the two half-shuffles do not add up to the shuffle"
    # <adj_m t, u> = <t, m u>
    u = make("free", c["y"], w, d, ct)[0]
    adj = rp.adjoint_to_free_multiply(m, x)
    adj_s = rtensor(t2m(adj, ct), w, d, ct, cls=rp.ShuffleTensor)
    assert sval(adj_s @ u, ct) == sval(x @ (m * u), ct), "the adjoint is not the transpose of left multiplication"
    # the pairing is bilinear
    assert sval((x + y) @ m, ct) == sval(x @ m, ct) + sval(y @ m, ct)
    assert sval(x @ (m + t), ct) == sval(x @ m, ct) + sval(x @ t, ct)
    return [ct] if mx and my and mz and mm else None


ARMS = [
    Arm("shuffle", sh_case(), run_sh, quick=3000, what="every way of shuffling tensors gives the sum over the "
        "interleavings, truncated at the depth"),
    Arm("bilinear", bil_case(), run_bil, quick=3000, what="half-shuffle, adjoint of left multiplication and pairing "
        "against their definitions"),
    Arm("laws", law_case(), run_law, quick=1200, what="commutative, associative, distributive, unital; half-shuffles add "
        "up to the shuffle; the adjoint is the transpose; the pairing is bilinear"),
]
