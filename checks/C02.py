"""C02: the product of free tensors is concatenation of words, truncated at the depth."""
from fractions import Fraction
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
from alg import make
from fw import Arm, Discard
from rpyio import mcoeff, rtensor, t2m, same, scalar, one, ctx_of

RULE = ("cases are generated pairs/triples of free tensors (dense, map or pair construction; rational, polynomial, "
        "double and float coefficients; widths 1..6, depths 1..6; some long dense operands that reach the tiled "
        "kernel) with a way of forming the product; non-trivial when both factors have a non-zero coefficient and "
        "the truncated product is non-zero")

TOL = {"Q": None, "P": None, "D": 1e-11, "S": 3e-4}
FORMS = ["mul", "mul", "free_multiply", "imul", "imul_self", "self", "add_mul", "sub_mul", "mul_smul", "mul_sdiv",
         "add_mul_a1", "add_mul_a2", "add_mul_a3", "mul_smul_self", "mixed_free_multiply"]


@st.composite
def mul_case(draw):
    ct = draw(G.ct())
    w, d = draw(G.wd(160 if ct != "P" else 60))
    return {"ct": ct, "w": w, "d": d, "x": draw(G.tensor(ct, w, d)), "y": draw(G.tensor(ct, w, d)),
            "z": draw(G.tensor(ct, w, d, max_size=5)), "s": draw(G.coeff(ct)), "form": draw(st.sampled_from(FORMS))}


@st.composite
def tiled_case(draw):
    # big enough for every code path of the dense product (many words per degree, odd widths)
    ct = draw(st.sampled_from("DDQS"))
    w, d = draw(st.sampled_from([(2, 7), (2, 8), (2, 9), (3, 5), (3, 6), (4, 4), (4, 5), (5, 4), (5, 5), (6, 4), (7, 3),
                                 (8, 3), (9, 3), (10, 3), (3, 7), (17, 2), (2, 10)] if ct != "Q" else
                                [(2, 7), (3, 5), (4, 4), (5, 3), (6, 3), (9, 2), (2, 8)]))
    return {"ct": ct, "w": w, "d": d, "sx": draw(st.integers(0, 2 ** 31)), "sy": draw(st.integers(0, 2 ** 31)),
            "px": draw(st.sampled_from([1, 0.5, 0.02])), "py": draw(st.sampled_from([1, 0.5, 0.02])),
            "lx": draw(st.integers(0, d)), "ly": draw(st.integers(0, d)),
            "hx": draw(st.integers(0, d)), "hy": draw(st.integers(0, d)),
            "form": draw(st.sampled_from(["mul", "imul", "add_mul", "mul_smul"]))}


def seeded(w, d, ct, seed, p, lo, hi):
    """a tensor with pseudo-random small dyadic coefficients on the degrees lo..hi"""
    import random
    r = random.Random(seed)
    conv = Fraction if ct == "Q" else float
    lo, hi = min(lo, hi), max(lo, hi)
    m = {}
    for k in M.word_list(w, d):
        if lo <= len(k) <= hi and r.random() < p:
            v = r.randint(-4, 4)
            if v:
                m[k] = conv(v)
    return m


def product(x, y, z, s, rs, mx, my, mz, d, form, rebuild):
    """(result, expected, extra identities)"""
    if form == "mul":
        return x * y, M.mul(mx, my, d)
    if form in ("free_multiply", "mixed_free_multiply"):
        return rp.free_multiply(x, y), M.mul(mx, my, d)
    if form == "self":
        return x * x, M.mul(mx, mx, d)
    r = rebuild()
    if form == "imul":
        r *= y
        return r, M.mul(mx, my, d)
    if form == "imul_self":
        r *= r
        return r, M.mul(mx, mx, d)
    if form == "add_mul":
        r.add_mul(y, z)
        return r, M.add(mx, M.mul(my, mz, d))
    if form == "sub_mul":
        r.sub_mul(y, z)
        return r, M.sub(mx, M.mul(my, mz, d))
    if form == "add_mul_a1":
        r.add_mul(r, y)
        return r, M.add(mx, M.mul(mx, my, d))
    if form == "add_mul_a2":
        r.add_mul(y, r)
        return r, M.add(mx, M.mul(my, mx, d))
    if form == "add_mul_a3":
        r.add_mul(r, r)
        return r, M.add(mx, M.mul(mx, mx, d))
    if form == "mul_smul":
        r.mul_smul(y, rs)
        return r, M.mul(mx, M.smul(my, s), d)
    if form == "mul_smul_self":
        r.mul_smul(r, rs)
        return r, M.mul(mx, M.smul(mx, s), d)
    if form == "mul_sdiv":
        r.mul_sdiv(y, rs)
        return r, M.mul(mx, M.sdiv(my, s), d)
    raise AssertionError(form)


def run_mul(c):
    ct, w, d, form = c["ct"], c["w"], c["d"], c["form"]
    x, mx = make("free", c["x"], w, d, ct)
    y, my = make("free" if form != "mixed_free_multiply" else "shuffle", c["y"], w, d, ct)
    z, mz = make("free", c["z"], w, d, ct)
    s = mcoeff(c["s"], ct)
    if form == "mul_sdiv":
        if not s:
            raise Discard()
        if ct == "P":
            if set(s.t) != {()}:
                raise Discard()
            s = s.t[()]
    rs = scalar(s, "Q" if form == "mul_sdiv" and ct == "P" else ct)
    r, e = product(x, y, z, s, rs, mx, my, mz, d, form, lambda: make("free", c["x"], w, d, ct)[0])
    same(t2m(r, ct), e, ct, f"free product ({form})", TOL[ct])
    assert isinstance(r, rp.FreeTensor) and r.width == w and r.max_degree == d
    same(t2m(x, ct), mx, ct, "left operand afterwards")
    same(t2m(y, ct), my, ct, "right operand afterwards")
    same(t2m(z, ct), mz, ct, "third operand afterwards")
    if not mx or not e or (form not in ("self", "imul_self", "add_mul_a3", "mul_smul_self") and not my):
        return None
    return [ct, form, "built " + c['x']['st'], "by " + c['y']['st']]


def run_tiled(c):
    ct, w, d, form = c["ct"], c["w"], c["d"], c["form"]
    mx = seeded(w, d, ct, c["sx"], c["px"], c["lx"], c["hx"])
    my = seeded(w, d, ct, c["sy"], c["py"], c["ly"], c["hy"])
    x, y = rtensor(mx, w, d, ct), rtensor(my, w, d, ct)
    s = Fraction(3) if ct == "Q" else 0.5
    r, e = product(x, y, y, s, scalar(s, ct), mx, my, my, d, form, lambda: rtensor(mx, w, d, ct))
    same(t2m(r, ct), e, ct, f"dense product ({form})", TOL[ct])
    same(t2m(x, ct), mx, ct, "left operand afterwards")
    same(t2m(y, ct), my, ct, "right operand afterwards")
    return [f"{ct} {w},{d}", form] if mx and my and e else None


# ---------------------------------------------------------------- ring laws on the implementation alone

@st.composite
def law_case(draw):
    ct = draw(st.sampled_from("QQQP"))
    w, d = draw(G.wd(110 if ct == "Q" else 35))
    ms = 8 if ct == "Q" else 4
    return {"ct": ct, "w": w, "d": d, "x": draw(G.tensor(ct, w, d, max_size=ms)), "y": draw(G.tensor(ct, w, d, max_size=ms)),
            "z": draw(G.tensor(ct, w, d, max_size=ms))}


def run_law(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    x, mx = make("free", c["x"], w, d, ct)
    y, my = make("free", c["y"], w, d, ct)
    z, mz = make("free", c["z"], w, d, ct)
    xy = x * y
    assert xy * z == x * (y * z), "the product is not associative"
    assert x * (y + z) == xy + x * z, "the product does not distribute over the sum on the right"
    assert (x + y) * z == x * z + y * z, "the product does not distribute over the sum on the left"
    o = rtensor({(): one(ct)}, w, d, ct)
    assert o * x == x and x * o == x, "one is not the unit of the product"
    assert (x * rtensor({}, w, d, ct)).is_zero(), "zero times a tensor is not zero"
    return [ct] if mx and my and mz and M.mul(mx, my, d) else None


ARMS = [
    Arm("mul", mul_case(), run_mul, quick=4000, what="every way of multiplying free tensors gives the truncated "
        "concatenation product, including when an operand is the target"),
    Arm("tiled", tiled_case(), run_tiled, quick=260, what="products of large dense tensors of every shape agree with "
        "the concatenation product"),
    Arm("laws", law_case(), run_law, quick=1500, what="associativity, distributivity, unit, zero, exactly"),
]
