"""C06: Campbell-Baker-Hausdorff products, log-signatures and signatures of rows of increments."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
import gens as G
import longs as L
import model as M
import roughpy as rp
from fw import Arm, Discard
from rpyio import mlie, rlie, rtensor, mtensor, t2m, l2m, same, ctx_of, one, hall, pyval

RULE = ("cases are generated lists of Lie elements, rows of increments and tensors (widths 1..6, depths 1..7, mixed "
        "storages, depths and coefficient types); non-trivial when at least two of the elements are non-zero and they "
        "do not commute, or for a log-signature the tensor has two non-zero coefficients beyond the constant")
TOL = {"Q": None, "P": None, "D": 1e-9, "S": 3e-3}
DIM = {"Q": 160, "P": 40, "D": 260, "S": 130}
VT = {"dense": rp.VectorType.DenseVector, "sparse": rp.VectorType.SparseVector}


def wds(ct):
    return G.wd(DIM[ct], dmax=7)


def scale(m, ct):
    return {k: v / 4 for k, v in m.items()} if ct in "DS" else m


@st.composite
def cbh_case(draw):
    ct = draw(G.ct())
    w, d = draw(wds(ct))
    n = draw(st.integers(0, 4 if ct != "P" else 3))
    dl = [draw(st.sampled_from([d, d, d, max(1, d - 1), d + 1])) for _ in range(n)]
    dl = [x if M.tensor_dim(w, x) <= 700 else d for x in dl]
    return {"ct": ct, "w": w, "d": d, "dl": dl, "vt": draw(st.sampled_from(["none", "dense", "sparse"])),
            "x": [draw(G.lie(ct, w, dl[i], max_size=4)) for i in range(n)],
            "alias": draw(st.integers(-1, 3)), "kind": draw(st.sampled_from(["list", "list", "tuple"]))}


def trunc_lie(m, d):
    return {k: v for k, v in m.items() if M.tree_degree(k) <= d}


def run_cbh(c, tol=None, scale_=1.0):
    ct, w, d = c["ct"], c["w"], c["d"]
    ctx = ctx_of(w, d, ct)
    ms, xs = [], []
    for x, dl in zip(c["x"], c["dl"]):
        m = scale(mlie(x, w, dl, ct), ct)
        ms.append(m)
        xs.append(rlie(m, w, dl, ct, x["st"]))
    if 0 <= c["alias"] < len(xs):
        xs.append(xs[c["alias"]])           # the same object twice
        ms.append(ms[c["alias"]])
    arg = xs if c["kind"] == "list" else tuple(xs)
    r = ctx.cbh(arg) if c["vt"] == "none" else ctx.cbh(arg, VT[c["vt"]])
    e = M.bch([M.lie_expand(trunc_lie(m, d)) for m in ms], d, one(ct))
    same(M.lie_expand(l2m(r, ct)), e, ct, "Campbell-Baker-Hausdorff product", tol or TOL[ct], scale_)
    assert r.width == w and r.max_degree == d
    if c["vt"] != "none":
        assert r.storage_type() == VT[c["vt"]] if callable(r.storage_type) else r.storage_type == VT[c["vt"]], \
            f"storage {r.storage_type}"
    for x, m in zip(xs, ms):
        same(l2m(x, ct), m, ct, "argument afterwards")
    s = {}
    for m in ms:
        s = M.add(s, M.lie_expand(trunc_lie(m, d)))
    far = any(abs(e.get(k, 0) - s.get(k, 0)) > 1e-6 for k in set(e) | set(s)) if ct in "DS" else e != s
    return [ct, f"{len(xs)} elements", c["vt"], "mixed depth" if set(c["dl"]) - {d} else "one depth"] if far else None


@st.composite
def many_case(draw):
    return {"n": draw(st.one_of(st.integers(5, 40), st.integers(60, 140), st.integers(200, 300))), "seed": draw(L.SEED), "ct": draw(st.sampled_from("DDQ")), "w": draw(st.integers(2, 3)), "d": draw(st.integers(2, 3)),
            "vt": draw(st.sampled_from(["none", "dense", "sparse"])), "kind": draw(st.sampled_from(["list", "tuple"]))}


def run_many(c):
    """products of many elements"""
    R = L.rng(c)
    n = c["n"] if c["d"] == 2 else min(c["n"], 60)
    x = [{"e": [[i, [R.randrange(-3, 4), 1]] for i in range(M.lie_dim(c["w"], c["d"])) if R.random() < 0.5], "st": R.choice(["dense", "map", "vs"])} for _ in range(n)]
    t = run_cbh({**c, "x": x, "dl": [c["d"]] * n, "alias": -1}, None if c["ct"] == "Q" else 1e-13, float(4 * n) ** c["d"])
    return t and [c["ct"], f"{10 ** (len(str(n)) - 1)}+ elements"]


# ---------------------------------------------------------------- laws

@st.composite
def law_case(draw):
    ct = draw(st.sampled_from("QQQP"))
    w, d = draw(G.wd(110 if ct == "Q" else 30, dmax=6))
    k = G.lie(ct, w, d, max_size=4)
    return {"ct": ct, "w": w, "d": d, "x": draw(k), "y": draw(k), "z": draw(k), "k": draw(st.integers(1, d))}


def run_law(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    ctx = ctx_of(w, d, ct)
    x, y, z = (rlie(mlie(c[k], w, d, ct), w, d, ct, c[k]["st"]) for k in "xyz")
    L = lambda v: l2m(v, ct)
    assert L(ctx.cbh([])) == {} and L(ctx.cbh([x])) == L(x), "product of none or one element"
    assert L(ctx.cbh([x, -x])) == {}, "the negative is not the inverse"
    xyz = L(ctx.cbh([x, y, z]))
    assert L(ctx.cbh([ctx.cbh([x, y]), z])) == xyz and L(ctx.cbh([x, ctx.cbh([y, z])])) == xyz, "not associative"
    assert L(ctx.cbh([-z, -y, -x])) == {k: -v for k, v in xyz.items()}, "the inverse of a product is not the reversed product"
    # the truncation is a homomorphism
    low = ctx_of(w, c["k"], ct)
    assert L(low.cbh([x, y, z])) == trunc_lie(xyz, c["k"]), "a product at a smaller depth is not the truncated product"
    # signatures: exp of the log-signature
    g = ctx.lie_to_tensor(x).exp() * ctx.lie_to_tensor(y).exp()
    assert L(ctx.to_logsignature(g)) == L(ctx.cbh([x, y])), "log-signature of a product of exponentials"
    return [ct] if L(x * y) and L(z) else None


# ---------------------------------------------------------------- log-signature of any tensor

@st.composite
def log_case(draw):
    ct = draw(G.ct())
    w, d = draw(wds(ct))
    return {"ct": ct, "w": w, "d": d, "t": draw(G.tensor(ct, w, d, max_size=6)), "cd": draw(st.sampled_from([0, 0, 0, -1, 1]))}


def run_log(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    m = scale(mtensor(c["t"], w, d, ct), ct)
    m[()] = one(ct)
    t = rtensor(m, w, d, ct, c["t"]["st"])
    d2 = max(1, d + c["cd"])
    if M.tensor_dim(w, d2) > 500:
        d2 = d
    r = ctx_of(w, d2, ct).to_logsignature(t)
    lg = M.truncate(M.log(m, d), d2)
    if ct in "DS":
        e = {k: float(v) for k, v in M.dynkin({k: Fraction(v) for k, v in lg.items()}).items()}
    else:
        e = M.dynkin(lg)
    same(M.lie_expand(l2m(r, ct)), e, ct, "log-signature", TOL[ct])
    assert r.max_degree == d2 and r.width == w
    same(t2m(t, ct), m, ct, "argument afterwards")
    return [ct, c["t"]["st"]] if len(m) > 2 else None


# ---------------------------------------------------------------- signatures of rows

@st.composite
def sig_case(draw):
    ct = draw(st.sampled_from("QQDDSP"))
    w, d = draw(wds(ct))
    form = draw(st.sampled_from(["array", "array", "lies", "lists", "fortran", "strided", "dicts"]))
    n = draw(st.integers(1, 5 if ct != "P" else 3))
    if form == "lies":
        rows = [draw(G.lie(ct, w, d, max_size=4)) for _ in range(n)]
    else:
        c = G.int_coeff() if ct in "QP" or form == "lists" else G.f_coeff()
        # rows longer than the width give the coefficients of brackets as well
        k = draw(st.sampled_from([w, w, w, min(M.lie_dim(w, d), w + 1), min(M.lie_dim(w, d), 9)]))
        rows = [draw(st.lists(c, min_size=k, max_size=k)) for _ in range(n)]
    return {"ct": ct, "w": w, "d": d, "form": form, "rows": rows, "vt": draw(st.sampled_from(["none", "dense", "sparse"]))}


def run_sig(c):
    ct, w, d, form = c["ct"], c["w"], c["d"], c["form"]
    ctx = ctx_of(w, d, ct)
    H = hall(w, d)
    if form == "lies":
        ms = [scale(mlie(x, w, d, ct), ct) for x in c["rows"]]
        data = [rlie(m, w, d, ct, x["st"]) for m, x in zip(ms, c["rows"])]
    else:
        sc = 4 if ct in "DS" and form != "lists" else 1
        vals = [[Fraction(*v) / sc for v in row] for row in c["rows"]]
        conv = {"D": float, "S": float, "Q": Fraction, "P": lambda v: M.Poly({(): v}) if v else M.Poly()}[ct]
        ms = [M.clean({H[i]: conv(v) for i, v in enumerate(row)}) for row in vals]
        if form == "dicts":
            data = [{i: pyval(v if ct != "P" else M.Poly({(): v}) if v else M.Poly(), ct) for i, v in enumerate(row)}
                    for row in vals]
        elif form == "lists":
            data = [[float(v) for v in row] for row in vals]
        else:
            a = np.array([[float(v) for v in row] for row in vals], dtype=np.float32 if ct == "S" else np.float64)
            if form == "fortran":
                a = np.asfortranarray(a)
            elif form == "strided":
                b = np.full((2 * a.shape[0], 3 * a.shape[1]), 9.5, dtype=a.dtype)
                b[::2, ::3] = a
                a = b[::2, ::3]
            data = a
    r = ctx.compute_signature(data) if c["vt"] == "none" else ctx.compute_signature(data, VT[c["vt"]])
    e = {(): one(ct)}
    for m in ms:
        e = M.mul(e, M.exp(M.lie_expand(m), d, one(ct)), d)
    same(t2m(r, ct), e, ct, f"signature of rows given as {form}", TOL[ct])
    assert r.width == w and r.max_degree == d
    if form not in ("lies", "lists", "dicts"):
        assert [[float(v) for v in row] for row in data] == [[float(v) for v in row] for row in vals], "data afterwards"
    return [ct, form, c["vt"]] if sum(1 for m in ms if m) >= 2 and d >= 2 else None


ARMS = [
    Arm("many", many_case(), run_many, quick=120, thorough=5000, what="the same for products of up to 300 elements"),
    Arm("cbh", cbh_case(), run_cbh, quick=2500, what="the product of Lie elements under the Campbell-Baker-Hausdorff "
        "formula is the log of the product of their exponentials, for any storage, depth and result type"),
    Arm("laws", law_case(), run_law, quick=900, what="associativity, inverses, truncation, agreement with log-signatures"),
    Arm("logsig", log_case(), run_log, quick=1500, what="to_logsignature projects the log series on the Lie elements"),
    Arm("sig", sig_case(), run_sig, quick=2500, what="compute_signature is the product of the exponentials of the rows"),
]
