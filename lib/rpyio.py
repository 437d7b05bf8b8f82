"""Conversions between RoughPy objects, the reference model, and generated cases (through the public Python API)."""
import math
import re
import gc
from fractions import Fraction
import numpy as np
import roughpy as rp
import model as M

DT = {"Q": rp.Rational, "P": rp.RationalPoly, "D": rp.DPReal, "S": rp.SPReal}
_mono_re = re.compile(r"^(.*?)(?:\^(\d+))?$")


def ctx_of(w, d, ct):
    return rp.get_context(w, d, DT[ct])


# ------------------------------------------------------------------ RoughPy -> model

def parse_poly(s):
    """'{ 1/3() -2(x1^2 y3) }' -> model.Poly"""
    s = s.strip()
    assert s[0] == '{' and s[-1] == '}', s
    t = {}
    for m in re.finditer(r"(-?\d+(?:/\d+)?)\(([^)]*)\)", s[1:-1]):
        d = {}
        for p in m.group(2).split():
            v, e = _mono_re.match(p).groups()
            d[v] = d.get(v, 0) + int(e or 1)
        k = M.mono(d)
        t[k] = t.get(k, 0) + Fraction(m.group(1))
    return M.Poly(t)


def sval(s, ct):
    """exact value of an rp.Scalar of coefficient type ct"""
    if ct == "Q":
        return Fraction(str(s))
    if ct == "P":
        q = str(s)
        return parse_poly(q) if '{' in q else M.Poly(Fraction(q))
    return s.to_float()


_ct_cache = {}


def ct_of(x):
    dt = x.dtype
    if dt is np.float64 or dt is np.float32:
        return "D" if dt is np.float64 else "S"
    for k, v in DT.items():
        if v == dt:
            return k
    if dt is float:
        return "D"
    raise AssertionError(f"unknown dtype {dt}")


def t2m(t, ct):
    """FreeTensor / ShuffleTensor -> {word: value} via iteration"""
    r = {}
    for it in t:
        k = tuple(it.key().to_letters())
        assert k not in r, f"duplicate key {k} in iteration"
        r[k] = sval(it.value(), ct)
    return M.clean(r)


def l2m(l, ct):
    """Lie -> {tree: value}"""
    r = {}
    for it in l:
        k = M.parse_tree(str(it.key()).strip("()") if str(it.key()).startswith("(") else str(it.key()))
        assert k not in r, f"duplicate key {k} in iteration"
        r[k] = sval(it.value(), ct)
    return M.clean(r)


# ------------------------------------------------------------------ cases -> model

def mcoeff(c, ct):
    if ct == "P":
        r = M.Poly()
        for num, den, mono in c:
            d = {}
            for letter, idx, e in mono:
                d[f"{letter}{idx}"] = d.get(f"{letter}{idx}", 0) + e
            r = r + M.Poly({M.mono(d): Fraction(num, den)})
        return r
    f = Fraction(c[0], c[1])
    return f if ct in ("Q", "I") else float(f)


def one(ct):
    return {"Q": Fraction(1), "I": Fraction(1), "P": M.Poly(1), "D": 1.0, "S": 1.0}[ct]


def mtensor(case, w, d, ct):
    W = M.word_list(w, d)
    return M.clean({W[i]: mcoeff(c, ct) for i, c in case["e"]})


def mlie(case, w, d, ct):
    H = hall(w, d)
    return M.clean({H[i]: mcoeff(c, ct) for i, c in case["e"]})


_hall = {}


def hall(w, d):
    if (w, d) not in _hall:
        _hall[(w, d)] = M.hall_basis(w, d)
    return _hall[(w, d)]


# ------------------------------------------------------------------ model -> RoughPy

def to_poly(p):
    """model.Poly -> rp.PolynomialScalar"""
    r = rp.PolynomialScalar(0)
    for k, c in p.t.items():
        c = Fraction(c)
        m = rp.PolynomialScalar(c.numerator) if not k else None
        if k:
            mm = None
            for v, e in k:
                x = rp.Monomial(v)
                for _ in range(e):
                    mm = x if mm is None else mm * x
            m = mm * c.numerator
            if not isinstance(m, rp.PolynomialScalar):
                m = m * rp.PolynomialScalar(1)
        if c.denominator != 1:
            m = m / c.denominator
        r = r + m
    return r


def pyval(v, ct):
    """a python value that RoughPy accepts as the coefficient v; None if there is none"""
    if ct == "P":
        return to_poly(v if isinstance(v, M.Poly) else M.Poly(v))
    if ct == "Q":
        f = Fraction(v)
        return f.numerator if f.denominator == 1 else None
    return float(v)


def _common_den(vals, ct):
    if ct != "Q":
        return 1
    den = 1
    for v in vals:
        f = Fraction(v)
        den = math.lcm(den, f.denominator)
    return int(den)


HISTORIES = ("sum", "sumr", "cancel", "msum", "mcancel", "grow", "vsum", "vcancel")


def _grown(cls, pairs, n, storage, key, ctx, ct):
    """the element with an arithmetic history: grown from parts, with a high term that came and went, from nothing"""
    base = {"m": "map", "v": "vs"}.get(storage[0], "dense")

    def mk(p):
        return build(cls, p, n, base, key, ctx, ct)
    if storage == "grow":
        r = cls(ctx=ctx)
        r += mk(pairs)
    elif storage.endswith("cancel"):
        r = mk(pairs)
        t = mk([(n - 1, one(ct))])
        r += t
        r -= t
    else:
        h = len(pairs) // 2
        a, b = pairs[:h], pairs[h:]
        if storage == "sumr":
            a, b = b, a
        r = mk(a)
        r += mk(b)
    return r


def build(cls, pairs, n, storage, key, ctx, ct):
    """An element of cls with the coefficients pairs [(index, value)] of a basis of n elements.
    storage: "dense": a list of the coefficients; "map": a dict from key to coefficient; "sparse": (key, value) pairs;
    "vs", "vd": a dict, in sparse and dense vectors.
    Rationals that are not integers come from dividing an integral element by their common denominator."""
    pairs = [(i, v) for i, v in pairs]
    if storage in HISTORIES:
        return _grown(cls, pairs, n, storage, key, ctx, ct)
    den = _common_den([v for _, v in pairs], ct)
    if den != 1:
        if any(abs(v * den) >= 2 ** 62 for _, v in pairs):
            # integers beyond 64 bits are not accepted from Python: one denominator at a time
            groups = {}
            for i, v in pairs:
                groups.setdefault(Fraction(v).denominator, []).append((i, v))
            r = None
            for g in groups.values():
                t = build(cls, g, n, storage, key, ctx, ct)
                r = t if r is None else r + t
            return r
        pairs = [(i, v * den) for i, v in pairs]
    if not pairs and storage == "vs":
        r = cls(ctx=ctx, vector_type=rp.VectorType.SparseVector)
    elif not pairs and storage in ("vd", "map"):
        r = cls(ctx=ctx, vector_type=rp.VectorType.DenseVector) if storage == "vd" else cls(ctx=ctx)    # no data at all
    elif storage == "dense" or not pairs:
        top = max((i for i, _ in pairs), default=0)
        vals = [pyval(M.Poly() if ct == "P" else 0, ct)] * (top + 1)
        for i, v in pairs:
            vals[i] = pyval(v, ct)
        r = cls(vals, ctx=ctx)
    elif storage == "map":
        r = cls({key(i): pyval(v, ct) for i, v in pairs}, ctx=ctx)
    elif storage in ("vs", "vd"):
        r = cls({key(i): pyval(v, ct) for i, v in pairs}, ctx=ctx,
                vector_type=rp.VectorType.SparseVector if storage == "vs" else rp.VectorType.DenseVector)
    else:
        r = cls([(key(i), pyval(v, ct)) for i, v in pairs], ctx=ctx)
    return r if den == 1 else r / den


def tkey(word, w, d):
    return rp.TensorKey(*word, width=w, depth=d)


def tree_list(t):
    return t if isinstance(t, int) else [tree_list(t[0]), tree_list(t[1])]


def lkey(tree, w, d):
    return rp.LieKey(tree_list(tree), width=w, depth=d)


def rtensor(m, w, d, ct, storage="dense", cls=None, ctx=None):
    cls = cls or rp.FreeTensor
    ix = M.word_index(w, d)
    W = M.word_list(w, d)
    return build(cls, sorted((ix[k], v) for k, v in m.items()) if ct != "P" else
                 sorted(((ix[k], v) for k, v in m.items()), key=lambda t: t[0]), len(W), storage,
                 lambda i: tkey(W[i], w, d), ctx or ctx_of(w, d, ct), ct)


def rlie(m, w, d, ct, storage="dense", ctx=None):
    H = hall(w, d)
    ix = {t: i for i, t in enumerate(H)}
    return build(rp.Lie, sorted(((ix[k], v) for k, v in m.items()), key=lambda t: t[0]), len(H), storage,
                 lambda i: i, ctx or ctx_of(w, d, ct), ct)


# ------------------------------------------------------------------ comparison

def same(got, exp, ct, what="", tol=None, scale=1.0):
    """got, exp: {basis element: value}.  Exact for exact coefficients, and where the caller knows that the floating
    point computation is exact; otherwise within tol (absolute and relative), where scale is the size of the numbers the
    result was computed from."""
    if ct in ("Q", "P") or tol is None:
        bad = {k: (str(got.get(k, 0)), str(exp.get(k, 0))) for k in set(got) | set(exp)
               if not got.get(k, 0) == exp.get(k, 0)}
    else:
        bad = {k: (got.get(k, 0.0), exp.get(k, 0.0)) for k in set(got) | set(exp)
               if not abs(got.get(k, 0.0) - float(exp.get(k, 0.0))) <= tol * max(scale, abs(float(exp.get(k, 0.0))))}
    if bad:
        items = sorted(bad.items(), key=lambda t: str(t[0]))[:8]
        raise AssertionError(f"{what}: {len(bad)} coefficients differ; got, expected: " +
                             "; ".join(f"{k}: {a} instead of {b}" for k, (a, b) in items))


TOL = {"D": 1e-9, "S": 2e-3, "Q": None, "P": None}


def scalar(v, ct, w=1, d=1):
    """an rp.Scalar with value v"""
    m = {(): v}
    return rtensor(m, 1, 1, ct)[0] if ct != "Q" or v else rtensor({(): Fraction(0)}, 1, 1, ct)[0]
