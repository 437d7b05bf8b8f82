"""C11: the same data gives the same vector and the same stream, however it is presented and whatever happens to it later."""
import array
import gc
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
import roughpy as rp
import model as M
import rpyio as R
from fw import Arm, Discard

RULE = ("cases are values, a presentation of them (lists, arrays of all item types and memory layouts, buffers, dicts, pairs, "
        "scalars, nested forms) and a type; non-trivial when the memory is not one contiguous run of the target type")

ITEMS = {"f8": 53, "f4": 24, "i8": 63, "i4": 31, "i2": 15, "i1": 7, "u8": 64, "u4": 32, "u2": 16, "u1": 8}
CODE = {"f8": "d", "f4": "f", "i8": "q", "i4": "i", "i2": "h", "i1": "b", "u8": "Q", "u4": "I", "u2": "H", "u1": "B"}
LAYOUT1 = ["C", "C", "step", "rev", "offset", "column", "columns8", "zerostep"]
LAYOUT2 = ["C", "C", "F", "F", "rows", "cols", "rowscols", "rev", "revcols", "T", "offset", "block", "bytes"]
DTYPES = [None, None, "S", "D", "Q", "P"]
NAMES = {"S": ["rp", "name", "id", "np"], "D": ["rp", "name", "id", "np", "py"], "Q": ["rp", "name"], "P": ["rp", "name"]}


def values(item):
    """integers, or fractions with denominator 4 where the item type has them; small or close to the ends"""
    b = ITEMS[item]
    lo = 0 if item[0] == "u" else -1
    if item[0] == "f":
        return st.one_of(st.integers(-40, 40), st.integers(-2 ** (b - 1), 2 ** (b - 1))).map(lambda n: [n, 4])
    ends = st.integers(lo * 2 ** b if item[0] == "i" else 0, 2 ** b - 1)
    return st.one_of(st.integers(lo * 40, 40), ends).map(lambda n: [n, 1])


def val(v):
    return F(v[0], v[1])


def as_type(v, ct):
    """the value v as a coefficient of type ct"""
    if ct == "S":
        return float(np.float32(float(v)) if v.denominator != 1 else np.float32(int(v)))
    return float(v) if ct == "D" else M.Poly(v) if ct == "P" else v


def close(g, e, ct):
    if ct == "S":
        return abs(g - e) <= 2.0 ** -22 * max(1.0, abs(e))
    return g == e


def deduced(item):
    return "S" if item == "f4" else "D"


def dtype_arg(ct, how):
    if how == "rp":
        return R.DT[ct]
    if how == "name":
        return {"S": "SPReal", "D": "DPReal", "Q": "Rational", "P": "RationalPoly"}[ct]
    if how == "id":
        return {"S": "f32", "D": "f64"}[ct]
    if how == "np":
        return {"S": np.float32, "D": np.dtype("f8")}[ct]
    return float


def lay1(vs, item, layout):
    n = len(vs)
    a = np.array([int(v) if item[0] != "f" else float(v) for v in vs], dtype=item).reshape(n)
    junk = 77
    if layout == "C":
        return a.copy()
    if layout == "step":
        b = np.full(2 * n + 1, junk, dtype=item)
        b[1::2][:n] = a
        return b[1::2][:n]
    if layout == "rev":
        return a[::-1].copy()[::-1]
    if layout == "offset":
        b = np.full(n + 5, junk, dtype=item)
        b[3:3 + n] = a
        return b[3:3 + n]
    if layout == "column":
        b = np.full((n, 3), junk, dtype=item)
        b[:, 1] = a
        return b[:, 1]
    if layout == "columns8":
        b = np.full((n, np.dtype(item).itemsize), junk, dtype=item)
        b[:, -1] = a
        return b[:, -1]
    if n == 0:
        return a
    b = np.full(1, a[0], dtype=item)                      # all the same value, through a stride of zero
    return np.lib.stride_tricks.as_strided(b, (n,), (0,), writeable=True)


def lay2(rows, item, layout):
    n, m = len(rows), len(rows[0]) if rows else 0
    a = np.array([[int(v) if item[0] != "f" else float(v) for v in r] for r in rows], dtype=item).reshape(n, m)
    junk = 77
    if layout == "C":
        return a.copy()
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "T":
        return np.ascontiguousarray(a.T).T
    if layout == "rev":
        return a[::-1].copy()[::-1]
    if layout == "revcols":
        return a[:, ::-1].copy()[:, ::-1]
    rs = {"rows": (2, 1, 0, 0), "cols": (1, 2, 0, 1), "rowscols": (2, 3, 1, 1), "offset": (1, 1, 2, 0), "block": (1, 1, 1, 2),
          "bytes": (1, np.dtype(item).itemsize, 0, 0)}[layout]
    b = np.full((n * rs[0] + 3, m * rs[1] + (0 if layout in ("rows", "offset") else 3)), junk, dtype=item)
    v = b[rs[2]::rs[0], rs[3]::rs[1]][:n, :m]
    v[...] = a
    return v


# ------------------------------------------------------------------------------------------------ vectors

FORMS = ["numpy", "numpy", "numpy", "memoryview", "memoryview", "array", "list", "tuple", "range", "scalars", "dict", "pairs",
         "kdict", "kpairs", "mixed", "bytes", "0d", "number"]


@st.composite
def vec_case(draw):
    kind = draw(st.sampled_from(["T", "T", "L", "S"]))
    w, d = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (4, 1), (1, 4), (2, 4), (3, 3)]))
    n = M.lie_dim(w, d) if kind == "L" else M.tensor_dim(w, d)
    item = draw(st.sampled_from(sorted(ITEMS)))
    form = draw(st.sampled_from(FORMS))
    if form == "bytes":
        item = "u1"
    elif form in ("scalars", "kdict", "kpairs", "dict", "pairs", "mixed", "list", "tuple", "number"):
        item = draw(st.sampled_from(["f8", "i8", "i2"]))
    k = draw(st.integers(0, n))
    vs = draw(st.lists(values(item), min_size=k, max_size=k))
    ct = draw(st.sampled_from(DTYPES))
    return {"kind": kind, "w": w, "d": d, "item": item, "form": form, "v": vs, "dt": ct,
            "name": draw(st.sampled_from(NAMES[ct])) if ct else None, "lay": draw(st.sampled_from(LAYOUT1)),
            "vt": draw(st.sampled_from([None, None, "dense", "sparse"])), "ctx": draw(st.booleans()),
            "perm": draw(st.integers(0, 50)), "drop": draw(st.integers(0, 3)), "sct": draw(st.sampled_from("SDQ"))}


def scalar_of(v, sct):
    return R.scalar(v if sct == "Q" else float(v), sct)


def present(c):
    """(presentation, values it has, function that spoils the memory behind it)"""
    vs, item, form = [val(v) for v in c["v"]], c["item"], c["form"]
    n = len(vs)
    py = [int(v) if item[0] != "f" else float(v) for v in vs]

    def nothing():
        pass
    if form in ("numpy", "memoryview"):
        a = lay1(vs, item, c["lay"])
        if c["lay"] == "zerostep" and n:
            vs = [vs[0]] * n

        def spoil():
            a[...] = 99
        return (a if form == "numpy" else memoryview(a)), vs, spoil
    if form == "0d":
        if not n:
            raise Discard()
        a = np.array(py[0], dtype=item)

        def spoil():
            a[...] = 99
        return a, vs[:1], spoil
    if form == "array":
        a = array.array(CODE[item], py)

        def spoil():
            for i in range(n):
                a[i] = 99
        return a, vs, spoil
    if form == "bytes":
        a = bytearray(int(v) for v in vs)

        def spoil():
            a[:] = b"c" * n
        return (a if c["perm"] % 2 else bytes(a)), vs, spoil
    if not n:
        raise Discard()
    if form == "number":
        if c["kind"] == "L":
            raise Discard()                     # a number is a multiple of the unit of tensors
        return py[0], vs[:1], nothing
    if form == "range":
        lo, step = int(vs[0]) % 50 - 20, c["perm"] % 5 - 2 or 3
        r = range(lo, lo + step * n, step)
        return r, [F(x) for x in r], nothing
    if form == "tuple":
        if n == 2:
            raise Discard()                     # a pair (key, value)
        return tuple(py), vs, nothing
    if form == "scalars":
        return [scalar_of(v, c["sct"]) for v in vs], [F(float(np.float32(float(v)))) if c["sct"] == "S" else F(float(v)) if c["sct"] == "D"
                                                      else v for v in vs], nothing
    if form == "mixed":
        return [int(v) if v.denominator == 1 and i % 2 else float(v) for i, v in enumerate(vs)], \
            [v if v.denominator == 1 and i % 2 else F(float(v)) for i, v in enumerate(vs)], nothing
    if form in ("dict", "pairs", "kdict", "kpairs"):
        idx = list(range(n))
        idx = [i for i in idx if not c["drop"] or i % (c["drop"] + 1)] or [0]
        p = c["perm"] % len(idx)
        idx = idx[p:] + idx[:p]
        if form[0] == "k" and c["kind"] != "L":     # Lie elements are not made from LieKeys
            W = M.word_list(c["w"], c["d"])
            keys = {i: R.tkey(W[i], c["w"], c["d"]) for i in idx}
        else:
            keys = {i: i for i in idx}
        vals = [vs[i] if i in idx else F(0) for i in range(n)]
        if form.endswith("dict"):
            return {keys[i]: py[i] for i in idx}, vals, nothing
        if len(idx) == 1 and c["perm"] % 2:
            return (keys[idx[0]], py[idx[0]]), vals, nothing
        return [(keys[i], py[i]) for i in idx], vals, nothing
    if item[0] == "f":
        return list(py), vs, nothing
    return list(py), vs, nothing


def coeffs(x, kind, w, d, ct):
    if kind == "L":
        got, keys = R.l2m(x, ct), R.hall(w, d)
    else:
        got, keys = R.t2m(x, ct), M.word_list(w, d)
    zero = M.Poly() if ct == "P" else F(0) if ct == "Q" else 0.0
    return [got.get(k, zero) for k in keys]


def run_vec(c):
    kind, w, d = c["kind"], c["w"], c["d"]
    cls = {"T": rp.FreeTensor, "L": rp.Lie, "S": rp.ShuffleTensor}[kind]
    data, vs, spoil = present(c)
    before = repr(data) if not isinstance(data, memoryview) else data.tolist()
    kw = {}
    ct = c["dt"]
    if c["ctx"] and ct:
        kw["ctx"] = R.ctx_of(w, d, ct)
    else:
        kw.update(width=w, depth=d)
        if ct:
            kw["dtype"] = dtype_arg(ct, c["name"])
    if c["vt"]:
        kw["vector_type"] = rp.VectorType.DenseVector if c["vt"] == "dense" else rp.VectorType.SparseVector
    x = cls(data, **kw)
    assert (repr(data) if not isinstance(data, memoryview) else data.tolist()) == before, "the data changed"
    if ct is None:
        ct = R.ct_of(x)
        if c["form"] in ("numpy", "memoryview", "array", "0d"):
            assert ct == deduced(c["item"]), f"{c['item']} data gives {x.dtype}"
        elif c["form"] == "scalars":
            assert ct == c["sct"], f"scalars of type {c['sct']} give {x.dtype}"
        elif c["form"] in ("list", "tuple", "range", "bytes", "number"):
            assert ct == "D", f"{c['form']} of {c['item']} gives {x.dtype}"
    assert R.ct_of(x) == ct, f"type {x.dtype}, not {ct}"
    if c["vt"]:
        assert x.storage_type == kw["vector_type"], f"storage {x.storage_type} for {c['vt']}"
    n = M.lie_dim(w, d) if kind == "L" else M.tensor_dim(w, d)
    exp = [as_type(v, ct) for v in vs] + [as_type(F(0), ct)] * (n - len(vs))
    if ct in "QP" and c["form"] in ("list", "mixed", "dict", "pairs", "tuple", "number") and any(abs(v) >= 2 ** 62 for v in vs):
        raise Discard()
    for when in ("", " after the memory of the data was used for something else"):
        got = coeffs(x, kind, w, d, ct)
        for i, (g, e) in enumerate(zip(got, exp)):
            assert close(g, e, ct), f"coefficient {i} is {g}, the data has {e}{when}: {got} != {exp}"
        spoil()
        del data
        gc.collect()
        data = None
    tags = [c["form"], ct]
    if c["form"] in ("numpy", "memoryview"):
        tags += [c["item"], c["lay"]]
    return tags if len(vs) > 0 and (c["form"] not in ("numpy", "list") or c["lay"] != "C" or ct != deduced(c["item"])) else None


# ------------------------------------------------------------------------------------------------ increments

SFORMS = ["numpy", "numpy", "numpy", "memoryview", "memoryview", "list", "mixed", "mixed", "dicttime", "pairtime"]
ROWS = ["list", "tuple", "numpy", "array", "memoryview", "dict", "pairs", "lie", "lie_sparse", "lie_other"]
IFORMS = ["none", "none", "f8", "f4", "i8", "i4", "i2", "f8step", "f4rev", "i4col", "list", "ints", "tuple", "range", "array", "memoryview",
          "column", "column"]


@st.composite
def inc_case(draw):
    w, d = draw(st.sampled_from([(2, 2), (3, 1), (3, 2), (1, 3), (4, 2)]))
    item = draw(st.sampled_from(sorted(ITEMS)))
    form = draw(st.sampled_from(SFORMS))
    if form in ("list", "mixed", "dicttime", "pairtime"):
        item = draw(st.sampled_from(["f8", "i2"]))
    n = draw(st.integers(1, 5))
    rows = draw(st.lists(st.lists(st.integers(0 if item[0] == "u" else -9, 9), min_size=w, max_size=w), min_size=n, max_size=n))
    ct = draw(st.sampled_from(DTYPES))
    return {"w": w, "d": d, "item": item, "form": form, "rows": rows, "dt": ct, "lay": draw(st.sampled_from(LAYOUT2)),
            "name": draw(st.sampled_from(NAMES[ct])) if ct else None, "lay1": draw(st.sampled_from(LAYOUT1[:-1])),
            "rf": draw(st.lists(st.sampled_from(ROWS), min_size=n, max_size=n)), "if": draw(st.sampled_from(IFORMS)),
            "idx": draw(st.lists(st.integers(0, 7), min_size=n, max_size=n, unique=True)), "den": 4 if item[0] == "f" else 1,
            "col": draw(st.integers(0, w - 1)), "vt": draw(st.sampled_from([None, "dense", "sparse"])), "drop": draw(st.integers(0, 4)),
            "ctx": draw(st.booleans())}


def index_arg(c, spoils):
    f, idx = c["if"], [float(i) for i in c["idx"]]
    if f == "none":
        return None
    if f in ("f8", "f4", "i8", "i4", "i2", "f8step", "f4rev", "i4col"):
        a = lay1([F(i) for i in idx], f[:2], {"step": "step", "rev": "rev", "col": "column"}.get(f[2:], "C"))
        spoils.append(lambda: a.fill(5))
        return a
    if f == "array":
        a = array.array("d", idx)
        return a
    if f == "memoryview":
        return memoryview(lay1([F(i) for i in idx], "f8", c["lay1"]))
    if f == "ints":
        return [int(i) for i in idx]
    return tuple(idx) if f == "tuple" else list(idx)


def run_inc(c):
    w, d, item = c["w"], c["d"], c["item"]
    c = dict(c)
    rows = [[F(x, c["den"]) for x in r] for r in c["rows"]]
    n = len(rows)
    spoils = []
    if c["form"] in ("dicttime", "pairtime"):
        if c["if"] == "column":
            raise Discard()
        c["if"] = "none"
    if c["if"] == "range":
        c["idx"] = list(range(n))
    if c["if"] == "column":
        # the column holds the steps of the parameter
        for r, i in zip(rows, c["idx"]):
            r[c["col"]] = F(i % 3 + 1)
    if item[0] == "f":
        py = [[float(x) for x in r] for r in rows]
    else:
        py = [[int(x) for x in r] for r in rows]

    def row(i, form):
        r, vs = py[i], rows[i]
        if form == "list":
            return list(r)
        if form == "tuple" and w != 2:
            return tuple(r)
        if form in ("numpy", "memoryview"):
            a = lay1(vs, item, c["lay1"])
            spoils.append(lambda: a.fill(7))
            return a if form == "numpy" else memoryview(a)
        if form == "array":
            return array.array(CODE[item], r)
        keep = [k for k in range(w) if not c["drop"] or k % (c["drop"] + 1) or (c["if"] == "column" and k == c["col"])] or [0]
        if form in ("dict", "pairs"):
            for k in range(w):
                if k not in keep:
                    vs[k] = F(0)
            if form == "dict":
                return {k: r[k] for k in keep}
            return [(k, r[k]) for k in keep[::-1]]
        if form == "lie" and (c["if"] == "column" or w == 1):
            return list(r)
        if form.startswith("lie"):
            # any Lie element is an increment: one with a term of degree 2
            if c["if"] == "column":
                return list(r)
            lct = "S" if form == "lie_other" else "D"
            return R.rlie({k + 1: float(x) for k, x in enumerate(vs) if x}, w, d, lct, "vs" if form == "lie_sparse" else "dense")
        return list(r)

    form = c["form"]
    if form in ("numpy", "memoryview"):
        a = lay2(rows, item, c["lay"])
        spoils.append(lambda: a.fill(7))
        data = a if form == "numpy" else memoryview(a)
    elif form == "list":
        data = [list(r) for r in py]
    else:
        data = [row(i, f) for i, f in enumerate(c["rf"])]
        if form != "mixed":
            raise Discard()
    kw = {}
    ct = c["dt"]
    if c["ctx"] and ct:
        kw["ctx"] = R.ctx_of(w, d, ct)
    else:
        kw.update(width=w, depth=d)
        if ct:
            kw["dtype"] = dtype_arg(ct, c["name"])
    if c["vt"]:
        kw["vtype"] = rp.VectorType.DenseVector if c["vt"] == "dense" else rp.VectorType.SparseVector
    idx = [float(i) for i in c["idx"]]
    if c["if"] == "column":
        kw["indices"] = c["col"]
        t, idx = 0.0, []
        for r in rows:
            t += float(r[c["col"]])
            idx.append(t)
    elif c["if"] == "range":
        kw["indices"] = range(n)
    else:
        ia = index_arg(c, spoils)
        if ia is not None:
            kw["indices"] = ia
        else:
            idx = [float(i) for i in range(n)]
    s = rp.LieIncrementStream.from_increments(data, resolution=3, **kw)
    ia = data = None
    kw.pop("indices", None)
    for f in spoils:
        f()
    gc.collect()
    ct0 = ct or ("D" if form in ("list", "mixed") else deduced(item))
    ls = s.log_signature(rp.RealInterval(-1, 50), 3)
    ct = R.ct_of(ls)
    if c["dt"] or form in ("numpy", "memoryview", "list"):
        assert ct == ct0, f"the stream has type {ls.dtype}, not {ct0}"
    H = R.hall(w, d)
    for i in range(n):
        q = rp.RealInterval(idx[i], idx[i] + 0.5)
        exp = {H[k]: as_type(x, ct) for k, x in enumerate(rows[i]) if x}
        got = R.l2m(s.log_signature(q, 3), ct)
        bad = set(exp) ^ set(got) or [k for k in exp if not close(got[k], exp[k], ct)]
        assert not bad, f"increment {i} at {idx[i]} is {got}, the data has {exp}"
    tot = R.t2m(s.signature(rp.RealInterval(-1, 50), 3), ct)
    for k in range(w):
        e = sum(r[k] for r in rows)
        g = tot.get((k + 1,), 0)
        assert close(g if ct != "P" else g, as_type(e, ct), ct) or (ct == "P" and not e and not g), f"increments add up to {g}, not {e}, in letter {k + 1}"
    tags = [form, ct, "indices " + c["if"]]
    if form in ("numpy", "memoryview"):
        tags += [c["lay"], item]
    else:
        tags += sorted(set(c["rf"])) if form == "mixed" else []
    return tags if n > 1 and (form != "numpy" or c["lay"] != "C") else None


ARMS = [
    Arm("vectors", vec_case(), run_vec, quick=3000, thorough=120000,
        what="tensors, shuffle tensors and Lie elements from the same values as lists, arrays of ten item types in eight memory layouts, "
             "buffers, bytes, ranges, scalars, dicts and pairs with indices and keys, with the type given in every form or deduced"),
    Arm("increments", inc_case(), run_inc, quick=3000, thorough=120000,
        what="streams of increments from matrices in eleven memory layouts, buffers, lists of rows in different forms, "
             "and indices as arrays, lists or a column of the data"),
]
