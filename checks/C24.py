"""C24: roughpy.compute: tensors and Lie elements as plain arrays."""
import random
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
import gens as G
import model as M
from fw import Arm, Discard
from roughpy import compute as rpc

RULE = ("cases are generated arrays (widths 1..5, depths 1..6, up to two batch dimensions, both float types, contiguous, "
        "strided, reversed, Fortran ordered, broadcast and read-only operands, bases of different depths); non-trivial when "
        "the operands have coefficients beyond the constant term and the depth is at least 2")

DT = {"f4": np.float32, "f8": np.float64}
TOL = {"f4": 2e-4, "f8": 1e-10}
LAYOUTS = ["c", "c", "strided", "rev", "f", "batchstep", "pad"]


def layout(a, kind, const=False, ro=False):
    """an array equal to a, laid out differently; second value: the memory it lies in"""
    n = a.shape[-1]
    if kind == "strided":
        base = np.full(a.shape[:-1] + (2 * n + 1,), 77, a.dtype)
        v = base[..., 1:2 * n:2]
    elif kind == "rev":
        base = np.full(a.shape[:-1] + (n + 2,), 77, a.dtype)
        v = base[..., n:0:-1]
    elif kind == "f":
        base = np.full(a.shape, 77, a.dtype, order="F")
        v = base
    elif kind == "batchstep" and a.ndim > 1:
        base = np.full((2 * a.shape[0],) + a.shape[1:], 77, a.dtype)
        v = base[1::2]
    elif kind == "pad":
        base = np.full(a.shape[:-1] + (n + 3,), 77, a.dtype)
        v = base[..., 1:n + 1]
    else:
        base = np.empty_like(a)
        v = base
    v[...] = a
    if ro:
        v.flags.writeable = False
    return v, base


def outside(v, base):
    """the bytes of base not in v"""
    m = np.zeros(base.shape, bool)
    if base is v:
        return base[m].copy()
    idx = np.arange(base.size).reshape(base.shape)
    off = np.lib.array_utils.byte_bounds(v)
    addr = np.empty(base.shape, np.int64)
    a0 = base.__array_interface__["data"][0]
    it = sum(np.arange(s).reshape([-1 if i == k else 1 for k in range(base.ndim)]) * base.strides[i]
             for i, s in enumerate(base.shape))
    addr = a0 + it
    va = v.__array_interface__["data"][0] + sum(
        np.arange(s).reshape([-1 if i == k else 1 for k in range(v.ndim)]) * v.strides[i] for i, s in enumerate(v.shape))
    return base[~np.isin(addr, va)].copy()


def values(rnd, n, mode):
    """n small dyadic numbers"""
    p = {"dense": 1.0, "sparse": 0.15, "half": 0.5}[mode]
    return [Fraction(rnd.randint(-8, 8), rnd.choice([1, 2, 4])) if rnd.random() < p else Fraction(0) for _ in range(n)]


def batches(rnd, shape, n, mode):
    k = int(np.prod(shape)) if shape else 1
    return [values(rnd, n, mode) for _ in range(k)]


def to_array(rows, shape, dt):
    return np.array([[float(x) for x in r] for r in rows], DT[dt]).reshape(tuple(shape) + (len(rows[0]),))


def t_of(row, w, d):
    return {k: v for k, v in zip(M.word_list(w, d), row) if v}


def close(got, want, dt, what):
    scale = max([1.0] + [abs(float(x)) for x in want])
    for i, (g, e) in enumerate(zip(got, want)):
        if not abs(float(g) - float(e)) <= TOL[dt] * scale:
            raise AssertionError(f"{what}: coefficient {i} is {g}, expected {float(e)}")


def row_of(t, w, d):
    return [t.get(k, Fraction(0)) for k in M.word_list(w, d)]


OPS = ["ft_fma", "ft_mul", "ft_inplace_mul", "antipode", "st_fma", "st_mul", "ft_exp", "ft_log", "ft_fmexp",
       "ft_adjoint_left_mul"]


@st.composite
def op_case(draw):
    w, d = draw(G.wd(130, wmax=5, dmax=6))
    same = draw(st.booleans())
    ds = [d] * 3
    if not same:
        ds = [draw(st.integers(1, d)) for _ in range(3)]
    return {"op": draw(st.sampled_from(OPS)), "w": w, "ds": ds, "dt": draw(st.sampled_from(["f8", "f8", "f4"])),
            "batch": draw(st.sampled_from([[], [], [1], [3], [2, 3], [0], [2, 1], [2, 2, 2]])),
            "lay": [draw(st.sampled_from(LAYOUTS)) for _ in range(3)], "ro": draw(st.booleans()),
            "mode": draw(st.sampled_from(["dense", "half", "sparse"])), "seed": draw(st.integers(0, 10**6)),
            "bcast": draw(st.integers(0, 5)) == 0, "out": draw(st.booleans())}


def run_op(c):
    op, w, ds, dt, shape = c["op"], c["w"], c["ds"], c["dt"], tuple(c["batch"])
    rnd = random.Random(c["seed"])
    d0, d1, d2 = ds
    if op in ("ft_exp", "ft_log", "ft_fmexp", "antipode") and max(M.tensor_dim(w, d) for d in ds) > 90:
        ds = d0, d1, d2 = [min(d, 3) for d in ds]
    B = [rpc.TensorBasis(w, d) for d in ds]
    rows = [batches(rnd, shape, M.tensor_dim(w, d), c["mode"]) for d in ds]
    if c["bcast"] and shape:
        for i in (1, 2):
            rows[i] = [rows[i][0]] * len(rows[i]) if rows[i] else rows[i]
    if op in ("ft_exp", "ft_log", "ft_fmexp"):
        k = 2 if op == "ft_fmexp" else 1
        for r in rows[k]:
            r[0] = Fraction(1 if op == "ft_log" else 0)
            r[1:] = [x / 4 for x in r[1:]]
    arrs, bases, before = [], [], []
    for i in range(3):
        a = to_array(rows[i], shape, dt) if rows[i] else np.zeros(shape + (B[i].size(),), DT[dt])
        if c["bcast"] and shape and i and a.size:
            v = np.broadcast_to(a.reshape((-1, a.shape[-1]))[0], a.shape)
            b = v
        else:
            v, b = layout(a, c["lay"][i], ro=c["ro"] and not (i == 0 and op in ("ft_fma", "ft_inplace_mul", "st_fma")))
        arrs.append(v)
        bases.append(b)
        before.append(v.copy())
    guard = outside(arrs[0], bases[0])
    T = lambda i, cls=rpc.FreeTensor: cls(arrs[i], B[i])
    S = rpc.ShuffleTensor
    tm = [[t_of(r, w, d) for r in rows[i]] for i, d in enumerate(ds)]
    nb = len(rows[0])
    if op == "ft_fma":
        assert rpc.ft_fma(T(0), T(1), T(2)) is None
        got, dd = arrs[0], d0
        want = [M.add(tm[0][k], M.mul(tm[1][k], tm[2][k], d0)) for k in range(nb)]
    elif op == "ft_mul":
        r = rpc.ft_mul(T(1), T(2))
        got, dd = r.data, d1
        want = [M.mul(tm[1][k], tm[2][k], d1) for k in range(nb)]
    elif op == "ft_inplace_mul":
        assert rpc.ft_inplace_mul(T(0), T(2)) is None
        got, dd = arrs[0], d0
        want = [M.mul(tm[0][k], tm[2][k], d0) for k in range(nb)]
    elif op == "antipode":
        r = rpc.antipode(T(1))
        got, dd = r.data, d1
        want = [M.antipode(tm[1][k]) for k in range(nb)]
    elif op == "st_fma":
        rpc.st_fma(T(0, S), T(1, S), T(2, S))
        got, dd = arrs[0], d0
        want = [M.add(tm[0][k], M.shuffle(tm[1][k], tm[2][k], d0)) for k in range(nb)]
    elif op == "st_mul":
        r = rpc.st_mul(T(1, S), T(2, S))
        got, dd = r.data, d1
        want = [M.shuffle(tm[1][k], tm[2][k], d1) for k in range(nb)]
    elif op in ("ft_exp", "ft_log"):
        dd = d0 if c["out"] else d1
        r = getattr(rpc, op)(T(1), *([B[0]] if c["out"] else []))
        got = r.data
        f = M.exp if op == "ft_exp" else M.log
        want = [f(M.truncate(tm[1][k], dd), dd) for k in range(nb)]
    elif op == "ft_fmexp":
        dd = d0 if c["out"] else d1
        r = rpc.ft_fmexp(T(1), T(2), *([B[0]] if c["out"] else []))
        got = r.data
        want = [M.mul(tm[1][k], M.exp(M.truncate(tm[2][k], dd), dd), dd) for k in range(nb)]
    else:
        r = rpc.ft_adjoint_left_mul(T(1), T(2, S))
        got, dd = r.data, d2
        want = [M.truncate(M.adjoint_left_mul(tm[1][k], tm[2][k]), d2) for k in range(nb)]
    inplace = op in ("ft_fma", "ft_inplace_mul", "st_fma")
    if not inplace:
        assert r.basis.depth == dd and r.basis.width == w, f"{op}: basis of the result {r.basis}"
    assert got.shape == shape + (M.tensor_dim(w, dd),), f"{op}: shape {got.shape}"
    assert got.dtype == DT[dt], f"{op}: dtype {got.dtype}"
    for k, row in enumerate(np.ascontiguousarray(got).reshape((-1, got.shape[-1]))):
        close(row, row_of(want[k], w, dd), dt, f"{op} batch {k}")
    for i in range(3):
        if not (inplace and i == 0):
            assert np.array_equal(arrs[i], before[i]), f"{op}: operand {i} changed"
    assert np.array_equal(outside(arrs[0], bases[0]), guard), f"{op}: memory around the output changed"
    if nb == 0 or max(ds) < 2:
        return None
    return [op] + (["different depths"] if len(set(ds)) > 1 else []) + (["batch"] if nb > 1 else []) + [c["lay"][1]]


@st.composite
def map_case(draw):
    w, d = draw(G.wd(260, wmax=6, dmax=7))
    return {"w": w, "d": d, "td": draw(st.sampled_from([None, None, None, d, d, draw(st.integers(1, d + 1))])),
            "op": draw(st.sampled_from(["l2t", "t2l", "round"])), "dt": draw(st.sampled_from(["f8", "f8", "f4"])),
            "scale": draw(st.sampled_from([None, None, 0.5, -2.0, 3])),
            "batch": draw(st.sampled_from([[], [], [1], [3], [2, 3], [0]])), "lay": draw(st.sampled_from(LAYOUTS)),
            "mode": draw(st.sampled_from(["dense", "half", "sparse"])), "seed": draw(st.integers(0, 10**6))}


def lie_tensor(row, w, d):
    return M.lie_expand({t: v for t, v in zip(M.hall_basis(w, d), row) if v})


def run_map(c):
    w, d, dt, shape = c["w"], c["d"], c["dt"], tuple(c["batch"])
    td = c["td"]
    if td is not None and M.tensor_dim(w, td) > 300:
        raise Discard()
    rnd = random.Random(c["seed"])
    L = rpc.LieBasis(w, d)
    n = M.lie_dim(w, d)
    assert L.size() == n, f"size of LieBasis({w},{d}) is {L.size()}"
    s = Fraction(c["scale"]) if c["scale"] is not None else Fraction(1)
    kw = {} if c["scale"] is None else {"scale_factor": c["scale"]}
    labels = [c["op"]] + (["batch"] if len(shape) and np.prod(shape) > 1 else []) + (["scaled"] if kw else [])
    if c["op"] in ("l2t", "round"):
        rows = batches(rnd, shape, n, c["mode"]) if 0 not in shape else []
        a = to_array(rows, shape, dt) if rows else np.zeros(shape + (n,), DT[dt])
        v, base = layout(a, c["lay"], ro=True)
        dd = d if td is None or c["op"] == "round" else td
        try:
            r = rpc.lie_to_tensor(rpc.Lie(v, L), *([] if dd == d and td is None else [rpc.TensorBasis(w, dd)]), **kw)
        except ValueError:
            if dd == d:
                raise
            return ["refused"]                            # maps between different depths may be declined
        assert r.data.shape == shape + (M.tensor_dim(w, dd),) and r.basis.depth == dd and r.data.dtype == DT[dt]
        for k, row in enumerate(r.data.reshape((-1, r.data.shape[-1]))):
            close(row, row_of(M.smul(M.truncate(lie_tensor(rows[k], w, d), dd), s), w, dd), dt, f"lie_to_tensor batch {k}")
        if c["op"] == "round":
            q = rpc.tensor_to_lie(r, *([] if td is None else [L]))
            for k, row in enumerate(q.data.reshape((-1, n))):
                close(row, [x * s for x in rows[k]], dt, f"tensor_to_lie of lie_to_tensor, batch {k}")
        assert np.array_equal(v, a), "lie_to_tensor changed its argument"
    else:
        dd = d if td is None else td
        m = M.tensor_dim(w, dd)
        rows = batches(rnd, shape, m, c["mode"]) if 0 not in shape else []
        a = to_array(rows, shape, dt) if rows else np.zeros(shape + (m,), DT[dt])
        v, base = layout(a, c["lay"], ro=True)
        try:
            r = rpc.tensor_to_lie(rpc.FreeTensor(v, rpc.TensorBasis(w, dd)), *([] if td is None else [L]), **kw)
        except ValueError:
            if dd == d:
                raise
            return ["refused"]
        assert r.data.shape == shape + (n,) and r.data.dtype == DT[dt]
        for k, row in enumerate(r.data.reshape((-1, n))):
            got = lie_tensor([Fraction(float(x)) for x in row], w, d)
            want = M.smul(M.truncate(M.dynkin(t_of(rows[k], w, dd)), d), s)
            close([float(x) for x in row_of(got, w, d)], row_of(want, w, d), dt, f"tensor_to_lie batch {k}")
        assert np.array_equal(v, a), "tensor_to_lie changed its argument"
    if 0 in shape or d < 2:
        return None
    return labels + (["another depth"] if td not in (None, d) else [])


@st.composite
def basis_case(draw):
    w, d = draw(G.wd(700, wmax=7, dmax=8))
    return {"w": w, "d": d, "w2": draw(st.integers(1, 5)), "d2": draw(st.integers(1, 5)),
            "mut": draw(st.sampled_from(["none", "left", "right", "swap", "width", "begin"])), "row": draw(st.integers(0, 10**6)),
            "by": draw(st.sampled_from([-2, -1, 1, 2])), "cut": draw(st.integers(1, 8))}


def rows_fit(rows, db, w):
    """whether every row satisfies Hall's conditions by itself"""
    deg = [0] * len(rows)
    for k in range(1, len(db) - 1):
        for i in range(db[k], db[k + 1]):
            deg[i] = k
    for i in range(w + 1, len(rows)):
        a, bc = rows[i]
        if not (0 < a < len(rows) and 0 < bc < len(rows)) or deg[a] + deg[bc] != deg[i] or a >= bc or rows[bc][0] > a:
            return False
    return True


def run_basis(c):
    w, d = c["w"], c["d"]
    L = rpc.LieBasis(w, d)
    T = rpc.TensorBasis(w, d)
    assert (T.width, T.depth, T.size()) == (w, d, M.tensor_dim(w, d))
    assert list(T.degree_begin[:d + 2]) == [0] + [M.tensor_dim(w, k) for k in range(d + 1)]
    trees = M.hall_basis(w, d)
    assert (L.width, L.depth, L.size()) == (w, d, len(trees))
    db = [0, 1] + [1 + M.lie_dim(w, k) for k in range(1, d + 1)]
    assert list(L.degree_begin[:d + 2]) == db, f"degree_begin {list(L.degree_begin)}"
    pos = {t: i + 1 for i, t in enumerate(trees)}
    want = [[0, 0]] + [[0, t] if isinstance(t, int) else [pos[t[0]], pos[t[1]]] for t in trees]
    assert L.data[:len(want)].tolist() == want, "Hall set of the basis"
    # equality and hashes
    for cls, X in ((rpc.LieBasis, L), (rpc.TensorBasis, T)):
        Y, Z = cls(w, d), cls(c["w2"], c["d2"])
        assert X == Y and not X != Y and hash(X) == hash(Y)
        e = (w, d) == (c["w2"], c["d2"])
        assert (X == Z) == e and (X != Z) == (not e)
        if e:
            assert hash(X) == hash(Z)
    if c["cut"] < d:
        U, V = T.truncate(c["cut"]), rpc.TensorBasis(w, c["cut"])
        assert U == V and hash(U) == hash(V) and U.size() == V.size() and U.depth == c["cut"]
    # data given explicitly
    data = np.array(want, dtype=np.intp)
    dbeg = np.array(db, dtype=np.intp)
    X = rpc.LieBasis(w, d, dbeg, data)
    assert X == L and hash(X) == hash(L) and X.size() == L.size()
    assert rpc.check_lie_basis_data(data, dbeg, w, d) is True, "valid data refused"
    mut = c["mut"]
    if mut != "none" and len(want) > w + 1:
        i = w + 1 + c["row"] % (len(want) - w - 1)
        if mut == "left":
            data[i, 0] += c["by"]
        elif mut == "right":
            data[i, 1] += c["by"]
        elif mut == "swap":
            data[i] = data[i, ::-1].copy()
        elif mut == "width":
            w += abs(c["by"])
        else:
            dbeg[2 + c["row"] % d] += c["by"]
        if mut in ("left", "right", "swap") and rows_fit(data.tolist(), db, w):
            return None                                   # every row is still a Hall bracket (one of them twice)
        bad = rpc.check_lie_basis_data(data, dbeg, w, d)
        assert bad is False, f"data with a wrong {mut} accepted"
        try:
            rpc.check_lie_basis_data(data, dbeg, w, d, raise_on_fail=True)
        except ValueError:
            pass
        else:
            raise AssertionError("raise_on_fail did not raise")
        return ["invalid data", mut]
    return ["valid data"] if d > 1 else None


@st.composite
def matrix_case(draw):
    w, d = draw(G.wd(260, wmax=6, dmax=7))
    dts = st.sampled_from(["float64", "float32", "longdouble", "float64", "float32", "longdouble", "float64", "int64", "float16", "complex128", ">f8", "bool", "object", "S4"])
    return {"w": w, "d": d, "asks": draw(st.lists(st.tuples(st.sampled_from(["l2t", "t2l"]), dts), min_size=1, max_size=5)),
            "hall": draw(st.one_of(st.none(), st.integers(0, 10**6)))}


def shuffled_hall(w, d, seed):
    """rows and degrees of a Hall set whose order within each degree is arbitrary"""
    rnd = random.Random(seed)
    rows, db = [[0, 0]] + [[0, i] for i in range(1, w + 1)], [0, 1, w + 1]
    for k in range(2, d + 1):
        new = [[a, b] for e in range(1, k) for a in range(db[e], db[e + 1]) for b in range(db[k - e], db[k - e + 1])
               if a < b and rows[b][0] <= a]
        rnd.shuffle(new)
        rows += new
        db.append(len(rows))
    return rows, db


def dense(m):
    """rows of a compressed matrix"""
    r, c = m.shape
    out = [[0.0] * c for _ in range(r)]
    ip, ix, dat = m.indptr.tolist(), m.indices.tolist(), m.data
    major = r if m.format == "csr" else c
    assert m.format in ("csr", "csc") and len(ip) == major + 1 and ip[0] == 0 and ip == sorted(ip) and ip[-1] == m.nnz
    assert (m.rows, m.cols) == (r, c) and len(ix) >= m.nnz and len(dat) >= m.nnz
    for i in range(major):
        js = ix[ip[i]:ip[i + 1]]
        assert len(set(js)) == len(js), f"entries of {i} given twice"
        for p in range(ip[i], ip[i + 1]):
            j = ix[p]
            x, y = (i, j) if m.format == "csr" else (j, i)
            out[x][y] = float(dat[p])
    return out


def run_matrix(c):
    w, d = c["w"], c["d"]
    trees = M.hall_basis(w, d)
    if c["hall"] is None:
        L = rpc.LieBasis(w, d)
    else:
        rows, db = shuffled_hall(w, d, c["hall"])
        assert rpc.check_lie_basis_data(np.array(rows, np.intp), np.array(db, np.intp), w, d) is True, "Hall set refused"
        L = rpc.LieBasis(w, d, np.array(db, np.intp), np.array(rows, np.intp))
        trees = []
        for a, b in rows[1:]:
            trees.append(b if a == 0 else (trees[a - 1], trees[b - 1]))
    assert L.size() == len(trees)
    n, m = len(trees), M.tensor_dim(w, d)
    cols = None
    seen = {}
    labels = []
    for kind, dt in c["asks"]:
        if kind == "t2l" and c["hall"] is not None:
            continue                                      # rewriting needs the standard order
        f = L.get_l2t_matrix if kind == "l2t" else L.get_t2l_matrix
        if dt not in ("float64", "float32", "longdouble"):
            try:
                f(np.dtype(dt))
            except TypeError:
                labels.append("refused")
                continue
            raise AssertionError(f"{kind} matrix of dtype {dt}")
        mat = f(np.dtype(dt))
        assert mat.dtype == np.dtype(dt) and mat.data.dtype == np.dtype(dt) and mat.ndim == 2
        assert mat.shape == ((m, n) if kind == "l2t" else (n, m)), f"shape {mat.shape}"
        D = dense(mat)
        if kind == "l2t":
            for j, t in enumerate(trees):
                want = row_of(M.lie_expand({t: Fraction(1)}), w, d)
                assert [r[j] for r in D] == [float(x) for x in want], f"l2t column {j} ({M.tree_str(t)})"
        else:
            eps = 1e-5 if dt == "float32" else 1e-12
            for j, k in enumerate(M.word_list(w, d)):
                if m > 60 and j % 5 != m % 5:
                    continue
                got = M.lie_expand({t: Fraction(r[j]) for t, r in zip(trees, D) if r[j]})
                want = M.dynkin({k: Fraction(1)})
                for x in set(got) | set(want):
                    e = float(got.get(x, 0) - want.get(x, 0))
                    assert abs(e) <= eps * 64, f"t2l column {j} (word {k}): off by {e} at {x}"
        again = f(np.dtype(dt))
        assert dense(again) == D, "asked again, the matrix differs"
        if (kind, dt) in seen:
            assert seen[kind, dt] == D
        seen[kind, dt] = D
        labels.append(kind)
    return sorted(set(labels)) + (["another Hall set"] if c["hall"] is not None else []) if d > 1 and labels else None


@st.composite
def bad_case(draw):
    w, d = draw(G.wd(130, wmax=4, dmax=5, wmin=2, dmin=2))
    return {"w": w, "d": d, "op": draw(st.sampled_from(OPS + ["l2t", "t2l"])),
            "kind": draw(st.sampled_from(["short", "dtype", "batch", "ndim", "width", "int", "order", "readonly", "list"])),
            "which": draw(st.integers(0, 2)), "dt": draw(st.sampled_from(["f4", "f8"])), "by": draw(st.integers(1, 3)),
            "seed": draw(st.integers(0, 10**6))}


def run_bad(c):
    op, w, d, dt, kind = c["op"], c["w"], c["d"], DT[c["dt"]], c["kind"]
    args = {"ft_fma": [0, 1, 2], "ft_mul": [1, 2], "ft_inplace_mul": [0, 2], "antipode": [1], "st_fma": [0, 1, 2],
            "st_mul": [1, 2], "ft_exp": [1], "ft_log": [1], "ft_fmexp": [1, 2], "ft_adjoint_left_mul": [1, 2],
            "l2t": [1], "t2l": [1]}[op]
    k = args[c["which"] % len(args)]
    if kind in ("batch", "ndim", "width", "dtype") and len(args) == 1:
        raise Discard()                                   # one operand cannot disagree with itself
    if kind == "readonly":
        k = 0
        if args[0] != 0:
            raise Discard()
    n = M.tensor_dim(w, d) if op != "l2t" else M.lie_dim(w, d)
    rs = np.random.default_rng(c["seed"])
    base = [np.full(3 * n + 64, 5, dt) for _ in range(3)]
    arrs = []
    B = []
    for i in range(3):
        a = base[i][n:2 * n]
        a[...] = rs.integers(-4, 5, n)
        B.append(rpc.TensorBasis(w, d) if op != "l2t" else rpc.LieBasis(w, d))
        arrs.append(a)
    if kind == "short":
        arrs[k] = arrs[k][:max(0, n - c["by"])]
    elif kind == "dtype":
        arrs[k] = arrs[k].astype(np.float32 if dt is np.float64 else np.float64)
    elif kind == "batch":
        arrs[k] = np.stack([arrs[k]] * (1 + c["by"]))
        j = args[0] if args[0] != k else args[1]
        arrs[j] = np.stack([arrs[j]] * (2 + c["by"]))
    elif kind == "ndim":
        arrs[k] = arrs[k][None]
    elif kind == "width":
        B[k] = rpc.TensorBasis(w + 1, d)
        arrs[k] = rs.integers(-4, 5, B[k].size()).astype(dt)
    elif kind == "int":
        arrs = [a.astype(np.int64) for a in arrs]
    elif kind == "order":
        arrs[k] = arrs[k].astype(arrs[k].dtype.newbyteorder(">"))
    elif kind == "readonly":
        arrs[0].flags.writeable = False
    elif kind == "list":
        arrs[k] = arrs[k].tolist()
    else:
        raise Discard()
    keep = [b.copy() for b in base]
    X = lambda i, cls=rpc.FreeTensor: cls(arrs[i], B[i])
    S = rpc.ShuffleTensor
    calls = {"ft_fma": lambda: rpc.ft_fma(X(0), X(1), X(2)), "ft_mul": lambda: rpc.ft_mul(X(1), X(2)),
             "ft_inplace_mul": lambda: rpc.ft_inplace_mul(X(0), X(2)), "antipode": lambda: rpc.antipode(X(1)),
             "st_fma": lambda: rpc.st_fma(X(0, S), X(1, S), X(2, S)), "st_mul": lambda: rpc.st_mul(X(1, S), X(2, S)),
             "ft_exp": lambda: rpc.ft_exp(X(1)), "ft_log": lambda: rpc.ft_log(X(1)),
             "ft_fmexp": lambda: rpc.ft_fmexp(X(1), X(2)),
             "ft_adjoint_left_mul": lambda: rpc.ft_adjoint_left_mul(X(1), X(2, S)),
             "l2t": lambda: rpc.lie_to_tensor(rpc.Lie(arrs[1], B[1])), "t2l": lambda: rpc.tensor_to_lie(X(1))}
    try:
        calls[op]()
    except SystemError:
        raise
    except Exception:
        pass
    else:
        if kind == "order":
            raise AssertionError(f"{op}: an operand in the other byte order was taken as it is")
        raise AssertionError(f"{op}: {kind} of operand {k} accepted")
    for i in range(3):
        assert np.array_equal(base[i], keep[i]), f"{op}: refused, but operand {i} changed"
    return [op, kind]


ARMS = [
    Arm("ops", op_case(), run_op, quick=6000, thorough=120000,
        what="products, in-place products, antipodes, shuffles, exp, log, fmexp and adjoints of arrays against the reference "
             "model: batches, layouts, depths; operands and the memory around them unchanged"),
    Arm("maps", map_case(), run_map, quick=2500, thorough=50000,
        what="lie_to_tensor against expanded brackets, tensor_to_lie against the Dynkin map, round trips, scale factors"),
    Arm("bases", basis_case(), run_basis, quick=1200, thorough=24000,
        what="bases: sizes, degrees, Hall sets, equality, hashes, truncation; validity of data, also after one change"),
    Arm("matrices", matrix_case(), run_matrix, quick=1200, thorough=24000,
        what="the compressed matrices of both maps for every float type, of the standard and of other Hall sets; other "
             "types refused"),
    Arm("refused", bad_case(), run_bad, quick=2000, thorough=40000,
        what="arrays that do not fit (short, other types, batches, widths, read-only targets) are refused untouched"),
]
