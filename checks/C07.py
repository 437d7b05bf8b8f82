"""C07: words, brackets and bases number their elements consistently."""
import math
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
from fw import Arm, Discard, is_known
from rpyio import hall, tkey, lkey, tree_list, ctx_of

RULE = ("cases are generated keys of bases of width 1..40 and depth 1..10 (words, Hall brackets, arbitrary brackets, "
        "out-of-range letters and indices); non-trivial when the basis has width and depth above one and the keys "
        "involved are neither the empty word nor single letters, or the key is invalid")

KEY_ORDER_KNOWN = is_known("key-product-order")


def wds(lim=20000):
    big = [(w, d) for w in range(1, 41) for d in range(1, 11) if M.tensor_dim(w, d) <= lim]
    return st.one_of(st.sampled_from(big), G.wd(400, wmax=6, dmax=7))


def wd_lie(lim=900):
    ok = [(w, d) for w in range(1, 13) for d in range(1, 10) if M.lie_dim(w, d) <= lim]
    good = [x for x in ok if x[0] > 1 and x[1] > 2]
    return st.one_of(st.sampled_from(good), st.sampled_from(ok))


@st.composite
def word(draw, w, d):
    n = draw(st.one_of(st.integers(0, d), st.just(d)))
    return draw(st.lists(st.integers(1, w), min_size=n, max_size=n))


@st.composite
def word_case(draw):
    w, d = draw(wds())
    return {"w": w, "d": d, "a": draw(word(w, d)), "b": draw(word(w, d)), "n": draw(st.integers(-1, d + 1)),
            "frac": draw(st.integers(0, 10 ** 6)), "d2": draw(st.integers(1, 10)), "w2": draw(st.integers(1, 40))}


def word_rank(word, w):
    r = M.tensor_dim(w, len(word) - 1) if word else 0
    for i, l in enumerate(word):
        r += (l - 1) * w ** (len(word) - 1 - i)
    return r


def unrank(i, w):
    n = 0
    while i >= w ** n:
        i -= w ** n
        n += 1
    out = []
    for _ in range(n):
        out.append(i % w + 1)
        i //= w
    return out[::-1]


def raises(fn, *kinds):
    try:
        r = fn()
    except kinds:
        return
    except Exception as e:
        raise AssertionError(f"raised {type(e).__name__}: {e} rather than {kinds}")
    raise AssertionError(f"accepted: {r}")


def run_words(c):
    w, d, a, b, n = c["w"], c["d"], c["a"], c["b"], c["n"]
    B = ctx_of(w, d, "D").tensor_basis
    dim = M.tensor_dim(w, d)
    assert (B.width, B.depth, B.dimension) == (w, d, dim), (B.width, B.depth, B.dimension)
    for k in range(d + 1):
        assert B.size(k) == M.tensor_dim(w, k), (k, B.size(k))
    assert B.size(-1) == dim
    raises(lambda: B.size(d + 1), ValueError)
    ka, kb = tkey(a, w, d), tkey(b, w, d)
    for k, x in ((ka, a), (kb, b)):
        assert k.to_letters() == x and k.degree() == len(x), (k.to_letters(), k.degree(), x)
        assert (k.width, k.max_degree) == (w, d)
        assert k.basis().dimension == dim
        i = word_rank(x, w)
        assert k.to_index() == i, f"index of {x}: {k.to_index()}, not {i}"
        assert B.key_to_index(k) == i, f"key_to_index of {x}: {B.key_to_index(k)}, not {i}"
        assert B.index_to_key(i) == k and B.index_to_key(i).to_letters() == x
        assert rp.TensorKey(index=i, width=w, depth=d) == k
        assert rp.TensorKey(x, width=w, depth=d) == k
        assert str(k) == "(" + ",".join(map(str, x)) + ")", str(k)
        assert k.reverse().to_letters() == x[::-1]
        l, r = k.split_n(n)
        m = min(max(n, 0), len(x))
        assert l.to_letters() == x[:len(x) - m] and r.to_letters() == x[len(x) - m:], \
            f"split_n({n}) of {x}: {l.to_letters()}, {r.to_letters()}"
        p, q = B.parents(k)
        p, q = [[] if z is None else z.to_letters() for z in (p, q)]
        assert (p, q) == (x[:1], x[1:]), f"parents of {x}: {p}, {q}"
    assert (ka == kb) == (a == b)
    if a == b:
        assert hash(ka) == hash(kb)
    if len(a) + len(b) <= d:
        p = ka * kb
        assert p.to_letters() == a + b or p.to_letters() == b + a and KEY_ORDER_KNOWN, f"{a}*{b}: {p.to_letters()}"
    else:
        raises(lambda: ka * kb, ValueError)
    i = c["frac"] % dim
    k = B.index_to_key(i)
    assert k.to_letters() == unrank(i, w), f"index_to_key({i}): {k.to_letters()}"
    raises(lambda: B.index_to_key(dim + c["frac"]), IndexError, ValueError)
    raises(lambda: rp.TensorKey(index=dim + c["frac"], width=w, depth=d), ValueError, IndexError)
    # the same word in another basis
    w2, d2 = c["w2"], c["d2"]
    if M.tensor_dim(w2, d2) <= 10 ** 6:
        if len(a) <= d2 and max(a, default=1) <= w2:
            k2 = tkey(a, w2, d2)
            assert k2.to_letters() == a and k2.to_index() == word_rank(a, w2)
            assert (k2 == ka) == (w2 == w or not a and k2 == ka), "keys over different alphabets are equal"
            if k2 == ka:
                assert hash(k2) == hash(ka), "equal keys with different hashes"
        else:
            raises(lambda: tkey(a, w2, d2), ValueError)
    return w > 1 and d > 1 and max(len(a), len(b)) > 1


@st.composite
def iter_case(draw):
    w, d = draw(G.wd(600, wmax=9, dmax=7))
    n = M.tensor_dim(w, d)
    return {"w": w, "d": d, "i": draw(st.integers(0, n - 1)), "j": draw(st.integers(0, n - 1)),
            "k": draw(st.integers(0, 10 ** 6))}


def run_iter(c):
    w, d, i, j = c["w"], c["d"], c["i"], c["j"]
    W = M.word_list(w, d)
    B = ctx_of(w, d, "D").tensor_basis

    def words(it):
        return [tuple(k.to_letters()) for k in it]
    got = words(B)
    assert got == W, f"iteration over the basis: {len(got)} words, expected {len(W)}"
    assert words(rp.TensorKeyIterator(B.index_to_key(i))) == W[i:]
    assert words(rp.TensorKeyIterator(B.index_to_key(i), B.index_to_key(j))) == W[i:j], "iteration between two words"
    H = hall(w, d)
    L = ctx_of(w, d, "D").lie_basis
    got = [M.parse_tree(str(k)) for k in L]
    assert got == H, "iteration over the Hall basis"
    s = c["k"] % len(H)
    e = (c["k"] // 7) % len(H)
    assert [M.parse_tree(str(k)) for k in rp.LieKeyIterator(L, s + 1)] == H[s:]
    got = [M.parse_tree(str(k)) for k in rp.LieKeyIterator(L, s + 1, e + 1)]
    # the range up to the end key; whether that is included is not documented
    assert got in (H[s:e], H[s:e + 1]), f"keys {s + 1} to {e + 1}: {got}"
    return w > 1 and d > 1


@st.composite
def hall_case(draw):
    w, d = draw(wd_lie())
    return {"w": w, "d": d, "i": draw(st.integers(0, 10 ** 6)), "j": draw(st.integers(0, 10 ** 6))}


def run_hall(c):
    w, d = c["w"], c["d"]
    H = hall(w, d)
    ctx = ctx_of(w, d, "D")
    L = ctx.lie_basis
    assert (L.width, L.depth, L.dimension) == (w, d, len(H))
    for k in range(1, d + 1):
        assert L.size(k) == M.lie_dim(w, k), (k, L.size(k))
        assert ctx.lie_size(k) == M.lie_dim(w, k)
        assert ctx.tensor_size(k) == M.tensor_dim(w, k)
    raises(lambda: L.size(d + 1), ValueError)
    i = c["i"] % len(H)
    t = H[i]
    k = L.index_to_key(i)
    assert M.parse_tree(str(k)) == t, f"index_to_key({i}): {k} rather than {M.tree_str(t)}"
    assert L.key_to_index(k) == i
    k2 = lkey(t, w, d)
    assert str(k2) == M.tree_str(t)
    assert L.key_to_index(k2) == i, f"key_to_index({k2}): {L.key_to_index(k2)}, not {i}"
    k3 = rp.LieKey(tree_list(t), basis=L)
    assert str(k3) == M.tree_str(t) and L.key_to_index(k3) == i
    p, q = L.parents(k)
    if isinstance(t, int):
        assert p is None and str(q) == str(t), (p, q)
    else:
        assert M.parse_tree(str(p)) == t[0] and M.parse_tree(str(q)) == t[1], f"parents of {k}: {p}, {q}"
        # a bracket is its parents' product
        x = rp.Lie({L.key_to_index(p): 1.0}, ctx=ctx) * rp.Lie({L.key_to_index(q): 1.0}, ctx=ctx)
        got = {str(z.key()): z.value().to_float() for z in x if z.value().to_float()}
        assert got == {str(k): 1.0}, f"[{p},{q}] = {got}"
    raises(lambda: L.index_to_key(len(H) + c["j"]), IndexError, ValueError)
    return w > 1 and d > 1 and not isinstance(t, int)


def trees(w):
    return st.recursive(st.integers(1, w), lambda s: st.tuples(s, s).map(list), max_leaves=6)


@st.composite
def bad_case(draw):
    w, d = draw(G.wd(400, wmax=6, dmax=6))
    kind = draw(st.sampled_from(["tree", "tree", "letter", "word", "long", "index", "pair"]))
    c = {"w": w, "d": d, "kind": kind}
    if kind == "tree":
        c["t"] = draw(trees(w))
    elif kind == "letter":
        c["l"] = draw(st.sampled_from([0, -1, w + 1, w + 7, 2 ** 40, -2 ** 63]))
    elif kind == "word":
        x = draw(word(w, d))
        x.insert(draw(st.integers(0, len(x))), draw(st.sampled_from([0, w + 1, w + 100, 2 ** 33])))
        c["x"] = x[:d] if any(l < 1 or l > w for l in x[:d]) else x
    elif kind == "long":
        n = d + draw(st.integers(1, 4))
        c["x"] = draw(st.lists(st.integers(1, w), min_size=n, max_size=n))
    elif kind == "index":
        c["i"] = draw(st.sampled_from([-1, M.tensor_dim(w, d), M.tensor_dim(w, d) + 1, 2 ** 62, -2 ** 40]))
    else:
        c["x"] = draw(st.lists(st.integers(1, w), max_size=4).filter(lambda l: len(l) != 2))
    return c


def totuple(t):
    return t if isinstance(t, int) else (totuple(t[0]), totuple(t[1]))


ERR = (ValueError, TypeError, IndexError, RuntimeError, OverflowError)


def run_bad(c):
    w, d, kind = c["w"], c["d"], c["kind"]
    L = ctx_of(w, d, "D").lie_basis
    H = hall(w, d)
    if kind == "tree":
        t = totuple(c["t"])
        try:
            k = rp.LieKey(c["t"], width=w, depth=d)
        except ERR:
            assert t not in H, f"the Hall bracket {M.tree_str(t)} is refused"
            return ["refused"]
        if t in H:
            assert M.parse_tree(str(k)) == t and L.key_to_index(k) == H.index(t)
            return ["hall"] if not isinstance(t, int) else None
        raises(lambda: L.key_to_index(k), *ERR)
        raises(lambda: L.parents(k), *ERR)
        return ["not hall"]
    if kind == "letter":
        raises(lambda: rp.LieKey(c["l"], width=w, depth=d), *ERR)
        raises(lambda: rp.LieKey([1, c["l"]], width=w, depth=d), *ERR)
        raises(lambda: tkey([c["l"]], w, d), *ERR)
    elif kind in ("word", "long"):
        raises(lambda: tkey(c["x"], w, d), *ERR)
        raises(lambda: rp.TensorKey(c["x"], width=w, depth=d), *ERR)
    elif kind == "index":
        B = ctx_of(w, d, "D").tensor_basis
        raises(lambda: rp.TensorKey(index=c["i"], width=w, depth=d), *ERR)
        raises(lambda: B.index_to_key(c["i"]), *ERR)
        raises(lambda: L.index_to_key(c["i"]), *ERR)
    else:
        raises(lambda: rp.LieKey(c["x"], width=w, depth=d), *ERR)
    return ["invalid"]


ARMS = [
    Arm("words", word_case(), run_words, quick=2500, thorough=60000,
        what="index, letters, degree, splitting, product, reversal, parents, comparison and hash of words"),
    Arm("iteration", iter_case(), run_iter, quick=400, thorough=6000,
        what="iteration over tensor and Lie bases and between keys"),
    Arm("hall", hall_case(), run_hall, quick=1500, thorough=40000,
        what="Hall brackets: index, parents, sizes, and the bracket of the parents"),
    Arm("invalid", bad_case(), run_bad, quick=2000, thorough=30000,
        what="brackets outside the Hall set, letters, words and indices out of range"),
]
