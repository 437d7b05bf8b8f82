"""C12: pickles and copies equal the original."""
import copy
import os
import pickle
import struct
import subprocess
import sys
import tempfile
from fractions import Fraction
from hypothesis import strategies as st
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C17
import C20
import alg
import gens as G
import model as M
import roughpy as rp
import smodel as S
from fw import Arm, Discard
from rpyio import mcoeff, same, to_poly, ct_of, parse_poly
from smodel import frac

RULE = ("cases are elements of all kinds, contexts, storages and coefficient types, polynomials, intervals, dyadics and "
        "partitions, and streams with a history of queries, restrictions, pickles, loads in this and in another process; "
        "non-trivial when the value is not zero and, for streams, a loaded stream is asked for a non-zero signature")
R = rp.RealInterval
HERE = os.path.dirname(os.path.abspath(__file__))
WORKER = r"""
import sys, os, struct, pickle, tempfile
for p in %r: sys.path.insert(0, p)
import roughpy as rp
sys.path.insert(0, %r)
import C12
out = os.fdopen(os.dup(1), 'wb'); os.dup2(2, 1)
while True:
    h = sys.stdin.buffer.read(8)
    if len(h) < 8: break
    p = sys.stdin.buffer.read(struct.unpack('<q', h)[0])
    with tempfile.TemporaryDirectory() as w:
        os.chdir(w)
        try: r = ('ok', C12.served(p))
        except Exception as e: r = ('error', type(e).__name__ + ': ' + str(e)[:300])
        os.chdir('/')
    b = pickle.dumps(r)
    out.write(struct.pack('<q', len(b)) + b); out.flush()
"""
_worker = None


def served(p):
    """in the other process: load and describe"""
    blob, asks = pickle.loads(p)
    x = pickle.loads(blob)
    if asks is None:
        return describe(x)
    return [C17.value(C17.ask(x, {}, q, *a)) for q, a in asks]


def elsewhere(blob, asks=None):
    """what another process, in an empty folder, makes of a pickle"""
    global _worker
    if _worker is None or _worker.poll() is not None:
        _worker = subprocess.Popen([sys.executable, "-W", "ignore", "-c", WORKER % (sys.path, HERE)],
                                   stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    m = pickle.dumps((blob, asks))
    _worker.stdin.write(struct.pack("<q", len(m)) + m)
    _worker.stdin.flush()
    h = _worker.stdout.read(8)
    assert len(h) == 8, "the process that loaded the pickle ended"
    r = pickle.loads(_worker.stdout.read(struct.unpack("<q", h)[0]))
    assert r[0] == "ok", f"another process could not load the pickle: {r[1]}"
    return r[1]


def describe(x):
    k = type(x).__name__
    if k in ("FreeTensor", "ShuffleTensor", "Lie"):
        ct = ct_of(x)
        c = x.context
        return (k, ct, x.width, x.max_degree, str(x.storage_type), c.width, c.depth, str(c.ctype), x.degree(),
                alg.read("lie" if k == "Lie" else "free", x, ct))
    if k == "PolynomialScalar":
        return k, parse_poly(str(x)) if "{" in str(x) else M.Poly(Fraction(str(x)))
    if k == "Monomial":
        return k, str(x)
    if k == "Dyadic":
        return k, x.k, x.n
    if k == "DyadicInterval":
        i = x.dyadic_included_end()
        e = x.dyadic_excluded_end()
        return k, i.k, i.n, e.k, e.n, x.inf(), x.sup(), str(x.interval_type)
    if k == "RealInterval":
        return k, x.inf(), x.sup(), str(x.interval_type)
    if k == "Partition":
        return k, x.inf(), x.sup(), str(x.interval_type), list(x.intermediates())
    if isinstance(x, (list, tuple, dict)):
        return k, [describe(y) for y in (x.values() if k == "dict" else x)]
    return k, x


def shaken(x, how):
    """a copy by pickle (any protocol), copy or deepcopy"""
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "twice":
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))
    return pickle.loads(pickle.dumps(x, protocol=how))


HOWS = ["copy", "deepcopy", "twice", 2, 3, 4, 5]


# ------------------------------------------------------------------------------------------------ elements

@st.composite
def element_case(draw):
    ct = draw(G.ct())
    w, d = draw(G.wd({"Q": 300, "P": 60}.get(ct, 400)))
    kind = draw(st.sampled_from(["free", "shuffle", "lie"]))
    g = G.lie if kind == "lie" else G.tensor
    return {"ct": ct, "w": w, "d": d, "kind": kind, "xs": draw(st.lists(g(ct, w, d, big=ct == "Q"), min_size=1, max_size=3)),
            "how": draw(st.sampled_from(HOWS)), "far": draw(st.sampled_from([False] * 5 + [True])),
            "huge": draw(st.sampled_from([0] * 6 + [2, 6, 30, 60])) if ct in "QP" else 0}


def huge(x, n):
    """x with numerators and denominators of about 50 n bits"""
    for k in range(n):
        x = x * 3 ** 30
        if k % 2:
            x = x / 7 ** 17
    return x


def run_element(c):
    ct, w, d, kind = c["ct"], c["w"], c["d"], c["kind"]
    xs = [alg.make(kind, x, w, d, ct)[0] for x in c["xs"]]
    xs = [huge(x, c.get("huge", 0)) for x in xs]
    old = [describe(x) for x in xs]
    ys = shaken(xs, c["how"]) if c["how"] != "copy" else [copy.copy(x) for x in xs]
    assert len(ys) == len(xs)
    for x, y, o in zip(xs, ys, old):
        assert describe(y) == o, f"{c['how']}: {describe(y)} instead of {o}"
        assert y == x and not (y != x), f"{c['how']}: {y} does not equal {x}"
    if c["far"]:
        r = elsewhere(pickle.dumps(xs))
        assert r[1] == old, f"in another process: {r[1]} instead of {old}"
    # the copies can be used with the originals, and are independent of them
    for x, y, o in zip(xs, ys, old):
        s = x + y
        if o[-1]:
            assert s == x * 2, "a copy plus the original is not twice the original"
        y += y
        y *= 3
        assert describe(x) == o, "the original changed with the copy"
        del y
    nz = [o for o in old if len(o[-1]) > 0]
    if not nz:
        return None
    return [ct, kind] + sorted({o[4] for o in old}) + [str(c["how"])]


# ------------------------------------------------------------------------------------------------ other values

@st.composite
def value_case(draw):
    k = draw(st.sampled_from(["poly", "poly", "monomial", "dyadic", "dyadic interval", "real", "partition"]))
    c = {"k": k, "how": draw(st.sampled_from(HOWS)), "far": draw(st.sampled_from([False] * 5 + [True]))}
    if k in ("poly", "monomial"):
        c["v"] = draw(G.p_coeff())
        c["huge"] = draw(st.sampled_from([0, 0, 0, 0, 0, 6, 40]))
        c["v"] += [[draw(st.integers(-2 ** 70, 2 ** 70)), draw(st.integers(1, 2 ** 66)), [["z", 7, 1]]]] \
            if draw(st.booleans()) else []
        c["e"] = draw(st.lists(st.tuples(st.sampled_from("abcxyzXZ"), st.one_of(st.integers(0, 10 ** 6), st.integers(0, 2 ** 56 - 1)), st.integers(1, 5)).map(list),
                               min_size=1, max_size=4, unique_by=lambda t: (t[0], t[1])))
    elif k.startswith("dyadic"):
        c["kn"] = [draw(st.integers(-2 ** 30, 2 ** 30)), draw(st.integers(-20, 30))]
    else:
        c["i"] = sorted(draw(st.lists(st.integers(-2 ** 40, 2 ** 40), min_size=2, max_size=6, unique=True)))
        c["s"] = draw(st.integers(-30, 40))
    return c


def run_value(c):
    k = c["k"]
    if k == "poly":
        x = to_poly(mcoeff([[n if abs(n) < 2 ** 62 else n >> 10, d if abs(d) < 2 ** 62 else d >> 6, m] for n, d, m in c["v"]], "P"))
        x = huge(x, c.get("huge", 0))
    elif k == "monomial":
        x = None
        for letter, i, e in c["e"]:
            for _ in range(e):
                m = rp.Monomial(f"{letter}{i}")
                x = m if x is None else x * m
    elif k == "dyadic":
        x = rp.Dyadic(*c["kn"])
    elif k == "dyadic interval":
        x = rp.DyadicInterval(*c["kn"])
    else:
        v = [a * 2.0 ** -c["s"] for a in c["i"]]
        x = R(v[0], v[-1]) if k == "real" else rp.Partition(R(v[0], v[-1]), v[1:-1])
    o = describe(x)
    y = shaken(x, c["how"])
    assert describe(y) == o, f"{c['how']}: {describe(y)} instead of {o}"
    if k != "dyadic":
        assert y == x, f"{c['how']}: {y} does not equal {x}"
    if c["far"]:
        r = elsewhere(pickle.dumps(x))
        assert r == o, f"in another process: {r} instead of {o}"
    if k == "poly":
        z = y + 1
        assert describe(z)[1] == o[1] + M.Poly(1) and describe(x) == o
        if not o[1].t:
            return None
    return [k, str(c["how"])]


# ------------------------------------------------------------------------------------------------ streams

@st.composite
def stream_case(draw):
    kind = draw(st.sampled_from(["increments"] * 6 + ["increments of values"] * 2 + ["ticks", "pieces"]))
    base = {"increments": S.stream_case(maxdim=60), "increments of values": C20.tv_case(),
            "ticks": C17.C19.stream_case(), "pieces": C20.pas_case()}[kind]
    bs = []
    for _ in range(draw(st.sampled_from([1, 2, 2]))):
        b = draw(base)
        for k in ("q", "qs", "sub"):
            b.pop(k, None)
        b["qs"] = []
        bs.append(b)
    qs = [{"q": draw(S.query(-1, 5)), "as": draw(st.sampled_from([None] * 4 + ["deeper", "shallower"])),
           "k": draw(st.sampled_from(["sig", "log"]))} for _ in range(draw(st.integers(1, 3)))]
    ops = [{"op": draw(st.sampled_from(["q", "q", "q", "dump", "dump", "load", "load", "far", "restrict", "moved"])),
            "s": draw(st.integers(0, 5)), "n": draw(st.integers(0, 2)), "i": draw(S.interval(-1, 5, 2)), "r": 2}
           for _ in range(draw(st.integers(3, 9)))]
    return {"kind": kind, "bs": bs, "qs": qs, "ops": ops + [{"op": "dump", "s": 0}, {"op": "load", "s": 0}, {"op": "q", "s": 9, "n": 0}]}


def in_scratch(fn):
    def f(c):
        old = os.getcwd()
        with tempfile.TemporaryDirectory() as w:
            os.chdir(w)          # caches of pickled streams are kept in the current folder
            try:
                return fn(c)
            finally:
                os.chdir(old)
    return f


@in_scratch
def run_stream(c):
    pool, dumps, known, labels, loaded = [], [], {}, {c["kind"]}, set()
    cs = [{"kind": c["kind"], "base": b} for b in c["bs"]]
    for k, b in enumerate(cs):
        pool.append((C17.build(b)[0], (k,)))
    probes = []
    for s, _ in pool:
        p = s.signature(R(0, 1))
        probes.append((p.width, p.max_degree, ct_of(p)))
    hit = False

    def fresh(path):
        s = C17.build(cs[path[0]])[0]
        for i in path[1:]:
            s = s.restrict(R(*i))
        return s

    def expected(path, n):
        q = c["qs"][n]
        if (path, n) not in known:
            known[path, n] = C17.value(C17.ask(fresh(path), {}, q, *probes[path[0]]))
        return known[path, n]

    for num, op in enumerate(c["ops"]):
        s, path = pool[op["s"] % len(pool) if op["s"] != 9 else -1]
        n = op.get("n", 0) % len(c["qs"])
        if op["op"] == "q":
            v = C17.value(C17.ask(s, {}, c["qs"][n], *probes[path[0]]))
            C17.agree(v, expected(path, n), f"{c['qs'][n]} of a stream after {[o['op'] for o in c['ops'][:num]]}")
            if id(s) in loaded and len(v[4]) > 1:
                hit = True
        elif op["op"] == "dump":
            try:
                p = pickle.dumps(s)
            except Exception as e:       # not all kinds of streams can be pickled; they must say so, and stay as they were
                if c["kind"].startswith("increments"):
                    raise AssertionError(f"a stream of increments cannot be pickled: {e}")
                labels.add("refused")
                continue
            dumps.append((p, path))
        elif op["op"] == "load" and dumps:
            p, path = dumps[op["s"] % len(dumps)]
            t = pickle.loads(p)
            o = fresh(path)
            assert (t.width, t.dtype, t.ctx.depth, t.resolution, t.support) == \
                (o.width, o.dtype, o.ctx.depth, o.resolution, o.support), "metadata of the loaded stream"
            assert t.ctx == o.ctx, "context of the loaded stream"
            pool.append((t, path))
            loaded.add(id(t))
        elif op["op"] == "far" and dumps:
            p, path = dumps[op["s"] % len(dumps)]
            got = elsewhere(p, [(q, probes[path[0]]) for q in c["qs"]])
            for k, v in enumerate(got):
                C17.agree(v, expected(path, k), f"{c['qs'][k]} of a stream loaded in another process")
                hit = hit or len(v[4]) > 1
            labels.add("far")
        elif op["op"] == "restrict":
            i = tuple(float(frac(v)) for v in op["i"])
            if i[0] < i[1]:
                t = s.restrict(R(*i))
                pool.append((t, path + (i,)))
                if id(s) in loaded:
                    loaded.add(id(t))
                labels.add("restrict")
        elif op["op"] == "moved":
            os.makedirs(f"d{num}", exist_ok=True)
            os.chdir(f"d{num}")
    if "refused" in labels and not c["kind"].startswith("increments"):
        return [c["kind"], "refused"]
    return sorted(labels) + ([] if len(cs) == 1 else ["two streams"]) if hit else None


# ------------------------------------------------------------------------------------------------ Brownian streams

@st.composite
def brownian_case(draw):
    return {"w": draw(st.integers(1, 4)), "d": draw(st.integers(1, 3)), "ct": draw(st.sampled_from("DDS")),
            "before": draw(st.lists(S.query(-2, 3, 2), max_size=3)), "after": draw(st.lists(S.query(-2, 3, 2), min_size=1, max_size=3)),
            "far": draw(st.sampled_from([False, False, True]))}


@in_scratch
def run_brownian(c):
    s = rp.BrownianStream.with_generator(width=c["w"], depth=c["d"], dtype=C17.DT[c["ct"]])

    def ask(x, q):
        if q["r"] is not None and q["r"] > 6:
            q = {**q, "r": 6}
        return C17.value(C17.ask(x, {}, {"q": q, "as": None, "k": "log"}, c["w"], c["d"], c["ct"]))
    # the support is the whole line: there is no increment over it to ask for
    c = {**c, **{k: [q for q in c[k] if q["i"] is not None] for k in ("before", "after")}}
    for q in c["before"]:
        ask(s, q)
    p = pickle.dumps(s)
    t = pickle.loads(p)
    hit = False
    asked = c["before"] + c["after"]
    far = None
    if c["far"]:
        far = elsewhere(p, [({"q": {**q, "r": min(q["r"], 6) if q["r"] is not None else None}, "as": None, "k": "log"},
                             (c["w"], c["d"], c["ct"])) for q in asked])
    for k, q in enumerate(asked):
        a, b = ask(s, q), ask(t, q)
        assert a == b, f"{q}: the loaded Brownian stream is at {b}, the original at {a}"
        if far:
            assert far[k] == a, f"{q}: the stream loaded in another process is at {far[k]}, the original at {a}"
        hit = hit or len(a[4]) > 0
    return [c["ct"], "asked before" if c["before"] else "new"] + (["far"] if far else []) if hit else None


ARMS = [
    Arm("elements", element_case(), run_element, quick=6000, what="tensors and Lie elements of all storages and coefficient types"),
    Arm("values", value_case(), run_value, quick=4000, what="polynomials, monomials, dyadics, intervals, partitions"),
    Arm("streams", stream_case(), run_stream, quick=2000, what="streams of increments, pickled and loaded in a history"),
    Arm("brownian", brownian_case(), run_brownian, quick=1500, what="Brownian streams with their path so far and their generator"),
]
