"""C17: queries, restrictions, results and data given never change a stream."""
import os
import sys
from hypothesis import strategies as st
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C19
import C20
import gens as G
import model as M
import numpy as np
import roughpy as rp
import smodel as S
from fw import Arm, Discard
from rpyio import l2m, t2m, same, ct_of, ctx_of, scalar
from smodel import TOL, frac

RULE = ("cases are streams of four kinds with generated histories of queries, restrictions, simplifications, refused "
        "queries, in-place changes of results and of the data the stream was made from; non-trivial when the stream has "
        "data and the history repeats a query after another one, or after a change")
R = rp.RealInterval
DT = {"D": rp.DPReal, "S": rp.SPReal, "Q": rp.Rational, "P": rp.RationalPoly}


@st.composite
def history(draw, lo=-1, hi=5):
    qs = [{"q": draw(S.query(lo, hi)), "as": draw(st.sampled_from([None] * 4 + ["deeper", "shallower", "dtype", "ctx"])),
           "k": draw(st.sampled_from(["sig", "log", "log"]))} for _ in range(draw(st.integers(1, 4)))]
    if draw(st.booleans()):       # the same interval at another resolution
        x = dict(draw(st.sampled_from(qs)))
        qs.append({**x, "q": {**x["q"], "r": draw(st.sampled_from([None, 0, 1, 2, 4, 7]))}})
    ops = []
    for _ in range(draw(st.integers(3, 9))):
        k = draw(st.sampled_from(["q"] * 8 + ["restrict", "simplify", "bad", "given", "derivative"]))
        op = {"op": k, "s": draw(st.sampled_from([0, 0, 0, 1, 2, 3]))}
        if k == "q":
            op["n"] = draw(st.integers(0, len(qs) - 1))
            op["then"] = draw(st.sampled_from([None, None, "add", "scale", "fused", "exp"]))
        elif k in ("restrict", "simplify", "derivative"):
            op["i"] = draw(S.interval(lo, hi, 2))
            op["r"] = draw(st.sampled_from([1, 2, 4]))
        elif k == "bad":
            op["b"] = draw(st.integers(0, 6))
        else:
            op["b"] = draw(st.integers(0, 3))
        ops.append(op)
    return {"qs": qs, "ops": ops}


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["increments", "increments", "increments", "ticks", "pieces", "values", "increments of values"]))
    base = {"increments": S.stream_case(maxdim=60), "ticks": C19.stream_case(), "pieces": C20.pas_case(),
            "values": C20.tv_case(), "increments of values": C20.tv_case()}[kind]
    b = draw(base)
    for k in ("q", "qs", "sub"):
        b.pop(k, None)
    b["qs"] = []
    return {"kind": kind, "base": b, **draw(history())}


def build(c):
    """-> (stream, data given)"""
    kind, b = c["kind"], c["base"]
    if kind == "increments":
        s = S.make(b)[0]
        return s, list(S.make.given)
    if kind == "ticks":
        return C19.build(b)[0], []
    if kind == "pieces":
        s, given, _ = C20.build_pas(b)
        return s, given
    s, given, _ = C20.build_tv(b)
    return (s.increment_stream() if kind != "values" else s), given


def derive(s, op):
    i = [float(frac(v)) for v in op["i"]]
    if i[0] >= i[1]:
        return None
    if isinstance(s, rp.TensorValuedStream):
        dom = s.domain()
        if min(i[1], dom.sup()) <= max(i[0], dom.inf()):
            return None
        return s.query(R(*i)) if op["op"] == "restrict" else None
    if op["op"] == "restrict":
        return s.restrict(R(*i))
    if s.dtype == rp.RationalPoly:
        return None
    m = (i[0] + i[1]) / 2
    p = rp.Partition(R(*i), [i[0] + (i[1] - i[0]) / 4, m])
    return s.simplify(p, resolution=op["r"] + 3)


def ask(s, c, q, w, d, ct):
    a, k = S.qargs(q["q"])
    how = q["as"]
    if how == "deeper" and M.tensor_dim(w, d + 1) < 130:
        k["depth"] = d + 1
    elif how == "shallower" and d > 1:
        k["depth"] = d - 1
    elif how == "dtype" and ct in "DQ":
        k["dtype"] = rp.SPReal if ct == "D" else rp.DPReal
    elif how == "ctx":
        e = d - 1 if d > 1 else d + 1
        k["ctx"] = ctx_of(w, e, ct)
    return s.signature(*a, **k) if q["k"] == "sig" else s.log_signature(*a, **k)


def value(x):
    ct = ct_of(x)
    m = (l2m if isinstance(x, rp.Lie) else t2m)(x, ct)
    return type(x).__name__, ct, x.width, x.max_degree, m


def agree(a, b, what):
    assert a[:4] == b[:4], f"{what}: {a[:4]} instead of {b[:4]}"
    same(a[4], b[4], a[1], what, TOL[a[1]])


BAD = [
    lambda s, w, d: s.signature(R(0, 1), ctx=rp.get_context(w + 1, d, rp.DPReal)),
    lambda s, w, d: s.log_signature(R(0, 1), depth=-2),
    lambda s, w, d: s.log_signature("x", 3),
    lambda s, w, d: s.signature(R(0, 1), resolution="fine"),
    lambda s, w, d: s.signature(R(0, 1), dtype="no such type"),
    lambda s, w, d: s.log_signature(R(0, 1), 2, ctx=3),
    lambda s, w, d: s.signature(1.0, 0.0, 4, 5, 6, 7, 8),
]


def spoil(given, n):
    """changes the data a stream was made from, in place"""
    def one_(x):
        if isinstance(x, np.ndarray):
            x[...] = 77.5
        elif isinstance(x, (rp.Lie, rp.FreeTensor)):
            x *= 3
            x += x
        elif isinstance(x, list):
            for y in x:
                one_(y)
            if n % 2:
                x.clear()
        elif isinstance(x, dict):
            x.clear()
        elif isinstance(x, tuple):
            for y in x:
                one_(y)
    one_(given)


def change(x, how):
    """changes a result of a query in place"""
    if how == "add":
        x += x
    elif how == "scale":
        x *= 5
    elif how == "fused" and x.dtype in (rp.DPReal, rp.SPReal):
        x.add_scal_mul(x * 1.0, scalar(2.0, ct_of(x)))
    elif how == "exp" and isinstance(x, rp.FreeTensor) and x.max_degree <= 5:
        x -= x
        x += x.exp()


def run(c):
    s0, given = build(c)
    tv = isinstance(s0, rp.TensorValuedStream)
    probe = s0.signature(R(0, 1))
    w, d, ct = probe.width, probe.max_degree, ct_of(probe)
    pool = [(s0, [])]

    def fresh(path):
        s = build(c)[0]
        for op in path:
            s = derive(s, op)
        return s

    known, count, labels, touched = {}, {}, {c["kind"]}, False
    for op in c["ops"]:
        n = op["s"] % len(pool)
        s, path = pool[n]
        if op["op"] == "q":
            q = c["qs"][op["n"]]
            x = ask(s, c, q, w, d, ct)
            v = value(x)
            key = (n, op["n"])
            what = f"{q['k']} {q['q']} {q['as'] or ''} of the {c['kind']} stream {'>'.join(o['op'] for o in path)}"
            if key not in known:
                known[key] = value(ask(fresh(path), c, q, w, d, ct))
            agree(v, known[key], what + " after the history")
            if v[4] and len(v[4]) > 1:
                if count.get(key) and len(known) > 1:
                    labels.add("repeated")
                if touched:
                    labels.add("after a change")
                count[key] = 1
            if op["then"]:
                change(x, op["then"])
                touched = True
        elif op["op"] in ("restrict", "simplify"):
            t = derive(s, op)
            if t is not None and len(pool) < 5:
                pool.append((t, path + [op]))
                labels.add(op["op"])
        elif op["op"] == "bad":
            try:
                BAD[op["b"]](s, w, d)
            except Exception:
                labels.add("refused")
        elif op["op"] == "given":
            spoil(given, op["b"])
            if given:
                touched = True
                labels.add("data changed")
        elif op["op"] == "derivative" and not tv and ct in "DQ":
            i = [float(frac(v)) for v in op["i"]]
            if i[0] < i[1]:
                p = rp.Lie([1] * w if ct == "Q" else [1.0] * w, ctx=s.ctx)
                s.signature_derivative([(R(*i), p)], op["r"])
    # in the end, everything asked is still answered the same
    for (n, k), v in known.items():
        agree(value(ask(pool[n][0], c, c["qs"][k], w, d, ct)), v, f"{c['qs'][k]} of stream {n} in the end")
    if not labels & {"repeated", "after a change"}:
        return None
    return [ct] + sorted(labels)


ARMS = [
    Arm("histories", case(), run, quick=4000, what="every answer in a history equals that of a new stream asked only once"),
]
