"""Streams of increments: generated cases, the RoughPy streams made from them, and the reference model."""
import math
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
from rpyio import mlie, rlie, l2m, t2m, ctx_of, one, hall, pyval

TOL = {"Q": None, "P": None, "D": 1e-9, "S": 3e-3}
VT = {"dense": rp.VectorType.DenseVector, "sparse": rp.VectorType.SparseVector}


def param_to_resolution(x):
    return -min(0, math.frexp(x)[1] - 1)


def frac(v):
    return Fraction(v[0], v[1])


# ------------------------------------------------------------------------------------------------ generators

def dyadic(lo, hi, bits=4):
    """[numerator, 2^k] in [lo, hi]"""
    return st.integers(0, bits).flatmap(lambda k: st.integers(lo << k, hi << k).map(lambda n: [n, 1 << k]))


def params(n, lo=0, hi=4, bits=4):
    """n parameter values in increasing order, mostly distinct; or unordered"""
    inc = st.lists(dyadic(lo, hi, bits), min_size=n, max_size=n).map(lambda l: sorted(l, key=frac))
    return st.one_of(inc, inc, st.lists(dyadic(lo, hi, bits), min_size=n, max_size=n))


@st.composite
def rows_case(draw, ct, w, d, n, forms=("array", "array", "lies", "lists", "fortran", "strided", "dicts", "f4"), cols=None):
    form = draw(st.sampled_from(forms))
    if form == "lies":
        rows = [draw(G.lie(ct, w, d, max_size=3)) for _ in range(n)]
    else:
        c = G.int_coeff() if ct in "QP" or form in ("lists", "dicts") else G.f_coeff()
        k = cols or w
        flat = draw(st.lists(c, min_size=n * k, max_size=n * k))
        rows = [flat[i * k:(i + 1) * k] for i in range(n)]
    return {"form": form, "rows": rows}


def rows_data(rc, ct, w, d):
    """-> (what is given to RoughPy, [model Lie elements])"""
    H = hall(w, d)
    form = rc["form"]
    if form == "lies":
        ms = [mlie(x, w, d, ct) for x in rc["rows"]]
        if ct in "DS":
            ms = [{k: v / 4 for k, v in m.items()} for m in ms]
        return [rlie(m, w, d, ct, x["st"]) for m, x in zip(ms, rc["rows"])], ms
    sc = 4 if ct in "DS" and form not in ("lists", "dicts") else 1
    vals = [[frac(v) / sc for v in row] for row in rc["rows"]]
    conv = {"D": float, "S": float, "Q": Fraction, "P": lambda v: M.Poly({(): v}) if v else M.Poly()}[ct]
    ms = [M.clean({H[i]: conv(v) for i, v in enumerate(row)}) for row in vals]
    if form == "dicts":
        data = [{i: pyval(conv(v), ct) for i, v in enumerate(row) if v or i == len(row) - 1} for row in vals]
    elif form == "lists":
        data = [[float(v) for v in row] for row in vals]
    else:
        a = np.array([[float(v) for v in row] for row in vals], dtype=np.float32 if ct == "S" or form == "f4" else np.float64)
        if form == "fortran":
            a = np.asfortranarray(a)
        elif form == "strided":
            b = np.full((2 * a.shape[0], 3 * a.shape[1]), 9.5, dtype=a.dtype)
            b[::2, ::3] = a
            a = b[::2, ::3]
        data = a
    return data, ms


@st.composite
def stream_case(draw, cts="QQQDDSP", maxdim=None, nmax=6, nmin=1, hi=4, time=True, support=True, dmax=6):
    ct = draw(st.sampled_from(cts))
    dim = maxdim or {"Q": 130, "P": 30, "D": 150, "S": 80}[ct]
    w, d = draw(G.wd(dim, dmax=dmax))
    n = draw(st.integers(nmin, nmax if ct != "P" else 3))
    c = {"ct": ct, "w": w, "d": d}
    c["time"] = time and w >= 2 and draw(st.sampled_from([False, False, False, True]))
    c["rows"] = draw(rows_case(ct, w, d, n, cols=w - 1 if c["time"] else None, **({"forms": ("array", "lists", "strided")}
                                                                                   if c["time"] else {})))
    c["idx"] = draw(st.one_of(params(n, 0, hi), params(n, 0, hi), params(n, -hi, hi, 2), st.none()))
    c["iform"] = draw(st.sampled_from(["array", "list"]))
    c["res"] = draw(st.sampled_from([None, None, 0, 1, 2, 3, 5, 8]))
    c["sup"] = draw(st.one_of(st.none(), st.none(), interval(-1, hi + 1))) if support else None
    c["vt"] = draw(st.sampled_from([None, None, None, "dense", "sparse"]))
    return c


def interval(lo, hi, bits=3):
    return st.tuples(dyadic(lo, hi, bits), dyadic(lo, hi, bits)).map(
        lambda t: sorted(t, key=frac)).map(list)


@st.composite
def query(draw, lo=-1, hi=5, bits=5):
    return {"i": draw(st.one_of(interval(lo, hi, 2), interval(lo, hi, bits), st.none())),
            "r": draw(st.sampled_from([None, None, None, 0, 1, 2, 3, 4, 6, 9])),
            "f": draw(st.sampled_from(["real", "real", "pair", "pairr"]))}


# ------------------------------------------------------------------------------------------------ model

class SM:
    """A stream of increments: events (parameter, Lie element as a tensor) with the resolution and support."""

    def __init__(self, events, res, support, ct, d=None):
        self.events = sorted(events, key=lambda e: e[0])          # stable: data order at equal parameters
        if d is not None:                                         # a stream of depth d has one increment for a parameter
            self.events = self.merged(self.events, d, one(ct))
        self.res, self.ct = res, ct
        self.support = support
        self._memo = {}

    @staticmethod
    def merged(events, d, unit):
        out = []
        for p, e in events:
            if out and out[-1][0] == p:
                a, b = out.pop()[1], M.truncate(e, d)
                if a and b:
                    e = M.log(M.mul(M.exp(M.truncate(a, d), d, unit), M.exp(b, d, unit), d), d)
                else:
                    e = a or b
            out.append((p, e))
        return out

    def restrict(self, sup):
        r = SM(self.events, self.res, sup, self.ct)
        r._memo = self._memo
        return r

    def trimmed(self, i):
        if i is None:
            i = self.support
        a, b = max(i[0], self.support[0]), min(i[1], self.support[1])
        return (a, b) if a < b else None

    def query_res(self, i, r):
        t = self.trimmed(i)
        if t is None or r is not None:
            return r
        return max(self.res, param_to_resolution(float(t[1] - t[0])) + 2)

    def selected(self, i, r):
        t = self.trimmed(i)
        if t is None:
            return ()
        r = self.query_res(i, r)
        a, b = M.floor_dyadic(t[0], r), M.floor_dyadic(t[1], r)
        return tuple(k for k, (p, _) in enumerate(self.events) if a <= M.floor_dyadic(p, self.res) < b)

    def sig(self, i, r, d):
        key = (self.selected(i, r), d)
        if key not in self._memo:
            e = {(): one(self.ct)}
            for k in key[0]:
                e = M.mul(e, M.exp(M.truncate(self.events[k][1], d), d, one(self.ct)), d)
            self._memo[key] = e
        return self._memo[key]

    def logsig(self, i, r, d):
        """as a tensor"""
        return M.log(self.sig(i, r, d), d)


def make(c):
    """-> (RoughPy stream, SM)"""
    ct, w, d = c["ct"], c["w"], c["d"]
    data, ms = rows_data(c["rows"], ct, w, d)
    kw = {}
    n = len(ms)
    if c["idx"] is not None:
        idx = [frac(v) for v in c["idx"]]
        f = [float(v) for v in idx]
        kw["indices"] = np.array(f) if c["iform"] == "array" else f
    else:
        idx = [Fraction(i) for i in range(n)]
    if c["res"] is not None:
        kw["resolution"] = c["res"]
    if c["sup"] is not None:
        kw["support"] = rp.RealInterval(float(frac(c["sup"][0])), float(frac(c["sup"][1])))
    if c["vt"]:
        kw["vtype"] = VT[c["vt"]]
    ctx = ctx_of(w, d, ct)
    if c["time"]:
        kw["include_time"] = True
        prev = Fraction(0)
        conv = {"D": float, "S": float, "Q": Fraction, "P": lambda v: M.Poly({(): v}) if v else M.Poly()}[ct]
        for i in sorted(range(n), key=lambda i: idx[i]):
            if idx[i] != prev:
                ms[i][w] = conv(idx[i] - prev)
            prev = idx[i]
    s = rp.LieIncrementStream.from_increments(data, ctx=ctx, **kw)
    make.given = data, kw.get("indices")
    res = s.resolution
    if c["res"] is not None:
        assert res == c["res"], f"resolution {res} of a stream made with resolution {c['res']}"
    sup = s.support
    assert sup.interval_type == rp.IntervalType.Clopen if hasattr(sup, "interval_type") else True
    support = (Fraction(sup.inf()), Fraction(sup.sup()))
    if c["sup"] is not None:
        assert support == (frac(c["sup"][0]), frac(c["sup"][1])), "support is not the one given"
    else:
        assert support[0] <= min(idx) and support[1] > max(idx), f"support {sup} does not cover the data"
    assert s.width == w and s.ctx.depth == d and s.ctx.width == w
    return s, SM([(p, M.lie_expand(m)) for p, m in zip(idx, ms)], res, support, ct, d)


def qargs(q):
    """-> (positional arguments, keyword arguments) of a query"""
    a, k = (), {}
    if q["i"] is not None:
        x, y = (float(frac(v)) for v in q["i"])
        a = (x, y) if q["f"].startswith("pair") else (rp.RealInterval(x, y),)
    if q["r"] is not None:
        if q["f"] == "pairr" or (q["f"] == "pair" and a):
            k["resolution"] = q["r"]
        else:
            a = a + (q["r"],)
    return a, k


def qi(q):
    return None if q["i"] is None else tuple(frac(v) for v in q["i"])


def noncommuting(sm, sel):
    """at least two of the selected increments are not multiples of each other"""
    ev = [sm.events[k][1] for k in sel if sm.events[k][1]]
    for i in range(1, len(ev)):
        if M.bracket(ev[0], ev[i], 9):
            return True
    return False
