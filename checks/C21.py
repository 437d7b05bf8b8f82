"""C21: streams computed on demand - of a function and of a Brownian motion - under histories of queries."""
import math
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
import smodel as S
from fw import Arm, Discard
from rpyio import l2m, t2m, rlie, same, ctx_of, hall, one
from smodel import TOL, frac

RULE = ("cases are streams of generated functions, and Brownian streams, each with a history of queries at different "
        "intervals, resolutions, depths and types, restrictions and (for functions) exceptions at a chosen call; "
        "non-trivial when a later query overlaps an earlier one at another resolution or over other end points")
R = rp.RealInterval
DT = {"D": rp.DPReal, "S": rp.SPReal, "Q": rp.Rational, "P": rp.RationalPoly}


# ------------------------------------------------------------------------------------------------ histories

@st.composite
def history(draw, rmax, lo=-2, hi=3, faults=True, extra=True, nmax=6):
    ops = []
    for _ in range(draw(st.integers(2, nmax))):
        k = draw(st.sampled_from(["q"] * 6 + (["fault"] if faults else []) + ["restrict"]))
        op = {"op": k, "i": draw(st.one_of(S.interval(lo, hi, 0), S.interval(lo, hi, 2), S.interval(lo, hi, 4))),
              "s": draw(st.sampled_from([0, 0, 0, 1, 2]))}
        if k != "restrict":
            op["r"] = draw(st.sampled_from([None] + list(range(rmax + 1))))
        if k == "fault":
            op["n"] = draw(st.integers(0, 12))
        if k == "q" and extra:
            op["as"] = draw(st.sampled_from([None, None, None, "deeper", "shallower", "dtype"]))
        ops.append(op)
    return ops


def overlapping(ivs):
    """two queries overlap without being the same"""
    for x in range(len(ivs)):
        for y in range(x):
            (a, b, r), (c, e, q) = ivs[x], ivs[y]
            if (a, b, r) != (c, e, q) and max(a, c) < min(b, e):
                return True
    return False


# ------------------------------------------------------------------------------------------------ functions

@st.composite
def fn_case(draw):
    ct = draw(st.sampled_from("QQDDS"))
    w, d = draw(G.wd(60, dmax=5))
    n = M.lie_dim(w, d)
    cf = st.integers(-3, 3)
    term = st.tuples(st.integers(0, n - 1), st.lists(cf, min_size=1, max_size=4), S.dyadic(-2, 3, 3), cf).map(list)
    c = {"ct": ct, "w": w, "d": d,
         "terms": draw(st.lists(term, min_size=1, max_size=min(n, 4), unique_by=lambda t: t[0])),
         "res": draw(st.sampled_from([None, 0, 1, 2, 4])),
         "sup": draw(st.one_of(st.none(), S.interval(-2, 3, 2))),
         "vt": draw(st.sampled_from([None, None, "dense", "sparse"])),
         "ops": draw(history(4))}
    return c


class Boom(Exception):
    pass


class Fn:
    """the function of a case: records the points where it was evaluated; raises at a given call"""

    def __init__(self, c):
        self.c, self.points, self.fuse, self.calls = c, set(), None, 0
        self.H = hall(c["w"], c["d"])

    def value(self, t):
        r = {}
        for i, cs, at, step in self.c["terms"]:
            v = sum((Fraction(x) * t ** k for k, x in enumerate(cs)), Fraction(0))
            if t >= frac(at):
                v += step
            r[self.H[i]] = v if self.c["ct"] in "QP" else float(v)
        return M.clean(r)

    def __call__(self, t, ctx):
        self.calls += 1
        if self.fuse is not None:
            self.fuse -= 1
            if self.fuse < 0:
                raise Boom("this is raised on purpose")
        t = Fraction(t)
        self.points.add(t)
        assert ctx.width == self.c["w"] and ctx.depth == self.c["d"]
        return rlie(self.value(t), self.c["w"], self.c["d"], self.c["ct"], ctx=ctx)


def product(f, pts, d, ct):
    r = {(): one(ct)}
    for a, b in zip(pts, pts[1:]):
        x = M.sub(f.value(b), f.value(a))
        if x:
            r = M.mul(r, M.exp(M.truncate(M.lie_expand(x), d), d, one(ct)), d)
    return r


def run_fn(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    f = Fn(c)
    ctx = ctx_of(w, d, ct)
    kw = {}
    if c["res"] is not None:
        kw["resolution"] = c["res"]
    if c["sup"]:
        kw["support"] = R(*[float(frac(v)) for v in c["sup"]])
    if c["vt"]:
        kw["vtype"] = S.VT[c["vt"]]
    s = rp.FunctionStream.from_function(f, ctx=ctx, **kw)
    sup = tuple(frac(v) for v in c["sup"]) if c["sup"] else (Fraction(-1000), Fraction(1000))
    if c["sup"] and sup[0] == sup[1]:
        raise Discard()
    sm = S.SM([], c["res"] or 0, sup, ct)
    streams = [(s, sm)]
    done, labels = [], set()
    rs = []
    for op in c["ops"]:
        s, sm = streams[op["s"] % len(streams)]
        i = tuple(frac(v) for v in op["i"])
        if op["op"] == "restrict":
            if i[0] < i[1]:
                streams.append((s.restrict(R(float(i[0]), float(i[1]))), sm.restrict(i)))
            continue
        q = {"i": op["i"], "r": op["r"], "f": "real"}
        a, k = S.qargs(q)
        t = sm.trimmed(i)
        r = sm.query_res(i, op["r"])
        depth, ct2 = d, ct
        if op.get("as") == "deeper" and M.tensor_dim(w, d + 1) < 130:
            depth = k["depth"] = d + 1
        elif op.get("as") == "shallower" and d > 1:
            depth = k["depth"] = d - 1
        elif op.get("as") == "dtype" and ct == "D":
            ct2, k["dtype"] = "S", rp.SPReal
        if op["op"] == "fault":
            f.fuse = op["n"]
            try:
                s.signature(*a, **k)
            except Exception as e:
                assert "on purpose" in str(e), f"{type(e)}: {e}"
                labels.add("fault")
            f.fuse = None
        sg = s.signature(*a, **k)
        ls = s.log_signature(*a, **k)
        assert ls.max_degree == sg.max_degree == depth and ls.width == w
        if t is None:
            exp = {(): one(ct)}
        else:
            lo, hi = M.floor_dyadic(t[0], r), M.floor_dyadic(t[1], r)
            grid = [lo + Fraction(j, 1) / 2 ** r for j in range(int((hi - lo) * 2 ** r) + 1)]
            pts = sorted(set(grid) | {p for p in f.points if lo <= p <= hi})
            what = f"signature over {op['i']} at {r}"
            if hi > lo:
                missing = set(grid) - f.points
                assert not missing, f"{what}: the function is not evaluated at {sorted(missing)[:5]}"
                done.append((lo, hi, r))
                rs.append(r)
            got = t2m(sg, ct2)
            exp = product(f, pts, depth, ct)
            try:
                same(got, exp, ct2, what + f", pieces {[str(p) for p in pts][:40]}", TOL[ct2])
            except AssertionError:
                exp = product(f, grid, depth, ct)
                if len(pts) == len(grid):
                    raise
                same(got, exp, ct2, what + f", pieces {[str(p) for p in grid][:40]} or with finer pieces", TOL[ct2])
        same(M.lie_expand(l2m(ls, ct2)), M.log(exp, depth), ct2, f"log-signature over {op['i']} at {r}", TOL[ct2])
        sg2 = s.signature(*a, **k)
        assert sg2 == sg, f"the same query gives {sg2} after {sg}"
    # at a common resolution, everything fits together
    if rs:
        s, sm = streams[0]
        r = max(rs)
        ends = sorted({x for a, b, q in done for x in (a, b)} & set(
            x for x in {x for a, b, q in done for x in (a, b)} if sm.support[0] <= x <= sm.support[1]))
        if len(ends) > 1:
            ivs = [(float(x), float(y)) for x, y in zip(ends, ends[1:])]
            for x in ivs:
                s.signature(R(*x), r)
            whole = s.signature(R(ivs[0][0], ivs[-1][1]), r)
            p = None
            for x in ivs:
                y = s.signature(R(*x), r)
                p = y if p is None else p * y
            same(t2m(p, ct), t2m(whole, ct), ct, f"product over {ivs} at {r}", TOL[ct])
    if not overlapping(done):
        return None
    return [ct] + sorted(labels)


# ------------------------------------------------------------------------------------------------ Brownian motion

@st.composite
def bm_case(draw):
    w, d = draw(G.wd(60, dmax=4))
    return {"ct": draw(st.sampled_from("DDS")), "w": w, "d": d, "res": draw(st.sampled_from([None, 0, 2, 3])),
            "ops": draw(history(5, -3, 4, faults=False, nmax=8))}


class Path:
    """increments that were seen over intervals: they have to be those of one path"""

    def __init__(self, tol):
        self.edges, self.tol = {}, tol

    def value(self, a, b):
        """known increment from a to b, or None"""
        seen, todo = {a: 0}, [a]
        while todo:
            x = todo.pop()
            for y, v in self.edges.get(x, []):
                if y not in seen:
                    seen[y] = seen[x] + v
                    todo.append(y)
        return seen.get(b)

    def add(self, a, b, v):
        k = self.value(a, b)
        if k is not None:
            assert np.max(np.abs(k - v)) <= self.tol * max(1.0, np.max(np.abs(v))), \
                f"the increment over [{a}, {b}) is {v}, and from earlier queries it is {k}"
        self.edges.setdefault(a, []).append((b, v))
        self.edges.setdefault(b, []).append((a, -v))


def run_bm(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    kw = {} if c["res"] is None else {"resolution": c["res"]}
    s = rp.BrownianStream.with_generator(ctx=ctx_of(w, d, ct), dtype=DT[ct], **kw)
    sm = S.SM([], c["res"] or 0, (Fraction(-1000), Fraction(1000)), ct)
    streams = [(s, sm)]
    tol = 1e-9 if ct == "D" else 1e-3
    path = Path(tol)
    done, rs = [], []
    for op in c["ops"]:
        s, sm = streams[op["s"] % len(streams)]
        i = tuple(frac(v) for v in op["i"])
        if op["op"] == "restrict":
            if i[0] < i[1]:
                streams.append((s.restrict(R(float(i[0]), float(i[1]))), sm.restrict(i)))
            continue
        a, k = S.qargs({"i": op["i"], "r": op["r"], "f": "real"})
        r = sm.query_res(i, op["r"])
        depth, ct2 = d, ct
        if op["as"] == "deeper" and M.tensor_dim(w, d + 1) < 130:
            depth = k["depth"] = d + 1
        elif op["as"] == "shallower" and d > 1:
            depth = k["depth"] = d - 1
        elif op["as"] == "dtype" and ct == "D":
            ct2, k["dtype"] = "S", rp.SPReal
        ls = l2m(s.log_signature(*a, **k), ct2)
        sg = s.signature(*a, **k)
        same(M.exp(M.lie_expand(ls), depth, 1.0), t2m(sg, ct2), ct2,
             f"exponential of the log-signature and the signature over {op['i']} at {r}", TOL[ct2])
        sg2 = s.signature(*a, **k)
        assert sg2 == sg, f"the same query gives {sg2} after {sg}"
        t = sm.trimmed(i)
        lo, hi = (M.floor_dyadic(t[0], r), M.floor_dyadic(t[1], r)) if t else (0, 0)
        if lo == hi:
            assert not ls, f"log-signature over nothing ({op['i']} at {r}): {ls}"
            continue
        v = np.array([ls.get(j, 0.0) for j in range(1, w + 1)])
        assert np.all(v != 0), f"the increment over {op['i']} is {v}"
        if ct2 == ct:
            path.add(lo, hi, v)
        if depth != d:
            dd = min(depth, d)
            same(M.truncate(t2m(sg, ct), dd), M.truncate(t2m(s.signature(*a), ct), dd), ct,
                 f"signature at depth {depth} and {d}, up to {dd}", TOL[ct])
        done.append((lo, hi, r))
        rs.append(r)
    if done:
        s = streams[0][0]
        r = max(rs)
        ends = sorted({x for a, b, q in done for x in (a, b)})
        ivs = [(float(x), float(y)) for x, y in zip(ends, ends[1:])]
        for x in ivs:
            s.signature(R(*x), r)
        whole = s.signature(R(ivs[0][0], ivs[-1][1]), r)
        p = None
        for x in ivs:
            y = s.signature(R(*x), r)
            p = y if p is None else p * y
        same(t2m(p, ct), t2m(whole, ct), ct, f"product over {ivs} at {r}", TOL[ct])
        # as fine as asked for: the pieces of the grid
        lo, hi = ends[0], ends[-1]
        n = int((hi - lo) * 2 ** r)
        if n <= 256:
            lies = [s.log_signature(R(float(lo + Fraction(j) / 2 ** r), float(lo + Fraction(j + 1) / 2 ** r)), r)
                    for j in range(n)]
            for x in lies:
                assert not x.is_zero(), "there is an increment over each piece of the grid"
            same(M.lie_expand(l2m(s.ctx.cbh(lies), ct)), M.lie_expand(l2m(
                s.log_signature(R(float(lo), float(hi)), r), ct)), ct, f"product over the grid at {r}", TOL[ct])
    return [ct] if overlapping(done) else None


# ------------------------------------------------------------------------------------------------ statistics

@st.composite
def stat_case(draw):
    n = draw(st.integers(1, 3))
    k = draw(st.integers(0, 4))
    cells = draw(st.lists(st.integers(-6, 9), min_size=n, max_size=n, unique=True))
    first = draw(st.lists(st.one_of(S.interval(-2, 3, 0), S.interval(-2, 3, 3)), max_size=3))
    return {"ct": draw(st.sampled_from("DDS")), "w": draw(st.integers(1, 3)), "k": k, "cells": cells, "first": first,
            "dr": draw(st.integers(0, 2)), "r0": draw(st.integers(0, 3))}


def run_stat(c):
    ct, w, k = c["ct"], c["w"], c["k"]
    N = 900
    ctx = ctx_of(w, 1, ct)
    x = np.zeros((N, len(c["cells"]), w))
    h = 2.0 ** -k
    first = [tuple(float(frac(v)) for v in i) for i in c["first"]]
    for j in range(N):
        s = rp.BrownianStream.with_generator(ctx=ctx, dtype=DT[ct])
        for i in first:
            s.log_signature(R(*i), c["r0"])
        for l, m in enumerate(c["cells"]):
            v = l2m(s.log_signature(R(m * h, (m + 1) * h), k + c["dr"]), ct)
            x[j, l] = [v.get(q, 0.0) for q in range(1, w + 1)]
    z = (x / math.sqrt(h)).reshape(N, -1)
    n = z.shape[1]
    tests = {"mean": z.sum() / math.sqrt(z.size),
             "variance": ((z ** 2).sum() - z.size) / math.sqrt(2 * z.size)}
    if n > 1:
        cov = z.T @ z / math.sqrt(N)
        tests["covariance"] = max(abs(cov[a, b]) for a in range(n) for b in range(a))
    # the third and the fourth moment of a normal variable
    tests["skewness"] = (z ** 3).sum() / math.sqrt(15 * z.size)
    for name, v in tests.items():
        assert abs(v) < (12 if name == "skewness" else 8), \
            f"{name} of increments over intervals of length {h}: {v:.1f} standard deviations off"
    same_ = len({round(float(v), 6) for v in z[:, 0]})
    assert same_ > N // 2, "different Brownian motions have the same increments"
    return [ct, "history" if first else "fresh"]


ARMS = [
    Arm("function", fn_case(), run_fn, quick=1200, what="the signature of the stream of a function is the product of "
        "the exponentials of its increments over pieces at least as fine as the resolution, after any history of "
        "queries, in any depth, after exceptions in the function; repeated queries agree"),
    Arm("brownian", bm_case(), run_bm, quick=800, what="all queries of a Brownian stream are about one path"),
    Arm("law", stat_case(), run_stat, quick=40, thorough=400, what="increments over disjoint intervals are independent "
        "normal variables with variance equal to the length, whatever was queried before"),
]
