"""C22: derivatives of signatures with respect to changes of the log-signature of an interval."""
from fractions import Fraction
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
import smodel as S
from fw import Arm, Discard, is_known
from rpyio import l2m, t2m, same, ctx_of, one, mlie, rlie
from smodel import TOL, frac
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import C18

RULE = ("cases are streams of every kind, intervals, resolutions, depths and Lie elements of any storage, depth and "
        "degree; non-trivial when the log-signature of an interval does not commute with the change")

KNOWN = is_known("derivative-of-several-changes")


@st.composite
def case(draw):
    c = draw(C18.stream())
    m = C18.rng(c["kind"])
    iv = st.one_of(st.sampled_from([[[0, 1], [4, 1]], [[-1, 1], [5, 1]], [[0, 1], [2, 1]], [[1, 1], [4, 1]]]),
                   S.interval(-1, 5, 1), S.interval(-1, 5, C18.bits(c["kind"])))
    ct, w, d = C18_ct(c)
    n = draw(st.sampled_from([1, 1, 1, 1, 2, 3]))
    c["p"] = [{"i": draw(iv), "l": draw(G.lie(ct, w, d, max_size=4)), "d": draw(st.sampled_from([0, 0, 0, 1, -1]))}
              for _ in range(n)]
    c["join"] = draw(st.booleans())               # adjacent intervals, as the pieces of a partition
    c["r"] = draw(st.sampled_from([None, None, 0, 1, 2, 3, m]))
    c["depth"] = draw(st.sampled_from([0, 0, 0, 1, -1]))
    c["form"] = draw(st.sampled_from(["args", "args", "tuple", "list", "lists"])) if n == 1 else draw(
        st.sampled_from(["list", "lists", "tuples"]))
    c["rkw"] = draw(st.booleans())
    c["t"] = draw(st.integers(-3, 3))
    return c


def C18_ct(c):
    b = c["base"]
    w, d = b.get("w"), b.get("d")
    if w is None or d is None:
        return b.get("ct", "D"), 2, 2
    return b.get("ct", "D"), w, d


def dexp(x, y, d, unit):
    """the derivative at t = 0 of exp(x + t y)"""
    out = {}
    powers = [{(): unit}]
    for n in range(d):
        powers.append(M.mul(powers[-1], x, d))
    f = 1
    for n in range(1, d + 1):
        f *= n
        term = {}
        for i in range(n):
            term = M.add(term, M.mul(M.mul(powers[i], y, d), powers[n - 1 - i], d))
        out = M.add(out, M.sdiv(term, f if not isinstance(unit, Fraction) else Fraction(f)))
    return M.clean(out)


def run(c):
    s, ct, w, d, keep = C18.build(c)
    if (ct, w) != C18_ct(c)[:2]:
        c = dict(c, p=[dict(p, l={"e": [[e[0] % w, e[1]] for e in p["l"]["e"][:1]], "st": "dense"}) for p in c["p"]])
        if ct == "P" or C18_ct(c)[0] == "P":
            raise Discard()
    depth, kw = d, {}
    if c["depth"]:
        depth = d + c["depth"]
        if depth < 1 or M.tensor_dim(w, depth) > (100 if ct != "P" else 30):
            depth = d
        else:
            kw["depth"] = depth
    r = c["r"]
    rk = {} if r is None else {"resolution": r}
    unit = one(ct)
    ivs = [tuple(frac(v) for v in p["i"]) for p in c["p"]]
    if c["join"] and len(ivs) > 1:
        pts = sorted({x for i in ivs for x in i})
        if len(pts) <= len(ivs):
            raise Discard()
        ivs = list(zip(pts, pts[1:]))[:len(ivs)]
    pert, mods = [], []
    for p, i in zip(c["p"], ivs):
        pd = max(1, d + p["d"])
        if M.lie_dim(w, pd) > 400:
            pd = d
        case_ = {"e": [e for e in p["l"]["e"] if e[0] < M.lie_dim(w, pd)], "st": p["l"]["st"]}
        m = mlie(case_, w, pd, ct)
        pert.append((C18.real(i), rlie(m, w, pd, ct, case_["st"])))
        mods.append(m)
    xs = []
    scale = 1.0
    for (iv, _) in pert:                          # streams computed on demand may refine what was asked before
        s.log_signature(*((iv,) + (() if r is None else (r,))), **kw)
    for (iv, _) in pert:
        a = (iv,) + (() if r is None else (r,))
        x = M.lie_expand(l2m(s.log_signature(*a, **kw), ct))
        xs.append(x)
        if ct in "DS":
            scale = max(scale, C18.size(M.exp({k: abs(v) for k, v in x.items()}, depth, unit)))
    ys = [M.truncate(M.lie_expand(m), depth) for m in mods]
    before = [l2m(l, ct) for _, l in pert]
    f = c["form"]
    extra = {**kw, **(rk if c["rkw"] else {})}
    pos = () if c["rkw"] or r is None else (r,)
    arg = {"args": pert[0], "tuple": (pert[0],), "list": (pert,), "lists": ([list(p) for p in pert],),
           "tuples": (tuple(pert),)}[f]
    if f == "tuples" and len(pert) == 2:
        arg = (pert,)                             # a pair of pairs is taken for one pair
    got = s.signature_derivative(*arg, *pos, **extra)
    assert got.width == w and got.max_degree == depth and got.dtype == s.dtype, "context of the derivative"
    if ct in "DS":
        scale *= max(1.0, max((C18.size(y) for y in ys), default=1.0))
    g = t2m(got, ct)
    true, rec, prefix = {}, {}, {(): unit}
    for x, y in zip(xs, ys):
        e, de = M.exp(x, depth, unit), dexp(x, y, depth, unit)
        true = M.add(M.mul(true, e, depth), M.mul(prefix, de, depth))
        rec = M.add(M.mul(rec, e, depth), de)
        prefix = M.mul(prefix, e, depth)
        if ct in "DS":
            scale = max(scale, C18.size(true), C18.size(rec), C18.size(prefix))
    what = f"derivative over {[[str(v) for v in i] for i in ivs]} at {r}, depth {depth}"
    known = False
    try:
        same(g, M.clean(true), ct, what, TOL[ct], scale)
    except AssertionError:
        if not (KNOWN and len(pert) > 1):
            raise
        same(g, M.clean(rec), ct, what + " (by the listed recursion)", TOL[ct], scale)
        known = True
    assert [l2m(l, ct) for _, l in pert] == before, "a change given was changed"
    if len(pert) == 1:                            # linear in the change
        t = c["t"]
        scaled = pert[0][1] * t
        if t and ct in "QDS":
            h = t2m(s.signature_derivative(pert[0][0], scaled, *(() if r is None else (r,)), **kw), ct)
            same(h, M.smul(g, t), ct, "the derivative is linear", TOL[ct], scale * 3)
    if not any(M.bracket(x, y, depth) for x, y in zip(xs, ys)):
        return None
    return [c["kind"], ct, f, f"changes {len(pert)}", f"depth {depth - d:+d}", "default" if r is None else "resolution"] + (
        ["known recursion"] if known else [])


ARMS = [
    Arm("derivative", case(), run, quick=4000, thorough=80000, what="the derivative of the signature as the log-signature "
        "of an interval moves in the direction of a Lie element"),
]
