"""C15: Chen's identity, reversal and locality of signatures over intervals of a stream."""
from hypothesis import strategies as st
from fractions import Fraction
import gens as G
import model as M
import roughpy as rp
import smodel as S
from fw import Arm, Discard
from rpyio import l2m, t2m, same, ctx_of
from smodel import TOL, frac

RULE = ("cases are generated streams (increment, tick, piecewise, external function) with chains of intervals; "
        "non-trivial when at least two parts of the chain have non-zero log-signatures which do not commute")


@st.composite
def chain_case(draw):
    c = draw(S.stream_case(nmax=8, nmin=2))
    n = draw(st.integers(1, 5))
    c["cuts"] = draw(st.lists(st.one_of(S.dyadic(0, 4, 1), S.dyadic(-1, 5, 5)), min_size=n, max_size=n))
    if draw(st.sampled_from([True, True, False])):
        c["cuts"] += [[0, 1], [4, 1]]
    c["r"] = draw(st.sampled_from([0, 1, 2, 3, 5, 8, 11]))
    c["grid"] = draw(st.booleans())
    c["order"] = draw(st.booleans())
    return c


def chain(s, ivs, c, ct, w, d, kw_of):
    """signature over the union against the product of signatures, either queried first"""
    def q(a, b):
        return s.signature(rp.RealInterval(a, b), *kw_of)
    whole = None
    if c["order"]:
        whole = q(ivs[0], ivs[-1])
    parts = [q(a, b) for a, b in zip(ivs, ivs[1:])]
    if whole is None:
        whole = q(ivs[0], ivs[-1])
    prod = parts[0]
    for p in parts[1:]:
        prod = prod * p
    same(t2m(prod, ct), t2m(whole, ct), ct, f"product over {ivs} and the signature of the whole", TOL[ct])
    lg = [s.log_signature(rp.RealInterval(a, b), *kw_of) for a, b in zip(ivs, ivs[1:])]
    lw = s.log_signature(rp.RealInterval(ivs[0], ivs[-1]), *kw_of)
    same(M.lie_expand(l2m(ctx_of(w, d, ct).cbh(lg), ct)), M.lie_expand(l2m(lw, ct)), ct,
         f"Campbell-Baker-Hausdorff product over {ivs}", TOL[ct])
    # group-like: the antipode inverts
    inv = whole.antipode() * whole
    one_ = t2m(inv, ct)
    if ct in "QP":
        assert set(one_) == {()} and one_[()] == 1, f"signature is not group-like: {one_}"
    # splitting at a point inside must matter
    nz = [l2m(x, ct) for x in lg]
    nz = [M.lie_expand(m) for m in nz if m]
    return any(M.bracket(a, b, d) for i, a in enumerate(nz) for b in nz[i + 1:]) or (d == 1 and len(nz) > 1)


def run_chain(c):
    s, sm = S.make(c)
    ct, w, d = c["ct"], c["w"], c["d"]
    cuts = sorted({frac(v) for v in c["cuts"]})
    kw = (c["r"],)
    if c["grid"]:
        # at default resolutions, which depend on the length, between points of the grid of the stream
        cuts = sorted({M.floor_dyadic(v, sm.res) for v in cuts})
        kw = ()
        # the trimmed ends have to lie on the grid as well
        if M.floor_dyadic(sm.support[0], sm.res) != sm.support[0] or M.floor_dyadic(sm.support[1], sm.res) != sm.support[1]:
            raise Discard()
    if len(cuts) < 2:
        raise Discard()
    if not chain(s, [float(v) for v in cuts], c, ct, w, d, kw):
        return None
    return [ct, f"{len(cuts) - 1} parts", "default" if c["grid"] else "explicit"]


# ---------------------------------------------------------------- other kinds of streams

@st.composite
def tick_case(draw):
    n = draw(st.integers(3, 9))
    ch = draw(st.lists(st.sampled_from(["increment", "value"]), min_size=2, max_size=3))
    ticks = [[draw(S.dyadic(0, 4, 4)), draw(st.integers(0, len(ch) - 1)), draw(st.integers(-4, 4).filter(bool))] for _ in range(n)]
    return {"kind": "tick", "ct": draw(st.sampled_from("DDSQ")), "d": draw(st.integers(2, 4)), "vt": draw(st.sampled_from([None, "dense", "sparse"])), "ch": ch, "ticks": ticks,
            "cuts": [[0, 1], [9, 2]] + draw(st.lists(S.dyadic(0, 4, 4), min_size=1, max_size=4)),
            "r": draw(st.sampled_from([0, 1, 2, 4, 6])),
            "order": draw(st.booleans())}


def run_tick(c):
    ct, d = c["ct"], c["d"]
    data = {}
    for t, ch, v in c["ticks"]:
        data.setdefault(float(frac(t)), []).append((f"c{ch}", c["ch"][ch], float(v)))
    names = {x[0] for l in data.values() for x in l}
    if len(names) < 2:
        raise Discard()
    from rpyio import DT
    data = {t: l for t, l in sorted(data.items())}
    s = rp.TickStream.from_data(data, depth=d, dtype=DT[ct], resolution=4, **({"vtype": S.VT[c["vt"]]} if c["vt"] else {}))
    w = s.width
    cuts = sorted({float(frac(v)) for v in c["cuts"]})
    if len(cuts) < 2:
        raise Discard()
    if not chain(s, cuts, c, ct, w, d, (c["r"],)):
        return None
    return [ct, "tick"]


ARMS = [
    Arm("increments", chain_case(), run_chain, quick=2500, what="the product of the signatures over adjacent intervals is "
        "the signature over their union, at any common resolution, and at default resolutions between grid points"),
    Arm("ticks", tick_case(), run_tick, quick=500, what="the same for tick streams"),
]
