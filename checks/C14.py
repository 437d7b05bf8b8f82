"""C14: partitions of intervals and dyadic segmentation against lists of points and a brute-force search."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
import longs as L
from fw import Arm, Discard

RULE = ("cases are partitions with sequences of refinements, insertions and merges, and intervals with a predicate that "
        "holds on the parts of a set of disjoint intervals; non-trivial when a partition has an inner point and an "
        "operation was applied, or the segmentation finds something other than nothing or the whole interval")


def point(bits=4):
    return st.one_of(st.integers(-4, 4).map(lambda k: [k, 0]),
                     st.tuples(st.integers(-4 << bits, 4 << bits), st.just(bits)).map(list))


def frac(p):
    return F(p[0], 2 ** p[1])


@st.composite
def part(draw):
    return {"e": [draw(point(2)), draw(point(2))], "p": draw(st.lists(point(), max_size=6)), "t": 0}


@st.composite
def part_case(draw):
    return {"p": draw(part()), "opencl": draw(st.sampled_from([0, 0, 0, 1])),
            "ops": draw(st.lists(st.one_of(st.tuples(st.just("refine")),
                                           st.tuples(st.just("insert"), st.integers(0, 40), st.integers(1, 7)),
                                           st.tuples(st.just("insert_at"), point()),
                                           st.tuples(st.just("merge"), part()),
                                           st.tuples(st.just("merge_near"), part(), st.integers(-2, 2)),
                                           st.tuples(st.just("eq"), part())), max_size=5))}


def norm(d):
    a, b = sorted(frac(p) for p in d["e"])
    return a, b, sorted({x for x in map(frac, d["p"]) if a < x < b})


def build(m, t, raw=None):
    """the partition of the model m; raw are the inner points as the user gives them"""
    import roughpy as rp
    a, b, pts = m
    i = rp.RealInterval(float(a), float(b), rp.IntervalType(t))
    pts = pts if raw is None else raw
    return rp.Partition(i, [float(x) for x in pts]) if pts else rp.Partition(i)


def check(p, m, t, what):
    import roughpy as rp
    a, b, pts = m
    assert (F(p.inf()), F(p.sup())) == (a, b), f"{what}: ends {p.inf()}, {p.sup()}, expected {a}, {b}"
    assert p.interval_type == rp.IntervalType(t)
    got = [F(x) for x in p.intermediates()]
    assert got == pts, f"{what}: points {[str(x) for x in got]}, expected {[str(x) for x in pts]}"
    ends = [a] + pts + [b]
    assert len(p) == len(ends) - 1, f"{what}: length {len(p)}"
    for i in range(len(ends) - 1):
        q = p[i]
        assert (F(q.inf()), F(q.sup())) == (ends[i], ends[i + 1]), f"{what}: piece {i} is {q}, expected {ends[i:i + 2]}"
        assert q.interval_type == rp.IntervalType(t)
    try:
        q = p[len(p)]
    except IndexError:
        pass
    else:
        raise AssertionError(f"{what}: has no piece {len(p)}, but got {q}")
    assert [(F(q.inf()), F(q.sup())) for q in p] == list(zip(ends, ends[1:])), f"{what}: iteration"
    assert F(p.mesh()) == min(y - x for x, y in zip(ends, ends[1:])), f"{what}: mesh {p.mesh()}"
    assert F(p.included_end()) == (b if t else a)
    assert p == build(m, t), f"{what}: differs from the partition built from its points"


def merge(m, n):
    """the union: all ends of all pieces"""
    a, b = min(m[0], n[0]), max(m[1], n[1])
    return a, b, sorted({x for x in (m[0], m[1], n[0], n[1], *m[2], *n[2]) if a < x < b})


def run_part(c):
    import roughpy as rp
    t = c["opencl"]
    m = norm(c["p"])
    if m[0] == m[1]:
        raise Discard
    raw, seen = [], set()
    for x in map(frac, c["p"]["p"]):            # any order, with points outside and at the ends, without repetition
        if x not in seen:
            seen.add(x)
            raw.append(x)
    p = build(m, t, raw)
    check(p, m, t, "constructed")
    labels = set()
    for op in c["ops"]:
        before, old = (m[0], m[1], list(m[2])), p
        if op[0] == "refine":
            ends = [m[0]] + m[2] + [m[1]]
            m = (m[0], m[1], sorted(m[2] + [(x + y) / 2 for x, y in zip(ends, ends[1:])]))
            if len(m[2]) > c.get("cap", 80):
                return sorted(labels) or None
            p = p.refine_midpoints()
        elif op[0].startswith("insert"):
            if op[0] == "insert":                       # into the piece number op[1], at op[2]/8
                ends = [m[0]] + m[2] + [m[1]]
                i = op[1] % (len(ends) - 1)
                x = ends[i] + (ends[i + 1] - ends[i]) * F(op[2], 8)
            else:
                x = frac(op[1])
            if x in m[2] or x in m[:2]:
                continue
            try:
                p.insert_intermediate(float(x))
            except (ValueError, RuntimeError):
                assert not m[0] < x < m[1], f"could not insert {x} into {p}"
                labels.add("outside")
            else:
                assert m[0] < x < m[1], f"inserted {x} into {p}"
                m = (m[0], m[1], sorted(m[2] + [x]))
            old = p
            before = m
        elif op[0] in ("merge", "merge_near"):
            n = norm(op[1])
            if op[0] == "merge_near":                   # shares an end or touches
                ends = [m[0]] + m[2] + [m[1]]
                shift = ends[op[2] % len(ends)] - n[0] if op[2] >= 0 else ends[-1] - n[1]
                n = (n[0] + shift, n[1] + shift, [x + shift for x in n[2]])
            if n[0] == n[1]:
                continue
            q = build(n, t)
            u = merge(m, n)
            check(q.merge(p), u, t, f"merge of {n} with {m}")
            p = p.merge(q)
            check(q, n, t, "merged partition")
            labels.add("disjoint" if n[1] < m[0] or m[1] < n[0] else "touching" if n[1] == m[0] or m[1] == n[0]
                       else "nested" if u[:2] in (m[:2], n[:2]) else "overlapping")
            m = u
        else:
            n = norm(op[1])
            if n[0] == n[1]:
                continue
            q = build(n, t)
            assert (p == q) == (q == p) == (m == n), f"{p} == {q}: {p == q}"
            if m[2]:
                k = (m[0], m[1], m[2][:-1] + [(m[2][-1] + m[1]) / 2])
                assert not (p == build(k, t)), f"{p} == {build(k, t)}"
                assert not (p == build((m[0], m[1], m[2][1:]), t)), "equal to a partition with a point less"
                labels.add("unequal")
        check(p, m, t, op[0])
        check(old, before, t, f"operand of {op[0]}")
        if m[2]:
            labels.add(op[0].split("_")[0])
    return sorted(labels) or None


@st.composite
def long_case(draw):
    return {"n": draw(st.one_of(st.integers(10, 40), st.integers(60, 140), st.integers(200, 300))), "seed": draw(L.SEED), "nops": draw(st.integers(1, 12)), "opencl": draw(st.sampled_from([0, 0, 1]))}


def run_long(c):
    """partitions with many points"""
    R = L.rng(c)

    def part(n):
        a = R.randrange(-64, 64)
        return {"e": [[a, 5], [a + R.randrange(1, 400), 5]], "p": [[a * 4 + R.randrange(-40, 1700), 7] for _ in range(R.randrange(1, n + 1))], "t": 0}
    ops = []
    for _ in range(c["nops"]):
        k = R.choice(["refine", "insert", "insert_at", "merge", "merge_near", "eq"])
        ops.append([k] + {"refine": [], "insert": [R.randrange(0, 300), R.randrange(1, 8)], "insert_at": [[R.randrange(-700, 1800), 7]], "merge": [part(c["n"])],
                          "merge_near": [part(c["n"]), R.randrange(-2, 3)], "eq": [part(c["n"])]}[k])
    p = part(c["n"])
    p["p"] = [[R.randrange(p["e"][0][0] * 4, p["e"][1][0] * 4 + 1), 7] for _ in range(c["n"])]
    return run_part({"p": p, "opencl": c["opencl"], "ops": ops, "cap": 700})


# ---------------------------------------------------------------- segmentation

@st.composite
def seg_case(draw):
    n = draw(st.integers(1, 3))
    bits = draw(st.sampled_from([3, 5, 6, 8]))
    pts = sorted(draw(st.lists(st.integers(1, 2 ** bits - 1), min_size=2 * n, max_size=2 * n, unique=True)))
    return {"inf": draw(st.sampled_from([0, 0, -1, 2, -3])), "len": draw(st.sampled_from([[1, 1], [1, 1], [2, 1], [4, 1], [1, 2]])),
            "bits": bits, "pts": pts, "depth": draw(st.integers(1, 7)),
            "left": draw(st.sampled_from([0, 0, 0, 1, 2])), "right": draw(st.sampled_from([0, 0, 0, 1, 2])),
            "all": draw(st.sampled_from([0] * 9 + [1])), "cls": draw(st.sampled_from(["real", "real", "dyadic"]))}


def run_seg(c):
    import roughpy as rp
    a = F(c["inf"])
    ln = F(*c["len"])
    b = a + ln
    i = rp.RealInterval(float(a), float(b))
    if c["cls"] == "dyadic":
        n = {F(1): 0, F(2): -1, F(4): -2, F(1, 2): 1}[ln]
        k = math.floor(a * F(2) ** n)
        i = rp.DyadicInterval(k, n)
        a, b = F(i.inf()), F(i.sup())
    pts = [a + ln * F(p, 2 ** c["bits"]) for p in c["pts"]]
    good = [list(x) for x in zip(pts[::2], pts[1::2])]
    # the outer parts of the good set may end at, or reach outside, the interval
    if c["left"]:
        good[0][0] = a - (0 if c["left"] == 1 else ln)
    if c["right"]:
        good[-1][1] = b + (0 if c["right"] == 1 else ln)
    if c["all"]:
        good = [[a, b]]
    d = c["depth"]
    if any(x[1] == y[0] for x, y in zip(good, good[1:])):
        raise Discard

    asked = []

    def pred(x):
        u, v = F(x.inf()), F(x.sup())
        asked.append((u, v))
        return any(g[0] <= u and v <= g[1] for g in good)

    got = [(F(x.inf()), F(x.sup())) for x in rp.segment(i, pred, d)]
    if any(g[0] <= a and b <= g[1] for g in good):
        exp = [(a, b)]
    else:
        h = ln / 2 ** d
        exp = []
        for g in good:
            lo, hi = max(math.ceil((g[0] - a) / h), 0), min(math.floor((g[1] - a) / h), 2 ** d)
            if lo < hi:
                exp.append((a + lo * h, a + hi * h))
    what = f"good {[(str(x), str(y)) for x, y in good]} of [{a}, {b}) at depth {d}"
    assert got == exp, f"segment of {what}: {[(str(x), str(y)) for x, y in got]}, expected {[(str(x), str(y)) for x, y in exp]}"
    assert all(a <= u and v <= b for u, v in asked), f"segment of {what}: asked about an interval outside"
    if not exp or exp == [(a, b)]:
        return None
    return [f"{min(len(exp), 3)} segments", c["cls"]] + (["at an end"] if exp[0][0] == a or exp[-1][1] == b else [])


@st.composite
def raise_case(draw):
    return {"at": draw(st.integers(0, 30)), "depth": draw(st.integers(1, 5)), "kind": draw(st.sampled_from(["raise", "none", "str"]))}


def run_raise(c):
    """a predicate that fails ends the search with its error; what it returns is taken as a truth value"""
    import roughpy as rp

    class Boom(Exception):
        pass
    n = [0]

    def pred(x):
        n[0] += 1
        if c["kind"] == "raise" and n[0] > c["at"]:
            raise Boom
        return x.sup() - x.inf() <= 2.0 ** -c["depth"]

    i = rp.RealInterval(0.0, 1.0)
    try:
        got = rp.segment(i, pred, c["depth"])
    except Boom:
        assert c["kind"] == "raise" and n[0] == c["at"] + 1
        return ["raised"]
    assert c["kind"] != "raise" or n[0] <= c["at"], "the error of the predicate was lost"
    return None


ARMS = [
    Arm("many", long_case(), run_long, quick=200, thorough=6000, what="the same for partitions of up to several hundred pieces"),
    Arm("partition", part_case(), run_part, quick=2500, thorough=60000,
        what="partitions: points, pieces, mesh, midpoints, insertion, merge and equality against sorted lists of points"),
    Arm("segment", seg_case(), run_seg, quick=1500, thorough=40000,
        what="segment: maximal good unions of grid cells for predicates on parts of a set, against a brute-force search"),
    Arm("predicate", raise_case(), run_raise, quick=60, thorough=600,
        what="an error raised by the predicate of segment reaches the caller"),
]
