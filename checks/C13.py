"""C13: dyadic rationals, dyadic intervals, dyadic decompositions and intervals against exact rational arithmetic."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from fw import Arm, Discard

RULE = ("cases are dyadic numbers with operation sequences, intervals of both kinds with points and other intervals, and "
        "intervals with a resolution to decompose; non-trivial when a rounding or a carry over a power of two, a shared "
        "end point, or a decomposition into pieces of different lengths happens")

CLOPEN, OPENCL = 0, 1


def itype(t):
    import roughpy as rp
    return rp.IntervalType(t)


def val(k, n):
    return F(k) / F(2) ** n


def floor_at(x, r):
    return math.floor(x * F(2) ** r)


def ceil_at(x, r):
    return math.ceil(x * F(2) ** r)


# ---------------------------------------------------------------- dyadic numbers

def mult(bits=40):
    return st.one_of(st.integers(-9, 9), st.integers(-9, 9).flatmap(lambda k: st.integers(0, 24).map(lambda s: k << s)),
                     st.integers(-2 ** bits, 2 ** bits))


def power():
    return st.one_of(st.integers(-3, 6), st.integers(-12, 40))


@st.composite
def dyadic_case(draw):
    return {"x": [draw(mult()), draw(power())],
            "ops": draw(st.lists(st.one_of(st.tuples(st.just("rebase"), st.one_of(st.integers(-4, 8), st.integers(-12, 45))),
                                           st.tuples(st.just("add"), mult(20)),
                                           st.tuples(st.just("cmp"), mult(), power()),
                                           st.tuples(st.just("rel"), st.integers(-6, 6), st.integers(-2, 2))), max_size=6))}


def best_power(k, n, r):
    """the power of k/2^n closest to r at which it is a dyadic number: r itself if possible, else the lowest"""
    if k == 0 or r >= n:
        return r
    while n > r and k % 2 == 0:
        k //= 2
        n -= 1
    return n


def run_dyadic(c):
    import roughpy as rp
    k, n = c["x"]
    x = rp.Dyadic(k, n)
    labels = set()
    for op in [None] + c["ops"]:
        if op is None:
            pass
        elif op[0] == "rebase":
            r = op[1]
            if r > n and abs(k) << (r - n) >= 2 ** 62:
                continue
            v = val(k, n)
            m = best_power(k, n, r)
            ok = x.rebase(r)
            assert isinstance(ok, bool) and ok == (m == r), f"Dyadic({k}, {n}).rebase({r}) returned {ok}, expected {m == r}"
            if m < n:
                labels.add("reduced")
            if not ok:
                labels.add("not representable")
            nk = v * F(2) ** m
            assert nk.denominator == 1
            assert (x.k, x.n) == (nk, m), f"Dyadic({k}, {n}).rebase({r}) gave ({x.k}, {x.n}), expected ({nk}, {m})"
            k, n = int(nk), m
        elif op[0] == "add":
            if abs(k + op[1]) >= 2 ** 62:
                continue
            x += op[1]
            k += op[1]
            if k and k % 2 == 0:
                labels.add("carry")
        else:
            if op[0] == "cmp":
                k2, n2 = op[1], op[2]
            else:                       # close to or equal to x, written at another power
                n2 = n + op[1]
                k2 = (k << op[1] if op[1] >= 0 else k >> -op[1]) + op[2]
                if abs(k2) >= 2 ** 62:
                    continue
            y = rp.Dyadic(k2, n2)
            a, b = val(k, n), val(k2, n2)
            what = f"Dyadic({k}, {n}) and Dyadic({k2}, {n2})"
            got = (x < y, x <= y, x > y, x >= y)
            assert got == (a < b, a <= b, a > b, a >= b), f"comparisons < <= > >= of {what}: {got}"
            for u, v in ((x, y), (y, x)):
                assert rp.Dyadic.rational_equals(u, v) == (a == b), f"rational_equals of {what}"
                assert rp.Dyadic.dyadic_equals(u, v) == ((k, n) == (k2, n2)), f"dyadic_equals of {what}"
            if a == b and n != n2:
                labels.add("equal at another power")
            if a != b and abs(a - b) * F(2) ** max(n, n2) <= 2:
                labels.add("neighbours")
        assert (x.k, x.n) == (k, n), f"is ({x.k}, {x.n}), expected ({k}, {n})"
        assert str(x) == f"({k}, {n})"
        if abs(k) < 2 ** 53:
            assert float(x) == float(val(k, n)), f"float(Dyadic({k}, {n})) = {float(x)}"
        z = rp.Dyadic(k) if n == 0 else x
        assert rp.Dyadic.dyadic_equals(z, x)
    return sorted(labels) or None


# ---------------------------------------------------------------- dyadic intervals

class DI:
    """the half-open interval of length 2^-n whose included end is k/2^n"""

    def __init__(self, k, n, t):
        self.k, self.n, self.t = k, n, t

    inc = property(lambda s: val(s.k, s.n))
    exc = property(lambda s: val(s.k + (1 if s.t == CLOPEN else -1), s.n))
    inf = property(lambda s: min(s.inc, s.exc))
    sup = property(lambda s: max(s.inc, s.exc))

    @staticmethod
    def of(inf, n, t):
        """the interval of length 2^-n whose infimum is inf"""
        k = inf * F(2) ** n
        assert k.denominator == 1
        return DI(int(k) + (1 if t == OPENCL else 0), n, t)

    def half(self, right):
        return DI.of(self.inf + (val(1, self.n + 1) if right else 0), self.n + 1, self.t)

    def contained(self, m):
        d = self
        for _ in range(m):
            d = d.half(self.t == OPENCL)
        return d

    def has(self, x):
        return self.inf <= x < self.sup if self.t == CLOPEN else self.inf < x <= self.sup

    def __repr__(self):
        return f"{'[(' [self.t]}{self.inf}, {self.sup}{')]' [self.t]}"


def check_di(x, m, what):
    assert (F(x.inf()), F(x.sup())) == (m.inf, m.sup), f"{what}: is {x}, expected {m}"
    assert (F(x.included_end()), F(x.excluded_end())) == (m.inc, m.exc), f"{what}: included and excluded end of {x}"
    assert x.interval_type == itype(m.t), f"{what}: type of {x}"
    for d, e, name in ((x.dyadic_inf(), m.inf, "inf"), (x.dyadic_sup(), m.sup, "sup"),
                       (x.dyadic_included_end(), m.inc, "included_end"), (x.dyadic_excluded_end(), m.exc, "excluded_end")):
        assert (d.n, val(d.k, d.n)) == (m.n, e), f"{what}: dyadic_{name} of {x} is {d}, expected {e} at power {m.n}"


@st.composite
def di_case(draw):
    return {"t": draw(st.sampled_from([0, 0, 1])), "k": draw(st.one_of(st.integers(-9, 9), st.integers(-2 ** 20, 2 ** 20))),
            "n": draw(st.integers(-4, 12)),
            "from": draw(st.sampled_from(["kn", "kn", "dyadic", "resolution", "k"])), "r": draw(st.integers(-6, 14)),
            "ops": draw(st.lists(st.tuples(st.sampled_from(["left", "right", "contained", "omitted", "left1", "contained1"]),
                                           st.integers(0, 3)), max_size=4)),
            "x": draw(st.lists(st.tuples(st.integers(-40, 40), st.integers(1, 5)), max_size=4))}


def run_di(c):
    import roughpy as rp
    t, k, n = c["t"], c["k"], c["n"]
    labels = set()
    if c["from"] == "kn":
        x = rp.DyadicInterval(k, n, itype(t)) if t or c["r"] % 2 else rp.DyadicInterval(k, n)
        m = DI(k, n, t)
    elif c["from"] == "k":
        x, m = rp.DyadicInterval(k), DI(k, 0, CLOPEN)
    elif c["from"] == "dyadic":
        x, m = rp.DyadicInterval(rp.Dyadic(k, n)), DI(k, n, CLOPEN)
    else:
        # the dyadic interval of that resolution that contains the number
        r = c["r"]
        x, m = rp.DyadicInterval(rp.Dyadic(k, n), r), DI(floor_at(val(k, n), r), r, CLOPEN)
        assert m.has(val(k, n))
        if r < n and k % (1 << (n - r)):
            labels.add("rounded")
    check_di(x, m, "constructed")
    for op, cnt in c["ops"]:
        old = (DI(m.k, m.n, m.t), F(x.inf()), F(x.sup()))
        if op == "left":
            y = x.shrink_left(cnt)
            for _ in range(cnt):
                m = m.half(False)
            x = y
        elif op == "left1":
            x, m = x.shrink_left(), m.half(False)
        elif op == "right":
            x, m = x.shrink_right(), m.half(True)
        elif op == "contained":
            x, m = x.shrink_to_contained_end(cnt), m.contained(cnt)
        elif op == "contained1":
            x, m = x.shrink_to_contained_end(), m.contained(1)
        else:
            x, m = x.shrink_to_omitted_end(), m.half(m.t == CLOPEN)
            assert m.exc == old[0].exc
        check_di(x, m, f"{op} {cnt} of {old[0]}")
        labels.add("shrunk")
    for p, e in c["x"]:
        at = m.inf + (m.sup - m.inf) * F(p, 2 ** e)
        assert x.contains(float(at)) == m.has(at), f"{x} contains {float(at)}: {x.contains(float(at))}"
        if at in (m.inf, m.sup):
            labels.add("end point")
    return sorted(labels | {f"{'clopen' if m.t == 0 else 'opencl'}"}) if labels else None


# ---------------------------------------------------------------- decompositions

@st.composite
def dec_case(draw):
    r = draw(st.one_of(st.integers(0, 6), st.integers(-3, 14), st.just(32)))
    bits = draw(st.integers(0, 9))
    def end():
        return [draw(st.integers(-6 * 2 ** bits, 6 * 2 ** bits)), bits]
    return {"a": end(), "b": end(), "r": r, "t": draw(st.sampled_from([0, 0, 0, 1])),
            "form": draw(st.sampled_from(["ends", "ends", "real", "dyadic", "partition"])),
            "nudge": draw(st.sampled_from([0, 0, 0, 1]))}


def run_dec(c):
    import roughpy as rp
    a, b = sorted((val(*c["a"]), val(*c["b"])))
    t, r = c["t"], c["r"]
    if c["nudge"]:
        # ends away from any short dyadic number
        a, b = a + F(math.ulp(8.0)) * 3, b - F(math.ulp(8.0)) * 5
        if a > b:
            a, b = b, a
        a, b = F(float(a)), F(float(b))
    fa, fb = float(a), float(b)
    D = rp.DyadicInterval.to_dyadic_intervals
    if c["form"] == "dyadic":
        k, n = c["a"]
        src = rp.DyadicInterval(k, n, itype(t))
        a, b = F(src.inf()), F(src.sup())
        got = D(src, r, itype(t))
    elif c["form"] == "ends":
        got = D(fa, fb, r, itype(t)) if t else D(fa, fb, r)
    else:
        src = rp.RealInterval(fa, fb, itype(t))
        if c["form"] == "partition":
            src = rp.Partition(src, [(fa + fb) / 2])
        got = D(src, r, itype(t)) if t else D(src, resolution=r)
    # the ends are rounded to the included end of the interval of length 2^-r that contains them
    if t == CLOPEN:
        lo, hi = val(floor_at(a, r), r), val(floor_at(b, r), r)
    else:
        lo, hi = val(ceil_at(a, r), r), val(ceil_at(b, r), r)
    what = f"[{a}, {b}) type {t} at {r} into {[str(g) for g in got]}"
    at = lo
    for g in got:
        m = DI(g.dyadic_included_end().k, g.dyadic_included_end().n, t)
        check_di(g, m, "piece")
        assert m.n <= r, f"{what}: {g} is shorter than the resolution allows"
        assert m.inf == at, f"{what}: {g} does not start where the piece before ends ({at})"
        at = m.sup
    assert at == hi, f"{what}: ends at {at}, expected {hi}"
    # the coarsest decomposition: no piece can be replaced by a longer dyadic interval within the interval
    exp, x = 0, lo
    while x < hi:
        n = r
        while True:
            ln = val(1, n - 1)
            if (x / ln).denominator != 1 or x + ln > hi:
                break
            n -= 1
        x += val(1, n)
        exp += 1
    assert len(got) == exp, f"{what}: {len(got)} pieces, {exp} suffice"
    if lo == a and hi == b and len({g.dyadic_inf().n for g in got}) < 2:
        return None
    return [f"type {t}", c["form"], f"{min(len(got), 6)}{'+' if len(got) > 6 else ''} pieces",
            "ends rounded" if (lo, hi) != (a, b) else "ends on the grid"] + (["no piece"] if not got else [])


# ---------------------------------------------------------------- intervals

def ends():
    return st.tuples(st.integers(-4, 4), st.integers(-4, 4))


@st.composite
def iv_case(draw):
    def iv():
        return {"e": list(draw(ends())), "t": draw(st.sampled_from([0, 0, 1])),
                "cls": draw(st.sampled_from(["real", "real", "real", "dyadic", "partition", "copy"])),
                "s": draw(st.sampled_from([1, 1, 2]))}
    return {"a": iv(), "b": iv(), "x": draw(st.lists(st.tuples(st.integers(-9, 9), st.integers(0, 1)), max_size=5))}


def mk_iv(d):
    import roughpy as rp
    e0, e1 = d["e"]
    t = d["t"]
    if d["cls"] == "dyadic":
        x = rp.DyadicInterval(e0, d["s"], itype(t))
        m = DI(e0, d["s"], t)
        return x, (m.inf, m.sup, t)
    a, b = F(e0, d["s"]), F(e1, d["s"])
    x = rp.RealInterval(float(a), float(b), itype(t)) if t else rp.RealInterval(float(a), float(b))
    if d["cls"] == "copy":
        x = rp.RealInterval(x)
    elif d["cls"] == "partition":
        x = rp.Partition(x)
    return x, (min(a, b), max(a, b), t)


def has(m, x):
    a, b, t = m
    return a <= x < b if t == CLOPEN else a < x <= b


def run_iv(c):
    x, m = mk_iv(c["a"])
    y, n = mk_iv(c["b"])
    labels = set()
    for z, q in ((x, m), (y, n)):
        assert (F(z.inf()), F(z.sup())) == q[:2], f"{z}: expected ends {q}"
        assert (F(z.included_end()), F(z.excluded_end())) == (q[:2] if q[2] == CLOPEN else q[1::-1]), f"ends of {z}"
        assert z.interval_type == itype(q[2])
        for p, h in c["x"] + [[q[0], 0], [q[1], 0]]:
            at = F(p) / 2 ** h
            assert z.contains(float(at)) == has(q, at), f"{z} contains {at}: {z.contains(float(at))}"
            if at in q[:2] and q[0] < q[1]:
                labels.add("end point")
        br = "[)" if q[2] == CLOPEN else "(]"
        assert str(z)[0] == br[0] and str(z)[-1] == br[1] or c["a"]["cls"] == "partition" or c["b"]["cls"] == "partition", str(z)
    # containment and intersection, as sets of points
    inside = m[0] <= n[0] and n[1] <= m[1]
    if m[2] == n[2] and n[0] < n[1]:
        assert x.contains(y) == inside, f"{x} contains {y}: {x.contains(y)}"
        if inside and (m[0] == n[0] or m[1] == n[1]):
            labels.add("shares an end")
    lo, hi = max(m[0], n[0]), min(m[1], n[1])
    meet = any(has(m, p) and has(n, p) for p in (lo, hi, (lo + hi) / 2))
    assert x.intersects_with(y) == meet, f"{x} intersects {y}: {x.intersects_with(y)}, expected {meet}"
    assert y.intersects_with(x) == meet, f"{y} intersects {x}: {y.intersects_with(x)}, expected {meet}"
    if lo == hi:
        labels.add("touching")
    if c["a"]["cls"] != "partition" and c["b"]["cls"] != "partition":
        assert (x == y) == (y == x) == (m == n), f"{x} == {y}: {x == y}"
        assert (x != y) == (m != n), f"{x} != {y}: {x != y}"
        if m == n and c["a"]["cls"] != c["b"]["cls"]:
            labels.add("equal across classes")
    return sorted(labels) or None


ARMS = [
    Arm("dyadic", dyadic_case(), run_dyadic, quick=3000, thorough=80000,
        what="dyadic numbers: value, float, rebase, += and all comparisons against exact rationals, also near-equal pairs"),
    Arm("dyadic_interval", di_case(), run_di, quick=2500, thorough=60000,
        what="dyadic intervals: construction by number and resolution, ends, types, containment, sequences of shrinks"),
    Arm("decompose", dec_case(), run_dec, quick=2500, thorough=60000,
        what="to_dyadic_intervals: contiguous, rounded to the grid, no finer than asked, and as few pieces as possible"),
    Arm("intervals", iv_case(), run_iv, quick=2500, thorough=60000,
        what="real, dyadic and partition intervals: ends, points, containment, intersection and equality as point sets"),
]
