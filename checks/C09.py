"""C09: arithmetic and comparison of scalar values, against exact and IEEE arithmetic on the values themselves."""
import math
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
import gens as G
from fw import Arm, Discard

RULE = ("cases are histories of operations on scalars of all four types, read from vectors and computed from each other and "
        "from Python numbers; non-trivial when two types meet, a zero is an operand, or a division or an in-place operation "
        "is made")

RANK = {"S": 0, "D": 1, "Q": 2, "P": 3}
NAMES = {"S": "SPReal", "D": "DPReal", "Q": "Rational", "P": "RationalPoly"}


def num():
    """Python ints and floats"""
    return st.one_of(st.integers(-6, 6).map(lambda n: ["i", n]), st.integers(-2 ** 53, 2 ** 53).map(lambda n: ["i", n]),
                     st.tuples(st.integers(-9, 9), st.sampled_from([1, 2, 4, 8])).map(lambda t: ["f", t[0] / t[1]]),
                     st.floats(-1e6, 1e6, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-6).map(lambda x: ["f", x]),
                     st.just(["i", 0]), st.just(["f", 0.0]))


@st.composite
def case(draw):
    def new():
        ct = draw(st.sampled_from("SSDDQQPP"))
        zero = draw(st.integers(0, 4)) == 0
        how = draw(st.sampled_from(["dense", "sparse", "iter", "lie", "missing"]))
        return ["new", ct, how, None if zero else draw(G.coeff(ct))]
    ops = [new()] + ([new()] if draw(st.booleans()) else [])
    n = draw(st.integers(1, 9))
    for _ in range(n):
        k = draw(st.sampled_from(["new", "bin", "bin", "num", "num", "num", "neg", "eq", "eqn", "float"]))
        i, j = draw(st.integers(0, 20)), draw(st.integers(0, 20))
        if k == "new":
            ops.append(new())
        elif k == "bin":
            ops.append(["bin", draw(st.sampled_from("+*")), i, j, draw(st.booleans())])
        elif k == "num":
            ops.append(["num", draw(st.sampled_from("+-*/")), i, draw(num()), draw(st.sampled_from(["l", "r", "i"]))])
        elif k == "eqn":
            ops.append(["eqn", i, draw(num()), draw(st.booleans())])
        else:
            ops.append([k, i, j])
    return {"ops": ops}


def lift(v, a, b):
    """the value v of type a as a value of type b"""
    import model as M
    if a == b:
        return v
    if b in "SD":
        return np.float32(v) if b == "S" else float(v)
    v = F(float(v)) if a in "SDf" else F(v) if a != "P" else v
    return M.Poly(v) if b == "P" and a != "P" else v


def common(a, b):
    """type of the result of an operation between types (i and f are Python's)"""
    if a == "i":
        return b
    if b == "i":
        return a
    a, b = "D" if a == "f" else a, "D" if b == "f" else b
    return max(a, b, key=RANK.get)


def apply(op, a, b, ct):
    if op == "/" and ct == "P":
        return a / b
    with np.errstate(all="ignore"):
        r = a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b
    return np.float32(r) if ct == "S" else r


def exact(v, ct):
    import model as M
    if ct == "P":
        return v
    return M.Poly(F(float(v)) if ct in "SDf" else F(v))


def finite(v, ct):
    return ct in "QPi" or (math.isfinite(v) and (v == 0 or 1e-30 < abs(float(v)) < 1e30))


def read(s, ct):
    import rpyio as R
    return R.sval(s, ct)


def same(s, v, ct):
    r = repr(s)
    if f"type={NAMES[ct]}," not in r:
        return f"is {r}, of the wrong type: expected {NAMES[ct]}"
    got = read(s, ct)
    want = float(v) if ct in "SD" else v
    if not got == want:
        return f"is {got!r}, expected {want!r} (type {NAMES[ct]})"


def lone(a):
    """the coefficient of a polynomial of one term"""
    if a[2] != "P" or len(a[1].t) != 1:
        return None
    q, = a[1].t.values()
    return F(q) if max(abs(F(q).numerator), F(q).denominator) < 2 ** 53 else None


def make(ct, how, c):
    import roughpy as rp
    import model as M
    import rpyio as R
    zero = {"Q": F(0), "P": M.Poly(0), "D": 0.0, "S": np.float32(0)}[ct]
    if how == "missing":
        x = rp.FreeTensor(width=2, depth=2, dtype=R.DT[ct])
        return x[rp.TensorKey(1, width=2, depth=2)], zero
    v = zero if c is None else R.mcoeff(c, ct)
    if ct == "S":
        v = np.float32(v)
    if how == "lie":
        x = R.rlie({1: v if ct != "S" else float(v), 2: R.one(ct)}, 2, 2, ct)
        k = rp.LieKey(1, width=2, depth=2)
        return x[k], v
    m = {(): R.one(ct), (1,): v if ct != "S" else float(v), (2, 1): R.one(ct)}
    if how == "sparse":
        x = R.rtensor({k: a for k, a in m.items() if k}, 2, 2, ct, "map")
    else:
        x = R.rtensor(m, 2, 2, ct)
    if how == "iter":
        for it in x:
            if tuple(it.key().to_letters()) == (1,):
                return it.value(), v
        assert not v, f"iteration over {x} does not meet the key (1)"
        return x[rp.TensorKey(1, width=2, depth=2)], v
    return x[rp.TensorKey(1, width=2, depth=2)], v


def run(c):
    import model as M
    pool = []
    labels = set()

    def put(s, v, ct, what):
        if not finite(v, ct) or (ct in "Q" and v and max(abs(v.numerator), v.denominator) > 10 ** 60) or \
                (ct == "P" and len(v.t) > 60):
            return False
        bad = same(s, v, ct)
        assert not bad, f"{what} {bad}"
        pool.append([s, v, ct])
        return True

    for n, op in enumerate(c["ops"]):
        skip = None
        if op[0] == "new":
            s, v = make(op[1], op[2], op[3])
            put(s, v, op[1], f"the coefficient {v!r} read from a vector")
        else:
            a = pool[op[2 if op[0] in ("bin", "num") else 1] % len(pool)]
            d = f"{a[1]!r} ({NAMES[a[2]]})"
            if op[0] == "bin":
                b = pool[op[3] % len(pool)]
                ct = common(a[2], b[2])
                d = f"{d} {op[1]} {b[1]!r} ({NAMES[b[2]]})"
                v = apply(op[1], lift(a[1], a[2], ct), lift(b[1], b[2], ct), ct)
                if not finite(v, ct):
                    continue
                if a[2] != b[2]:
                    labels.add("mixed types")
                if not a[1] or not b[1]:
                    labels.add("zero")
                if op[4] and a is not b:
                    s = a[0]
                    if op[1] == "+":
                        s += b[0]
                    else:
                        s *= b[0]
                    a[0], a[1], a[2] = s, v, ct
                    bad = same(s, v, ct)
                    assert not bad, f"in place {d} {bad}"
                    labels.add("in place")
                    skip = a
                else:
                    s = a[0] + b[0] if op[1] == "+" else a[0] * b[0]
                    put(s, v, ct, d)
            elif op[0] == "num":
                _, o, _, (nt, x), side = op
                ct = common(a[2], nt)
                if nt == "i" and a[2] == "S" and abs(x) > 2 ** 24:
                    continue                # not exact in single precision
                d = f"{x!r} {o} {d}" if side == "r" else f"{d} {o} {x!r}"
                den = a[1] if side == "r" else x
                labels.add({"/": "division"}.get(o, "Python number"))
                if not a[1] or not x:
                    labels.add("zero")

                def do():
                    y = a[0]
                    if side == "i":
                        if o == "+":
                            y += x
                        elif o == "-":
                            y -= x
                        elif o == "*":
                            y *= x
                        else:
                            y /= x
                        return y
                    l, r = (x, y) if side == "r" else (y, x)
                    return l + r if o == "+" else l - r if o == "-" else l * r if o == "*" else l / r
                if o == "/" and (not den or side == "r" and a[2] == "P"):
                    # dividing by zero, or by a polynomial, is an error and changes nothing
                    try:
                        s = do()
                    except (ValueError, ArithmeticError):
                        labels.add("division refused")
                        s = None
                    if s is not None:
                        raise AssertionError(f"{d} is {s}, expected an error")
                    bad = same(a[0], a[1], a[2])
                    assert not bad, f"after the refused {d} the operand {bad}"
                    continue
                l, r = (x, nt), (a[1], a[2])
                if side != "r":
                    l, r = r, l
                lv, rv = lift(l[0], l[1], ct), lift(r[0], r[1], ct)
                if o == "/" and ct == "P":
                    rv = rv.t.get((), F(0)) if isinstance(rv, M.Poly) else rv
                v = apply(o, lv, rv, ct)
                if not finite(v, ct):
                    continue
                s = do()
                if a[2] != ct:
                    labels.add("mixed types")
                if side == "i":
                    a[0], a[1], a[2] = s, v, ct
                    bad = same(s, v, ct)
                    assert not bad, f"in place {d} {bad}"
                    labels.add("in place")
                    skip = a
                else:
                    put(s, v, ct, d)
            elif op[0] == "neg":
                if not a[1]:
                    labels.add("zero")
                s, v = -a[0], -a[1]
                put(s, v, a[2], f"-{d}")
            elif op[0] in ("eq", "eqn"):
                if op[0] == "eq":
                    b = pool[op[2] % len(pool)]
                    y, bv, bt = b[0], b[1], b[2]
                    q = lone(a) if b is a else None
                    if q is not None:       # one term against the number that is its coefficient
                        (y, bv), bt = make("Q", "dense", [q.numerator, q.denominator]), "Q"
                        labels.add("term against coefficient")
                else:
                    bt, bv = op[2]
                    if op[3] and bt == "f" and a[2] in "SD":
                        bv = float(a[1])
                    elif op[3] and a[2] in "SDQ" and a[1] == int(a[1]) and bt == "i":
                        bv = int(a[1])
                    elif op[3] and lone(a) is not None:
                        q = lone(a)
                        bv = int(q) if bt == "i" else float(q)
                        labels.add("term against coefficient")
                    lim = 2 ** 24 if a[2] == "S" else 2 ** 53
                    if bt == "i" and a[2] in "SD" and not (abs(bv) < lim and abs(a[1]) < lim):
                        continue            # where the integers are not all floating point numbers
                    y = bv
                want = exact(a[1], a[2]) == exact(bv, bt)
                d = f"{d} == {bv!r} ({NAMES.get(bt, bt)})"
                got = [a[0] == y, y == a[0], not a[0] != y, not y != a[0]]
                assert got == [want] * 4, f"{d} (and reversed, and not !=) gave {got}, expected {want}"
                if want:
                    labels.add("equal")
                if a[2] != bt:
                    labels.add("mixed types")
            elif op[0] == "float":
                if a[2] == "P" and not set(a[1].t) <= {()}:
                    continue
                v = a[1].t.get((), 0) if a[2] == "P" else a[1]
                got = a[0].to_float()
                assert isinstance(got, float) and abs(got - float(v)) <= 4e-16 * abs(float(v)), \
                    f"to_float() of {d} is {got!r}"
                if a[2] in "SD":
                    assert got == float(v)
        for p in pool:
            if p is not skip:
                bad = same(*p)
                assert not bad, f"after operation {n} {op} an operand of an earlier operation {bad}"
    return sorted(labels) or None


ARMS = [
    Arm("histories", case(), run, quick=9000, thorough=120000,
        what="sequences of + - * / (in place too), negation, comparison and conversion of scalars of every type and Python numbers"),
]
