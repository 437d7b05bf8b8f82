"""C10: monomials and polynomials in indeterminates, against polynomial arithmetic with exact rational coefficients."""
import copy
import gc
import pickle
import random
from fractions import Fraction as F
from hypothesis import strategies as st
from fw import Arm, Discard

RULE = ("cases are histories of operations on monomials and polynomials; non-trivial when an in-place operation, a "
        "cancellation, a product of polynomials, a change of one coefficient, or a power is made")

LETTERS = ["x1", "x2", "x10", "y1", "y", "z3", "a0", "X1", "x4294967297", "z72057594037927935", "y65537"]


def rat():
    return st.one_of(st.integers(-4, 4).map(lambda n: ["i", n]), st.integers(-2 ** 80, 2 ** 80).map(lambda n: ["i", n]),
                     st.tuples(st.integers(-9, 9), st.integers(1, 7)).map(lambda t: ["q", t[0], t[1]]),
                     st.tuples(st.integers(-2 ** 70, 2 ** 70), st.integers(1, 2 ** 66)).map(lambda t: ["q", t[0], t[1]]),
                     st.floats(-100, 100, allow_nan=False).map(lambda x: ["f", x]),
                     st.tuples(st.integers(-9, 9), st.sampled_from([2, 4, 8])).map(lambda t: ["f", t[0] / t[1]]))


def power():
    return st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.sampled_from([7, 15, 16, 64, 100, 127, 128, 200, 255, 256, 1000, 3000]))


def mono():
    return st.lists(st.tuples(st.sampled_from(LETTERS), power()).map(list), max_size=3, unique_by=lambda t: t[0])


@st.composite
def case(draw):
    def new():
        k = draw(st.sampled_from(["mono", "mono", "poly", "poly", "const", "pair"]))
        if k == "mono":
            m = draw(mono())
            return ["mono", draw(st.sampled_from(["str", "dict", "pairs", "list", "kw", "two", "set"])), m]
        if k == "poly":
            return ["poly", draw(st.lists(st.tuples(mono(), rat()).map(list), max_size=4))]
        if k == "pair":
            return ["pair", draw(mono()), draw(rat())]
        return ["const", draw(rat())]
    ops = [new(), new()]
    for _ in range(draw(st.integers(1, 9))):
        k = draw(st.sampled_from(["new", "bin", "bin", "bin", "bin", "num", "num", "pow", "neg", "cmp", "get", "setm", "setp",
                                  "copy", "div"]))
        i, j = draw(st.integers(0, 20)), draw(st.integers(0, 20))
        if k == "new":
            ops.append(new())
        elif k == "bin":
            ops.append(["bin", draw(st.sampled_from("+-*")), i, j, draw(st.booleans())])
        elif k == "num":
            ops.append(["num", draw(st.sampled_from("+-*")), i, draw(rat()), draw(st.sampled_from("lri"))])
        elif k == "div":
            ops.append(["div", i, draw(rat()), draw(st.booleans())])
        elif k == "pow":
            ops.append(["pow", i, draw(st.integers(0, 3)), draw(st.booleans())])
        elif k == "get":
            ops.append(["get", i, draw(mono())])
        elif k == "setm":
            ops.append(["setm", i, draw(st.sampled_from(LETTERS)), draw(power())])
        elif k == "setp":
            ops.append(["setp", i, draw(st.one_of(mono(), st.integers(0, 5))), draw(rat()), draw(st.booleans())])
        elif k == "copy":
            ops.append(["copy", draw(st.sampled_from(["copy", "deepcopy", "pickle", "pos"])), i])
        else:
            ops.append([k, i, j])
    return {"ops": ops}


def q(r):
    return (r[1], F(r[1])) if r[0] == "i" else (F(r[1], r[2]), F(r[1], r[2])) if r[0] == "q" else (r[1], F(r[1]))


def key(m):
    """a monomial as a sorted tuple ((letter, index), power)"""
    d = {}
    for v, e in m:
        k = (v[0], int(v[1:] or 0))
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def kmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def clean(p):
    return {k: v for k, v in p.items() if v}


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return clean(r)


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = kmul(k, l)
            r[m] = r.get(m, 0) + v * w
    return clean(r)


def make_mono(how, m):
    import roughpy as rp
    m = [(v, e) for v, e in m]
    if how == "str" and len(m) == 1 and m[0][1] == 1:
        return rp.Monomial(m[0][0])
    if how == "two" and len(m) == 1:
        return rp.Monomial(*m[0])
    if how == "pairs":
        return rp.Monomial(m)
    if how == "list":
        return rp.Monomial([v for v, e in m for _ in range(e)])
    if how == "kw":
        return rp.Monomial(**dict(m))
    if how == "set":
        r = rp.Monomial()
        for v, e in m:
            r[v] = e
        return r
    return rp.Monomial(dict(m))


def mon_of(k):
    import roughpy as rp
    return rp.Monomial({f"{l}{i}": e for (l, i), e in k})


def parse_mono(s):
    r = []
    for p in s.split():
        v, _, e = p.partition("^")
        r.append((v, int(e or 1)))
    assert len(r) == len({v for v, e in r}), f"a letter appears twice in {s}"
    assert all(e > 0 for v, e in r), f"powers in {s!r}"
    return key(r)


def parse_poly(s):
    assert s.startswith("{") and s.endswith("}"), s
    r = {}
    for t in s[1:-1].split(")"):
        t = t.strip()
        if t:
            c, _, m = t.partition("(")
            k = parse_mono(m)
            assert k not in r, f"monomial {m!r} appears twice in {s}"
            r[k] = F(c)
    return r


def degree(k):
    return sum(e for _, e in k)


def check(x, v, deep=True):
    """v: a key (tuple) for a monomial, a dictionary for a polynomial"""
    import roughpy as rp
    if isinstance(v, tuple):
        assert type(x) is rp.Monomial, f"is a {type(x).__name__}, expected a monomial"
        assert parse_mono(str(x)) == v, f"is {x}, expected {v}"
        if deep:
            assert len(x) == len(v) and bool(x) == bool(v), f"{x}: len {len(x)}, bool {bool(x)}"
            for l, i in list(dict(v)) + [("x", 1), ("w", 0)]:
                assert x[f"{l}{i}"] == dict(v).get((l, i), 0), f"power of {l}{i} in {x}"
            y = mon_of(v)
            assert x == y and hash(x) == hash(y) and not x != y and not x < y and x <= y, f"{x} is not the same as {y}"
        return
    assert type(x) is rp.PolynomialScalar, f"is a {type(x).__name__}, expected a polynomial"
    got = parse_poly(str(x))
    assert got == v, f"is {x}, expected {v}"
    if deep:
        assert len(x) == len(v) and bool(x) == bool(v), f"{x}: len {len(x)}, bool {bool(x)}"
        assert x.degree() == max((degree(k) for k in v), default=0), f"degree of {x}: {x.degree()}"
        y = rp.PolynomialScalar({mon_of(k): c for k, c in v.items()})
        assert x == y and not x != y, f"{x} is not equal to {y}"


def run(c):
    import roughpy as rp
    pool = []
    labels = set()

    def lift(v):
        return {v: F(1)} if isinstance(v, tuple) else v

    def put(x, v, what):
        try:
            check(x, v)
        except AssertionError as e:
            raise AssertionError(f"{what}: {e}")
        if isinstance(v, tuple) or len(v) <= c.get("cap", 25) and all(len(str(k)) + len(str(t)) < 400 for k, t in v.items()):
            pool.append([x, v])

    for n, op in enumerate(c["ops"]):
        if op[0] == "mono":
            put(make_mono(op[1], op[2]), key(op[2]), f"Monomial {op}")
        elif op[0] == "poly":
            d, v = {}, {}
            for m, r in op[1]:
                x, f = q(r)
                k = key(m)
                d[mon_of(k)] = x
                v[k] = f
            assert len(d) == len(v), f"monomials as dictionary keys: {d}"
            put(rp.PolynomialScalar(d), clean(v), f"PolynomialScalar({d})")
        elif op[0] == "pair":
            x, f = q(op[2])
            put(rp.PolynomialScalar(mon_of(key(op[1])), x), clean({key(op[1]): f}), f"PolynomialScalar {op}")
        elif op[0] == "const":
            x, f = q(op[1])
            put(rp.PolynomialScalar(x), clean({(): f}), f"PolynomialScalar({x})")
        else:
            a = pool[op[2 if op[0] in ("bin", "num", "copy") else 1] % len(pool)]
            x, v = a
            d = str(x)
            ismono = isinstance(v, tuple)
            if op[0] == "bin":
                b = pool[op[3] % len(pool)]
                y, w = b
                d = f"{d} {op[1]} {y}"
                if op[1] == "*" and ismono and isinstance(w, tuple):
                    r = kmul(v, w)
                elif op[1] == "*":
                    r = pmul(lift(v), lift(w))
                    if len(lift(v)) > 1 and len(lift(w)) > 1:
                        labels.add("product")
                else:
                    r = padd(lift(v), lift(w), 1 if op[1] == "+" else -1)
                    if len(r) < len(set(lift(v)) | set(lift(w))):
                        labels.add("cancellation")
                if op[4]:
                    z = x
                    if op[1] == "+":
                        z += y
                    elif op[1] == "-":
                        z -= y
                    else:
                        z *= y
                    labels.add("in place")
                    if z is x:              # in place; where the type changes, a new object is made
                        a[1] = r
                        check(x, r)
                        for o in pool:
                            if o[0] is x:
                                o[1] = r
                    else:
                        put(z, r, f"in place {d}")
                else:
                    put(x + y if op[1] == "+" else x - y if op[1] == "-" else x * y, r, d)
            elif op[0] == "num":
                y, f = q(op[3])
                side = op[4]
                d = f"{y!r} {op[1]} {d}" if side == "r" else f"{d} {op[1]} {y!r}"
                w = clean({(): f})
                l, r = (w, lift(v)) if side == "r" else (lift(v), w)
                res = pmul(l, r) if op[1] == "*" else padd(l, r, 1 if op[1] == "+" else -1)
                if side == "i":
                    z = x
                    if op[1] == "+":
                        z += y
                    elif op[1] == "-":
                        z -= y
                    else:
                        z *= y
                    labels.add("in place")
                    if z is x:
                        for o in pool:
                            if o[0] is x:
                                o[1] = res
                        check(x, res)
                    else:
                        put(z, res, f"in place {d}")
                else:
                    l, r = (y, x) if side == "r" else (x, y)
                    put(l + r if op[1] == "+" else l - r if op[1] == "-" else l * r, res, d)
            elif op[0] == "div":
                y, f = q(op[2])
                d = f"{d} / {y!r}"
                try:
                    z = x
                    if op[3]:
                        z /= y
                    else:
                        z = x / y
                except ArithmeticError:
                    assert not f, f"{d} was refused"
                    check(x, v)
                    continue
                assert f, f"{d} is {z}, expected an error"
                res = {k: t / f for k, t in lift(v).items()}
                if z is x:
                    labels.add("in place")
                    for o in pool:
                        if o[0] is x:
                            o[1] = res
                    check(x, res)
                else:
                    put(z, res, d)
            elif op[0] == "pow":
                e = op[2]
                if not ismono and len(v) ** e > 40:
                    continue
                r = tuple((k, p * e) for k, p in v) if ismono and e else () if ismono else {(): F(1)}
                if not ismono:
                    for _ in range(e):
                        r = pmul(r, v)
                labels.add("power")
                if op[3]:
                    z = x
                    z **= e
                    if z is x:
                        for o in pool:
                            if o[0] is x:
                                o[1] = r
                        check(x, r)
                    else:
                        put(z, r, f"in place {d} ** {e}")
                else:
                    put(x ** e, r, f"{d} ** {e}")
            elif op[0] == "neg":
                put(-x, {k: -t for k, t in lift(v).items()}, f"-({d})")
            elif op[0] == "cmp":
                b = pool[op[2] % len(pool)]
                y, w = b
                if ismono == isinstance(w, tuple):
                    assert (x == y, x != y) == (v == w, v != w), f"{x} == {y}: {x == y}, != {x != y}"
                    if ismono:
                        assert [x < y, x == y, y < x].count(True) == 1, f"{x} and {y} are not ordered: {x < y}, {x == y}, {y < x}"
                        assert (x <= y) == (not y < x) and (x >= y) == (not x < y) and (x > y) == (y < x)
                        if degree(v) < degree(w):
                            assert x < y, f"{x} < {y} is false"
                        if v == w:
                            assert hash(x) == hash(y)
            elif op[0] == "get":
                if ismono:
                    continue
                ks = [key(op[2])] + sorted(v)[:2]
                for k in ks:
                    s = x[mon_of(k)]
                    assert F(str(s)) == v.get(k, 0), f"coefficient of {k} in {x} is {s}"
                    if abs(v.get(k, 0)) < 2 ** 1000:
                        assert abs(s.to_float() - float(v.get(k, 0))) <= max(4e-16 * abs(float(v.get(k, 0))), 5e-324)
            elif op[0] == "setm":
                if not ismono:
                    continue
                x[op[2]] = op[3]
                m = dict(v)
                k = (op[2][0], int(op[2][1:] or 0))
                m[k] = op[3]
                r = tuple(sorted((k, e) for k, e in m.items() if e))
                labels.add("set")
                for o in pool:
                    if o[0] is x:
                        o[1] = r
                check(x, r)
            elif op[0] == "setp":
                if ismono:
                    continue
                k = key(op[2]) if isinstance(op[2], list) else sorted(v)[op[2] % len(v)] if v else ()
                y, f = q(op[3])
                if len(k) == 1 and k[0][1] == 1 and op[4]:
                    x[f"{k[0][0][0]}{k[0][0][1]}"] = y
                else:
                    x[mon_of(k)] = y
                r = dict(v)
                r[k] = f
                r = clean(r)
                labels.add("set")
                for o in pool:
                    if o[0] is x:
                        o[1] = r
                check(x, r)
            elif op[0] == "copy":
                z = copy.copy(x) if op[1] == "copy" else copy.deepcopy(x) if op[1] == "deepcopy" else \
                    pickle.loads(pickle.dumps(x)) if op[1] == "pickle" else +x
                put(z, lift(v) if op[1] == "pos" else v, f"{op[1]} of {d}")
        for x, v in pool:
            try:
                check(x, v, False)
            except AssertionError as e:
                raise AssertionError(f"after operation {n} {op}, an earlier operand {e}")
    gc.collect()
    return sorted(labels) or None


@st.composite
def many_case(draw):
    return {"n": [draw(st.sampled_from([3, 10, 20, 40, 70])) for _ in range(2)], "seed": draw(st.integers(0, 2 ** 32)), "letters": draw(st.integers(1, 7)), "deg": draw(st.integers(1, 6)),
            "ops": draw(st.integers(1, 5))}


def run_many(c):
    """polynomials with many terms"""
    R = random.Random(c["seed"])
    ops = []
    for n in c["n"]:
        t = {}
        for _ in range(n):
            m = [[v, R.randrange(1, c["deg"] + 1)] for v in R.sample(LETTERS[:c["letters"]], R.randrange(0, min(3, c["letters"]) + 1))]
            t[str(sorted(m))] = [m, ["i", R.randrange(-9, 10)] if R.random() < 0.7 else ["q", R.randrange(-9, 10), R.randrange(1, 8)]]
        ops.append(["poly", list({key(x[0]): x for x in t.values()}.values())])
    for _ in range(c["ops"]):
        k = R.choice(["bin", "bin", "bin", "neg", "num", "copy", "cmp"])
        ops.append(["bin", R.choice("+-*"), R.randrange(20), R.randrange(20), R.random() < 0.4] if k == "bin" else ["neg", R.randrange(20), 0] if k == "neg" else
                   ["num", R.choice("+-*"), R.randrange(20), ["q", R.randrange(-9, 10), R.randrange(1, 8)], R.choice("lri")] if k == "num" else
                   ["copy", R.choice(["copy", "deepcopy", "pickle", "pos"]), R.randrange(20)] if k == "copy" else ["cmp", R.randrange(20), R.randrange(20)])
    return run({"ops": ops, "cap": 150})


ARMS = [
    Arm("many", many_case(), run_many, quick=300, thorough=12000, what="the same for polynomials of up to several hundred terms"),
    Arm("histories", case(), run, quick=3000, thorough=120000,
        what="sequences of constructions, + - * / **, in-place operations, changes of powers and coefficients, comparison and copies"),
]
