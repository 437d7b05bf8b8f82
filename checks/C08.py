"""C08: value semantics over histories: random straight-line programs over a pool of algebra elements."""
import copy
import gc
import math
from fractions import Fraction
from hypothesis import strategies as st
import gens as G
import model as M
import roughpy as rp
from alg import CLS, make, read
from fw import Arm, Discard
from rpyio import (ctx_of, mcoeff, mtensor, mlie, rtensor, rlie, t2m, l2m, same, scalar, sval, one, hall, tkey)

RULE = ("cases are generated programs of up to 24 steps over a pool of free tensors, shuffle tensors and Lie elements of "
        "one coefficient type (rational, polynomial, double or float, all exact) and of several depths, with aliases, "
        "kept coefficients and dropped objects; non-trivial when at least four steps changed a non-zero element")

KINDS = ["free", "free", "shuffle", "lie"]
NR = 3                                   # registers per kind
OPS = ["new", "new", "add", "sub", "mul", "iadd", "isub", "imul", "smul", "ismul", "isdiv", "neg", "asm", "ssm", "asd",
       "add_mul", "sub_mul", "mul_smul", "alias", "copy", "keep", "keep", "drop", "antipode", "exp", "log", "fmexp",
       "l2t", "t2l", "adj", "clear", "zero", "eq", "sub_self", "read", "iter_while_change"]


@st.composite
def prog_case(draw):
    ct = draw(st.sampled_from("QQQDDSP"))
    w, d = draw(G.wd(70 if ct in "QDS" else 25, dmax=6))
    mk = {"free": G.tensor(ct, w, d, max_size=6), "shuffle": G.tensor(ct, w, d, max_size=6),
          "lie": G.lie(ct, w, d, max_size=5)}
    steps = []
    for _ in range(draw(st.integers(3, 24 if ct != "P" else 10))):
        op = draw(st.sampled_from(OPS))
        k = draw(st.sampled_from(KINDS))
        s = {"op": op, "k": k, "i": draw(st.integers(0, NR - 1)), "j": draw(st.integers(0, NR - 1)),
             "t": draw(st.integers(0, NR - 1))}
        if op == "new":
            s["x"] = draw(mk[k])
        if op in ("smul", "ismul", "isdiv", "asm", "ssm", "asd", "mul_smul"):
            s["s"] = draw(G.q_coeff() if ct in "QP" else G.f_coeff())
        if op in ("keep", "read", "add_mul", "sub_mul", "iter_while_change"):
            s["n"] = draw(st.integers(0, 10 ** 5))
        steps.append(s)
    init = {k: [draw(mk[k]) for _ in range(2)] for k in ("free", "shuffle", "lie")}
    return {"ct": ct, "w": w, "d": d, "init": init, "steps": steps}


LIM = {"D": 2 ** 40, "S": 2 ** 18}


class Cell:
    """an object and its model value; aliases share the cell"""
    def __init__(self, x, m):
        self.x, self.m = x, m


def exactable(m, ct):
    """the values are represented exactly with bits to spare (floats), or stay small (rationals)"""
    for v in m.values():
        if ct in "DS":
            f = Fraction(v)
            if abs(f.numerator) * f.denominator > LIM[ct]:
                return False
        elif ct == "Q":
            if abs(v.numerator) > 2 ** 300 or v.denominator > 2 ** 300:
                return False
        elif len(v.t) > 40:
            return False
    return True


def run_prog(c):
    ct, w, d = c["ct"], c["w"], c["d"]
    ctx = ctx_of(w, d, ct)
    F = (lambda v: v) if ct == "P" else Fraction
    R = {k: [None] * NR for k in ("free", "shuffle", "lie")}
    kept = []
    work = 0

    def lift(m):
        return {k: F(v) for k, v in m.items()}

    def rd(k, x):
        return lift(read(k, x, ct))

    def new(k, case):
        x, m = make(k, case, w, d, ct)
        return Cell(x, lift(m))

    for k in R:
        for i, case in enumerate(c["init"][k]):
            R[k][i] = new(k, case)

    def mulm(k, a, b):
        if k == "free":
            return M.mul(a, b, d)
        if k == "shuffle":
            return M.shuffle(a, b, d)
        e = M.bracket(M.lie_expand(a), M.lie_expand(b), d)
        return e

    def check(k, cell, what):
        if k == "lie" and cell.m is None:
            return
        same(rd(k, cell.x), cell.m, ct, what)

    H = hall(w, d)
    keys = {"free": M.word_list(w, d), "shuffle": M.word_list(w, d), "lie": H}

    def lie_of(e):
        """the Hall coefficients of a Lie tensor, through the reference expansion and elimination by leading words"""
        return lie_coords(e, w, d)

    for n, s in enumerate(c["steps"]):
        op, k, i, j, t = s["op"], s["k"], s["i"], s["j"], s["t"]
        A, B, T = R[k][i], R[k][j], R[k][t]
        what = f"step {n} {op} {k}"
        if op == "new":
            R[k][i] = new(k, s["x"])
            continue
        if A is None:
            continue
        if op in ("add", "sub", "mul", "iadd", "isub", "imul", "asm", "ssm", "asd", "add_mul", "sub_mul", "mul_smul",
                  "eq", "adj", "fmexp") and B is None:
            continue
        a, b = A.m, (B.m if B else None)
        if "s" in s:
            sv = Fraction(*s["s"])
            if op in ("isdiv", "asd"):
                if not sv:
                    continue
                if ct in "DS" and bin(abs(sv.numerator)).count("1") != 1:      # not exact
                    continue
            rs = scalar(sv if ct == "Q" else (M.Poly(sv) if ct == "P" else float(sv)), ct)
            if ct == "P" and op in ("isdiv", "asd"):
                rs = scalar(sv, "Q")
        new_m = None
        try:
            if op in ("add", "iadd"):
                new_m = M.add(a, b)
            elif op in ("sub", "isub"):
                new_m = M.sub(a, b)
            elif op == "sub_self":
                new_m = {}
            elif op in ("mul", "imul"):
                new_m = mulm(k, a, b)
            elif op in ("smul", "ismul"):
                new_m = M.smul(a, sv)
            elif op == "isdiv":
                new_m = M.sdiv(a, sv)
            elif op == "asm":
                new_m = M.add(a, M.smul(b, sv))
            elif op == "ssm":
                new_m = M.sub(a, M.smul(b, sv))
            elif op == "asd":
                new_m = M.add(a, M.sdiv(b, sv))
            elif op in ("add_mul", "sub_mul"):
                C = R[k][s["n"] % NR]
                if C is None:
                    continue
                p = mulm(k, b, C.m)
                if k == "lie":
                    p = lie_of(p)
                new_m = M.add(a, p) if op == "add_mul" else M.sub(a, p)
            elif op == "mul_smul":
                p = mulm(k, a, b)
                if k == "lie":
                    p = lie_of(p)
                new_m = M.smul(p, sv)
            if new_m is not None and k == "lie" and op in ("mul", "imul"):
                new_m = lie_of(new_m)
        except OverflowError:
            continue
        if new_m is not None and not exactable(new_m, ct):
            continue
        if op == "add":
            R[k][t] = Cell(A.x + B.x, new_m)
        elif op == "sub":
            R[k][t] = Cell(A.x - B.x, new_m)
        elif op == "sub_self":
            R[k][t] = Cell(A.x - A.x, new_m)
        elif op == "mul":
            R[k][t] = Cell(A.x * B.x, new_m)
        elif op == "smul":
            R[k][t] = Cell(A.x * rs, new_m)
        elif op == "neg":
            R[k][t] = Cell(-A.x, M.neg(a))
        elif op in ("iadd", "isub", "imul"):
            x = A.x
            y = x
            if op == "iadd":
                x += B.x
            elif op == "isub":
                x -= B.x
            else:
                x *= B.x
            A.m = new_m
            assert x is y, f"{what}: the in-place operator made another object"
        elif op in ("ismul", "isdiv"):
            x = A.x
            if op == "ismul":
                x *= rs
            else:
                x /= rs
            A.m = new_m
        elif op == "asm":
            A.x.add_scal_mul(B.x, rs)
            A.m = new_m
        elif op == "ssm":
            A.x.sub_scal_mul(B.x, rs)
            A.m = new_m
        elif op == "asd":
            A.x.add_scal_div(B.x, rs)
            A.m = new_m
        elif op == "add_mul":
            A.x.add_mul(B.x, C.x)
            A.m = new_m
        elif op == "sub_mul":
            A.x.sub_mul(B.x, C.x)
            A.m = new_m
        elif op == "mul_smul":
            A.x.mul_smul(B.x, rs)
            A.m = new_m
        elif op == "alias":
            R[k][t] = A
        elif op == "copy":
            y = A.x * 1
            R[k][t] = Cell(y, dict(a))
        elif op == "clear":
            x = A.x
            x *= 0
            A.m = {}
        elif op == "zero":
            R[k][t] = Cell(CLS[k](ctx=ctx), {}) if s["i"] else Cell(A.x * 0, {})
        elif op == "eq":
            if ct in "QP":
                assert (A.x == B.x) == (a == b), f"{what}: == says {A.x == B.x}"
            continue
        elif op == "keep":
            ks = keys[k]
            key = ks[s["n"] % len(ks)]
            idx = s["n"] % len(ks)
            val = A.x[idx + 1 if k == "lie" else idx]
            kept.append((val, a.get(key, 0), f"coefficient {key} kept at {what}"))
            items = list(A.x)
            if items:
                it = items[s["n"] % len(items)]
                v = it.value()
                key = M.parse_tree(str(it.key())) if k == "lie" else tuple(it.key().to_letters())
                kept.append((v, a.get(key, 0), f"value of the item {key} kept at {what}"))
            continue
        elif op == "iter_while_change":
            # values read while going through an element are those of the element at that time
            for q, it in enumerate(A.x):
                key = M.parse_tree(str(it.key())) if k == "lie" else tuple(it.key().to_letters())
                assert F(sval(it.value(), ct)) == a.get(key, 0), f"{what}: {key}"
                if q == s["n"] % 5:
                    v = it.value()
                    v2 = v + v
                    assert F(sval(it.value(), ct)) == a.get(key, 0), f"{what}: arithmetic on a value changed the element"
            continue
        elif op == "read":
            ks = keys[k]
            idx = s["n"] % len(ks)
            v = sval(A.x[idx + 1 if k == "lie" else idx], ct)
            assert F(v) == a.get(ks[idx], 0), f"{what}: coefficient of {ks[idx]} is {v} not {a.get(ks[idx], 0)}"
            continue
        elif op == "drop":
            R[k][i] = None
            del A
            gc.collect()
            continue
        elif op in ("antipode", "exp", "log", "fmexp"):
            if k != "free":
                continue
            if op == "antipode":
                R[k][t] = Cell(A.x.antipode(), M.antipode(a))
            else:
                if ct not in "QP":
                    continue
                if op == "exp":
                    if () in a:
                        continue
                    e = M.exp(a, d, one(ct))
                    if not exactable(e, ct):
                        continue
                    R[k][t] = Cell(A.x.exp(), e)
                elif op == "log":
                    if a.get((), 0) != 1:
                        continue
                    e = M.log(a, d)
                    if not exactable(e, ct):
                        continue
                    R[k][t] = Cell(A.x.log(), e)
                else:
                    if () in b:
                        continue
                    e = M.mul(a, M.exp(b, d, one(ct)), d)
                    if not exactable(e, ct):
                        continue
                    r = A.x.fmexp(B.x)
                    A.m = e
                    same(rd(k, r), e, ct, what)
                    # the returned element and the target are independent or the same object: both have the value
        elif op == "l2t":
            L = R["lie"][i]
            if L is None:
                continue
            R["free"][t] = Cell(ctx.lie_to_tensor(L.x), M.lie_expand(L.m))
        elif op == "t2l":
            L = R["lie"][i]
            if L is None or ct not in "QP":
                continue
            R["lie"][t] = Cell(ctx.tensor_to_lie(ctx.lie_to_tensor(L.x)), dict(L.m))
        elif op == "adj":
            Fr, Sh = R["free"][i], R["shuffle"][j]
            if Fr is None or Sh is None:
                continue
            e = M.adjoint_left_mul(Fr.m, Sh.m)
            if not exactable(e, ct):
                continue
            x = rp.adjoint_to_free_multiply(Fr.x, Sh.x)
            R["free" if isinstance(x, rp.FreeTensor) else "shuffle"][t] = Cell(x, e)
        # the element touched, and every other one, have the values they should have
        for kk in R:
            for q, cell in enumerate(R[kk]):
                if cell is not None and (cell.x is not None):
                    check(kk, cell, f"{what}: {kk} {q} afterwards")
        if a and op not in ("alias", "copy"):
            work += 1
    gc.collect()
    for v, m, desc in kept:
        got = F(sval(v, ct))
        assert got == m, f"{desc}: now {got}, was {m}"
    return [ct] if work >= 4 else None


_coords = {}


def lie_coords(e, w, d):
    """Hall coordinates of a Lie tensor, degree by degree, by exact elimination (cached per basis)."""
    out = {}
    for n in range(1, d + 1):
        part = {k: v for k, v in e.items() if len(k) == n}
        if not part:
            continue
        rows = _elim(w, d, n)
        for piv, row, comb in rows:
            if piv in part:
                f = part[piv]
                for q, v in row.items():
                    x = part.get(q, 0) - f * v
                    if x:
                        part[q] = x
                    else:
                        part.pop(q, None)
                for tr, v in comb.items():
                    x = out.get(tr, 0) + f * v
                    if x:
                        out[tr] = x
                    else:
                        out.pop(tr, None)
        assert not part, "not a Lie element"
    return out


def _elim(w, d, n):
    if (w, n) in _coords:
        return _coords[(w, n)]
    rows = []
    for t in [t for t in hall(w, d) if M.tree_degree(t) == n]:
        v = {k: Fraction(x) for k, x in M.tree_expand(t).items()}
        comb = {t: Fraction(1)}
        for piv, row, cb in rows:
            if piv in v:
                f = v[piv]
                v = M.sub(v, M.smul(row, f))
                comb = M.sub(comb, M.smul(cb, f))
        piv = next(iter(v))
        f = v[piv]
        rows.append((piv, M.sdiv(v, f), M.sdiv(comb, f)))
    _coords[(w, n)] = rows
    return rows


ARMS = [
    Arm("programs", prog_case(), run_prog, quick=2200, thorough=60000,
        what="after every step every element has the value its own history gives it; coefficients read earlier keep "
        "their values whatever happens to the element"),
]
