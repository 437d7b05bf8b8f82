"""Reference model of the algebra RoughPy implements, written from the mathematical definitions.

Tensors are dicts {word (tuple of letters 1..width): coefficient}; the coefficients may be Fractions, floats or
Poly below.  Nothing here calls RoughPy.
"""
from __future__ import annotations

import functools
import itertools
import math
from fractions import Fraction


# ---------------------------------------------------------------- sizes

def tensor_dim(width, depth):
    return sum(width ** k for k in range(depth + 1))


def _moebius(n):
    res, p = 1, 2
    while n > 1:
        if n % p == 0:
            n //= p
            if n % p == 0:
                return 0
            res = -res
        p += 1
    return res


def witt(width, degree):
    """Dimension of the degree-`degree` part of the free Lie algebra (necklace polynomial)."""
    return sum(_moebius(d) * width ** (degree // d) for d in range(1, degree + 1) if degree % d == 0) // degree


def lie_dim(width, depth):
    return sum(witt(width, k) for k in range(1, depth + 1))


def words(width, depth):
    """All words of length <= depth in the degree-then-lexicographic order."""
    for k in range(depth + 1):
        yield from itertools.product(range(1, width + 1), repeat=k)


@functools.lru_cache(None)
def word_list(width, depth):
    return list(words(width, depth))


@functools.lru_cache(None)
def word_index(width, depth):
    return {w: i for i, w in enumerate(word_list(width, depth))}


# ---------------------------------------------------------------- polynomials (rational coefficients)

class Poly:
    """Commutative polynomial: {monomial: Fraction}; a monomial is a sorted tuple of (variable, exponent)."""
    __slots__ = ("t",)

    def __init__(self, t=None):
        if t is None:
            t = {}
        elif not isinstance(t, dict):
            t = {(): Fraction(t)} if t else {}
        self.t = {k: v for k, v in t.items() if v}

    @staticmethod
    def lift(x):
        return x if isinstance(x, Poly) else Poly(x)

    def __bool__(self):
        return bool(self.t)

    def __eq__(self, o):
        return self.t == Poly.lift(o).t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __add__(self, o):
        o = Poly.lift(o)
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.lift(o))

    def __rsub__(self, o):
        return Poly.lift(o) - self

    def __mul__(self, o):
        o = Poly.lift(o)
        r = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                k = mono_mul(a, b)
                r[k] = r.get(k, 0) + x * y
        return Poly(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Poly):
            assert set(o.t) == {()}
            o = o.t[()]
        return Poly({k: v / Fraction(o) for k, v in self.t.items()})

    def __repr__(self):
        return f"Poly({self.t})"


def mono(d):
    return tuple(sorted((k, v) for k, v in d.items() if v))


def mono_mul(a, b):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return mono(d)


# ---------------------------------------------------------------- vectors

def clean(x):
    return {k: v for k, v in x.items() if v}


def add(x, y, s=1):
    r = dict(x)
    for k, v in y.items():
        r[k] = r.get(k, 0) + (v if s == 1 else s * v)
    return clean(r)


def sub(x, y):
    return add(x, {k: -v for k, v in y.items()})


def smul(x, s):
    return clean({k: v * s for k, v in x.items()})


def sdiv(x, s):
    return clean({k: v / s for k, v in x.items()})


def neg(x):
    return {k: -v for k, v in x.items()}


def degree(x):
    return max((len(k) for k, v in x.items() if v), default=0)


# ---------------------------------------------------------------- tensor algebra

def _by_len(x):
    r = {}
    for k, v in x.items():
        if v:
            r.setdefault(len(k), []).append((k, v))
    return r


def mul(x, y, depth):
    r = {}
    by = _by_len(y)
    for a, u in x.items():
        if not u:
            continue
        for n, items in by.items():
            if len(a) + n > depth:
                continue
            for b, v in items:
                k = a + b
                p = u * v
                if k in r:
                    r[k] += p
                else:
                    r[k] = p
    return clean(r)


def mul_many(xs, depth, one=Fraction(1)):
    r = {(): one}
    for x in xs:
        r = mul(r, x, depth)
    return r


@functools.lru_cache(200000)
def shuffle_words(a, b):
    if not a:
        return ((b, 1),)
    if not b:
        return ((a, 1),)
    r = {}
    for w, c in shuffle_words(a[:-1], b):
        k = w + a[-1:]
        r[k] = r.get(k, 0) + c
    for w, c in shuffle_words(a, b[:-1]):
        k = w + b[-1:]
        r[k] = r.get(k, 0) + c
    return tuple(r.items())


def shuffle(x, y, depth):
    r = {}
    for a, u in x.items():
        for b, v in y.items():
            if len(a) + len(b) <= depth:
                p = u * v
                for w, c in shuffle_words(a, b):
                    r[w] = r.get(w, 0) + p * c
    return clean(r)


def exp_nilpotent(x, depth, one=Fraction(1)):
    """exp of a tensor with zero constant term, by Horner."""
    r = {(): one}
    for i in range(depth, 0, -1):
        r = add({(): one}, sdiv(mul(x, r, depth), i))
    return r


def exp(x, depth, one=Fraction(1)):
    """exp of a tensor: the constant term must be zero for exact arithmetic."""
    return exp_nilpotent(x, depth, one)


def log(x, depth):
    """log of a tensor with constant term one."""
    n = {k: v for k, v in x.items() if k != ()}
    r, p = {}, {(): 1}
    for i in range(1, depth + 1):
        p = mul(p, n, depth)
        r = add(r, smul(sdiv(p, i), 1 if i % 2 else -1))
    return r


def antipode(x):
    return {k[::-1]: (v if len(k) % 2 == 0 else -v) for k, v in x.items()}


def inverse(x, depth):
    """multiplicative inverse of a tensor with constant term one."""
    n = {k: -v for k, v in x.items() if k != ()}
    r, p = {(): 1}, {(): 1}
    for _ in range(depth):
        p = mul(p, n, depth)
        r = add(r, p)
    return r


def adjoint_left_mul(m, t):
    """Adjoint of left multiplication by m: <L_m^* t, w> = <t, m w>."""
    r = {}
    for w, v in t.items():
        for i in range(len(w) + 1):
            if w[:i] in m:
                r[w[i:]] = r.get(w[i:], 0) + m[w[:i]] * v
    return clean(r)


def pairing(x, y):
    return sum((v * y[k] for k, v in x.items() if k in y), 0)


def truncate(x, depth):
    return {k: v for k, v in x.items() if len(k) <= depth and v}


def bracket(x, y, depth):
    return sub(mul(x, y, depth), mul(y, x, depth))


def is_lie(x, depth):
    """Dynkin-Specht-Wever: x is a Lie element iff the left (here right) normed bracketing acts as n on degree n."""
    if x.get(()):
        return False
    return rbracket(x, depth) == clean({k: v * len(k) for k, v in x.items()})


@functools.lru_cache(200000)
def rbracket_word(w):
    if len(w) == 1:
        return {w: 1}
    inner = rbracket_word(w[1:])
    r = {}
    for k, v in inner.items():
        r[w[:1] + k] = r.get(w[:1] + k, 0) + v
        r[k + w[:1]] = r.get(k + w[:1], 0) - v
    return {k: v for k, v in r.items() if v}


def rbracket(x, depth):
    r = {}
    for w, v in x.items():
        if w:
            for k, c in rbracket_word(w).items():
                r[k] = r.get(k, 0) + v * c
    return clean(r)


def dynkin(x):
    """Dynkin projection on tensors."""
    r = {}
    for w, v in x.items():
        if w:
            for k, c in rbracket_word(w).items():
                r[k] = r.get(k, 0) + v * c / Fraction(len(w))
    return clean(r)


# ---------------------------------------------------------------- Lie elements as bracket trees

def parse_tree(s):
    """'[1,[1,2]]' -> (1,(1,2))"""
    pos = 0

    def rec():
        nonlocal pos
        if s[pos] == '[':
            pos += 1
            left = rec()
            assert s[pos] == ','
            pos += 1
            right = rec()
            assert s[pos] == ']'
            pos += 1
            return (left, right)
        st = pos
        while pos < len(s) and s[pos].isdigit():
            pos += 1
        return int(s[st:pos])

    r = rec()
    assert pos == len(s), s
    return r


def tree_degree(t):
    return 1 if isinstance(t, int) else tree_degree(t[0]) + tree_degree(t[1])


@functools.lru_cache(100000)
def _tree_expand(t):
    if isinstance(t, int):
        return {(t,): 1}
    a, b = _tree_expand(t[0]), _tree_expand(t[1])
    r = {}
    for k, u in a.items():
        for l, v in b.items():
            r[k + l] = r.get(k + l, 0) + u * v
            r[l + k] = r.get(l + k, 0) - u * v
    return {k: v for k, v in r.items() if v}


def tree_expand(t):
    return _tree_expand(t)


def lie_expand(lie):
    """{tree: coefficient} -> tensor"""
    r = {}
    for t, c in lie.items():
        for w, v in tree_expand(t).items():
            r[w] = r.get(w, 0) + c * v
    return clean(r)


def hall_basis(width, depth):
    """The Hall basis in the order RoughPy documents it: by degree; [a,b] with a<b and left parent of b <= a."""
    elems = list(range(1, width + 1))
    deg_ranges = {1: range(0, width)}
    parents = {i: None for i in range(width)}
    for d in range(2, depth + 1):
        start = len(elems)
        for e in range(1, d // 2 + 1):
            for i in deg_ranges[e]:
                for j in deg_ranges[d - e]:
                    if j <= i:
                        continue
                    if parents[j] is None or parents[j][0] <= i:
                        parents[len(elems)] = (i, j)
                        elems.append((elems[i], elems[j]))
        deg_ranges[d] = range(start, len(elems))
    return elems


def tree_str(t):
    return str(t) if isinstance(t, int) else f"[{tree_str(t[0])},{tree_str(t[1])}]"


def bch(lies, depth, one=Fraction(1)):
    """log(exp(x1) exp(x2) ...) for tensors that are Lie."""
    p = {(): one}
    for x in lies:
        p = mul(p, exp(x, depth, one), depth)
    return log(p, depth)


# ---------------------------------------------------------------- intervals / dyadics

def floor_dyadic(t, res):
    """Largest multiple of 2^-res that is <= t (t a Fraction)."""
    return Fraction(math.floor(t * 2 ** res), 2 ** res) if res >= 0 else Fraction(math.floor(t / 2 ** -res) * 2 ** -res)


def canonical_dyadics(inf, sup, res):
    """The dissection of [inf,sup) rounded outwards-to-included ends, into maximal dyadic intervals of power <= res."""
    lo, hi = floor_dyadic(Fraction(inf), res), floor_dyadic(Fraction(sup), res)
    unit = Fraction(1, 2 ** res) if res >= 0 else Fraction(2 ** -res)
    k, end = lo / unit, hi / unit
    assert k.denominator == 1 and end.denominator == 1
    k, end = int(k), int(end)
    out = []
    while k < end:
        n = 0
        while k % (2 << n) == 0 and k + (2 << n) <= end:
            n += 1
        out.append((k >> n, res - n))
        k += 1 << n
    return out
