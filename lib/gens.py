"""Hypothesis strategies: every case is plain JSON data."""
from hypothesis import strategies as st
import model as M

EXACT = ["Q", "P"]                    # Rational, RationalPoly
FLOATS = ["D", "S"]                   # double, float
ALL_CT = ["Q", "P", "D", "S"]


def sized(max_dim, wmax=6, dmax=6, wmin=1, dmin=1):
    return [(w, d) for w in range(wmin, wmax + 1) for d in range(dmin, dmax + 1) if M.tensor_dim(w, d) <= max_dim]


def wd(max_dim=130, **kw):
    """(width, depth); weighted towards algebras that are neither trivial nor large"""
    all_ = sized(max_dim, **kw)
    good = [(w, d) for (w, d) in all_ if w >= 2 and d >= 2] or all_
    return st.one_of(st.sampled_from(good), st.sampled_from(good), st.sampled_from(all_))


# --- coefficients; as [numerator, denominator], or for polynomials a list of [num, den, [[letter, index, exponent]..]]

def q_coeff(big=False):
    small = st.builds(lambda a, b: [a, b], st.integers(-6, 6), st.sampled_from([1, 1, 1, 2, 3, 4, 5, 7, 12]))
    if not big:
        return small
    return st.one_of(small, small, st.builds(lambda a, b: [a, b], st.integers(-2 ** 40, 2 ** 40),
                                             st.integers(1, 2 ** 20)))


def f_coeff():
    """dyadic rationals with few bits, so that sums and products of a few of them are exact in float"""
    return st.builds(lambda a, b: [a, b], st.integers(-8, 8), st.sampled_from([1, 1, 2, 4, 8]))


def int_coeff():
    return st.builds(lambda a: [a, 1], st.integers(-5, 5))


def p_coeff():
    mono = st.lists(st.tuples(st.sampled_from("xyz"), st.integers(0, 3), st.integers(1, 2)).map(list), max_size=2,
                    unique_by=lambda t: (t[0], t[1]))
    term = st.builds(lambda a, b, m: [a, b, m], st.integers(-4, 4).filter(bool), st.sampled_from([1, 1, 2, 3]), mono)
    return st.lists(term, max_size=3)


def coeff(ct, big=False):
    return {"Q": q_coeff(big), "P": p_coeff(), "D": f_coeff(), "S": f_coeff(), "I": int_coeff()}[ct]


def entries(n, ct, dense=None, big=False, start=0, max_size=14):
    """list of [index, coefficient] with distinct indices below n; or a dense prefix"""
    c = coeff(ct, big)
    if n <= start:
        return st.just([])
    sparse = st.lists(st.tuples(st.integers(start, n - 1), c).map(list), max_size=max_size, unique_by=lambda t: t[0])

    @st.composite
    def dense_(draw):
        # few draws: a short pool of coefficients arranged over a prefix
        pool = draw(st.lists(c, min_size=1, max_size=6))
        lim = 40 if ct == "P" else n
        k = draw(st.integers(start, min(n, start + lim)))
        a, b = draw(st.integers(0, 40)), draw(st.integers(1, 40))
        out = []
        for i in range(start, k):
            j = (a + b * i + (i * i) // 3) % (len(pool) + 1)
            if j < len(pool):
                out.append([i, pool[j]])
        return out

    return st.one_of(sparse, dense_())


TSTORE = ("dense", "dense", "sparse", "map", "map", "sum", "sumr", "cancel", "msum", "mcancel", "grow", "vd")
LSTORE = ("dense", "dense", "map", "sum", "sumr", "cancel", "msum", "mcancel", "grow", "vs", "vs", "vsum", "vcancel")


def tensor(ct, w, d, start=0, big=False, storages=TSTORE, max_size=14):
    """{"e": entries, "st": how it is built}"""
    return st.fixed_dictionaries({"e": entries(M.tensor_dim(w, d), ct, big=big, start=start, max_size=max_size),
                                  "st": st.sampled_from(storages)})


def lie(ct, w, d, big=False, storages=LSTORE, max_size=8, start=0):
    return st.fixed_dictionaries({"e": entries(M.lie_dim(w, d), ct, big=big, start=start, max_size=max_size),
                                  "st": st.sampled_from(storages)})


def ct(kinds=ALL_CT, weights=None):
    return st.sampled_from(weights or [k for k in kinds for _ in range({"Q": 4, "D": 2, "P": 1, "S": 1}[k])])
