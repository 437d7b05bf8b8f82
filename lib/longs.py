"""Long inputs, made from a seed: what only many increments, ticks, pieces, frames or points can show."""
import random
from hypothesis import strategies as st

SIZES = st.one_of(st.integers(12, 40), st.integers(50, 140), st.integers(200, 300), st.integers(500, 700), st.integers(1000, 1100))
SEED = st.integers(0, 2 ** 32)


def rng(c):
    return random.Random(c["seed"])


def parameters(R, n, per=16, order="sorted"):
    """n parameters [k, per] in [0, n / per]"""
    l = [[R.randrange(0, n + 1), per] for _ in range(n)]
    if order == "sorted":
        l.sort()
    elif order == "grid":
        l = [[k, per] for k in range(n)]
    return l


def queries(R, n, hi, resolutions=(None, 0, 1, 2, 3, 4, 5)):
    out = []
    for _ in range(n):
        a = sorted([R.randrange(-16, int(hi * 16) + 17) for _ in range(2)])
        if R.random() < 0.3:
            a[1] = a[0] + R.randrange(1, 20)
        out.append({"i": None if R.random() < 0.15 else [[a[0], 16], [a[1], 16]], "r": R.choice(resolutions), "f": R.choice(["real", "real", "pair", "pairr"])})
    return out
