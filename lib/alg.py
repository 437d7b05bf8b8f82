"""Shared by the algebra checks: make elements of the three kinds from cases and read them back."""
import roughpy as rp
from rpyio import mtensor, mlie, rtensor, rlie, t2m, l2m

CLS = {"free": rp.FreeTensor, "shuffle": rp.ShuffleTensor, "lie": rp.Lie}


def make(kind, case, w, d, ct):
    if kind == "lie":
        m = mlie(case, w, d, ct)
        return rlie(m, w, d, ct, case["st"]), m
    m = mtensor(case, w, d, ct)
    return rtensor(m, w, d, ct, case["st"], CLS[kind]), m


def read(kind, x, ct):
    return l2m(x, ct) if kind == "lie" else t2m(x, ct)
