"""C27: a stream read from a sound file answers as the stream of its samples."""
import os
import shutil
import struct
import tempfile
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
import gens as G
import longs as L
import model as M
import smodel as S
import roughpy as rp
from fw import Arm, Discard, WORK
from rpyio import l2m, t2m, same, ctx_of, DT
from smodel import TOL, frac

RULE = ("cases are generated sound files (WAV and AU, integer and floating-point samples, one to four channels, any "
        "rate and length) opened with generated types of channels, resolution, support, coefficient type and storage, "
        "and histories of queries; non-trivial when a query selects some of at least two frames that are not all zero")

BITS = {"u8": 8, "s8": 8, "s16": 16, "s24": 24, "s32": 32, "f4": 0, "f8": 0}
AU = {"s8": 2, "s16": 3, "s24": 4, "s32": 5, "f4": 6, "f8": 7}


def encode(rows, fmt, big):
    flat = [x for r in rows for x in r]
    if fmt in ("f4", "f8"):
        return np.array(flat, dtype=(">" if big else "<") + fmt).tobytes()
    n = BITS[fmt] // 8
    if fmt == "u8":
        return bytes(x + 128 for x in flat)
    return b"".join(x.to_bytes(n, "big" if big else "little", signed=True) for x in flat)


def write(path, c, rows):
    fmt, ch, rate = c["fmt"], c["ch"], c["rate"]
    if c["file"] == "wav":
        b, size = encode(rows, fmt, False), (BITS[fmt] or int(fmt[1]) * 8)
        h = b"fmt " + struct.pack("<IHHIIHH", 16, 3 if fmt[0] == "f" else 1, ch, rate, rate * ch * size // 8,
                                  ch * size // 8, size)
        if c["junk"]:
            h = b"LIST" + struct.pack("<I", 4) + b"INFO" + h
        body = b"WAVE" + h + b"data" + struct.pack("<I", len(b)) + b + (b"\0" if len(b) % 2 else b"")
        data = b"RIFF" + struct.pack("<I", len(body)) + body
    else:
        b = encode(rows, fmt, True)
        data = b".snd" + struct.pack(">IIIII", 24, len(b), AU[fmt], rate, ch) + b
    with open(path, "wb") as f:
        f.write(data)


def samples(c):
    """-> (numbers to write, exact values of the samples)"""
    fmt = c["fmt"]
    n = BITS[fmt]
    if n:
        lim = 1 << (n - 1)
        # the numbers are the leading bits of the samples, so that products of samples stay of a reasonable size
        raw = [[max(-lim, min(lim - 1, (x * lim) // 64 + (c["low"] and (x * 5) % 3))) for x in r] for r in c["rows"]]
        return raw, [[Fraction(x, lim) for x in r] for r in raw]
    raw = [[x / 16.0 for x in r] for r in c["rows"]]
    return raw, [[Fraction(x) for x in r] for r in raw]


@st.composite
def case(draw):
    c = {"file": draw(st.sampled_from(["wav", "wav", "au"]))}
    c["fmt"] = draw(st.sampled_from(["u8", "s16", "s16", "s24", "s32", "f4", "f8"] if c["file"] == "wav"
                                    else ["s8", "s16", "s24", "s32", "f4", "f8"]))
    c["ch"] = draw(st.sampled_from([1, 2, 2, 2, 3, 4]))
    c["rate"] = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 8, 10, 16, 100, 1000, 8000, 44100]))
    n = draw(st.one_of(st.integers(0, 10), st.integers(2, 8), st.integers(2, 40)))
    flat = draw(st.lists(st.integers(-64, 63), min_size=n * c["ch"], max_size=n * c["ch"]))
    c["rows"] = [flat[i * c["ch"]:(i + 1) * c["ch"]] for i in range(n)]
    c["junk"], c["low"] = draw(st.booleans()), draw(st.booleans())
    c["ct"] = draw(st.sampled_from("DDDDSQQP"))
    c["dkw"] = draw(st.sampled_from(["none", "dtype", "ctx"])) if c["ct"] == "D" else draw(st.sampled_from(["dtype", "ctx"]))
    if c["dkw"] == "none" and c["fmt"] == "f4":          # the type of the file
        c["ct"] = "S"
    ok = [d for d in range(1, 5) if M.tensor_dim(c["ch"], d) <= (40 if c["ct"] in "QP" else 130)]
    c["d"] = draw(st.sampled_from(ok))
    if c["ct"] == "P":
        c["d"] = min(c["d"], 2)
    types = st.sampled_from(["value", "increment"])
    k = draw(st.sampled_from(["none", "none", "all", "list", "dict", "schema", "schemaobj", "short"]))
    c["types"] = [k, draw(types)] if k in ("none", "all") else [k, draw(st.lists(
        types, min_size=c["ch"] if k != "short" else 1, max_size=c["ch"]))]
    if k == "none":
        c["types"][1] = "increment"
    c["spell"] = draw(st.booleans())
    span = max(n, 1) / c["rate"]
    rmax = 12 if span > 4 else 14 if span > 1 else 17
    c["res"] = draw(st.one_of(st.none(), st.integers(0, min(rmax, 8)), st.integers(0, rmax)))
    # intervals in units of 1/8 of a frame and in units of cells
    t = st.one_of(st.integers(-8, 8 * n + 16).map(lambda k: ["f", k]),
                  st.tuples(st.sampled_from([0, 1, 2, 4, 8, 12]), st.integers(-4, 70)).map(lambda t: ["d", *t]))
    iv = st.tuples(t, t).map(list)
    c["sup"] = draw(st.one_of(st.none(), st.none(), st.none(), iv))
    c["vt"] = draw(st.sampled_from([None, None, "dense", "sparse"]))
    c["name"] = draw(st.sampled_from(["a.wav", "a b.wav", "sound", "x-1_2.au", "dir.d/y.wav"]))
    c["uri"] = draw(st.sampled_from(["path", "path", "file", "relative"]))
    c["q"] = draw(st.lists(st.fixed_dictionaries({
        "i": st.one_of(st.none(), iv, iv), "r": st.one_of(st.none(), st.integers(0, rmax)),
        "d": st.sampled_from([None, None, None, 1, 2, 3]), "ct": st.sampled_from([None, None, None, "D", "Q", "S"]),
        "cut": st.one_of(st.none(), st.none(), st.none(), iv)}), min_size=1, max_size=4))
    return c


def param(t, rate):
    """a parameter value which is a double"""
    return Fraction(t[1] / 8 / rate) if t[0] == "f" else Fraction(t[2], 1 << t[1])


def ival(i, rate):
    a, b = sorted(param(t, rate) for t in i)
    return (a, b)


def ri(i):
    return rp.RealInterval(float(i[0]), float(i[1]))


def opened(c, path):
    ct, w, d = c["ct"], c["ch"], c["d"]
    kw = {}
    if c["dkw"] == "ctx":
        kw["ctx"] = ctx_of(w, d, ct)
    else:
        kw["depth"] = d
        if c["dkw"] == "dtype":
            kw["dtype"] = DT[ct]
    if c["res"] is not None:
        kw["resolution"] = c["res"]
    if c["sup"] is not None:
        kw["support"] = ri(ival(c["sup"], c["rate"]))
    if c["vt"]:
        kw["vtype"] = S.VT[c["vt"]]
    k, t = c["types"]
    obj = {"value": "value" if c["spell"] else rp.ValueChannel, "increment": "increment" if c["spell"] else rp.IncrementChannel}
    if k == "all":
        kw["channel_types"] = obj[t]
        types = [t] * w
    elif k == "none":
        types = ["increment"] * w
    else:
        types = (list(t) + ["increment"] * w)[:w]
        if k in ("list", "short"):
            kw["channel_types"] = [obj[x] for x in t]
        elif k == "dict":
            kw["channel_types"] = {f"c{i}": obj[x] for i, x in enumerate(t)}
        elif k == "schema":
            kw["schema"] = {f"c{i}": {"type": x} for i, x in enumerate(t)}
        else:
            kw["schema"] = rp.StreamSchema.parse([(f"c{i}", x) for i, x in enumerate(t)])
    return rp.ExternalDataStream.from_uri(path, **kw), types


def run(c):
    os.makedirs(WORK, exist_ok=True)
    scratch = tempfile.mkdtemp(dir=WORK)
    cwd = os.getcwd()
    try:
        return run_in(c, scratch)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def run_in(c, scratch):
    ct, w, d, rate = c["ct"], c["ch"], c["d"], c["rate"]
    path = os.path.join(scratch, c["name"])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    raw, vals = samples(c)
    write(path, c, raw)
    given = path
    if c["uri"] == "file" and " " not in path:
        given = "file://" + path
    elif c["uri"] == "relative":
        os.chdir(scratch)
        given = c["name"]
    s, types = opened(c, given)
    os.unlink(path)                               # the stream holds the file open
    n = len(vals)
    assert s.width == w and s.ctx.width == w and s.ctx.depth == d and s.dtype == DT[ct], "configuration"
    res = 10 if c["res"] is None else c["res"]
    assert s.resolution == res, f"resolution {s.resolution}, not {res}"
    sup = (Fraction(s.support.inf()), Fraction(s.support.sup()))
    want = ival(c["sup"], rate) if c["sup"] is not None else (Fraction(0), Fraction(n / rate))
    assert sup == want, f"support {s.support}, not {want}"

    def conv(v, ct):
        return {"D": float, "S": float, "Q": Fraction, "P": lambda v: M.Poly({(): v}) if v else M.Poly()}[ct](v)

    def sm_of(ct):
        if ct not in models:
            ev = []
            for k in range(1, n):
                e = {(j + 1,): conv(vals[k][j] - (vals[k - 1][j] if types[j] == "value" else 0), ct) for j in range(w)}
                cell = M.floor_dyadic(Fraction(k, rate), res)
                if max(cell, sup[0]) < min(cell + Fraction(1, 1 << res), sup[1]):   # meets the support
                    ev.append((Fraction(k, rate), M.clean(e)))
            models[ct] = S.SM(ev, res, sup, ct)
        return models[ct]
    models = {}
    labels = set()
    for q in c["q"]:
        qct, qd = q["ct"] or ct, q["d"] or d
        if M.tensor_dim(w, qd) > 60:
            qd = d
        kw = {}
        if q["d"] and qd == q["d"]:
            kw["depth"] = qd
        if q["ct"]:
            kw["dtype"] = DT[q["ct"]]
        a = ()
        i = None
        if q["i"] is not None:
            i = ival(q["i"], rate)
            a = (ri(i),)
        if q["r"] is not None:
            kw["resolution"] = q["r"]
        src, sm = s, sm_of(qct)
        if q["cut"] is not None:
            cut = ival(q["cut"], rate)
            cut = max(cut[0], sup[0]), min(cut[1], sup[1])      # restricted to a part of the support
            if cut[0] >= cut[1]:
                raise Discard()
            src, sm = s.restrict(ri(cut)), sm.restrict(cut)
        sel = sm.selected(i, q["r"])
        t = sm.trimmed(i)
        cells = (t[1] - t[0]) * 2 ** max(res, q["r"] or 0) if t else 0
        if len(sel) > c.get("cap", 40) or cells > 1 << 14:
            raise Discard()
        what = f"over {i and [float(x) for x in i]} at {q['r']}: frames at {[str(sm.events[k][0]) for k in sel]} of {n}"
        ls = src.log_signature(*a, **kw)
        same(M.lie_expand(l2m(ls, qct)), sm.logsig(i, q["r"], qd), qct, "log-signature " + what, c.get("tol") or TOL[qct], c.get("scale", 1.0))
        sg = src.signature(*a, **kw)
        same(t2m(sg, qct), sm.sig(i, q["r"], qd), qct, "signature " + what, c.get("tol") or TOL[qct], c.get("scale", 1.0))
        assert ls.width == sg.width == w and ls.max_degree == sg.max_degree == qd
        assert ls.dtype == sg.dtype == DT[qct]
        if sel and len(sm.events) > 1 and any(sm.events[k][1] for k in sel):
            labels.add("all" if len(sel) == len(sm.events) else "part")
    if not labels:
        return None
    return [f"{c['file']} {c['fmt']}", f"channels {w}", ct, c["types"][0], f"vt {c['vt']}", c["uri"]] + sorted(labels)


@st.composite
def long_case(draw):
    f = draw(st.sampled_from(["wav", "wav", "au"]))
    return {"n": draw(st.one_of(st.integers(50, 300), st.integers(500, 1500), st.integers(2000, 5000))), "seed": draw(L.SEED), "file": f,
            "fmt": draw(st.sampled_from(["u8" if f == "wav" else "s8", "s16", "s24", "s32", "f4", "f8"])), "ch": draw(st.integers(1, 3)), "rate": draw(st.sampled_from([100, 1000, 8000, 44100])),
            "junk": draw(st.booleans()), "types": draw(st.sampled_from(["all", "list"])), "res": draw(st.sampled_from([None, 3, 6, 8])), "nq": draw(st.integers(1, 4)),
            "vt": draw(st.sampled_from([None, "dense", "sparse"]))}


def run_long(c):
    """files of many frames"""
    R = L.rng(c)
    n, ch = c["n"], c["ch"]
    types = [R.choice(["value", "increment"]) for _ in range(ch)]
    c2 = {**c, "rows": [[R.randrange(-64, 64) for _ in range(ch)] for _ in range(n)], "low": False, "ct": "D", "dkw": "ctx", "d": 2, "spell": True,
          "types": ["all", types[0]] if c["types"] == "all" else ["list", types], "sup": None, "name": "a.wav", "uri": "path", "cap": 10 ** 6, "tol": 1e-12, "scale": float(4 * n) ** 2}
    c2["q"] = []
    for _ in range(c["nq"]):
        a, b = sorted(R.randrange(-8, 8 * n + 16) for _ in range(2))
        c2["q"].append({"i": None if R.random() < 0.3 else [["f", a], ["f", b]], "r": R.choice([None, None, 2, 5, 8]), "d": None, "ct": None, "cut": None})
    t = run(c2)
    return t and t + [f"frames {10 ** (len(str(n)) - 1)}+"]


# ---------------------------------------------------------------- files and arguments that are refused

@st.composite
def bad_case(draw):
    c = draw(case())
    c["uri"], c["sup"], c["res"] = "path", None, None
    c["bad"] = draw(st.sampled_from(["width", "ctx", "many", "categorical", "allcategorical", "time", "nodepth", "missing",
                                     "folder", "text", "truncated", "http", "empty", "lie"]))
    return c


def run_bad(c):
    os.makedirs(WORK, exist_ok=True)
    scratch = tempfile.mkdtemp(dir=WORK)
    try:
        path = os.path.join(scratch, "a.wav")
        raw, _ = samples(c)
        write(path, c, raw)
        w, d, bad = c["ch"], c["d"], c["bad"]
        kw = {"depth": d}
        if bad == "width":
            kw["width"] = w + 1
        elif bad == "ctx":
            kw = {"ctx": ctx_of(w + 1, d, c["ct"])}
        elif bad == "many":
            kw["channel_types"] = [rp.ValueChannel] * (w + 1)
        elif bad == "categorical":
            kw["channel_types"] = [rp.CategoricalChannel] + [rp.ValueChannel] * (w - 1)
        elif bad == "allcategorical":
            kw["channel_types"] = rp.CategoricalChannel
        elif bad == "lie":
            kw["channel_types"] = [rp.LieChannel] * w
        elif bad == "time":
            kw["include_time"] = True
        elif bad == "nodepth":
            kw = {}
        elif bad == "missing":
            path += ".none"
        elif bad == "folder":
            path = scratch
        elif bad == "http":
            path = "http://localhost/a.wav"
        else:
            with open(path, "rb") as f:
                b = f.read()
            with open(path, "wb") as f:
                f.write({"text": b"not a sound", "truncated": b[:20], "empty": b""}[bad])
        try:
            s = rp.ExternalDataStream.from_uri(path, **kw)
        except (ValueError, RuntimeError, TypeError, OSError):
            return bad
        raise AssertionError(f"{bad}: accepted as {s}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


ARMS = [
    Arm("queries", case(), run, quick=3000, thorough=60000, what="signatures and log-signatures over an interval are the "
        "products of the exponentials of the frames, or their differences, in the interval rounded to the resolution"),
    Arm("long", long_case(), run_long, quick=60, thorough=2400, what="the same for files of up to 5000 frames"),
    Arm("refused", bad_case(), run_bad, quick=300, thorough=3000, what="files that hold no sound and arguments that do not "
        "match the file are refused"),
]
