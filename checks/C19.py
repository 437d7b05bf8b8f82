"""C19: tick streams and schemas against a direct model of ticks."""
import datetime
from hypothesis import strategies as st
from fractions import Fraction
import gens as G
import longs as L
import model as M
import roughpy as rp
import smodel as S
from fw import Arm, Discard
from rpyio import l2m, t2m, same, ctx_of, one, DT
from smodel import TOL, frac

RULE = ("cases are generated lists of ticks (increments, values, lead-lag values, categories; several spellings of the same "
        "data; timestamps out of order and repeated) with queries; non-trivial when a query selects at least two ticks whose "
        "increments do not commute, or (schemas) when there are at least two channels, one of them of more than one dimension")

LABELS = ["a", "ab", "b", "b2", "2", "zeta", "A b"]
VARIANTS = ["x", "y", "xy", "0", "w w"]
FORMS = ["tuples", "tuples", "pairs", "dict_list", "dict_dict", "list_dict", "dict_mixed", "infer"]


@st.composite
def ticks_case(draw, nmax=9):
    nch = draw(st.integers(1, 4))
    labels = draw(st.lists(st.sampled_from(LABELS), min_size=nch, max_size=nch, unique=True))
    types = draw(st.lists(st.sampled_from(["increment", "increment", "value", "leadlag", "categorical"]), min_size=nch, max_size=nch))
    n = draw(st.integers(1, nmax))
    ticks = []
    for _ in range(n):
        ch = draw(st.integers(0, nch - 1))
        v = draw(st.sampled_from(VARIANTS)) if types[ch] == "categorical" else draw(st.integers(-4, 4))
        ticks.append([draw(S.dyadic(0, 4, draw(st.sampled_from([0, 0, 2, 5])))), ch, v])
    if draw(st.booleans()):
        ticks.sort(key=lambda t: frac(t[0]))
    c = {"labels": labels, "types": types, "ticks": ticks, "form": draw(st.sampled_from(FORMS)),
         "ts": draw(st.sampled_from(["float", "float", "float", "datetime", "int"])),
         "schema": draw(st.sampled_from([None, None, "from_data", "list", "dict", "tuples"])),
         "order": draw(st.permutations(range(nch)))}
    c["variants"] = draw(st.permutations(VARIANTS))
    return c


def plain(c):
    """the ticks in the order in which they are handed over: [(time, channel, value)]"""
    t = [(frac(a), b, v) for a, b, v in c["ticks"]]
    if c["ts"] == "int":
        t = [(Fraction(int(a * 4)), b, v) for a, b, v in t]
    if c["form"].startswith("dict"):
        groups = {}
        for a, b, v in t:
            groups.setdefault(a, []).append((a, b, v))
        if c["form"] == "dict_dict":            # one value per label and time
            groups = {a: list({b: (a, b, v) for a, b, v in l}.values()) for a, l in groups.items()}
        t = [x for l in groups.values() for x in l]
    return t


def spelled(c):
    ts = {"float": float, "int": int,
          "datetime": lambda t: datetime.datetime(2024, 3, 1, 12) + datetime.timedelta(seconds=float(t))}[c["ts"]]
    ty = ["value" if t == "leadlag" else t for t in c["types"]]

    def val(b, v):
        return v if ty[b] == "categorical" else float(v)
    t = plain(c)
    form = c["form"]
    L = c["labels"]
    if form == "tuples":
        return [(ts(a), L[b], ty[b], val(b, v)) for a, b, v in t]
    if form == "infer":     # the type follows from the data; values have to be named
        return [(ts(a), L[b], val(b, v)) if ty[b] != "value" else (ts(a), L[b], ty[b], val(b, v)) for a, b, v in t]
    if form == "pairs":
        return [(ts(a), (L[b], ty[b], val(b, v))) for a, b, v in t]
    if form == "list_dict":
        return [(ts(a), {"label": L[b], "type": ty[b], "data": val(b, v)}) for a, b, v in t]
    out = {}
    for k, (a, b, v) in enumerate(t):
        if form == "dict_list":
            out.setdefault(ts(a), []).append((L[b], ty[b], val(b, v)))
        elif form == "dict_dict":
            out.setdefault(ts(a), {})[L[b]] = (ty[b], val(b, v)) if k % 2 else {"type": ty[b], "data": val(b, v)}
        else:
            item = [(L[b], ty[b], val(b, v)), {"label": L[b], "type": ty[b], "data": val(b, v)},
                    {L[b]: (ty[b], val(b, v))}, {L[b]: {"type": ty[b], "data": val(b, v)}}][k % 4]
            out.setdefault(ts(a), []).append(item)
    return out


def channels(c):
    """[(channel, [variants] or None)] in the order of the schema"""
    t = plain(c)
    types = c["types"]
    if c["schema"] in ("list", "dict", "tuples"):
        order = c["order"]
        return [(ch, (["lead", "lag"] if types[ch] == "leadlag" else list(c["variants"]) if types[ch] == "categorical" else None))
                for ch in order]
    seen = {}
    for _, ch, v in t:
        l = seen.setdefault(ch, [])
        if types[ch] == "categorical" and v not in l:
            l.append(v)
    return [(ch, l if types[ch] == "categorical" else None) for ch, l in seen.items()]


def schema_of(c, data):
    k = c["schema"]
    if k is None:
        return None
    if k == "from_data":
        return rp.StreamSchema.from_data(data)
    items = []
    for ch, var in channels(c):
        t = c["types"][ch]
        opt = {"lead_lag": True} if t == "leadlag" else {"categories": list(var)} if t == "categorical" else {}
        items.append((c["labels"][ch], "value" if t == "leadlag" else t, opt))
    if k == "tuples":
        return [(l, t, o) if o or i % 2 else (l, t) for i, (l, t, o) in enumerate(items)]
    if k == "list":
        return [{"label": l, "type": t, **o} for l, t, o in items]
    return {l: {"type": t, **o} for l, t, o in items}


def names(c):
    out = []
    for ch, var in channels(c):
        out += [c["labels"][ch]] if var is None else [f"{c['labels'][ch]}:{v}" for v in var]
    return out


def run_schema(c):
    if c["schema"] is None:
        c = {**c, "schema": "from_data"}
    if c["schema"] == "from_data":
        c = {**c, "types": ["value" if t == "leadlag" else t for t in c["types"]]}
    data = spelled(c)
    s = schema_of(c, data)
    if c["schema"] != "from_data":
        s = rp.StreamSchema.parse(s)
    nm = names(c)
    assert s.get_labels() == nm, f"labels {s.get_labels()} of the schema, expected {nm}"
    assert s.width() == len(nm), f"width {s.width()}, expected {len(nm)}"
    if len(nm) < 2 or len(nm) == len(channels(c)):
        return None
    return [c["schema"], c["form"]]


# ------------------------------------------------------------------------------------------------ streams

@st.composite
def stream_case(draw):
    c = draw(ticks_case())
    c["ct"] = draw(st.sampled_from("DDSQQP"))
    c["d"] = draw(st.integers(1, 4))
    c["res"] = draw(st.sampled_from([None, 0, 1, 3, 6, 6]))
    c["sup"] = draw(st.one_of(st.none(), st.just([[-5, 1], [20, 1]]), S.interval(-4, 6)))
    c["vt"] = draw(st.sampled_from([None, "dense", "sparse"]))
    c["time"] = draw(st.sampled_from([False, False, True]))
    c["extra"] = draw(st.sampled_from([0, 0, 0, 1]))
    c["spec"] = draw(st.sampled_from(["kw", "ctx", "width"]))
    c["qs"] = draw(st.lists(S.query(-5, 6), min_size=1, max_size=4))
    c["qd"] = draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, 4, 5]), min_size=4, max_size=4))
    c["qt"] = draw(st.lists(st.sampled_from(["", "", "D", "Q"]), min_size=4, max_size=4))
    return c


def build(c):
    if c["time"]:
        c = {**c, "schema": None}
    if c["schema"] in (None, "from_data"):
        c = {**c, "types": ["value" if t == "leadlag" else t for t in c["types"]]}
    ct, d = c["ct"], c["d"]
    data = spelled(c)
    chs = channels(c)
    w = sum(1 if var is None else len(var) for _, var in chs)
    full = w + (1 if c["time"] else 0)
    if c["time"] and w < 1:
        raise Discard()
    kw = {}
    sch = schema_of(c, data)
    if sch is not None:
        kw["schema"] = sch
        c = {**c, "extra": 0}
    if c["time"]:
        kw["include_time"] = True
        c = {**c, "extra": 0, "spec": "kw"}
    width = full + c["extra"]
    while width ** (d + 0) > 400 and d > 1:
        d -= 1
    if c["spec"] == "ctx" and width == full + c["extra"]:
        kw["ctx"] = ctx_of(width, d, ct)
    else:
        kw["depth"] = d
        kw["dtype"] = DT[ct]
        if c["spec"] == "width" or c["extra"]:
            kw["width"] = width
    if c["res"] is not None:
        kw["resolution"] = c["res"]
    if c["vt"]:
        kw["vtype"] = S.VT[c["vt"]]
    if c["sup"]:
        kw["support"] = rp.RealInterval(float(frac(c["sup"][0])), float(frac(c["sup"][1])))
    s = rp.TickStream.from_data(data, **kw)
    assert s.width == width and s.ctx.depth == d and s.dtype == DT[ct], f"{s.width} {s.ctx.depth} {s.dtype}"
    # model
    conv = {"D": float, "S": float, "Q": Fraction, "P": lambda v: M.Poly({(): Fraction(v)}) if v else M.Poly()}[ct]
    off, k = {}, 1
    for ch, var in chs:
        off[ch] = k
        k += 1 if var is None else len(var)
    var = dict(chs)
    t0 = plain(c)[0][0]
    ticks = [(t - t0, ch, v) for t, ch, v in plain(c)]
    ticks.sort(key=lambda t: t[0])      # stable: data order at equal times
    prev, events, pt = {}, [], Fraction(0)
    for t, ch, v in ticks:
        ty = c["types"][ch]
        if ty == "categorical":
            steps = [{(off[ch] + var[ch].index(v),): Fraction(1)}]
        elif ty == "increment":
            steps = [{(off[ch],): Fraction(v)}]
        else:
            dv = Fraction(v) - prev.get(ch, 0)
            prev[ch] = Fraction(v)
            steps = [{(off[ch],): dv}] + ([{(off[ch] + 1,): dv}] if ty == "leadlag" else [])
        if c["time"]:
            steps[0][(full,)] = t - pt
        pt = t
        for x in steps:
            events.append((t, M.clean({a: conv(b) for a, b in x.items()})))
    res = s.resolution
    assert res == (c["res"] or 0), f"resolution {res}"
    sup = s.support
    support = (Fraction(sup.inf()), Fraction(sup.sup()))
    if c["sup"]:
        assert support == (frac(c["sup"][0]), frac(c["sup"][1]))
    else:
        assert support[0] <= min(e[0] for e in events) and support[1] > max(e[0] for e in events), \
            f"support {sup} does not cover the ticks"
    return s, S.SM(events, res, support, ct), width, d


@st.composite
def long_case(draw):
    nch = draw(st.integers(1, 3))
    return {"n": draw(L.SIZES), "seed": draw(L.SEED), "nch": nch, "types": draw(st.lists(st.sampled_from(["increment", "value", "value", "categorical"]), min_size=nch, max_size=nch)),
            "form": draw(st.sampled_from(FORMS)), "ts": draw(st.sampled_from(["float", "float", "datetime"])), "schema": draw(st.sampled_from([None, "from_data", "list"])),
            "order": draw(st.permutations(range(nch))), "variants": draw(st.permutations(VARIANTS)), "sorted": draw(st.booleans()),
            "ct": draw(st.sampled_from("DDQ")), "d": 2, "res": draw(st.sampled_from([0, 2, 4, 5])), "sup": None, "vt": draw(st.sampled_from([None, "dense", "sparse"])),
            "time": draw(st.booleans()), "extra": 0, "spec": draw(st.sampled_from(["kw", "ctx", "width"])), "nq": draw(st.integers(1, 6))}


def run_long(c):
    R = L.rng(c)
    n = c["n"] if c["ct"] == "D" else min(c["n"], 300)
    ticks = []
    for p in L.parameters(R, n, 16, "sorted" if c["sorted"] else "any"):
        ch = R.randrange(c["nch"])
        ticks.append([p, ch, R.choice(VARIANTS) if c["types"][ch] == "categorical" else R.randrange(-4, 5)])
    hi = n / 16
    nq = c["nq"]
    c2 = {**c, "labels": LABELS[:c["nch"]], "ticks": ticks, "sup": [[-20 * (1 + n), 16], [20 * (1 + n), 16]],
          "qs": L.queries(R, nq, hi), "qd": [0] * nq, "qt": [""] * nq}
    t = run_stream(c2, None if c["ct"] == "Q" else 1e-13, float(10 * n + hi) ** 2)
    return t and t + [f"length {10 ** (len(str(n)) - 1)}+"]


@st.composite
def times_case(draw):
    """float data: the first tick is at 0, so that the times relative to it are the timestamps themselves"""
    c = draw(stream_case())
    t = st.one_of(st.integers(0, 60).map(lambda a: a / 10), st.integers(0, 40).map(lambda a: a / 7), st.floats(0.001, 5))
    v = st.one_of(st.integers(-40, 40).map(lambda a: a / 10), st.floats(-4, 4, allow_subnormal=False))
    ticks = [[list((0.0 if k == 0 else draw(t)).as_integer_ratio()), ch, x if c["types"][ch] == "categorical" else draw(v)]
             for k, (_, ch, x) in enumerate(c["ticks"])]
    if draw(st.booleans()):
        ticks.sort(key=lambda x: frac(x[0]))
    c.update(ct="D", ts="float", ticks=ticks, time=draw(st.sampled_from([True, True, False])), qt=[""] * 4,
             res=draw(st.sampled_from([0, 2, 5, 8])))
    return c


def run_times(c):
    return run_stream(c, 1e-13, 32.0 ** (c["d"] - 1) * 16)


def run_stream(c, tol_=None, scale=1.0):
    s, sm, w, d = build(c)
    ct = c["ct"]
    nt = False
    tags = set()
    for q, qd, qt in zip(c["qs"], c["qd"], c["qt"]):
        a, k = S.qargs(q)
        i = S.qi(q)
        if i is not None and c["ts"] == "int":
            i = tuple(v * 2 for v in i)
            a = (rp.RealInterval(float(i[0]), float(i[1])),) + (() if len(a) < 2 or q["f"].startswith("pair") else a[1:])
        D = qd or d
        while w ** D > 600 and D > 1:
            D -= 1
        if D != d or qd:
            k["depth"] = D
        oct_ = ct
        if qt and ct in "DSQ":
            k["dtype"] = DT[qt]
            oct_ = qt
        tol = tol_ or TOL[ct] or TOL[oct_]
        want = sm.logsig(i, q["r"], D)
        cmp_ = oct_ if oct_ in "QP" and ct in "QP" else ct if ct in "DS" else oct_
        conv = float if cmp_ in "DS" else lambda v: v
        got = s.log_signature(*a, **k)
        same(*({x: conv(v) for x, v in m.items()} for m in (M.lie_expand(l2m(got, oct_)), want)), cmp_, f"log signature of the query {q} (depth {D})", tol, scale)
        sig = s.signature(*a, **k)
        same(*({x: conv(v) for x, v in m.items()} for m in (t2m(sig, oct_), sm.sig(i, q["r"], D))), cmp_, f"signature of {q} (depth {D})", tol, scale)
        if S.noncommuting(sm, sm.selected(i, q["r"])):
            nt = True
            tags.add("other depth" if D != d else "own depth")
    if not nt:
        return None
    return [ct, c["form"], f"schema {c['schema']}", c["ts"], "time" if c["time"] else "no time"] + sorted(tags)


ARMS = [
    Arm("schema", ticks_case(), run_schema, quick=1200, what="labels and width of schemas made from data and from descriptions"),
    Arm("streams", stream_case(), run_stream, quick=3500, what="signatures and log-signatures of tick streams against the "
        "ordered product of the exponentials of the ticks, at several resolutions, depths and scalar types"),
    Arm("times", times_case(), run_times, quick=600, thorough=12000, what="float data at times that are no dyadic numbers, "
        "with and without a time channel, to full precision"),
    Arm("long", long_case(), run_long, quick=120, thorough=5000, what="the same for up to about 1000 ticks"),
]
