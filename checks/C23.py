"""C23: whatever a function or method is called with, it returns or raises an exception; it does not end the process, and only
its target can change."""
import copy
import itertools
import json
import operator
import os
import pickle
import shutil
import tempfile
import types
from hypothesis import strategies as st
import numpy as np
import roughpy as rp
import apool as A
import fw
from fw import Arm

RULE = ("cases are sequences of calls of the functions and methods of the module, picked from all of those it has, with arguments "
        "of every kind: valid objects, values of wrong kinds or sizes, results of earlier calls, objects whose own methods fail; "
        "non-trivial when at least one call returned and one raised")

LABELS = sorted(A.BUILD)
VALS = sorted(A.VALUES)
MNAMES = sorted(A.METHODS)
KINDS = {k: [l for l in LABELS if l.split(".")[0] == k] for k in {l.split(".")[0] for l in LABELS}}
KNAMES = sorted(KINDS)
OWNERS = {}
for _n, _l in A.METHODS.items():
    OWNERS.setdefault(_n.split(".")[1], set()).update(_l)


def arg():
    p = st.sampled_from(KNAMES).flatmap(lambda k: st.sampled_from(KINDS[k])).map(lambda l: ["p", l])
    v = st.sampled_from(VALS).map(lambda l: ["v", l])
    return st.one_of(p, p, v, v, st.integers(0, 9).map(lambda i: ["r", i]))


ARG = arg()
OBJ = st.one_of(*[st.sampled_from(KNAMES).flatmap(lambda k: st.sampled_from(KINDS[k])).map(lambda l: ["p", l])] * 3,
                st.integers(0, 9).map(lambda i: ["r", i]))


@st.composite
def fn_step(draw):
    name = draw(st.sampled_from(A.FUNCS))
    args = draw(st.lists(ARG, max_size=3))
    head = name[3:].split(".")[0]
    kws = A.CTOR_KW["Stream" if "Stream" in head else head] if ("Stream" in head or head in A.CTOR_KW) else A.KW
    kw = draw(st.dictionaries(st.sampled_from(kws), ARG, max_size=3))
    if "." in name and draw(st.booleans()):
        kw["ctx"] = ["p", draw(st.sampled_from(KINDS["ctx"]))]
    return [name, args, kw]


@st.composite
def method_step(draw):
    name = draw(st.sampled_from(MNAMES))
    lab = draw(st.sampled_from(A.METHODS[name]))
    args = draw(st.lists(ARG, max_size=3))
    kw = draw(st.dictionaries(st.sampled_from(A.KW), ARG, max_size=2)) if draw(st.integers(0, 2)) == 0 else {}
    return ["m:" + lab + ":" + name.split(".")[1], args, kw]


@st.composite
def op_step(draw):
    return ["op:" + draw(st.sampled_from(A.OPS)), [draw(OBJ), draw(ARG), draw(ARG)], {}]


CTX = ["p", "ctx.d22"]
P_, V_ = (lambda x: ["p", x]), (lambda x: ["v", x])
# calls that are right
GOOD = [
    ["fn:FreeTensor", [V_("[1,2]")], {"ctx": CTX}], ["fn:FreeTensor", [V_("np12")], {"ctx": CTX, "vector_type": P_("vtype")}], ["fn:FreeTensor", [V_("{1:2}")], {"ctx": CTX, "dtype": P_("dtype.D")}],
    ["fn:ShuffleTensor", [V_("[1,2]")], {"ctx": CTX}], ["fn:Lie", [V_("[1,2]")], {"ctx": CTX}], ["fn:Lie", [V_("np12")], {"ctx": P_("ctx.q22")}], ["fn:Lie", [V_("{1:2}")], {"ctx": P_("ctx.p22")}],
    ["fn:FreeTensor", [V_("[1,2]")], {"width": V_("2"), "depth": V_("2"), "dtype": P_("dtype.D")}],
    ["fn:get_context", [V_("2"), V_("3"), P_("dtype.Q")], {}], ["fn:get_context", [], {"width": V_("2"), "depth": V_("2"), "coeffs": P_("dtype.D")}],
    ["fn:LieIncrementStream.from_increments", [V_("[[1,2],[3,4]]")], {"ctx": CTX, "resolution": V_("3")}],
    ["fn:LieIncrementStream.from_increments", [V_("np2x2")], {"ctx": CTX, "indices": V_("np12")}],
    ["fn:LieIncrementStream.from_increments", [V_("np2x2")], {"ctx": CTX, "indices": V_("[1,2]"), "support": P_("ival.01"), "vtype": P_("vtype")}],
    ["fn:LieIncrementStream.from_increments", [V_("[[1,2],[3,4]]")], {"width": V_("2"), "depth": V_("2"), "dtype": P_("dtype.S"), "schema": V_("types")}],
    ["fn:TickStream.from_data", [V_("ticks")], {"ctx": P_("ctx.d11")}], ["fn:TickStream.from_data", [V_("ticks")], {"width": V_("1"), "depth": V_("2"), "dtype": P_("dtype.D"), "schema": V_("schema.list")}],
    ["fn:TickStream.from_data", [V_("ticks")], {"ctx": P_("ctx.d22"), "include_time": V_("True"), "support": P_("ival.01"), "resolution": V_("3")}],
    ["fn:PiecewiseAbelianStream.construct", [V_("[(iv,lie)]")], {"ctx": CTX, "resolution": V_("3")}],
    ["fn:FunctionStream.from_function", [V_("fn.lie")], {"ctx": P_("ctx.s32"), "resolution": V_("2"), "support": P_("ival.01")}],
    ["fn:BrownianStream.with_generator", [], {"ctx": CTX, "resolution": V_("2"), "support": P_("ival.01")}],
    ["fn:TensorValuedStream.from_values", [V_("[(t,ft)]"), P_("ival.01")], {"ctx": CTX}],
    ["fn:RealInterval", [V_("0"), V_("0.5")], {}], ["fn:RealInterval", [V_("0"), V_("1"), P_("itype")], {}], ["fn:DyadicInterval", [V_("1"), V_("2")], {}], ["fn:Dyadic", [V_("1"), V_("2")], {}],
    ["fn:Partition", [P_("ival.01"), V_("[0.5]")], {}], ["fn:TensorKey", [V_("1"), V_("2")], {"width": V_("2"), "depth": V_("2")}], ["fn:LieKey", [V_("1"), V_("2")], {"width": V_("2"), "depth": V_("2")}],
    ["fn:Monomial", [V_("{'a':1}")], {}], ["fn:PolynomialScalar", [V_("{x:1}")], {}], ["fn:StreamSchema.parse", [V_("schema.dict")], {}], ["fn:segment", [P_("ival.01"), V_("fn.true"), V_("3")], {}],
    ["m:ctx.d22:cbh", [V_("[lie]")], {}], ["m:ctx.d22:cbh", [V_("[lie]"), P_("vtype")], {}], ["m:ctx.d22:compute_signature", [V_("np2x2")], {}],
    ["m:ctx.d22:to_logsignature", [P_("ft.d22.dense")], {}], ["m:ctx.d22:lie_to_tensor", [P_("lie.d22.dense")], {}], ["m:ctx.d22:tensor_to_lie", [P_("ft.d22.dense")], {}], ["m:ctx.d22:zero_lie", [P_("vtype")], {}],
    ["m:ft.d22.dense:add_scal_mul", [P_("ft.d22.sparse"), P_("scalar.D")], {}], ["m:ft.d22.dense:sub_scal_div", [P_("ft.d22.dense"), P_("scalar.D")], {}], ["m:ft.d22.dense:add_mul", [P_("ft.d22.dense"), P_("ft.d22.sparse")], {}],
    ["m:ft.d22.sparse:mul_smul", [P_("ft.d22.sparse"), P_("scalar.D")], {}], ["m:ft.d22.dense:fmexp", [P_("ft.d22.dense")], {}], ["m:lie.d22.dense:add_scal_mul", [P_("lie.d22.dense"), P_("scalar.D")], {}],
    ["m:sh.d22.dense:sub_mul", [P_("sh.d22.dense"), P_("sh.d22.dense")], {}], ["fn:shuffle_multiply", [P_("sh.d22.dense"), P_("sh.d22.sparse")], {}],
    ["fn:half_shuffle_multiply", [P_("sh.d22.dense"), P_("sh.d22.dense")], {}], ["fn:adjoint_to_free_multiply", [P_("ft.d22.dense"), P_("sh.d22.dense")], {}], ["fn:free_multiply", [P_("ft.d22.dense"), P_("ft.d22.dense")], {}],
    ["m:part:insert_intermediate", [V_("0.5")], {}], ["m:part:refine_midpoints", [], {}], ["m:part:merge", [P_("part")], {}], ["m:dyint:to_dyadic_intervals", [V_("3"), P_("itype")], {}],
    ["m:tb.d22:index_to_key", [V_("3")], {}], ["m:tb.d22:key_to_index", [P_("tkey.12")], {}], ["m:lb.d22:index_to_key", [V_("2")], {}], ["m:lb.d22:key_to_index", [P_("lkey.2")], {}], ["m:lb.d22:parents", [P_("lkey.2")], {}],
]
for _s in ("inc", "inc.q", "tick", "pw", "fun", "bm", "tv"):
    for _m, _a, _k in (("signature", [P_("ival.01"), V_("3")], {}), ("signature", [P_("ival.01")], {"resolution": V_("3"), "depth": V_("2")}), ("log_signature", [P_("ival.half"), V_("5")], {"ctx": P_("ctx.d23")}),
                       ("log_signature", [V_("0"), V_("1"), V_("3")], {"dtype": P_("dtype.D")}), ("restrict", [P_("ival.half")], {}), ("simplify", [P_("part"), V_("3")], {"ctx": P_("ctx.d23")}),
                       ("signature_derivative", [P_("ival.01"), P_("lie.d22.dense"), V_("3")], {}), ("query", [P_("ival.01")], {"resolution": V_("3")})):
        if hasattr(A.BUILD["stream." + _s](), _m):
            GOOD.append([f"m:stream.{_s}:{_m}", _a, _k])


@st.composite
def near_step(draw):
    """a call that is right but for at most two arguments"""
    n, a, k = draw(st.sampled_from(GOOD))
    a, k = list(a), dict(k)
    for _ in range(draw(st.integers(0, 2))):
        how = draw(st.integers(0, 9))
        slots = list(range(len(a))) + sorted(k)
        if how == 0:
            a.append(draw(ARG))
        elif how == 1:
            k[draw(st.sampled_from(A.CTOR_KW["Stream"]))] = draw(ARG)
        elif how == 2 and slots:
            x = draw(st.sampled_from(slots))
            a.pop(x) if isinstance(x, int) else k.pop(x)
        elif how == 3 and n.startswith("m:"):
            _, lab, meth = n.split(":")
            kin = [l for l in KINDS[lab.split(".")[0]] if l in OWNERS[meth]]
            n = f"m:{draw(st.sampled_from(kin))}:{meth}"
        elif slots:
            x = draw(st.sampled_from(slots))
            old = a[x] if isinstance(x, int) else k[x]
            new = ["p", draw(st.sampled_from(KINDS[old[1].split(".")[0]]))] if old[0] == "p" and draw(st.booleans()) else draw(ARG)
            if isinstance(x, int):
                a[x] = new
            else:
                k[x] = new
    return [n, a, k]


CASE = st.lists(st.one_of(fn_step(), method_step(), op_step(), near_step(), near_step(), near_step()), min_size=1, max_size=12)
INPLACE = ("iadd", "isub", "imul", "itruediv", "setitem", "delitem", "setattr")


def do_op(name, a, b, c):
    if name in ("neg", "pos", "abs", "index", "len"):
        return (len if name == "len" else getattr(operator, name))(a)
    if name in ("bool", "float", "int", "complex", "hash", "repr", "str", "divmod", "reversed", "memoryview", "format"):
        f = getattr(__import__("builtins"), name)
        return f(a, b) if name in ("divmod", "format") else f(a)
    if name == "list":
        return list(itertools.islice(iter(a), 60))
    if name == "setitem":
        return operator.setitem(a, b, c)
    if name == "setattr":
        return setattr(a, b if isinstance(b, str) else "name", c)
    if name == "copy":
        return copy.copy(a)
    if name == "deepcopy":
        return copy.deepcopy(a)
    if name == "array":
        return np.array(a)
    if name == "pickle":
        return pickle.loads(pickle.dumps(a))
    return getattr(operator, name)(a, b)


def value_of(lab, o):
    """what must not change"""
    if lab.startswith("stream"):
        if lab == "stream.bm":
            return str(o.support)
        return str(o.signature(rp.RealInterval(0., 1.), 3)) + str(getattr(o, "support", None)) + str(getattr(o, "ctx", None))
    if lab.startswith("schema"):
        return str(o.get_labels())
    if lab.startswith(("tb", "lb")):
        return str(o.dimension)
    return str(o)


def run(c):
    scratch = tempfile.mkdtemp(dir=fw.WORK)
    home, cwd = os.environ.get("ROUGHPY_HOME"), os.getcwd()
    try:
        os.environ["ROUGHPY_HOME"] = scratch
        os.chdir(scratch)
        return run_in(c)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def run_in(c):
    pool, before, results, touched = {}, {}, [], set()
    owner = {}          # result index -> labels it may be, or share state with
    ret = exc = 0
    names = set()

    def get(a):
        k, x = a
        if k == "v":
            return A.VALUES[x]()
        if k == "r":
            return results[x % len(results)] if results else None
        if x not in pool:
            pool[x] = A.BUILD[x]()
            before[x] = value_of(x, pool[x])
        return pool[x]

    def labels(a):
        if a[0] == "p":
            return {a[1]}
        return owner.get(a[1] % len(results), set()) if a[0] == "r" and results else set()

    for step in c:
        name, args, kw = step
        vals = [get(a) for a in args]
        kws = {k: get(a) for k, a in kw.items()}
        own = set()
        for a in list(args) + list(kw.values()):
            own |= labels(a)
        if name.startswith("fn:"):
            f = rp
            for part in name[3:].split("."):
                f = getattr(f, part)
        elif name.startswith("m:"):
            _, lab, meth = name.split(":")
            target = get(["p", lab])
            own.add(lab)
            if meth in A.MUTATES or meth.startswith(("insert_", "shrink_")):
                touched.add(lab)
            f = getattr(target, meth)
            if not callable(f):
                vals, kws, f = [], {}, (lambda f=f: f)
        else:
            op = name[3:]
            if op in INPLACE:
                touched |= labels(args[0])
            f = lambda *v, op=op: do_op(op, *v)
        # an iterator or borrowed part may be advanced through a result
        if args and args[0][0] == "r":
            touched |= {l for l in labels(args[0]) if name.startswith("op:") and name[3:] in INPLACE}
        try:
            r = f(*vals, **kws)
            ret += 1
            # classes, and the tables these keep of their members, would carry what is done to them over to later cases
            if r is not None and not isinstance(r, (bool, int, float, str, bytes, type, dict, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)) or isinstance(r, str) and len(r) < 5:
                results.append(r)
                owner[len(results) - 1] = own
            names.add(name[3:] if name.startswith("fn:") else "operators" if name.startswith("op:") else "methods of " + name.split(":")[1].split(".")[0])
        except SystemError as e:
            raise AssertionError(f"{name} raised SystemError: {e}; {e.__cause__}")
        except Exception as e:
            exc += 1
            str(e)
    for lab, o in pool.items():
        if lab in touched:
            continue
        try:
            after = value_of(lab, o)
        except Exception as e:
            after = f"{type(e).__name__}: {e}"
        assert after == before[lab], f"{lab} was {before[lab]} and is now {after}"
    return sorted(names)[:12] if ret and exc else None


# -------------------------------------------------------------------------------------- calls that must be refused

NAN, INF = float("nan"), float("inf")
BADNUM = [NAN, INF, -INF]


@st.composite
def refusal(draw):
    k = draw(st.sampled_from(sorted(REFUSE)))
    w, d, w2 = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 4))
    if w2 == w:
        w2 = w % 4 + 1
    return {"what": k, "w": w, "d": d, "w2": w2, "d2": d % 4 + 1, "coeffs": draw(st.sampled_from(["DPReal", "SPReal", "Rational", "DPReal"])),
            "vt": draw(st.sampled_from(["DenseVector", "SparseVector"])), "vt2": draw(st.sampled_from(["DenseVector", "SparseVector"])),
            "n": draw(st.integers(1, 9)), "pick": draw(st.integers(0, 999)), "data": draw(st.lists(st.integers(-3, 3), min_size=1, max_size=8)),
            "bad": draw(st.integers(0, 2)), "big": draw(st.one_of(st.integers(1, 50), st.integers(1, 2 ** 40)))}


class Ref:
    """a case of a refusal: what is needed to make it"""

    def __init__(self, c):
        self.c = c
        self.w, self.d, self.w2 = c["w"], c["d"], c["w2"]
        self.dtype = getattr(rp, c["coeffs"])
        self.ctx = rp.get_context(self.w, self.d, self.dtype)
        self.other = rp.get_context(self.w2, self.d, self.dtype)
        self.i = rp.RealInterval(0., 1.)
        self.data = [1.] + [float(x) for x in c["data"]]
        self.bad = BADNUM[c["bad"]]

    def el(self, kind, ctx=None, vt="vt"):
        cls = getattr(rp, kind)
        data = self.data[:self.w] if kind == "Lie" else [1.] + self.data[:self.w]
        return cls(np.array(data), ctx=ctx or self.ctx, vector_type=getattr(rp.VectorType, self.c[vt]))

    def pick(self, *xs):
        return xs[self.c["pick"] % len(xs)]

    def rows(self, n, w=None):
        v = (self.data * 40)[:n * (w or self.w)]
        return np.array(v).reshape(n, w or self.w)

    def stream(self):
        return rp.LieIncrementStream.from_increments(self.rows(self.c["n"]), indices=[k / 16 for k in range(self.c["n"])], ctx=self.ctx, resolution=4)


def r_mixed(r):
    kind = r.pick("FreeTensor", "Lie", "ShuffleTensor")
    a, b = r.el(kind), r.el(kind, r.other, "vt2")
    op = [operator.add, operator.sub, operator.mul, operator.iadd, operator.isub, operator.imul][r.c["pick"] // 3 % 6]
    return [a, b], lambda: op(a, b), lambda: op(r.el(kind), r.el(kind))


def r_mixed_function(r):
    f, a, b = r.pick((rp.free_multiply, "FreeTensor", "FreeTensor"), (rp.shuffle_multiply, "ShuffleTensor", "ShuffleTensor"),
                     (rp.half_shuffle_multiply, "ShuffleTensor", "ShuffleTensor"), (rp.adjoint_to_free_multiply, "FreeTensor", "ShuffleTensor"))
    x, y = r.el(a), r.el(b, r.other, "vt2")
    return [x, y], lambda: f(x, y), lambda: f(x, r.el(b))


def r_mixed_context(r):
    m, kind = r.pick(("lie_to_tensor", "Lie"), ("tensor_to_lie", "FreeTensor"), ("to_logsignature", "FreeTensor"), ("cbh", "Lie"))
    x = r.el(kind, r.other)
    f = getattr(r.ctx, m)
    wrap = (lambda v: [r.el("Lie"), v]) if m == "cbh" else (lambda v: v)
    return [x], lambda: f(wrap(x)), lambda: f(wrap(r.el(kind)))


def r_kinds(r):
    a, b = r.pick(("FreeTensor", "Lie"), ("FreeTensor", "ShuffleTensor"), ("Lie", "FreeTensor"), ("Lie", "ShuffleTensor"), ("ShuffleTensor", "Lie"))
    x, y = r.el(a), r.el(b)
    op = [operator.add, operator.sub, operator.iadd, operator.isub][r.c["pick"] // 5 % 4]
    return [x, y], lambda: op(x, y), lambda: op(r.el(a), r.el(a))


def r_divide(r):
    x = r.el(r.pick("FreeTensor", "Lie", "ShuffleTensor"))
    z = [0, 0.0, rp.FreeTensor([0.], ctx=r.ctx)[0]][r.c["pick"] // 3 % 3]
    op = operator.truediv if r.c["pick"] % 2 else operator.itruediv
    return [x], lambda: op(x, z), lambda: op(r.el("Lie"), 2)


def r_tensor_key(r):
    ls = r.pick([0], [r.w + 1], [1] * (r.d + 1), [r.w + 1 + r.c["big"] % 1000], [1] * (r.d - 1) + [r.w + 1])
    return [], lambda: rp.TensorKey(*ls, width=r.w, depth=r.d), lambda: rp.TensorKey(*[r.w] * r.d, width=r.w, depth=r.d)


def r_lie_key(r):
    x = r.pick(0, r.w + 1, r.w + 1 + r.c["big"] % 1000)
    return [], lambda: rp.LieKey(x, width=r.w, depth=r.d), lambda: rp.LieKey(r.w, width=r.w, depth=r.d)


def r_basis(r):
    b, top = (r.ctx.tensor_basis, sum(r.w ** k for k in range(r.d + 1))) if r.c["pick"] % 2 else (r.ctx.lie_basis, None)
    if top is None:
        return [], lambda: b.index_to_key(b.dimension + r.c["big"]), lambda: b.index_to_key(b.dimension - 1)
    assert b.dimension == top, f"dimension of the tensor basis of width {r.w} and depth {r.d} is {b.dimension}"
    return [], lambda: b.index_to_key(top + r.c["big"] - 1), lambda: b.index_to_key(top - 1)


def r_context(r):
    a = r.pick((0, r.d, r.dtype), (r.w, 0, r.dtype), (-r.w, r.d, r.dtype), (r.w, -r.d, r.dtype), (r.w, r.d, "nonsense"), (r.w, r.d, None), (r.w, r.d, 3), ("2", r.d, r.dtype))
    return [], lambda: rp.get_context(*a), lambda: rp.get_context(r.w, r.d, r.dtype)


def r_no_context(r):
    f = r.pick(lambda **k: rp.LieIncrementStream.from_increments(r.rows(2), **k), lambda **k: rp.BrownianStream.with_generator(**k),
               lambda **k: rp.Lie(r.rows(1)[0], **k))
    k = [{}, {"ctx": 3}, {"ctx": "x"}][r.c["pick"] // 3 % 3]
    if r.c["pick"] % 3 == 2:
        k = {"ctx": 3}
    return [], lambda: f(**k), lambda: f(ctx=rp.get_context(r.w, r.d, rp.DPReal))


def r_data(r):
    kind = r.pick("FreeTensor", "Lie", "ShuffleTensor")
    x = ["abc", ["a", "b"], [1., "b"], [[1.], "b"], {"a": 1.}, {-1: 1.}, [1., None], np.array(["a"]), np.array([1j]), object()][r.c["pick"] // 3 % 10]
    return [], lambda: getattr(rp, kind)(x, ctx=r.ctx), lambda: r.el(kind)


def r_indices(r):
    n = r.c["n"]
    good = [k / 16 for k in range(n)]
    ix = r.pick(good[:-1] or [0., 1.], good + [1.], [r.bad if k == r.c["pick"] // 5 % n else x for k, x in enumerate(good)], ["a"] * n, "x")
    if r.c["pick"] // 7 % 2 and not isinstance(ix, str) and not any(isinstance(x, str) for x in ix):
        ix = np.array(ix)
    return [], lambda: rp.LieIncrementStream.from_increments(r.rows(n), indices=ix, ctx=r.ctx), \
        lambda: rp.LieIncrementStream.from_increments(r.rows(n), indices=good, ctx=r.ctx)


def r_query(r):
    s = r.stream()
    f = [s.signature, s.log_signature][r.c["pick"] // 11 % 2]
    big = 10 ** 11 + r.c["big"]
    a, k = r.pick(((r.i,), {"depth": -r.c["n"]}), ((r.i, big), {}), ((r.i, -big), {}), (("x",), {}), ((0., "x"), {}), ((NAN, 1.), {}), ((0., NAN), {}),
                  ((r.i,), {"ctx": r.other}), ((r.i, "x"), {}), ((r.i,), {"dtype": "nonsense"}), ((0.5,), {}))
    return [], lambda: f(*a, **k), lambda: f(r.i, 4)


def r_derivative(r):
    s = r.stream()
    x = r.pick(r.el("Lie", r.other), 3, "x", None, r.el("FreeTensor"))
    return [], lambda: s.signature_derivative(r.i, x, 4), lambda: s.signature_derivative(r.i, r.el("Lie"), 4)


def r_function(r):
    def boom(i, ctx):
        raise KeyError("from the function")
    f = r.pick(boom, lambda i, c: "x", lambda i, c: None, lambda i, c: r.el("Lie", r.other), lambda i, c: 3, lambda i: r.el("Lie"), lambda i, c: r.el("FreeTensor"))
    s = rp.FunctionStream.from_function(f, ctx=r.ctx, support=r.i, resolution=2)
    t = rp.FunctionStream.from_function(lambda i, c: r.el("Lie"), ctx=r.ctx, support=r.i, resolution=2)
    m = ["signature", "log_signature"][r.c["pick"] // 7 % 2]
    return [], lambda: getattr(s, m)(r.i, 2), lambda: getattr(t, m)(r.i, 2)


def r_pieces(r):
    x = r.pick([(r.i, r.el("Lie", r.other))], [(r.i,)], ["ab"], [(3, r.el("Lie"))], [(r.i, r.el("FreeTensor"))], 3, [(r.i, r.el("Lie")), (rp.RealInterval(2., 3.), r.el("Lie", r.other))])
    return [], lambda: rp.PiecewiseAbelianStream.construct(x, ctx=r.ctx), lambda: rp.PiecewiseAbelianStream.construct([(r.i, r.el("Lie"))], ctx=r.ctx)


def r_values(r):
    x = r.pick([(0., r.el("FreeTensor", r.other))], ["ab"], [(0.,)], [("x", r.el("FreeTensor"))], 3)
    return [], lambda: rp.TensorValuedStream.from_values(x, r.i, ctx=r.ctx), lambda: rp.TensorValuedStream.from_values([(0., r.el("FreeTensor"))], r.i, ctx=r.ctx)


def r_partition(r):
    p = rp.Partition(r.i, [0.25, 0.5])
    f = r.pick(lambda: p.insert_intermediate(1. + r.c["n"]), lambda: p.insert_intermediate(-1. * r.c["n"]), lambda: p.insert_intermediate(NAN), lambda: p[4 + r.c["big"] % 1000], lambda: p.merge(3),
               lambda: p.insert_intermediate(INF))
    return [p], f, lambda: (p.insert_intermediate(0.75), p[2])


def r_dyadic(r):
    big = 10 ** 6 + r.c["big"]
    f = r.pick(lambda: rp.DyadicInterval(0.5, big), lambda: rp.DyadicInterval(0.5, -big), lambda: rp.DyadicInterval(r.bad, 3), lambda: rp.Dyadic(1, 10 ** 12), lambda: rp.Dyadic(2 ** 70, 1),
               lambda: rp.Dyadic("1", 2), lambda: rp.DyadicInterval(rp.Dyadic(1, 2), "x"))
    return [], f, lambda: (rp.DyadicInterval(rp.Dyadic(1, 2)), rp.Dyadic(3, 4))


def r_polynomial(r):
    m, p = rp.Monomial({"x1": 2}), rp.PolynomialScalar({rp.Monomial("x1"): 2.})
    f = r.pick(lambda: rp.Monomial({"x1": -r.c["n"]}), lambda: rp.Monomial("1x"), lambda: rp.Monomial({"x1": 1.5}), lambda: m ** -r.c["n"], lambda: p / 0, lambda: rp.PolynomialScalar("x"),
               lambda: rp.PolynomialScalar(r.bad), lambda: m.__setitem__("x1", -1), lambda: p.__setitem__(rp.Monomial("x1"), r.bad), lambda: p / r.bad if r.bad != r.bad else p / 0.)
    return [m, p], f, lambda: (m ** 2, p / 2, rp.Monomial({"x1": 1}))


def r_schema(r):
    f = r.pick(lambda: rp.StreamSchema.parse({"a": "nonsense"}), lambda: rp.StreamSchema.parse({"a": 3.5}), lambda: rp.TickStream.from_data([(0., "a", "nonsense", 1.)], ctx=r.ctx),
               lambda: rp.TickStream.from_data([(0., "b", "increment", 1.)], ctx=r.ctx, schema={"a": "increment"}), lambda: rp.TickStream.from_data([("x", "a", "increment", 1.)], ctx=r.ctx),
               lambda: rp.TickStream.from_data([(0.,)], ctx=r.ctx))
    c1 = rp.get_context(1, r.d, r.dtype)
    return [], f, lambda: rp.TickStream.from_data([(0., "a", "increment", 1.)], ctx=c1)


def r_beyond(r):
    """not a refusal: coefficients beyond the basis are zero"""
    kind = r.pick("FreeTensor", "Lie", "ShuffleTensor")
    x = r.el(kind)
    size = r.ctx.tensor_size() if kind != "Lie" else r.ctx.lie_size() + 1
    size = size if isinstance(size, int) else 0

    def f():
        v = x[size + r.c["big"]]
        assert v == 0 and str(v) == "0", f"{x}[{size} + {r.c['big']}] is {v}"
        raise ValueError
    return [x], f, lambda: x[1]


REFUSE = {n[2:]: f for n, f in list(globals().items()) if n.startswith("r_")}


def run_refusal(c):
    r = Ref(c)
    ops, bad, good = REFUSE[c["what"]](r)
    before = [str(o) for o in ops]
    good()
    before = [str(o) for o in ops]
    try:
        x = bad()
    except AssertionError:
        raise
    except SystemError as e:
        raise AssertionError(f"{c['what']} raised SystemError: {e}")
    except Exception as e:
        str(e)
    else:
        raise AssertionError(f"{c['what']}: not refused, gave {type(x).__name__} {str(x)[:300]}")
    after = [str(o) for o in ops]
    assert after == before, f"{c['what']}: operands were {before}, and are {after} after the call was refused"
    good()
    return [c["what"]]


# ------------------------------------------------------------------------------------------------ arms

ARMS = [
    Arm("calls", CASE, run, quick=30000, thorough=1000000, shards=8, what=run.__doc__ or "sequences of calls", mem_gb=6),
    Arm("refusals", refusal(), run_refusal, quick=4000, thorough=200000,
        what="calls with an argument that has no meaning, between the same calls with right ones: refused, with operands as they were"),
]
