"""Objects and arguments for calling the Python interface in every way: named valid objects of every kind, named values
that are unusual or of the wrong kind, and the list of what can be called."""
import datetime as dt
import fractions
import inspect
import numpy as np
import roughpy as rp

CX = {"d22": (2, 2, "D"), "d23": (2, 3, "D"), "s32": (3, 2, "S"), "q22": (2, 2, "Q"), "p22": (2, 2, "P"), "d11": (1, 1, "D")}
DT = {"D": rp.DPReal, "S": rp.SPReal, "Q": rp.Rational, "P": rp.RationalPoly}
VT = {"dense": rp.VectorType.DenseVector, "sparse": rp.VectorType.SparseVector}


def _builders():
    B = {}
    for n, (w, d, t) in CX.items():
        B["ctx." + n] = lambda w=w, d=d, t=t: rp.get_context(w, d, DT[t])
        for v in VT:
            for k, cls in (("ft", rp.FreeTensor), ("sh", rp.ShuffleTensor)):
                B[f"{k}.{n}.{v}"] = lambda cls=cls, w=w, d=d, t=t, v=v: cls([1, 2, 3][:1 + w], ctx=rp.get_context(w, d, DT[t]), vector_type=VT[v])
            B[f"lie.{n}.{v}"] = lambda w=w, d=d, t=t, v=v: rp.Lie([1, 2][:w], ctx=rp.get_context(w, d, DT[t]), vector_type=VT[v])
        B["ft0." + n] = lambda w=w, d=d, t=t: rp.FreeTensor(ctx=rp.get_context(w, d, DT[t]))
        B["lie0." + n] = lambda w=w, d=d, t=t: rp.Lie(ctx=rp.get_context(w, d, DT[t]))
        B["tb." + n] = lambda w=w, d=d, t=t: rp.get_context(w, d, DT[t]).tensor_basis
        B["lb." + n] = lambda w=w, d=d, t=t: rp.get_context(w, d, DT[t]).lie_basis
    c22, c23 = lambda: rp.get_context(2, 2, rp.DPReal), lambda: rp.get_context(2, 3, rp.DPReal)
    for t, x in DT.items():
        B["dtype." + t] = lambda x=x: x
        B["scalar." + t] = lambda x=x: rp.FreeTensor([1, 2], ctx=rp.get_context(2, 2, x))[1]
    for k in (0, 1, 4, 14):
        B[f"tkey.{k}"] = lambda k=k: list(c23().tensor_basis)[k]
    for k in (0, 1, 2, 4):
        B[f"lkey.{k}"] = lambda k=k: list(c23().lie_basis)[k]
    B["tkey.12"] = lambda: rp.TensorKey(1, 2, width=2, depth=2)
    B["item.ft"] = lambda: next(iter(rp.FreeTensor([1, 2, 3], ctx=c22())))
    B["item.lie"] = lambda: next(iter(rp.Lie([1, 2, 3], ctx=c22())))
    B["mono.x1"] = lambda: rp.Monomial("x1")
    B["mono.1"] = lambda: rp.Monomial()
    B["mono.x1y2"] = lambda: rp.Monomial({"x1": 2, "y2": 1})
    B["poly.x1"] = lambda: rp.PolynomialScalar({rp.Monomial("x1"): 2})
    B["poly.2"] = lambda: rp.PolynomialScalar({rp.Monomial("x1"): 2, rp.Monomial(): -1})
    B["poly.0"] = lambda: rp.PolynomialScalar()
    B["ival.01"] = lambda: rp.RealInterval(0., 1.)
    B["ival.half"] = lambda: rp.RealInterval(0.25, 0.5)
    B["ival.empty"] = lambda: rp.RealInterval(1., 1.)
    B["dyadic"] = lambda: rp.Dyadic(1, 2)
    B["dyint"] = lambda: rp.DyadicInterval(rp.Dyadic(1, 2))
    B["part"] = lambda: rp.Partition(rp.RealInterval(0., 2.), [1.])
    B["itype"] = lambda: rp.IntervalType.Clopen
    B["vtype"] = lambda: rp.VectorType.DenseVector
    B["stream.inc"] = lambda: rp.LieIncrementStream.from_increments(np.array([[1., 2.], [3., 4.]]), ctx=c22(), resolution=3)
    B["stream.inc.q"] = lambda: rp.LieIncrementStream.from_increments([[1, 2], [3, 4]], ctx=rp.get_context(2, 2, rp.Rational), resolution=3)
    B["stream.tick"] = lambda: rp.TickStream.from_data([(1.0, ("a", "increment", 1.)), (1.5, ("b", "value", 2.))], ctx=c22())
    B["stream.pw"] = lambda: rp.PiecewiseAbelianStream.construct([(rp.RealInterval(0., 1.), rp.Lie([1., 2.], ctx=c22()))], ctx=c22())
    B["stream.fun"] = lambda: rp.FunctionStream.from_function(lambda t, ctx: rp.Lie([t, 2 * t], ctx=ctx), ctx=c22(), resolution=3, support=rp.RealInterval(0., 2.))
    B["stream.bm"] = lambda: rp.BrownianStream.with_generator(ctx=c22(), resolution=3, support=rp.RealInterval(0., 2.))
    B["stream.tv"] = lambda: rp.TensorValuedStream.from_values([(0., rp.FreeTensor([1., 2.], ctx=c22())), (0.5, rp.FreeTensor([1., 1.], ctx=c22()))], rp.RealInterval(0., 1.), ctx=c22())
    B["schema.inc"] = lambda: rp.LieIncrementStream.from_increments(np.array([[1., 2.]]), ctx=c22()).schema
    B["schema.tick"] = lambda: rp.TickStream.from_data([(1.0, ("a", "increment", 1.)), (1.5, ("b", "value", 2.))], ctx=c22()).schema
    B["schema.new"] = lambda: rp.StreamSchema.parse({"a": {"type": "categorical", "categories": ["u", "v"]}, "b": {"type": "value"}})

    out = {}
    for n, f in B.items():
        try:
            f()
            out[n] = f
        except AttributeError:
            pass
    return out


class LongSeq:
    """a sequence whose items fail"""
    def __len__(self):
        return 3

    def __getitem__(self, k):
        raise ValueError("no items")


class NoLen:
    def __getitem__(self, k):
        if k > 2:
            raise IndexError
        return 1.0


class BadLen:
    def __len__(self):
        raise ValueError("no length")

    def __getitem__(self, k):
        if k > 20:
            raise IndexError
        return 1.0


class BadFloat:
    def __float__(self):
        raise ValueError("no value")

    def __index__(self):
        raise ValueError("no value")


class BadDLPack:
    def __dlpack__(self, *a, **k):
        raise ValueError("no tensor")

    def __dlpack_device__(self):
        return (1, 0)


class WrongDLPack:
    def __dlpack__(self, *a, **k):
        return 3

    def __dlpack_device__(self):
        return (1, 0)


def _raise(*a, **k):
    raise ZeroDivisionError


VALUES = {
    "none": lambda: None, "nan": lambda: float("nan"), "inf": lambda: float("inf"), "-inf": lambda: float("-inf"), "-1": lambda: -1, "0": lambda: 0, "1": lambda: 1, "2": lambda: 2,
    "3": lambda: 3, "5": lambda: 5, "e30": lambda: 10 ** 30, "2^31": lambda: 2 ** 31, "2^63": lambda: 2 ** 63, "-2^63": lambda: -2 ** 63, "2^64-1": lambda: 2 ** 64 - 1, "0.5": lambda: 0.5,
    "-1.5": lambda: -1.5, "1e308": lambda: 1e308, "-0.0": lambda: -0.0, "''": lambda: "", "'x'": lambda: "x", "'x1'": lambda: "x1", "'double'": lambda: "double", "'DPReal'": lambda: "DPReal",
    "'increment'": lambda: "increment", "'\\0'": lambda: "a\0b", "'\\u'": lambda: "\ud800", "b''": lambda: b"", "b'abc'": lambda: b"abc", "bytearray": lambda: bytearray(b"abcdefgh"),
    "[]": lambda: [], "{}": lambda: {}, "()": lambda: (), "object": lambda: object(), "[1,2]": lambda: [1., 2.],
    "[[1,2],[3,4]]": lambda: [[1., 2.], [3., 4.]], "[1,'a']": lambda: [1, "a"], "{1:2}": lambda: {1: 2.}, "{'a':1}": lambda: {"a": 1}, "{-1:1}": lambda: {-1: 1.},
    "{99:1}": lambda: {99: 1.}, "[(0,1)]": lambda: [(0., 1.)], "[(0,1,2)]": lambda: [(0, 1, 2)], "ticks": lambda: [(1.0, ("a", "increment", 1.))], "ticks.bad": lambda: [(1.0, ("a", "other", 1.))],
    "ticks.nan": lambda: [(float("nan"), ("a", "increment", 1.)), (1., ("a", "increment", 1.))], "np12": lambda: np.array([1., 2.]), "np2x2": lambda: np.array([[1., 2.], [3., 4.]]),
    "np.f": lambda: np.asfortranarray([[1., 2.], [3., 4.]]), "np.neg": lambda: np.array([[1., 2.], [3., 4.]])[::-1, ::-1], "np.0": lambda: np.array([]), "np0x2": lambda: np.zeros((0, 2), np.float32),
    "np2x0": lambda: np.zeros((2, 0)), "np.str": lambda: np.array(["a"]), "np.c": lambda: np.array([1j]), "np3d": lambda: np.zeros((2, 2, 2)), "np.obj": lambda: np.array([1, 2], dtype=object),
    "np.bool": lambda: np.array([True, False]), "np.f16": lambda: np.array([1, 2], np.float16), "np.i8": lambda: np.array([[1, 2]], np.int8), "np.u64": lambda: np.array([2 ** 63, 1], np.uint64),
    "np.rec": lambda: np.zeros(2, dtype=[("a", "f8"), ("b", "i4")]), "np.swap": lambda: np.array([1., 2.]).astype(">f8"), "np.ro": lambda: np.broadcast_to(np.float64(1.), (2, 2)), "np.sc": lambda: np.array(1.),
    "np.date": lambda: np.array(["2020-01-01"], "datetime64[D]"), "np.nan": lambda: np.array([[float("nan"), 1.], [2., float("inf")]]), "memview": lambda: memoryview(b"abcd"), "int": lambda: int, "float": lambda: float,
    "complex": lambda: complex, "np.float16": lambda: np.float16, "dtype.i8": lambda: np.dtype("int8"), "True": lambda: True, "1+2j": lambda: 1 + 2j, "date": lambda: dt.datetime(2020, 1, 1),
    "delta": lambda: dt.timedelta(1), "range": lambda: range(3), "fn.none": lambda: (lambda *a, **k: None), "fn.raise": lambda: _raise, "fn.str": lambda: (lambda *a, **k: "x"),
    "fn.lie": lambda: (lambda t, ctx=None: rp.Lie([t], ctx=rp.get_context(3, 2, rp.DPReal))), "iter": lambda: iter([1, 2]),
    "np.float64": lambda: np.float64(2.), "np.int64": lambda: np.int64(3), "slice": lambda: slice(0, 2), "ellipsis": lambda: ..., "[None]": lambda: [None], "[[]]": lambda: [[]],
    "[nan,1]": lambda: [float("nan"), 1.], "ragged": lambda: [[1.], [2., 3.]], "module": lambda: rp, "frac": lambda: fractions.Fraction(1, 3), "set": lambda: {1, 2}, "gen": lambda: (x for x in (1., 2.)),
    "seq.fail": LongSeq, "seq.nolen": NoLen, "seq.badlen": BadLen, "badfloat": BadFloat, "dl.bad": BadDLPack, "dl.wrong": WrongDLPack, "cls": lambda: NoLen,
    "[lie]": lambda: [rp.Lie([1., 2.], ctx=rp.get_context(2, 2, rp.DPReal))], "[lie,lie3]": lambda: [rp.Lie([1., 2.], ctx=rp.get_context(w, 2, rp.DPReal)) for w in (2, 3)],
    "[(iv,lie)]": lambda: [(rp.RealInterval(0., 1.), rp.Lie([1., 2.], ctx=rp.get_context(2, 2, rp.DPReal)))], "[(iv,1)]": lambda: [(rp.RealInterval(0., 1.), 1)],
    "[(t,ft)]": lambda: [(0., rp.FreeTensor([1., 2.], ctx=rp.get_context(2, 2, rp.DPReal))), (0.5, rp.FreeTensor([1., 1.], ctx=rp.get_context(2, 2, rp.DPReal)))], "[0.5]": lambda: [0.5], "fn.true": lambda: (lambda *a: True),
    "[dtypes]": lambda: [rp.DPReal, rp.SPReal], "{x:1}": lambda: {rp.Monomial("x1"): 1}, "{x:'a'}": lambda: {rp.Monomial("x1"): "a"}, "types": lambda: ["increment", "value"], "{'a':'value'}": lambda: {"a": "value"},
    "schema.list": lambda: [{"label": "a", "type": "increment"}], "schema.dict": lambda: {"a": {"type": "categorical", "categories": ["u", "v"]}}, "schema.bad": lambda: {"a": {"type": 3}}, "schema.tup": lambda: [("a",)],
}

KW = ["width", "depth", "dtype", "ctx", "vector_type", "vtype", "ctype", "resolution", "support", "indices", "schema", "include_time", "interval_type",
      "params", "args", "type", "labels", "increment", "coeffs", "keys", "scalar_type", "channel_types", "domain", "data", "order", "index", "letters", "interval"]
CTOR_KW = {"FreeTensor": ["ctx", "vector_type", "dtype", "keys", "order"], "ShuffleTensor": ["ctx", "vector_type", "dtype"], "Lie": ["ctx", "vector_type", "dtype"],
           "Stream": ["ctx", "width", "depth", "dtype", "resolution", "support", "vtype", "schema", "indices", "channel_types", "include_time", "domain"]}

SKIP = {"__class__", "__init_subclass__", "__subclasshook__", "__dir__", "__getattribute__", "__getattr__", "__setattr__", "__delattr__", "__doc__", "__sizeof__", "__module__", "__dict__", "__new__",
        "__weakref__", "_pybind11_conduit_v1_", "__subclasses__", "mro", "__basicsize__", "__instancecheck__", "__subclasscheck__", "__prepare__", "__text_signature__", "__abstractmethods__",
        "__del__", "__setstate__", "__reduce__", "__reduce_ex__", "__getstate__",
        # powers of polynomials take as long as their size, which has no bound
        "__pow__", "__rpow__", "__ipow__"}
MUTATES = {"__init__", "add_scal_mul", "sub_scal_mul", "add_scal_div", "sub_scal_div", "add_mul", "sub_mul", "mul_smul", "mul_sdiv", "fmexp", "__setitem__", "__delitem__", "__next__",
           "insert_increment", "insert_value", "insert_categorical", "insert_lie", "add_intermediate", "insert_intermediate", "rebase", "append", "add_values", "add_value", "add_increment", "add_categorical", "add_tick",
           "clear", "pop", "__iadd__", "__isub__", "__imul__", "__itruediv__", "__ifloordiv__", "__imod__", "__iand__", "__ior__", "__ixor__", "__ilshift__", "__irshift__", "__imatmul__"}

OPS = ["add", "sub", "mul", "truediv", "eq", "ne", "lt", "le", "gt", "ge", "getitem", "delitem", "contains", "neg", "pos", "abs", "index", "bool", "float", "int", "complex", "hash", "len", "list", "repr", "str",
       "setitem", "iadd", "isub", "imul", "itruediv", "format", "copy", "deepcopy", "array", "mod", "divmod", "matmul", "reversed", "setattr", "memoryview", "pickle"]
BUILD = _builders()


def targets():
    """(what can be called: "fn:NAME", "fn:NAME.STATIC", "m:LABEL:METHOD")"""
    out = []
    for n in sorted(dir(rp)):
        f = getattr(rp, n)
        if n.startswith("_") or not callable(f) or inspect.ismodule(f):
            continue
        if getattr(f, "__module__", "").split(".")[0] not in ("roughpy", "_roughpy", "builtins") or f in (int, float):
            continue
        out.append("fn:" + n)
        if isinstance(f, type):
            for a in sorted(dir(f)):
                if a.startswith("from_") or a in ("construct", "with_generator", "parse"):
                    out += [f"fn:{n}.{a}"] * 3
    seen = {}
    for lab, b in BUILD.items():
        o = b()
        if isinstance(o, type):
            continue
        for a in sorted(dir(o)):
            if a not in SKIP:
                seen.setdefault((type(o).__name__, a), []).append(lab)
    return out, {f"{t}.{a}": labs for (t, a), labs in sorted(seen.items()) if t not in ("builtin_function_or_method", "function", "method")}


FUNCS, METHODS = targets()
