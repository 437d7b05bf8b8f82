"""C26: streams answer the same when several threads query them at once, and always answer."""
import os
import select
import signal
import sys
import threading
import time
import traceback
from hypothesis import strategies as st
import roughpy as rp
import rpyio as R
import smodel as S
from fw import Arm

RULE = ("cases are streams shared by two to five threads and a list of queries for each; every case runs in two fresh processes, "
        "one with the threads and one in sequence; non-trivial when two threads query the same stream")

LIMIT = 12          # seconds; a case takes a few milliseconds


@st.composite
def case(draw):
    w, d = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (2, 4), (3, 3), (4, 2)]))
    ct = draw(st.sampled_from("QQDDS"))
    streams = draw(st.lists(st.fixed_dictionaries({
        "kind": st.sampled_from(["inc", "fun", "fun", "pw"]),
        "a": st.lists(st.integers(-5, 5), min_size=w, max_size=w), "b": st.lists(st.integers(-5, 5), min_size=w, max_size=w),
        "n": st.integers(1, 6), "res": st.integers(1, 5), "sleep": st.booleans()}), min_size=1, max_size=3))
    n = len(streams)

    def op():
        return st.tuples(st.sampled_from(["sig", "sig", "log", "log", "simp", "der", "der", "restr", "deeper"]), st.integers(0, n - 1),
                         st.integers(0, 7), st.integers(1, 8), st.integers(0, 5)).map(list)
    threads = draw(st.lists(st.lists(op(), min_size=1, max_size=5), min_size=2, max_size=5))
    return {"w": w, "d": d, "ct": ct, "streams": streams, "threads": threads, "switch": draw(st.sampled_from([1e-6, 1e-4, 5e-3]))}


def build(c, sp, ctx):
    w, d, ct = c["w"], c["d"], c["ct"]
    a, b, n = sp["a"], sp["b"], sp["n"]

    def lie(i):
        return rp.Lie([x * ((i + k) % 3 - 1) + y for k, (x, y) in enumerate(zip(a, b))], ctx=ctx)
    if sp["kind"] == "inc":
        return rp.LieIncrementStream.from_increments([[x * ((i + k) % 3 - 1) + y for k, (x, y) in enumerate(zip(a, b))] for i in range(n)],
                                                     indices=[i * 8 / n for i in range(n)], ctx=ctx, resolution=sp["res"])
    if sp["kind"] == "pw":
        return rp.PiecewiseAbelianStream.construct([(rp.RealInterval(8 * i / n, 8 * (i + 1) / n), lie(i)) for i in range(n)], ctx=ctx)

    def fn(t, cx):
        if sp["sleep"]:
            time.sleep(0)
        i = int(t * 64)
        r = rp.Lie([x * (i * i // 50 + i * k) + y * i for k, (x, y) in enumerate(zip(a, b))], ctx=cx)
        if sp["sleep"]:
            time.sleep(1e-6)
        return r
    return rp.FunctionStream.from_function(fn, ctx=ctx, resolution=sp["res"], support=rp.RealInterval(0, 8))


def perform(op, s, c, ctx):
    name, _, x, y, r = op
    lo, hi = x, x + y
    sp = c["streams"][op[1]]
    if sp["kind"] == "fun":
        r = sp["res"]           # a coarser answer may be refined by other queries (C21), so all ask for the same
    iv = rp.RealInterval(lo * 0.5, min(hi * 0.5, 8))
    if name == "sig":
        return show(s.signature(iv, r), c)
    if name == "log":
        return show(s.log_signature(iv, r), c)
    if name == "deeper":
        return show(s.log_signature(iv, r, depth=c["d"] + 1), c)
    if name == "restr":
        return show(s.restrict(iv).signature(rp.RealInterval(0, 8), r), c)
    if name == "simp":
        p = rp.Partition(iv, [(lo + hi) * 0.25])
        q = s.simplify(p, r)
        return show(q.signature(iv, r), c)
    return show(s.signature_derivative(iv, rp.Lie(c["streams"][0]["b"], ctx=ctx), r), c)


def show(x, c):
    """[[key, numbers...]]"""
    ct = c["ct"]
    m = R.l2m(x, ct) if isinstance(x, rp.Lie) else R.t2m(x, ct)
    return {repr(k): (str(v) if ct == "Q" else float(v)) for k, v in m.items()}


def work(c, threaded):
    import json
    ctx = rp.get_context(c["w"], c["d"], R.DT[c["ct"]])
    if threaded:
        streams = [build(c, sp, ctx) for sp in c["streams"]]
    out = [None] * len(c["threads"])

    def runner(k, ops, gate):
        try:
            if gate:
                gate.wait()
            res = []
            for op in ops:
                s = streams[op[1]] if threaded else build(c, c["streams"][op[1]], ctx)
                res.append(perform(op, s, c, ctx))
            out[k] = res
        except BaseException as e:
            out[k] = [f"{type(e).__name__}: {e}"[:300]]
    if threaded:
        sys.setswitchinterval(c["switch"])
        gate = threading.Barrier(len(c["threads"]))
        ts = [threading.Thread(target=runner, args=(k, ops, gate), daemon=True) for k, ops in enumerate(c["threads"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    else:
        for k, ops in enumerate(c["threads"]):
            runner(k, ops, None)
    return json.dumps(out)


def in_child(c, threaded):
    """the result of work in a fresh process; None if it did not end"""
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = work(c, threaded).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf, end = b"", time.time() + LIMIT
    dead = False
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
        if not ready:
            dead = True
            os.kill(pid, signal.SIGKILL)
            break
        part = os.read(r, 65536)
        if not part:
            break
        buf += part
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if dead:
        return None
    assert status == 0, f"the process ended with status {status}"
    return json.loads(buf)


def near(a, b, tol):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    ks = set(a) | set(b)
    for k in ks:
        x, y = a.get(k, 0), b.get(k, 0)
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif abs(x - y) > tol * max(1.0, *(abs(v) for v in b.values() if not isinstance(v, str))):
            return False
    return True


def run(c):
    exp = in_child(c, False)
    assert exp is not None, "the queries did not end in sequence"
    got = in_child(c, True)
    assert got is not None, f"the queries of {len(c['threads'])} threads did not end within {LIMIT} s (in sequence they do)"
    tol = {"Q": 0, "D": 1e-9, "S": 1e-3}[c["ct"]]
    for k, ops in enumerate(c["threads"]):
        assert got[k] is not None and len(got[k]) == len(exp[k]), f"thread {k}: {got[k]} instead of {exp[k]}"
        for op, g, e in zip(ops, got[k], exp[k]):
            assert near(g, e, tol), f"thread {k}, {op}: {g}, in sequence {e}"
    used = [set(op[1] for op in ops) for ops in c["threads"]]
    shared = set.union(*[a & b for i, a in enumerate(used) for b in used[i + 1:]])
    if not shared:
        return None
    return [c["ct"], f"{len(c['threads'])} threads"] + sorted({"shared " + c["streams"][i]["kind"] for i in shared}) + \
        sorted({op[0] for ops in c["threads"] for op in ops})


ARMS = [
    Arm("threads", case(), run, quick=640, thorough=12000,
        what="threads querying the same streams (signatures, log-signatures, restrictions, simplifications, derivatives) against the same "
             "queries in sequence on fresh streams, with short switch intervals; a case that does not end is a deadlock"),
]
