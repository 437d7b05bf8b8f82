"""Property-based testing framework: runs the arms of a check in worker processes, shrinks failures, replays them,
writes the evidence file.

A check module (checks/Cxx.py) defines

    ARMS = [Arm("name", strategy, fn, quick=..., thorough=...), ...]
    RULE = "how cases are made; what makes one non-trivial"

where the strategy (Hypothesis) draws plain JSON data (the case), and fn(case) raises on a violation and returns a
truthy value when the case was non-trivial (a string or list of strings is also counted as class labels).
"""
from __future__ import annotations

import hashlib
import importlib.util
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
CHECKS = os.path.join(VERIF, "checks")
PKG = os.path.join(VERIF, "build", "pkg")
WORK = os.path.join(VERIF, "build", "work")
PY = "/opt/veriftools/pyvenv/bin/python3"
NCPU = 8
CASE_HANG_S = 60          # a single case normally takes milliseconds


class Arm:
    def __init__(self, name, strategy, fn, quick=400, thorough=None, shards=None, examples=(), env=None,
                 what="", kind="hypothesis", mem_gb=6):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.examples = list(examples)
        self.env = env or {}
        self.what = what or (fn.__doc__ or "").strip() if fn else what
        self.kind = kind
        self.mem_gb = mem_gb


class Discard(Exception):
    """raised by an arm for a case outside the property's domain"""


def load_check(prop):
    if PKG not in sys.path:
        sys.path[:0] = [PKG, LIB, CHECKS]
    path = os.path.join(CHECKS, prop + ".py")
    spec = importlib.util.spec_from_file_location("check_" + prop, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["check_" + prop] = mod
    spec.loader.exec_module(mod)
    return mod


def case_hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=8).hexdigest()


def short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------------------------------------ worker side

def _run_in_fork(fn, case, timeout=CASE_HANG_S):
    """run fn(case) in a forked child; returns (ok, nontrivial, message)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(timeout)
        try:
            try:
                nt = fn(case)
                out = {"ok": True, "nt": nt}
            except Discard:
                out = {"ok": True, "nt": None, "discard": True}
            except BaseException:
                out = {"ok": False, "msg": traceback.format_exc()[-3000:]}
            os.write(w, json.dumps(out, default=str).encode()[:60000])
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        what = "did not finish in %d s" % timeout if sig == signal.SIGALRM else "died with " + signal.Signals(sig).name
        return {"ok": False, "msg": "the process " + what}
    try:
        return json.loads(buf)
    except ValueError:
        return {"ok": False, "msg": "the process ended without an answer"}


def worker_main(argv):
    prop, arm_name, seed, n, out, mode = argv[0], argv[1], int(argv[2]), int(argv[3]), argv[4], argv[5]
    mod = load_check(prop)
    arm = {a.name: a for a in mod.ARMS}[arm_name]
    lim = arm.mem_gb << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import faulthandler
    faulthandler.enable()
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    state = {"evals": 0, "discards": 0, "nt": set(), "labels": {}, "samples": [], "fail": None, "nfail": 0}
    cur = os.open(out + ".cur", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)

    def one(case):
        b = json.dumps(case, default=str).encode()
        os.pwrite(cur, b"%10d" % len(b) + b, 0)
        state["evals"] += 1
        try:
            if mode == "fork":
                r = _run_in_fork(arm.fn, case)
                if not r["ok"]:
                    raise AssertionError(r["msg"])
                if r.get("discard"):
                    raise Discard()
                nt = r["nt"]
            else:
                nt = arm.fn(case)
        except Discard:
            state["discards"] += 1
            return
        except BaseException as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            state["fail"] = {"case": json.loads(b), "msg": traceback.format_exc()[-3500:]}
            state["nfail"] += 1
            raise
        if nt:
            h = case_hash(case)
            new = h not in state["nt"]
            state["nt"].add(h)
            labels = [nt] if isinstance(nt, str) else nt if isinstance(nt, (list, tuple, set)) else []
            fresh = False
            for l in labels:
                if l not in state["labels"]:
                    fresh = True
                state["labels"][l] = state["labels"].get(l, 0) + 1
            if new and (len(state["samples"]) < 2 or (fresh and len(state["samples"]) < 6)):
                state["samples"].append({"arm": arm_name, "case": short(case), "labels": labels})

    status = "ok"
    try:
        for ex in arm.examples:
            one(ex)
        if n > 0:
            @hypothesis.seed(seed)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                      report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink])
            @given(arm.strategy)
            def test(case):
                one(case)

            test()
    except BaseException:
        status = "fail" if state["fail"] else "error"
        if status == "error":
            state["error"] = traceback.format_exc()[-4000:]
    state["status"] = status
    state["nt"] = sorted(state["nt"])
    with open(out + ".tmp", "w") as f:
        json.dump(state, f, default=str)
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def replay_main(argv):
    """run one case in this process; exit 0 holds, 1 violated, other: crash"""
    rec = json.load(open(argv[0]))
    if rec.get("kind") == "cpp":
        r = subprocess.run(rec["cmd"], env=dict(os.environ, **rec.get("env", {})))
        return r.returncode
    mod = load_check(rec["property"])
    arm = {a.name: a for a in mod.ARMS}[rec["arm"]]
    lim = arm.mem_gb << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        arm.fn(rec["case"])
    except Discard:
        print("discarded")
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(1)
    print("holds")
    sys.stdout.flush()
    os._exit(0)


# ------------------------------------------------------------------------------------------------ parent side

def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith("HYPOTHESIS")}
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["HOME"] = os.path.join(WORK, "home")
    env["XDG_CACHE_HOME"] = os.path.join(WORK, "home", "cache")
    env["OMP_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env.pop("PYTHONPATH", None)
    os.makedirs(env["XDG_CACHE_HOME"], exist_ok=True)
    return env


def arm_seed(seed, prop, arm, shard):
    return int.from_bytes(hashlib.blake2b(f"{seed}/{prop}/{arm}/{shard}".encode(), digest_size=6).digest(), "big")


def read_cur(out):
    try:
        with open(out + ".cur", "rb") as f:
            n = int(f.read(10))
            return json.loads(f.read(n))
    except Exception:
        return None


def replay_once(path, env, timeout):
    try:
        r = subprocess.run([PY, "-m", "fw", "replay", path], cwd=LIB, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "did not finish in %d s" % timeout


class Job:
    def __init__(self, prop, arm, shard, n, seed, tag):
        self.prop, self.arm, self.shard, self.n, self.seed = prop, arm, shard, n, seed
        self.out = os.path.join(WORK, tag, f"{arm.name}.{shard}.json")
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        self.mode = "direct"
        self.proc = None
        self.n_run = n

    def start(self):
        for suf in ("", ".cur", ".tmp", ".log"):
            if os.path.exists(self.out + suf):
                os.unlink(self.out + suf)
        env = base_env()
        env.update(self.arm.env)
        self.log = open(self.out + ".log", "wb")
        self.t0 = time.time()
        self.last = (None, time.time())
        self.proc = subprocess.Popen([PY, "-m", "fw", "worker", self.prop, self.arm.name, str(self.seed),
                                      str(self.n_run), self.out, self.mode], cwd=LIB, env=env, stdout=self.log,
                                     stderr=subprocess.STDOUT, start_new_session=True)

    def hung(self):
        try:
            m = os.stat(self.out + ".cur").st_mtime_ns
        except OSError:
            m = None
        if m != self.last[0]:
            self.last = (m, time.time())
        return time.time() - self.last[1] > CASE_HANG_S * (3 if self.mode == "fork" else 1)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()


def run_check(prop, tier, seed, only=None, scale=1.0, budget=None):
    t_start = time.time()
    budget = budget or (560 if tier == "quick" else 6 * 3600)
    mod = load_check(prop)
    tag = f"{prop}.{tier}.{os.getpid()}"
    jobs = []
    for arm in mod.ARMS:
        if only and arm.name not in only:
            continue
        total = int((arm.quick if tier == "quick" else arm.thorough) * scale) if arm.strategy is not None else 0
        sh = arm.shards or max(1, min(8, total // 150))
        per = -(-total // sh)
        for s in range(sh):
            jobs.append(Job(prop, arm, s, per, arm_seed(seed, prop, arm.name, s), tag))
    # interleave arms so that each gets its first shard early
    jobs.sort(key=lambda j: (j.shard,))
    pending, running, done = list(jobs), [], []
    failures, errors, unfinished = [], [], []
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    env = base_env()
    stop_new = False
    while pending or running:
        if time.time() - t_start > budget:
            for j in running:
                j.kill()
                unfinished.append(j)
            unfinished += pending
            break
        while pending and len(running) < NCPU and not stop_new:
            j = pending.pop(0)
            j.start()
            running.append(j)
        if stop_new and not running:
            break
        time.sleep(0.05)
        for j in list(running):
            rc = j.proc.poll()
            if rc is None:
                if j.hung():
                    j.kill()
                    rc = -signal.SIGALRM
                else:
                    continue
            running.remove(j)
            j.log.close()
            if os.path.exists(j.out):
                j.result = json.load(open(j.out))
                if j.result["status"] == "fail":
                    failures.append((j, j.result["fail"]["case"], j.result["fail"]["msg"]))
                    stop_new = True
                elif j.result["status"] == "error":
                    errors.append((j, j.result.get("error")))
                done.append(j)
            elif j.mode == "direct":
                # crashed or hung: run again with every case in a forked child, so that it can be shrunk
                j.crash = (rc, read_cur(j.out), open(j.out + ".log", errors="replace").read()[-2500:])
                j.mode = "fork"
                if j.crash[1] is None:
                    errors.append((j, f"worker ended with {rc} before its first case\n{j.crash[2]}"))
                    done.append(j)
                    continue
                stop_new = True
                failures.append((j, j.crash[1], f"worker process ended with code {rc}\n{j.crash[2]}"))
                done.append(j)
    # confirm failures
    viol, flaky = [], []
    seen_arms = set()
    for j, case, msg in failures:
        if j.arm.name in seen_arms:
            continue
        seen_arms.add(j.arm.name)
        crash = not hasattr(j, "result")
        rec = {"property": prop, "arm": j.arm.name, "seed": j.seed, "what": j.arm.what, "case": case,
               "message": msg[-3000:]}
        path = os.path.join(VERIF, "replay", f"{prop}-{j.arm.name}-{case_hash(case)}.json")
        json.dump(rec, open(path, "w"), indent=1, default=str)
        e = dict(env, **j.arm.env)
        hits = 0
        for _ in range(3):
            rc, o = replay_once(path, e, CASE_HANG_S + 30)
            hits += rc != 0
        if crash and hits and time.time() - t_start < budget - 60:
            shr = shrink_crash(j, case, t_start + budget)
            if shr:
                rec["case"], rec["message"] = shr
                p2 = os.path.join(VERIF, "replay", f"{prop}-{j.arm.name}-{case_hash(rec['case'])}.json")
                json.dump(rec, open(p2, "w"), indent=1, default=str)
                if any(replay_once(p2, e, CASE_HANG_S + 30)[0] != 0 for _ in range(3)):
                    path = p2
        if not hits:
            # depends on the cases before it: the whole worker run (a pure function of its seed) is the replay
            j.mode = "direct"
            again = 0
            for _ in range(2):
                j.start()
                try:
                    j.proc.wait(timeout=max(30, 3 * (time.time() - j.t0) + 200))
                except subprocess.TimeoutExpired:
                    j.kill()
                j.log.close()
                bad = not os.path.exists(j.out) or json.load(open(j.out))["status"] == "fail"
                again += bad
            rec["kind_note"] = "fails only after the earlier cases of the same worker run"
            rec["run"] = [PY, "-m", "fw", "worker", prop, j.arm.name, str(j.seed), str(j.n_run), j.out, "direct"]
            json.dump(rec, open(path, "w"), indent=1, default=str)
            if again < 2:
                flaky.append((j, case, msg, path))
                continue
        viol.append((j, rec, path))
    # known findings
    known = known_findings(prop)
    for k in known:
        print(k)
    # evidence
    agg_nt, evals, discards, labels, samples = 0, 0, 0, {}, []
    per_arm = {}
    for j in done:
        r = getattr(j, "result", None)
        if not r:
            continue
        a = per_arm.setdefault(j.arm.name, {"evaluations": 0, "nt": set(), "labels": {}, "what": j.arm.what,
                                            "discarded": 0})
        a["evaluations"] += r["evals"]
        a["discarded"] += r["discards"]
        a["nt"].update(r["nt"])
        for l, c in r["labels"].items():
            a["labels"][l] = a["labels"].get(l, 0) + c
        if j.shard == 0:
            samples += r["samples"][:3]
    for a in per_arm.values():
        evals += a["evaluations"]
        agg_nt += len(a["nt"])
        a["distinct_nontrivial"] = len(a.pop("nt"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": agg_nt, "rule": mod.RULE,
                       "samples": samples[:40] or ["none"], "arms": per_arm,
                       "unfinished_jobs": len(unfinished)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t_start, 2), "violations": len(viol)}
    if flaky:
        ev["coverage"]["not_reproduced"] = [short(f[2]) for f in flaky]
    if known:
        ev["coverage"]["known_findings"] = known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for name, a in per_arm.items():
        print(f"{prop} {name}: {a['evaluations']} cases, {a['distinct_nontrivial']} distinct non-trivial"
              + (f", {a['discarded']} discarded" if a["discarded"] else "")
              + (f", classes {dict(sorted(a['labels'].items()))}" if a["labels"] else ""))
    subprocess.run(["rm", "-rf", os.path.join(WORK, tag)])
    print(f"{prop}: {evals} cases, {agg_nt} distinct non-trivial, {ev['wall_s']} s, seed {seed}, {tier}")
    for j, err in errors:
        print(f"ERROR in {prop} {j.arm.name} shard {j.shard}:\n{err}")
    for f in flaky:
        print(f"not reproduced (not reported): {prop} {f[0].arm.name} {short(f[1])}\n{f[2]}")
    if viol:
        for j, rec, path in viol:
            print(f"--- {prop} {j.arm.name}: {j.arm.what}\ncase: {short(rec['case'], 3000)}\n{rec['message']}")
        for j, rec, path in viol:
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        return 2
    if unfinished and tier == "quick":
        # never silently: on this budget the run is incomplete
        print(f"{prop}: {len(unfinished)} jobs did not finish within {budget} s")
        if not done:
            return 2
    return 0


def shrink_crash(job, case, deadline):
    """Search for a smaller crashing case with every example in a forked child."""
    j = Job(job.prop, job.arm, job.shard, job.n, job.seed, f"shrink.{os.getpid()}")
    j.mode = "fork"
    j.n_run = min(job.n, 4000)
    j.start()
    limit = min(deadline - 30, time.time() + 90)
    while j.proc.poll() is None and time.time() < limit:
        time.sleep(0.1)
    if j.proc.poll() is None:
        j.kill()
    j.log.close()
    res = None
    if os.path.exists(j.out):
        r = json.load(open(j.out))
        if r.get("fail"):
            res = (r["fail"]["case"], r["fail"]["msg"])
    subprocess.run(["rm", "-rf", os.path.dirname(j.out)])
    return res


def is_known(id):
    """is this finding listed? (arms use it to tell the listed behaviour, and nothing else, from a violation)"""
    try:
        return any(k["id"] == id for k in json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"])
    except OSError:
        return False


def known_findings(prop):
    """Re-run the listed findings of this property; the ones that still fail are reported."""
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    out = []
    for k in json.load(open(path)).get("findings", []):
        if k["property"] != prop:
            continue
        rec = os.path.join(VERIF, "findings", k["demo"])
        e = base_env()
        e["PYTHONPATH"] = PKG + ":" + LIB
        try:
            r = subprocess.run([PY, rec], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = 124
        if rc != 0:
            out.append(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    return out


def main():
    if sys.argv[1] == "worker":
        return worker_main(sys.argv[2:])
    if sys.argv[1] == "replay":
        return replay_main(sys.argv[2:])
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--arm", action="append")
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--budget", type=float)
    a = p.parse_args()
    return run_check(a.prop, a.tier, a.seed, a.arm, a.scale, a.budget)


if __name__ == "__main__":
    sys.path.insert(0, LIB)
    import fw                     # one module object, whichever way it was started
    sys.exit(fw.main())
