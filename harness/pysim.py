"""Driver of the storage/process simulator (sim/pyzygote.py, sim/simio.c)."""
import copy
import json
import os
import queue
import select
import subprocess
import threading
import time

from . import common as c

TYPES = {"any": -1, "open": 0, "read": 1, "write": 2, "close": 3, "sync": 4, "rename": 5, "unlink": 6,
         "trunc": 7, "mkdir": 8}
ACTS = {"err": 1, "short": 2, "torn": 3, "crash_before": 4, "crash_after": 5, "signal": 6}
ERRNO = {"EIO": 5, "ENOSPC": 28, "EACCES": 13, "EMFILE": 24, "EINTR": 4, "EDQUOT": 122, "EROFS": 30, "ENOENT": 2}


def plan(rules):
    """rules: [{"op","k","act","err","persist"}] -> plan text of simio."""
    out = []
    for r in rules:
        err = r.get("err", 0)
        out.append("%d,%d,%d,%d,%d" % (TYPES[r["op"]], r["k"], int(bool(r.get("persist"))), ACTS[r["act"]],
                                       ERRNO.get(err, err) if isinstance(err, str) else err))
    return ";".join(out)


class SetupProblem(Exception):
    """The calls a scenario makes before the first history - reading shipped inputs, one undisturbed
    solve of each - ended in an error."""


class Zygote:
    def __init__(self, modules, idx):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("VERIF_", "VMECPP_")):
                del env[k]
        env.update(LD_PRELOAD=c.BUILD + "/libsimio.so", SIM_BUILD=c.BUILD, SIM_REPO=c.REPO,
                   SIM_MODULES=",".join(modules), PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   HDF5_USE_FILE_LOCKING="FALSE", LC_ALL="C.UTF-8", JAX_PLATFORMS="cpu")
        self.root = "%s/z%02d" % (c.scratch(), idx)
        self.err = open(self.root + ".err", "w+")
        self.p = subprocess.Popen([c.PY, c.VERIF + "/sim/pyzygote.py"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True, env=env, cwd="/")
        self.n = 0

    def wait_ready(self):
        if not select.select([self.p.stdout], [], [], 400)[0]:
            self.p.kill()
            raise SetupProblem("does not end")
        line = self.p.stdout.readline()
        if line.strip() != "ready":
            self.err.seek(0)
            raise SetupProblem("%r\n%s" % (line, self.err.read()[-2000:]))

    def call(self, req):
        req = dict(req)
        req["root"] = self.root + "/h"
        os.makedirs(self.root, exist_ok=True)
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise c.CheckError("simulator process died:\n" + self.err.read()[-4000:])
        self.n += 1
        return json.loads(line.replace(self.root, "ROOT"))


class Pool:
    def __init__(self, modules, workers=None):
        n = workers or c.WORKERS
        self.q = queue.Queue()
        self.zs = [Zygote(modules, i) for i in range(n)]
        for z in self.zs:
            try:
                z.wait_ready()
            except SetupProblem:
                for y in self.zs:
                    y.p.kill()
                    y.p.wait()
                raise
            self.q.put(z)
        c.log("%d simulator processes ready" % n)

    def call(self, req):
        z = self.q.get()
        try:
            return z.call(req)
        finally:
            self.q.put(z)

    def close(self):
        for z in self.zs:
            z.p.stdin.close()
            z.p.wait()


def compile_faults(x):
    """Specs carry rule lists under "faults"; the simulator wants plan text."""
    if isinstance(x, dict):
        y = {k: compile_faults(v) for k, v in x.items() if k != "faults"}
        if "faults" in x:
            y["plan"] = plan(x["faults"])
        return y
    if isinstance(x, list):
        return [compile_faults(v) for v in x]
    return x


class Tally:
    def __init__(self):
        self.runs = self.crashes = self.total_ops = self.concurrent = self.sched_points = 0
        self.faults, self.ops, self.probes = {}, {}, {}
        self.inter, self.logs, self.nontrivial = set(), set(), set()
        self.lock = threading.Lock()
        self.samples = []

    def add(self, spec, rep, probes=None):
        with self.lock:
            self.runs += 1
            sig = []
            faulty = False
            for st in rep["stages"]:
                if st["order"]:
                    self.inter.add(c.digest(st["order"]))
                    self.concurrent += 1
                    self.sched_points += len(st["order"])
                    faulty = True
                for p in st["procs"]:
                    if p["exit"] == 77:
                        self.crashes += 1
                        faulty = True
                    hits = list(p.get("hits") or [])
                    for r in p.get("runs") or []:
                        self.total_ops += r["total"]
                        for k, v in r["counts"].items():
                            self.ops[k] = self.ops.get(k, 0) + v
                        sig.append(r["hash"])
                        hits += r["hits"]
                    own = p["ret"].get("injected") if isinstance(p.get("ret"), dict) else None
                    hits += own if isinstance(own, list) else []
                    for op, what in hits:
                        k = op + ":" + what
                        self.faults[k] = self.faults.get(k, 0) + 1
                        faulty = True
                    if p.get("log"):
                        sig.append(p["log"])
                    sig.append(p.get("ret"))
            for k, v in (probes or {}).items():
                self.probes[k] = self.probes.get(k, 0) + int(v)
                faulty = faulty or (v and k != "plain")
            d = c.digest(sig)
            self.logs.add(d)
            if faulty:
                self.nontrivial.add(d)
                if len(self.samples) < 3:
                    self.samples.append(json.loads(json.dumps(spec["stages"], default=str)[:6000]) if len(
                        json.dumps(spec["stages"], default=str)) < 6000 else {"stages": len(spec["stages"])})

    def coverage(self, wall, rule, real, stub, extra=None):
        d = {"evaluations": self.runs, "distinct_nontrivial": len(self.nontrivial), "rule": rule,
             "samples": self.samples or ["none"], "exploration_wall_s": round(wall, 1),
             "faults_injected": dict(sorted(self.faults.items())), "fault_count": sum(self.faults.values()),
             "simulated_crashes": self.crashes, "file_operations": self.total_ops,
             "operations_by_kind": self.ops, "distinct_histories": len(self.logs),
             "distinctness_measure": "hash of the complete log of file operations, faults, crash points and results",
             "concurrent_histories": self.concurrent, "scheduling_decisions": self.sched_points,
             "distinct_interleavings": len(self.inter), "probes": dict(sorted(self.probes.items())),
             "simulated_time_s": round(self.total_ops * 1e-3, 3), "components_real": real, "components_stub": stub}
        d.update(extra or {})
        return d


# ------------------------------------------------------------------- driver
def shrink_candidates(spec):
    """Smaller specs: one list element of any faults/ops/procs list removed."""
    paths = []

    def walk(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("faults", "ops", "inject", "jobs") and isinstance(v, list):
                    paths.extend((path + (k,), i) for i in range(len(v)))
                walk(v, path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                walk(v, path + (i,))

    walk(spec["stages"], ("stages",))
    for path, i in reversed(paths):
        d = copy.deepcopy(spec)
        x = d
        for k in path:
            x = x[k]
        del x[i]
        yield d
    for si, st in enumerate(spec["stages"]):
        if len(st["procs"]) > 1 and st.get("switch", 0.5) > 0.03:
            d = copy.deepcopy(spec)
            d["stages"][si]["switch"] = st.get("switch", 0.5) / 3
            yield d


def shrink(spec, fails, budget=60):
    best, n = spec, 0
    progress = True
    while progress and n < budget:
        progress = False
        for d in shrink_candidates(best):
            n += 1
            if n > budget:
                break
            if fails(d):
                best, progress = d, True
                break
    return best, n


ORACLES = {}      # property id -> (modules, oracle(spec, rep))


def generic_problem(rep):
    """Ways for a simulated process to end that are never acceptable."""
    for st in rep["stages"]:
        for p in st["procs"]:
            if p["exit"] == 78:
                return ["no progress"], "more than 200000 file operations"
            if p["exit"] == 79:
                raise c.CheckError("scheduler lost a simulated process")
            if p["sig"] in (9, 24):
                return ["no progress"], "CPU limit exceeded"
            if p["sig"]:
                return ["process died", p["sig"]], "signal %d: %s" % (p["sig"], (st.get("out") or "")[-300:])
            if p["exit"] not in (0, 77, 78, 79):
                return ["process ended itself", p["exit"]], (st.get("out") or "")[-600:]
            if p.get("error"):
                return ["scenario error", p["error"].split(":")[0]], p["error"][:300] + (p.get("traceback") or "")[-600:]
    return None


def count_ops(pool, stages):
    """File operations of a history without faults: where faults can strike."""
    rep = pool.call(compile_faults({"stages": stages}))
    n = {"any": 0}
    for st in rep["stages"]:
        for p in st["procs"]:
            for r in p.get("runs") or []:
                n["any"] = max(n["any"], r["total"])
                for k, v in r["counts"].items():
                    n[k] = max(n.get(k, 0), v)
    return n


def drive(chk, specs, t0, rule, real, stub, probes=None, extra=None, limit=420, deep_limit=3000):
    """Runs every spec; violations are confirmed by re-execution, minimised and
    written as replay files.  A sample of runs is repeated to show that one
    seed is one execution."""
    modules, oracle = ORACLES[chk.pid]
    tally = Tally()
    try:
        pool = Pool(modules)
    except SetupProblem as e:
        chk.violation(["undisturbed calls fail"], "undisturbed calls fail: %s" % e, {"kind": "pysim", "spec": None})
        chk.coverage = tally.coverage(1.0, rule, real, stub, {})
        return tally
    if callable(specs):
        specs = specs(lambda stages: count_ops(pool, stages))

    def run(spec):
        rep = pool.call(compile_faults(spec))
        return rep, (generic_problem(rep) if not spec.get("own_endings") else None) or oracle(spec, rep)

    def one(a):
        i, spec = a
        rep, p = run(spec)
        same = None
        if i % 10 == 0:
            rep2, _ = run(spec)
            same = stable(rep) == stable(rep2)
        return spec, rep, p, same

    first, repeats, differ = {}, 0, 0
    t1 = time.time()
    try:
        for res in c.parallel(one, list(enumerate(specs)), deadline=t0 + (deep_limit if c.thorough() else limit)):
            if res is None:
                continue
            spec, rep, p, same = res
            tally.add(spec, rep, probes(spec, rep) if probes else None)
            if same is not None:
                repeats += 1
                differ += not same
            if p:
                first.setdefault(json.dumps(p[0]), []).append((spec, p))
        wall = time.time() - t1
        for sig, found in list(first.items())[:4]:
            s = json.loads(sig)

            def fails(d):
                q = run(d)[1]
                return q is not None and json.loads(json.dumps(q[0])) == s
            # a run is repeatable unless the code reads memory it never wrote: then some repetition shows it
            spec, p = next(((a, b) for a, b in found[:4] for _ in range(3) if fails(a)), (None, found[0][1]))
            if spec is None:
                c.log("not reproduced, dropped:", sig, p[1][:300])
                differ += 1
                continue
            small, n = shrink(spec, fails)
            q = run(small)[1] or p
            c.log("violation minimised in %d runs" % n)
            chk.violation(s, "%s: %s" % (" / ".join(map(str, s)), q[1]), {"kind": "pysim", "spec": small, "original": spec})
    finally:
        pool.close()
    e = {"repeated_runs": repeats, "repeats_that_differed": differ}
    e.update(extra(tally) if callable(extra) else (extra or {}))
    chk.coverage = tally.coverage(wall, rule, real, stub, e)
    return tally


def stable(rep):
    """A report without what the processes printed (a dying one prints addresses)."""
    return json.dumps([{k: v for k, v in st.items() if k != "out"} for st in rep["stages"]], sort_keys=True)


def replay(doc):
    c.build(*TARGETS)
    modules, oracle = ORACLES[doc["property"]]
    try:
        pool = Pool(modules, 1)
    except SetupProblem as e:
        print("reproduced: undisturbed calls fail:", e)
        return 1
    if doc["spec"] is None:
        pool.close()
        print("not reproduced")
        return 0
    try:
        rep = pool.call(compile_faults(doc["spec"]))
        rep2 = pool.call(compile_faults(doc["spec"]))
    finally:
        pool.close()
    p = (generic_problem(rep) if not doc["spec"].get("own_endings") else None) or oracle(doc["spec"], rep)
    print(json.dumps(rep, indent=1)[:6000])
    print("repeat identical:", stable(rep) == stable(rep2))
    if p:
        print("reproduced:", p[0], p[1])
        return 1
    print("not reproduced")
    return 0


TARGETS = ("simio", "_vmecpp", "_iosim")
