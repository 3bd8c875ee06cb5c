"""Checks C07, C15, C16, C17, C21, C22: input files and what users build on the solver."""
from .checks_io import some_faults, std
from .common import rng_for, scale
from .pysim import ORACLES

REAL = ["VmecInput, ensure_*_input and vmecpp._util of /repo/src/vmecpp", "the C++ JSON reader and its pybind11 bindings",
        "libc and CPython I/O on a real directory"]
STUB = ["outcome of file system calls, crashes, signals, clock, pid and OS randomness (decided by the simulator)"]


def collect(spec, rep):
    """Problems found by the scenarios themselves."""
    for st in rep["stages"]:
        for p in st["procs"]:
            if p["exit"] == 77:
                continue
            pr = (p.get("ret") or {}).get("problems")
            if pr:
                return [pr[0].split(":")[0] if spec["kind"] != "convert" else pr[0].split("): ", 1)[-1].split(":")[0].split(",")[0]], "; ".join(pr)[:900]
    return None


def infos(spec, rep):
    d = {}
    for st in rep["stages"]:
        for p in st["procs"]:
            for k, v in ((p.get("ret") or {}).get("info") or {}).items():
                d[k] = d.get(k, 0) + int(v)
    return d


# ======================================================================= C15
def c15_specs(n, calib):
    cs = calib([{"procs": [{"scn": "pyio.c15", "args": {"ops": [{"op": "save", "b": 1, "s": 5, "path": "a.json"}]}}]}])
    cl = calib([{"procs": [{"scn": "pyio.c15", "args": {"ops": [{"op": "save", "b": 1, "s": 5, "path": "a.json"},
                                                                {"op": "load", "path": "a.json"}]}}]}])
    out = []
    for i in range(n):
        rng = rng_for("C15", i)
        kind = rng.choice(["plain", "faults", "faults", "crash"])
        ops = []
        paths = ["a.json", "sub dir.json", "input.b"]
        for _ in range(rng.choice([1, 2, 3, 5])):
            saved = sorted({o["path"] for o in ops})
            if saved and rng.random() < 0.35:
                op = {"op": "load", "path": rng.choice(saved), "edit": rng.choice([0, rng.randrange(1, 10 ** 6)])}
            else:
                op = {"op": "save", "b": rng.randrange(8), "s": rng.randrange(10 ** 7), "path": rng.choice(paths), "str": rng.randrange(2),
                      "indent": rng.choice([None, None, 2, 4])}
            if kind == "faults" and rng.random() < 0.6:
                op["faults"] = some_faults(rng, cl if op["op"] == "load" else cs, crash=0, signal=0.0 if op["op"] == "load" else 0.1)
            op["seed"] = rng.randrange(1, 10 ** 9)
            ops.append(op)
        stages = [{"procs": [{"scn": "pyio.c15", "args": {"ops": ops}}]}]
        if kind == "crash":
            o = [x for x in ops if x["op"] == "save"][-1]
            del ops[ops.index(o) + 1:]
            o["faults"] = [{"op": rng.choice(["any", "write"]), "k": rng.randrange(max(1, cs["any"])),
                            "act": rng.choice(["crash_before", "crash_after", "torn"]), "err": "EIO"}]
            stages.append({"procs": [{"scn": "pyio.c15_after", "args": {"ops": ops}}]})
        out.append({"kind": "input", "stages": stages})
    return out


ORACLES["C15"] = (["pyio"], collect)


def c15():
    return std("C15", lambda calib: c15_specs(scale(4000, 60000), calib),
               "history of 1-5 saves and loads of randomised inputs (all fields), with I/O errors, short and torn writes, interrupts, or a "
               "crash and a new process; non-trivial: a fault, crash point or more than one operation",
               ["Process-crash model: completed system calls survive a crash.", "NaN and infinite values are not valid inputs."],
               real=REAL, stub=STUB, probes=infos)


# ======================================================================= C16
def c16_op(rng, cnt, faults):
    what = rng.choice(["from_file", "i2j", "ensure_json", "ensure_json", "ensure_indata", "ensure_indata"])
    kind = "json" if what == "ensure_indata" and rng.random() < 0.85 else ("indata" if rng.random() < 0.85 or what == "i2j" else "json")
    base = rng.choice(["w7x", "a.b", "case_1"])
    name = "input." + base if kind == "indata" else rng.choice([base + ".json", "input." + base + ".json"])
    op = {"op": what, "in": kind, "name": name, "b": rng.randrange(8), "s": rng.randrange(10 ** 7), "cd": rng.randrange(2), "rel": rng.randrange(2),
          "indent": rng.choice([None, 2]), "seed": rng.randrange(1, 10 ** 9)}
    if what == "i2j":
        op["mgrid"] = rng.randrange(2)
        op["out"] = rng.choice([None, "o.json", "../o2.json" if op["cd"] else "work/o2.json"])
    if what.startswith("ensure") and rng.random() < 0.3:
        op["body"] = rng.choice(["value", "interrupt", "exit"])
    if kind == "indata" and rng.random() < 0.35:
        op["conv"] = {"act": rng.choice(["fail", "partial", "nothing", "interrupt", "oserror"]), "code": rng.choice([1, 2, 12, -9])}
    if faults and rng.random() < 0.6:
        op["faults"] = some_faults(rng, cnt[what], crash=0)
    return op


def c16_specs(n, calib):
    cnt = {}
    for w in ("from_file", "i2j", "ensure_json", "ensure_indata"):
        cnt[w] = calib([{"procs": [{"scn": "pyio.c16", "args": {"ops": [
            {"op": w, "in": "json" if w == "ensure_indata" else "indata", "name": "a.json" if w == "ensure_indata" else "input.a", "b": 1, "s": 5}]}}]}])
    out = []
    for i in range(n):
        rng = rng_for("C16", i)
        if rng.random() < 0.25:
            # several processes on one input, as under mpirun
            op = c16_op(rng, cnt, False)
            while op["op"] == "i2j":
                op = c16_op(rng, cnt, False)
            op.pop("conv", None)
            m = rng.choice([2, 3])
            procs = []
            for q in range(m):
                o = dict(op, cd=rng.randrange(2), rel=rng.randrange(2))
                o.pop("body", None)
                if rng.random() < 0.2 and o["op"].startswith("ensure"):
                    o["body"] = "value"
                if rng.random() < 0.2 and o["in"] == "indata" and o["op"] != "ensure_indata":
                    o["conv"] = {"act": rng.choice(["fail", "partial", "nothing"]), "code": 2}
                procs.append({"scn": "pyio.c16", "args": {"ops": [o], "private": False}, "pid": 5000 + q,
                              "seed": rng.choice([7, rng.randrange(10 ** 6)])})
                o["seed"] = procs[-1]["seed"]
            # the input exists before the processes start
            first = {"scn": "pyio.c16", "args": {"ops": [dict(op, op="ensure_indata" if op["in"] == "indata" else "ensure_json", body=None)]}}
            out.append({"kind": "convert", "stages": [
                {"procs": [first]}, {"procs": procs, "sched": rng.randrange(10 ** 9), "switch": rng.choice([0.02, 0.1, 0.5, 0.9])},
                {"procs": [{"scn": "pyio.c16_after", "args": {"expect": ["in/" + op["name"]]}}]}]})
            continue
        ops = [c16_op(rng, cnt, True) for _ in range(rng.choice([1, 1, 2, 3]))]
        out.append({"kind": "convert", "stages": [{"procs": [{"scn": "pyio.c16", "args": {"ops": ops}}]}]})
    return out


ORACLES["C16"] = (["pyio"], collect)


def c16():
    return std("C16", lambda calib: c16_specs(scale(4000, 60000), calib),
               "history of 1-3 conversions with I/O errors, failing, killed or silent converters and failing users, or 2-3 interleaved "
               "processes converting one input; non-trivial: a fault, a failing converter or body, or an interleaving",
               ["The Fortran converter indata2json is not part of this build; it is replaced by a stand-in.",
                "When the removal of a temporary itself fails, the temporary may stay."],
               real=REAL, stub=STUB + ["the indata2json program"], probes=infos)


# ====================================================== solves seen from above
CORE = ["outcome of chosen solves at the entry of the C++ core, and of file system calls (decided by the simulator)"]
PKG = ["the Python package of /repo/src/vmecpp", "the C++ core and its pybind11 bindings"]
RES = {"axi": (6, 0), "stell": (4, 2), "asym": (5, 0), "stell_asym": (4, 2)}


def single(kind, scn, args):
    return {"kind": kind, "stages": [{"procs": [{"scn": scn, "args": args}]}]}


def c07_specs(n, calib):
    out = []
    for i in range(n):
        rng = rng_for("C07", i)
        a = {"case": rng.choice(list(RES)), "ns": rng.choice([5, 7]), "axis": rng.choice(["zero", "shift", "shift", "good"]),
             "eps": rng.choice([0.01, 0.05, 0.2, 0.4]), "s": rng.randrange(10 ** 9)}
        if rng.random() < 0.3:
            a["schedule"] = [3, a["ns"]] if rng.random() < 0.5 else [4, a["ns"]]
        out.append(single("axis", "flow.c07", a))
    return out


ORACLES["C07"] = (["flow"], collect)


def c07():
    return std("C07", lambda calib: c07_specs(scale(1200, 15000), calib),
               "a solve from a missing, displaced or already converged axis guess, single or multi grid, symmetric or not; "
               "non-trivial: the guess differs from the reference run's",
               ["Guesses are displaced by at most 0.4 minor radii per coefficient."], real=PKG, stub=["the axis guess"],
               probes=lambda sp, rep: dict(infos(sp, rep), **{"axis:" + sp["stages"][0]["procs"][0]["args"]["axis"]: 1}))


def c17_specs(n, calib):
    out = []
    for i in range(n):
        rng = rng_for("C17", i)
        case = rng.choice(list(RES) + ["free"])
        mp, nt = RES.get(case, (4, 2))
        steps = rng.choice([1, 2, 2, 3])
        ns = sorted(rng.choice([5, 5, 7]) for _ in range(steps))
        a = {"case": case, "ns": ns, "niter": [rng.choice([3000, 2500, 3500]) for _ in ns] if rng.random() < 0.75 else [40 + k for k in range(len(ns))],
             "nstep": rng.choice([3, 10, 200]), "nvacskip": rng.choice([1, 3, 6]), "threads": rng.choice([1, 1, 4, None]),
             "ftol": [rng.choice([1e-4, 1e-6, 1e-8]) for _ in ns[1:]] + [rng.choice([1e-11, 1e-11, 1e-7])]}

        def sched(full, lo):
            x = rng.random()
            if x < 0.25:
                return full
            last = full if x < 0.8 else max(lo, full - rng.randrange(2))
            k = steps if rng.random() < 0.93 else steps + rng.choice([-1, 1])
            lst = [max(lo, last - rng.randrange(2)) for _ in range(max(1, k) - 1)]
            return (sorted(lst) if rng.random() < 0.6 else lst) + [last]
        a["mpol"], a["ntor"] = sched(mp, 3), sched(nt, 0 if nt == 0 else 1)
        if case == "free":
            a["ftol"] = [rng.choice([1e-4, 1e-6]) for _ in ns[1:]] + [1e-8]
        if case != "free" and rng.random() < 0.3 and (isinstance(a["mpol"], list) or isinstance(a["ntor"], list)):
            a["restart"] = rng.choice([5, 7])
        if rng.random() < 0.5:
            a["fail"] = [{"k": rng.randrange(steps), "act": rng.choice(["runtime", "interrupt", "memory", "value"])}]
        out.append(single("continuation", "flow.c17", a))
    return out


ORACLES["C17"] = (["flow"], collect)


def c17():
    return std("C17", lambda calib: c17_specs(scale(1200, 15000), calib),
               "a continuation run of 1-3 steps with an injected failure at any solve, then again; non-trivial: at least two steps or a failure",
               ["Where the solver itself gives up in a step, only the error and the absence of further solves are required."],
               real=PKG, stub=CORE, probes=infos)


def c21_specs(n, calib):
    out = []
    for i in range(n):
        rng = rng_for("C21", i)
        ops = []
        for _ in range(rng.choice([2, 3, 5, 8, 12])):
            o = rng.choice(["get"] * 6 + ["run"] * 4 + ["shape"] * 3 + ["vector", "dof", "dof", "surface", "same_surface", "resolution", "input", "wout"])
            op = {"op": o}
            if o in ("get", "run"):
                if rng.random() < 0.25:
                    op["fail"] = rng.choice(["runtime", "runtime", "interrupt", "memory"])
                if rng.random() < 0.2:
                    op["faults"] = [{"op": rng.choice(["any", "write", "open", "rename", "close"]), "k": rng.randrange(12), "act": "err",
                                     "err": rng.choice(["EIO", "ENOSPC"]), "persist": True}]
                    op["seed"] = rng.randrange(1, 10 ** 9)
            if o == "get":
                op["q"] = rng.choice(["aspect", "volume", "iota_axis", "iota_edge", "mean_iota", "mean_shear", "vacuum_well", "external_current"])
            if o == "run":
                op["hot"] = rng.randrange(2)
                if rng.random() < 0.2:
                    op["threads"] = rng.choice([2, 5])
            if o == "shape":
                op.update(k=rng.randrange(2), which=rng.choice(["rc", "zs"]), eps=rng.choice([1e-3, -1e-3, 5e-3, 0.05, 1e-12]))
            if o in ("vector", "surface"):
                op.update(eps=rng.choice([1e-3, -2e-3]), touch_old=rng.randrange(2))
            if o == "dof":
                op.update(name=rng.choice(["phiedge", "curtor", "gamma", "tcon0", "delt"]), eps=rng.choice([-0.05, -0.02, -0.2]))
            if o == "resolution":
                op.update(dm=rng.choice([-1, 0, 1]), dn=rng.choice([0, 0, 1, -1]))
            if o == "input" and rng.random() < 0.4:
                op["faults"] = [{"op": rng.choice(["open", "write", "close"]), "k": rng.randrange(2), "act": "err", "err": "ENOSPC", "persist": True}]
            ops.append(op)
        out.append(single("wrapper", "flow.c21", {"case": rng.choice(list(RES)), "ns": rng.choice([[5], [5, 7], [3, 5]]), "s": rng.randrange(10 ** 9),
                                                  "keep": int(rng.random() < 0.4), "ops": ops}))
    return out


ORACLES["C21"] = (["flow"], collect)


def c21():
    return std("C21", lambda calib: c21_specs(scale(700, 10000), calib),
               "history of 2-12 calls on the wrapper with failing solves and failing files; non-trivial: more than one call that needs a result",
               ["Direct assignment to attributes of indata is not seen by the wrapper (documented SIMSOPT behaviour) and not part of the histories."],
               real=PKG + ["SIMSOPT"], stub=CORE, probes=infos)


def c22_specs(n, calib):
    cnt = calib(single("cli", "flow.c22", {"ops": [{"cmd": "run", "case": "axi", "ns": 5, "niter": 2000, "name": "a.json", "mode": "quiet"}]})["stages"])
    out = []
    for i in range(n):
        rng = rng_for("C22", i)
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            op = {"cmd": rng.choice(["run", "run", "run", "convert"]), "case": rng.choice(list(RES)), "ns": rng.choice([5, 7]),
                  "niter": rng.choice([2000, 2000, 2000, 20]), "name": rng.choice(["a.json", "input.b.json", "w7x_x.1.json"]), "dir": rng.randrange(2),
                  "mode": rng.choice(["quiet", "legacy", "progress", ""]), "threads": rng.choice([None, 1, 3, 3, 0, -1]),
                  "tflag": rng.choice(["-t", "--max-threads"]), "seed": rng.randrange(1, 10 ** 9)}
            x = rng.random()
            if x < 0.1:
                op["broken"] = 1
            elif x < 0.2:
                op["missing"] = 1
            elif x < 0.35:
                op["fail"] = rng.choice(["runtime", "interrupt", "memory"])
            elif x < 0.75:
                op["faults"] = some_faults(rng, cnt, crash=0)
            ops.append(op)
        out.append(single("cli", "flow.c22", {"ops": ops}))
    return out


ORACLES["C22"] = (["flow"], collect)


def c22():
    return std("C22", lambda calib: c22_specs(scale(1500, 20000), calib),
               "history of 1-3 command lines with failing solves, unusable inputs and I/O errors at any operation; non-trivial: a fault or more than one command",
               ["The version number of the installed package is a stand-in (the package is not installed here)."],
               real=PKG + ["vmecpp.__main__"], stub=CORE, probes=infos)


# ======================================================================= C09
def c09_specs(n, calib):
    out = []
    for i in range(n):
        rng = rng_for("C09", i)
        case = rng.choice(["axi", "axi", "asym", "stell", "stell", "free", "only_coils"])
        how = rng.choice(["plain", "plain", "multi", "fail"] + ([] if case in ("free", "only_coils") else ["hot", "continuation"]))
        a = {"case": case, "how": how, "nstep": rng.choice([1, 2, 5, 10, 200]), "mode": rng.choice([0, 0, 1, 2, 3]), "sigs": []}
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            a["sigs"].append({"at": rng.choice([0.0, 0.999999, rng.random(), rng.random(), rng.random() ** 3]),
                              "kind": rng.choice(["int", "int", "custom", "note"]) if not a["sigs"] else "note"})
        if rng.random() < 0.4:
            a["work"] = rng.choice(["solve", "gc"])
        if a.get("work") == "solve" and len(a["sigs"]) > 1:
            a["sigs"][0]["kind"] = "note"
        out.append(single("signal", "sig.c09", a))
    return out


ORACLES["C09"] = (["sig"], collect)


def c09():
    return std("C09", lambda calib: c09_specs(scale(900, 12000), calib),
               "a call of vmecpp.run (plain, multi-grid, hot-restarted, continuation, failing; fixed or free boundary; every output mode) with one to "
               "three signals at seeded points of the solve whose handlers raise, return or solve; non-trivial: a signal was delivered",
               ["One solver thread (several are C05); signals arrive at barriers of the solver."], real=PKG,
               stub=["arrival of signals (decided by the simulator)"], probes=infos)


# ======================================================================= C20
def c20_specs(n, calib):
    out = []
    for i in range(n):
        rng = rng_for("C20", i)
        case = rng.choice(["axi", "axi", "asym", "stell", "stell_asym", "free", "only_coils"])
        ops = []
        for _ in range(rng.choice([2, 4, 6, 10])):
            o = rng.choice(["solve", "solve", "carry", "carry", "edit", "edit", "drop"])
            op = {"op": o, "k": rng.randrange(6)}
            if o == "solve":
                op.update(t=rng.randrange(6), r=rng.randrange(6), hot=int(rng.random() < 0.5))
            elif o in ("carry", "edit"):
                op["kind"] = rng.choice(["result", "result", "input"] + (["table"] * 3 if case in ("free", "only_coils") else ["table"]))
                op["how"] = rng.choice(["json", "pickle", "deepcopy", "model_copy", "dump", "file"])
                op["keep"] = rng.randrange(2)
            ops.append(op)
        out.append(single("values", "values.c20", {"case": case, "s": rng.randrange(10 ** 9), "ops": ops}))
    return out


ORACLES["C20"] = (["values"], collect)


def c20():
    return std("C20", lambda calib: c20_specs(scale(800, 12000), calib),
               "history of 2-10 solves, transports (JSON, pickle, copies, files), edits and deletions over a pool of inputs, results and field tables; "
               "each solve is repeated in another process on objects rebuilt from the values; non-trivial: at least one solve or transport",
               ["A result shares the input object it was made from; the histories separate them before editing the input."],
               real=PKG, stub=["second process of each solve (forked, objects rebuilt from plain values)"], probes=infos)
