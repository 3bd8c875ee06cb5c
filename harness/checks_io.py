"""Checks C10..C16: files under storage faults, crashes and concurrent processes."""
import time

from . import common as c
from . import pysim
from .common import Check, rng_for, scale
from .pysim import ORACLES, TARGETS, drive

REAL = ["the Python package of /repo/src/vmecpp", "the C++ core and its pybind11 bindings",
        "netCDF, HDF5 and libc I/O on a real directory"]
STUB = ["outcome of file system calls, crashes, signals, wall clock, pid and OS randomness (decided by the simulator)"]
ERRS = ["EIO", "ENOSPC", "EDQUOT", "EACCES", "EMFILE", "EROFS"]


def point(rng, n):
    """An operation index among n: anywhere, or near either end."""
    x = rng.random()
    if x < 0.6 or n < 4:
        return rng.randrange(n + 1)
    return min(n, int(2 ** rng.uniform(0, 5)) - 1) if x < 0.8 else max(0, n - int(2 ** rng.uniform(0, 5)))


def some_faults(rng, counts, crash=0.25, signal=0.0, ops=("any", "open", "read", "write", "close", "rename", "unlink", "trunc")):
    """One to three rules at points that the fault-free history reaches
    (counts), or just beyond it (clean-up after a first fault)."""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        op = rng.choice([o for o in ops if counts.get(o) or o in ("any", "unlink")])
        k = point(rng, counts.get(op, 0)) if op != "unlink" else rng.randrange(2)
        x = rng.random()
        if x < crash:
            out.append({"op": op, "k": k, "act": rng.choice(["crash_before", "crash_after"])})
        elif x < crash + signal:
            out.append({"op": op, "k": k, "act": "signal", "err": 2})
        elif x < crash + signal + 0.2 and op in ("any", "write"):
            out.append({"op": "write", "k": point(rng, counts.get("write", 0)), "act": rng.choice(["short", "torn"] if crash else ["short"]),
                        "err": rng.choice(["ENOSPC", "EIO"])})
        else:
            out.append({"op": op, "k": k, "act": "err", "err": rng.choice(ERRS), "persist": rng.random() < 0.4})
    return out


def std(pid, specs, rule, assumptions, **kw):
    c.build(*TARGETS)
    t0 = time.time()
    chk = Check(pid)
    chk.assumptions = assumptions
    drive(chk, specs, t0, rule, kw.pop("real", REAL), kw.pop("stub", STUB), **kw)
    return chk.finish()


# ======================================================================= C10
C10_READ = ["axi", "asym", "free", "stell", "makegrid", "coils"]


def c10_specs(n, calib):
    def one(op):
        return [{"procs": [{"scn": "text.run", "args": {"ops": [op]}}]}]
    cnt = {"write": calib(one({"op": "write", "s": 8, "path": "a.txt"})),
           "read": calib(one({"op": "read", "put": 1, "s": 8, "path": "a.txt"}))}
    for name in C10_READ:
        cnt[name] = calib(one({"op": "load", "name": name, "path": "in.json"}))
    out = []
    for i in range(n):
        rng = rng_for("C10", i)
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            kind = rng.choice(["write", "write", "read", "load", "load", "load", "coils"])
            op = {"op": kind, "path": rng.choice(["a.txt", "b.txt", "sub/none.txt"] if kind != "load" else ["in.json", "x.json"]),
                  "s": rng.randrange(10 ** 6), "seed": rng.randrange(1, 10 ** 9), "faults": []}
            if kind == "read" and rng.random() < 0.7 and "sub" not in op["path"]:
                op["put"] = 1
            if kind == "load":
                op["name"] = rng.choice(C10_READ)
                if rng.random() < 0.6:
                    op["damage"] = rng.choice(["truncate", "truncate", "flip", "zeros", "dup", "token", "token"])
            if kind == "coils":
                op["path"] = rng.choice(["a.txt", "coils.x"])
                if rng.random() < 0.25:
                    op["damage"] = "number"
            if rng.random() < 0.6 and not op.get("damage"):
                c2 = cnt[op["name"] if kind == "load" else "read" if kind == "coils" else kind]
                op["faults"] = some_faults(rng, c2, crash=0, ops=("any", "open", "read", "read", "write", "close"))
            ops.append(op)
        out.append({"kind": "text", "stages": [{"procs": [{"scn": "text.run", "args": {"ops": ops}}]}]})
    return out


def c10_oracle(spec, rep):
    ops = spec["stages"][0]["procs"][0]["args"]["ops"]
    for op, o in zip(ops, rep["stages"][0]["procs"][0]["ret"]):
        what = "%s %s %s faults %s" % (op["op"], op.get("name", op["path"]), op.get("damage", ""), o["hit"])
        if o.get("escaped"):
            return ["failure is not returned as a status", op["op"]], "%s: %s" % (what, o["escaped"])
        if op["op"] in ("write", "read"):
            if o["err"] is None and not o["ok"]:
                return ["wrong contents reported as success", op["op"]], what
            if o["err"] and not o["injected"] and "sub/" not in op["path"] and not o.get("missing"):
                return ["failure without a fault", op["op"]], "%s: %s" % (what, o["err"])
            continue
        if op["op"] == "coils":
            if op.get("damage"):
                if o["err"] is None:
                    return ["number taken for a different one", "coils"], what
            elif o["err"] is None and not o["ok"]:
                return ["coil set differs from its file"], what
            elif o["err"] and not o["injected"]:
                return ["failure without a fault", "coils"], "%s: %s" % (what, o["err"])
            continue
        if not o["cwd"]:
            return ["working directory changed"], what
        if o["extra"] and not any(h[0] == "unlink" for h in o["hit"]):
            return ["file left behind by a reader"], "%s: %s" % (what, o["extra"])
        if o["unrep"] and o["err"] is None:
            return ["number taken for a different one", op["name"]], what
        if op.get("damage") in (None, "truncate"):
            if o["err"] is None and not o["same"]:
                return ["incomplete file taken for a valid input", op["name"]], what
            if o["err"] and not o["injected"] and not op.get("damage"):
                return ["failure without a fault", op["name"]], "%s: %s" % (what, o["err"])
    return None


ORACLES["C10"] = (["text"], c10_oracle)


def c10():
    return std("C10", lambda calib: c10_specs(scale(5000, 60000), calib),
               "history of 1-3 text writes, reads and input loads (JSON input, makegrid parameters, coils) on faulty storage and "
               "from damaged files; non-trivial: at least one fault or damaged file",
               ["Damage other than truncation may yield another valid input; only survival is required then."],
               probes=lambda spec, rep: {("damage:" + op["damage"]): 1 for op in spec["stages"][0]["procs"][0]["args"]["ops"]
                                         if op.get("damage")})


# ======================================================================= C11
H5CASES = ["axi", "axi", "asym", "stell", "stell_asym"]


def c11_specs(n, calib):
    cw = calib([{"procs": [{"scn": "h5.hist", "args": {"ops": [{"op": "save", "id": 0, "b": "axi", "s": 0, "path": "a.h5"}]}}]}])
    out = []
    for i in range(n):
        rng = rng_for("C11", i)
        stages, known, k = [], {}, 0
        for _ in range(rng.choice([1, 1, 2, 3])):            # processes one after the other
            ops = []
            for j in range(rng.choice([1, 2, 3])):
                what = rng.choice(["save", "load"]) if known else "save"
                path = rng.choice(["a.h5", "b.h5"]) if what == "save" else rng.choice(sorted(known))
                op = {"op": what, "path": path, "faults": [], "seed": rng.randrange(1, 10 ** 9), "id": k}
                if what == "save":
                    op.update(b=rng.choice(H5CASES), s=rng.choice([0, rng.randrange(1, 10 ** 7), rng.randrange(1, 10 ** 7)]))
                    known.setdefault(path, []).append([k, [op["b"], op["s"]]])
                else:
                    x = rng.random()
                    if x < 0.2:
                        op["drop"] = rng.randrange(10 ** 6)
                    elif x < 0.35:
                        op["cut"] = rng.choice([0.02, 0.3, 0.9, 0.999, rng.random()])
                    elif x < 0.4:
                        op["path"] = "missing.h5"
                k += 1
                ops.append(op)
            last = ops[-1]
            x = rng.random()
            if last["op"] == "load" and x < 0.3:
                last["faults"] = some_faults(rng, cw, crash=0, ops=("any", "open"))
            elif last["op"] == "save" and x < 0.35:
                last["faults"] = some_faults(rng, cw, crash=0, ops=("any", "open", "write", "write", "write", "close", "trunc", "rename", "unlink"))
            elif last["op"] == "save" and x < 0.7:
                o = rng.choice(["any", "any", "write"] + [x for x in ("close", "trunc", "rename") if cw.get(x)])
                last["faults"] = [{"op": o, "k": point(rng, cw[o] - 1), "act": rng.choice(["crash_before", "crash_after"])}]
                if rng.random() < 0.3:
                    last["faults"] = [{"op": "write", "k": point(rng, cw["write"]), "act": "torn", "err": "EIO"}]
            stages.append({"procs": [{"scn": "h5.hist", "args": {"ops": ops}}]})
        stages.append({"procs": [{"scn": "h5.inspect", "args": {"known": known, "again": [rng.choice(H5CASES), 0]}}]})
        out.append({"kind": "h5", "own_endings": 1, "stages": stages})
    return out


def c11_oracle(spec, rep):
    allowed, done = {}, {}
    ins = rep["stages"][-1]["procs"][0]
    faulted = [any(op["faults"] for op in st["procs"][0]["args"]["ops"]) for st in spec["stages"][:-1]]
    p = pysim.generic_problem({"stages": rep["stages"][-1:]})
    if p:
        return p
    ins = ins["ret"]
    for x in ins["notes"]:
        if x.get("done"):
            done[x["id"]] = x["ok"]
    for q, (st, r) in enumerate(zip(spec["stages"][:-1], rep["stages"])):
        ops, pr = st["procs"][0]["args"]["ops"], r["procs"][0]
        if not (pr["sig"] and faulted[q]):      # HDF5 itself may crash once the storage has failed
            p = pysim.generic_problem({"stages": [r]})
            if p:
                return p
        for i, op in enumerate(ops):
            path = op["path"]
            o = pr["ret"][i] if pr.get("ret") else None
            what = "%s %s faults %s" % (op["op"], path, o["hit"][:5] if o else "")
            old = allowed.get(path, {"absent"})
            if op["op"] == "save":
                if o and o["err"] is None:
                    if o["bad"]:
                        return ["saved file does not hold the result"], "%s: %s" % (what, o["bad"])
                    if o["reload"]:
                        return ["loaded result differs"], "%s: %s" % (what, o["reload"])
                if o and o["err"] and not o["injected"]:
                    return ["save failed without a fault"], "%s: %s" % (what, o["err"])
                me = "%s/%d" % (op["b"], op["s"])
                if o and o["err"] and o["left"] and not any(h[0] == "unlink" for h in o["hit"]):
                    return ["temporary file left behind"], "%s: %s" % (what, o["left"])
                # reported as done: the new result; as failed: what was there; process ended in between: either
                allowed[path] = old | {me} if op["id"] not in done else {me} if done[op["id"]] else old
            else:
                damaged = "drop" in op or op.get("cut")
                if damaged:
                    allowed[path] = old | {"error"}
                if o:
                    if o["exists"] is False:
                        allowed[path] = {"error", "absent"}
                        if o["err"] is None:
                            return ["unusable file accepted", "missing dataset" if "drop" in o else "cut" if op.get("cut") else "missing"], \
                                "%s %s" % (what, o.get("drop"))
                    elif o["err"] is None:
                        if o["got"] not in old:
                            return ["loaded result differs"], "%s: %s, allowed %s" % (what, o["got"], sorted(map(str, old)))
                    elif not o["injected"] and "error" not in old:
                        return ["load failed without a fault"], "%s: %s" % (what, o["err"])
    for path, got in ins["state"].items():
        if got not in allowed.get(path, {"absent"}):
            return ["file holds something else"], "%s holds %s, allowed %s" % (path, got, sorted(map(str, allowed.get(path, {"absent"}))))
    if ins["again"]:
        return ["saved file does not hold the result"], "after the faults: %s" % ins["again"]
    return None


ORACLES["C11"] = (["h5"], c11_oracle)


def c11():
    return std("C11", lambda calib: c11_specs(scale(700, 9000), calib),
               "history of saves and loads of complete results (real and with randomised values and sizes), damaged files, storage "
               "faults and a crash; then a fresh process identifies every file; non-trivial: at least one fault, crash or damage",
               ["Process-crash model: completed system calls survive a crash (no power-loss reordering)."])


# ======================================================================= C12
def c12_specs(n, calib):
    out = []
    counts = [calib([{"procs": [{"scn": "wout.save", "args": {"ops": [{"b": b, "s": 1, "path": "wout_a.nc"}]}}]}])
              for b in range(6)]
    for i in range(n):
        rng = rng_for("C12", i)
        kind = rng.choice(["hist", "hist", "crash", "crash", "conc", "conc"]) if i > 8 else ["hist", "crash", "conc"][i % 3]
        paths = ["wout_a.nc", "./wout_b.nc", "sub/wout_c.nc"]

        def obj():
            return {"b": rng.randrange(6), "s": rng.randrange(10 ** 6)}
        ops, known = [], {}
        for j in range(rng.choice([1, 2, 3])):
            op = dict(obj(), id=j, path=rng.choice(paths[:2]), faults=[], seed=rng.randrange(1, 10 ** 9))
            ops.append(op)
        if kind == "hist":
            for op in ops:
                if rng.random() < 0.75:
                    op["faults"] = some_faults(rng, counts[op["b"]], crash=0, signal=0.15)
            stages = [{"procs": [{"scn": "wout.save", "args": {"ops": ops}}]}]
        elif kind == "crash":
            last = ops[-1]
            cnt = counts[last["b"]]
            o = rng.choice(["any", "any", "write"] + [x for x in ("rename", "close", "open") if cnt.get(x)])
            last["faults"] = [{"op": o, "k": rng.randrange(max(1, cnt.get(o, 1))),
                               "act": rng.choice(["crash_before", "crash_after"])}]
            if rng.random() < 0.2:
                last["faults"].append({"op": "write", "k": point(rng, cnt["write"]), "act": "err", "err": "EIO"})
            stages = [{"procs": [{"scn": "wout.save", "args": {"ops": ops}}]}]
        else:
            m = rng.choice([2, 2, 3])
            procs = []
            same_path = rng.random() < 0.8
            for q in range(m):
                pr = {"scn": "wout.one", "args": dict(obj(), b=0, id=q, path=paths[0] if same_path else paths[q % 2]),
                      "seed": rng.choice([7, 7, rng.randrange(10 ** 6)]),
                      "pid": rng.choice([4242, 4242, 4300 + q]), "faults": []}
                if rng.random() < 0.35:
                    pr["faults"] = some_faults(rng, counts[0], crash=0.4)
                procs.append(pr)
            stages = [{"procs": [{"scn": "wout.save", "args": {"ops": ops}}]}] if rng.random() < 0.5 else []
            if not stages:
                ops = []
            stages.append({"procs": procs, "sched": rng.randrange(10 ** 9), "switch": rng.choice([0.02, 0.1, 0.5, 0.9])})
        for j, op in enumerate(ops):
            known.setdefault(op["path"], []).append([j, [op["b"], op["s"]]])
        if kind == "conc":
            for q, pr in enumerate(procs):
                known.setdefault(pr["args"]["path"], []).append([100 + q, [pr["args"]["b"], pr["args"]["s"]]])
        stages.append({"procs": [{"scn": "wout.inspect", "args": {"known": known, "again": rng.choice(paths[:2] + ["wout_z.nc"])}}]})
        out.append({"kind": kind, "stages": stages})
    return out


def c12_oracle(spec, rep):
    """Refinement against the trivial model: a path holds nothing or one saved object."""
    model = {}          # path -> acceptable contents
    conc = {}
    crashed = False
    for st, r in zip(spec["stages"], rep["stages"]):
        procs = list(zip(st["procs"], r["procs"]))
        if st["procs"][0]["scn"] == "wout.save":
            (sp, pr), = procs
            ops = sp["args"]["ops"]
            done = pr.get("ret") or []
            for op, o in zip(ops, done):
                path = op["path"]
                old = model.get(path, {"absent"})
                me = op["id"]
                hit = {h[0] for h in o["hit"]}
                acts = {h[1] for h in o["hit"]}
                other = [x for x in o["changed"] if x.lstrip("./") != path.lstrip("./") and x not in o["extra"]]
                if other:
                    return ["another file was changed"], "saving %s changed %s" % (path, other)
                if o["err"] is None:
                    if o["problems"]:
                        return ["saved file does not hold the object"], "%s after %s: %s" % (path, o["hit"], o["problems"][:8])
                    model[path] = {me}
                else:
                    if not o["injected"] and not o["refusable"]:
                        return ["save failed without a fault"], o["err"]
                    if path.lstrip("./") in [x.lstrip("./") for x in o["changed"]]:
                        if not ("signal" in acts and not o["problems"]):
                            return ["failed save changed the file"], "%s: %s, %s" % (path, o["err"], o["problems"][:4])
                        model[path] = {me}
                if o["extra"] and not ("unlink" in hit or ("signal" in acts and hit & {"open", "close"})):
                    return ["temporary file left behind"], "%s: %s, faults %s, error %s" % (path, o["extra"], o["hit"], o["err"])
            if pr["exit"] == 77:
                crashed = True
                op = ops[len([n for n in rep["stages"][-1]["procs"][0]["ret"]["notes"] if n.get("done") and "i" in n])]
                # results of completed steps are lost with the process: the journal says which succeeded
                for n in rep["stages"][-1]["procs"][0]["ret"]["notes"]:
                    if n.get("done") and n["ok"]:
                        model[ops[n["i"]]["path"]] = {ops[n["i"]]["id"]}
                model[op["path"]] = model.get(op["path"], {"absent"}) | {op["id"]}
        elif st["procs"][0]["scn"] == "wout.one":
            for q, (sp, pr) in enumerate(procs):
                path = sp["args"]["path"]
                e = conc.setdefault(path, {"ok": set(), "maybe": set(), "leak": False})
                if pr["exit"] == 77:
                    e["maybe"].add(100 + q)
                    crashed = True
                    continue
                o = pr["ret"]
                if o["err"] is None:
                    e["ok"].add(100 + q)
                else:
                    if not o["injected"] and not o["refusable"]:
                        return ["save failed without a fault"], "concurrent process %d: %s" % (q, o["err"])
                    if any(h[0] == "unlink" for x in pr["runs"] for h in x["hits"]):
                        crashed = True
            for path, e in conc.items():
                model[path] = (e["ok"] or model.get(path, {"absent"})) | e["maybe"]
        else:
            o = r["procs"][0]["ret"]
            for path, (got, probs) in o["state"].items():
                if got not in model.get(path, {"absent"}):
                    return ["file holds neither the old nor the new object"], "%s holds %s, allowed %s: %s" % (
                        path, got, sorted(map(str, model.get(path, {"absent"}))), probs[:6])
            if o["again"]:
                return ["saved file does not hold the object"], "after the faults: %s" % o["again"][:8]
            if not crashed:
                faulty = any(h[0] in ("unlink",) or h[1] == "signal" for s2 in rep["stages"] for p in s2["procs"]
                             for x in p.get("runs") or [] for h in x["hits"])
                extra = [f for f in o["files"] if f not in [p.lstrip("./") for p in o["state"]]]
                if extra and not faulty:
                    return ["temporary file left behind"], "%s" % extra
    return None


ORACLES["C12"] = (["wout"], c12_oracle)


def c12():
    return std("C12", lambda calib: c12_specs(scale(700, 12000), calib),
               "history of 1-3 saves over real solver outputs with randomised values, then read back through the package and "
               "through netCDF; non-trivial: at least one fault, crash point or concurrent saver",
               ["Process-crash model: completed system calls survive a crash (no power-loss reordering)."])


# ======================================================================= C13
READERS = ["bool", "int", "double", "char", "string", "array1", "array2", "array3"]


def c13_specs(n, calib):
    cnt = calib([{"procs": [{"scn": "nc.read", "args": {"ops": [{"path": "a.nc", "s": 5, "reads": [["array3", "v0"]] * 3}]}}]}])
    out = []
    for i in range(n):
        rng = rng_for("C13", i)
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            op = {"path": rng.choice(["a.nc", "b.nc"]), "s": rng.randrange(10 ** 7), "seed": rng.randrange(1, 10 ** 9), "faults": [],
                  "reads": [[rng.choice(READERS), rng.randrange(6) if rng.random() < 0.95 else "none"]
                            for _ in range(rng.choice([4, 16, 40]))]}
            if rng.random() < 0.5:
                op["faults"] = some_faults(rng, dict(cnt, read=12), crash=0, ops=("any", "open", "read", "read", "close"))
            ops.append(op)
        out.append({"kind": "nc", "stages": [{"procs": [{"scn": "nc.read", "args": {"ops": ops}}]}]})
    return out


def c13_oracle(spec, rep):
    for op, o in zip(spec["stages"][0]["procs"][0]["args"]["ops"], rep["stages"][0]["procs"][0]["ret"]):
        if o["bad"]:
            return ["NetCDF variable " + o["bad"][0][1], o["bad"][0][0]], "%s, faults %s" % (o["bad"][:5], o["hit"])
        if o["open"] and not o["injected"]:
            return ["file not opened"], str(o["open"])
    return None


ORACLES["C13"] = (["nc"], c13_oracle)


def c13():
    return std("C13", lambda calib: c13_specs(scale(6000, 80000), calib),
               "random NetCDF file (all formats, types, ranks, sizes) read by every typed reader, on faulty storage; "
               "non-trivial: at least one fault or one refused variable",
               ["A NetCDF-3 file that lost its tail is zero-filled by the netCDF library itself; that case is outside the property.",
                "Reading a non-integral number as an integer is left unspecified."],
               probes=lambda spec, rep: {"refused_reads": sum(o["errs"] for o in rep["stages"][0]["procs"][0].get("ret") or [])})


# ======================================================================= C14
def c14_specs(n, calib):
    cw = calib([{"procs": [{"scn": "nc.mgrid", "args": {"ops": [{"op": "write", "s": 3, "path": "m.nc", "a": 1}]}}]}])
    cr = calib([{"procs": [{"scn": "nc.mgrid", "args": {"ops": [{"op": "write", "s": 3, "path": "m.nc"},
                                                             {"op": "load", "p": 0, "s": 3, "path": "m.nc"}]}}]}])
    out = []
    for i in range(n):
        rng = rng_for("C14", i)
        ops, on = [], {}
        for _ in range(rng.choice([2, 3, 5, 7])):
            k = rng.choice(["write", "load", "load", "load", "fields", "fields", "fixed"]) if on else rng.choice(["write", "write", "fields"])
            op = {"op": k, "s": rng.randrange(10 ** 7), "seed": rng.randrange(1, 10 ** 9), "faults": []}
            if k == "write":
                op.update(path=rng.choice(["m.nc", "n.nc"]), a=int(rng.random() < 0.3))
                on[op["path"]] = op["s"]
            elif k == "load":
                op.update(path=rng.choice(sorted(on)), p=rng.randrange(2))
                op["s"] = on[op["path"]]
                x = rng.random()
                if x < 0.1:
                    op["ncur"] = rng.choice([1, 2, -1])
                elif x < 0.25:
                    op["bad"] = rng.choice(["drop", "drop", "shape", "rank", "text"])
                    on.pop(op["path"])
                elif x < 0.3:
                    op["path"] = "missing.nc"
                if rng.random() < 0.35:
                    op["faults"] = some_faults(rng, cr, crash=0, ops=("any", "open", "read", "close"))
            else:
                op["p"] = rng.randrange(2)
                x = rng.random()
                if k == "fields" and x < 0.1:
                    op["ncur"] = rng.choice([1, 2, -1])
                elif k == "fields" and x < 0.25:
                    op["bad"] = rng.choice(["short", "long", "rows"])
            ops.append(op)
        stages = [{"procs": [{"scn": "nc.mgrid", "args": {"ops": ops}}]}]
        if rng.random() < 0.3:
            # a write on failing storage as the last thing a process does
            w = {"op": "write", "s": rng.randrange(10 ** 7), "path": "m.nc", "a": 0, "seed": rng.randrange(1, 10 ** 9),
                 "faults": some_faults(rng, cw, crash=0, ops=("any", "open", "write", "write", "close", "sync"))}
            stages.append({"procs": [{"scn": "nc.mgrid", "args": {"ops": [w]}}]})
        out.append({"kind": "mgrid", "own_endings": 1, "stages": stages})
    return out


def c14_oracle(spec, rep):
    for st, r in zip(spec["stages"], rep["stages"]):
        pr = r["procs"][0]
        ops = st["procs"][0]["args"]["ops"]
        faulty_write = ops and ops[-1]["op"] == "write" and ops[-1]["faults"]
        if pr["sig"] == 6 and faulty_write:
            continue            # the writer stops the program on an I/O error
        p = pysim.generic_problem({"stages": [r]})
        if p:
            return p
        for op, o in zip(ops, pr["ret"]):
            what = "%s %s faults %s" % (op["op"], op.get("path", ""), o["hit"])
            if o["err"] is None:
                if o.get("wrong_currents") or op.get("bad") or not o.get("exists", True):
                    return ["unusable table accepted", op.get("bad") or "currents"], what
                if o["bad"]:
                    return ["table differs", op["op"]], "%s: %s" % (what, o["bad"][:6])
            elif not (o["injected"] or o.get("wrong_currents") or op.get("bad") or not o.get("exists", True)):
                return ["failure without a fault", op["op"]], "%s: %s" % (what, o["err"])
            if o.get("unloaded"):
                return ["provider forgot whether it is loaded", op["op"]], what
            if not o.get("interp", 0) <= 1e-9:
                return ["interpolated field differs"], "%s: %g, error %s" % (what, o["interp"], o["err"])
    return None


ORACLES["C14"] = (["nc"], c14_oracle)


def c14():
    return std("C14", lambda calib: c14_specs(scale(6000, 80000), calib),
               "history of table writes, loads from file and from memory into one or two providers, with unusable files, wrong "
               "current counts and storage faults; non-trivial: at least one fault or refused load",
               ["A writer that meets an I/O error may end the program (CHECK); it must not report success.",
                "A NetCDF-3 file that lost its tail is zero-filled by the netCDF library itself; that case is outside the property."],
               probes=lambda spec, rep: {"refused_loads": sum(o["op"] == "load" and o["err"] is not None for s in rep["stages"]
                                                              for o in s["procs"][0].get("ret") or []),
                                         "loads": sum(o["op"] == "load" for s in rep["stages"] for o in s["procs"][0].get("ret") or [])})


# ======================================================================= C23
def c23_specs(n, calib):
    def one(op):
        return [{"procs": [{"scn": "prog.hist", "args": {"ops": [op]}}]}]
    runs = {"vmec_standalone": {"prog": "vmec_standalone", "name": "axi", "s": 0, "in": "a.json"},
            "makegrid": {"prog": "makegrid", "params": "p.json", "coils": "coils.a", "s": 2, "s2": 0}}
    cnt = {k: calib(one(v)) for k, v in runs.items()}
    out = []
    for i in range(n):
        rng = rng_for("C23", i)
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            prog = rng.choice(["vmec_standalone", "vmec_standalone", "makegrid"])
            op = {"prog": prog, "s": rng.choice([0, rng.randrange(1, 10 ** 6)]), "seed": rng.randrange(1, 10 ** 9), "faults": []}
            if prog == "makegrid":
                op.update(params=rng.choice(["p.json", "p.json", "sub/p.json", "p.txt"] if rng.random() < 0.2 else ["p.json", "sub/q.json"]),
                          coils=rng.choice(["coils.a", "coils.a", "coils.b.c", "sub/coils.x"] + (["acoils.a", "coils"] if rng.random() < 0.2 else [])),
                          s2=rng.randrange(4))
            else:
                op.update(name=rng.choice(["axi", "axi", "axi", "axi_mg", "asym", "stell", "axi_broken"]),
                          t=rng.choice([None, None, "1", "1", rng.choice(["0", "-1", "x"])]))
                op["in"] = rng.choice(["a.json", "a.json", "b.json", "sub/c.json", "noext", "x.json.json", "case.v2", "a.b.json"])
            x = rng.random()
            if x < 0.15:
                op["bad"] = [rng.randrange(2 if prog == "makegrid" else 1), rng.choice(["missing", "cut", "cut", "zeros"])]
            elif x < 0.18:
                op["extra"] = "surplus"
            elif x < 0.65:
                op["faults"] = some_faults(rng, cnt[prog], crash=0.15)
            ops.append(op)
        out.append({"kind": "prog", "stages": [{"procs": [{"scn": "prog.hist", "args": {"ops": ops}}]}]})
    return out


def c23_oracle(spec, rep):
    ops, faulty = spec["stages"][0]["procs"][0]["args"]["ops"], False
    for op, o in zip(ops, rep["stages"][0]["procs"][0]["ret"]):
        prog = op["prog"]
        faulty = faulty or bool(op["faults"])
        what = "%s %s: exit %s signal %s, file %s, library says %s" % (
            prog, {k: v for k, v in op.items() if k in ("in", "name", "s", "s2", "params", "coils", "t", "bad", "extra", "faults")},
            o["exit"], o["sig"], o["is"], o["lib"] or "fine")
        usable = (o["lib"] is None and not op.get("extra") and op.get("t") not in ("0", "-1", "x")
                  and (prog != "makegrid" or (op["params"].endswith(".json") and op["coils"].rpartition("/")[2].startswith("coils."))))
        if op.get("extra") == "surplus" and prog == "vmec_standalone" and op.get("t") is None:
            usable = False
        if o["touched"] and not (faulty and all(x.endswith(".tmp") for x in o["touched"])):
            return ["another file changed", prog], "%s: %s" % (what, o["touched"])
        if o["exit"] == 0:
            if not usable:
                return ["success reported for a command that cannot succeed", prog], what
            if o["is"] != "right" and not (o["is"] == "old" and o["was_right"]):
                return ["success reported without the result on disk", prog], "%s %s" % (what, o.get("differs", ""))
            continue
        if usable and not op["faults"]:
            return ["failure of a command that can succeed", prog], what
        if usable and o.get("injected") == 0 and o["exit"] != 77:
            return ["failure without a fault", prog], what
        if prog == "vmec_standalone" and o["is"] not in ("absent", "old", "right"):
            return ["previous result lost or damaged", prog], what
    return None


ORACLES["C23"] = (["prog"], c23_oracle)


def c23():
    return std("C23", lambda calib: c23_specs(scale(2000, 30000), calib),
               "history of 1-3 runs of the stand-alone programs over inputs good and bad, on faulty storage; each compared with the library "
               "call on the same files; non-trivial: at least one fault, crash or unusable command",
               ["A program that dies inside HDF5 or netCDF after an injected failure counts as having reported an error."],
               probes=lambda spec, rep: dict([("program:" + op["prog"], 1) for op in spec["stages"][0]["procs"][0]["args"]["ops"]] +
                                             [("ended:%s/%s" % (o["exit"], o["sig"]), 1) for o in rep["stages"][0]["procs"][0].get("ret") or []]))
