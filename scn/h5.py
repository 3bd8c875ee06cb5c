"""C11 complete results in HDF5 files."""
import json
import os
import random

import numpy as np

import _iosim
from scn import base

NAMES = ["axi", "asym", "stell", "stell_asym"]
OQ, DUMP, BYTES = {}, {}, {}
# Datasets that older files may lack, or that another dataset's value switches on or sizes.
FIXED = ["indata/lasym", "indata/mpol", "indata/ntor", "indata/free_boundary_method", "indata/iteration_style",
         "indata/rbc", "indata/zbs", "indata/rbs", "indata/zbc", "wout/lasym", "wout/ns", "wout/mnmax", "wout/mnmax_nyq", "wout/lfreeb", "wout/nextcur", "wout/extcur"]


def prepare():
    import tempfile
    _iosim.h5_quiet()
    with tempfile.TemporaryDirectory() as d:
        for n in NAMES:
            OQ[n] = _iosim.oq_run(json.dumps(base.case(n)))
            code, msg = _iosim.oq_save(OQ[n], d + "/x.h5")
            if code:
                raise RuntimeError(msg)
            DUMP[n] = _iosim.h5_dump(d + "/x.h5")
            BYTES[n] = open(d + "/x.h5", "rb").read()


def variant(name, seed):
    """Edits of the datasets of a result: other values and other sizes."""
    rng = random.Random(seed)
    g = np.random.default_rng(seed)
    out = {}
    resize = rng.random() < 0.5
    frac = rng.choice([0.05, 0.5, 1.0])
    for k, (rank, dims, kind, val) in sorted(DUMP[name].items()):
        if k in FIXED or rng.random() > frac:
            continue
        dims = list(dims)
        if resize and not (k.startswith("wout/") and rank == 2):      # those sizes say which layout a file has
            dims = [rng.choice([0, 1, 2, 3, 7]) if rng.random() < 0.3 else x for x in dims]
        n = int(np.prod(dims, dtype=int))
        if kind == "f":
            v = g.standard_normal(n) * 10.0 ** g.integers(-30, 30, n)
            if rng.random() < 0.1 and n:
                v[rng.randrange(n)] = rng.choice([0.0, -0.0, np.inf, -np.inf, 5e-324, 1.7976931348623157e308])
            val = v.tobytes()
        elif kind == "i":
            val = g.integers(-2 ** 31, 2 ** 31, n).astype("f8").tobytes()
        elif kind == "b":
            val = g.integers(0, 2, n).astype("f8").tobytes()
        else:
            val = ["".join(rng.choice("abcXYZ _-/.é0") for _ in range(rng.choice([0, 1, 5, 300]))) for _ in range(n)]
        out[k] = (rank, dims, kind, val)
    return out


def build(name, seed):
    """A result object and the datasets its file must hold."""
    if not seed:
        return OQ[name], DUMP[name]
    path = os.environ["TMPDIR"] + "/seed.h5"
    with open(path, "wb") as f:
        f.write(BYTES[name])
    e = variant(name, seed)
    if _iosim.h5_edit(path, e):
        raise RuntimeError("cannot prepare the file")
    want = dict(DUMP[name])
    want.update(e)
    code, msg, o = _iosim.oq_load(path)
    os.unlink(path)
    if code:
        raise RuntimeError("cannot load the prepared file: " + msg)
    return o, want


def norm(d):
    return {k: (v[0], list(v[1]), v[2], v[3]) for k, v in d.items()}


def dump_diff(path, want):
    got = _iosim.h5_dump(path)
    if got is None:
        return ["unreadable"]
    a, b = norm(got), norm(want)
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def attempt(fn, *a):
    try:
        r = fn(*a)
    except BaseException as e:  # noqa: BLE001
        return "%s: %s" % (type(e).__name__, str(e)[:80]), None
    return (r[1] or "status %d" % r[0], None) if r[0] else (None, r[2] if len(r) > 2 else True)


def contents(obj):
    """All values of a result, by way of a file (comparing results of different sizes directly is undefined)."""
    path = os.environ["TMPDIR"] + "/id.h5"
    code, msg = _iosim.oq_save(obj, path)
    d = _iosim.h5_dump(path)
    os.unlink(path)
    return norm(d)


def identify(back, cands):
    d = contents(back)
    for _, (b, s) in cands:
        obj, want = build(b, s)
        if d == norm(want) and not _iosim.oq_diff(obj, back):
            return "%s/%d" % (b, s)
    return "other"


def hist(ctx, a):
    """Saves and loads of one process; the last one may meet faults or a crash."""
    out = []
    for op in a["ops"]:
        o = {"op": op["op"]}
        path = op["path"]
        if op["op"] == "save":
            obj, want = build(op["b"], op["s"])
            ctx.note({"id": op["id"], "b": op["b"], "s": op["s"]})
            before = {path} | set(os.listdir("."))
            with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                err, _ = attempt(_iosim.oq_save, obj, path)
            ctx.note({"id": op["id"], "done": 1, "ok": err is None})
            o["left"] = sorted(set(os.listdir(".")) - before)
            if err is None:
                o["bad"] = dump_diff(path, want)[:8]
                e, back = attempt(_iosim.oq_load, path)
                o["reload"] = e or sorted(k for k, v in contents(back).items() if v != norm(want).get(k)) or _iosim.oq_diff(obj, back)
        else:
            o["exists"] = os.path.exists(path)
            if op.get("drop") is not None and o["exists"]:
                d = _iosim.h5_dump(path)
                names = sorted(k for k in d or {} if k.split("/")[-1] not in OPTIONAL)
                if names:
                    o["drop"] = names[op["drop"] % len(names)]
                    if _iosim.h5_edit(path, {o["drop"]: None}):
                        raise RuntimeError("cannot drop a dataset")
                    o["exists"] = False
            if op.get("cut") and o["exists"]:
                os.truncate(path, int(os.path.getsize(path) * op["cut"]))
                o["exists"] = False
            with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                err, back = attempt(_iosim.oq_load, path)
            if err is None:
                o["got"] = identify(back, [[n["id"], (n["b"], n["s"])] for n in ctx.notes() if "b" in n])
        st = ctx.runs[-1]
        o.update(err=err, injected=st["injected"], hit=st["hits"])
        out.append(o)
    return out


# read only if present, so that files of earlier versions load
OPTIONAL = ["mpol_geometry", "ntor_geometry", "iteration_style", "return_outputs_even_if_not_converged", "currumnc", "currvmnc",
            "currumns", "currvmns", "nextcur", "extcur", "bdotb", "input_extension", "lrfp", "itfsq", "fsqt", "force_residual_r",
            "force_residual_z", "force_residual_lambda", "delbsq", "restart_reason_timetrace", "wdot", "version_", "iotas", "chipH", "currH"]


def inspect(ctx, a):
    """A fresh process looks at every path: which of the known objects does it hold?"""
    state = {}
    for path, cands in a["known"].items():
        if not os.path.exists(path):
            state[path] = "absent"
            continue
        err, back = attempt(_iosim.oq_load, path)
        if err:
            state[path] = "error"
            continue
        state[path] = identify(back, cands)
    b, s = a["again"]
    obj, want = build(b, s)
    e, _ = attempt(_iosim.oq_save, obj, "again.h5")
    again = e or dump_diff("again.h5", want)
    return {"state": state, "notes": ctx.notes(), "again": again}
