"""C20: inputs, results and field tables are values: they survive every transport
between processes, nothing done later changes them, and a run uses what they hold."""
import copy
import gc
import os
import pickle
import random

import numpy as np

import vmecpp
from scn import base, flow

INPUTS, TABLE = {}, {}
CASES = ["axi", "asym", "stell", "stell_asym", "free", "only_coils"]


def prepare():
    TABLE["pristine"] = table_values(new_table())
    for n in CASES:
        x = base.load_input(n)
        x.ns_array = np.array([5], dtype=np.int64)
        x.ftol_array = np.array([1e-8 if free(n) else 1e-10])
        x.niter_array = np.array([1500], dtype=np.int64)
        INPUTS[n] = values(x)


def free(n):
    return n in ("free", "only_coils")


def new_table():
    return vmecpp.MagneticFieldResponseTable.from_coils_file(
        base.CASES + "coils.cth_like", vmecpp.MakegridParameters.from_file(base.CASES + "makegrid_cth_small.json"))


def values(o):
    """Everything a model holds, as plain values that share nothing with it."""
    out = {}
    for k in type(o).model_fields:
        v = getattr(o, k)
        out[k] = values(v) if hasattr(type(v), "model_fields") else v.copy() if isinstance(v, np.ndarray) else copy.deepcopy(v)
    return out


def flat(v, p=""):
    out = {}
    for k, x in v.items():
        out.update(flat(x, p + k + ".") if isinstance(x, dict) else {p + k: flow._plain(x)})
    return out


def diff(a, b):
    a, b = flat(a), flat(b)
    return [k for k in a if k not in b or not base.same(a[k], b[k])] + [k for k in b if k not in a]


def table_values(t):
    return values(t)


def build(cls, v):
    """A new object with given values, by way of the constructor."""
    kw = {}
    for k, f in cls.model_fields.items():
        x = v[k]
        if isinstance(x, dict):
            x = build(SUB[cls, k], x)
        elif isinstance(x, np.ndarray):
            x = x.copy()
        elif hasattr(x, "value"):
            x = x.value
        kw[k] = x
    return cls(**kw)


SUB = {(vmecpp.MagneticFieldResponseTable, "parameters"): vmecpp.MakegridParameters}
for _k, _f in vmecpp.VmecOutput.model_fields.items():
    SUB[vmecpp.VmecOutput, _k] = {
        "input": vmecpp.VmecInput, "jxbout": vmecpp.JxBOut, "mercier": vmecpp.Mercier, "wout": vmecpp.VmecWOut,
        "threed1_volumetrics": vmecpp.Threed1Volumetrics, "threed1_first_table": vmecpp.Threed1FirstTable,
        "threed1_geometric_magnetic": vmecpp.Threed1GeometricAndMagneticQuantities, "threed1_axis": vmecpp.Threed1AxisGeometry,
        "threed1_betas": vmecpp.Threed1Betas, "threed1_shafranov_integrals": vmecpp.Threed1ShafranovIntegrals}.get(_k)


COMPUTED = [None]


def watch():
    """Keep what the solver returned to the package in the last call."""
    core = getattr(vmecpp, "_vmecpp", None)
    real = getattr(core, "run", None)
    if real is None or getattr(real, "watched", False):
        return

    def run(*a, **kw):
        COMPUTED[0] = None
        COMPUTED[0] = real(*a, **kw)
        return COMPUTED[0]
    run.watched = True
    core.run = run


def unlike_computed(out):
    """Numbers of a result that are not those the solver computed under the
    same name; parts the solver does not have under that name are left out."""
    bad = []
    if COMPUTED[0] is None:
        return bad
    for part in ("wout", "jxbout", "mercier"):
        c, o = getattr(COMPUTED[0], part, None), getattr(out, part, None)
        for k in type(o).model_fields if c is not None and o is not None else ():
            want, got = getattr(c, k, None), getattr(o, k)
            if want is None or got is None or not isinstance(want, (np.ndarray, int, float, str)) or callable(want):
                continue
            if isinstance(want, str):
                if isinstance(got, str) and want.strip() != got.strip():
                    bad.append(part + "." + k)
                continue
            want, got = np.asarray(want), np.asarray(got)
            if want.size == 0 or want.dtype.kind not in "bif" or got.dtype.kind not in "bif":
                continue
            if want.shape != got.shape or not np.array_equal(want, got, equal_nan=True):
                bad.append(part + "." + k)
    return bad


def call(x, table, start):
    watch()
    try:
        o = vmecpp.run(x, table, max_threads=1, verbose=0, restart_from=start)
        return ("ok", values(o)), o
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__ + ": " + str(e)), None


def elsewhere(xv, tv, sv):
    """The same call in another process, on objects built from the values."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            res, _ = call(build(vmecpp.VmecInput, xv), build(vmecpp.MagneticFieldResponseTable, tv) if tv else None,
                          build(vmecpp.VmecOutput, sv) if sv else None)
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
        except BaseException as e:  # noqa: BLE001
            os.write(w, pickle.dumps(("broken", repr(e))))
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data)


def carry(o, how, root):
    cls = type(o)
    if how == "json":
        return cls.model_validate_json(o.model_dump_json())
    if how == "pickle":
        return pickle.loads(pickle.dumps(o))
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "model_copy":
        return o.model_copy(deep=True)
    if how == "dump":
        return cls.model_validate(o.model_dump())
    if how == "file":
        o.wout.save(root + "/w.nc")
        n = o.model_copy(deep=True)
        n.wout = vmecpp.VmecWOut.from_wout_file(root + "/w.nc")
        os.unlink(root + "/w.nc")
        return n
    raise KeyError(how)


class Pool:
    def __init__(self):
        self.items = []   # [kind, object, values]
        self.held = []    # (array, copy, what)

    def add(self, kind, o):
        self.items.append([kind, o, values(o)])

    def pick(self, kind, k):
        c = [i for i in self.items if i[0] == kind]
        return c[k % len(c)] if c else None

    def check(self, what):
        for kind, o, v in self.items:
            d = diff(v, values(o))
            if d:
                return "changed by %s: a %s changed in %s" % (what, kind, d[:3])
        for a, c, w in self.held:
            if not base.same(a, c):
                return "changed by %s: an array taken from a dropped %s changed" % (what, w)
        return None


def times(o, f, x):
    v = getattr(o, f)
    if v.flags.writeable:
        v[...] *= x
    else:
        setattr(o, f, v * x)


def edit(rng, kind, o):
    """In-place edits a user makes."""
    if kind == "table":
        e = rng.choice(["scale", "row", "replace", "parameters", "slice", "swap", "reverse"])
        if e == "scale":
            for f in ("b_r", "b_p", "b_z"):
                times(o, f, 1.001)
        elif e == "row":
            if o.b_p.flags.writeable:
                o.b_p[0] *= 1.002
        elif e == "replace":
            o.b_p = o.b_p * 0.999
        elif e == "parameters":
            o.parameters.r_grid_minimum = o.parameters.r_grid_minimum - 0.004
            o.parameters.r_grid_maximum = o.parameters.r_grid_maximum - 0.004
        elif e == "slice":
            o.b_r, o.b_p, o.b_z = o.b_r[:1], o.b_p[:1], o.b_z[:1]
        elif e == "reverse":
            o.b_r, o.b_p, o.b_z = o.b_r[::-1], o.b_p[::-1], o.b_z[::-1]
        else:
            o.b_r, o.b_z = o.b_z, o.b_r
        return e
    if kind == "result":
        e = rng.choice(["shape", "lambda", "input", "wout array", "other"])
        if e == "shape":
            times(o.wout, "rmnc", 1 + 1e-4)
            times(o.wout, "zmns", 1 + 1e-4)
        elif e == "lambda":
            times(o.wout, "lmns", 1.01)
        elif e == "input":
            o.input = o.input.model_copy(deep=True)
            o.input.phiedge *= 1.001
        elif e == "wout array":
            o.wout.bmnc = o.wout.bmnc * 2.0
        else:
            times(o.mercier, "iota", 1.5)
        return e
    e = rng.choice(["flux", "boundary", "pressure", "budget"])
    if e == "flux":
        o.phiedge = o.phiedge * 1.01
    elif e == "boundary":
        o.rbc[1, o.rbc.shape[1] // 2] *= 1.002
    elif e == "pressure":
        o.pres_scale = o.pres_scale * 1.05
    else:
        o.niter_array[...] = rng.choice([30, 1500])
    return e


def c20(ctx, a):
    rng = random.Random(a["s"])
    pool, probs, info = Pool(), [], {"solves": 0, "transports": 0, "edits": 0, "drops": 0}
    tr = []
    pool.add("table", new_table())
    pool.add("input", build(vmecpp.VmecInput, INPUTS[a["case"]]))
    bad = [k for k in flat(TABLE["pristine"]) if k in diff(TABLE["pristine"], pool.items[0][2])]
    if bad:
        probs.append("computed again: a table of the same coils differs in %s" % bad[:3])
    for n, op in enumerate(a["ops"]):
        o = op["op"]
        what = "operation %d (%s)" % (n, o)
        if o == "solve":
            x = pool.pick("input", op["k"])
            t = pool.pick("table", op["t"]) if free(a["case"]) else None
            s = pool.pick("result", op["r"]) if op.get("hot") else None
            want = elsewhere(x[2], t and t[2], s and s[2])
            got, out = call(x[1], t and t[1], s and s[1])
            info["solves"] += 1
            tr.append([got[0], len(str(got[1]))])
            if want[0] == "broken":
                probs.append("rebuilding: " + want[1])
            elif got[0] != want[0]:
                probs.append("other outcome: %s here (%s), %s in another process with the same values (%s)" % (
                    got[0], "" if out else got[1], want[0], want[1] if want[0] != "ok" else ""))
            elif out is None and got[1] != want[1]:
                probs.append("other error: %s, in another process with the same values %s" % (got[1], want[1]))
            elif out is not None:
                d = diff(got[1], want[1])
                if d:
                    probs.append("other result: differs in %s from the run in another process with the same values" % d[:4])
                d = unlike_computed(out)
                info["compared"] = info.get("compared", 0) + (COMPUTED[0] is not None)
                if d:
                    probs.append("result differs in %s from what the solver computed" % d[:4])
                d = diff(x[2], values(out.input))
                if d:
                    probs.append("input of the result differs in %s" % d[:3])
                # results hold their own input from here on: a user who goes on editing the input object sees both
                out.input = out.input.model_copy(deep=True)
                pool.add("result", out)
        elif o == "carry":
            i = pool.pick(op["kind"], op["k"])
            how = op["how"] if not (op["how"] == "file" and op["kind"] != "result") else "json"
            if i:
                info["transports"] += 1
                try:
                    c = carry(i[1], how, ctx.root)
                except Exception as e:  # noqa: BLE001
                    probs.append("transport %s of a %s: %s: %s" % (how, op["kind"], type(e).__name__, str(e)[:200]))
                    continue
                d = diff(i[2], values(c))
                if d:
                    probs.append("transport %s of a %s changed %s" % (how, op["kind"], d[:4]))
                if how == "dump":
                    pass  # shares its arrays with the original
                elif op.get("keep"):
                    i[1] = c
                else:
                    pool.add(op["kind"], c)
        elif o == "edit":
            i = pool.pick(op["kind"], op["k"])
            if i:
                info["edits"] += 1
                tr.append(edit(rng, i[0], i[1]))
                what += " " + tr[-1]
                i[2] = values(i[1])
        elif o == "drop":
            i = pool.pick("result", op["k"])
            if i:
                info["drops"] += 1
                for f in ("rmnc", "zmns", "lmns", "bmnc", "iotaf", "xm"):
                    v = getattr(i[1].wout, f)
                    pool.held.append((v, v.copy(), "result"))
                v = i[1].jxbout.itheta if hasattr(i[1].jxbout, "itheta") else i[1].mercier.iota
                pool.held.append((v, v.copy(), "result"))
                pool.items = [q for q in pool.items if q is not i]
                del i
                gc.collect()
            t = pool.pick("table", op["k"])
            if t and len([q for q in pool.items if q[0] == "table"]) > 1:
                pool.held.append((t[1].b_r, t[1].b_r.copy(), "table"))
                pool.items = [q for q in pool.items if q is not t]
                del t
                gc.collect()
        p = pool.check(what)
        if p:
            probs.append(p)
        if probs:
            break
    return {"problems": probs, "info": info, "injected": [], "trace": tr}
