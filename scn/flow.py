"""C07, C17, C21, C22: what users build on the solver - axis guesses, resolution
continuation, the SIMSOPT wrapper and the command line.

The seam is the entry point of the C++ core (_vmecpp.run): every solve is
recorded, and the plan decides which of them fail."""
import contextlib
import importlib
import importlib.metadata
import io
import json
import logging
import os
import random
import sys
from pathlib import Path

import numpy as np

import vmecpp
from vmecpp.cpp import _vmecpp
from scn import base

logging.disable(logging.CRITICAL)
REAL_RUN = _vmecpp.run
INPUTS, GOOD, FIELD = {}, {}, {}
CASES = ["axi", "stell", "asym", "stell_asym"]
FTOL = 1e-11


def small(name, ns=(7,), ftol=None, niter=3000):
    v = base.load_input(name)
    ns = list(ns)
    v.ns_array = np.array(ns, dtype=np.int64)
    v.ftol_array = np.array(ftol or [FTOL] * len(ns), dtype=float)
    v.niter_array = np.array(niter if isinstance(niter, list) else [niter] * len(ns), dtype=np.int64)
    return v


def prepare():
    for n in CASES:
        for ns in (5, 7):
            INPUTS[n, ns] = small(n, (ns,))
            GOOD[n, ns] = vmecpp.run(INPUTS[n, ns], max_threads=1, verbose=0)
    FIELD["f"] = vmecpp.MagneticFieldResponseTable.from_coils_file(
        base.CASES + "coils.cth_like", vmecpp.MakegridParameters.from_file(base.CASES + "makegrid_cth_small.json"))
    importlib.import_module("vmecpp.simsopt_compat")


INJECTED, TRACE = [], []


def verdict(probs, info, w=None):
    """What a scenario returns: findings, counters, and the log of its solves."""
    log = [[c["mpol"], c["ntor"], c["ns"], c["ftol"], c["hot"], c["threads"]] for c in TRACE]
    if w is not None:
        log.append([int(w.niter), float(w.fsqr), float(w.wb)])
    return {"problems": probs, "info": info, "injected": INJECTED, "trace": log}


class Core:
    """Recorder and fault injector at the entry point of the C++ core."""

    def __init__(self, fail=()):
        self.calls = []
        self.fail = {int(f["k"]): f for f in fail}
        self.results = []
        _vmecpp.run = self

    def __call__(self, indata, **kw):
        k = len(self.calls)
        st = kw.get("initial_state")
        c = {"mpol": int(indata.mpol), "ntor": int(indata.ntor), "ns": [int(x) for x in indata.ns_array],
             "ftol": [float(x) for x in indata.ftol_array], "niter": [int(x) for x in indata.niter_array],
             "threads": kw.get("max_threads"), "verbose": int(kw.get("verbose", -1)), "hot": st is not None,
             "field": kw.get("magnetic_response_table")}
        c["indata"] = {n: _copy(getattr(indata, n)) for n in vmecpp.VmecInput.model_fields if hasattr(indata, n)}
        if st is not None:
            c["start"] = {n: _copy(getattr(st.wout, n)) for n in GEOM if hasattr(st.wout, n)}
            c["start"].update(xm=_copy(st.wout.xm), xn=_copy(st.wout.xn), ns=int(st.wout.ns))
            c["start_res"] = [int(st.indata.mpol), int(st.indata.ntor), [int(x) for x in st.indata.ns_array]]
        self.calls.append(c)
        TRACE.append(c)
        f = self.fail.get(k)
        if f:
            INJECTED.append(["solve", f["act"]])
            raise {"runtime": RuntimeError, "interrupt": KeyboardInterrupt, "memory": MemoryError, "value": ValueError}[f["act"]](
                "injected %d" % k)
        kw["max_threads"] = 1
        kw["verbose"] = _vmecpp.OutputMode(0)
        r = REAL_RUN(indata, **kw)
        self.results.append(r)
        return r

    def off(self):
        _vmecpp.run = REAL_RUN


AXIS = ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c")
PER_STEP = AXIS + ("mpol", "ntor", "ns_array", "ftol_array", "niter_array", "rbc", "zbs", "rbs", "zbc")
GEOM = ("rmnc", "zmns", "lmns", "lmns_full", "rmns", "zmnc", "lmnc", "lmnc_full", "raxis_cc", "zaxis_cs", "raxis_cs", "zaxis_cc",
        "raxis_c", "zaxis_s", "raxis_s", "zaxis_c")


def _copy(x):
    return np.array(x) if isinstance(x, np.ndarray) else x


def snap(x):
    """Everything in a model, for comparison before and after."""
    return {n: _copy(getattr(x, n)) for n in type(x).model_fields}


def snap_diff(a, b):
    return [n for n in a if not base.same(_plain(a[n]), _plain(b[n]))]


def _plain(x):
    return x.value if hasattr(x, "value") and not isinstance(x, np.ndarray) else x


def same_equilibrium(a, b):
    """Whether two converged solves found the same equilibrium.  The poloidal
    angle inside is only weakly determined by the force, hence the loose bound on
    the coefficients; energy, rotational transform and axis are not."""
    scale = float(a.Aminor_p)
    for n in ("rmnc", "zmns", "rmns", "zmnc"):
        x, y = getattr(a, n), getattr(b, n)
        if x is None or y is None:
            continue
        if x.shape != y.shape:
            return "shapes of %s: %s, %s" % (n, x.shape, y.shape)
        if not np.max(np.abs(x - y)) <= 0.06 * scale:
            return "surfaces differ by %.2e of the minor radius" % (np.max(np.abs(x - y)) / scale)
        if not np.max(np.abs(x[:, -1] - y[:, -1])) <= 1e-10 * scale:
            return "boundaries differ"
    for n in ("raxis_cc", "zaxis_cs", "raxis_cs", "zaxis_cc"):
        x, y = getattr(a, n), getattr(b, n)
        if x is not None and y is not None and not np.max(np.abs(x - y), initial=0) <= 0.02 * scale:
            return "axes differ by %.2e of the minor radius" % (np.max(np.abs(x - y)) / scale)
    if not np.max(np.abs(a.iotaf - b.iotaf)) <= 3e-3:
        return "rotational transforms differ by %.2e" % np.max(np.abs(a.iotaf - b.iotaf))
    for n, tol in (("aspect", 1e-9), ("volume_p", 1e-9), ("b0", 3e-3), ("wb", 5e-5)):
        x, y = getattr(a, n), getattr(b, n)
        if not abs(x - y) <= tol * max(abs(x), abs(y)):
            return "%s: %.8g, %.8g" % (n, x, y)
    return None


def try_(f):
    try:
        return f(), None
    except BaseException as e:  # noqa: BLE001
        return None, e


def says(e):
    return None if e is None else "%s: %s" % (type(e).__name__, str(e)[:120])


# ----------------------------------------------------------------------- C07
def c07(ctx, a):
    """A solve from a poor or missing guess of the magnetic axis."""
    probs, info = [], {"reguess": 0, "failed": 0}
    rng = random.Random(a["s"])
    key = (a["case"], a["ns"])
    good = GOOD[key].wout
    v = INPUTS[key].model_copy(deep=True)
    minor = float(good.Aminor_p)
    if a["axis"] == "zero":
        for n in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
            if getattr(v, n) is not None:
                getattr(v, n).fill(0.0)
    elif a["axis"] == "good":
        for n, m in (("raxis_c", "raxis_cc"), ("zaxis_s", "zaxis_cs"), ("raxis_s", "raxis_cs"), ("zaxis_c", "zaxis_cc")):
            if getattr(v, n) is not None and getattr(good, m) is not None:
                setattr(v, n, np.array(getattr(good, m)[:v.ntor + 1]))
    if a["axis"] in ("shift", "good"):
        for n in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
            x = getattr(v, n)
            if x is None:
                continue
            for i in range(len(x)):
                if not (n in ("zaxis_s", "raxis_s") and i == 0):
                    x[i] += a["eps"] * minor * rng.uniform(-1, 1)
    before = snap(v)
    if a.get("schedule"):
        ns = a["schedule"]
        v.ns_array = np.array(ns, dtype=np.int64)
        v.ftol_array = np.array([1e-4] * (len(ns) - 1) + [FTOL])
        v.niter_array = np.array([2000] * len(ns), dtype=np.int64)
        before = snap(v)
    out, err = try_(lambda: vmecpp.run(v, max_threads=1, verbose=0))
    if snap_diff(before, snap(v)):
        probs.append("the solve changed its input: %s" % snap_diff(before, snap(v)))
    if err is not None:
        info["failed"] = 1
        probs.append("no solution from this axis guess: %s" % says(err))
    else:
        w = out.wout
        info["reguess"] = int(a["axis"] == "zero")
        if max(w.fsqr, w.fsqz, w.fsql) > FTOL:
            probs.append("not converged")
        d = same_equilibrium(good, w)
        if d:
            probs.append("another equilibrium: %s" % d)
    return verdict(probs, info, out.wout if out is not None else None)


# ----------------------------------------------------------------------- C17
def ref_modes(mpol, ntor, nfp):
    return [(m, n * nfp) for m in range(mpol) for n in range(0 if m == 0 else -ntor, ntor + 1)]


def ref_interp(val, src, dst, ns_new):
    """Reference: carry the modes over, interpolate in sqrt(s), odd m scaled."""
    ns = val.shape[1]
    old, new = np.sqrt(np.linspace(0, 1, ns)), np.sqrt(np.linspace(0, 1, ns_new))
    out = np.zeros((len(dst), ns_new))
    pos = {k: i for i, k in enumerate(src)}
    for i, k in enumerate(dst):
        if k not in pos:
            continue
        f = np.array(val[pos[k]], dtype=float)
        if ns == ns_new:
            out[i] = f
            continue
        if k[0] % 2:
            g = np.zeros(ns)
            g[1:] = f[1:] / old[1:]
            g[0] = 2 * g[1] - g[2] if ns >= 3 else g[1]
            h = np.interp(new, old, g) * new
            h[0] = 0.0
            out[i] = h
        else:
            out[i] = np.interp(new, old, f)
    return out


def check_start(tag, start, prev, mpol, ntor, ns):
    """The state a step starts from against the previous result."""
    bad = []
    dst = ref_modes(mpol, ntor, int(prev.nfp))
    src = list(zip([int(x) for x in prev.xm], [int(x) for x in prev.xn]))
    if [int(x) for x in start["xm"]] != [m for m, _ in dst] or [int(x) for x in start["xn"]] != [n for _, n in dst] or start["ns"] != ns:
        return [tag + "starts from a state of another resolution"]
    for n in ("rmnc", "zmns", "lmns_full", "rmns", "zmnc", "lmnc_full"):
        p, x = getattr(prev, n, None), start.get(n)
        if p is None or np.size(p) == 0 or x is None:
            continue
        ref = ref_interp(np.asarray(p), src, dst, ns)
        x = np.asarray(x)
        if x.shape != ref.shape:
            x = x.T
        if x.shape != ref.shape or np.max(np.abs(x - ref)) > 1e-11 * (1 + np.max(np.abs(ref))):
            bad.append(tag + "does not start from the previous solution (%s)" % n)
    for n in ("raxis_cc", "zaxis_cs", "raxis_cs", "zaxis_cc"):
        p, x = getattr(prev, n, None), start.get(n)
        if p is None or np.size(p) == 0 or x is None or np.size(x) == 0:
            continue
        ref, k = np.zeros(ntor + 1), min(np.size(p), ntor + 1)
        ref[:k] = np.asarray(p)[:k]
        if np.shape(x) != ref.shape or np.max(np.abs(np.asarray(x) - ref)) > 1e-11:
            bad.append(tag + "does not start from the axis of the previous solution (%s)" % n)
    return bad


def resized(x, mpol, ntor):
    nt = (x.shape[1] - 1) // 2
    out = np.zeros((mpol, 2 * ntor + 1))
    for m in range(min(mpol, x.shape[0])):
        for n in range(-min(nt, ntor), min(nt, ntor) + 1):
            out[m, n + ntor] = x[m, n + nt]
    return out


def c17(ctx, a):
    """A continuation run with solves that fail by plan, then again without."""
    probs, info = [], {"steps": 0, "failed": 0, "refused": 0, "compared": 0}
    v = small(a["case"], a["ns"], a["ftol"], a["niter"])
    full = (int(v.mpol), int(v.ntor))
    sched = {"mpol": a["mpol"], "ntor": a["ntor"]}
    for n in ("mpol", "ntor"):
        # the final resolution is that of the boundary
        x = sched[n]
        setattr(v, n, np.array(x, dtype=np.int64) if isinstance(x, list) else x)
        if n == "ntor":
            for ax in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
                if getattr(v, ax) is not None:
                    setattr(v, ax, getattr(v, ax)[:(max(x) if isinstance(x, list) else x) + 1])
    v.nstep, v.nvacskip = a.get("nstep", v.nstep), a.get("nvacskip", v.nvacskip)
    v = vmecpp.VmecInput.model_validate(v)
    field = FIELD["f"] if v.lfreeb else None
    steps = len(a["ns"])
    lens = [len(x) for x in sched.values() if isinstance(x, list)]
    plain = {n: (sched[n] if isinstance(sched[n], list) else [sched[n]] * steps) for n in sched}
    seed_state = GOOD[a["case"], a["restart"]] if a.get("restart") else None
    seed_before = snap(seed_state.wout) if seed_state is not None else None
    for attempt, fail in enumerate([a.get("fail") or [], []][:2 if a.get("fail") else 1]):
        before = snap(v)
        core = Core(fail)
        with contextlib.redirect_stdout(io.StringIO()):
            out, err = try_(lambda: vmecpp.run(v, field, max_threads=a["threads"], verbose=0, restart_from=seed_state))
        core.off()
        if snap_diff(before, snap(v)):
            probs.append("the input was changed: %s" % snap_diff(before, snap(v)))
        if seed_state is not None and snap_diff(seed_before, snap(seed_state.wout)):
            probs.append("the state to restart from was changed")
        if any(n != steps for n in lens):
            info["refused"] += 1
            if not isinstance(err, ValueError) or core.calls:
                probs.append("schedule of the wrong length: %s, %d solves" % (says(err), len(core.calls)))
            return verdict(probs, info)
        failing = min([f["k"] for f in fail], default=None)
        multi = isinstance(_s(v.mpol), list) or isinstance(_s(v.ntor), list)
        nsolve = steps if multi else 1
        gave_up = len(core.results) < len(core.calls) and (failing is None or len(core.calls) <= failing)
        if failing is not None and failing < nsolve and not gave_up:
            info["failed"] += 1
            name = {"runtime": RuntimeError, "interrupt": KeyboardInterrupt, "memory": MemoryError, "value": ValueError}[
                [f["act"] for f in fail if f["k"] == failing][0]]
            if type(err) is not name or "injected %d" % failing not in str(err):
                probs.append("failure of step %d: the caller got %s" % (failing, says(err)))
            if len(core.calls) != failing + 1:
                probs.append("%d solves although step %d failed" % (len(core.calls), failing))
        elif err is not None:
            # the solver itself gave up in the last solve: nothing may follow
            info["failed"] += 1
            if not isinstance(err, RuntimeError):
                probs.append("unexpected error %s" % says(err))
            if len(core.results) == len(core.calls):
                probs.append("failed although every solve succeeded: %s" % says(err))
        elif len(core.calls) != nsolve:
            probs.append("%d solves for %d steps" % (len(core.calls), nsolve))
        prev = seed_state.wout if seed_state is not None else None
        for i, c in enumerate(core.calls):
            info["steps"] += 1
            tag = "step %d: " % i
            if c["threads"] != a["threads"] or c["verbose"] != 0:
                probs.append(tag + "thread count or output mode not passed on")
            if (c["field"] is None) != (field is None) or (field is not None and not base.same(c["field"].b_p, field.b_p)):
                probs.append(tag + "solved without the given field")
            if not multi:
                continue
            mp, nt, ns = plain["mpol"][i] if len(plain["mpol"]) > 1 else plain["mpol"][0], \
                plain["ntor"][i] if len(plain["ntor"]) > 1 else plain["ntor"][0], a["ns"][i]
            if (c["mpol"], c["ntor"], c["ns"]) != (mp, nt, [ns]):
                probs.append(tag + "resolution %s instead of %s" % ((c["mpol"], c["ntor"], c["ns"]), (mp, nt, [ns])))
                break
            if c["ftol"] != [a["ftol"][i]] or c["niter"] != [int(v.niter_array[i])]:
                probs.append(tag + "tolerance or iteration limit of another step")
            for n in ("rbc", "zbs", "rbs", "zbc"):
                x, y = getattr(v, n), c["indata"].get(n)
                if x is not None and not np.array_equal(resized(np.asarray(x), mp, nt), np.asarray(y)):
                    probs.append(tag + "boundary %s is not that of the input" % n)
            for n in AXIS:
                x, y = getattr(v, n), c["indata"].get(n)
                if x is not None and not base.same(np.pad(np.asarray(x, dtype=float)[:nt + 1], (0, max(0, nt + 1 - len(x)))), np.asarray(y, dtype=float)):
                    probs.append(tag + "axis guess %s is not that of the input" % n)
            for n in type(v).model_fields:
                if n in PER_STEP or (n == "mgrid_file" and field is not None) or n not in c["indata"]:
                    continue
                y = c["indata"][n]
                if not base.same(_plain(getattr(v, n)), y.name.lower() if hasattr(y, "name") else y):
                    probs.append(tag + "%s is not that of the input" % n)
            if c["hot"] != (prev is not None):
                probs.append(tag + ("starts cold" if prev is not None else "starts from a state nobody gave"))
            elif prev is not None:
                probs += check_start(tag, c["start"], prev, mp, nt, ns)
            if i < len(core.results):
                prev = vmecpp.VmecWOut._from_cpp_wout(core.results[i].wout)
        if err is None:
            if not out.input == v and snap_diff(snap(out.input), snap(v)):
                probs.append("the result does not carry the original input")
            w = out.wout
            last = vmecpp.VmecWOut._from_cpp_wout(core.results[-1].wout)
            d = [n for n in type(w).model_fields if not base.same(getattr(w, n), getattr(last, n))]
            if d:
                probs.append("the result is not that of the last step: %s" % d[:5])
            if (int(w.mpol), int(w.ntor), int(w.ns)) != (plain["mpol"][-1], plain["ntor"][-1], a["ns"][-1]):
                probs.append("result at another resolution")
            if max(w.fsqr, w.fsqz, w.fsql) > a["ftol"][-1]:
                probs.append("not converged")
            key = (a["case"], a["ns"][-1])
            if a["ftol"][-1] <= 1e-11 and (plain["mpol"][-1], plain["ntor"][-1]) == full and key in GOOD:
                info["compared"] += 1
                d = same_equilibrium(GOOD[key].wout, w)
                if d:
                    probs.append("another equilibrium than the direct solve: %s" % d)
        if probs:
            break
    return verdict(probs, info)


def _s(x):
    return x if isinstance(x, int) else [int(y) for y in x]


# ----------------------------------------------------------------------- C21
def well(w):
    g = np.abs(np.asarray(w.gmnc)[0, 1:])
    a = 1.5 * g[0] - 0.5 * g[1]
    return (a - (1.5 * g[-1] - 0.5 * g[-2])) / a


QUANT = {"aspect": lambda w: w.aspect, "volume": lambda w: w.volume_p, "iota_axis": lambda w: w.iotaf[0], "iota_edge": lambda w: w.iotaf[-1],
         "mean_shear": lambda w: float(np.polyfit((np.arange(1, w.ns) - 0.5) / (w.ns - 1), w.iotas[1:], 1)[0]), "vacuum_well": lambda w: well(w),
         "mean_iota": lambda w: float(np.mean(w.iotas[1:])),
         "external_current": lambda w: 2 * np.pi * (w.bvco[-1] * 1.5 - w.bvco[-2] * 0.5) / (4e-7 * np.pi)}
DOFS = ["delt", "tcon0", "phiedge", "curtor", "gamma"]
REF = {}


def ref_solve(inp):
    """Fresh solve of an input, as the wrapper should make it (no axis guess)."""
    v = inp.model_copy(deep=True)
    for n in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if getattr(v, n) is not None:
            getattr(v, n).fill(0.0)
    key = v.model_dump_json()
    if key not in REF:
        run = _vmecpp.run
        _vmecpp.run = REAL_RUN
        REF[key] = try_(lambda: vmecpp.run(v, max_threads=1, verbose=0))
        _vmecpp.run = run
    return REF[key]


def read_boundary(surface, mpol, ntor, lasym):
    out = {}
    for n, f in (("rbc", "get_rc"), ("zbs", "get_zs")) + ((("rbs", "get_rs"), ("zbc", "get_zc")) if lasym else ()):
        out[n] = np.array([[getattr(surface, f)(m, k) if m <= surface.mpol and abs(k) <= surface.ntor else 0.0
                            for k in range(-ntor, ntor + 1)] for m in range(mpol)])
    return out


def c21(ctx, a):
    """A history of calls on the SIMSOPT wrapper against a reference model."""
    from simsopt._core.util import ObjectiveFailure  # noqa: PLC0415
    from vmecpp import simsopt_compat as sc  # noqa: PLC0415
    probs, info = [], {"solves": 0, "cached": 0, "failures": 0, "hot": 0, "saves": 0}
    cur = small(a["case"], a["ns"], [1e-9] * len(a["ns"]))
    cur.save("input.model.json")
    v = sc.Vmec("input.model.json" if a.get("rel", 1) else ctx.root + "/input.model.json", verbose=False, keep_all_files=bool(a.get("keep")))
    core = Core()
    model = {"need": True, "iter": -1, "wout": None}
    rng = random.Random(a["s"])
    nominal = {n: float(getattr(cur, n)) for n in DOFS}

    def fault(op):
        core.fail = {}
        if op.get("fail"):
            core.fail[len(core.calls)] = {"act": op["fail"]}

    def expected():
        """Input the next solve must use."""
        e = cur.model_copy(deep=True)
        return e

    def do(op, call):
        """One call that needs results; returns (value, error)."""
        n0 = len(core.calls)
        fault(op)
        nruns = len(ctx.runs)
        if op.get("plan"):
            def f():
                with ctx.faults(op["plan"], op.get("seed", 1)):
                    return call()
        else:
            f = call
        val, err = try_(f)
        inj = ctx.settle(nruns)["injected"] if op.get("plan") else 0
        return val, err, len(core.calls) - n0, inj

    def judge(op, tag, val, err, made, inj, hot=False):
        want = 1 if model["need"] else 0
        if made != want:
            probs.append(tag + "%d solves, expected %d" % (made, want))
            return False
        if not model["need"]:
            info["cached"] += 1
            if err is not None:
                probs.append(tag + "error without a solve: %s" % says(err))
            return True
        model["iter"] += 1
        info["solves"] += 1
        c = core.calls[-1]
        e = expected()
        if c["threads"] != op.get("threads", 1):
            probs.append(tag + "threads %s" % c["threads"])
        wantns = [a["ns"][-1]] if hot else list(a["ns"])
        if c["ns"] != wantns or len(c["ftol"]) != len(wantns) or len(c["niter"]) != len(wantns):
            probs.append(tag + "grid sequence %s, expected %s" % (c["ns"], wantns))
        if c["hot"] != hot:
            probs.append(tag + "hot restart %s" % c["hot"])
        for n in ("rbc", "zbs", "rbs", "zbc"):
            x = getattr(e, n)
            if x is not None and not np.allclose(x, c["indata"][n], rtol=0, atol=1e-15):
                probs.append(tag + "solved with another boundary (%s)" % n)
        for n in DOFS + ["nfp", "ncurr", "am", "ai", "ac", "pres_scale"]:
            if not base.same(getattr(e, n), c["indata"][n]):
                probs.append(tag + "solved with another %s" % n)
        for n in ("raxis_c", "zaxis_s"):
            if np.any(c["indata"][n]):
                probs.append(tag + "the axis guess depends on the history")
        ref, referr = ref_solve(e)
        if op.get("fail"):
            info["failures"] += 1
            if op["fail"] == "runtime":
                if not isinstance(err, ObjectiveFailure):
                    probs.append(tag + "failed solve reported as %s" % says(err))
            elif err is None:
                probs.append(tag + "failed solve not reported")
            return not probs
        if referr is not None and not hot:
            if not isinstance(err, ObjectiveFailure):
                probs.append(tag + "failed solve reported as %s" % says(err))
            info["failures"] += 1
            return not probs
        if err is not None:
            if hot and isinstance(err, ObjectiveFailure):
                info["failures"] += 1
                return True
            if not inj:
                probs.append(tag + "failed without a fault: %s" % says(err))
            return not probs
        model["need"] = False
        model["wout"] = vmecpp.VmecWOut._from_cpp_wout(core.results[-1].wout)
        if not hot and ref is not None:
            d = [n for n in ("rmnc", "zmns", "iotaf", "bmnc", "presf") if not base.same(getattr(ref.wout, n), getattr(model["wout"], n))]
            if d:
                probs.append(tag + "differs from a fresh solve: %s" % d)
        if a.get("keep"):
            info["saves"] += 1
            r, e2 = try_(lambda: vmecpp.VmecWOut.from_wout_file("wout_model.nc"))
            if e2 is not None or not base.same(r.rmnc, model["wout"].rmnc):
                probs.append(tag + "kept file does not hold the result: %s" % says(e2))
        return not probs

    mp, nt = int(cur.mpol), int(cur.ntor)
    for i, op in enumerate(a["ops"]):
        o = op["op"]
        tag = "call %d (%s): " % (i, o)
        if o == "get":
            q = op["q"]
            val, err, made, inj = do(op, getattr(v, q))
            if judge(op, tag, val, err, made, inj) and err is None:
                w = model["wout"]
                if not np.isclose(val, QUANT[q](w), rtol=1e-13, atol=1e-11 * (q in ("mean_shear", "vacuum_well"))):
                    probs.append(tag + "%s is %.17g, the current solution has %.17g" % (q, val, QUANT[q](w)))
                for n in ("rmnc", "iotaf"):
                    if not base.same(getattr(v.wout, n), getattr(w, n)):
                        probs.append(tag + "wout is not the current solution")
                if len(v.s_half_grid) != w.ns - 1 or not np.isclose(v.ds, 1 / (w.ns - 1)):
                    probs.append(tag + "radial grid of another solution")
        elif o == "run":
            hot = bool(op.get("hot")) and model["wout"] is not None and hasattr(v, "output_quantities") \
                and (int(model["wout"].mpol), int(model["wout"].ntor)) == (mp, nt)
            kw = {"restart_from": v.output_quantities} if hot else {}
            if op.get("threads"):
                kw["max_threads"] = op["threads"]
            before = (list(v.indata.ns_array), list(v.indata.ftol_array))
            val, err, made, inj = do(op, lambda: v.run(**kw))
            info["hot"] += hot and made
            judge(op, tag, val, err, made, inj, hot)
            if (list(v.indata.ns_array), list(v.indata.ftol_array)) != before:
                probs.append(tag + "the grid sequence of the object was changed")
        elif o == "shape":
            m, n = (1, 0) if op["k"] == 0 else (rng.randrange(mp), rng.randrange(-nt, nt + 1))
            if m == 0 and n < 0:
                n = -n
            which = op["which"] if not (op["which"] == "zs" and m == 0 and n == 0) else "rc"
            f = {"rc": "rbc", "zs": "zbs"}[which]
            x = float(getattr(cur, f)[m, n + nt]) + op["eps"]
            getattr(v.boundary, "set_" + which)(m, n, x)
            getattr(cur, f)[m, n + nt] = x
            model["need"] = True
        elif o == "vector":
            x = np.array(v.boundary.x)
            j = rng.randrange(len(x))
            x[j] += op["eps"]
            v.boundary.x = x
            for n, val in read_boundary(v.boundary, mp, nt, cur.lasym).items():
                setattr(cur, n, val)
            model["need"] = True
        elif o == "dof":
            n = op["name"]
            x = nominal[n] * (1 + op["eps"]) + (op["eps"] if n == "curtor" else 0)
            v.unfix(n)
            v.set(n, x)
            setattr(cur, n, x)
            model["need"] = True
        elif o == "surface":
            s = v.boundary.copy()
            s.set_rc(1, 0, s.get_rc(1, 0) * (1 + op["eps"]))
            old = v.boundary
            v.boundary = s
            for n, val in read_boundary(s, mp, nt, cur.lasym).items():
                setattr(cur, n, val)
            model["need"] = True
            if op.get("touch_old"):
                # no longer a part of this object: what happens to it is of no concern
                val, err, made, inj = do({}, v.aspect)
                judge({}, tag, val, err, made, inj)
                old.set_rc(1, 0, 0.5)
        elif o == "same_surface":
            v.boundary = v.boundary
        elif o == "resolution":
            mp2, nt2 = mp + op["dm"], max(0, nt + op["dn"])
            if nt == 0:
                nt2 = 0
            v.set_mpol_ntor(mp2, nt2)
            for n in ("rbc", "zbs", "rbs", "zbc"):
                x = getattr(cur, n)
                if x is not None:
                    setattr(cur, n, resized(np.asarray(x), mp2, nt2))
            for n in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
                x = getattr(cur, n)
                if x is not None:
                    setattr(cur, n, np.zeros(nt2 + 1))
            cur.mpol, cur.ntor = mp2, nt2
            mp, nt = mp2, nt2
            model["need"] = True
            if (int(v.indata.mpol), int(v.indata.ntor)) != (mp, nt):
                probs.append(tag + "resolution not set")
        elif o == "input":
            text = v.get_input()
            r = vmecpp.VmecInput.model_validate_json(text)
            for n in ("rbc", "zbs", "rbs", "zbc"):
                x = getattr(cur, n)
                if x is not None and not np.allclose(x, getattr(r, n), rtol=0, atol=1e-15):
                    probs.append(tag + "written with another boundary")
            for n in DOFS:
                if not base.same(getattr(cur, n), getattr(r, n)):
                    probs.append(tag + "written with another %s" % n)
            val, err, made, inj = do(op, lambda: v.write_input("out.json"))
            if made:
                probs.append(tag + "solved while writing an input")
            if err is None and Path("out.json").read_text() != text:
                probs.append(tag + "file is not the input")
            if err is not None and not inj:
                probs.append(tag + "failed without a fault: %s" % says(err))
        elif o == "wout":
            # an object made from a result file never solves
            out = GOOD[a["case"], 7]
            out.wout.save("wout_old.nc")
            u = sc.Vmec("wout_old.nc", verbose=False)
            n0 = len(core.calls)
            if u.aspect() != out.wout.aspect or len(core.calls) != n0:
                probs.append(tag + "object from a result file does not return it")
            u.recompute_bell()
            _, err = try_(u.run)
            if not isinstance(err, RuntimeError) or len(core.calls) != n0:
                probs.append(tag + "object from a result file could be run: %s" % says(err))
        if v.need_to_run_code != model["need"]:
            probs.append(tag + "need_to_run_code is %s" % v.need_to_run_code)
        if v.iter != model["iter"]:
            probs.append(tag + "iter is %d, solves %d" % (v.iter, model["iter"] + 1))
        if probs:
            break
    core.off()
    return verdict(probs, info)


# ----------------------------------------------------------------------- C22
def c22(ctx, a):
    """The command line in a process of its own."""
    cli = importlib.import_module("vmecpp.__main__")
    importlib.metadata.version = lambda n: "0.0.0"
    probs, info = [], {"ok": 0, "failed": 0}
    os.makedirs("in dir", exist_ok=True)
    for i, op in enumerate(a["ops"]):
        v = small(op["case"], (op["ns"],), [1e-8], op["niter"])
        name = op["name"]
        src = Path("in dir" if op.get("dir") else ".") / name
        if op.get("broken"):
            src.write_text('{"mpol": ')
        elif op.get("missing"):
            with contextlib.suppress(FileNotFoundError):
                src.unlink()
        else:
            v.save(src)
        cfg = name[:-5] if name.endswith(".json") else name
        before = base.listing(ctx.root)
        core = Core([{"k": 0, "act": op["fail"]}] if op.get("fail") else [])
        argv = ["vmecpp"] + (["convert"] if op["cmd"] == "convert" else []) + [str(src)]
        if op["cmd"] != "convert":
            argv += {"quiet": ["-q"], "legacy": ["--legacy"], "progress": [], "": ["--quiet"]}[op["mode"]]
            if op.get("threads") is not None:
                argv += [op.get("tflag", "-t"), str(op["threads"])]
        sys.argv = argv
        buf = io.StringIO()
        nruns = len(ctx.runs)
        err = None
        try:
            with contextlib.redirect_stdout(buf):
                with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                    cli.main()
        except BaseException as e:  # noqa: BLE001
            err = e
        inj = ctx.settle(nruns)["injected"]
        hits = {h[0] for h in ctx.runs[-1]["hits"]}
        core.off()
        after = base.listing(ctx.root)
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and not k.startswith("tmp/"))
        tag = "%s: " % " ".join(argv[1:])
        ok = err is None or (isinstance(err, SystemExit) and err.code in (0, None))
        info["ok" if ok else "failed"] += 1
        target = "wout_%s.nc" % cfg if op["cmd"] != "convert" else str(src.parent / (name.replace("input.", "") + ".json"))
        bad_threads = op["cmd"] != "convert" and op.get("threads") is not None and op["threads"] <= 0
        should_fail = op.get("broken") or op.get("missing") or (op["cmd"] != "convert" and (op.get("fail") or bad_threads))
        ref, referr = (None, None)
        if op["cmd"] != "convert" and not should_fail:
            ref, referr = try_(lambda: vmecpp.run(v, max_threads=1, verbose=0))
            should_fail = referr is not None
        other = [x for x in changed if os.path.normpath(x) != os.path.normpath(target) and not ({"unlink"} & hits and not ok)]
        if other:
            probs.append(tag + "other files changed: %s (%s)" % (other, says(err)))
        if should_fail and ok:
            probs.append(tag + "failure reported as success")
        if not ok and not should_fail and not inj:
            probs.append(tag + "failed: %s" % says(err))
        if not ok and op["cmd"] != "convert" and os.path.normpath(target) in changed:
            probs.append(tag + "failed, but changed %s" % target)
        if ok and not should_fail:
            if op["cmd"] == "convert":
                r, e2 = try_(lambda: vmecpp.VmecInput.from_file(target))
                if e2 is not None or snap_diff(snap(v), snap(r)):
                    probs.append(tag + "converted file: %s" % (says(e2) or snap_diff(snap(v), snap(r))))
            else:
                if len(core.calls) != 1:
                    probs.append(tag + "%d solves" % len(core.calls))
                else:
                    c = core.calls[0]
                    if c["threads"] != op.get("threads"):
                        probs.append(tag + "threads %s" % c["threads"])
                    wantv = {"quiet": (0,), "": (0,), "legacy": (1,), "progress": (2, 3)}[op["mode"]]
                    if c["verbose"] not in wantv:
                        probs.append(tag + "output mode %d" % c["verbose"])
                r, e2 = try_(lambda: vmecpp.VmecWOut.from_wout_file(target))
                if e2 is not None:
                    probs.append(tag + "result file: %s" % says(e2))
                elif ref is not None:
                    d = [n for n in ("rmnc", "zmns", "lmns", "bmnc", "iotaf", "presf", "aspect", "fsqr", "niter", "ns", "mpol", "ntor")
                         if not base.same(getattr(r, n), getattr(ref.wout, n))]
                    if d:
                        probs.append(tag + "result file is not the solution: %s" % d)
                if target not in buf.getvalue():
                    probs.append(tag + "does not say where the output is")
        if probs:
            break
    return verdict(probs, info)
