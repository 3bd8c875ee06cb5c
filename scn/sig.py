"""C09: signals during a solve that runs in Python.  The clock is the number of
barriers the (single-threaded) solver has passed; signals are raised at planned
values of it."""
import gc
import signal

import numpy as np

import vmecpp
from scn import base, flow

INPUTS, REF, FIELD = {}, {}, {}
CASES = ["axi", "asym", "stell", "free", "only_coils"]


class Stop(Exception):
    pass


def prepare():
    FIELD["f"] = vmecpp.MagneticFieldResponseTable.from_coils_file(
        base.CASES + "coils.cth_like", vmecpp.MakegridParameters.from_file(base.CASES + "makegrid_cth_small.json"))
    for n in CASES:
        INPUTS[n] = make(n)
    vmecpp._progress_tip_shown = True


def free(n):
    return n in ("free", "only_coils")


def make(n):
    x = base.load_input(n)
    x.ns_array = np.array([5], dtype=np.int64)
    x.ftol_array = np.array([1e-8 if free(n) else 1e-10])
    x.niter_array = np.array([1500], dtype=np.int64)
    return x


def flat(o, p=""):
    out = {}
    for k in type(o).model_fields:
        v = getattr(o, k)
        if hasattr(type(v), "model_fields"):
            out.update(flat(v, p + k + "."))
        else:
            out[p + k] = flow._plain(flow._copy(v))
    return out


def diff(a, b):
    return [k for k in a if k not in b or not base.same(a[k], b[k])] + [k for k in b if k not in a]


def solve(a, k=0):
    """The call under test; a["how"]: plain, hot, continuation or schedule."""
    n = a["case"]
    x = INPUTS[n].model_copy(deep=True)
    x.nstep = a["nstep"]
    kw = dict(max_threads=1, verbose=a.get("mode", 0))
    if free(n):
        kw["magnetic_field"] = FIELD["f"]
    if a["how"] == "multi":
        x.ns_array = np.array([3, 5], dtype=np.int64)
        x.ftol_array = np.array([1e-6, float(x.ftol_array[-1])])
        x.niter_array = np.array([1500, 1500], dtype=np.int64)
    elif a["how"] == "continuation":
        x.ns_array = np.array([5, 5], dtype=np.int64)
        x.ftol_array = np.array([1e-6, float(x.ftol_array[-1])])
        x.niter_array = np.array([1500, 1500], dtype=np.int64)
        x.mpol = np.array([x.mpol - 1, x.mpol], dtype=np.int64)
    elif a["how"] == "hot":
        kw["restart_from"] = REF[n, "cold"]
        x.pres_scale = x.pres_scale * 1.02
        x.phiedge = x.phiedge * 1.01
    elif a["how"] == "fail":
        x.niter_array = np.array([60], dtype=np.int64)
        x.ftol_array = np.array([1e-30])
    before = flat(x)
    try:
        r = ("ok", vmecpp.run(x, **kw))
    except BaseException as e:  # noqa: BLE001
        r = ("raised", e)
    return r, diff(before, flat(x))


def c09(ctx, a):
    probs, info, hits = [], {}, []
    n = a["case"]
    if a["how"] == "hot":
        c = dict(a, how="plain", mode=0)
        (_, REF[n, "cold"]), _ = solve(c)
    # the undisturbed call, and its length on the clock
    ctx.signals([(1 << 60, int(signal.SIGUSR1))])
    ref, _ = solve(a)
    total = ctx.clock()[0]
    ctx.signals([])
    ok = ref[0] == "ok"
    if ok != (a["how"] != "fail"):
        return flow.verdict(["undisturbed run: %s %r" % (ref[0], None if ok else ref[1])], info)
    want = flat(ref[1]) if ok else None
    iters = int(ref[1].wout.niter) if ok else 60
    per = total / max(1, iters)
    if a["how"] in ("multi", "continuation") and ok:
        iters = max(iters, 1)
        per = total / 2 / max(1, min(iters, 20))
    bound = per * (a["nstep"] + 4) * 2 + 200

    seen = []  # (which signal, clock)
    objs = {}
    nested = []

    def on_int(sig, frame):
        seen.append(("int", ctx.clock()[0]))
        e = KeyboardInterrupt("planned")
        objs["e"] = e
        raise e

    def on_custom(sig, frame):
        seen.append(("custom", ctx.clock()[0]))
        e = Stop("planned")
        objs["e"] = e
        raise e

    def on_note(sig, frame):
        seen.append(("note", ctx.clock()[0]))
        if a.get("work") == "solve":
            ctx.pause(1)
            try:
                r = vmecpp.run(INPUTS["axi"].model_copy(deep=True), max_threads=1, verbose=0)
                nested.append(flat(r))
            except BaseException as e:  # noqa: BLE001
                probs.append("solve inside a signal handler: %r" % e)
            ctx.pause(0)
        elif a.get("work") == "gc":
            gc.collect()

    sigs = {"int": (signal.SIGINT, on_int), "custom": (signal.SIGUSR1, on_custom), "note": (signal.SIGUSR2, on_note)}
    for s, h in sigs.values():
        signal.signal(s, h)
    plan = sorted((min(int(f["at"] * total), total - 1), f["kind"]) for f in a["sigs"])
    ctx.signals([(k, int(sigs[kind][0])) for k, kind in plan])
    got, changed = solve(a)
    clock, raised = ctx.clock()
    ctx.signals([])
    for s, _ in sigs.values():
        signal.signal(s, signal.SIG_DFL)
    for k, kind in plan[:raised]:
        hits.append(["solve", "signal:" + kind])
    stops = [s for s in seen if s[0] != "note"]
    info["signals"] = len(seen)
    info["stopped"] = int(bool(stops))
    if changed:
        probs.append("input modified: %s" % changed[:3])
    if stops:
        if got[0] == "ok":
            probs.append("lost: the handler raised during the run, the run returned a result")
        elif got[1] is not objs["e"] and got[1].__context__ is not objs["e"]:
            probs.append("other error: the handler raised %s, the caller got %r" % (type(objs["e"]).__name__, got[1]))
        elif got[1] is not objs["e"]:
            probs.append("replaced: the handler's %s reached the caller as %r" % (type(objs["e"]).__name__, got[1]))
        if clock - stops[0][1] > bound and a["how"] != "fail":
            probs.append("late stop: %d barriers after the handler raised (bound %d, whole run %d)" % (clock - stops[0][1], bound, total))
    else:
        if got[0] != ref[0]:
            probs.append("changed outcome: signal handlers returned, the run ended with %s instead of %s: %r" % (got[0], ref[0], got[1]))
        elif ok and diff(want, flat(got[1])):
            probs.append("changed result: signal handlers returned, but the result differs in %s" % diff(want, flat(got[1]))[:4])
        elif not ok and (type(got[1]) is not type(ref[1]) or str(got[1]) != str(ref[1])):
            probs.append("changed error: %r instead of %r" % (got[1], ref[1]))
    # how long signals waited: every planned one that was raised must be seen
    first = [k for k, kind in plan[:raised]]
    if raised and not seen:
        probs.append("lost signal: raised at %s, no handler ran" % first)
    if seen and first and seen[0][1] - first[0] > bound and a["how"] != "fail" and clock - seen[0][1] > 0:
        probs.append("late poll: signal at %d, handler ran at %d (bound %d, whole run %d)" % (first[0], seen[0][1], bound, total))
    if nested:
        r, _ = solve({"case": "axi", "how": "plain", "nstep": INPUTS["axi"].nstep})
        if r[0] != "ok" or any(diff(flat(r[1]), x) for x in nested):
            probs.append("a solve inside a signal handler differs from the same solve alone")
    # afterwards
    again, _ = solve(a)
    if again[0] != ref[0] or (ok and diff(want, flat(again[1]))):
        probs.append("after: the same call after the signals ended with %s %s" % (
            again[0], diff(want, flat(again[1]))[:4] if again[0] == "ok" and ok else repr(again[1])))
    flow.INJECTED.extend(hits)
    return dict(flow.verdict(probs, info), trace=[total, plan, seen, raised, clock, got[0]])
