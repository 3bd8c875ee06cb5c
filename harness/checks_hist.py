"""Checks C04..C08: histories of solver calls (honest convergence, interrupts,
isolation between calls, hot restart) under the OpenMP simulator."""
import copy
import json
import os
import time

import numpy as np

from . import checks_solver as cs
from . import common, solver
from .checks_solver import (FIXED, FREE, Refs, Tally, case_json, deviation, enough,
                            random_variant, report, significant, threads_for, variant_op, view)
from .common import Check, log, parallel, rng_for, scale, thorough
from .solver import case_op


def deadline(t0):
    return t0 + (3300 if thorough() else 420)


def case_of(op):
    return os.path.basename(op["input"])[:-5]


def full_input(op):
    d = case_json(case_of(op))
    d.update(op.get("overrides", {}))
    return d


def died(r):
    if r.get("fatal"):
        return ["died", r["fatal"]["kind"]], "%s: %s" % (r["fatal"]["kind"], r["fatal"]["detail"][:200])
    if r.get("crash"):
        return ["died", "crash"], r["crash"][-300:]
    return None


def sweep(chk, specs, oracle, tally, t0, want_dump=True, probes=None, simplify=cs.SIMPS, extra=None):
    """Runs every spec, applies oracle(spec, r) -> None | (sig, text)."""
    first = {}

    def one(spec):
        r = solver.run(spec, want_dump=want_dump)
        return spec, r, oracle(spec, r)

    for res in parallel(one, specs, deadline=deadline(t0)):
        if res is None:
            continue
        spec, r, p = res
        tally.add(spec, r, **(probes(spec, r) if probes else {}))
        if p:
            first.setdefault(json.dumps(p[0]), (spec, p))
    for sig, (spec, p) in list(first.items())[:3]:
        if enough(chk):
            break
        s = json.loads(sig)

        def same(r, s=s, spec=spec):
            q = oracle(dict(spec, ops=r["_ops"]), r)
            return q is not None and q[0] == s
        report(chk, s, p[1], spec, same, simplify, extra=extra)
    return first


# ======================================================================= C04
# Well-posed problems shipped with their own budget: they must converge.
MUST = [c for c in FIXED + FREE if c != "axi_broken"]


def c04_oracle(spec, r):
    q = died(r)
    if q:
        return q
    for i, (op, o) in enumerate(zip(spec["ops"], r["ops"])):
        d = full_input(op)
        opt_in = d.get("return_outputs_even_if_not_converged", False)
        if spec.get("expect", {}).get(str(i)) == "converges" and o["code"] != 0:
            return ["well-posed problem reported as failed", case_of(op)], (
                "%s: %s" % (case_of(op), o["message"][:300]))
        if "limit" in spec and i == 1 and r["ops"][0]["code"] == 0 and "hot_from" in op:
            if o["code"] != 0:
                return ["converged result is not a solution"], (
                    "%s: continuing from a result reported as converged fails: %s" % (case_of(op), o["message"][:200]))
            if o["nfev"] > spec["limit"]:
                return ["converged result is not a solution"], (
                    "%s: continuing from a result reported as converged took %d iterations" % (case_of(op), o["nfev"]))
        if o["code"] != 0:
            if not o["message"]:
                return ["error without message"], case_of(op)
            continue
        worst = max(float("nan") if o[k] is None else o[k] for k in ("fsqr", "fsqz", "fsql"))
        if any(o[k] is None for k in ("fsqr", "fsqz", "fsql")):
            worst = float("inf")    # not a number
        if o["ns"] != max(d["ns_array"]):
            if not (opt_in and o["ier_flag"] != 0):
                return ["wrong final grid"], "%s: ns=%s for ns_array=%s" % (case_of(op), o["ns"], d["ns_array"])
        if opt_in:
            continue
        if not (worst <= d["ftol_array"][-1]):
            return ["success above tolerance"], "%s: reported as converged with residuals %s %s %s, ftol %.3e" % (
                case_of(op), o["fsqr"], o["fsqz"], o["fsql"], d["ftol_array"][-1])
        if o["ftolv"] != d["ftol_array"][-1]:
            return ["wrong tolerance"], "%s: ftolv=%s for ftol_array=%s" % (case_of(op), o["ftolv"], d["ftol_array"])
        if o["ier_flag"] != 0:
            return ["success with error flag"], "%s: ier_flag=%s" % (case_of(op), o["ier_flag"])
    return None


def c04_specs(n):
    out = []
    for i in range(n):
        rng = rng_for("C04", i)
        spec = {"shadow": False, "poison": rng.random() < 0.2, "max_steps": 6 * 10 ** 9, "expect": {}}
        th = threads_for(rng)
        if i < len(MUST):
            case = MUST[i]
            d = case_json(case)
            spec["expect"]["0"] = "converges"
            ov = {"ns_array": [d["ns_array"][-1]], "ftol_array": [d["ftol_array"][-1]],
                  "niter_array": [d["niter_array"][-1]]}
            spec["ops"] = [case_op(case, th), case_op(case, threads_for(rng), overrides=ov, hot_from=0)]
            # calibrated: fixed boundary 0-1 iterations, free boundary 13-50
            spec["limit"] = 400 if case in FREE else 4
        else:
            case = rng.choice(FIXED + FREE)
            d = case_json(case)
            k = rng.choice([1, 1, 2, 3])
            ns = sorted(rng.choice([3, 4, 5, 6, 7, 9, 11]) for _ in range(k))
            # tolerances and budgets chosen so that runs end on every side:
            # early, just before, just after and long after their budget
            ov = {"ns_array": ns,
                  "ftol_array": [10 ** rng.uniform(-13, -2) for _ in range(k)],
                  "niter_array": [int(10 ** rng.uniform(0.5, 3.0)) for _ in range(k)],
                  "return_outputs_even_if_not_converged": rng.random() < 0.25}
            if rng.random() < 0.3:
                ov["delt"] = rng.choice([0.3, 0.7, 0.95, 1.0])
            if rng.random() < 0.3:
                ov["nstep"] = rng.choice([1, 7, 50, 1000])
            spec["ops"] = [case_op(case, th, overrides=ov)]
            if rng.random() < 0.12:
                spec["ops"][0]["interrupt_at"] = rng.randrange(0, 4)
        solver.random_schedule(rng, spec)
        out.append(spec)
    return out


def c04():
    common.build("solver_sim")
    chk, t0, tally = Check("C04"), time.time(), Tally()
    sweep(chk, c04_specs(scale(240, 4000)), c04_oracle, tally, t0, want_dump=False,
          probes=lambda s, r: {"budget_exhausted": any(o.get("code") == 13 for o in r["ops"]),
                               "converged": any(o.get("code") == 0 for o in r["ops"]),
                               "interrupt": any(o.get("raised") for o in r["ops"])})
    tally.fill(chk, t0, "one run = one problem with seeded tolerances and iteration budgets per grid (so that budgets run "
               "out at every stage), thread count, schedule and interrupts; the bundled problems additionally run to "
               "convergence and are continued from their own result; non-trivial = threads were switched between, "
               "distinct by schedule hash")
    return chk.finish()


# ======================================================================= C05
def c05_oracle(refs):
    def oracle(spec, r):
        q = died(r)
        if q:
            return q
        for i, (op, o) in enumerate(zip(spec["ops"], r["ops"])):
            if o.get("poll_thread_bad"):
                return ["callback on foreign thread"], "%s: interrupt callback ran on a worker thread" % case_of(op)
            if o.get("raised"):
                if o["code"] != 1:
                    return ["interrupt lost"], "%s: interrupt at poll %d ignored: code %d %s" % (
                        case_of(op), op["interrupt_at"], o["code"], o["message"][:200])
                if o["polls_after"]:
                    return ["slow stop"], "%s: polled again after the interrupt was raised" % case_of(op)
                ref = refs.get(plain(op))
                if ref.get("ops") and ref["ops"][0].get("polls"):
                    per = ref["stats"]["steps"]
                    lim = spec.get("after_limit") or after_limit(ref)
                    if o["steps_after_raise"] > lim:
                        return ["slow stop"], "%s: %d steps after the interrupt (bound %d, whole run %d)" % (
                            case_of(op), o["steps_after_raise"], lim, per)
            elif op.get("interrupt_at", -1) >= 0 or op.get("count_polls"):
                if o["code"] == 1:
                    return ["cancelled without interrupt"], "%s: %s" % (case_of(op), o["message"][:200])
                if o["code"] == 0 and op.get("count_polls"):
                    d = full_input(op)
                    if o.get("resets") == 0 and len(d["ns_array"]) == 1:
                        need = o["itfsq"] // d["nstep"]
                        if o["polls"] < need:
                            return ["not polled"], "%s: %d polls in %d iterations with nstep %d" % (
                                case_of(op), o["polls"], o["itfsq"], d["nstep"])
                ref = refs.get(plain(op))
                if op.get("threads") == 1 and o.get("digest") and ref["ops"][0].get("digest") != o["digest"] \
                        and o.get("ier_flag") == 0:
                    return ["polling changes result"], "%s: result with an interrupt callback differs" % case_of(op)
        return None
    return oracle


def plain(op):
    op = {k: v for k, v in op.items() if k not in ("interrupt_at", "count_polls")}
    return dict(op, count_polls=True)


def after_limit(ref):
    """Bounded stop: the rest of the current iteration plus clean-up; measured
    as a share of the whole single-threaded run per poll interval."""
    o = ref["ops"][0]
    return int(3 * o["steps"] / max(1, o.get("nfev") or o["polls"])) + 3 * 10 ** 5


def c05_specs(n):
    out = []
    for i in range(n):
        rng = rng_for("C05", i)
        spec = {"shadow": rng.random() < 0.15, "poison": False, "max_steps": 2 * 10 ** 9}
        var = random_variant(rng, full_prob=0.0)
        ov = var[1]
        ov["nstep"] = rng.choice([1, 1, 2, 3, 5, 10])
        ov["niter_array"] = [rng.choice([5, 12, 20, 30, 60]) for _ in ov["ns_array"]]
        ov["return_outputs_even_if_not_converged"] = rng.random() < 0.8
        th = rng.choice([1] + [threads_for(rng)] * 3)
        op = variant_op(var, th)
        k = rng.random()
        if k < 0.75:
            op["interrupt_at"] = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30])
        else:
            op["count_polls"] = True
            if rng.random() < 0.6:
                op["overrides"]["ns_array"] = [rng.choice([5, 7, 9])]
                op["overrides"]["ftol_array"] = [1e-10]
                op["overrides"]["niter_array"] = [rng.choice([12, 30, 60])]
        spec["ops"] = [op]
        if rng.random() < 0.3:   # the next call after a cancelled one
            op2 = {kk: v for kk, v in op.items() if kk != "interrupt_at"}
            spec["ops"].append(dict(op2, count_polls=True))
        solver.random_schedule(rng, spec)
        out.append(spec)
    return out


def c05():
    common.build("solver_sim")
    chk, t0, tally, refs = Check("C05"), time.time(), Tally(), Refs()
    oracle = c05_oracle(refs)
    worst = [0.0]

    def probes(s, r):
        for op, o in zip(s["ops"], r["ops"]):
            if o.get("raised"):
                ref = refs.get(plain(op))
                if ref.get("ops") and ref["ops"][0].get("polls"):
                    worst[0] = max(worst[0], o["steps_after_raise"] / after_limit(ref))
        return {"interrupt": sum(bool(o.get("raised")) for o in r["ops"]),
                "interrupt_armed_but_run_ended_first": sum(
                    op.get("interrupt_at", -1) >= 0 and not o.get("raised") for op, o in zip(s["ops"], r["ops"]))}
    sweep(chk, c05_specs(scale(260, 5000)), oracle, tally, t0, want_dump=True, probes=probes)
    tally.fill(chk, t0, "one run = one solve with an interrupt raised at a seeded poll (or counted polls), seeded thread "
               "count and schedule, optionally followed by another solve; non-trivial = threads were switched between, "
               "distinct by schedule hash", {"worst_stop_over_bound": round(worst[0], 3)})
    chk.assumptions = ["'bounded stop' is 3 times the single-threaded work of one iteration plus 3e5 steps"]
    return chk.finish()


cs.ORACLES["C04"] = lambda spec, r, refs: c04_oracle(spec, r)
cs.ORACLES["C05"] = lambda spec, r, refs: c05_oracle(refs)(spec, r)


# ======================================================================= C06
def c06_oracle(refs):
    """Every call in a history equals the same call made alone in a fresh
    process: bit for bit when it runs single-threaded, to rounding otherwise."""
    def oracle(spec, r):
        q = died(r)
        if q:
            return q
        for i, (op, o) in enumerate(zip(spec["ops"], r["ops"])):
            if "hot_from" in op:
                continue
            one = {k: v for k, v in op.items()}
            ref = refs.get(one)
            if ref.get("fatal") or ref.get("crash") or not ref["ops"]:
                continue
            a = ref["ops"][0]
            bad = deviation(view(ref), view(r, i), False, exact=op.get("threads") == 1)
            if bad and op.get("threads") != 1:
                skip = cs.NOISE_ONLY_COILS if case_of(op) == "only_coils" else ()
                bad = deviation(view(ref), view(r, i), False, skip)
                bad = significant(refs, one, bad, False, skip)
            if bad:
                return ["history dependence", bad[0][0] if bad[0][0] in ("outcome", "iterations") else "result"], (
                    "call %d (%s) in a history of %d calls (%s) differs from the same call alone: %s" % (
                        i, case_of(op), len(spec["ops"]), spec.get("mode", "seq"), bad[:3]))
            if a["code"] != o["code"]:
                return ["history dependence", "outcome"], "call %d" % i
        return None
    return oracle


def near(rng, op):
    """The same call with one parameter changed: what a value kept from call to
    call under too small a key would confuse."""
    op = copy.deepcopy(op)
    d = dict(case_json(case_of(op)))
    ov = op.setdefault("overrides", {})
    d.update(ov)
    if op.get("table_only"):
        op["potential"] = rng.random() < 0.3
        g = op.setdefault("grid", {})
        k = rng.choice(["number_of_field_periods", "number_of_field_periods", "number_of_phi_grid_points", "number_of_r_grid_points", "z", "r",
                        "normalize_by_currents", "assume_stellarator_symmetry", "swap"])
        if k == "z":
            g.update(z_grid_minimum=-0.2, z_grid_maximum=0.2)
        elif k == "r":
            g.update(r_grid_minimum=0.5, r_grid_maximum=1.0)
        elif k == "swap":
            g.update(number_of_field_periods=rng.choice([2, 5]), number_of_r_grid_points=12, number_of_phi_grid_points=6, number_of_z_grid_points=24)
        elif k.startswith("number"):
            g[k] = rng.choice([2, 3, 4, 7, 9])
        else:
            g[k] = not g.get(k, k.startswith("assume"))
        return op
    k = rng.choice(["nfp", "phiedge", "pres_scale", "pres_scale", "curtor", "gamma", "am", "rbc", "ntheta", "nzeta", "mpol", "delt",
                    "tcon0", "ncurr", "lforbal", "ns_array", "raxis_c", "nstep", "spres_ped", "extcur", "nvacskip"])
    f = rng.choice([0.9, 1.1])
    if k in ("phiedge", "pres_scale", "curtor", "delt", "tcon0") and d.get(k):
        ov[k] = d[k] * f
    elif k == "gamma":
        ov[k] = 5.0 / 3.0
    elif k in ("am", "raxis_c", "extcur") and d.get(k):
        ov[k] = [x * f for x in d[k]]
    elif k == "rbc":
        ov[k] = [dict(x, value=x["value"] * (f if x["m"] else 1)) for x in d[k]]
    elif k == "ntheta":
        ov[k] = rng.choice([16, 18, 22])
    elif k == "nzeta" and not d["lfreeb"]:
        ov[k] = rng.choice([8, 12, 14]) if d["ntor"] else 1
    elif k == "nfp" and not d["lfreeb"]:
        ov[k] = d["nfp"] + 1
    elif k == "mpol":
        ov[k] = d["mpol"] + 1
    elif k in ("ncurr", "lforbal"):
        ov[k] = (1 - d[k]) if k == "ncurr" else not d.get(k)
    elif k == "ns_array":
        ov[k] = [n + 2 for n in d[k]]
    elif k == "nstep":
        ov[k] = d.get("nstep", 10) + 3
    elif k == "spres_ped":
        ov[k] = 0.6
    elif k == "nvacskip":
        ov[k] = d.get(k, 1) + 1
    return op


def c06_specs(n):
    out = []
    for i in range(n):
        rng = rng_for("C06", i)
        spec = {"shadow": rng.random() < 0.1, "poison": rng.random() < 0.5, "max_steps": 4 * 10 ** 9}
        clients = rng.random() < 0.45
        m = rng.choice([2, 2, 3]) if clients else rng.choice([2, 3, 3, 4, 5])
        if clients:
            spec["mode"] = "clients"
        ops = []
        pool = [random_variant(rng, full_prob=0.0, errors=0.2) for _ in range(2)]
        for j in range(m):
            v = copy.deepcopy(rng.choice(pool)) if rng.random() < 0.5 else random_variant(rng, full_prob=0.0, errors=0.2)
            v[1]["niter_array"] = [min(x, 25) for x in v[1].get("niter_array", [20] * len(v[1].get("ns_array", case_json(v[0])["ns_array"])))]
            op = variant_op(v, 1 if rng.random() < 0.7 else rng.choice([2, 3, 4]))
            if rng.random() < 0.15:
                op["interrupt_at"] = rng.randrange(0, 5)
            if case_of(op).startswith("free") and rng.random() < 0.35:
                op["table_only"] = True
            if ops and rng.random() < 0.4:
                op = near(rng, rng.choice(ops))
            ops.append(op)
        if i % 10 < 2:
            # neighbouring calls only, and no more iterations than show a difference
            t = case_op("free", 1, table_only=True) if i % 10 == 0 else variant_op(random_variant(rng, full_prob=0.0), 1)
            if i % 10:
                t["overrides"].update(niter_array=[4] * len(t["overrides"]["ns_array"]), return_outputs_even_if_not_converged=True)
                if rng.random() < 0.4:         # stopped before anything was computed
                    t = case_op(rng.choice(["axi_broken", "axi_broken", "axi_noaxis", "stell", "asym"]), 1, rng.choice([1, 1, 2, 3]))
            ops, clients = [t], False
            spec.pop("mode", None)
            for j in range(12 if t.get("table_only") else 6):
                ops.append(near(rng, ops[-1] if rng.random() < 0.6 else rng.choice(ops)))
        spec["ops"] = ops
        solver.random_schedule(rng, spec)
        out.append(spec)
    return out


def simp_drop_any(spec):
    return cs.simp_ops(spec)


def c06():
    common.build("solver_sim")
    chk, t0, tally, refs = Check("C06"), time.time(), Tally(), Refs()
    sweep(chk, c06_specs(scale(120, 2400)), c06_oracle(refs), tally, t0,
          probes=lambda s, r: {"concurrent_callers": s.get("mode") == "clients",
                               "failed_or_cancelled_call": sum(o.get("code", 0) != 0 for o in r["ops"]),
                               "heap_poison": bool(s.get("poison")), "calls": len(r["ops"])})
    tally.fill(chk, t0, "one run = a history of 2-5 solver calls in one process, one after another or by concurrent "
               "callers, with failing, cancelled and table-only calls mixed in, heap poisoned by seed; each call is "
               "compared with the same call alone in a fresh process (bit for bit when single-threaded); non-trivial = "
               "threads were switched between, distinct by schedule hash",
               {"reference_runs": len(refs.m)})
    return chk.finish()


cs.ORACLES["C06"] = lambda spec, r, refs: c06_oracle(refs)(spec, r)


# ======================================================================= C08
TIGHT = {"axi": 1e-13, "asym": 1e-12, "stell": 1e-12, "stell_asym": 1e-12, "stell_forbal": 1e-12, "free": 1e-11}
# deviation between hot-restarted and cold solution allowed, per kind of
# change; measured at the tolerances above over several seeds: <= 1e-4 fixed
# boundary, 6e-3 free boundary, 3e-2 boundary change
HOT_FIELDS = ("rmnc", "zmns", "rmns", "zmnc", "iotaf", "wb", "wp", "volume_p", "aspect", "presf", "phi", "bmnc")
HOT_TOL = {"same": 1e-5, "pres": 1e-2, "phi": 1e-2, "curtor": 1e-2, "grid": 1e-2, "bdy": 1e-1, "mg": 1e-2}
FREE_SLACK = 5


def hot_ops(case, kind, rng):
    d = case_json(case)
    base = {"ftol_array": [TIGHT[case]], "niter_array": [5000]}
    mod = dict(base)
    f = 1 + rng.choice([-1, 1]) * rng.uniform(0.01, 0.08)
    if kind == "pres":
        mod["pres_scale"] = d.get("pres_scale", 1.0) * f
    if kind == "phi":
        mod["phiedge"] = d["phiedge"] * f
    if kind == "curtor":
        mod["curtor"] = d.get("curtor", 0.0) * f
    if kind == "bdy":
        b = copy.deepcopy(d["rbc"])
        for e in b:
            if e["m"] == 1 and e["n"] == 0:
                e["value"] *= 1 + 0.4 * (f - 1)
        mod["rbc"] = b
    if kind == "grid":
        n = d["ns_array"][0]
        mod.update(ns_array=[n, n + rng.choice([2, 3, 4, 6])], ftol_array=[TIGHT[case]] * 2, niter_array=[5000] * 2)
    first = base
    if kind == "mg":    # from the result of a multi-grid run, on its final grid
        n = d["ns_array"][-1]
        first = dict(base, ns_array=[rng.choice([m for m in (3, 4, 5, 7) if m < n]), n],
                     ftol_array=[1e-6, TIGHT[case]], niter_array=[5000] * 2)
        mod["ns_array"] = [n]
    a = case_op(case, threads_for(rng), overrides=first)
    b = case_op(case, threads_for(rng), overrides=mod, hot_from=0)
    c = case_op(case, 1, overrides=mod)
    return a, b, c


def c08_oracle(refs):
    def oracle(spec, r):
        q = died(r)
        if q:
            return q
        kind = spec["kind"]
        a, b = r["ops"][0], r["ops"][1]
        case = case_of(spec["ops"][0])
        if kind == "mismatch":
            if a["code"] == 0 and b["code"] != 3:
                return ["mismatch accepted"], "%s: hot restart with incompatible state gave code %d (%s)" % (
                    case, b["code"], b["message"][:200])
            return None
        cold = refs.get({k: v for k, v in spec["ops"][1].items() if k != "hot_from"})
        if not cold.get("ops") or cold["ops"][0]["code"] != 0 or a["code"] != 0:
            return None   # the problem itself is not solvable
        if b["code"] != 0:
            return ["hot restart fails", kind], "%s/%s: cold start converges, hot restart fails: %s" % (
                case, kind, b["message"][:300])
        got, want = r["dumps"].get(1), cold["dumps"].get(0)
        bad = []
        for k, v in solver.compare(want, got, HOT_TOL[kind] * (FREE_SLACK if kind != "same" and case.startswith("free") else 1)):
            # the split of the boundary-fitted angle between the asymmetric
            # coefficients is only weakly determined: other starting points
            # reach it to about 2e-2
            if kind == "mg" and k[5:] in ("rmns", "zmnc") and "asym" in case:
                continue
            if k.startswith("wout/") and k[5:] in HOT_FIELDS:
                bad.append((k, v))
        if bad:
            return ["hot restart converges elsewhere", kind], "%s/%s: hot-restarted solution differs from the cold one: %s" % (
                case, kind, bad[:4])
        if kind == "same":
            lim = 400 if case.startswith("free") else 4
            if b["nfev"] > lim:
                return ["hot restart starts over"], "%s: %d iterations to converge from a converged state (cold: %d)" % (
                    case, b["nfev"], cold["ops"][0]["nfev"])
        # the state handed in is not modified
        own = refs.get({k: v for k, v in spec["ops"][0].items()})
        if own.get("ops") and own["ops"][0]["code"] == 0:
            for k, v in solver.compare(own["dumps"][0], r["dumps"][0], 1e-3):
                if k.startswith("wout/") and k[5:] in HOT_FIELDS:
                    return ["restart source modified"], "%s: %s %s" % (case, k, v)
        return None
    return oracle


def c08_specs(n):
    out = []
    kinds = ["same", "pres", "phi", "bdy", "grid", "curtor", "mismatch", "mg"]
    pairs = [(c, k) for c in TIGHT for k in kinds
             if not (c in ("asym", "stell_asym") and k == "bdy") and not (c == "free" and k == "bdy")]
    for i in range(n):
        rng = rng_for("C08", i)
        case, kind = pairs[i % len(pairs)]
        spec = {"shadow": False, "poison": rng.random() < 0.3, "max_steps": 8 * 10 ** 9, "kind": kind}
        if kind == "mismatch":
            d = case_json(case)
            a = case_op(case, threads_for(rng), 3)
            ch = rng.choice(["ns", "mpol", "ntor", "lasym", "mg"])
            ov = {"niter_array": [3], "return_outputs_even_if_not_converged": True}
            if ch == "ns":
                ov["ns_array"] = [d["ns_array"][0] + rng.choice([-2, 1, 2, 4])]
            elif ch == "mg":
                n = d["ns_array"][-1]
                k = rng.choice([m for m in (3, 4, 5, 7) if m < n])
                a = case_op(case, threads_for(rng), 3, overrides={"ns_array": [k, n], "ftol_array": [1e-6] * 2})
                ov["ns_array"] = [k]
            elif ch == "mpol":
                ov["mpol"] = d["mpol"] + rng.choice([-1, 1])
            elif ch == "ntor":
                ov["ntor"] = d["ntor"] + 1
                ov["nzeta"] = max(d.get("nzeta", 0), 2 * d["ntor"] + 6) if not case.startswith("free") else d["nzeta"]
                ov["raxis_c"] = d["raxis_c"] + [0.0]
                ov["zaxis_s"] = d["zaxis_s"] + [0.0]
                if d.get("lasym"):
                    ov["raxis_s"] = d.get("raxis_s", [0.0] * (d["ntor"] + 1)) + [0.0]
                    ov["zaxis_c"] = d.get("zaxis_c", [0.0] * (d["ntor"] + 1)) + [0.0]
            else:
                ov["lasym"] = not d.get("lasym", False)
                if ov["lasym"]:
                    ov["raxis_s"] = ov["zaxis_c"] = [0.0] * (d["ntor"] + 1)
            spec["ops"] = [a, case_op(case, threads_for(rng), overrides=ov, hot_from=0)]
            spec["change"] = ch
        else:
            a, b, _ = hot_ops(case, kind, rng)
            spec["ops"] = [a, b]
        solver.random_schedule(rng, spec)
        out.append(spec)
    return out


def c08():
    common.build("solver_sim")
    chk, t0, tally, refs = Check("C08"), time.time(), Tally(), Refs()
    sweep(chk, c08_specs(scale(84, 900)), c08_oracle(refs), tally, t0, simplify=(cs.simp_threads, cs.simp_stall),
          probes=lambda s, r: {"restart_" + s["kind"]: 1, "restart_converged": s["kind"] != "mismatch" and
                               len(r["ops"]) > 1 and r["ops"][1].get("code") == 0})
    tally.fill(chk, t0, "one run = solve, then restart from the result with the same, a changed or an incompatible input, "
               "thread counts and schedules of both seeded; compared with the cold solution of the same input; "
               "non-trivial = threads were switched between, distinct by schedule hash", {"cold_reference_runs": len(refs.m)})
    return chk.finish()


cs.ORACLES["C08"] = lambda spec, r, refs: c08_oracle(refs)(spec, r)
