"""Checks C01..C08: the real parallel solver under the OpenMP simulator."""
import copy
import json
import os
import threading
import time

import numpy as np

from . import common, solver
from .common import Check, CheckError, log, parallel, rng_for, scale, thorough
from .solver import case_op

FIXED = ["axi", "axi_mg", "axi_noaxis", "asym", "asym_mg", "stell", "stell_mg",
         "stell_fft", "stell_asym", "stell_parvmec", "stell_forbal", "axi_badstep"]
FREE = ["free", "free_mg", "free_asym", "only_coils"]
NOISE_ONLY_COILS = ("ctor", "toroidal_current", "jcurv", "avg_jsupv", "buco",
                    "torcur")
REAL = ["vmecpp/vmec (solver, ideal MHD model, output quantities)",
        "vmecpp/free_boundary (Nestor, only-coils, mgrid provider)",
        "vmecpp/common (makegrid, input, boundaries, profiles, flow control)",
        "util/*", "HDF5 and LAPACK libraries"]
STUB = ["OpenMP runtime (replaced by the simulator: fibers, seeded scheduler)",
        "malloc (deterministic arena, optional poison)",
        "abscab (finite-filament field formula stand-in)", "absl logging macros"]


def is_free(case):
    return case in FREE


def case_json(case):
    return json.load(open(solver.CASES + case + ".json"))


def random_ns(rng):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    return sorted(rng.choice([3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17]) for _ in range(n))


def random_variant(rng, cases=None, full_prob=0.12, errors=0.0):
    """A problem: (case, overrides) without thread count or schedule."""
    case = rng.choice(cases or (FIXED + FREE + FREE))
    ov = {}
    full = rng.random() < full_prob
    if full:
        d = case_json(case)
        if rng.random() < 0.3:
            d["niter_array"] = [max(30, n // 40) for n in d["niter_array"]]
            ov["niter_array"] = d["niter_array"]
            ov["return_outputs_even_if_not_converged"] = rng.random() < 0.5
    else:
        if rng.random() < 0.75:
            ov["ns_array"] = random_ns(rng)
        else:
            ov["ns_array"] = case_json(case)["ns_array"]
        k = len(ov["ns_array"])
        ov["ftol_array"] = [1e-10] * k
        ov["niter_array"] = [rng.choice([2, 3, 5, 8, 12, 20, 30, 60]) for _ in range(k)]
        ov["return_outputs_even_if_not_converged"] = rng.random() < 0.93
        if case.startswith("stell") and rng.random() < 0.4:
            ov["nzeta"] = rng.choice([8, 9, 10, 12, 14, 18])
        if case.startswith(("axi", "asym", "stell")) and rng.random() < 0.3:
            ov["ntheta"] = rng.choice([16, 18, 20, 22])
        if is_free(case):
            ov["nvacskip"] = rng.choice([1, 2, 3, 6, 9])
        if rng.random() < 0.2:
            ov["iteration_style"] = rng.choice(["vmec_8_52", "parvmec"])
        if rng.random() < 0.15:
            ov["ncurr"] = rng.choice([0, 1])
        if rng.random() < 0.15:
            ov["lforbal"] = True
        if rng.random() < 0.15:
            ov["delt"] = rng.choice([0.1, 0.5, 1.0, 3.0])
        if rng.random() < 0.1:
            ov["tcon0"] = rng.choice([0.0, 0.5, 1.0])
    if rng.random() < errors:
        kind = rng.choice(["broken", "flat", "flip", "curtor", "badstep", "badprofile"])
        if kind == "broken":
            case, ov = "axi_broken", {"ns_array": [rng.choice([3, 5, 7, 9])]}
            if rng.random() < 0.5:
                ov["niter_array"] = [rng.choice([5, 40, 200])]
        elif kind == "flat":
            case = rng.choice(["axi", "axi_mg"])
            ov = {"rbc": [{"n": 0, "m": 0, "value": 4.0}]}
        elif kind == "flip":
            case = rng.choice(["free", "free_mg"])
            ov = {"phiedge": 0.035}
        elif kind == "curtor":
            case = rng.choice(["free", "free_mg"])
            ov = {"curtor": 4.0e6}
        elif kind == "badstep":
            case = rng.choice(["axi_badstep", "stell", "free", "asym"])
            ov = {"delt": rng.choice([1.5, 3.0, 6.0, 10.0]), "ftol_array": [1e-30],
                  "ns_array": [rng.choice([5, 7, 9])],
                  "niter_array": [rng.choice([50, 150, 400])]}
        else:
            case = rng.choice(["axi", "stell"])
            ov = {"pmass_type": "no_such_profile"}
        ov["return_outputs_even_if_not_converged"] = rng.random() < 0.5
    return case, ov, full


def variant_op(var, threads, **kw):
    case, ov, _ = var
    return case_op(case, threads, overrides=ov, **kw)


def thread_spread(rng, n):
    """n thread counts, without repetition as far as that goes, so that a
    problem meets most counts and not the same one again and again."""
    small = [2, 3, 4, 5, 6, 7, 8]
    rng.shuffle(small)
    out = small[:max(0, n - 1)]
    while len(out) < n:
        out.append(rng.choice([8, 9, 10, 12, 16]))
    rng.shuffle(out)
    return out


def threads_for(rng):
    return rng.choice([2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 12, 16])


class Refs:
    """Single-threaded reference results, one per distinct problem."""

    def __init__(self):
        self.m, self.l = {}, threading.Lock()

    def get(self, op):
        op = {k: v for k, v in op.items() if k not in ("threads",)}
        key = json.dumps(op, sort_keys=True)
        with self.l:
            if key not in self.m:
                self.m[key] = [threading.Lock(), None]
            e = self.m[key]
        with e[0]:
            if e[1] is None:
                e[1] = solver.run({"seed": 1, "strategy": 2, "shadow": False,
                                   "max_steps": 6 * 10 ** 9,
                                   "ops": [dict(op, threads=1)]})
        return e[1]


def deviation(ref, got, full, skip=(), exact=False):
    """[(what, size)] differing observables of one operation, [] if same."""
    ra, rb = ref["ops"][0] if ref["ops"] else None, got["ops"]
    a, b = ref["opres"], got["opres"]
    if a is None or b is None:
        return [("missing result", "")] if (a is None) != (b is None) else []
    if (a["code"] == 0) != (b["code"] == 0) or a["code"] != b["code"]:
        return [("outcome", "code %s instead of %s: %s" % (b["code"], a["code"],
                                                          (b.get("message") or a.get("message"))[:300]))]
    if a["code"] != 0:
        return []
    edge = False
    if a.get("nfev") != b.get("nfev") or a.get("itfsq") != b.get("itfsq"):
        if not full or abs(a["nfev"] - b["nfev"]) > 2 + a["nfev"] // 20:
            return [("iterations", "%s instead of %s" % (b.get("nfev"), a.get("nfev")))]
        edge = True
    if a.get("ier_flag") != b.get("ier_flag"):
        return [("ier_flag", "%s instead of %s" % (b["ier_flag"], a["ier_flag"]))]
    if a.get("ier_flag", 0) != 0 and not exact:
        # the solver gave up and the caller opted into best-effort numbers,
        # which are documented to be arbitrary: only the outcome counts
        return []
    if ref["dump"] is None or got["dump"] is None:
        return []
    # force residuals and quantities that are differences of large numbers
    # amplify rounding; see DESIGN.md for the calibration
    soft = ("fsq", "force", "equif", "avforce", "jcrossb", "jxb_gradp", "jsups3",
            "bsubvu", "amaxfor", "aminfor", "delta2", "delta3", "currumn",
            "jparPS", "Dgeod", "DGeod", "well", "vpp", "currvmn", "delbsq",
            "restart", "itheta", "izeta", "jsupu3", "jsupv3", "Dcurr", "DCurr")
    if edge:
        rsoft = rcore = 1e-1
        soft = soft + ()
    elif full:
        rsoft, rcore = 1e-4, 2e-6
    else:
        rsoft, rcore = 1e-6, 1e-8
    if exact:
        rsoft = rcore = 0.0
    bad = []
    for k, dv in solver.compare(ref["dump"], got["dump"], rcore, skip):
        if isinstance(dv, float) and dv <= rsoft and any(s in k for s in soft):
            continue
        bad.append((k, dv))
    return bad


def view(r, i=0):
    """One operation of a run, in the shape deviation() takes."""
    return {"ops": r["ops"], "opres": r["ops"][i] if i < len(r["ops"]) else None,
            "dump": r.get("dumps", {}).get(i)}


def significant(refs, op, bad, full, skip=()):
    """Removes deviations that rounding explains: the same problem with its
    flux scaled by a few parts in 1e13 is solved single-threaded, and what
    moves there as much (to within a factor 50) is noise of the problem."""
    if not bad:
        return bad
    ref = refs.get(op)
    case = os.path.basename(op["input"])[:-5]
    d = case_json(case)
    noise = {}
    for f in (1e-13, -1e-13, 3e-13):
        o2 = copy.deepcopy(op)
        ov = o2.setdefault("overrides", {})
        ov["phiedge"] = ov.get("phiedge", d["phiedge"]) * (1 + f)
        r2 = refs.get(o2)
        if bool(r2.get("crash") or r2.get("fatal")) != bool(ref.get("crash") or ref.get("fatal")):
            return []
        for k, v in deviation(view(ref), view(r2), full, skip, exact=True):
            if isinstance(v, str):
                if k in ("outcome", "iterations", "ier_flag"):
                    return []  # the problem itself sits on an edge
                noise[k] = float("inf")
            else:
                noise[k] = max(noise.get(k, 0.0), v)
    return [(k, v) for k, v in bad if isinstance(v, str) and k not in noise
            or isinstance(v, float) and v > 50 * noise.get(k, 0.0)]


class Tally:
    def __init__(self):
        self.n = 0
        self.sum = {}
        self.hashes = set()
        self.strategies = {}
        self.samples = []
        self.cases = set()
        self.threads = set()

    def add(self, spec, r, **probes):
        self.n += 1
        st = r.get("stats", {})
        for k, v in st.items():
            if k == "schedule_hash":
                continue
            if k == "max_team":
                self.sum[k] = max(self.sum.get(k, 0), v)
            else:
                self.sum[k] = self.sum.get(k, 0) + v
        for k, v in probes.items():
            self.sum["probe_" + k] = self.sum.get("probe_" + k, 0) + int(v)
        if st.get("switches", 0) > 0:
            self.hashes.add(st.get("schedule_hash"))
        name = {v: k for k, v in solver.STRATEGIES.items()}.get(spec.get("strategy"), "?")
        self.strategies[name] = self.strategies.get(name, 0) + 1
        for o in spec["ops"]:
            self.cases.add(os.path.basename(o["input"])[:-5])
            self.threads.add(o.get("threads"))
        if len(self.samples) < 3:
            self.samples.append({k: v for k, v in spec.items()})

    def fill(self, chk, t0, rule, extra=None):
        chk.coverage.update({
            "evaluations": self.n, "distinct_nontrivial": len(self.hashes), "rule": rule,
            "samples": self.samples, "exploration_wall_s": round(time.time() - t0, 2),
            "simulated_steps": self.sum.get("steps", 0),
            "simulated_time_note": "no clocks in these properties; time is counted in simulated steps "
                                   "(instrumented memory accesses and synchronisation operations)",
            "distinct_interleavings": len(self.hashes),
            "interleaving_measure": "hash of the full sequence of (step, thread) scheduling decisions",
            "faults_injected": {
                "preemption": self.sum.get("preemptions", 0),
                "thread_stall": self.sum.get("stalls", 0),
                **{k[6:]: v for k, v in self.sum.items() if k.startswith("probe_")}},
            "sync_events": {k: self.sum.get(k, 0) for k in
                            ("barriers", "singles", "criticals", "mutexes", "atomics",
                             "parallels", "nested", "decisions", "switches")},
            "max_team": self.sum.get("max_team", 0),
            "strategies": self.strategies, "cases": sorted(self.cases),
            "thread_counts": sorted(t for t in self.threads if t),
            "components_real": REAL, "components_stub": STUB})
        if extra:
            chk.coverage.update(extra)


# ---------------------------------------------------------- minimisation help
def simp_threads(spec):
    for o in spec["ops"]:
        if o.get("threads", 1) > 2:
            o["threads"] -= 1
            return spec
    return None


def simp_niter(spec):
    for o in spec["ops"]:
        n = o.get("overrides", {}).get("niter_array")
        if n and max(n) > 2:
            o["overrides"]["niter_array"] = [max(2, x // 2) for x in n]
            return spec
    return None


def simp_ops(spec):
    if len(spec["ops"]) > 1 and not any("hot_from" in o for o in spec["ops"]):
        spec["ops"] = spec["ops"][:-1]
        return spec
    return None


def simp_stall(spec):
    return {k: v for k, v in spec.items() if k not in ("stall",)} if "stall" in spec else None


SIMPS = (simp_ops, simp_threads, simp_niter, simp_stall)


def report(chk, sig, summary, spec, same, simplify=SIMPS, budget=40, extra=None):
    """Gate (replays identically, twice, in fresh processes), minimise, gate
    again, write the replay file."""
    if not solver.gate(spec, same):
        log("not reproduced, dropped:", summary, json.dumps(spec)[:1000])
        return
    mini, used = solver.minimise(spec, same, simplify, budget)
    again = solver.gate(mini, same)
    if not again:
        mini, again = spec, solver.gate(spec, same) or (None, False)
    doc = {"replays_identically": again[1], "kind": "solver", "spec": mini, "original_spec": spec,
           "minimisation_runs": used,
           "schedule_points": len(mini.get("trace_in", [])) if "trace_in" in mini else "seeded"}
    doc.update(extra or {})
    chk.violation(sig, summary, doc)


def enough(chk):
    return len(chk.violations) >= 3


# ======================================================================= C01
def race_oracle(r):
    return [solver.race_signature(x) for x in r.get("races", [])]


def c01_specs(n):
    out = []
    for i in range(n):
        rng = rng_for("C01", i)
        kind = rng.random()
        spec = {"shadow": True, "poison": rng.random() < 0.2, "max_steps": 2 * 10 ** 9}
        if kind < 0.70:
            var = random_variant(rng, full_prob=0.06, errors=0.12)
            spec["ops"] = [variant_op(var, threads_for(rng), verbose=rng.random() < 0.1)]
        elif kind < 0.76:  # response table only: makegrid loops
            spec["ops"] = [case_op("free", threads_for(rng), table_only=True)]
        elif kind < 0.83:  # interrupted run
            var = random_variant(rng, full_prob=0.0)
            spec["ops"] = [variant_op(var, threads_for(rng), interrupt_at=rng.randrange(0, 25))]
        elif kind < 0.91:  # hot restart
            case = rng.choice(["axi", "stell", "asym", "free"])
            k = rng.choice([3, 6, 10])
            a = case_op(case, threads_for(rng), k)
            b = case_op(case, threads_for(rng), k, hot_from=0)
            spec["ops"] = [a, b]
        else:  # several callers at once
            m = rng.choice([2, 2, 3])
            vs = [random_variant(rng, full_prob=0.0, cases=["axi", "stell", "asym", "free", "axi_mg"])
                  for _ in range(m)]
            spec["mode"] = "clients"
            spec["ops"] = []
            for v in vs:
                v[1]["niter_array"] = [min(x, 8) for x in v[1].get("niter_array", [8])]
                spec["ops"].append(variant_op(v, rng.choice([1, 2, 3])))
        solver.random_schedule(rng, spec)
        out.append(spec)
    return out


def c01():
    common.build("solver_sim")
    chk = Check("C01")
    t0 = time.time()
    tally = Tally()
    seen = {}
    specs = c01_specs(scale(420, 6000))
    deadline = t0 + (3300 if thorough() else 420)

    def one(spec):
        r = solver.run(spec, want_dump=False)
        return spec, r

    for res in parallel(one, specs, deadline=deadline):
        if res is None:
            continue
        spec, r = res
        tally.add(spec, r, interrupt=sum(o.get("raised", False) for o in r["ops"]),
                  concurrent_callers=spec.get("mode") == "clients",
                  error_exit=any(o.get("code", 0) != 0 for o in r["ops"]),
                  heap_poison=bool(spec.get("poison")))
        for x in r.get("races", []):
            seen.setdefault(json.dumps(solver.race_signature(x)), (spec, x))
    for sig, (spec, x) in list(seen.items())[:6]:
        if enough(chk):
            break
        report(chk, json.loads(sig), "unordered conflicting accesses: " + solver.race_text(x), spec,
               lambda r, s=json.loads(sig): s in race_oracle(r))
    tally.fill(chk, t0, "one run = one solver history (solve / table computation / interrupted / hot-restarted / "
               "concurrent callers) with seeded problem, thread count and schedule; non-trivial = at least two "
               "threads were switched between, distinct by schedule hash",
               {"race_checked_accesses": tally.sum.get("accesses", 0)})
    chk.assumptions = ["accesses inside uninstrumented libraries (HDF5, netCDF, LAPACK, libstdc++ binary) are seen "
                       "only through intercepted entry points",
                       "sequentially consistent interleavings; weaker behaviours need a race, which is what is detected"]
    return chk.finish()


# ======================================================================= C02
def c02_diff(refs, var, spec, r):
    ref = refs.get(spec["ops"][0])
    if r.get("crash") or r.get("fatal") or ref.get("crash") or ref.get("fatal"):
        if bool(r.get("crash") or r.get("fatal")) != bool(ref.get("crash") or ref.get("fatal")):
            return [("outcome", "run died: %s" % (r.get("fatal") or r.get("crash")))]
        return []
    skip = NOISE_ONLY_COILS if var[0] == "only_coils" else ()
    bad = deviation(view(ref), view(r), var[2], skip)
    return significant(refs, spec["ops"][0], bad, var[2], skip)


def c02():
    common.build("solver_sim")
    chk = Check("C02")
    t0 = time.time()
    tally, refs = Tally(), Refs()
    nvar = scale(104, 900)
    per = scale(6, 7)
    deadline = t0 + (3300 if thorough() else 420)
    items = []
    for v in range(nvar):
        rng = rng_for("C02v", v)
        if v < len(FIXED + FREE):
            case = (FIXED + FREE)[v]
            var = (case, {}, True)     # every mode once to convergence
        else:
            var = random_variant(rng, full_prob=0.05, errors=0.05)
        counts = [1] + thread_spread(rng_for("C02n", v), per - 1)
        for k in range(per):
            r2 = rng_for("C02", v, k)
            spec = {"shadow": r2.random() < 0.35, "poison": r2.random() < 0.3,
                    "max_steps": 6 * 10 ** 9,
                    "ops": [variant_op(var, counts[k])]}
            solver.random_schedule(r2, spec)
            items.append((var, spec))
    for k in range(scale(6, 40)):
        r2 = rng_for("C02t", k)
        spec = {"shadow": False, "ops": [case_op("free", threads_for(r2), table_only=True)]}
        items.append((("free", {}, False), solver.random_schedule(r2, spec)))
    first = {}

    def diff(var, spec, r):
        return c02_diff(refs, var, spec, r)

    def one(it):
        var, spec = it
        r = solver.run(spec)
        d = diff(var, spec, r)
        directed = 0
        if not d and r.get("races"):
            # an unordered pair was seen: steer schedules at it
            pcs = sorted({p for x in r["races"][:12] for p in x["pc"]})[:32]
            for k in range(10):
                s2 = dict(spec, shadow=False, directed=pcs, seed=spec["seed"] + 1 + k,
                          strategy=0, quantum=10 ** (1 + k % 4))
                r2 = solver.run(s2)
                directed += 1
                d = diff(var, s2, r2)
                if d:
                    spec, r = s2, r2
                    break
        return var, spec, r, d, directed

    ndir = 0
    for res in parallel(one, items, deadline=deadline):
        if res is None:
            continue
        var, spec, r, d, directed = res
        ndir += directed
        tally.add(spec, r, heap_poison=bool(spec.get("poison")),
                  converged=var[2] and any(o.get("code") == 0 for o in r["ops"]))
        if d:
            sig = [var[0] if d[0][0] in ("outcome", "iterations") else "result", sorted(x[0] for x in d)[:1]]
            first.setdefault(json.dumps(sig), (var, spec, d))
    for sig, (var, spec, d) in list(first.items())[:3]:
        if enough(chk):
            break

        def run_same(r, var=var):
            return bool(diff(var, {"ops": r["_ops"]}, r))
        report(chk, json.loads(sig),
               "result depends on thread count/schedule: case %s, %d threads: %s" %
               (var[0], spec["ops"][0]["threads"], ", ".join("%s (%s)" % x for x in d[:4])),
               spec, run_same, extra={"reference": "same problem, threads=1, unpreempted"})
    tally.fill(chk, t0, "one run = one problem solved with a seeded thread count and schedule, compared field by field "
               "(every number of the saved output) with the single-threaded run of the same problem; non-trivial = "
               "threads were switched between, distinct by schedule hash",
               {"problems": len({json.dumps(i[0]) for i in items}), "race_directed_runs": ndir})
    chk.assumptions = ["reduction order may change the last digits: tolerance 1e-8 (1e-6 for differences of large "
                       "numbers) before convergence, 2e-6 (1e-4) at convergence; measured noise is 10-1000 times lower"]
    return chk.finish()


# ======================================================================= C03
def c03_problem(r, spec, budget_note):
    if r.get("fatal"):
        return ["fatal", r["fatal"]["kind"]], "%s: %s" % (r["fatal"]["kind"], r["fatal"]["detail"][:300])
    if r.get("crash"):
        return ["crash", str(r.get("rc"))], "process died: " + r["crash"][-300:]
    for o, res in zip(spec["ops"], r["ops"]):
        if res.get("code") == 0 and "nfev" in res:
            d = case_json(os.path.basename(o["input"])[:-5])
            d.update(o.get("overrides", {}))
            lim = sum(d["niter_array"]) + d["niter_array"][0] + len(d["niter_array"]) + 2
            if res["nfev"] > lim:
                return ["iterations"], "%d force iterations for a budget of %d" % (res["nfev"], lim)
    return None


def c03():
    common.build("solver_sim")
    chk = Check("C03")
    t0 = time.time()
    tally, refs = Tally(), Refs()
    deadline = t0 + (3300 if thorough() else 420)
    items = []
    for i in range(scale(280, 6000)):
        rng = rng_for("C03", i)
        kind = rng.random()
        var = random_variant(rng, full_prob=0.05, errors=0.45)
        spec = {"shadow": False, "poison": rng.random() < 0.2}
        op = variant_op(var, threads_for(rng))
        spec["ops"] = [op]
        if kind < 0.15:
            op["interrupt_at"] = rng.randrange(0, 30)
        elif kind < 0.22:
            spec["mode"] = "clients"
            op["overrides"] = dict(op.get("overrides", {}))
            spec["ops"].append(variant_op(random_variant(rng, full_prob=0, errors=0.5), rng.choice([1, 2, 3])))
        elif kind < 0.27:
            spec["ops"] = [case_op("free", threads_for(rng), table_only=True)]
        solver.random_schedule(rng, spec)
        items.append(spec)
    first = {}

    def one(spec):
        # bounded progress: no more than a constant factor above the
        # single-threaded work (measured factor: < 3)
        b = 0
        for o in spec["ops"]:
            o1 = {k: v for k, v in o.items() if k != "interrupt_at"}
            ref = refs.get(o1)
            b += ref.get("stats", {}).get("steps", 0)
        spec["max_steps"] = 12 * b + 20 * 10 ** 6
        return spec, solver.run(spec, want_dump=False)

    ratio = 0.0
    for res in parallel(one, items, deadline=deadline):
        if res is None:
            continue
        spec, r = res
        tally.add(spec, r, interrupt=sum(o.get("raised", False) for o in r["ops"]),
                  error_exit=any(o.get("code", 0) != 0 for o in r["ops"]),
                  not_converged=any(o.get("code", 0) == 13 for o in r["ops"]))
        ratio = max(ratio, r.get("stats", {}).get("steps", 0) / max(1, (spec["max_steps"] - 2e7) / 12))
        p = c03_problem(r, spec, None)
        if p:
            first.setdefault(json.dumps(p[0]), (spec, p))
    for key, r in ((k, e[1]) for k, e in refs.m.items()):
        if r:
            p = c03_problem(r, {"ops": [json.loads(key)]}, None)
            if p:
                first.setdefault(json.dumps(p[0]), ({"seed": 1, "strategy": 2, "shadow": False,
                                                     "max_steps": 6 * 10 ** 9,
                                                     "ops": [dict(json.loads(key), threads=1)]}, p))
    for sig, (spec, p) in list(first.items())[:4]:
        if enough(chk):
            break

        def same(r, sig=json.loads(sig)):
            q = c03_problem(r, {"ops": r["_ops"]}, None)
            return q is not None and q[0][0] == sig[0]
        report(chk, json.loads(sig), "run does not end properly: " + p[1], spec, same)
    tally.fill(chk, t0, "one run = one solver history with seeded problem (45 % of them ill-posed so that every error "
               "exit is taken), thread count, schedule, stalls and interrupts; non-trivial = threads were switched "
               "between, distinct by schedule hash",
               {"max_steps_over_single_thread": round(ratio, 3),
                "liveness_bound": "12 x single-threaded steps + 2e7"})
    return chk.finish()


# ==================================================================== replay
def replay(doc):
    """Re-runs a replay file and applies the property's oracle."""
    common.build("solver_sim")
    spec, pid = doc["spec"], doc["property"]
    r = solver.run(spec)
    refs = Refs()
    if pid == "C01":
        bad = [solver.race_text(x) for x in r.get("races", [])]
    elif pid == "C02":
        op = spec["ops"][0]
        full = "niter_array" not in op.get("overrides", {})
        bad = c02_diff(refs, (os.path.basename(op["input"])[:-5], {}, full), spec, r)
    elif pid == "C03":
        bad = c03_problem(r, spec, None)
    else:
        bad = ORACLES[pid](spec, r, refs)
    print(json.dumps({"ops": r["ops"], "fatal": r.get("fatal"), "crash": r.get("crash")}, indent=1)[:4000])
    if bad:
        print("REPRODUCED property=%s: %s" % (pid, bad))
        return 1
    print("not reproduced: property %s holds on this replay" % pid)
    return 0


ORACLES = {}
