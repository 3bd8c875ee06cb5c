"""Checks C18, C19: the Python-driven iteration and the forward model behind it."""
from .checks_io import std
from .common import rng_for, scale
from .pysim import ORACLES

NAMES = ["solovev", "cth_like_fixed_bdy", "cma", "li383_low_res", "circular_tokamak", "up_down_asym",
         "solovev_no_axis", "near_axis_iota_nfp4"]
DELT = [0.2, 0.5, 0.9, 1.0, 1.3, 1.7, 2.5, 5.0, 20.0]
STYLES = ["vmec_8_52", "parvmec", "robust"]
REAL = ["vmecpp._iteration of /repo/src/vmecpp", "the C++ forward model, solver and pybind11 bindings"]


def one(kind, scn, args):
    return {"kind": kind, "stages": [{"procs": [{"scn": scn, "args": args}]}]}


def problems(spec, rep):
    p = rep["stages"][0]["procs"][0]["ret"]["problems"]
    return ([p[0].split(":")[0]], "; ".join(p)[:900]) if p else None


# ======================================================================= C18
def inject(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        act = rng.choice(["badjac", "badjac", "huge", "nan", "scale", "scale", "scale", "done", "raise"])
        f = {"act": act, "k": rng.choice([0, 0, 1, rng.randrange(15), rng.randrange(100)]), "n": rng.choice([1, 1, 2, 5, 30, 200])}
        if act == "nan":
            f.update(at=rng.choice(["fsqr", "fsqz", "fsql"]), v=float(rng.choice(["nan", "inf"])))
        if act == "scale":
            f.update(at=rng.choice(["pre", "inv"]), v=rng.choice([30.0, 1e2, 2e3, 1e5, 1e-3]))
        if act == "done":
            f.update(v=rng.choice([0.5, 1.0]), but=rng.choice([None, "fsqr", "fsql", "fsqz"]))
        out.append(f)
    return out


def job(rng, **k):
    d = {"case": rng.choice(NAMES), "ns": rng.choice([3, 5, 7, 11, 15]), "delt": rng.choice(DELT), "ftol": rng.choice([1e-6, 1e-9, 1e-12]),
         "niter": rng.choice([20, 100, 100, 300]), "style": rng.choice(STYLES), "s": rng.randrange(10 ** 9), "cb": rng.randrange(2)}
    if rng.random() < 0.3:
        d["perturb"] = rng.choice([1e-8, 1e-3, 1e-2])
    d.update(k)
    return d


# the history of a known finding, always run
HUGE = {"case": "cth_like_fixed_bdy", "ns": 15, "delt": 1.7, "ftol": 1e-09, "niter": 300, "style": "parvmec", "s": 575836433,
        "cb": 1, "perturb": 0.001, "what": "native"}


def c18_specs(n, calib):
    out = [one("driver", "model.c18", HUGE)]
    for i in range(n):
        rng = rng_for("C18", i)
        what = rng.choice(["native"] * 4 + ["faulty"] * 5 + ["multigrid"] * 2 + ["together"])
        if what == "native":
            a = job(rng, style=rng.choice(STYLES[:2]))
            v = rng.choice([None, None, "default", "iterate"])
            if v:
                a["via"] = v
            if v == "iterate":
                a.pop("perturb", None)
        elif what == "faulty":
            a = job(rng, ops=[])
            a["inject"] = inject(rng)
        elif what == "multigrid":
            ns = [rng.choice([3, 4, 5, 7, 9, 11, 2]) for _ in range(rng.choice([1, 2, 3, 3, 4]))]
            ns = ns if rng.random() < 0.5 else sorted(set(ns))
            a = job(rng, style=rng.choice(STYLES[:2]), ns=ns, ftol=[rng.choice([1e-4, 1e-6, 1e-8, 1e-10]) for _ in ns],
                    niter=[rng.choice([10, 50, 200, 400]) for _ in ns])
            a.pop("perturb", None)
        else:
            a = {"jobs": [job(rng, niter=rng.choice([20, 100]), ns=rng.choice([3, 5, 7])) for _ in range(rng.choice([2, 3]))],
                 "s": rng.randrange(10 ** 9), "switch": rng.choice([0.02, 0.2, 0.8])}
            for j in a["jobs"]:
                if rng.random() < 0.3:
                    j["stop"] = rng.randrange(1, 40)
                if rng.random() < 0.3:
                    j["inject"] = inject(rng)
        a["what"] = what
        out.append(one("driver", "model.c18", a))
    return out


ORACLES["C18"] = (["model"], problems)


def c18_probes(spec, rep):
    r = rep["stages"][0]["procs"][0].get("ret") or {}
    info = r.get("info", {})
    d = {"kind:" + spec["stages"][0]["procs"][0]["args"]["what"]: 1}
    for k in ("iters", "restarts", "reguess", "failed", "converged", "stages", "refused", "raised", "order"):
        if k in info:
            d[k] = info[k]
    for h in info.get("hits", []):
        d["injected:" + h] = d.get("injected:" + h, 0) + 1
    return d


def c18():
    return std("C18", lambda calib: c18_specs(scale(3000, 40000), calib),
               "one history: a solve by the Python driver next to the C++ solver, or next to a reference driver with the same injected "
               "forward-model outcomes, a multi-grid ramp next to the C++ run, or several drivers interleaved at their model calls; "
               "non-trivial: at least one injected outcome, restart, re-guess or scheduling decision",
               ["Histories are compared until rounding differences, growing gradually, separate them; only abrupt departures count.",
                "\"robust\" exists in Python only; its reference is the documented control."],
               real=REAL, stub=["outcome of chosen forward-model evaluations, order of driver threads (decided by the simulator)"],
               probes=c18_probes, extra=lambda t: {"faults_injected": {k[9:]: v for k, v in t.probes.items() if k.startswith("injected:")},
                                                  "fault_count": sum(v for k, v in t.probes.items() if k.startswith("injected:")),
                                                  "scheduling_decisions": t.probes.get("order", 0),
                                                  "simulated_time_s": float(t.probes.get("iters", 0)),
                                                  "simulated_time_unit": "solver iterations"})


# ======================================================================= C19
def c19_specs(n, calib):
    out = []
    for i in range(n):
        rng = rng_for("C19", i)
        ops = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9])):
            o = rng.choice(["eval", "eval", "native", "set", "set", "wrong", "hvp", "pre", "save", "restore", "step", "solve",
                            "coarser", "other"])
            op = {"op": o}
            if o in ("eval", "native"):
                op.update(k=rng.choice([1, 1, 2, 5, 30]), p=rng.randrange(2), d=rng.choice([0, 1, 24, 25, 40]))
            if o == "set":
                op["eps"] = rng.choice([1e-4, 1e-2, 0.3, 1.0])
            if o == "wrong":
                op["d"] = rng.choice([-1, 1, 7])
            if o == "step":
                op["eps"] = rng.choice([0.1, 1.0, 5.0])
            if o == "solve":
                op["p"] = rng.randrange(2)
            if o == "coarser":
                op["d"] = rng.choice([0, -1, -2])
            if o == "other":
                op["case"] = rng.choice(NAMES)
            ops.append(op)
        out.append(one("model", "model.c19", {
            "case": rng.choice(NAMES), "ns": rng.choice([3, 5, 7, 11]), "delt": 0.9, "ftol": 1e-9, "niter": rng.choice([5, 40]),
            "style": "vmec_8_52", "s": rng.randrange(10 ** 9), "ops": ops, "eps": rng.choice([0, 1e-6, 1e-3, 1e-2]),
            "k": rng.choice([1, 1, 2, 7]), "p": rng.randrange(2), "then": rng.choice(["", "refine", "step", "hvp", "pre"]),
            "more": rng.randrange(8)}))
    return out


ORACLES["C19"] = (["model"], problems)


def c19():
    return std("C19", lambda calib: c19_specs(scale(8000, 100000), calib),
               "history of 0-9 model calls (evaluations at good and overlapping states, native evaluations, time steps, solves, "
               "Hessian products, backups, refused calls), then the same evaluation on it and on a fresh model; non-trivial: "
               "at least one call before",
               ["Residuals and forces of a state with overlapping surfaces are meaningless; only the reported reason is compared."],
               real=REAL, stub=["nothing"],
               probes=lambda spec, rep: dict({"op:" + o["op"]: 1 for o in spec["stages"][0]["procs"][0]["args"]["ops"]},
                                             bad_states=(rep["stages"][0]["procs"][0].get("ret") or {}).get("info", {}).get("bad", 0)))
