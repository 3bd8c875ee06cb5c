"""C18: the Python iteration driver against the C++ solver and against a
reference driver under injected forward-model outcomes; C19: the forward model
as a function of its state."""
import math
import random
import threading

import numpy as np

import vmecpp
from vmecpp.cpp import _vmecpp
from scn import base

NAMES = ["solovev", "cth_like_fixed_bdy", "cma", "li383_low_res", "circular_tokamak", "up_down_asym",
         "solovev_no_axis", "near_axis_iota_nfp4"]
INP = {}
BASE = {}           # (case, ns) -> a state with nested surfaces
NS = [3, 5, 7, 11]


def prepare():
    for n in NAMES:
        INP[n] = vmecpp.VmecInput.from_file(base.CASES + "t/" + n + ".json")
        for ns in NS:
            m = start(dict(case=n, ns=ns, ftol=1e-12, niter=60, delt=0.5, style="vmec_8_52"))
            vmecpp.solve_equilibrium(m)
            BASE[n, ns] = np.array(m.get_state())


def indata(a):
    inp = INP[a["case"]].model_copy(deep=True)
    ns = a["ns"] if isinstance(a["ns"], list) else [a["ns"]]
    inp.ns_array = np.array(ns)
    inp.ftol_array = np.array(a["ftol"] if isinstance(a["ftol"], list) else [a["ftol"]] * len(ns))
    inp.niter_array = np.array(a["niter"] if isinstance(a["niter"], list) else [a["niter"]] * len(ns))
    inp.delt = a["delt"]
    return inp


def cpp(a, style=None):
    c = indata(a)._to_cpp_vmecindata()
    style = style or a["style"]
    if style != "robust":
        c.iteration_style = getattr(_vmecpp.IterationStyle, style.upper())
    return c


def start(a, style=None):
    m = _vmecpp.VmecModel.create(cpp(a, style), a["ns"])
    if a.get("perturb"):
        x = np.array(m.get_state())
        g = np.random.default_rng(a["s"])
        x = x * (1 + a["perturb"] * g.standard_normal(x.size))
        m.set_state(x)
        m.save_backup()
    return m


# ----------------------------------------------------------- comparing runs
def deviates(a, b):
    """First index at which two residual histories part abruptly: they agreed
    closely until then (rounding differences grow gradually and end the
    comparison).  Returns None, ("at", i) or ("length",)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    n = min(len(a), len(b))
    with np.errstate(all="ignore"):
        d = np.abs(a[:n] - b[:n]) / np.maximum(np.maximum(np.abs(a[:n]), np.abs(b[:n])), 1e-18)
    d = np.where((a[:n] == b[:n]) | (np.isnan(a[:n]) & np.isnan(b[:n])), 0.0, np.where(np.isnan(d), 1.0, d))
    prev = 0.0
    for i in range(n):
        if d[i] > 1e-6:
            return ("at", i) if prev < 1e-10 or (d[i] > 1e-2 and prev < 1e-6) else ("drift", i)
        prev = max(d[i], prev)
    return ("length",) if len(a) != len(b) else None


def compare(x, y, what):
    """x, y: dicts of the same observables; problems as strings."""
    out = []
    for k in ("r", "z", "l"):
        p = deviates(x[k], y[k])
        if p and p[0] == "drift":
            return []
        if p:
            out.append("%s: residual history %s parts %s (%d and %d entries)" % (what, k, p, len(x[k]), len(y[k])))
    if out:
        return out
    for k in ("rr", "converged", "failed", "restarts", "reguesses", "evals", "iters"):
        if k in x and k in y and x[k] != y[k]:
            out.append("%s: %s: %s and %s" % (what, k, str(x[k])[-80:], str(y[k])[-80:]))
    if "state" in x and "state" in y:
        s, t = x["state"], y["state"]
        if s.shape != t.shape or not np.allclose(s, t, rtol=1e-5, atol=1e-7 * np.abs(t).max(), equal_nan=True):
            out.append("%s: final states differ" % what)
    for k in ("fsqr", "fsqz", "fsql"):
        if k in x and k in y and not (x[k] == y[k] or math.isnan(x[k]) and math.isnan(y[k])
                                      or abs(x[k] - y[k]) <= 1e-4 * max(abs(x[k]), abs(y[k]))):
            out.append("%s: %s: %g and %g" % (what, k, x[k], y[k]))
    return out


SIG = []


def of_result(r, m=None):
    SIG.append(hash(tuple(r.force_residual_r)))
    d = {"r": r.force_residual_r, "z": r.force_residual_z, "l": r.force_residual_lambda, "rr": [int(v) for v in r.restart_reasons],
         "converged": r.converged, "failed": r.failed, "restarts": r.restarts, "reguesses": r.axis_reguesses,
         "iters": r.num_iterations, "fsqr": r.fsqr, "fsqz": r.fsqz, "fsql": r.fsql}
    if m is not None:
        d["state"] = np.array(m.get_state())
        d["evals"] = m.force_eval_count
    return d


# ------------------------------------------------ forward model under faults
class Faulty:
    """The real model; the outcome of chosen evaluations is replaced."""

    def __init__(self, model, faults, gate=None):
        self.__dict__.update(m=model, plan=faults, n=0, over={}, hit=[], gate=gate)

    def evaluate(self, iter1, iter2, *a, **k):
        if self.gate:
            self.gate()
        self.over.clear()
        i = self.n
        self.__dict__["n"] = i + 1
        acts = [f for f in self.plan if f["k"] <= i < f["k"] + f.get("n", 1)]
        for f in acts:
            if f["act"] == "raise":
                self.hit.append("raise")
                raise RuntimeError("injected failure of evaluation")
        self.m.evaluate(iter1, iter2, *a, **k)
        if int(self.m.restart_reason) == 2:
            return              # overlapping surfaces: the residuals mean nothing
        for f in acts:
            w = f["act"]
            if w == "huge" and iter2 != 1 or w == "done" and iter2 == 1:
                continue
            self.hit.append(w)
            if w == "badjac":
                self.over["restart_reason"] = 2
            elif w == "huge":
                self.over["restart_reason"] = 4
            elif w == "nan":
                self.over[f["at"]] = f["v"]
            elif w == "scale":
                for q in ("fsqr1", "fsqz1", "fsql1") if f["at"] == "pre" else ("fsqr", "fsqz", "fsql"):
                    self.over[q] = getattr(self.m, q) * f["v"]
            elif w == "done":
                for q in ("fsqr", "fsqz", "fsql"):
                    if q != f.get("but"):
                        self.over[q] = self.m.ftolv * f["v"]

    def __getattr__(self, name):
        if name in self.over:
            return self.over[name]
        if self.gate and name in ("perform_time_step", "save_backup", "restore_backup", "reinitialize"):
            self.gate()
        return getattr(self.m, name)

    def __setattr__(self, name, value):
        setattr(self.m, name, value)


class Reference:
    """SolveEquilibrium / SolveEquilibriumLoop / Evolve / RestartIteration of
    the C++ solver, plus the documented "robust" control, on a forward model."""

    def __init__(self, m, style):
        self.m, self.style = m, style
        self.iter1 = self.iter2 = 1
        self.ijacob = 0
        self.delt = m.delt
        self.fsq = 1.0
        self.res0 = self.res1 = -1.0
        self.invtau = [0.0] * 10
        self.tr, self.tz, self.tl, self.rr = [], [], [], []
        self.status = "running"
        self.reason = 1
        self.restarts = self.reguesses = 0
        self.snap = []

    def restart(self):
        if self.reason == 2:
            self.m.restore_backup()
            self.delt *= 0.9
            self.ijacob += 1
            self.iter1 = self.iter2
            self.reason = 1
            self.restarts += 1
            return True
        if self.reason == 3:
            self.m.restore_backup()
            self.delt /= 1.03
            self.reason = 1
            self.restarts += 1
            return True
        self.m.save_backup()
        return False

    def evolve(self):
        m = self.m
        m.evaluate(self.iter1, self.iter2, precondition=True, always_fix_m1_gauge=False)
        self.reason = int(m.restart_reason)
        self.f = f = (m.fsqr, m.fsqz, m.fsql)
        if (self.iter2 == 1 and self.reason == 2) or not all(math.isfinite(v) for v in f):
            self.status = "bad"
            return
        if all(v <= m.ftolv for v in f):
            self.status = "converged"
            return
        fsq1 = m.fsqr1 + m.fsqz1 + m.fsql1
        if self.iter2 == self.iter1:
            self.invtau = [0.15 / self.delt] * 10
        self.invtau = self.invtau[1:] + self.invtau[-1:]
        if self.iter2 > self.iter1:
            num = min(abs(math.log(fsq1 / self.fsq)), 0.15)
            self.invtau[-1] = num / self.delt
        self.fsq = fsq1
        self.tr.append(f[0])
        self.tz.append(f[1])
        self.tl.append(f[2])
        self.rr.append(self.reason)
        otav = 0.0
        for v in self.invtau:
            otav += v
        otav /= 10
        dtau = self.delt * otav / 2
        m.perform_time_step(1 / (1 + dtau), 1 - dtau, self.delt)

    def loop(self):
        """One SolveEquilibriumLoop; True: try again."""
        m = self.m
        if self.reason == 2:
            m.reinitialize()
            m.save_backup()
            self.reason = 1
        self.status = "running"
        bad, it = 0, self.iter2
        while it <= m.niterv:
            self.iter2 = it - bad
            self.evolve()
            if self.ijacob == 0 and (self.status == "bad" or self.reason == 4) and m.ns >= 3:
                self.ijacob = 1
                self.reguesses += 1
                self.reason = 2
                return True
            if self.status in ("bad", "converged"):
                return False
            if self.ijacob in (25, 50):
                self.reason = 2
                self.restart()
                self.delt = (0.98 if self.ijacob < 50 else 0.96) * m.delt
                return True
            if self.ijacob >= 75:
                self.status = "gave up"
                return False
            fsq, inv, i1, i2 = self.fsq, sum(self.f[1:], self.f[0]), self.iter1, self.iter2
            if i2 == i1 or self.res0 == -1:
                self.res0 = fsq
                self.res1 = inv
            self.res0 = min(self.res0, fsq)
            self.res1 = min(self.res1, inv)
            slow = i2 - i1 > 12 and i2 > 50 and self.f[0] + self.f[1] > 1e-2
            if self.style == "parvmec":
                if fsq <= self.res0 and inv <= self.res1:
                    self.restart()
                elif i2 - i1 > 10 and (fsq > 1e4 * self.res0 or inv > 1e4 * self.res1):
                    self.reason = 3
            elif self.style == "robust":
                if self.reason == 1:
                    if fsq <= self.res0 and inv <= self.res1:
                        self.restart()
                    elif (i2 - i1 > 10 and (fsq > 1e3 * self.res0 or inv > 1e3 * self.res1)) or slow:
                        self.reason = 3
            else:
                if fsq <= self.res0 and i2 - i1 > 10:
                    self.restart()
                elif fsq > 100 * self.res0 and i2 > i1:
                    self.reason = 2
                elif slow:
                    self.reason = 3
            if self.reason != 1:
                self.restart()
                bad += 1
                self.iter1 = i2
            self.snap.append((i2, self.iter1, self.delt, self.ijacob, self.restarts))
            it += 1
            self.iter2 = it - bad
        return False

    def solve(self):
        again, n = True, 0
        while again and n < self.m.niterv:
            again = self.loop()
            n += 1
        return {"r": self.tr, "z": self.tz, "l": self.tl, "rr": self.rr, "converged": self.status == "converged",
                "failed": self.status in ("bad", "gave up"), "restarts": self.restarts, "reguesses": self.reguesses,
                "iters": len(self.tr)}


# ------------------------------------------------------------------ scenarios
def drive(a, style=None, callback=None, gate=None, faults=None, m=None):
    m = m or start(a, style)
    p = Faulty(m, a.get("inject", []) if faults is None else faults, gate)
    err = None
    try:
        if a.get("via") == "iterate":
            m, r = vmecpp.iterate(indata(a), a["ns"], iteration_style=a["style"], callback=callback)
        else:
            st = None if a.get("via") == "default" and a["style"] != "robust" else style or a["style"]
            r = vmecpp.solve_equilibrium(p, style=st, callback=callback)
        d = of_result(r, m)
        if r.iteration_style != (style or a["style"]):
            err = "iteration_style %s" % r.iteration_style
    except RuntimeError as e:
        d, err = None, str(e)[:100]
    return d, err, p, m


def native(a):
    """C++ solve() against the Python driver, no faults."""
    style = a["style"]
    x = start(a)
    err = None
    try:
        x.solve()
    except Exception as e:  # noqa: BLE001
        err = str(e)
    ref = {"r": x.force_residual_r, "z": x.force_residual_z, "l": x.force_residual_lambda,
           "rr": [int(v) for v in x.restart_reasons], "converged": err is None and x.status == 11,
           "failed": err is not None or x.status == 4, "state": np.array(x.get_state()), "evals": x.force_eval_count}
    states = []
    got, e2, p, m = drive(a, callback=states.append if a.get("cb") else None)
    if got is None:
        return ["driver raised: " + e2] if err is None else [], {"iters": len(x.force_residual_r), "raised": 1}
    if ref["failed"]:
        ref.pop("state")
    if ref["failed"] or got["reguesses"]:
        ref.pop("evals")        # counted per set-up of the radial grid
    out = []
    if ref["rr"][:1] == [4] and got["reguesses"]:
        # the retry: C++ keeps the velocity of the abandoned first step
        p = compare({k: got[k] for k in "rzl"}, {k: ref[k] for k in "rzl"}, "retry after huge initial forces, C++ and Python")
        if p:
            out = p
            ref = {k: ref[k][:2] for k in ("r", "z", "l", "rr")}
            early = compare({k: got[k][:2] for k in ref}, ref, "C++ and Python")
            out = early or out
    if not out:
        out = compare(got, ref, "C++ and Python")
    out += trace(a, got, states)
    if e2:
        out.append(e2)
    return out, {"iters": len(got["r"]), "restarts": got["restarts"], "reguess": got["reguesses"], "failed": int(got["failed"]),
                 "converged": int(got["converged"])}


def trace(a, got, states):
    """What a callback was told."""
    out = []
    if not a.get("cb"):
        return out
    it = [s.iteration for s in states]
    if any(x >= y for x, y in zip(it, it[1:])) or (it and (it[0] < 1 or it[-1] > len(got["r"]))):
        out.append("callback iterations %s" % it[:20])
    for s in states:
        if out:
            break
        i = s.iteration - 1
        if (s.fsqr, s.fsqz, s.fsql, s.restart_reason) != (got["r"][i], got["z"][i], got["l"][i], got["rr"][i]) \
                and not any(map(math.isnan, (s.fsqr, s.fsqz, s.fsql))):
            out.append("callback residuals of iteration %d are not the recorded ones" % s.iteration)
        if abs(s.fsq_invariant - (s.fsqr + s.fsqz + s.fsql)) > 1e-12 * abs(s.fsq_invariant):
            out.append("fsq_invariant")
        if abs(s.fsq_preconditioned - (s.fsqr1 + s.fsqz1 + s.fsql1)) > 1e-12 * abs(s.fsq_preconditioned):
            out.append("fsq_preconditioned")
        if s.restarted and s.saved_backup:
            out.append("restarted and saved in one iteration")
    n = [s.n_restarts for s in states]
    prev = 0
    for s in states:
        if s.n_restarts < prev or (s.restarted and s.n_restarts == prev):
            out.append("n_restarts not counted at iteration %d" % s.iteration)
            break
        prev = s.n_restarts
    if n and n[-1] > got["restarts"]:
        out.append("n_restarts")
    # every recorded iteration is reported, except those that end a loop
    miss = len(got["r"]) - len(it)
    if miss < 0 or miss > 4 + got["reguesses"]:
        out.append("callback missed %d of %d iterations" % (miss, len(got["r"])))
    return out


def faulty(a):
    """The driver and the reference driver see the same injected outcomes."""
    states = []
    got, e1, p, m = drive(a, callback=states.append if a.get("cb") else None)
    y = start(a)
    q = Faulty(y, a["inject"])
    ref, e2 = None, None
    r = Reference(q, a["style"])
    try:
        ref = r.solve()
        ref.update(state=np.array(y.get_state()), evals=y.force_eval_count)
    except RuntimeError as e:
        e2 = str(e)[:100]
    info = {"iters": q.n, "hits": q.hit, "restarts": r.restarts, "reguess": r.reguesses}
    if (got is None) != (ref is None):
        return ["one of the drivers raised: %s / %s" % (e1, e2)], info
    if got is None:
        out = [] if "injected" in (e1 or "") or e1 == e2 else ["exception lost: %s / %s" % (e1, e2)]
        if p.n != q.n:
            out.append("evaluations before the failure: %d and %d" % (p.n, q.n))
        # the model goes on working after a failed evaluation
        x = np.array(m.get_state())
        if not np.all(np.isfinite(x)) and np.all(np.isfinite(np.array(y.get_state()))):
            out.append("state lost by a failed evaluation")
        return out, info
    info.update(failed=int(got["failed"]), converged=int(got["converged"]))
    if got["failed"] and ref["failed"]:
        for d in (ref, got):
            d.pop("state")
            d.pop("evals")
    out = compare(got, ref, "reference and Python (%s)" % a["style"]) + trace(a, got, states)
    if a.get("cb") and not out and got["r"] == ref["r"]:
        told = [(s.iter2, s.iter1, s.delt, s.ijacob, s.n_restarts) for s in states]
        for x, y in zip(told, r.snap):
            if x[:2] + x[3:] != y[:2] + y[3:] or abs(x[2] - y[2]) > 1e-9 * y[2]:
                out.append("callback: (iter2, iter1, delt, ijacob, n_restarts) is %s, should be %s" % (x, y))
                break
        if len(told) != len(r.snap):
            out.append("callback: called %d times, should be %d" % (len(told), len(r.snap)))
    return out, info


def multigrid(a):
    """solve_multigrid against the complete C++ run."""
    inp = indata(a)
    c = cpp(a)
    c.return_outputs_even_if_not_converged = True
    o = err = None
    try:
        o = _vmecpp.run(c, None, 1, _vmecpp.OutputMode.SILENT)
    except Exception as e:  # noqa: BLE001
        err = str(e)
    ns = a["ns"]
    if len(set(ns)) != len(ns) or max(ns) < 3:
        try:
            vmecpp.solve_multigrid(inp, iteration_style=a["style"])
        except ValueError:
            return [], {"refused": 1}
        return ["repeated or unusable ns_array accepted"], {}
    calls = []
    try:
        m, rs = vmecpp.solve_multigrid(inp, iteration_style=a["style"], callback=calls.append if a.get("cb") else None)
    except Exception as e:  # noqa: BLE001
        return ["solve_multigrid raised: %s" % e] if o is not None else [], {}
    used, top = [], 3
    for n in ns:
        if n >= top:
            used.append(n)
            top = n
    out = []
    info = {"iters": sum(r.num_iterations for r in rs), "stages": len(rs)}
    if len(rs) > len(used) or (len(rs) < len(used) and not rs[-1].failed):
        out.append("stages %d of %s" % (len(rs), used))
    if len(rs) == len(used) and m.ns != used[-1]:
        out.append("final ns %d" % m.ns)
    if o is None or any(r.failed for r in rs):
        return out, info
    w = o.wout
    cat = lambda k: [v for r in rs for v in getattr(r, k)]  # noqa: E731
    x = {"r": cat("force_residual_r"), "z": cat("force_residual_z"), "l": cat("force_residual_lambda"),
         "fsqr": rs[-1].fsqr, "fsqz": rs[-1].fsqz, "fsql": rs[-1].fsql}
    y = {"r": w.force_residual_r, "z": w.force_residual_z, "l": w.force_residual_lambda}
    if rs[-1].converged:
        y.update(fsqr=w.fsqr, fsqz=w.fsqz, fsql=w.fsql)
    p = compare(x, y, "multigrid C++ and Python")
    at = 0
    for r in rs:
        if p and r.restart_reasons[:1] == [4] and r.axis_reguesses:
            early = compare({k: x[k][:at + 2] for k in "rzl"}, {k: y[k][:at + 2] for k in "rzl"}, "multigrid C++ and Python")
            p = early or ["retry after huge initial forces, C++ and Python: multigrid"]
            break
        at += r.num_iterations
    out += p
    if calls and a.get("cb") and len(calls) < sum(r.num_iterations for r in rs) - 6 * len(rs):
        out.append("callback not called in all stages")
    if not inp_same(inp, indata(a)):
        out.append("input modified")
    return out, info


def inp_same(a, b):
    return a.model_dump_json() == b.model_dump_json()


class Gate:
    """Seeded scheduler of driver threads: one runs at a time, and hands over
    at model calls."""

    def __init__(self, seed, n, switch):
        self.rng = random.Random(seed)
        self.cv = threading.Condition()
        self.live = list(range(n))
        self.turn = 0
        self.switch = switch
        self.order = []

    def pick(self):
        if self.live:
            self.turn = self.rng.choice(self.live)
            self.order.append(self.turn)
        self.cv.notify_all()

    def at(self, me):
        with self.cv:
            if self.rng.random() < self.switch:
                self.pick()
            while self.turn != me:
                self.cv.wait()

    def begin(self, me):
        with self.cv:
            while self.turn != me:
                self.cv.wait()

    def end(self, me):
        with self.cv:
            self.live.remove(me)
            self.pick()


def together(a):
    """Several drivers, interleaved at their model calls, and callbacks that
    run other solves: each gets what it gets alone."""
    jobs = a["jobs"]
    alone = []
    for j in jobs:
        d, e, p, _ = drive(j)
        alone.append((d, e))
    g = Gate(a["s"], len(jobs), a["switch"])
    res = [None] * len(jobs)
    models = [start(j) for j in jobs]

    def work(i):
        g.begin(i)
        try:
            cb = None
            if jobs[i].get("stop") is not None:
                def cb(s, n=jobs[i]["stop"]):
                    if s.iteration >= n:
                        raise KeyError("stop")
            try:
                d, e, p, _ = drive(jobs[i], gate=lambda: g.at(i), m=models[i], callback=cb)
                res[i] = (d, e)
            except KeyError:
                res[i] = ("stopped", None)
        finally:
            g.end(i)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    SIG.append(hash(tuple(g.order)))
    out = []
    for i, ((d, e), got) in enumerate(zip(alone, res)):
        if got is None:
            out.append("driver %d did not end" % i)
            continue
        f, e2 = got
        if f == "stopped":
            # a callback's exception ends the solve; the model can be solved again
            m = models[i]
            m.set_state(np.array(start(jobs[i]).get_state()))
            m.zero_velocity()
            m.save_backup()
            continue
        if jobs[i].get("stop") is not None and d and len(d["r"]) > jobs[i]["stop"] + 1:
            out.append("exception of the callback was swallowed")
        if e != e2 or (d is None) != (f is None):
            out.append("driver %d: %s and %s" % (i, e, e2))
        elif d is not None:
            d.pop("evals", None)
            out += compare(f, d, "driver %d together and alone" % i)
    return out, {"order": len(g.order), "hash": hash(tuple(g.order)) & 0xffffff}


def c18(ctx, a):
    with ctx.faults("", 1):
        out, info = {"native": native, "faulty": faulty, "multigrid": multigrid, "together": together}[a["what"]](a)
    return {"problems": out, "info": info, "sig": hash(tuple(SIG)) & 0xffffffffff}


# ------------------------------------------------------------------------ C19
def observe(m, k, p):
    """What an evaluation at the current state reports."""
    m.evaluate(k, k, precondition=p)
    rr = int(m.restart_reason)
    if rr == 2:
        return rr, None
    v = [m.fsqr, m.fsqz, m.fsql] + ([m.fsqr1, m.fsqz1, m.fsql1] if p else []) + [m.mhd_energy]
    return rr, np.concatenate([v, m.get_forces()])


def same(x, y):
    return x.shape == y.shape and bool(np.all((x == y) | (np.isnan(x) & np.isnan(y))))


def close(x, y):
    """Equal up to rounding of a rearranged computation."""
    if x.shape != y.shape:
        return False
    with np.errstate(all="ignore"):
        return same(x, y) or bool(np.all(np.abs(x - y) <= 1e-9 * np.abs(y).max()) and np.all(np.isfinite(x) == np.isfinite(y)))


def state_near(x0, g, eps):
    return x0 * (1 + eps * g.standard_normal(x0.size)) + 0.1 * eps * g.standard_normal(x0.size) * (np.abs(x0) > 0)


def refused(f, *a, **k):
    try:
        f(*a, **k)
    except (RuntimeError, ValueError, TypeError):
        return True
    return False


def c19(ctx, a):
    out, info = [], {"bad": 0, "err": 0}
    g = np.random.default_rng(a["s"])
    with ctx.faults("", 1):
        m = start(a)
        backup = np.array(m.get_state())
        x0 = BASE[a["case"], a["ns"]]
        n = x0.size
        ns = a["ns"]
        for op in a["ops"]:
            o = op["op"]
            before = np.array(m.get_state())
            keep = o not in ("set", "restore", "step", "solve")
            try:
                if o == "eval":
                    m.evaluate(op["k"], op["k"], precondition=bool(op["p"]))
                elif o == "native":
                    m.evaluate(op["k"], op["k"] + op["d"], True, False)
                elif o == "set":
                    x = state_near(x0, g, op["eps"])
                    m.set_state(x)
                    if not same(np.array(m.get_state()), x):
                        out.append("set_state / get_state")
                elif o == "wrong":
                    if not refused(m.set_state, np.zeros(n + op["d"])):
                        out.append("state of the wrong length accepted")
                elif o == "hvp":
                    m.evaluate(2, 2, precondition=False)
                    m.hessian_vector_product(g.standard_normal(n))
                elif o == "pre":
                    m.evaluate(1, 1)
                    m.apply_preconditioner(g.standard_normal(n))
                elif o == "save":
                    m.save_backup()
                    backup = before
                elif o == "restore":
                    m.restore_backup()
                    if not same(np.array(m.get_state()), backup):
                        out.append("restore_backup is not the saved state")
                elif o == "step":
                    m.evaluate(1, 1)
                    m.perform_time_step(0.9, 0.8, op["eps"])
                elif o == "solve":
                    (m.solve if op["p"] else lambda: vmecpp.solve_equilibrium(m))()
                    backup = None
                elif o == "coarser":
                    if not refused(m.refine_to, ns + op["d"]):
                        out.append("refinement to a grid that is not finer accepted")
                elif o == "other":
                    q = start(dict(a, case=op["case"]))
                    q.evaluate(1, 1)
                    q.perform_time_step(0.9, 0.8, 1.0)
            except RuntimeError as e:
                info["err"] += 1
                if o in ("set", "save", "restore", "other"):
                    out.append("%s failed: %s" % (o, e))
            if o == "solve":
                # the driver keeps its own backup: a new baseline
                m.save_backup()
                backup = np.array(m.get_state())
            if keep and not same(np.array(m.get_state()), before):
                out.append("%s changed the state" % o)
            if out:
                break
        if not out:
            x = state_near(x0, g, a["eps"])
            f = start(a)
            f.set_state(x)
            m.set_state(x)
            if a["then"] == "refine":
                n2 = ns + 1 + a["more"]
                sch = [None, "LINEAR", "CUBIC", "CUBIC_RHO"][a["more"] % 4]
                sch = sch and getattr(_vmecpp.MultigridInterpolationScheme, sch)
                m.refine_to(n2, interpolation=sch)
                f.refine_to(n2, interpolation=sch)
                if m.ns != n2 or not close(np.array(m.get_state()), np.array(f.get_state())):
                    out.append("refined state depends on the history")
            r1 = r2 = e1 = e2 = None
            k, p = a["k"], bool(a["p"])
            try:
                r1 = observe(m, k, p)
            except RuntimeError as e:
                e1 = str(e)
            try:
                r2 = observe(f, k, p)
            except RuntimeError as e:
                e2 = str(e)
            if (e1 is None) != (e2 is None):
                out.append("evaluation failed with and not without the history: %s / %s" % (e1, e2))
            elif e1 is None:
                if r1[0] != r2[0]:
                    out.append("restart reason %s after a history, %s without" % (r1[0], r2[0]))
                elif r1[0] == 2:
                    info["bad"] += 1
                elif not close(r1[1], r2[1]):
                    i = int(np.argmax(np.abs(r1[1] - r2[1]) > 1e-9 * np.abs(r2[1]).max()))
                    out.append("evaluation depends on the history (entry %d)" % i)
                elif a["then"] == "step" and p:
                    m.zero_velocity()
                    m.perform_time_step(0.9, 0.8, 0.7)
                    f.perform_time_step(0.9, 0.8, 0.7)
                    if not close(np.array(m.get_state()), np.array(f.get_state())):
                        out.append("time step depends on the history")
                elif a["then"] == "hvp" and not p:
                    v = g.standard_normal(n)
                    h1, h2 = m.hessian_vector_product(v), f.hessian_vector_product(v)
                    if not close(np.array(h1), np.array(h2)):
                        out.append("Hessian-vector product depends on the history")
                    if not same(np.array(m.get_state()), x):
                        out.append("hessian_vector_product changed the state")
                elif a["then"] == "pre" and p:
                    v = g.standard_normal(n)
                    w = v.copy()
                    h1, h2 = m.apply_preconditioner(v), f.apply_preconditioner(v)
                    if not close(np.array(h1), np.array(h2)) or not same(v, w):
                        out.append("preconditioner depends on the history")
        SIG.extend(np.array(m.get_state()).tolist() + np.array(m.get_forces()).tolist())
    return {"problems": out, "info": info, "sig": hash(tuple(SIG)) & 0xffffffffff}
