"""C15, C16: input files and conversions under storage faults, crashes and
concurrent processes."""
import json
import os
import random
import subprocess
import tempfile
from pathlib import Path

import numpy as np

import vmecpp
from vmecpp import _util
from scn import base

CASES = ["axi", "stell", "asym", "free", "lambda", "nozero", "iota"]
BASES = []
FLOATS = [0.0, 1.0, -1.0, 5e-324, 1.7976931348623157e308, 1.0 + 2**-52, 1e-300, -2.5e-17, 0.1, 1e22, 123456789.123456789]


def prepare():
    for n in CASES:
        if os.path.exists(base.CASES + n + ".json"):
            BASES.append(base.load_input(n))
    BASES.append(vmecpp.VmecInput.default())


def variant(b, seed):
    """A valid input with arbitrary values, as a user or optimiser makes them."""
    w = BASES[b % len(BASES)].model_copy(deep=True)
    rng, g = random.Random(seed), np.random.default_rng(seed)

    def f():
        return rng.choice(FLOATS) if rng.random() < 0.4 else rng.gauss(0, 1) * 10.0 ** rng.randint(-12, 12)

    def arr(n):
        return np.array([f() for _ in range(n)], dtype=float)
    w.ncurr = rng.randrange(2)
    if rng.random() < 0.5:
        w.lasym = not w.lasym
    mpol, ntor = rng.randint(2, 6), rng.randint(0, 4)
    steps = rng.choice([1, 1, 2, 3, 4])
    w.ns_array = np.sort(g.integers(3, 60, steps))
    w.ftol_array = np.abs(arr(steps))
    w.niter_array = g.integers(1, 5000, steps)
    w.mpol, w.ntor = mpol, ntor
    if steps > 1 and rng.random() < 0.3:
        if rng.random() < 0.7:
            w.mpol = np.array(sorted(rng.randint(2, mpol) for _ in range(steps - 1)) + [mpol], dtype=np.int64)
        if rng.random() < 0.7:
            w.ntor = np.array(sorted(rng.randint(0, ntor) for _ in range(steps - 1)) + [ntor], dtype=np.int64)
    for n in ("rbc", "zbs", "rbs", "zbc"):
        if n in ("rbs", "zbc") and not w.lasym:
            setattr(w, n, None)
            continue
        x = arr(mpol * (2 * ntor + 1)).reshape(mpol, 2 * ntor + 1)
        x[g.random(x.shape) < rng.choice([0, 0.3, 0.9, 1.0])] = 0.0
        setattr(w, n, x)
    for n in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        setattr(w, n, None if n in ("raxis_s", "zaxis_c") and not w.lasym else arr(ntor + 1))
    for n in ("am", "ai", "ac", "aphi", "extcur"):
        setattr(w, n, arr(rng.choice([0, 1, 3, 21])))
    for n in ("am", "ai", "ac"):
        k = rng.choice([0, 0, 2, 101])
        setattr(w, n + "_aux_s", arr(k))
        setattr(w, n + "_aux_f", arr(k))
    for n in ("phiedge", "pres_scale", "gamma", "spres_ped", "curtor", "bloat", "delt", "tcon0"):
        setattr(w, n, f())
    for n in ("nfp", "nvacskip", "nstep"):
        setattr(w, n, rng.randint(1, 30))
    for n in ("ntheta", "nzeta"):
        setattr(w, n, rng.choice([0, 0, 20, 36]))
    for n in ("mpol_geometry", "ntor_geometry"):
        setattr(w, n, rng.choice([-1, -1, 1, 2]))
    for n in ("lforbal", "return_outputs_even_if_not_converged", "lfreeb"):
        setattr(w, n, rng.random() < 0.5)
    for n in ("pmass_type", "piota_type", "pcurr_type"):
        setattr(w, n, rng.choice(["power_series", "two_power", "line_segment", "akima_spline", "cubic_spline_i"]))
    # the ranges VMEC++ accepts
    w.phiedge = w.phiedge or 1.0
    w.pres_scale = abs(w.pres_scale)
    w.gamma = 0.5 if w.gamma == 1.0 else w.gamma
    w.spres_ped = rng.choice([1.0, 0.3, rng.random() + 1e-9, 5e-324])
    w.delt = rng.choice([10.0, 0.9, rng.random() + 1e-9, 1e-300])
    w.tcon0 = rng.choice([0.0, 1.0, rng.random()])
    if w.ncurr == 0:
        w.bloat = 1.0
    w.mgrid_file = rng.choice(["NONE", "mgrid_x.nc", "/a b/c'd\"e/m\\g.nc", "./ü/mgrid.nc", ""])
    w.free_boundary_method = rng.choice([m for m in vmecpp.FreeBoundaryMethod if not w.lfreeb or m.value in ("nestor", "only_coils")])
    w.iteration_style = rng.choice(list(vmecpp.IterationStyle))
    return vmecpp.VmecInput.model_validate(w)


def differ(a, b):
    """Fields in which two inputs differ (numerically; -0.0 equals 0.0)."""
    bad = []
    for n in type(a).model_fields:
        x, y = getattr(a, n), getattr(b, n)
        if x is None or y is None:
            if not (x is None and y is None):
                bad.append(n)
        elif isinstance(x, (str, bool)) or hasattr(x, "value"):
            if x != y:
                bad.append(n)
        else:
            p, q = np.asarray(x), np.asarray(y)
            if p.shape != q.shape or not bool(np.all(p == q)):
                bad.append(n)
    return bad


def load(path):
    try:
        return vmecpp.VmecInput.from_file(path), None
    except BaseException as e:  # noqa: BLE001
        return None, "%s: %s" % (type(e).__name__, str(e)[:160])


def holds(path, known):
    """'absent', 'unreadable', the index of the input the file holds, or None."""
    if not os.path.exists(path):
        return "absent", ""
    r, err = load(path)
    if r is None:
        return "unreadable", err
    why = None
    for k, (b, s) in known:
        d = differ(variant(b, s), r)
        if not d:
            return k, ""
        why = d if why is None or len(d) < len(why) else why
    return None, "loads as an input nobody saved there, differing in %s" % why


def rewrite(path, seed):
    """The same input as another program may write it: members and coefficients in another order, and
    coefficients beyond the resolution, which do not count."""
    rng = random.Random(seed)
    d = json.loads(Path(path).read_text())
    for k in ("rbc", "zbs", "rbs", "zbc"):
        if d.get(k):
            rng.shuffle(d[k])
            if rng.random() < 0.5:
                d[k].insert(rng.randrange(len(d[k]) + 1), {"m": rng.choice([0, 1, 60]), "n": rng.choice([-60, 60]), "value": 0.125})
    items = list(d.items())
    rng.shuffle(items)
    Path(path).write_text(json.dumps(dict(items), indent=rng.choice([None, 1, 8])))


def _env():
    return os.getcwd(), sorted(os.listdir(tempfile.tempdir))


def c15(ctx, a):
    """A history of saves and loads of input files in one process."""
    probs = []
    model = {}          # path -> set of acceptable contents
    known = {}
    for p, l in a.get("known", {}).items():
        known[p] = [(k, tuple(v)) for k, v in l]
    info = {"saves": 0, "save_failed": 0, "loads": 0, "load_failed": 0, "unreadable": 0}
    for i, op in enumerate(a["ops"]):
        before, env = base.listing(ctx.root), _env()
        path = op["path"]
        err = r = None
        nruns = len(ctx.runs)
        ctx.note({"i": i, "start": 1})
        if op["op"] == "save":
            w = variant(op["b"], op["s"])
            copy = w.model_copy(deep=True)
            known.setdefault(path, []).append((i, (op["b"], op["s"])))
            try:
                with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                    w.save(path if op.get("str") else Path(path), **({"indent": op["indent"]} if op.get("indent") else {}))
            except BaseException as e:  # noqa: BLE001
                err = "%s: %s" % (type(e).__name__, str(e)[:160])
            if differ(w, copy):
                probs.append("saving changed the input: %s" % differ(w, copy))
            info["saves"] += 1
            info["save_failed"] += err is not None
        else:
            m = model.get(path, set())
            if op.get("edit") and len(m) == 1 and not isinstance(next(iter(m)), str):
                rewrite(path, op["edit"])
                before = base.listing(ctx.root)
            try:
                with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                    r = vmecpp.VmecInput.from_file(path)
            except BaseException as e:  # noqa: BLE001
                err = "%s: %s" % (type(e).__name__, str(e)[:160])
            info["loads"] += 1
            info["load_failed"] += err is not None
        st = ctx.settle(nruns)
        hit = {h[0] for h in st["hits"]}
        after = base.listing(ctx.root)
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        mine = os.path.normpath(path)
        # a fault in the removal itself may leave a temporary directory
        excused = st["injected"] > 0
        if [x for x in changed if os.path.normpath(x) != mine and not (x.startswith("tmp/") and excused)]:
            probs.append("another file changed: %s" % changed)
        if os.getcwd() != env[0] and not excused:
            probs.append("working directory changed")
        os.chdir(ctx.root)
        if _env()[1] != env[1] and not ({"unlink", "open", "close", "any"} & hit):
            probs.append("temporary directory left behind: faults %s" % st["hits"])
        if err and not st["injected"]:
            ok = op["op"] == "load" and model.get(path, {"absent"}) <= {"absent", "unreadable"}
            if not ok:
                probs.append("%s failed without a fault: %s" % (op["op"], err))
        if op["op"] == "save":
            got, why = holds(path, known[path])
            if err is None:
                if got != i and (got is None or differ(variant(*dict(known[path])[got]), w) if not isinstance(got, str) else True):
                    probs.append("saved file does not hold the input: %s %s, faults %s" % (got, why, st["hits"]))
                model[path] = {i}
                try:
                    d = differ(vmecpp.VmecInput.model_validate_json(Path(path).read_text()), w)
                except Exception as e:  # noqa: BLE001
                    d = "%s: %s" % (type(e).__name__, str(e)[:200])
                if d:
                    probs.append("the text of the file is another input: %s, faults %s" % (d, st["hits"]))
            else:
                allowed = model.get(path, {"absent"}) | {i, "unreadable"}
                if got not in allowed:
                    probs.append("failed save: %s %s" % (got, why))
                model[path] = {got}
            info["unreadable"] += got == "unreadable"
        else:
            if mine in [os.path.normpath(x) for x in changed]:
                probs.append("loading changed the file")
            if err is None:
                m = [k for k in model.get(path, set()) if not isinstance(k, str)]
                if not m:
                    probs.append("loaded something from a file that holds no input")
                elif all(differ(variant(*dict(known[path])[k]), r) for k in m):
                    probs.append("load returned another input than saved: %s, faults %s" % (
                        differ(variant(*dict(known[path])[m[0]]), r), st["hits"]))
        ctx.note({"i": i, "done": 1, "ok": err is None})
    return {"problems": probs, "info": info}


def c15_after(ctx, a):
    """After a crash: every file holds the old input, the new one, or is refused."""
    probs = []
    notes = ctx.notes()
    done = {n["i"]: n["ok"] for n in notes if n.get("done")}
    cur = [n["i"] for n in notes if n.get("start") and n["i"] not in done]
    paths = {}
    for i, op in enumerate(a["ops"]):
        if op["op"] != "save":
            continue
        m = paths.setdefault(op["path"], {"known": [], "ok": {"absent"}})
        m["known"].append((i, (op["b"], op["s"])))
        if done.get(i):
            m["ok"] = {i}
        elif i in done:
            m["ok"] |= {i, "unreadable"}
        elif i in cur:
            m["ok"] |= {i, "unreadable"}
    for p, m in paths.items():
        got, why = holds(p, m["known"])
        if got not in m["ok"] and not any(
                not isinstance(x, str) and not isinstance(got, str) and got is not None
                and not differ(variant(*dict(m["known"])[x]), variant(*dict(m["known"])[got])) for x in m["ok"]):
            probs.append("after the crash %s holds %s %s" % (p, got, why))
        w = variant(0, 3)
        w.save(p)
        if holds(p, [(0, (0, 3))])[0] != 0:
            probs.append("saving again after the crash does not work")
    return {"problems": probs}


# ----------------------------------------------------------------- conversion
class Converter:
    """Stand-in for the indata2json program: a child process is one call."""

    def __init__(self, ctx, behaviour):
        self.ctx, self.b = ctx, list(behaviour)
        self.calls = []

    def __call__(self, command, check=False, **kw):
        b = self.b.pop(0) if self.b else {"act": "ok"}
        command = [str(x) for x in command]
        self.calls.append({"cmd": command, "cwd": os.getcwd()})
        if kw.get("cwd"):
            raise AssertionError("unexpected cwd")
        src = command[-1]
        text = open(src).read()
        folder = command[command.index("--mgrid_folder") + 1] if "--mgrid_folder" in command else None
        act = b["act"]
        out = _converted(text, folder)
        name = os.path.basename(src)
        name = name[6:] if name.startswith("input.") else name
        if act in ("ok", "partial", "late"):
            with open(name + ".json", "w") as f:
                f.write(out if act != "partial" else out[:len(out) // 2])
        if act in ("fail", "partial"):
            if check:
                raise subprocess.CalledProcessError(b.get("code", 1), command)
            return subprocess.CompletedProcess(command, b.get("code", 1))
        if act == "interrupt":
            raise KeyboardInterrupt
        if act == "oserror":
            raise OSError(b.get("code", 12), "cannot run")
        return subprocess.CompletedProcess(command, 0)


def _converted(text, folder):
    """What the program makes of an INDATA file: here the JSON it carries."""
    js = json.loads("".join(x[7:] for x in text.splitlines() if x.startswith("!JSON: ")))
    if folder is not None:
        js["mgrid_file"] = folder + "/" + js["mgrid_file"]
    return json.dumps(js)


def _norm(text, op):
    try:
        d = json.loads(text)
    except ValueError:
        return None
    if op.get("mgrid"):
        d["mgrid_file"] = os.path.normpath(d["mgrid_file"])
    return d


def scalar_variant(b, s):
    """As variant, without a resolution schedule (INDATA has none)."""
    w = variant(b, s)
    for n in ("mpol", "ntor"):
        v = getattr(w, n)
        if not isinstance(v, int):
            setattr(w, n, int(v[-1]))
    return vmecpp.VmecInput.model_validate(w)


def indata_text(b, s):
    rng = random.Random(s * 7 + b)
    js = scalar_variant(b, s).to_json()
    head = rng.choice(["", "\n\n", "! a comment\n", "  \n! first\n\n! second\n"])
    body = "".join("!JSON: %s\n" % js[i:i + 200] for i in range(0, len(js), 200))
    return head + rng.choice(["&INDATA", "  &INDATA  "]) + "\n" + body + "/\n"


def parse_namelist(text):
    """Independent reader of a Fortran namelist: name -> value(s)."""
    out, bounds = {}, {}
    lines = [x.split("!")[0].strip() if "'" not in x else x.strip() for x in text.splitlines()]
    lines = [x for x in lines if x]
    if lines[0] != "&INDATA" or lines[-1] != "/":
        raise ValueError("not a namelist")

    def val(x):
        x = x.strip()
        if x.startswith("'"):
            if x[-1] != "'" or "'" in x[1:-1].replace("''", ""):
                raise ValueError("not a string: " + x)
            return x[1:-1].replace("''", "'")
        if x in (".true.", ".false."):
            return x == ".true."
        return int(x) if x.lstrip("-").isdigit() else float(x)
    for x in lines[1:-1]:
        k, v = x.split("=", 1)
        k = k.strip()
        if "(" in k:
            name, idx = k[:-1].split("(")
            n, m = map(int, idx.split(","))
            if (m, n) in bounds.setdefault(name, {}):
                raise ValueError("twice: " + k)
            bounds[name][(m, n)] = val(v)
        else:
            if k in out:
                raise ValueError("twice: " + k)
            out[k] = val(v) if v.strip().startswith("'") else [val(y) for y in v.split(",")]
    return out, bounds


SCALARS = ("lasym", "nfp", "mpol", "ntor", "ntheta", "nzeta", "delt", "tcon0", "lforbal", "nstep", "phiedge", "pmass_type", "pres_scale",
           "gamma", "spres_ped", "ncurr", "piota_type", "pcurr_type", "curtor", "bloat", "lfreeb", "mgrid_file", "nvacskip")
ARRAYS = ("ns_array", "ftol_array", "niter_array", "aphi", "am", "am_aux_s", "am_aux_f", "ai", "ai_aux_s", "ai_aux_f", "ac", "ac_aux_s",
          "ac_aux_f", "extcur")


def namelist_problems(text, w):
    """Values of the namelist against the input they were made from."""
    bad = []
    try:
        vals, bounds = parse_namelist(text)
    except ValueError as e:
        return ["no namelist that Fortran reads: %s" % e]
    for k in SCALARS:
        v = vals.get(k)
        v = v[0] if isinstance(v, list) else v
        if v != getattr(w, k):
            bad.append("%s is %r, not %r" % (k, v, getattr(w, k)))
    for k in ARRAYS:
        v = vals.get(k, [])
        if list(v) != list(getattr(w, k)):
            bad.append(k)
    for k, j in (("raxis_cc", "raxis_c"), ("zaxis_cs", "zaxis_s"), ("raxis_cs", "raxis_s"), ("zaxis_cc", "zaxis_c")):
        v, x = list(vals.get(k, [])), getattr(w, j)
        if v != ([] if x is None else list(x)):
            bad.append(k)
    for k in ("rbc", "zbs", "rbs", "zbc"):
        x = getattr(w, k)
        want = {} if x is None else {(m, n - (x.shape[1] - 1) // 2): x[m, n] for m in range(x.shape[0]) for n in range(x.shape[1]) if x[m, n]}
        got = {i: v for i, v in bounds.get(k, {}).items() if v}
        if got != want:
            bad.append(k)
    return bad


def c16(ctx, a):
    """A history of conversions in one simulated process."""
    probs, info = [], {"converted": 0, "failed": 0, "cleanup_faults": 0}
    dist = Path(ctx.root) / "dist"
    exe = dist / "cpp" / "third_party" / "indata2json"
    exe.mkdir(parents=True, exist_ok=True)
    (exe / "indata2json").write_text("#!/bin/sh\nexit 9\n")
    os.chmod(exe / "indata2json", 0o755)
    _util.distribution_root = lambda: dist
    subprocess.run = conv = Converter(ctx, [])
    subprocess.check_call = lambda cmd, **k: conv(cmd, check=True, **k).returncode
    subprocess.call = lambda cmd, **k: conv(cmd, **k).returncode
    subprocess.check_output = lambda cmd, **k: conv(cmd, check=True, **k).stdout
    os.makedirs("in", exist_ok=True)
    os.makedirs("work", exist_ok=True)
    private = a.get("private", True)
    excused = set()      # left by an earlier step whose removal failed

    def tree():
        l = base.listing(ctx.root)
        return {k: v for k, v in l.items() if not k.startswith("tmp/")}
    for i, op in enumerate(a["ops"]):
        name = op["name"]
        text = indata_text(op["b"], op["s"]) if op["in"] == "indata" else scalar_variant(op["b"], op["s"]).to_json(indent=op.get("indent"))
        src = Path("in") / name
        if not (src.exists() and src.read_text() == text):
            src.write_text(text)
        want = scalar_variant(op["b"], op["s"])
        os.chdir(ctx.root + "/work" if op.get("cd") else ctx.root)
        rel = Path(os.path.relpath(ctx.root + "/in/" + name)) if op.get("rel") else Path(ctx.root) / "in" / name
        conv.b = [op.get("conv") or {"act": "ok"}]
        conv.calls = []
        before, env = tree(), _env()
        err, inside, ret = None, None, None
        nruns = len(ctx.runs)
        body_error = op.get("body")
        try:
            with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                if op["op"] == "from_file":
                    ret = vmecpp.VmecInput.from_file(rel)
                elif op["op"] == "i2j":
                    ret = _util.indata_to_json(rel, use_mgrid_file_absolute_path=bool(op.get("mgrid")),
                                               output_override=Path(op["out"]) if op.get("out") else None)
                elif op["op"] == "ensure_json":
                    with vmecpp.ensure_vmecpp_input(rel) as p:
                        inside = {"path": p, "text": Path(p).read_text(), "cwd": os.getcwd()}
                        if body_error:
                            raise {"value": ValueError, "interrupt": KeyboardInterrupt, "exit": SystemExit}[body_error]("body")
                else:
                    with vmecpp.ensure_vmec2000_input(rel) as p:
                        inside = {"path": p, "text": Path(p).read_text(), "cwd": os.getcwd()}
                        if body_error:
                            raise {"value": ValueError, "interrupt": KeyboardInterrupt, "exit": SystemExit}[body_error]("body")
        except BaseException as e:  # noqa: BLE001
            err = e
        st = ctx.settle(nruns)
        hit = {h[0] for h in st["hits"]}
        etext = "%s: %s" % (type(err).__name__, str(err)[:160]) if err is not None else None
        tag = "%s %s (%s): " % (op["op"], name, etext or "ok")
        after, env2 = tree(), _env()
        new = sorted(k for k in after if k not in before)
        gone = sorted(k for k in before if k not in after)
        mod = sorted(k for k in after if k in before and after[k] != before[k])
        cleanup = bool({"unlink", "open", "close", "any"} & hit)
        info["cleanup_faults"] += "unlink" in hit
        if env2[0] != env[0]:
            probs.append(tag + "working directory not restored")
        if env2[1] != env[1] and private and not cleanup:
            probs.append(tag + "temporary directory left behind, faults %s" % st["hits"])
        outname = None
        if op["op"] == "i2j":
            cfg = name[6:] if name.startswith("input.") else name.removesuffix(".json")
            outname = os.path.relpath(os.path.normpath(os.path.join(env[0], op.get("out") or cfg + ".json")), ctx.root)
        if private:
            left = [x for x in new + mod + gone if x != outname and x not in excused]
            if left and not (err is not None and "unlink" in hit and not mod and not gone):
                probs.append(tag + "left files behind or changed others: %s, faults %s" % (left, st["hits"]))
            excused |= set(left)
        os.chdir(ctx.root)
        must_fail = op["in"] == "indata" and op["op"] in ("from_file", "i2j", "ensure_json") and conv.b == [] and \
            (op.get("conv") or {}).get("act", "ok") not in ("ok",)
        if op["op"] == "i2j" and op["in"] != "indata":
            must_fail = False
        if must_fail and err is None:
            probs.append(tag + "failed conversion not reported")
        if err is not None:
            info["failed"] += 1
            expected = st["injected"] or must_fail or body_error
            if not expected:
                probs.append(tag + "failed without a fault")
            if body_error and not st["injected"] and not must_fail and type(err).__name__ not in ("ValueError", "KeyboardInterrupt", "SystemExit"):
                probs.append(tag + "error of the body replaced")
            if (op.get("conv") or {}).get("act") == "interrupt" and conv.calls and not st["injected"] and not isinstance(err, KeyboardInterrupt):
                probs.append(tag + "interrupt swallowed")
            if inside is None or not body_error:
                continue
        if err is None:
            info["converted"] += 1
        # contents
        if op["op"] == "from_file":
            d = differ(want, ret)
            if d:
                probs.append(tag + "wrong contents: %s" % d)
            continue
        if op["op"] == "i2j":
            full = os.path.join(ctx.root, outname)
            if not os.path.isabs(str(ret)) or os.path.realpath(str(ret)) != os.path.realpath(full):
                probs.append(tag + "returned %s, wrote %s" % (ret, outname))
            elif _norm(Path(full).read_text(), op) != _norm(_converted(text, os.path.realpath(ctx.root + "/in") if op.get("mgrid") else None), op):
                probs.append(tag + "output is not what the converter produced")
            continue
        if inside is None:
            probs.append(tag + "no path given")
            continue
        p = Path(inside["path"])
        if op["op"] == "ensure_json":
            if op["in"] == "indata":
                if inside["text"] != _converted(text, None):
                    probs.append(tag + "another file's contents")
                if p.exists() and not cleanup:
                    probs.append(tag + "converted file not removed")
            elif p != rel:
                probs.append(tag + "a JSON file was not passed through")
        elif op["in"] == "indata":
            if p != rel:
                probs.append(tag + "an INDATA file was not passed through")
        else:
            cfg = name.removesuffix(".json").removeprefix("input.")
            if p.name != "input." + cfg:
                probs.append(tag + "named %s" % p.name)
            bad = namelist_problems(inside["text"], want)
            if bad:
                probs.append(tag + "namelist differs: %s" % bad[:5])
            if p.exists() and not cleanup:
                probs.append(tag + "converted file not removed")
    return {"problems": probs, "info": info}


def c16_after(ctx, a):
    """After several processes on one directory: only the inputs are left."""
    left = sorted(k for k in base.listing(ctx.root) if k.startswith(("in/", "work/", "tmp/")))
    extra = [k for k in left if k not in a["expect"]]
    tmp = os.listdir(ctx.root + "/tmp")
    return {"problems": (["left behind after concurrent conversions: %s" % extra] if extra and not a.get("crashed") else [])
            + (["temporary directories left: %s" % tmp] if tmp and not a.get("crashed") else []), "info": {}}
