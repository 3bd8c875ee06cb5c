"""C23 the stand-alone programs."""
import ctypes
import hashlib
import json
import os
import random

import netCDF4
import numpy as np

import _iosim
from scn import base, h5, text

COILS = []
HANDLER = ctypes.CFUNCTYPE(None, ctypes.c_int)
LIBC = ctypes.CDLL(None)


def prepare():
    _iosim.h5_quiet()
    COILS.append(text.short_coils().decode())


def indata(name, seed):
    """An input of the problem class; some of them cannot be solved."""
    rng = random.Random(seed)
    d = base.case(name)
    if seed:
        d["phiedge"] *= rng.choice([1.0, 0.9, 1.2])
        d["pres_scale"] = d.get("pres_scale", 1.0) * rng.choice([1.0, 0.5, 0.0])
        x = rng.random()
        if x < 0.25:
            d["niter_array"] = [rng.choice([1, 2, 5])] * len(d["ns_array"])
            d["return_outputs_even_if_not_converged"] = rng.random() < 0.5
        elif x < 0.35:
            d["ftol_array"] = [1e-6] * len(d["ns_array"])
        elif x < 0.4:
            d["nfp"] = 0
    return json.dumps(d)


def grid(seed):
    rng = random.Random(seed)
    d = dict(text.SMALL)
    d.update(normalize_by_currents=rng.random() < 0.5, assume_stellarator_symmetry=rng.random() < 0.5,
             number_of_r_grid_points=rng.choice([2, 3, 5]), number_of_z_grid_points=rng.choice([2, 3, 4]),
             number_of_phi_grid_points=rng.choice([1, 2, 4, 5]))
    if rng.random() < 0.15:
        d[rng.choice(["number_of_r_grid_points", "number_of_phi_grid_points"])] = rng.choice([0, -1])
    return json.dumps(d)


def coils(seed):
    """A coil set with other currents."""
    rng = random.Random(seed)
    out = []
    for x in COILS[0].splitlines():
        f = x.split()
        if len(f) == 4 and float(f[3]):
            f[3] = repr(float(f[3]) * 1.5) if seed % 2 else f[3]
        out.append(" ".join(f) if len(f) in (4, 6) else x)
    return "\n".join(out) + "\n"


def nc_dump(path):
    try:
        with netCDF4.Dataset(path) as f:
            f.set_auto_mask(False)
            return {k: (v.dtype.str, list(v.dimensions), list(v.shape), hashlib.sha256(np.ascontiguousarray(v[...]).tobytes()).hexdigest())
                    for k, v in f.variables.items()}
    except (OSError, RuntimeError):
        return None


def held(path):
    if not os.path.exists(path):
        return None
    if path.endswith(".nc"):
        return nc_dump(path)
    d = _iosim.h5_dump(path)
    return {k: (r, dims, kind, canon(v) if kind == "f" else v) for k, (r, dims, kind, v) in h5.norm(d).items()} if d is not None else "unreadable"


def canon(v):
    """The numbers with one NaN (a best-effort result of a run that went astray may hold some)."""
    x = np.frombuffer(v, "f8").copy()
    x[np.isnan(x)] = np.nan
    return x.tobytes()


def damaged(data, how, seed):
    rng = random.Random(seed)
    if how == "cut":
        return data[:rng.choice([0, 1, len(data) // 2, max(0, len(data) - 2), rng.randrange(len(data))])]
    if how == "zeros":
        i = rng.randrange(len(data))
        return data[:i] + "\0" * min(8, len(data) - i) + data[i + 8:]
    return data


def files():
    return {k: v for k, v in base.listing(".").items() if not k.startswith("tmp/")}


def hist(ctx, a):
    out = []
    for op in a["ops"]:
        mk = op["prog"] == "makegrid"
        ins, args, o = [], [], {}
        if mk:
            ins = [[op["params"], grid(op["s"])], [op["coils"], coils(op["s2"])]]
            target = "mgrid_" + os.path.basename(op["coils"])[6:] + ".nc"
            args = [op["params"], op["coils"]]
        else:
            ins = [[op["in"], indata(op["name"], op["s"])]]
            target = (op["in"][:-5] if op["in"].endswith(".json") else op["in"]) + ".out.h5"
            args = [op["in"]] + ([op["t"]] if op.get("t") is not None else [])
        if op.get("extra"):
            args.append(op["extra"])
        bad = op.get("bad")
        for i, (path, data) in enumerate(ins):
            os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
            if bad and bad[0] == i % len(ins):
                data = damaged(data, bad[1], op["s"])
            with open(path, "w") as f:
                f.write(data)
            ins[i][1] = data
            if bad and bad[0] == i and bad[1] == "missing":
                os.unlink(path)
        # what the library makes of these files, here and now
        scratch = os.environ["TMPDIR"] + ("/want.nc" if mk else "/want.h5")
        try:
            if mk:
                code, msg = _iosim.mgrid_make(args[0], args[1], scratch)
                lib = msg if code else None
            else:
                lib = None
                code, msg = _iosim.oq_save(_iosim.oq_run(ins[0][1]) if os.path.exists(args[0]) else None, scratch)
        except Exception as e:  # noqa: BLE001
            lib = str(e)
        want = None if lib else held(scratch)
        if os.path.exists(scratch):
            os.unlink(scratch)
        old, before = held(target), files()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            def report(*_):
                st = ctx.disarm()
                os.write(w, json.dumps([st["injected"], st["hits"][:20], st["total"], st["counts"], st["hash"]]).encode())
            handler = HANDLER(report)
            LIBC.signal(6, handler)        # a failed CHECK aborts; tell what happened until then
            code = 99
            try:
                ctx.arm(op.get("plan", ""), op.get("seed", 1))
                try:
                    code = _iosim.program(op["prog"], args)
                except BaseException:  # noqa: BLE001   an exception that leaves main ends the program
                    code = 98
                report()
            finally:
                os._exit(code & 255)
        os.close(w)
        st = os.fdopen(r).read()
        status = os.waitpid(pid, 0)[1]
        o["exit"], o["sig"] = (os.WEXITSTATUS(status), 0) if os.WIFEXITED(status) else (None, os.WTERMSIG(status))
        if st:
            inj, hits, total, counts, hs = json.loads(st)
            ctx.runs.append({"counts": counts, "total": total, "injected": inj, "hits": hits, "hash": hs, "log": ""})
            o["injected"] = inj
        new, after = held(target), files()
        o["lib"], o["target"] = lib, target
        o["is"] = "absent" if new is None else "right" if want is not None and new == want else "old" if new == old else "other"
        if o["is"] == "other" and want and isinstance(new, dict):
            o["differs"] = sorted(k for k in set(new) | set(want) if new.get(k) != want.get(k))[:6]
        if o["is"] == "absent" and old is not None:
            o["is"] = "lost"
        o["was_right"] = want is not None and old == want
        o["touched"] = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k != target)
        out.append(o)
    return out
