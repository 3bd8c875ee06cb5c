"""C12: saving a wout file is atomic and faithful."""
import os
import random

import netCDF4
import numpy as np

import vmecpp
from scn import base

BASES = []
SPECIAL = [0.0, -0.0, np.nan, np.inf, -np.inf, 5e-324, 1.7976931348623157e308, -1e-300, 1.0 + 2**-52]


def prepare():
    for name, over in [("axi", {}), ("stell", {}), ("asym", {})]:
        BASES.append(base.result(name, **over, return_outputs_even_if_not_converged=True).wout)
    data = os.environ["SIM_REPO"] + "/src/vmecpp/cpp/vmecpp/test_data/wout_%s.nc"
    # files of other codes and older versions: missing and additional variables
    for name in ("cth_like_free_bdy", "solovev_free_bdy", "solovev"):
        BASES.append(vmecpp.VmecWOut.from_wout_file(data % name))


def variant(b, seed):
    w = BASES[b].model_copy(deep=True)
    rng = random.Random(seed)
    g = np.random.default_rng(seed)
    special = rng.random() < 0.5
    if rng.random() < 0.5:
        n = rng.choice([0, 1, 1, 2, 5])
        w.extcur, w.nextcur = g.standard_normal(n) * 1e5, n
    for name in type(w).model_fields:
        v = getattr(w, name)
        if name == "extcur":
            continue
        if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size:
            u = g.standard_normal(v.shape) * 10.0 ** rng.randint(-12, 12)
            if special and rng.random() < 0.3:
                u.flat[rng.randrange(v.size)] = rng.choice(SPECIAL)
            setattr(w, name, u)
        elif isinstance(v, np.ndarray) and v.dtype.kind == "i" and v.size and name not in ("xm", "xn", "xm_nyq", "xn_nyq"):
            setattr(w, name, g.integers(1, 5, v.shape).astype(v.dtype))
        elif isinstance(v, bool):
            pass
        elif isinstance(v, float) and name != "version_":
            setattr(w, name, rng.choice(SPECIAL) if special and rng.random() < 0.2 else rng.gauss(0, 1) * 10.0 ** rng.randint(-9, 9))
        elif isinstance(v, int) and name in ("ier_flag", "itfsq", "signgs", "niter", "nextcur"):
            setattr(w, name, rng.randint(-3, 12345))
        elif isinstance(v, str):
            if name == "mgrid_mode":
                setattr(w, name, rng.choice(["R", "S", ""]))
                continue
            meta = type(w).model_fields[name].metadata
            cap = meta[0].max_length if meta else 20
            n = rng.choice([0 if meta else 1, 1, 7, cap - 1, cap])
            setattr(w, name, "".join(rng.choice("abcXYZ_019. -/") for _ in range(n)).strip() or "x")
            if n > 3 and rng.random() < 0.03:
                # cannot be represented in the file: must be refused, not altered
                setattr(w, name, "é" + getattr(w, name)[1:])
    return w


def fields(w):
    d = {n: getattr(w, n) for n in type(w).model_fields}
    d.update(w.model_extra or {})
    return d


def refusable(w):
    return any(isinstance(v, str) and not v.isascii() for v in fields(w).values())


def raw_check(path, w):
    """Independent of the reader in the package: the variables of the file."""
    bad = []
    with netCDF4.Dataset(path, "r") as f:
        f.set_auto_mask(False)
        for name, info in type(w).model_fields.items():
            v = getattr(w, name)
            key = info.alias or name
            if v is None:
                if key in f.variables:
                    bad.append(name + ": stored although unset")
                continue
            if key not in f.variables:
                if isinstance(v, np.ndarray) and v.size == 0:
                    continue
                bad.append(name + ": not in the file")
                continue
            x = f[key][()]
            if isinstance(v, str):
                if x.tobytes().decode("latin1").strip("\x00").strip() != v:
                    bad.append(name)
                continue
            x = np.asarray(x)
            y = np.asarray(v)
            if y.size == 0:
                continue
            if y.ndim == 2:
                x = x.T
            if y.ndim == 1 and x.ndim == 1 and x.size > y.size:
                if np.any(x[y.size:] != 0):
                    bad.append(name + ": padding")
                x = x[:y.size]
            if y.dtype.kind == "b":
                y = y.astype(int)
            if not base.same(x, y):
                bad.append(name)
    return bad


def matches(path, w):
    """Problems of the file at path as a saved copy of w ([] = faithful)."""
    try:
        r = vmecpp.VmecWOut.from_wout_file(path)
    except Exception as e:  # noqa: BLE001
        return ["unreadable: %s: %s" % (type(e).__name__, str(e)[:200])]
    bad = []
    for n, v in fields(w).items():
        x = getattr(r, n, None)
        if isinstance(v, np.ndarray) and isinstance(x, np.ndarray) and v.ndim == 1 and x.ndim == 1 and x.size > v.size \
                and n in ("am", "ac", "ai", "am_aux_s", "am_aux_f", "ac_aux_s", "ac_aux_f", "ai_aux_s", "ai_aux_f"):
            x = x[:v.size]
        if not base.same(x, v):
            bad.append("read-back " + n)
    return bad + raw_check(path, w)


def who(path, known):
    """Which known object the file holds: index, 'absent' or the problems."""
    if not os.path.exists(path):
        return "absent", []
    probs = None
    for key, (b, s) in known:
        m = matches(path, variant(b, s))
        if not m:
            return key, []
        if probs is None or len(m) < len(probs):
            probs = m
    return None, probs or ["nothing was ever saved there"]


def save(ctx, a):
    """A history of saves in one process; journal entries after every step."""
    out = []
    state = {}
    for i, op in enumerate(a["ops"]):
        w = variant(op["b"], op["s"])
        before = base.listing(ctx.root)
        ctx.note({"i": i, "start": 1})
        try:
            with ctx.faults(op.get("plan", ""), op.get("seed", 1)) as f:
                w.save(op["path"])
            err = None
        except BaseException as e:  # noqa: BLE001
            err = "%s: %s" % (type(e).__name__, str(e)[:160])
        st = ctx.runs[-1]
        after = base.listing(ctx.root)
        o = {"i": i, "err": err, "injected": st["injected"], "hit": st["hits"], "refusable": refusable(w)}
        o["changed"] = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        o["extra"] = sorted(k for k in after if k not in before and os.path.normpath(k) != os.path.normpath(op["path"]))
        if err is None:
            o["problems"] = matches(op["path"], w)
        elif os.path.normpath(op["path"]) in o["changed"]:
            o["problems"] = matches(op["path"], w)
        ctx.note({"i": i, "done": 1, "ok": err is None})
        out.append(o)
    return out


def one(ctx, a):
    """A single save (used for concurrent processes)."""
    w = variant(a["b"], a["s"])
    try:
        with ctx.faults():
            w.save(a["path"])
        err = None
    except BaseException as e:  # noqa: BLE001
        err = "%s: %s" % (type(e).__name__, str(e)[:160])
    return {"err": err, "injected": ctx.runs[-1]["injected"], "refusable": refusable(w)}


def inspect(ctx, a):
    """After the faults: what is on disk, and does saving work again?"""
    out = {"notes": ctx.notes()}
    out["files"] = sorted(base.listing(ctx.root))
    out["state"] = {p: who(p, [(k, tuple(v)) for k, v in known]) for p, known in a["known"].items()}
    w = variant(0, 3)
    w.save(a["again"])
    out["again"] = matches(a["again"], w)
    return out
