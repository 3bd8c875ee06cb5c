"""C13 typed NetCDF readers; C14 vacuum field tables (mgrid files)."""
import os
import random

import netCDF4
import numpy as np

import _iosim
from scn import base

TYPES3 = ["i1", "i2", "i4", "f4", "f8", "S1"]
TYPES4 = TYPES3 + ["i8", "u2", "u4"]


def prepare():
    pass


def content(seed):
    """A random file: format and name -> (type, dims, values)."""
    rng = random.Random(seed)
    g = np.random.default_rng(seed)
    fmt = rng.choice(["NETCDF3_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4", "NETCDF4_CLASSIC"])
    types = TYPES4 if fmt == "NETCDF4" else TYPES3
    out = {}
    for i in range(rng.choice([1, 3, 6])):
        t = rng.choice(types + ["f8", "f8", "i4", "S1"])
        rank = rng.choice([0, 0, 1, 1, 2, 3, 4])
        dims = [rng.choice([0, 1, 1, 2, 3, 5, 17]) if rng.random() < 0.9 else 40 for _ in range(rank)]
        if 0 in dims and fmt != "NETCDF4":
            dims = [max(1, d) for d in dims]     # classic formats have no fixed empty dimension
        if t == "S1":
            v = np.array([rng.choice([b"a", b"Z", b" ", b"0", b"\0" if rng.random() < 0.2 else b"q"])
                          for _ in range(int(np.prod(dims, dtype=int)))], dtype="S1").reshape(dims)
        elif t[0] == "f":
            v = (g.standard_normal(dims) * 10.0 ** rng.randint(-20, 20)).astype(t)
            if rng.random() < 0.3:
                v = np.round(g.standard_normal(dims) * 100).astype(t)
            if rng.random() < 0.1:
                v = np.full(dims, rng.choice([1e18, -3e9, np.inf, np.nan])).astype(t)
        else:
            lim = np.iinfo(t)
            v = g.integers(max(lim.min, -2 ** 40), min(lim.max, 2 ** 40), dims, endpoint=True).astype(t) if rng.random() < 0.5 \
                else g.integers(0, 3, dims).astype(t)
        name = rng.choice(["v%d", "v%d__logical__"]) % i
        out[name] = (t, dims, np.asarray(v))
    return fmt, out


def write(path, seed):
    fmt, vs = content(seed)
    with netCDF4.Dataset(path, "w", format=fmt) as f:
        f.set_auto_mask(False)
        for n, (t, dims, v) in vs.items():
            for j, d in enumerate(dims):
                f.createDimension("%s_%d" % (n, j), d)
            x = f.createVariable(n, t, ["%s_%d" % (n, j) for j in range(len(dims))])
            x.set_auto_mask(False)
            if t == "S1":
                x.set_auto_chartostring(False)
            x[...] = v
    return vs


def expect(reader, entry):
    """What the reader may return: ("err",), ("val", value) or None (unspecified)."""
    if entry is None:
        return ("err",)
    t, dims, v = entry
    rank = len(dims)
    want = {"bool": 0, "int": 0, "double": 0, "char": 1, "string": 1, "array1": 1, "array2": 2, "array3": 3}[reader]
    if rank != want:
        return ("err",)
    if reader in ("char", "string"):
        if t != "S1":
            return ("err",)
        raw = v.tobytes()
        if reader == "char":
            return ("val", raw) if len(raw) == 1 else ("err",)
        return ("val", raw.split(b"\0")[0].strip())
    if t == "S1":
        return ("err",)
    if reader in ("bool", "int"):
        x = v.item()
        if t[0] == "f" and (x != x or abs(x) > 1e18 or x != int(x)):
            return None
        if not -2 ** 31 <= int(x) < 2 ** 31:
            return ("err",)
        return ("val", bool(x) if reader == "bool" else int(x))
    return ("val", v.astype("f8"))


def call(fid, reader, name):
    fn = getattr(_iosim, "nc_" + reader)
    code, msg, val = fn(fid, name)
    return (None, val) if code == 0 else (msg, None)


def shape(v, rank):
    """Nested lists -> shape, None when ragged."""
    try:
        return list(np.asarray(v, dtype="f8").shape)
    except ValueError:
        return None


def read(ctx, a):
    out = []
    for op in a["ops"]:
        vs = write(op["path"], op["s"])
        res = []
        # On a read error inside HDF5 the netCDF-4 library itself crashes; vmecpp's own files are NetCDF-3.
        plan = op.get("plan", "") if content(op["s"])[0].startswith("NETCDF3") else ""
        with ctx.faults(plan, op.get("seed", 1)):
            rc, fid = _iosim.nc_open(op["path"])
            if rc == 0:
                for reader, name in op["reads"]:
                    if isinstance(name, int):
                        name = sorted(vs)[name % len(vs)]
                    key = name[:-11] if reader == "bool" and name.endswith("__logical__") else name
                    before = ctx.injected()
                    try:
                        r = call(fid, reader, key)
                    except BaseException as e:  # noqa: BLE001
                        r = ("escaped " + type(e).__name__, None)
                    # after a failed read the library may serve stale buffers until the file is closed
                    res.append((reader, name, key, before > 0) + r)
                _iosim.nc_close(fid)
        o = {"open": rc, "bad": [], "n": len(res), "errs": sum(r[4] is not None for r in res)}
        for reader, name, key, spoilt, err, val in res:
            e = expect(reader, vs.get(key + "__logical__" if reader == "bool" else key))
            if err and err.startswith("escaped"):
                o["bad"].append([reader, "exception", name])
            elif e is None:
                continue
            elif spoilt and err is None and e[0] == "val":
                continue
            elif e[0] == "err":
                if err is None:
                    o["bad"].append([reader, "accepted", "%s %s" % (name, vs.get(name, ["absent"])[:2])])
            elif err is not None:
                if not ctx.runs[-1]["injected"]:
                    o["bad"].append([reader, "refused", "%s: %s" % (name, err)])
            elif reader.startswith("array"):
                w = e[1]
                x = np.asarray(val, dtype="f8") if shape(val, w.ndim) is not None else None
                if w.size == 0:
                    if not (x is not None and x.size == 0 and len(val) == w.shape[0]):
                        o["bad"].append([reader, "wrong value", name])
                elif x is None or not base.same(x, w):
                    o["bad"].append([reader, "wrong value", "%s %s" % (name, vs[name][:2])])
            elif reader == "double":
                if not base.same(np.float64(val), np.float64(e[1])):
                    o["bad"].append([reader, "wrong value", "%s %r %r" % (name, val, e[1])])
            elif val != e[1] or type(val) is not type(e[1]):
                o["bad"].append([reader, "wrong value", "%s %r %r" % (name, val, e[1])])
        st = ctx.runs[-1]
        o.update(injected=st["injected"], hit=st["hits"])
        out.append(o)
    return out


# ------------------------------------------------------------------- mgrid
def table(seed):
    rng = random.Random(seed)
    g = np.random.default_rng(seed)
    nr, nz, np_ = rng.choice([2, 3, 5, 11]), rng.choice([2, 3, 4, 9]), rng.choice([1, 2, 3, 8])
    nc = rng.choice([1, 1, 2, 3, 7])
    r0, z0 = rng.uniform(0.1, 1), rng.uniform(-1, 0)
    args = (rng.random() < 0.5, rng.random() < 0.3, rng.randint(1, 7), r0, r0 + rng.uniform(0.2, 3), nr,
            z0, z0 + rng.uniform(0.2, 3), nz, np_)
    n = nr * nz * np_
    b = [np.ascontiguousarray(g.standard_normal((nc, n)) * 10.0 ** rng.randint(-9, 3)) for _ in range(3)]
    cur = g.standard_normal(nc) * 10.0 ** rng.randint(0, 6)
    return args, cur, b


def model(args, cur, b):
    """What a provider holds after loading: the weighted sum over circuits."""
    s = [np.zeros(x.shape[1]) for x in b]
    for k, x in enumerate(b):
        for i, c in enumerate(cur):
            s[k] = s[k] + x[i] * c
    return {"nfp": args[2], "minR": args[3], "maxR": args[4], "numR": args[5], "minZ": args[6], "maxZ": args[7], "numZ": args[8],
            "numPhi": args[9], "nextcur": len(cur), "mode": "S" if args[0] else "R", "bR": s[0], "bP": s[1], "bZ": s[2]}


def differs(d, m):
    return [k for k in m if not (base.same(np.asarray(d[k]), np.asarray(m[k])) if not isinstance(m[k], str) else d[k] == m[k])]


def raw(path, args, cur, b, with_a):
    """Independent look at the file."""
    bad = []
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        for k, v in (("ir", args[5]), ("jz", args[8]), ("kp", args[9]), ("nfp", args[2]), ("nextcur", len(cur)),
                     ("rmin", args[3]), ("rmax", args[4]), ("zmin", args[6]), ("zmax", args[7])):
            if f[k][()] != v:
                bad.append(k)
        if not base.same(f["raw_coil_cur"][:], cur):
            bad.append("raw_coil_cur")
        for p, x in zip(("br", "bp", "bz"), b):
            for i in range(len(cur)):
                y = f["%s_%03d" % (p, i + 1)][:]
                if y.shape != (args[9], args[8], args[5]) or not base.same(y.ravel(), x[i]):
                    bad.append("%s_%03d" % (p, i + 1))
        for p, x, c in zip(("ar", "ap", "az"), b, (2.0, 3.0, 4.0)):
            for i in range(len(cur)):
                n = "%s_%03d" % (p, i + 1)
                if with_a != (n in f.variables) or (with_a and not base.same(f[n][:].ravel(), x[i] * c)):
                    bad.append(n)
    return bad


def interp(d, nz, r, z):
    """Bilinear interpolation in R and Z at toroidal plane kl % nz, points outside moved to the edge."""
    out = [[], [], []]
    dr, dz = (d["maxR"] - d["minR"]) / (d["numR"] - 1), (d["maxZ"] - d["minZ"]) / (d["numZ"] - 1)
    for kl in range(len(r)):
        k = kl % nz
        x, y = min(max(r[kl], d["minR"]), d["maxR"]), min(max(z[kl], d["minZ"]), d["maxZ"])
        fi, fj = (x - d["minR"]) / dr, (y - d["minZ"]) / dz
        i, j = min(int(fi), d["numR"] - 2), min(int(fj), d["numZ"] - 2)
        p, q = fi - i, fj - j
        for o, b in zip(out, ("bR", "bP", "bZ")):
            v = np.asarray(d[b]).reshape(d["numPhi"], d["numZ"], d["numR"])[k]
            o.append((1 - p) * (1 - q) * v[j, i] + (1 - p) * q * v[j + 1, i] + p * (1 - q) * v[j, i + 1] + p * q * v[j + 1, i + 1])
    return [np.array(o) for o in out]


def off(p, m, rng):
    """Largest relative deviation of interpolated fields from the model."""
    n = rng.choice([1, 5, 12])
    first = rng.randrange(n)
    last = rng.randint(first + 1, n)
    if "fixed" in m:
        nz, r, z, want = 1, np.zeros(n), np.zeros(n), m["fixed"]
        size = m["fixed"]
    else:
        nz = rng.randint(1, m["numPhi"])
        r, z = ([rng.choice([m[a], m[b], rng.uniform(m[a] - .2, m[b] + .2)]) for _ in range(n)]
                for a, b in (("minR", "maxR"), ("minZ", "maxZ")))
        want = interp(m, nz, r, z)
        size = [m[k] for k in ("bR", "bP", "bZ")]
    got = _iosim.mgrid_interp(p, nz, np.array(r), np.array(z), first, last)
    return max(float(np.max(np.abs(x - y[first:last]))) / (1e-300 + float(np.max(np.abs(k))))
               for x, y, k in zip(got, want, size))


def misshape(b, how, seed):
    """Response tables whose arrays do not fit their own parameters."""
    b = [np.asarray(x) for x in b]
    if how:
        k = random.Random(seed).randrange(3)
        n = b[k].shape[1]
        b[k] = {"short": b[k][:, :n - 1], "long": np.hstack([b[k], b[k][:, :1]]),
                "rows": np.vstack([b[k], b[k][:1]]) if k == 0 else b[k][:, :n - 1]}[how].copy()
    return b


def mgrid(ctx, a):
    """Histories of one or more providers over written tables."""
    provs = {}
    held = {}
    out = []
    for op in a["ops"]:
        o = {"op": op["op"]}
        args, cur, b = table(op["s"])
        err = None
        if op["op"] == "write":
            ctx.note({"write": op["path"], "s": op["s"]})
            with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                code, msg = _iosim.mgrid_write(op["path"], _iosim.Params(*args), cur, *b, bool(op.get("a")))
                err = msg if code else None
            if err is None:
                o["bad"] = raw(op["path"], args, cur, b, bool(op.get("a")))
        else:
            p = provs.setdefault(op["p"], None) or _iosim.MGrid()
            provs[op["p"]] = p
            if op["op"] == "load":
                if op.get("ncur"):
                    cur = np.append(cur, [1.0] * op["ncur"]) if op["ncur"] > 0 else cur[:op["ncur"]]
                o["wrong_currents"] = bool(op.get("ncur"))
                o["exists"] = os.path.exists(op["path"])
                if op.get("bad") and o["exists"]:
                    spoil(op["path"], op["bad"], op["s"])
                with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                    code, msg, d = _iosim.mgrid_load(p, op["path"], cur)
                    err = msg if code else None
            elif op["op"] == "fields":
                if op.get("ncur"):
                    cur = np.append(cur, [1.0] * op["ncur"]) if op["ncur"] > 0 else cur[:op["ncur"]]
                o["wrong_currents"] = bool(op.get("ncur"))
                with ctx.faults("", 1):
                    code, msg, d = _iosim.mgrid_fields(p, _iosim.Params(*args), *misshape(b, op.get("bad"), op["s"]), cur)
                    err = msg if code else None
            else:
                rng = random.Random(op["s"])
                d = {"fixed": [np.array([rng.uniform(-1, 1) for _ in range(12)]) for _ in range(3)]}
                with ctx.faults("", 1):
                    _iosim.mgrid_fixed(p, *d["fixed"])
            if err is None:
                if op["op"] == "fixed":
                    o["bad"], held[op["p"]] = [], d
                else:
                    o["bad"] = differs(d, model(args, cur, b)) if not (op.get("ncur") or op.get("bad")) else []
                    held[op["p"]] = model(args, cur, b) if not (op.get("ncur") or op.get("bad")) else d
            elif not _iosim.mgrid_loaded(p):
                held.pop(op["p"], None)
            # whatever was refused or loaded, the provider holds one table or none
            m = held.get(op["p"])
            o["unloaded"] = (m is not None) != _iosim.mgrid_loaded(p)
            if m is not None and not o["unloaded"] and not o.get("bad"):
                o["interp"] = off(p, m, random.Random(op["s"] + 1))
        st = ctx.runs[-1]
        o.update(err=err, injected=st["injected"], hit=st["hits"])
        out.append(o)
    return out


def spoil(path, how, seed):
    """Rewrites an mgrid file so that it is no longer one."""
    rng = random.Random(seed)
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        vs = {n: (v.dtype, v.dimensions, v[...] if v.dtype != "S1" else v[...]) for n, v in f.variables.items()}
        dims = {n: len(d) for n, d in f.dimensions.items()}
    drop = rng.choice(sorted(vs)) if how == "drop" else None
    if drop in ("coil_group", "raw_coil_cur") or (drop or "").startswith("a"):
        drop = "br_001"
    if how == "shape":
        k = rng.choice(["rad", "zee", "phi"])
        dims[k] += 1
    with netCDF4.Dataset(path, "w", format="NETCDF3_CLASSIC") as f:
        for n, d in dims.items():
            f.createDimension(n, d)
        for n, (t, ds, v) in vs.items():
            if n == drop:
                continue
            if how == "rank" and n == "ir":
                f.createVariable(n, "i4", ("dim_00001",))[:] = int(v)
                continue
            if how == "text" and n == "br_001":
                f.createVariable(n, "S1", ds)
                continue
            x = f.createVariable(n, t, ds)
            v = np.asarray(v)
            if how == "int" and n == "br_001":
                continue
            if v.ndim:
                x[tuple(slice(0, s) for s in v.shape)] = v
            else:
                x[...] = v
