"""C10: text inputs are read completely or refused, text outputs are written completely or the failure is reported."""
import json
import os
import random
import tempfile

import _iosim
import vmecpp
from vmecpp.cpp import _vmecpp
from scn import base

INPUTS = {}
NAMES = ["axi", "asym", "free", "stell"]
SMALL = dict(normalize_by_currents=False, assume_stellarator_symmetry=False, number_of_field_periods=5,
             r_grid_minimum=0.6, r_grid_maximum=0.9, number_of_r_grid_points=2, z_grid_minimum=-0.2, z_grid_maximum=0.2,
             number_of_z_grid_points=2, number_of_phi_grid_points=2)
GOOD = {}


def prepare():
    for n in NAMES:
        INPUTS[n] = (json.dumps(base.case(n), indent=1).encode(), "indata")
    INPUTS["makegrid"] = (open(base.CASES + "makegrid_cth_small.json", "rb").read(), "makegrid")
    INPUTS["coils"] = (short_coils(), "coils")
    for n, (data, kind) in INPUTS.items():
        with tempfile.NamedTemporaryFile("wb") as f:
            f.write(data)
            f.flush()
            GOOD[n] = load(kind, f.name)


def short_coils():
    """A few coils of the bundled set, each with all its vertices."""
    text = open(base.CASES + "coils.cth_like").read().splitlines()
    head = [i for i, x in enumerate(text) if x.strip().startswith("mirror")][0] + 1
    out, coil, n = text[:head], [], 0
    for x in text[head:]:
        coil.append(x)
        if len(x.split()) == 6:
            n += 1
            if len(coil) < 60 or n <= 1:
                out += coil
            coil = []
            if len(out) > 400:
                break
    return ("\n".join(out + ["end"]) + "\n").encode()


def load(kind, path):
    """Everything the reader made of the file, as a comparable string."""
    if kind == "indata":
        x = vmecpp.VmecInput.from_file(path)
        return x.to_json() + _vmecpp.VmecINDATA.from_file(path).to_json()
    if kind == "makegrid":
        return vmecpp.MakegridParameters.from_file(path).model_dump_json()
    t = vmecpp.MagneticFieldResponseTable.from_coils_file(path, vmecpp.MakegridParameters(**SMALL))
    return "".join(a.tobytes().hex() for a in (t.b_r, t.b_p, t.b_z))


def blob(seed):
    rng = random.Random(seed)
    n = rng.choice([0, 1, 100, 4095, 4096, 4097, 8191, 8192, 20000, rng.randrange(60000)])
    if rng.random() < 0.3:
        return bytes(rng.randrange(256) for _ in range(min(n, 9000)))
    return (b"line %d\n" % (seed % 1000)) * (n // 10) + b"x" * (n % 10)


def damage(data, d, rng):
    """A stored file that is not what was written."""
    if d == "truncate":
        return data[:rng.randrange(len(data))]
    if d == "flip":
        b = bytearray(data)
        for _ in range(rng.choice([1, 1, 2, 8])):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return bytes(b)
    if d == "zeros":
        i = rng.randrange(len(data))
        j = min(len(data), i + rng.choice([1, 16, 512]))
        return data[:i] + b"\0" * (j - i) + data[j:]
    if d == "dup":
        i = rng.randrange(len(data))
        return data[:i] + data[max(0, i - 64):i] + data[i:]
    if d == "token":
        return token(data, rng)
    return data


VALUES = ["-1", "0", "1", "-7", "99999", "2147483648", "-2147483649", "1e300", "1e400", "null", "true", "[]", "{}", "\"x\"", "[1]",
          "[[1,2],[3]]", "1.5", "-0.0"]


def token(data, rng):
    """One value of the JSON document replaced (coils: one column)."""
    try:
        d = json.loads(data)
    except ValueError:
        lines = data.decode("latin1").splitlines()
        i = rng.randrange(len(lines))
        p = lines[i].split()
        if p:
            p[rng.randrange(len(p))] = rng.choice(["x", "1e999", "-3", "0", "", "99999999999999"])
        lines[i] = " ".join(p)
        return "\n".join(lines).encode("latin1")
    k = rng.choice(sorted(d))
    v = d[k]
    text = json.dumps(d)
    if isinstance(v, list) and v and isinstance(v[0], dict) and rng.random() < 0.7:
        e = dict(rng.choice(v))
        at = rng.choice(["m", "n", "value"])
        e[at] = rng.choice(["@", -1, -2]) if at == "m" else "@"
        new = v + [e]
    elif isinstance(v, list) and v and rng.random() < 0.6:
        new = list(v)
        new[rng.randrange(len(v))] = "@"
    else:
        new = "@"
    d[k] = new
    return json.dumps(d).replace('"@"', rng.choice(VALUES)).encode()


INTS = {"nfp", "mpol", "ntor", "ntheta", "nzeta", "ncurr", "nvacskip", "nstep", "ns_array", "niter_array",
        "number_of_field_periods", "number_of_r_grid_points", "number_of_z_grid_points", "number_of_phi_grid_points"}


def unrepresentable(data):
    """An integer of the document cannot be what the program computes with."""
    try:
        d = json.loads(data)
    except ValueError:
        return False
    return any(type(x) is int and not -2 ** 31 <= x < 2 ** 31
               for k in INTS & set(d) for x in (d[k] if isinstance(d[k], list) else [d[k]]))


def coil_set(rng):
    """A coils file and what it says: circuits in the order of their first
    appearance, with their coils in the order of the file."""
    nfp = rng.choice([1, 2, 3, 5])
    ids = rng.sample(range(1, 40), rng.choice([1, 2, 3, 4, 6]))

    def num(v):
        return rng.choice([repr(v), "%.16e" % v, "%.16E" % v, ("+" if v >= 0 else "") + repr(v)])

    def line(*parts):
        sep = rng.choice([" ", "   ", "\t"])
        return rng.choice(["", "  ", "\t"]) + sep.join(parts) + rng.choice(["", "", " ", "\r"])
    out = [line("periods", str(nfp)), rng.choice(["begin filament", "  begin filament"]), line("mirror", rng.choice(["NIL", "NUL", "nil"]))]
    circuits, order = {}, []
    for k in range(rng.choice([1, 2, 5, 9, 14])):
        i = rng.choice(ids)
        if i not in circuits:
            circuits[i] = []
            order.append(i)
        name, w = rng.choice(["coil", "tf%d" % k, "hf", "end_coil"]), rng.choice([1.0, -1.0, 120.0, 0.5, rng.uniform(-1e5, 1e5)])
        if rng.random() < 0.25:
            r, z = rng.uniform(0.1, 3), rng.uniform(-2, 2)
            out.append(line(num(r), "0.0", num(z), num(w), str(i), name))
            circuits[i].append((w, [("circle", name, [(r, z)])]))
            continue
        v = [tuple(rng.choice([rng.uniform(-3, 3), float(rng.randrange(-3, 4)), rng.uniform(-1, 1) * 10.0 ** rng.randrange(-12, 3)]) for _ in range(3))
             for _ in range(rng.choice([2, 3, 4, 7, 20]))]
        if rng.random() < 0.7:
            v.append(v[0])
        for p in v[:-1]:
            out.append(line(*[num(c) for c in p], num(w)))
        out.append(line(*[num(c) for c in v[-1]], num(0.0), str(i), name))
        circuits[i].append((w, [("polygon", name, v)]))
    text = "\n".join(out + [rng.choice(["end", "  end"])]) + rng.choice(["", "\n", "\n\n"])
    return text.encode(), (nfp, [(1.0, circuits[i]) for i in order])


def misnumber(data, rng):
    """A number of the file that is not one: its digits went on in something
    else.  Reading its beginning would give another value."""
    lines = data.decode().split("\n")
    rows = [i for i, x in enumerate(lines) if len(x.split()) in (4, 6)]
    i = rng.choice(rows)
    p = lines[i].split()
    j = rng.randrange(4)
    p[j] = rng.choice(["1.0D+02", "-2.5d-01", "1.5x", "3..5", "0.1.2", "7,5", "1e", "12-3"])
    lines[i] = " ".join(p)
    return "\n".join(lines).encode()


def run(ctx, a):
    out = []
    for op in a["ops"]:
        o = {"op": op["op"]}
        rng = random.Random(op.get("s", 0))
        path = op["path"]
        err = got = None
        if op["op"] == "write":
            want = blob(op["s"])
            with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                try:
                    code, msg = _iosim.file_write(path, want)
                    err = msg if code else None
                except BaseException as e:  # noqa: BLE001
                    err = "exception %s" % type(e).__name__
                    o["escaped"] = err
            if err is None:
                o["ok"] = open(path, "rb").read() == want
        elif op["op"] == "read":
            want = blob(op["s"])
            if op.get("put"):
                open(path, "wb").write(want)
            else:
                want = open(path, "rb").read() if os.path.isfile(path) else None
            with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                try:
                    code, msg, got = _iosim.file_read(path)
                    err = msg if code else None
                except BaseException as e:  # noqa: BLE001
                    err = "exception %s" % type(e).__name__
                    o["escaped"] = err
            if err is None:
                o["ok"] = got == want
            elif want is None:
                o["missing"] = True
        elif op["op"] == "coils":
            data, want = coil_set(rng)
            if op.get("damage"):
                data = misnumber(data, rng)
            open(path, "wb").write(data)
            with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                try:
                    code, msg, got = _iosim.coils_read(path)
                    err = msg or "status %d" % code if code else None
                except BaseException as e:  # noqa: BLE001
                    err = "exception %s" % type(e).__name__
                    o["escaped"] = err
            if err is None:
                o["ok"] = got == want
        else:
            data, kind = INPUTS[op["name"]]
            bad = damage(data, op.get("damage"), rng)
            open(path, "wb").write(bad)
            cwd = os.getcwd()
            before = set(base.listing(ctx.root))
            with ctx.faults(op.get("plan", ""), op.get("seed", 1)):
                try:
                    got = load(kind, path)
                except BaseException as e:  # noqa: BLE001
                    err = "%s: %s" % (type(e).__name__, str(e)[:120])
            o["same"] = got == GOOD[op["name"]] if err is None else None
            o["unrep"] = kind != "coils" and op.get("damage") is not None and unrepresentable(bad)
            o["cwd"] = os.getcwd() == cwd
            o["extra"] = sorted(set(base.listing(ctx.root)) - before)
        st = ctx.runs[-1]
        o.update(err=err, injected=st["injected"], hit=st["hits"])
        out.append(o)
    return out
