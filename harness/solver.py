"""Driving solver_sim: the real solver under the OpenMP simulator."""
import json
import os
import re
import struct
import subprocess
import tempfile

import numpy as np

from . import common
from .common import VERIF, CheckError, scratch

CASES = VERIF + "/cases/"
STRATEGIES = {"random": 0, "pct": 1, "run_to_block": 2, "straggler": 3,
              "round_robin": 4, "sprinter": 5}


def exe():
    return common.BUILD + "/solver_sim"


def case_op(case, threads, niter=None, **kw):
    op = {"input": CASES + case + ".json", "threads": threads}
    ov = dict(kw.pop("overrides", {}))
    if niter is not None:
        d = json.load(open(op["input"]))
        n = len(ov.get("ns_array", d["ns_array"]))
        ov["niter_array"] = [niter] * n
        ov.setdefault("return_outputs_even_if_not_converged", True)
    if case.startswith("free") or case == "only_coils":
        op.update(table=True, makegrid=CASES + "makegrid_cth_small.json",
                  coils=CASES + "coils.cth_like")
    if ov:
        op["overrides"] = ov
    op.update(kw)
    return op


def run(spec, timeout=300, want_dump=True, trace=False):
    """Executes one simulated history in a fresh process."""
    d = tempfile.mkdtemp(dir=scratch())
    try:
        spec = dict(spec)
        if trace:
            spec["trace_out"] = d + "/trace"
        with open(d + "/spec.json", "w") as f:
            json.dump(spec, f)
        try:
            p = subprocess.run([exe(), d + "/spec.json", d + "/out.json", d + "/dump"],
                               cwd=d, capture_output=True, text=True, timeout=timeout,
                               errors="replace",
                               env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"})
        except subprocess.TimeoutExpired:
            return {"crash": "wall-timeout", "ops": [], "races": [], "stats": {}, "_ops": spec["ops"]}
        if not os.path.exists(d + "/out.json"):
            return {"crash": "rc=%d %s" % (p.returncode, (p.stderr or "")[-400:]),
                    "rc": p.returncode, "ops": [], "races": [], "stats": {}, "_ops": spec["ops"]}
        r = json.load(open(d + "/out.json"))
        r["rc"] = p.returncode
        r["_ops"] = spec["ops"]
        if p.returncode != 0:
            r["crash"] = "rc=%d %s" % (p.returncode, (p.stderr or "")[-400:])
        r.setdefault("ops", [])
        r["ops"] = [o for o in r["ops"] if o is not None]
        r["dumps"] = {}
        if want_dump:
            for i in range(len(spec["ops"])):
                if os.path.exists(d + "/dump%d" % i):
                    r["dumps"][i] = read_dump(d + "/dump%d" % i)
        if trace and os.path.exists(d + "/trace"):
            raw = open(d + "/trace", "rb").read()
            r["trace"] = [list(t) for t in struct.iter_unpack("<QII", raw)]
        return r
    finally:
        subprocess.run(["rm", "-rf", d])


def read_dump(path):
    raw = open(path, "rb").read()
    out = {}
    p = 0
    while p < len(raw):
        (n,) = struct.unpack_from("<I", raw, p)
        name = raw[p + 4:p + 4 + n].decode()
        p += 4 + n
        (m,) = struct.unpack_from("<Q", raw, p)
        p += 8
        out[name] = np.frombuffer(raw, dtype="<f8", count=m, offset=p).copy()
        p += 8 * m
    return out


def result_hash(r):
    """Everything observable about a run, for the same-seed-twice gate."""
    return common.digest([r.get("ops"), r.get("races"), r.get("stats"),
                          r.get("fatal"), bool(r.get("crash"))])


_sym = {}


def symbolise(pcs):
    todo = [p for p in pcs if p not in _sym]
    if todo:
        o = subprocess.run(["addr2line", "-Cf", "-e", exe()] + [hex(p - 1) for p in todo],
                           capture_output=True, text=True).stdout.split("\n")
        for i, p in enumerate(todo):
            fn = re.sub(r"\(.*", "", o[2 * i]).strip()
            fn = re.sub(r" \[clone.*", "", fn)
            loc = o[2 * i + 1].split(" (")[0].replace(common.REPO + "/src/vmecpp/cpp/", "")
            _sym[p] = (fn, loc)
    return [_sym[p] for p in pcs]


def race_signature(race):
    s = symbolise(race["pc"])
    return sorted("%s %s" % ("write" if w else "read", a[0]) for a, w in zip(s, race["write"]))


def race_text(race):
    s = symbolise(race["pc"])
    return " / ".join("%s in %s at %s (thread slot %d)" %
                      ("write" if w else "read", a[0], a[1], t)
                      for a, w, t in zip(s, race["write"], race["tid"]))


def random_schedule(rng, spec):
    st = rng.choice(["random", "random", "pct", "pct", "straggler", "straggler",
                     "sprinter", "round_robin", "run_to_block"])
    spec["strategy"] = STRATEGIES[st]
    spec["quantum"] = int(10 ** rng.uniform(1.0, 4.5))
    spec["victim"] = rng.randrange(8)
    spec["seed"] = rng.getrandbits(48)
    if rng.random() < 0.35:
        spec["stall"] = int(10 ** rng.uniform(1.0, 3.0))
    return spec


# --------------------------------------------------------------- minimisation
def minimise(spec, same, simplify=(), budget=60):
    """same(result) -> bool: does the same violation persist?  Returns a spec
    with an explicit schedule trace (or the seed-driven spec if smaller is not
    possible).  Every candidate is a full fresh-process run."""
    used = [0]

    def ok(s):
        if used[0] >= budget:
            return False
        used[0] += 1
        return same(run(s))

    cur = spec
    for f in simplify:  # semantic simplifications, greedily
        while True:
            cand = f(json.loads(json.dumps(cur)))
            if cand is None or cand == cur or not ok(cand):
                break
            cur = cand
    if "trace_in" in cur:
        trace = cur["trace_in"]
    else:
        cand = dict(cur)
        cand["trace_in"] = []
        if ok(cand):
            return cand, used[0]
        r = run(cur, trace=True)
        trace = r.get("trace") or []
    base = {k: v for k, v in cur.items() if k not in ("strategy", "quantum", "victim", "stall")}

    def with_trace(t):
        s = dict(base)
        s["trace_in"] = t
        return s

    if not trace or not ok(with_trace(trace)):
        return cur, used[0]
    n = 2
    while len(trace) > 1 and used[0] < budget:
        size = max(1, len(trace) // n)
        reduced = False
        # try keeping a single chunk, then dropping one
        chunks = [trace[i:i + size] for i in range(0, len(trace), size)]
        for i in range(len(chunks)):
            cand = [t for j, c in enumerate(chunks) if j != i for t in c]
            if ok(with_trace(cand)):
                trace = cand
                n = max(2, n - 1)
                reduced = True
                break
            if used[0] >= budget:
                break
        if not reduced:
            if n >= len(trace):
                break
            n = min(len(trace), n * 2)
    if len(trace) > 60000:
        return cur, used[0]
    return with_trace(trace), used[0]


def gate(spec, same, tries=4):
    """Runs the spec again until the violation shows again; None if it does not.
    One spec is one execution unless the code under test reads memory it never
    wrote, which is why more than one attempt is made."""
    first = None
    for _ in range(tries):
        r = run(spec)
        first = first or result_hash(r)
        if same(r):
            again = run(spec)
            return r, result_hash(again) == result_hash(r) == first
    return None


# -------------------------------------------------------------- comparing runs
def compare(a, b, rtol, skip=(), scales=None):
    """Largest deviation per quantity, relative to the quantity's magnitude.
    Returns [(name, deviation)] above tolerance."""
    bad = []
    for k in a:
        if any(s in k for s in skip):
            continue
        if k not in b or a[k].shape != b[k].shape:
            bad.append((k, "shape"))
            continue
        x, y = a[k], b[k]
        if x.size == 0:
            continue
        nx, ny = ~np.isfinite(x), ~np.isfinite(y)
        if (nx != ny).any():
            bad.append((k, "finite"))
            continue
        x, y = x[~nx], y[~nx]
        if x.size == 0:
            continue
        mag = max(np.abs(x).max(), np.abs(y).max())
        if mag == 0:
            continue
        dev = np.abs(x - y).max() / mag
        if dev > rtol:
            bad.append((k, float(dev)))
    return bad
