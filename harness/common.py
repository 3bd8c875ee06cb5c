"""Shared machinery: building from /repo, worker pool, gating, evidence."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMECPP_REPO", "/repo")
CPP = REPO + "/src/vmecpp/cpp"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")
PY = "/opt/vp/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
WORKERS = int(os.environ.get("VERIF_WORKERS", str(os.cpu_count() or 8)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", VERIF + "/evidence")
FACTOR = float(os.environ.get("VERIF_SCALE", "1"))
T0 = time.time()


class CheckError(Exception):
    """The check itself could not decide (error exit, never a violation)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def thorough():
    return TIER == "thorough"


def scale(quick, deep):
    n = deep if thorough() else quick
    return max(1, int(n * FACTOR)) if FACTOR != 1 else n


# ------------------------------------------------------------------- building
def source_hashes():
    out = {}
    for root in (CPP, VERIF + "/sim", VERIF + "/shim"):
        for d, dirs, files in os.walk(root):
            dirs[:] = [x for x in dirs if x not in ("test_data", ".git")]
            for f in files:
                if f.endswith((".cc", ".h", ".hh", ".cpp", ".hpp", ".c")):
                    p = d + "/" + f
                    st = os.stat(p)
                    out[p] = [hashlib.sha1(open(p, "rb").read()).hexdigest(), st.st_mtime]
    return out


def build(*targets):
    """Builds targets from /repo's current working tree.  Compile errors in
    /repo are an error of the check (there is nothing to decide).  Objects
    left by an earlier build are reused only if time stamps can be trusted:
    a source whose content changed without a newer time stamp wipes them."""
    t = time.time()
    stamp = BUILD + "/sources.json"
    now = source_hashes()
    if os.path.exists(BUILD):
        try:
            old = json.load(open(stamp))
        except (OSError, ValueError):
            old = None
        if old is None or any(p in old and old[p][0] != h[0] and h[1] <= os.path.getmtime(stamp)
                              for p, h in now.items()):
            shutil.rmtree(BUILD)
    os.makedirs(BUILD, exist_ok=True)
    json.dump(now, open(stamp, "w"))
    env = dict(os.environ)
    r = subprocess.run(["cmake", "-S", VERIF, "-B", BUILD, "-G", "Ninja",
                        "-DVMECPP_REPO=" + REPO],
                       capture_output=True, text=True, env=env)
    if r.returncode:
        raise CheckError("cmake failed:\n" + r.stdout[-3000:] + r.stderr[-3000:])
    r = subprocess.run(["ninja", "-C", BUILD, *targets], capture_output=True,
                       text=True, env=env)
    if r.returncode:
        raise CheckError("build failed:\n" + r.stdout[-6000:] + r.stderr[-2000:])
    log("built", ", ".join(targets), "in %.1fs" % (time.time() - t))


# -------------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > (1 << 30) else None
        _scratch = tempfile.mkdtemp(prefix="vmecsim.", dir=base)
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch) and "vmecsim." in _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


# ---------------------------------------------------------------------- seeds
def rng_for(*parts):
    """One PRNG per (VERIF_SEED, purpose, index): independent of worker count."""
    h = hashlib.sha256(("|".join(str(p) for p in (SEED, *parts))).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def parallel(fn, items, workers=None, deadline=None, stop=None):
    """Runs fn over items; results in item order.  Items not started before
    the deadline (a wall-clock guard) are skipped and returned as None."""
    items = list(items)
    out = [None] * len(items)

    def one(i):
        if deadline and time.time() > deadline:
            return None
        if stop and stop():
            return None
        return fn(items[i])

    with ThreadPoolExecutor(workers or WORKERS) as ex:
        futs = {ex.submit(one, i): i for i in range(len(items))}
        for f in as_completed(futs):
            out[futs[f]] = f.result()
    return out


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ------------------------------------------------------------- known findings
def known_findings():
    path = VERIF + "/known_findings.json"
    if not os.path.exists(path):
        return []
    return json.load(open(path))["known"]


# ------------------------------------------------------------------- outcomes
class Check:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []

    def evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = dict(self.coverage)
        wall = time.time() - T0
        ev = cov.get("evaluations", 0)
        sim_wall = cov.get("exploration_wall_s", wall) or wall
        cov.setdefault("runs_per_hour", int(ev / max(sim_wall, 1e-3) * 3600))
        cov.setdefault("seeds_per_hour", cov["runs_per_hour"])
        doc = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
               "seed": SEED, "level": self.level, "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(wall, 2),
               "violations": len(self.violations)}
        tmp = EVIDENCE + "/.%s.tmp" % self.pid
        json.dump(doc, open(tmp, "w"), indent=1, default=str)
        os.replace(tmp, EVIDENCE + "/%s.json" % self.pid)

    def replay_path(self, sig):
        d = EVIDENCE + "/replays"
        os.makedirs(d, exist_ok=True)
        return "%s/%s-%s.json" % (d, self.pid, digest(sig))

    def violation(self, sig, summary, replay):
        """sig: stable description of what failed; replay: JSON document."""
        for k in known_findings():
            if k["property"] == self.pid and k["signature"] == sig:
                if sig not in self.known_hits:
                    self.known_hits.append(sig)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        path = self.replay_path(sig)
        replay = dict(replay)
        replay.update({"property": self.pid, "signature": sig, "summary": summary,
                       "verif_seed": SEED,
                       "replay_with": "/verif/replay.sh " + path})
        json.dump(replay, open(path, "w"), indent=1, default=str)
        self.violations.append((sig, summary, path))

    def finish(self):
        self.evidence()
        if self.violations:
            for sig, summary, path in self.violations[:20]:
                print("  " + summary)
                print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            return 1
        log("property %s held on everything explored" % self.pid,
            json.dumps({k: v for k, v in self.coverage.items()
                        if isinstance(v, (int, float))}))
        return 0
