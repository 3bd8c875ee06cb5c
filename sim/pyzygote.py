"""Zygote of the storage/process simulator.

Runs under LD_PRELOAD=libsimio.so with the real Python package of the tree
under test and the real C++ core.  Each request is one simulated history: a
list of stages over one directory; a stage is one process (or several,
interleaved by the seeded scheduler below at every file operation).  Every
process is a fork of this one, so all of them start from the same state.
"""
import ctypes
import faulthandler
import importlib
import importlib.util
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import traceback

BUILD = os.environ["SIM_BUILD"]
REPO = os.environ["SIM_REPO"]
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), REPO + "/src"]
lib = ctypes.CDLL(os.environ["LD_PRELOAD"])
lib.simio_arm.argtypes = [ctypes.c_char_p, ctypes.c_uint64, ctypes.c_char_p]
lib.simio_injected.restype = ctypes.c_long
lib.simio_clock.argtypes = [ctypes.c_uint64, ctypes.c_long, ctypes.c_long]
lib.simio_omp.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
lib.simio_omp_count.restype = ctypes.c_long
NAMES = ["open", "read", "write", "close", "sync", "rename", "unlink", "trunc", "mkdir", "seek"]


class Finder:
    def find_spec(self, name, path=None, target=None):
        if name == "vmecpp.cpp._vmecpp":
            return importlib.util.spec_from_file_location(name, BUILD + "/py/_vmecpp.so")
        if name == "_iosim":
            return importlib.util.spec_from_file_location(name, BUILD + "/py/_iosim.so")
        return None


sys.meta_path.insert(0, Finder())


class Ctx:
    def __init__(self, root, proc):
        self.root, self.proc = root, proc
        self.runs = []

    def arm(self, plan=None, seed=None):
        lib.simio_arm((self.proc.get("plan", "") if plan is None else plan).encode(),
                      self.proc.get("seed", 1) if seed is None else seed,
                      (self.root + ".crash").encode())

    def disarm(self):
        b = ctypes.create_string_buffer(4096)
        lib.simio_disarm(b, 4096)
        f = b.value.decode().split()
        lg = ctypes.create_string_buffer(1 << 20)
        n = lib.simio_log(lg, 1 << 20)
        text = lg.raw[:n].decode(errors="replace")
        st = {"counts": dict(zip(NAMES, map(int, f[:10]))), "total": int(f[10]), "injected": int(f[11]),
              "hash": f[12], "log": text[-1500:],
              "hits": [[x.split()[0], x.split()[-1].lstrip("!")] for x in text.splitlines() if " !" in x][:200]}
        self.runs.append(st)
        return st

    def settle(self, n):
        """Statistics of the armed section after n earlier ones, also when a
        signal arrived while leaving it."""
        return self.runs[n] if len(self.runs) > n else self.disarm()

    def injected(self):
        """Faults injected so far in the armed section."""
        return lib.simio_injected()

    def signals(self, plan):
        """Signals at values of the solver's barrier clock; [] stops the clock."""
        n = len(plan)
        lib.simio_omp((ctypes.c_long * max(n, 1))(*[p[0] for p in plan]), (ctypes.c_int * max(n, 1))(*[p[1] for p in plan]), n)

    def pause(self, on):
        lib.simio_omp_pause(int(on))

    def clock(self):
        return lib.simio_omp_count(), lib.simio_omp_raised()

    def note(self, obj):
        """Journal outside the simulated directory: what the process did so far."""
        fd = os.open(self.root + ".prog", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        os.write(fd, (json.dumps(obj) + "\n").encode())
        os.close(fd)

    def notes(self):
        try:
            return [json.loads(x) for x in open(self.root + ".prog")]
        except OSError:
            return []

    class _Armed:
        def __init__(self, ctx, plan, seed):
            self.a = (ctx, plan, seed)

        def __enter__(self):
            self.a[0].arm(self.a[1], self.a[2])
            return self

        def __exit__(self, *e):
            self.st = self.a[0].disarm()
            return False

    def faults(self, plan=None, seed=None):
        return Ctx._Armed(self, plan, seed)


def child(req, proc, wfd, gate):
    root = req["root"]
    try:
        out = os.open(root + ".out", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        os.dup2(out, 1)
        os.dup2(out, 2)
        os.close(out)
        cpu = int(req.get("cpu", 60))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.chdir(root)
        import tempfile
        os.makedirs(root + "/tmp", exist_ok=True)
        tempfile.tempdir = root + "/tmp"
        os.environ["TMPDIR"] = root + "/tmp"
        lib.simio_set_root(root.encode())
        lib.simio_set_pid(int(proc.get("pid", 4242)))
        c = proc.get("clock") or [1700000000, -1, 0]
        lib.simio_clock(c[0], c[1], c[2])
        if gate:
            lib.simio_gate(gate[0], gate[1])
        ctx = Ctx(root, proc)
        with ctx.faults(""):
            next(tempfile._get_candidate_names())  # random names are part of the plan
        ctx.runs.clear()
        mod, fn = proc["scn"].rsplit(".", 1)
        res = {}
        try:
            res["ret"] = getattr(sys.modules["scn." + mod], fn)(ctx, proc.get("args") or {})
        except BaseException as e:  # noqa: BLE001
            lib.simio_disarm(ctypes.create_string_buffer(4096), 4096)
            res["error"] = "%s: %s" % (type(e).__name__, e)
            res["traceback"] = traceback.format_exc()[-3000:]
        res["runs"] = ctx.runs
        data = json.dumps(res, default=repr).encode()
        while data:
            data = data[os.write(wfd, data):]
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(80)
    finally:
        os._exit(0)


def run_stage(req, stage):
    procs = stage["procs"]
    gated = len(procs) > 1 or stage.get("gated")
    info = []
    for p in procs:
        r, w = os.pipe()
        gate = None
        if gated:
            gr, gw = os.pipe()   # scheduler -> child
            qr, qw = os.pipe()   # child -> scheduler
            gate = (gr, qw)
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for i in info:
                for f in i["parent_fds"]:
                    os.close(f)
            if gated:
                os.close(gw)
                os.close(qr)
            child(req, p, w, gate)
        os.close(w)
        d = {"pid": pid, "r": r, "buf": b"", "parent_fds": [r], "done": False, "wait": False}
        if gated:
            os.close(gr)
            os.close(qw)
            d.update(gw=gw, qr=qr)
            d["parent_fds"] += [gw, qr]
        info.append(d)
    rng = random.Random(stage.get("sched", 0))
    order = []
    prio = [rng.random() for _ in procs]
    switch = stage.get("switch", 0.5)
    cur = None
    stall = dict((int(k), list(v)) for k, v in (stage.get("stall") or {}).items())
    while not all(d["done"] for d in info):
        fds = {}
        for d in info:
            if not d["done"]:
                fds[d["r"]] = d
                if gated and not d["wait"]:
                    fds[d["qr"]] = d
        # decide only once every live process is either at an operation or gone
        if gated and all(d["done"] or d["wait"] for d in info):
            ready = [i for i, d in enumerate(info) if d["wait"] and not d["done"]]
            free = [i for i in ready if not (i in stall and stall[i][0] <= len(order) < stall[i][1])] or ready
            if cur in free and rng.random() >= switch:
                pick = cur
            else:
                pick = rng.choice(free)
            cur = pick
            order.append(pick)
            info[pick]["wait"] = False
            os.write(info[pick]["gw"], b"g")
            continue
        rd, _, _ = select.select(list(fds), [], [])
        for fd in rd:
            d = fds[fd]
            if fd == d["r"]:
                b = os.read(fd, 65536)
                if b:
                    d["buf"] += b
                else:
                    d["done"] = True
            elif gated and fd == d["qr"]:
                b = os.read(fd, 1)
                if b:
                    d["wait"] = True
                else:
                    # child closed its request pipe: it is ending
                    info_qr_closed = d
                    info_qr_closed["wait"] = False
                    fds.pop(fd, None)
                    # wait for its result pipe to close
                    while True:
                        x = os.read(d["r"], 65536)
                        if not x:
                            break
                        d["buf"] += x
                    d["done"] = True
    out = []
    for d in info:
        for f in d["parent_fds"]:
            os.close(f)
        _, st = os.waitpid(d["pid"], 0)
        o = {"exit": os.WEXITSTATUS(st) if os.WIFEXITED(st) else None,
             "sig": os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0}
        if d["buf"]:
            try:
                o.update(json.loads(d["buf"].decode()))
            except ValueError:
                o["error"] = "garbled result"
        if o["exit"] in (77, 78):
            try:
                text = open(req["root"] + ".crash", errors="replace").read()
                o["log"] = text[-1500:]
                o["hits"] = [[x.split()[0], x.split()[-1].lstrip("!")] for x in text.splitlines() if " !" in x][:200]
            except OSError:
                o["log"] = ""
        out.append(o)
    return {"procs": out, "order": order}


def main():
    faulthandler.enable()
    mods = os.environ["SIM_MODULES"].split(",")
    for m in mods:
        mod = importlib.import_module("scn." + m)
        if hasattr(mod, "prepare"):
            mod.prepare()
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    for line in sys.stdin:
        req = json.loads(line)
        root = req["root"]
        shutil.rmtree(root, ignore_errors=True)
        if os.path.exists(root + ".prog"):
            os.unlink(root + ".prog")
        os.makedirs(root)
        rep = {"stages": []}
        for stage in req["stages"]:
            for p in (".crash", ".out"):
                if os.path.exists(root + p):
                    os.unlink(root + p)
            r = run_stage(req, stage)
            if any(p["exit"] != 0 or p.get("error") for p in r["procs"]):
                try:
                    r["out"] = open(root + ".out", errors="replace").read()[-3000:]
                except OSError:
                    r["out"] = ""
            rep["stages"].append(r)
        shutil.rmtree(root, ignore_errors=True)
        for p in (".crash", ".out"):
            if os.path.exists(root + p):
                os.unlink(root + p)
        sys.stdout.write(json.dumps(rep) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    main()
