"""Shared preparation of the simulated Python processes: real solver results."""
import json
import os
import tempfile

import numpy as np

import vmecpp

CASES = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/cases/"
RESULTS = {}


def case(name, **over):
    d = json.load(open(CASES + name + ".json"))
    d.update(over)
    return d


def load_input(name, **over):
    with tempfile.TemporaryDirectory() as d:
        json.dump(case(name, **over), open(d + "/in.json", "w"))
        return vmecpp.VmecInput.from_file(d + "/in.json")


def result(name, **over):
    key = name + json.dumps(over, sort_keys=True)
    if key not in RESULTS:
        RESULTS[key] = vmecpp.run(load_input(name, **over), max_threads=1, verbose=0)
    return RESULTS[key]


def same(a, b):
    """Same value, bit for bit up to NaN payloads, int width and container."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "fc" and y.dtype.kind in "fc":
        return bool(np.all((x == y) | ((x != x) & (y != y)))) and bool(np.all(np.signbit(x[x == x]) == np.signbit(y[y == y])))
    return bool(np.all(x == y))


def listing(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            try:
                out[os.path.relpath(p, root)] = open(p, "rb").read()
            except OSError:
                out[os.path.relpath(p, root)] = None
    return out

