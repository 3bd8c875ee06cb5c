"""Derives the small solver inputs used by the simulations from the repository's
test data (run once; its outputs are committed beside it)."""
import json
import os

SRC = "/repo/src/vmecpp/cpp/vmecpp/test_data/"
OUT = os.path.dirname(os.path.abspath(__file__)) + "/"


def load(n):
    return json.load(open(SRC + n + ".json"))


def trunc(d, mpol, ntor, nzeta):
    d["mpol"], d["ntor"], d["nzeta"] = mpol, ntor, nzeta
    for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"):
        if k in d:
            d[k] = d[k][: ntor + 1]
    for k in ("rbc", "zbs", "rbs", "zbc"):
        if k in d:
            d[k] = [e for e in d[k] if e["m"] < mpol and abs(e["n"]) <= ntor]
    return d


def stages(d, ns, ftol, niter):
    d["ns_array"] = ns
    d["ftol_array"] = [ftol] * len(ns)
    d["niter_array"] = [niter] * len(ns)
    return d


def save(n, d):
    d["nstep"] = d.get("nstep_", 5)
    d.pop("nstep_", None)
    json.dump(d, open(OUT + n + ".json", "w"), indent=1)
    open(OUT + n + ".json", "a").write("\n")


save("axi", stages(load("solovev"), [11], 1e-12, 1500))
save("axi_mg", stages(load("solovev"), [5, 11, 17], 1e-11, 2000))
save("axi_noaxis", stages(load("solovev_no_axis"), [5, 11], 1e-11, 1500))
save("asym", stages(load("up_down_asym"), [9], 1e-10, 3000))
save("asym_mg", stages(load("up_down_asym"), [5, 9], 1e-10, 3000))
save("stell", stages(trunc(load("cth_like_fixed_bdy"), 4, 2, 10), [9], 1e-8, 2000))
save("stell_mg", stages(trunc(load("cth_like_fixed_bdy"), 4, 2, 10), [5, 9], 1e-8, 2000))
d = stages(trunc(load("cth_like_fixed_bdy"), 6, 2, 24), [7], 1e-8, 2000)
save("stell_fft", d)
d = stages(trunc(load("cth_like_fixed_bdy"), 4, 2, 10), [7], 1e-8, 2000)
d["lasym"] = True
d["raxis_s"] = [0.0] * 3
d["zaxis_c"] = [0.0] * 3
d["rbs"] = [{"n": 0, "m": 2, "value": 0.004}]
d["zbc"] = [{"n": 1, "m": 1, "value": 0.003}]
save("stell_asym", d)
d = stages(trunc(load("cth_like_fixed_bdy"), 4, 2, 10), [9], 1e-8, 2000)
d["iteration_style"] = "parvmec"
save("stell_parvmec", d)
d = stages(trunc(load("cth_like_fixed_bdy"), 4, 2, 10), [9], 1e-8, 2000)
d["lforbal"] = True
save("stell_forbal", d)
d = stages(load("solovev"), [9], 1e-10, 300)
d["delt"] = 5.0
save("axi_badstep", d)
d = stages(load("solovev"), [7], 1e-10, 200)
# self-intersecting boundary: no usable Jacobian
d["rbc"] = [{"n": 0, "m": 0, "value": 4.0}, {"n": 0, "m": 1, "value": 1.0},
            {"n": 0, "m": 2, "value": 2.5}, {"n": 0, "m": 3, "value": -1.7}]
d["zbs"] = [{"n": 0, "m": 1, "value": 0.3}, {"n": 0, "m": 3, "value": 1.9}]
save("axi_broken", d)
for name, ns in (("free", [7]), ("free_mg", [5, 9])):
    d = stages(trunc(load("cth_like_free_bdy"), 4, 2, 12), ns, 1e-8, 2500)
    d["mgrid_file"] = "mgrid_cth_small.nc"
    d["nvacskip"] = 6
    save(name, d)
d = stages(trunc(load("cth_like_free_bdy_asym"), 4, 2, 12), [7], 1e-7, 2500)
d["mgrid_file"] = "mgrid_cth_small.nc"
d["nvacskip"] = 6
d["raxis_s"] = [0.0, 0.002, 0.0]
d["zaxis_c"] = [0.001, 0.0, 0.0]
d["rbs"] = [{"n": 0, "m": 1, "value": 0.004}, {"n": 0, "m": 2, "value": 0.002}]
d["zbc"] = [{"n": 0, "m": 1, "value": 0.003}, {"n": 1, "m": 1, "value": 0.002}]
save("free_asym", d)
d = stages(trunc(load("cth_like_free_bdy"), 4, 2, 12), [7], 1e-8, 2500)
d["mgrid_file"] = "mgrid_cth_small.nc"
d["free_boundary_method"] = "only_coils"
d["curtor"] = 0.0
d["pres_scale"] = 0.0
save("only_coils", d)
json.dump({"normalize_by_currents": False, "assume_stellarator_symmetry": True,
           "number_of_field_periods": 5, "r_grid_minimum": 0.45,
           "r_grid_maximum": 1.05, "number_of_r_grid_points": 25,
           "z_grid_minimum": -0.3, "z_grid_maximum": 0.3,
           "number_of_z_grid_points": 25, "number_of_phi_grid_points": 12},
          open(OUT + "makegrid_cth_small.json", "w"), indent=1)
open(OUT + "coils.cth_like", "w").write(open(SRC + "coils.cth_like").read())
