// Python access to the C++ parts of vmecpp that the shipped extension does not
// expose: text, NetCDF, HDF5 and mgrid I/O.  Thin calls into the real code;
// every status is handed back as (code, message).
#include <hdf5.h>
#include <netcdf.h>
#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <memory>

#include "util/file_io/file_io.h"
#include "util/netcdf_io/netcdf_io.h"
#include "vmecpp/common/makegrid_lib/makegrid_lib.h"
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"
#include "vmecpp/vmec/output_quantities/output_quantities.h"
#include "vmecpp/vmec/vmec/vmec.h"

namespace py = pybind11;
using py::literals::operator""_a;

static py::tuple St(const absl::Status& s) {
  return py::make_tuple(static_cast<int>(s.code()), std::string(s.message()));
}

template <typename T>
static py::tuple Or(const absl::StatusOr<T>& v) {
  if (!v.ok()) return py::make_tuple(static_cast<int>(v.status().code()), std::string(v.status().message()), py::none());
  return py::make_tuple(0, "", py::cast(*v));
}

struct Oq {
  vmecpp::OutputQuantities o;
};

#define STRUCTS(X)                                                          \
  X(vmec_internal_results) X(remaining_metric) X(b_cylindrical)             \
  X(bsubs_half) X(bsubs_full) X(covariant_b_derivatives) X(jxbout)          \
  X(mercier_intermediate) X(mercier) X(threed1_first_table_intermediate)    \
  X(threed1_first_table) X(threed1_geometric_magnetic_intermediate)         \
  X(threed1_geometric_magnetic) X(threed1_volumetrics) X(threed1_axis)      \
  X(threed1_betas) X(threed1_shafranov_integrals) X(wout) X(indata)

static herr_t Visit(hid_t o, const char* name, const H5O_info_t* info, void* op) {
  if (info->type != H5O_TYPE_DATASET) return 0;
  py::dict& d = *static_cast<py::dict*>(op);
  hid_t ds = H5Dopen2(o, name, H5P_DEFAULT);
  hid_t ty = H5Dget_type(ds);
  hid_t sp = H5Dget_space(ds);
  int rank = H5Sget_simple_extent_ndims(sp);
  std::vector<hsize_t> dims(rank > 0 ? rank : 0);
  if (rank > 0) H5Sget_simple_extent_dims(sp, dims.data(), nullptr);
  hssize_t n = H5Sget_simple_extent_npoints(sp);
  H5T_class_t c = H5Tget_class(ty);
  py::object val = py::none();
  if (c == H5T_FLOAT || c == H5T_INTEGER) {
    std::vector<double> v(n > 0 ? n : 0);
    if (n > 0 && H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0)
      val = py::str("unreadable");
    else
      val = py::bytes(reinterpret_cast<const char*>(v.data()), v.size() * 8);
  } else if (c == H5T_STRING && H5Tis_variable_str(ty) > 0) {
    std::vector<char*> v(n > 0 ? n : 0, nullptr);
    hid_t mt = H5Tcopy(H5T_C_S1);
    H5Tset_size(mt, H5T_VARIABLE);
    if (n > 0 && H5Dread(ds, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) {
      val = py::str("unreadable");
    } else {
      py::list l;
      for (char* s : v) l.append(py::str(s ? s : ""));
      val = l;
    }
    H5Tclose(mt);
  }
  d[py::str(name)] = py::make_tuple(rank, dims, c == H5T_STRING ? "s" : c == H5T_FLOAT ? "f" : H5Tget_size(ty) == 1 ? "b" : "i", val);
  H5Sclose(sp);
  H5Tclose(ty);
  H5Dclose(ds);
  return 0;
}

int vmec_standalone_main(int argc, char** argv);
int makegrid_main(int argc, char** argv);

PYBIND11_MODULE(_iosim, m) {
  // --- text files
  m.def("file_read", [](const std::string& p) -> py::tuple {
    absl::StatusOr<std::string> r = file_io::ReadFile(p);
    if (!r.ok()) return py::make_tuple(static_cast<int>(r.status().code()), std::string(r.status().message()), py::none());
    return py::make_tuple(0, "", py::bytes(*r));
  });
  m.def("file_write", [](const std::string& p, const py::bytes& b) { return St(file_io::WriteFile(p, std::string(b))); });
  m.def("indata_from_json", [](const std::string& t) -> py::tuple {
    auto r = vmecpp::VmecINDATA::FromJson(t);
    if (!r.ok()) return py::make_tuple(static_cast<int>(r.status().code()), std::string(r.status().message()), py::none());
    auto j = r->ToJson();
    return py::make_tuple(0, "", j.ok() ? py::cast(*j) : py::none());
  });

  // --- NetCDF readers on an open file
  m.def("nc_open", [](const std::string& p) {
    int id = -1;
    int rc = nc_open(p.c_str(), NC_NOWRITE, &id);
    return py::make_tuple(rc, id);
  });
  m.def("nc_close", [](int id) { return nc_close(id); });
  m.def("nc_bool", [](int id, const std::string& n) { return Or(netcdf_io::NetcdfReadBool(id, n)); });
  m.def("nc_char", [](int id, const std::string& n) -> py::tuple {
    auto r = netcdf_io::NetcdfReadChar(id, n);
    if (!r.ok()) return py::make_tuple(static_cast<int>(r.status().code()), std::string(r.status().message()), py::none());
    return py::make_tuple(0, "", py::bytes(&*r, 1));
  });
  m.def("nc_int", [](int id, const std::string& n) { return Or(netcdf_io::NetcdfReadInt(id, n)); });
  m.def("nc_double", [](int id, const std::string& n) { return Or(netcdf_io::NetcdfReadDouble(id, n)); });
  m.def("nc_string", [](int id, const std::string& n) -> py::tuple {
    auto r = netcdf_io::NetcdfReadString(id, n);
    if (!r.ok()) return py::make_tuple(static_cast<int>(r.status().code()), std::string(r.status().message()), py::none());
    return py::make_tuple(0, "", py::bytes(*r));
  });
  m.def("nc_array1", [](int id, const std::string& n) { return Or(netcdf_io::NetcdfReadArray1D(id, n)); });
  m.def("nc_array2", [](int id, const std::string& n) { return Or(netcdf_io::NetcdfReadArray2D(id, n)); });
  m.def("nc_array3", [](int id, const std::string& n) { return Or(netcdf_io::NetcdfReadArray3D(id, n)); });

  // --- complete results in HDF5
  py::class_<Oq, std::shared_ptr<Oq>>(m, "Oq", py::module_local());
  m.def("oq_run", [](const std::string& json) {
    auto in = vmecpp::VmecINDATA::FromJson(json);
    if (!in.ok()) throw std::runtime_error(std::string(in.status().message()));
    auto r = vmecpp::run(*in, std::nullopt, 1, vmecpp::OutputMode::kSilent);
    if (!r.ok()) throw std::runtime_error(std::string(r.status().message()));
    auto h = std::make_shared<Oq>();
    h->o = std::move(*r);
    return h;
  });
  m.def("oq_copy", [](const Oq& a) {
    auto h = std::make_shared<Oq>();
    h->o = a.o;
    return h;
  });
  m.def("oq_save", [](const Oq& a, const std::string& p) { return St(a.o.Save(p)); });
  m.def("oq_load", [](const std::string& p) -> py::tuple {
    auto r = vmecpp::OutputQuantities::Load(p);
    if (!r.ok()) return py::make_tuple(static_cast<int>(r.status().code()), std::string(r.status().message()), py::none());
    auto h = std::make_shared<Oq>();
    h->o = std::move(*r);
    return py::make_tuple(0, "", h);
  });
  m.def("oq_diff", [](const Oq& a, const Oq& b) {
    std::vector<std::string> d;
#define X(f) if (!(a.o.f == b.o.f)) d.push_back(#f);
    STRUCTS(X)
#undef X
    return d;
  });
  m.def("h5_dump", [](const std::string& p) -> py::object {
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t f = H5Fopen(p.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) return py::none();
    py::dict d;
    H5Ovisit2(f, H5_INDEX_NAME, H5_ITER_NATIVE, Visit, &d, H5O_INFO_BASIC);
    H5Fclose(f);
    return d;
  });
  // Rewrites datasets of an existing file: name -> (rank, dims, kind, doubles as bytes or list of str); None removes.
  m.def("h5_edit", [](const std::string& p, const py::dict& d) {
    hid_t f = H5Fopen(p.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
    if (f < 0) return -1;
    int bad = 0;
    for (auto kv : d) {
      const std::string name = py::cast<std::string>(kv.first);
      bad += H5Ldelete(f, name.c_str(), H5P_DEFAULT) < 0;
      if (kv.second.is_none()) continue;
      const py::tuple t = py::cast<py::tuple>(kv.second);
      const int rank = py::cast<int>(t[0]);
      const auto dims = py::cast<std::vector<hsize_t>>(t[1]);
      const std::string kind = py::cast<std::string>(t[2]);
      hid_t sp = rank ? H5Screate_simple(rank, dims.data(), nullptr) : H5Screate(H5S_SCALAR);
      hid_t ty = H5Tcopy(kind == "s" ? H5T_C_S1 : kind == "f" ? H5T_NATIVE_DOUBLE : kind == "b" ? H5T_NATIVE_HBOOL : H5T_NATIVE_INT);
      if (kind == "s") H5Tset_size(ty, H5T_VARIABLE);
      hid_t ds = H5Dcreate2(f, name.c_str(), ty, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      if (H5Sget_simple_extent_npoints(sp) > 0) {
        if (kind == "s") {
          const auto v = py::cast<std::vector<std::string>>(t[3]);
          std::vector<const char*> q;
          for (const auto& x : v) q.push_back(x.c_str());
          bad += H5Dwrite(ds, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, q.data()) < 0;
        } else {
          const auto v = py::cast<std::string>(t[3]);
          bad += H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0;
        }
      }
      H5Dclose(ds);
      H5Tclose(ty);
      H5Sclose(sp);
    }
    bad += H5Fclose(f) < 0;
    return bad;
  });
  m.def("h5_quiet", []() { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); });

  // --- vacuum field tables
  py::class_<makegrid::MakegridParameters>(m, "Params", py::module_local())
      .def(py::init([](bool norm, bool sym, int nfp, double r0, double r1, int nr, double z0, double z1, int nz, int np) {
        return makegrid::MakegridParameters{norm, sym, nfp, r0, r1, nr, z0, z1, nz, np};
      }));
  m.def("mgrid_write", [](const std::string& p, const makegrid::MakegridParameters& q, const Eigen::VectorXd& cur,
                          const makegrid::RowMatrixXd& br, const makegrid::RowMatrixXd& bp, const makegrid::RowMatrixXd& bz,
                          bool with_a) {
    makegrid::MagneticFieldResponseTable t{q, br, bp, bz};
    std::optional<makegrid::MakegridCachedVectorPotential> a;
    if (with_a) a = makegrid::MakegridCachedVectorPotential{q, br * 2.0, bp * 3.0, bz * 4.0};
    return St(makegrid::WriteMakegridNetCDFFile(p, q, cur, t, a));
  });
  py::class_<vmecpp::MGridProvider, std::shared_ptr<vmecpp::MGridProvider>>(m, "MGrid", py::module_local()).def(py::init<>());
  auto pack = [](const vmecpp::MGridProvider& g) {
    py::dict d;
    d["nfp"] = g.nfp; d["numR"] = g.numR; d["minR"] = g.minR; d["maxR"] = g.maxR; d["deltaR"] = g.deltaR;
    d["numZ"] = g.numZ; d["minZ"] = g.minZ; d["maxZ"] = g.maxZ; d["deltaZ"] = g.deltaZ;
    d["numPhi"] = g.numPhi; d["nextcur"] = g.nextcur; d["mode"] = g.mgrid_mode;
    d["bR"] = g.bR; d["bP"] = g.bP; d["bZ"] = g.bZ;
    return d;
  };
  m.def("mgrid_load", [pack](vmecpp::MGridProvider& g, const std::string& p, const Eigen::VectorXd& cur) -> py::tuple {
    absl::Status s = g.LoadFile(p, cur);
    if (!s.ok()) return py::make_tuple(static_cast<int>(s.code()), std::string(s.message()), py::none());
    return py::make_tuple(0, "", pack(g));
  });
  m.def("mgrid_fields", [pack](vmecpp::MGridProvider& g, const makegrid::MakegridParameters& q,
                               const makegrid::RowMatrixXd& br, const makegrid::RowMatrixXd& bp,
                               const makegrid::RowMatrixXd& bz, const Eigen::VectorXd& cur) -> py::tuple {
    makegrid::MagneticFieldResponseTable t{q, br, bp, bz};
    absl::Status s = g.LoadFields(t, cur);
    if (!s.ok()) return py::make_tuple(static_cast<int>(s.code()), std::string(s.message()), py::none());
    return py::make_tuple(0, "", pack(g));
  });
  // points [first, last) of the given ones, as one of several threads would ask for them
  m.def("mgrid_interp", [](const vmecpp::MGridProvider& g, int nzeta, const Eigen::VectorXd& r, const Eigen::VectorXd& z,
                           int first, int last) {
    Eigen::VectorXd br = Eigen::VectorXd::Zero(last - first), bp = br, bz = br;
    g.interpolate(first, last, nzeta, r, z, br, bp, bz);
    return py::make_tuple(br, bp, bz);
  });
  m.def("mgrid_fixed", [](vmecpp::MGridProvider& g, const Eigen::VectorXd& br, const Eigen::VectorXd& bp,
                          const Eigen::VectorXd& bz) { g.SetFixedMagneticField(br, bp, bz); });
  m.def("mgrid_loaded", [](const vmecpp::MGridProvider& g) { return g.IsLoaded(); });
  // --- the stand-alone programs
  m.def("program", [](const std::string& which, std::vector<std::string> args) {
    args.insert(args.begin(), which);
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    const int argc = static_cast<int>(args.size());
    return which == "makegrid" ? makegrid_main(argc, argv.data()) : vmec_standalone_main(argc, argv.data());
  });
  m.def("coils_read", [](const std::string& p) -> py::tuple {
    auto c = magnetics::ImportMagneticConfigurationFromCoilsFile(p);
    if (!c.ok()) return py::make_tuple(static_cast<int>(c.status().code()), std::string(c.status().message()), py::none());
    py::list circuits;
    for (const auto& sc : c->serial_circuits()) {
      py::list coils;
      for (const auto& coil : sc.coils()) {
        py::list carriers;
        for (const auto& cc : coil.current_carriers()) {
          py::list v;
          if (cc.has_circular_filament()) {
            const auto& f = cc.circular_filament();
            v.append(py::make_tuple(f.radius(), f.center().z()));
            carriers.append(py::make_tuple("circle", f.name(), v));
          } else if (cc.has_polygon_filament()) {
            for (const auto& x : cc.polygon_filament().vertices()) v.append(py::make_tuple(x.x(), x.y(), x.z()));
            carriers.append(py::make_tuple("polygon", cc.polygon_filament().name(), v));
          } else {
            carriers.append(py::make_tuple("other", "", v));
          }
        }
        coils.append(py::make_tuple(coil.num_windings(), carriers));
      }
      circuits.append(py::make_tuple(sc.current(), coils));
    }
    return py::make_tuple(0, "", py::make_tuple(c->num_field_periods(), circuits));
  });
  m.def("mgrid_make", [](const std::string& params, const std::string& coils, const std::string& out) {
    auto q = makegrid::ImportMakegridParametersFromFile(params);
    if (!q.ok()) return St(q.status());
    auto c = magnetics::ImportMagneticConfigurationFromCoilsFile(coils);
    if (!c.ok()) return St(c.status());
    auto cur = magnetics::GetCircuitCurrents(*c);
    if (!cur.ok()) return St(cur.status());
    auto b = makegrid::ComputeMagneticFieldResponseTable(*q, *c);
    if (!b.ok()) return St(b.status());
    auto a = makegrid::ComputeVectorPotentialCache(*q, *c);
    if (!a.ok()) return St(a.status());
    return St(makegrid::WriteMakegridNetCDFFile(out, *q, *cur, *b, *a));
  });
}
