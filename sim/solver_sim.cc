// Runs one simulated history of the real solver: argv[1] = spec (JSON),
// argv[2] = result (JSON), argv[3] = prefix for array dumps.
#include <fcntl.h>
#include <hdf5.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>
#include <sstream>

#include "sim/simomp.h"
#include "util/file_io/file_io.h"
#include "vmecpp/common/makegrid_lib/makegrid_lib.h"
#include "vmecpp/vmec/vmec/vmec.h"

using nlohmann::json;

namespace {
json g_spec, g_result;
std::string g_out, g_dump;
std::vector<sim::TracePoint> g_trace;
bool g_finished = false;

uint64_t Fnv(uint64_t h, const void* p, size_t n) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

struct Dump {
  FILE* f;
  uint64_t hash = 1469598103934665603ull;
};

void Put(Dump& d, const std::string& name, const std::vector<double>& v) {
  uint32_t n = name.size();
  uint64_t m = v.size();
  fwrite(&n, 4, 1, d.f);
  fwrite(name.data(), 1, n, d.f);
  fwrite(&m, 8, 1, d.f);
  fwrite(v.data(), 8, m, d.f);
  d.hash = Fnv(d.hash, name.data(), n);
  d.hash = Fnv(d.hash, v.data(), 8 * m);
}

herr_t Visit(hid_t o, const char* name, const H5O_info_t* info, void* op) {
  if (info->type != H5O_TYPE_DATASET) return 0;
  Dump& d = *static_cast<Dump*>(op);
  hid_t ds = H5Dopen2(o, name, H5P_DEFAULT);
  hid_t ty = H5Dget_type(ds);
  H5T_class_t c = H5Tget_class(ty);
  if (c == H5T_FLOAT || c == H5T_INTEGER) {
    hid_t sp = H5Dget_space(ds);
    hssize_t n = H5Sget_simple_extent_npoints(sp);
    std::vector<double> v(n > 0 ? n : 0);
    if (n > 0) H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    Put(d, name, v);
    H5Sclose(sp);
  }
  H5Tclose(ty);
  H5Dclose(ds);
  return 0;
}

// All published numbers of a run, by name.
uint64_t DumpOutput(const vmecpp::OutputQuantities& o, const std::string& path) {
  const std::string h5 = path + ".h5";
  Dump d{fopen(path.c_str(), "wb")};
  absl::Status s = o.Save(h5);
  if (s.ok()) {
    hid_t f = H5Fopen(h5.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    H5Ovisit2(f, H5_INDEX_NAME, H5_ITER_NATIVE, Visit, &d, H5O_INFO_BASIC);
    H5Fclose(f);
  }
  unlink(h5.c_str());
  fclose(d.f);
  return d.hash;
}

void WriteResult() {
  const sim::Stats& st = sim::GetStats();
  g_result["stats"] = {
      {"steps", st.steps},           {"switches", st.switches},
      {"preemptions", st.preemptions}, {"barriers", st.barriers},
      {"singles", st.singles},       {"criticals", st.criticals},
      {"mutexes", st.mutexes},       {"atomics", st.atomics},
      {"parallels", st.parallels},   {"nested", st.nested},
      {"stalls", st.stalls},         {"max_team", st.max_team},
      {"decisions", st.decisions},   {"accesses", st.accesses},
      {"schedule_hash", std::to_string(st.schedule_hash)}};
  size_t n;
  const sim::Race* r = sim::Races(&n);
  json races = json::array();
  for (size_t i = 0; i < n; i++)
    races.push_back({{"pc", {r[i].pc_new, r[i].pc_old}},
                     {"write", {r[i].write_new, r[i].write_old}},
                     {"tid", {r[i].tid_new, r[i].tid_old}},
                     {"step", r[i].step},
                     {"addr", r[i].addr},
                     {"count", r[i].count}});
  g_result["races"] = races;
  if (g_spec.contains("trace_out")) {
    size_t m;
    const sim::TracePoint* t = sim::Trace(&m);
    FILE* f = fopen(g_spec["trace_out"].get<std::string>().c_str(), "wb");
    if (f) {
      fwrite(t, sizeof *t, m, f);
      fclose(f);
    }
  }
  std::ofstream os(g_out);
  os << g_result.dump() << "\n";
  os.close();
}

void OnFatal(const char* kind, const char* detail) {
  if (!g_finished) {
    g_finished = true;
    g_result["fatal"] = {{"kind", kind}, {"detail", detail}};
    WriteResult();
  }
  _exit(0);
}

struct Kept {
  bool ok = false;
  vmecpp::OutputQuantities out;
  vmecpp::VmecINDATA indata;
};
std::vector<Kept> g_kept;

absl::StatusOr<vmecpp::VmecINDATA> LoadInput(const json& op) {
  auto txt = file_io::ReadFile(op["input"].get<std::string>());
  if (!txt.ok()) return txt.status();
  json in = json::parse(*txt);
  if (op.contains("overrides")) in.merge_patch(op["overrides"]);
  return vmecpp::VmecINDATA::FromJson(in.dump());
}

json RunOp(const json& op, size_t idx) {
  json r;
  auto indata = LoadInput(op);
  if (!indata.ok()) {
    r["code"] = static_cast<int>(indata.status().code());
    r["message"] = std::string(indata.status().message());
    r["phase"] = "input";
    return r;
  }
  std::optional<vmecpp::HotRestartState> hot;
  if (op.value("hot_from", -1) >= 0) {
    const Kept& k = g_kept[op["hot_from"].get<int>()];
    if (!k.ok) {
      r["code"] = -2;
      r["message"] = "hot restart source failed";
      return r;
    }
    hot.emplace(k.out.wout, k.indata);
  }
  const int interrupt_at = op.value("interrupt_at", -1);
  int polls = 0;
  uint64_t step_raised = 0;
  int poll_thread_bad = 0;
  const int caller = sim::CurrentFiber();
  int polls_after = 0;
  bool raised = false;
  vmecpp::InterruptCallback cb;
  if (interrupt_at >= 0 || op.value("count_polls", false)) {
    cb = [&]() {
      if (sim::CurrentThreadNum() != 0 || sim::CurrentFiber() != caller) poll_thread_bad++;
      if (raised) {
        polls_after++;
        return true;
      }
      if (polls++ == interrupt_at) {
        raised = true;
        step_raised = sim::GetStats().steps;
        return true;
      }
      return false;
    };
  }
  const uint64_t step0 = sim::GetStats().steps;
  std::optional<int> threads;
  if (op.value("threads", 0) > 0) threads = op["threads"].get<int>();
  absl::StatusOr<vmecpp::OutputQuantities> out;
  if (op.value("table", false)) {
    auto ptext = file_io::ReadFile(op["makegrid"].get<std::string>());
    auto params = makegrid::ImportMakegridParametersFromFile(op["makegrid"].get<std::string>());
    auto coils = magnetics::ImportMagneticConfigurationFromCoilsFile(op["coils"].get<std::string>());
    if (!params.ok() || !coils.ok()) {
      r["code"] = -3;
      r["message"] = "makegrid setup failed";
      return r;
    }
    if (op.contains("grid")) {
      const auto& g = op["grid"];
      auto& q = *params;
      q.normalize_by_currents = g.value("normalize_by_currents", q.normalize_by_currents);
      q.assume_stellarator_symmetry = g.value("assume_stellarator_symmetry", q.assume_stellarator_symmetry);
      q.number_of_field_periods = g.value("number_of_field_periods", q.number_of_field_periods);
      q.r_grid_minimum = g.value("r_grid_minimum", q.r_grid_minimum);
      q.r_grid_maximum = g.value("r_grid_maximum", q.r_grid_maximum);
      q.number_of_r_grid_points = g.value("number_of_r_grid_points", q.number_of_r_grid_points);
      q.z_grid_minimum = g.value("z_grid_minimum", q.z_grid_minimum);
      q.z_grid_maximum = g.value("z_grid_maximum", q.z_grid_maximum);
      q.number_of_z_grid_points = g.value("number_of_z_grid_points", q.number_of_z_grid_points);
      q.number_of_phi_grid_points = g.value("number_of_phi_grid_points", q.number_of_phi_grid_points);
    }
    auto table = makegrid::ComputeMagneticFieldResponseTable(*params, *coils);
    if (!table.ok()) {
      r["code"] = static_cast<int>(table.status().code());
      r["message"] = std::string(table.status().message());
      return r;
    }
    if (op.value("table_only", false)) {
      Dump d{fopen((g_dump + std::to_string(idx)).c_str(), "wb")};
      std::vector<double> v;
      auto put = [&](const char* n, const auto& m) {
        Put(d, n, std::vector<double>(m.data(), m.data() + m.size()));
      };
      put("/b_r", table->b_r);
      put("/b_p", table->b_p);
      put("/b_z", table->b_z);
      if (op.value("potential", false)) {
        auto a = makegrid::ComputeVectorPotentialCache(*params, *coils);
        if (a.ok()) {
          put("/a_r", a->a_r);
          put("/a_p", a->a_p);
          put("/a_z", a->a_z);
        }
      }
      fclose(d.f);
      r["code"] = 0;
      r["digest"] = std::to_string(d.hash);
      r["steps"] = sim::GetStats().steps - step0;
      return r;
    }
    out = vmecpp::run(*indata, *table, std::move(hot), threads,
                      vmecpp::OutputMode::kSilent, cb);
  } else {
    const bool verbose = op.value("verbose", false);
    out = vmecpp::run(*indata, std::move(hot), threads,
                      verbose ? vmecpp::OutputMode::kLegacy
                              : vmecpp::OutputMode::kSilent,
                      cb);
  }
  r["steps"] = sim::GetStats().steps - step0;
  r["polls"] = polls;
  r["raised"] = raised;
  r["polls_after"] = polls_after;
  r["poll_thread_bad"] = poll_thread_bad;
  if (raised) r["steps_after_raise"] = sim::GetStats().steps - step_raised;
  r["code"] = static_cast<int>(out.status().code());
  r["message"] = std::string(out.status().message());
  if (out.ok()) {
    const auto& w = out->wout;
    r["fsqr"] = w.fsqr;
    r["fsqz"] = w.fsqz;
    r["fsql"] = w.fsql;
    r["ftolv"] = w.ftolv;
    r["ier_flag"] = static_cast<int>(w.ier_flag);
    r["itfsq"] = w.itfsq;
    r["nfev"] = w.force_residual_r.size();
    int resets = 0;
    for (int i = 0; i < w.restart_reason_timetrace.size(); i++)
      resets += w.restart_reason_timetrace(i) != 1;
    r["resets"] = resets;
    r["wb"] = w.wb;
    r["ns"] = w.ns;
    Kept& k = g_kept[idx];
    k.ok = true;
    k.out = std::move(*out);
    k.indata = *indata;
  }
  return r;
}

json g_op_results = json::array();
void Client(void*, int i) {
  g_op_results[i] = RunOp(g_spec["ops"][i], i);
}

void Main(void*) {
  const json& ops = g_spec["ops"];
  g_kept.resize(ops.size());
  for (size_t i = 0; i < ops.size(); i++) g_op_results.push_back(nullptr);
  if (g_spec.value("mode", "seq") == "clients") {
    sim::RunClients(ops.size(), Client, nullptr);
  } else {
    for (size_t i = 0; i < ops.size(); i++) {
      g_op_results[i] = RunOp(ops[i], i);
      g_result["ops"] = g_op_results;
    }
  }
  for (size_t i = 0; i < ops.size(); i++) {
    if (g_kept[i].ok)
      g_op_results[i]["digest"] =
          std::to_string(DumpOutput(g_kept[i].out, g_dump + std::to_string(i)));
  }
  g_result["ops"] = g_op_results;
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 4) return 98;
  {
    std::ifstream is(argv[1]);
    std::stringstream ss;
    ss << is.rdbuf();
    g_spec = json::parse(ss.str());
  }
  g_out = argv[2];
  g_dump = argv[3];
  g_result = json::object();
  sim::Config c;
  c.seed = g_spec.value("seed", 1ull);
  c.strategy = g_spec.value("strategy", 2);
  c.mean_quantum = g_spec.value("quantum", 1000u);
  c.victim = g_spec.value("victim", 0u);
  c.shadow = g_spec.value("shadow", true);
  c.poison = g_spec.value("poison", false);
  c.max_steps = g_spec.value("max_steps", 0ull);
  c.stall_mean = g_spec.value("stall", 0u);
  if (g_spec.contains("directed"))
    for (const auto& v : g_spec["directed"])
      if (c.n_directed < 32) c.directed[c.n_directed++] = v.get<uint32_t>();
  c.record = g_spec.contains("trace_out");
  if (g_spec.contains("trace_in")) {
    for (const auto& t : g_spec["trace_in"])
      g_trace.push_back({t[0].get<uint64_t>(), t[1].get<uint32_t>(), t[2].get<uint32_t>()});
    c.strategy = sim::kReplay;
    c.trace = g_trace.data();
    c.trace_len = g_trace.size();
  }
  sim::Configure(c);
  sim::SetFatal(OnFatal);
  sim::RunMain(Main, nullptr);
  if (!g_finished) {
    g_finished = true;
    WriteResult();
  }
  fflush(nullptr);
  _exit(0);
}
