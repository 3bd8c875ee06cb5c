// Minimal stand-in for absl/log (absent from the installed abseil).
// Real code under test only relies on: stream-style LOG(severity) and FATAL
// terminating the process.  Nothing here is part of the system under test.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include "absl/strings/str_format.h"
#include "absl/strings/str_cat.h"
namespace verif_shim {
struct LogStream {
  std::ostringstream os;
  bool fatal;
  LogStream(const char* file, int line, const char* sev, bool f) : fatal(f) {
    os << "[" << sev << "] " << file << ":" << line << "] ";
  }
  ~LogStream() {
    if (fatal) {
      std::fprintf(stderr, "%s\n", os.str().c_str());
      std::fflush(stderr);
      std::abort();
    }
    if (std::getenv("VERIF_SHIM_LOG")) {
      std::fprintf(stderr, "%s\n", os.str().c_str());
    }
  }
  template <typename T>
  LogStream& operator<<(const T& v) {
    os << v;
    return *this;
  }
  LogStream& operator<<(std::ostream& (*m)(std::ostream&)) {
    os << m;
    return *this;
  }
};
struct Voidify {
  void operator&(const LogStream&) const {}
};
}  // namespace verif_shim
#define VERIF_LOG_INFO ::verif_shim::LogStream(__FILE__, __LINE__, "INFO", false)
#define VERIF_LOG_WARNING ::verif_shim::LogStream(__FILE__, __LINE__, "WARNING", false)
#define VERIF_LOG_ERROR ::verif_shim::LogStream(__FILE__, __LINE__, "ERROR", false)
#define VERIF_LOG_FATAL ::verif_shim::LogStream(__FILE__, __LINE__, "FATAL", true)
#define LOG(sev) VERIF_LOG_##sev
#define LOG_IF(sev, cond) !(cond) ? (void)0 : ::verif_shim::Voidify() & LOG(sev)
#define DLOG(sev) LOG(sev)
#define VLOG(n) true ? (void)0 : ::verif_shim::Voidify() & LOG(INFO)
#endif
