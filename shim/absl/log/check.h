// Minimal stand-in for absl/log/check.h: a failed CHECK prints and aborts.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace verif_shim {
inline absl::Status AsStatus(const absl::Status& s) { return s; }
template <typename T>
absl::Status AsStatus(const absl::StatusOr<T>& s) {
  return s.status();
}
}  // namespace verif_shim
#define CHECK(cond)   \
  (cond) ? (void)0    \
         : ::verif_shim::Voidify() & LOG(FATAL) << "Check failed: " #cond " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_OK(s)                                                     \
  ::verif_shim::AsStatus(s).ok()                                        \
      ? (void)0                                                         \
      : ::verif_shim::Voidify() & LOG(FATAL) << "Check failed: " #s " " \
                                             << ::verif_shim::AsStatus(s).ToString()
#ifdef NDEBUG
#define VERIF_DCHECK(c) true ? (void)0 : ::verif_shim::Voidify() & LOG(INFO)
#define DCHECK(c) VERIF_DCHECK(c)
#define DCHECK_EQ(a, b) VERIF_DCHECK((a) == (b))
#define DCHECK_GE(a, b) VERIF_DCHECK((a) >= (b))
#define DCHECK_GT(a, b) VERIF_DCHECK((a) > (b))
#define DCHECK_LE(a, b) VERIF_DCHECK((a) <= (b))
#define DCHECK_LT(a, b) VERIF_DCHECK((a) < (b))
#define DCHECK_NE(a, b) VERIF_DCHECK((a) != (b))
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#endif
#define QCHECK CHECK
#define QCHECK_OK CHECK_OK
#endif
