#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace absl {
namespace verif_log {
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T>
const absl::Status& AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace verif_log
}  // namespace absl
#define CHECK(cond) \
  (cond) ? (void)0  \
         : ::absl::verif_log::Voidify() && LOG(FATAL) << "Check failed: " #cond " "
#define CHECK_OP_(a, op, b) CHECK((a)op(b))
#define CHECK_EQ(a, b) CHECK_OP_(a, ==, b)
#define CHECK_NE(a, b) CHECK_OP_(a, !=, b)
#define CHECK_LT(a, b) CHECK_OP_(a, <, b)
#define CHECK_LE(a, b) CHECK_OP_(a, <=, b)
#define CHECK_GT(a, b) CHECK_OP_(a, >, b)
#define CHECK_GE(a, b) CHECK_OP_(a, >=, b)
#define CHECK_OK(expr) CHECK(::absl::verif_log::AsStatus(expr).ok())
#define DCHECK(cond) CHECK(cond)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_OK(expr) CHECK_OK(expr)
#endif
