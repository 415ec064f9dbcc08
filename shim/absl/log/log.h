// Stand-in for absl/log/log.h (the installed abseil predates it): messages go
// to the registered sinks, and to stderr when VERIF_LOG is set or on FATAL.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>
#include "absl/base/log_severity.h"
#include "absl/log/log_sink_registry.h"
#include "absl/strings/string_view.h"
namespace absl {
namespace verif_log {
class LogMessage {
 public:
  LogMessage(absl::LogSeverity sev, const char* file, int line)
      : sev_(sev), file_(file), line_(line) {}
  ~LogMessage() {
    LogEntry e(sev_, file_, line_, os_.str());
    {
      auto& r = GetRegistry();
      std::lock_guard<std::recursive_mutex> l(r.mu);
      for (auto* s : r.sinks) s->Send(e);
    }
    static const bool verbose = std::getenv("VERIF_LOG") != nullptr;
    if (verbose || sev_ == absl::LogSeverity::kFatal) {
      std::fprintf(stderr, "%c %s:%d] %s\n",
                   absl::LogSeverityName(sev_)[0], file_, line_,
                   os_.str().c_str());
    }
    if (sev_ == absl::LogSeverity::kFatal) std::abort();
  }
  std::ostream& stream() { return os_; }
 private:
  absl::LogSeverity sev_;
  const char* file_;
  int line_;
  std::ostringstream os_;
};
struct Voidify {
  void operator&&(std::ostream&) const {}
};
}  // namespace verif_log
}  // namespace absl
#define VERIF_LOG_INFO ::absl::LogSeverity::kInfo
#define VERIF_LOG_WARNING ::absl::LogSeverity::kWarning
#define VERIF_LOG_ERROR ::absl::LogSeverity::kError
#define VERIF_LOG_FATAL ::absl::LogSeverity::kFatal
#define LOG(sev) \
  ::absl::verif_log::LogMessage(VERIF_LOG_##sev, __FILE__, __LINE__).stream()
#define LOG_IF(sev, cond) \
  !(cond) ? (void)0 : ::absl::verif_log::Voidify() && LOG(sev)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)
#define VLOG(n) LOG_IF(INFO, false)
#define DLOG(sev) LOG(sev)
#endif
