#ifndef VERIF_SHIM_ABSL_LOG_SINK_REGISTRY_H_
#define VERIF_SHIM_ABSL_LOG_SINK_REGISTRY_H_
#include <algorithm>
#include <mutex>
#include <vector>
#include "absl/log/log_sink.h"
namespace absl {
namespace verif_log {
struct Registry {
  std::recursive_mutex mu;
  std::vector<LogSink*> sinks;
};
inline Registry& GetRegistry() {
  static Registry* r = new Registry();
  return *r;
}
}  // namespace verif_log
inline void AddLogSink(LogSink* s) {
  auto& r = verif_log::GetRegistry();
  std::lock_guard<std::recursive_mutex> l(r.mu);
  r.sinks.push_back(s);
}
inline void RemoveLogSink(LogSink* s) {
  auto& r = verif_log::GetRegistry();
  std::lock_guard<std::recursive_mutex> l(r.mu);
  r.sinks.erase(std::remove(r.sinks.begin(), r.sinks.end(), s), r.sinks.end());
}
}  // namespace absl
#endif
