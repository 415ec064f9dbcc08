// Stand-in for a header that the installed abseil does not have.
#ifndef VERIF_SHIM_ABSL_LOG_ENTRY_H_
#define VERIF_SHIM_ABSL_LOG_ENTRY_H_
#include <string>
#include "absl/base/log_severity.h"
#include "absl/strings/string_view.h"
namespace absl {
class LogEntry {
 public:
  LogEntry(absl::LogSeverity s, const char* file, int line, std::string text)
      : severity_(s), file_(file), line_(line), text_(std::move(text)) {}
  absl::LogSeverity log_severity() const { return severity_; }
  absl::string_view text_message() const { return text_; }
  absl::string_view source_filename() const { return file_; }
  int source_line() const { return line_; }
 private:
  absl::LogSeverity severity_;
  const char* file_;
  int line_;
  std::string text_;
};
}  // namespace absl
#endif
