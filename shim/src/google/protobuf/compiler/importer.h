// The error collector interface of current protobuf (RecordError) over the one installed (AddError).
#ifndef VERIF_SHIM_IMPORTER_H_
#define VERIF_SHIM_IMPORTER_H_
#include "google/protobuf/compiler/importer.h"

#include "absl/strings/string_view.h"
namespace google::protobuf::compiler {
class RecordErrorCollector : public MultiFileErrorCollector {
 public:
  virtual void RecordError(absl::string_view filename, int line, int column, absl::string_view message) = 0;
  virtual void RecordWarning(absl::string_view filename, int line, int column, absl::string_view message) {}
  void AddError(const std::string& f, int line, int column, const std::string& m) override { RecordError(f, line, column, m); }
  void AddWarning(const std::string& f, int line, int column, const std::string& m) override { RecordWarning(f, line, column, m); }
};
}  // namespace google::protobuf::compiler
#define MultiFileErrorCollector RecordErrorCollector
#endif
