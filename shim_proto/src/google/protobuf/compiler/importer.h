// The installed protobuf is older than the one the code is written for: errors
// are told by AddError, which has been replaced by RecordError since.
#ifndef VERIF_SHIM_PROTO_IMPORTER_H_
#define VERIF_SHIM_PROTO_IMPORTER_H_
#include <google/protobuf/compiler/importer.h>

#include "absl/strings/string_view.h"

namespace google {
namespace protobuf {
namespace compiler {
class VerifMultiFileErrorCollector : public MultiFileErrorCollector {
 public:
  void AddError(const std::string& file, int line, int column,
                const std::string& message) override {
    RecordError(file, line, column, message);
  }
  virtual void RecordError(absl::string_view file, int line, int column,
                           absl::string_view message) = 0;
};
}  // namespace compiler
}  // namespace protobuf
}  // namespace google
#define MultiFileErrorCollector VerifMultiFileErrorCollector
#endif
