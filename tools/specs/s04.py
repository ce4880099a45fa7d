ID="s04-clear-all-masked"; PROPERTY="C06"
NEEDS="an error raised while masked, then everything is cleared, then the same error is raised again and its messages are read"
BREAKS="Messages of masked errors survive the clearing of all errors."
EDITS=[("mpact/sim/generic/program_error.cc","""  for (auto& entry : program_error_info_) {
    entry.error_messages.clear();
  }""","""  for (auto index : unmasked_program_errors_) {
    program_error_info_[index].error_messages.clear();
  }""")]
SRCS=["mpact/sim/generic/program_error.cc"]
DEMO='''#include "mpact/sim/generic/program_error.h"
using namespace mpact::sim::generic;
int main() {
  ProgramErrorController c("c");
  c.AddProgramErrorName("e");
  c.Mask("e");
  auto e = c.GetProgramError("e");
  e->Raise("one");
  c.ClearAll();
  c.Unmask("e");
  e->Raise("two");
  return c.GetErrorMessages("e").size() == 1 ? 0 : 1;
}
'''
