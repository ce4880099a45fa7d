ID="s12-append-child-parent"; PROPERTY="C11"
NEEDS="a bundle with more than one child instruction, and a look at the parent of a later child"
BREAKS="Only the first child of an instruction knows its parent."
EDITS=[("mpact/sim/generic/instruction.cc","""  inst->parent_ = this;
  if (nullptr == child_) {
    inst->IncRef();""","""  if (nullptr == child_) {
    inst->parent_ = this;
    inst->IncRef();""")]
SHIM=True; PROTO=True
SRCS=["mpact/sim/generic/"+n+".cc" for n in "data_buffer state_item_base arch_state component program_error instruction".split()]
DEMO='''#include "mpact/sim/generic/instruction.h"
using namespace mpact::sim::generic;
int main() {
  auto* p = new Instruction(0, nullptr);
  auto* a = new Instruction(0, nullptr);
  auto* b = new Instruction(0, nullptr);
  p->AppendChild(a); p->AppendChild(b);
  bool ok = a->parent() == p && b->parent() == p;
  return ok ? 0 : 1;
}
'''
