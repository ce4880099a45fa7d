ID="s07-fifo-overreserve-push"; PROPERTY="C05"
NEEDS="a fifo reserved beyond its capacity, followed by pushes into the reserved slots"
BREAKS="An oversubscribed fifo accepts more elements than its capacity."
EDITS=[("mpact/sim/generic/fifo.cc","""  if (IsFull()) {
    if (nullptr != overflow_program_error_) {""","""  if (!IsOverSubscribed() && IsFull()) {
    if (nullptr != overflow_program_error_) {""")]
SHIM=True; PROTO=True
SRCS=["mpact/sim/generic/"+n+".cc" for n in "data_buffer register state_item_base arch_state component fifo program_error simple_resource resource_bitset".split()]
DEMO='''#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/arch_state.h"
using namespace mpact::sim::generic;
struct St : ArchState { St() : ArchState("s", nullptr) {} };
int main() {
  St s;
  Fifo<uint32_t> f(&s, "f", 2);
  f.Reserve(5);
  DataBufferFactory fac;
  for (int i = 0; i < 4; i++) {
    auto* db = fac.Allocate<uint32_t>(1);
    f.Push(db);
    db->DecRef();
  }
  bool ok = f.Available() <= 2;
  while (f.Available()) f.Pop();
  return ok ? 0 : 1;
}
'''
