ID="s05-register-narrow"; PROPERTY="C03"
NEEDS="a 64-bit unsigned register whose value has bit 31 set and fits in 32 bits, read as a signed 64-bit value"
BREAKS="The signed 64-bit view of a register is narrowed through 32 bits when the value fits in 32 bits, so 0x80000000..0xffffffff read as negative."
EDITS=[("mpact/sim/generic/register.h","""  return static_cast<int64_t>(
      register_->data_buffer()->Get<typename internal::SignedType<T>::type>(i));""","""  auto value = static_cast<int64_t>(
      register_->data_buffer()->Get<typename internal::SignedType<T>::type>(i));
  // Most values are short.
  if ((value >> 32) == 0) return AsInt32(i);
  return value;""")]
SHIM=True; PROTO=True
SRCS=["mpact/sim/generic/"+n+".cc" for n in "data_buffer register state_item_base arch_state component fifo program_error simple_resource resource_bitset".split()]
DEMO='''#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/arch_state.h"
using namespace mpact::sim::generic;
struct St : ArchState { St() : ArchState("s", nullptr) {} };
int main() {
  St s;
  Register<uint64_t> r(&s, "r");
  auto* d = r.CreateDestinationOperand(0);
  auto* o = r.CreateSourceOperand();
  auto* db = d->AllocateDataBuffer();
  db->Set<uint64_t>(0, 0x90000000ULL);
  db->Submit();
  bool ok = o->AsInt64(0) == 0x90000000LL;
  delete d; delete o;
  return ok ? 0 : 1;
}
'''
