ID="s11-decode-cache-misaligned"; PROPERTY="C10"
NEEDS="a fetch from an address that is not a multiple of the pc increment, next to a cached aligned one"
BREAKS="The instruction cached for the aligned address is returned for the misaligned one."
EDITS=[("mpact/sim/generic/decode_cache.cc","""  if ((nullptr != inst) && (inst->address() == address)) {
    return inst;
  }""","""  if ((nullptr != inst) &&
      ((inst->address() ^ address) >> address_shift_) == 0) {
    return inst;
  }""")]
SHIM=True; PROTO=True
SRCS=["mpact/sim/generic/"+n+".cc" for n in "data_buffer state_item_base arch_state component program_error instruction decode_cache".split()]
DEMO='''#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/instruction.h"
using namespace mpact::sim::generic;
struct D : DecoderInterface {
  Instruction* DecodeInstruction(uint64_t a) override { return new Instruction(a, nullptr); }
  int GetNumOpcodes() const override { return 1; }
  const char* GetOpcodeName(int) const override { return ""; }
};
int main() {
  D d;
  DecodeCacheProperties p;
  p.num_entries = 16; p.minimum_pc_increment = 4;
  auto* c = DecodeCache::Create(p, &d);
  c->GetDecodedInstruction(0x1000);
  bool ok = c->GetDecodedInstruction(0x1002)->address() == 0x1002;
  delete c;
  return ok ? 0 : 1;
}
'''
