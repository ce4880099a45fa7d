ID="s03-vector-immediate-wide"; PROPERTY="C04"
NEEDS="a vector immediate of 64-bit elements whose value does not fit in 32 bits, read as an unsigned 64-bit value"
BREAKS="The upper half of the element is lost."
EDITS=[("mpact/sim/generic/immediate_operand.h","uint64_t AsUint64(int i) override { return static_cast<uint64_t>(value_[i]); }","uint64_t AsUint64(int i) override { return AsUint32(i); }")]
DEMO='''#include "mpact/sim/generic/immediate_operand.h"
using namespace mpact::sim::generic;
int main() {
  VectorImmediateOperand<uint64_t> op(std::vector<uint64_t>{1, 0x123456789abcdef0ULL});
  return op.AsUint64(1) == 0x123456789abcdef0ULL ? 0 : 1;
}
'''
