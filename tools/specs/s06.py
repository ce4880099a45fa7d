ID="s06-status-mask-top"; PROPERTY="C03"
NEEDS="a masked read of a status register of signed element type whose mask includes the top bit"
BREAKS="The most significant bit of a status register is missing from masked reads that start at it, as the mask test treats the mask as a number."
EDITS=[("mpact/sim/generic/status_register.h","if (mask & (static_cast<T>(1) << i)) {","if ((mask & (static_cast<T>(1) << i)) > 0) {")]
SRCS=["mpact/sim/generic/data_buffer.cc","mpact/sim/generic/state_item_base.cc"]
DEMO='''#include "mpact/sim/generic/status_register.h"
using namespace mpact::sim::generic;
int main() {
  StatusRegister<int32_t> r(nullptr, "r");
  r.SetEvaluateFunction(31, []() { return true; });
  r.SetEvaluateFunction(0, []() { return true; });
  return static_cast<uint32_t>(r.Read(-1)) == 0x80000001u ? 0 : 1;
}
'''
