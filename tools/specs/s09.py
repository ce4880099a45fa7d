ID="s09-bitset-andnot-long"; PROPERTY="C08"
NEEDS="a pool wider than 64 resources, and a release of a set that holds a resource in a later word but none in the first"
BREAKS="Such a release leaves the resources busy for ever."
EDITS=[("mpact/sim/generic/resource_bitset.cc","  for (int i = 0; i < min; ++i) bits_[i] &= ~rhs.bits_[i];","""  for (int i = 0; i < min; ++i) {
    // Nothing (more) to clear.
    if (rhs.bits_[i] == 0 && i == 0 && min > 2) break;
    bits_[i] &= ~rhs.bits_[i];
  }""")]
SHIM=True
SRCS=["mpact/sim/generic/simple_resource.cc","mpact/sim/generic/resource_bitset.cc"]
DEMO='''#include <string>
#include "mpact/sim/generic/simple_resource.h"
using namespace mpact::sim::generic;
int main() {
  SimpleResourcePool p("p", 150);
  for (int i = 0; i < 150; i++)
    if (!p.AddResource("r" + std::to_string(i)).ok()) return 2;
  auto* r = p.GetResource("r130");
  r->Acquire();
  r->Release();
  return r->IsFree() ? 0 : 1;
}
'''
