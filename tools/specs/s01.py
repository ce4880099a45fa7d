ID="s01-recycle-size"; PROPERTY="C01"
NEEDS="a buffer above the factory's short size that was recycled, then a request for a smaller (but still large) size"
BREAKS="A recycled large buffer is handed out for a request of a different size, so size and copies are wrong."
EDITS=[("mpact/sim/generic/data_buffer.h","""    } else {
      auto ptr = free_list_.find(size);
      if (ptr != free_list_.end()) {
        if (!ptr""","""    } else {
      auto ptr = free_list_.lower_bound(size);
      if (ptr != free_list_.end()) {
        if (!ptr""")]
SRCS=["mpact/sim/generic/data_buffer.cc"]
DEMO='''#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
int main() {
  DataBufferFactory f;
  auto* a = f.Allocate(9000);
  a->DecRef();
  auto* b = f.Allocate(5000);
  int n = b->size<uint8_t>();
  b->DecRef();
  return n == 5000 ? 0 : 1;
}
'''
