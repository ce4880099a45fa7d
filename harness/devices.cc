// C34: the memory mapped devices: the UART, and the bus of Renode.
#include <new>
#include <sstream>

#include "absl/log/log.h"
#include "mem_common.h"
#include "mpact/sim/util/other/simple_uart.h"
#include "mpact/sim/util/renode/renode_memory_access.h"

using namespace memtest;  // NOLINT
using mpact::sim::util::SimpleUart;
using mpact::sim::util::renode::RenodeMemoryAccess;

namespace {

// A stream which tells what was flushed.
struct Sink : public std::stringbuf {
  int sync() override {
    flushed = str().size();
    return 0;
  }
  size_t flushed = 0;
};

PBT_SUITE(uart, "characters were transmitted before and after the divisor latch was selected", 40000,
          2000000) {
  Rig rig;
  DataBufferFactory f;
  Sink sink;
  std::ostream os(&sink);
  // What it does not initialize shows.
  alignas(SimpleUart) static unsigned char space[sizeof(SimpleUart)];
  memset(space, src.flip() ? 0xa5 : 0, sizeof space);
  auto* uart = new (space) SimpleUart(&rig.state, os);
  struct Destroy {
    SimpleUart* u;
    ~Destroy() { u->~SimpleUart(); }
  } destroy{uart};
  std::string sent;
  size_t lines = 0;
  uint32_t lcr = 0, dll = 0, dlh = 0, ier = 0, scratch = 0;
  auto read = [&](uint64_t a) -> uint32_t {
    bool dlab = lcr & 0x80;
    switch (a) {
      case 0: return dlab ? dll : 0;
      case 4: return dlab ? dlh : ier;
      case 0xc: return lcr;
      case 0x1c: return scratch;
      default: return 0;
    }
  };
  auto write = [&](uint64_t a, uint32_t v) {
    bool dlab = lcr & 0x80;
    switch (a) {
      case 0:
        if (dlab) {
          dll = v;
        } else {
          sent += static_cast<char>(v);
          if ((v & 0xff) == '\n') lines = sent.size();
        }
        break;
      case 4: (dlab ? dlh : ier) = v; break;
      case 0xc: lcr = v; break;
      case 0x1c: scratch = v; break;
      default: break;
    }
  };
  int n = src.range(2, 30);
  size_t before = 0;
  bool latch = false, after = false;
  for (int i = 0; i < n; i++) {
    if (src.chance(10)) {
      rig.Advance();
      continue;
    }
    uint64_t reg = src.pick<uint64_t>({0, 0, 0, 0, 4, 8, 0xc, 0xc, 0x10, 0x14, 0x18, 0x1c, 0x20, 0x100c, 0xfffc});
    uint64_t a = src.pick<uint64_t>({0, 0x10000, 0x80000000, 0xffffffffffff0000}) + reg;
    int words = src.chance(80) ? 1 : src.range(1, 8);
    int size = 4 * words;
    bool whole = true;
    if (src.chance(8)) {
      whole = false;
      if (src.flip()) {
        a += src.range(1, 3);
      } else {
        size += src.pick<int>({-3, -2, -1, 1, 2, 3});
      }
    }
    auto* db = f.Allocate<uint8_t>(size);
    for (auto& b : db->Get<uint8_t>()) b = src.draw(256);
    if (src.flip()) {
      Bytes want(size);
      if (whole) {
        for (int w = 0; w < words; w++) {
          uint32_t v = read(reg + 4 * w);
          for (int k = 0; k < 4; k++) want[4 * w + k] = v >> (8 * k);
        }
      }
      if (ctx.logging()) ctx.log("load ", pbt::hex(a), " of ", size, ", want ", Show(want));
      int latency = src.chance(60) ? 0 : src.range(1, 3);
      rig.Prepare(src, db, latency);
      uart->Load(a, db, rig.inst, rig.context);
      rig.Issued(want, "load");
    } else {
      if (src.chance(60)) {
        uint32_t v = src.weighted({3, 1, 2, 2}) == 0 ? src.range(32, 126)
                     : src.chance(30)               ? '\n'
                     : src.chance(40)               ? 0x80 | src.draw(256)
                                                    : src.draw(256);
        if (src.chance(20)) v |= src.u64() << 8;
        for (int k = 0; k < 4 && k < size; k++) db->Set<uint8_t>(k, v >> (8 * k));
      }
      if (ctx.logging()) ctx.log("store ", pbt::hex(a), " ", Show(Contents(db)));
      Bytes data = Contents(db);
      if (whole) {
        for (int w = 0; w < words; w++) {
          uint32_t v = 0;
          for (int k = 0; k < 4; k++) v |= static_cast<uint32_t>(data[4 * w + k]) << (8 * k);
          write(reg + 4 * w, v);
        }
      }
      uart->Store(a, db);
      PBT_ASSERT(Contents(db) == data, "the store changes its data");
    }
    db->DecRef();
    PBT_ASSERT(sink.str() == sent, "transmitted characters differ");
    PBT_ASSERT(sink.flushed >= lines, "a line is not flushed");
    if (lcr & 0x80) {
      if (!latch) before = sent.size();
      latch = true;
    }
    after |= latch && sent.size() > before;
  }
  rig.Finish();
  ctx.nontrivial_if(before > 0 && after);
}

PBT_SUITE(renode_bus, "loads completed at once and later, and stores reached the bus", 40000, 2000000) {
  Rig rig;
  DataBufferFactory f;
  struct Call {
    bool load;
    uint64_t address;
    Bytes data;
  };
  std::vector<Call> calls;
  int moved = -1;  // How many bytes the bus moves; -1: all.
  Bytes next;
  auto read = [&](uint64_t a, char* b, int32_t n) -> int32_t {
    int32_t k = moved < 0 ? n : std::min<int32_t>(moved, n);
    next.resize(n);
    memcpy(b, next.data(), k);
    calls.push_back({true, a, Bytes(n)});
    return k;
  };
  auto write = [&](uint64_t a, char* b, int32_t n) -> int32_t {
    calls.push_back({false, a, Bytes(b, b + n)});
    return moved < 0 ? n : std::min<int32_t>(moved, n);
  };
  bool has_read = src.chance(85), has_write = src.chance(85);
  RenodeMemoryAccess::RenodeMemoryFunction r, w;
  if (has_read) r = read;
  if (has_write) w = write;
  RenodeMemoryAccess bus(std::move(r), std::move(w));
  bool now = false, later = false, stored = false;
  int n = src.range(2, 20);
  for (int i = 0; i < n; i++) {
    if (src.chance(20)) {
      rig.Advance();
      continue;
    }
    PBT_EQ(bus.has_read_fcn(), has_read);
    PBT_EQ(bus.has_write_fcn(), has_write);
    if (src.chance(6)) {
      if (src.flip()) {
        if (src.flip()) {
          bus.set_read_fcn(read);
          has_read = true;
        } else {
          bus.set_read_fcn(nullptr);
          has_read = false;
        }
      } else {
        bus.set_write_fcn(write);
        has_write = true;
      }
      continue;
    }
    calls.clear();
    uint64_t a = src.interesting();
    int size = src.weighted({1, 1, 1}) == 0 ? 1 << src.draw(5) : src.range(1, 80);
    moved = src.chance(85) ? -1 : src.draw(size + 1);
    auto* db = f.Allocate<uint8_t>(size);
    for (auto& b : db->Get<uint8_t>()) b = src.draw(256);
    next.assign(size, 0);
    for (auto& b : next) b = src.draw(256);
    Bytes old = Contents(db);
    int errors = absl::verif_log::counts().error;
    int moves = moved < 0 ? size : std::min(moved, size);
    if (src.flip()) {
      Bytes want = old;
      if (has_read) {
        std::copy(next.begin(), next.begin() + moves, want.begin());
      } else {
        want.assign(size, 0);
      }
      int latency = src.chance(50) ? 0 : src.range(1, 3);
      if (ctx.logging()) ctx.log("load ", pbt::hex(a), " of ", size, ", latency ", latency);
      rig.Prepare(src, db, latency);
      if (rig.inst != nullptr) (latency == 0 ? now : later) = true;
      bus.Load(a, db, rig.inst, rig.context);
      rig.Issued(want, "load");
      PBT_EQ(calls.size(), has_read ? 1u : 0u, "calls of the bus");
      if (has_read) PBT_ASSERT(calls[0].load && calls[0].address == a && calls[0].data.size() == static_cast<size_t>(size), "read of the bus");
      PBT_EQ(absl::verif_log::counts().error > errors, has_read && moves != size, "errors logged");
    } else {
      if (ctx.logging()) ctx.log("store ", pbt::hex(a), " ", Show(old));
      bus.Store(a, db);
      PBT_EQ(calls.size(), has_write ? 1u : 0u, "calls of the bus");
      if (has_write) PBT_ASSERT(!calls[0].load && calls[0].address == a && calls[0].data == old, "write to the bus");
      PBT_ASSERT(Contents(db) == old, "the store changes its data");
      PBT_EQ(absl::verif_log::counts().error > errors, has_write && moves != size, "errors logged");
      stored |= has_write;
    }
    db->DecRef();
  }
  rig.Finish();
  ctx.nontrivial_if(now && later && stored);
}

}  // namespace
