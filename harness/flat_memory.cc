// C17: flat memories hold what was stored.
#include "mem_common.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"

using namespace memtest;  // NOLINT
using mpact::sim::util::FlatDemandMemory;
using mpact::sim::util::FlatMemory;

PBT_SUITE(flat, "a masked vector access, and a load of stored data", 120000, 4000000) {
  int unit = src.pick({1, 1, 2, 4, 8});
  bool big = src.chance(3);
  uint64_t units = static_cast<uint64_t>(big ? src.range(0x8000, 0x14000)
                                             : src.range(64, 300));
  uint64_t base = src.pick({uint64_t{0}, uint64_t{0x1000}, uint64_t{0x8000'0000},
                            uint64_t{1} << 60, uint64_t{3}});
  uint8_t fill = static_cast<uint8_t>(src.draw(256));
  ctx.log("FlatMemory ", units, " units of ", unit, " at ", pbt::hex(base), " fill ",
          int{fill});
  std::unique_ptr<FlatMemory> mem(
      base == 0 && src.flip() ? new FlatMemory(units, unit, fill)
                              : new FlatMemory(units, base, unit, fill));
  PBT_EQ(static_cast<uint64_t>(mem->size()), units * unit, "size");
  PBT_EQ(mem->base(), base, "base");
  ByteMap model;
  model.unit = unit;
  model.fill = fill;
  DataBufferFactory f;
  Rig rig;
  Options o;
  o.unit = unit;
  o.long_pct = big ? 30 : 2;
  o.long_stride = big;
  o.address = [&](pbt::Src& s, uint64_t n) -> uint64_t {
    uint64_t room = units - n;
    switch (s.weighted({6, 1, 1})) {
      case 0: return base + s.draw(std::min<uint64_t>(room + 1, 24));
      case 1: return base + room - s.draw(std::min<uint64_t>(room + 1, 4));
      default: return base + s.draw(room + 1);
    }
  };
  int steps = static_cast<int>(src.range(1, 20));
  bool vec = false, stored = false, loaded = false;
  for (int i = 0; i < steps; i++) {
    if (src.chance(20)) {
      rig.Advance();
      continue;
    }
    auto acc = PlainOp(src, ctx, o, mem.get(), &model, &rig, &f);
    vec |= acc.size() > 1;
    if (!acc[0].load) stored = true;
    if (acc[0].load && stored) loaded = true;
  }
  rig.Finish();
  Sweep(mem.get(), model, &f,
        [&](uint64_t a) { return a >= base && a - base < units; });
  ctx.nontrivial_if(vec && loaded);
}

PBT_SUITE(flat_demand,
          "an access across an allocation block boundary, and a load of stored data",
          60000, 1500000) {
  int unit = src.pick({1, 1, 2, 4, 8});
  uint64_t base, size;
  const uint64_t kAll = ~uint64_t{0};
  uint8_t fill = 0;
  std::unique_ptr<FlatDemandMemory> mem;
  switch (src.draw(5)) {
    case 0:
      base = 0, size = kAll, unit = 1;
      mem = std::make_unique<FlatDemandMemory>();
      break;
    case 1:
      base = src.pick({uint64_t{0}, uint64_t{0x1000}, uint64_t{1} << 63});
      size = kAll - base;
      unit = 1;
      mem = std::make_unique<FlatDemandMemory>(base);
      break;
    case 2:
      base = src.pick({uint64_t{0x1000}, uint64_t{0x8000'0000}, uint64_t{0x3ffc}, uint64_t{0x12'3456'7000}});
      size = 3 * 16384 + src.draw(100), unit = 1;
      mem = std::make_unique<FlatDemandMemory>(size, base);
      break;
    default:
      base = src.pick({uint64_t{0}, uint64_t{0x1000}, uint64_t{0x3ffc},
                       0 - uint64_t{0x2'0000}});
      size = src.flip() ? 3 * 16384 + src.draw(100) : 0x1'0000 + src.draw(64);
      fill = static_cast<uint8_t>(src.draw(256));
      mem = std::make_unique<FlatDemandMemory>(size, base, unit, fill);
  }
  ctx.log("FlatDemandMemory ", pbt::hex(size), " units of ", unit, " at ",
          pbt::hex(base), " fill ", int{fill});
  ByteMap model;
  model.unit = unit;
  model.fill = fill;
  DataBufferFactory f;
  Rig rig;
  Options o;
  o.unit = unit;
  if (src.chance(20)) o.scalar_sizes.push_back(40000);
  bool cross = false;
  uint64_t first_block = (base + 16384) & ~uint64_t{16383};
  uint64_t last = base;
  o.long_pct = 3;
  o.long_stride = true;
  o.address = [&](pbt::Src& s, uint64_t n) -> uint64_t {
    uint64_t room = size - n, a;
    switch (s.weighted({3, 4, 2, 1, 2})) {
      case 0: a = base + s.draw(24); break;
      case 1:  // around a block boundary
        a = first_block - base + s.draw(2) * 16384 - 20 + s.draw(30) > room
                ? base
                : first_block + s.draw(2) * 16384 - 20 + s.draw(30);
        break;
      case 2: a = base + room - s.draw(20); break;
      case 3: a = base + s.draw(room + 1); break;
      default:  // a power of two away from another
        a = last ^ (uint64_t{1} << s.draw(64));
        if (a - base > room) a = last;
    }
    if (a - base > room) a = base;
    last = a;
    cross |= (a >> 14) != ((a + n - 1) >> 14);
    return a;
  };
  int steps = static_cast<int>(src.range(1, 16));
  bool stored = false, loaded = false;
  for (int i = 0; i < steps; i++) {
    if (src.chance(20)) {
      rig.Advance();
      continue;
    }
    if (src.chance(3)) {
      ctx.log("clear");
      mem->Clear();
      model.m.clear();
      continue;
    }
    auto acc = PlainOp(src, ctx, o, mem.get(), &model, &rig, &f);
    if (!acc[0].load) stored = true;
    if (acc[0].load && stored) loaded = true;
  }
  rig.Finish();
  if (model.m.size() < 2000)
    Sweep(mem.get(), model, &f,
          [&](uint64_t a) { return a >= base && a - base < size; });
  ctx.nontrivial_if(cross && loaded);
}
