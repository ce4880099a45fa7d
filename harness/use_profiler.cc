// C23: the memory use profile is exactly the words which were accessed, as
// maximal ranges in order of address, and profiling changes no access.
#include <sstream>

#include "mem_common.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace memtest;  // NOLINT
using mpact::sim::util::FlatDemandMemory;
using mpact::sim::util::MemoryUseProfiler;
using mpact::sim::util::TaggedFlatDemandMemory;
using mpact::sim::util::TaggedMemoryUseProfiler;

namespace {

constexpr uint64_t kSegment = 128 * 1024;

std::string Profile(const std::set<uint64_t>& words) {
  std::ostringstream os;
  for (auto it = words.begin(); it != words.end();) {
    uint64_t first = *it, last = first;
    for (++it; it != words.end() && *it == last + 1; ++it) last = *it;
    os << "0x" << std::hex << first * 4 << ",0x" << last * 4 << "," << std::dec
       << (last - first + 1) * 4 << "\n";
  }
  return os.str();
}

template <typename P, typename M>
void Run(pbt::Src& src, pbt::Ctx& ctx, M* below, bool tagged) {
  P prof(below);
  TaggedMemoryInterface* tmem = nullptr;
  if constexpr (std::is_base_of_v<TaggedMemoryInterface, P>) tmem = &prof;
  ByteMap model;
  TagModel tm;
  DataBufferFactory f;
  Rig rig;
  Options o;
  uint64_t base = src.pick<uint64_t>({0, kSegment, 5 * kSegment, 0x8000'0000,
                                      0x7fff'ffff'fffe'0000, 0xffff'ffff'fffe'0000});
  bool top = base == 0xffff'ffff'fffe'0000;
  o.address = [&](pbt::Src& s, uint64_t n) -> uint64_t {
    // At the start, at and over segment boundaries, anywhere.
    switch (s.weighted({4, 3, 2, 1})) {
      case 0: return base + s.draw(64);
      case 1:
        return (top ? base : base + kSegment) - (base == 0 && top ? 0 : 40) + s.draw(80) +
               (top ? 40 : 0);
      case 2: return base + kSegment - 8 * n - 8 + s.draw(top ? 4 : 16);
      default:
        return base + s.draw(kSegment - 8 * n - 8) + (top ? 0 : kSegment * s.draw(4));
    }
  };
  std::set<uint64_t> words;
  bool on = false, crossed = false;
  auto mark = [&](uint64_t a, int n) {
    if (!on || n > 8) return;
    for (int i = 0; i < n; i++) words.insert((a + static_cast<uint64_t>(i)) / 4);
    crossed |= a / kSegment != (a + static_cast<uint64_t>(n) - 1) / kSegment ||
               (a + static_cast<uint64_t>(n)) % kSegment == 0;
  };
  auto check = [&]() {
    std::ostringstream os;
    prof.WriteProfile(os);
    PBT_EQ(os.str(), Profile(words), "profile");
  };
  if (!src.chance(10)) prof.set_is_enabled(on = true);
  int steps = static_cast<int>(src.range(1, 40)), seen = 0;
  for (int s = 0; s < steps; s++) {
    switch (src.weighted({10, tagged ? 5 : 0, 1, 1, 1})) {
      case 0: {
        auto acc = PlainOp(src, ctx, o, &prof, &model, &rig, &f);
        for (auto& x : acc) mark(x.address, x.size);
        tm.Stored(acc);
        seen++;
        break;
      }
      case 1: {
        auto x = TaggedOp(src, ctx, o, tmem, &model, &tm, &rig, &f);
        if (!x.tags_only) mark(x.address, x.size);
        seen++;
        break;
      }
      case 2:
        on = src.flip();
        ctx.log("enabled ", on);
        prof.set_is_enabled(on);
        if constexpr (std::is_same_v<P, MemoryUseProfiler>)
          PBT_EQ(prof.is_enabled(), on, "is_enabled");
        break;
      case 3: rig.Advance(); break;
      default: check();
    }
  }
  rig.Finish();
  check();
  Sweep(below, model, &f, [](uint64_t) { return true; });
  if (tagged)
    SweepTags(reinterpret_cast<TaggedMemoryInterface*>(below), tm, &f,
              [](uint64_t) { return true; });
  ctx.nontrivial_if(crossed && words.size() >= 6);
  if (crossed) ctx.label("segment end");
}

}  // namespace

PBT_SUITE(plain, "6 or more words used, some of them up to or over the end of a segment",
          20000, 500000) {
  FlatDemandMemory flat(0);
  Run<MemoryUseProfiler>(src, ctx, static_cast<MemoryInterface*>(&flat), false);
}

PBT_SUITE(tagged, "6 or more words used, some of them up to or over the end of a segment",
          12000, 300000) {
  TaggedFlatDemandMemory tmem(8);
  Run<TaggedMemoryUseProfiler>(src, ctx, static_cast<TaggedMemoryInterface*>(&tmem), true);
}

PBT_SUITE(dense, "a range of words longer than a segment", 1500, 40000) {
  // Long runs of words, with holes: the tracker alone.
  mpact::sim::util::internal::MemoryUseTracker t;
  std::set<uint64_t> words;
  uint64_t base = src.pick<uint64_t>({0, 3 * kSegment, 0xffff'ffff'fff8'0000});
  int runs = static_cast<int>(src.range(1, 4));
  bool full = false;
  for (int r = 0; r < runs; r++) {
    uint64_t first = src.chance(50) ? kSegment / 4 * src.draw(4) : src.draw(4 * kSegment / 4);
    uint64_t n = src.pick<uint64_t>({kSegment / 4, 1, 40, kSegment / 4 + 3, kSegment / 2});
    if (first + n > kSegment) n = kSegment - first;  // Four segments of words in all.
    uint64_t step = src.pick<uint64_t>({1, 1, 2, 9});
    ctx.log("words ", first, " + ", n, " every ", step, " from ", pbt::hex(base));
    bool down = src.flip();
    for (uint64_t i = 0; i < n; i += step) {
      uint64_t w = first + (down ? n - 1 - i : i);
      t.MarkUsed(base + 4 * w + (i & 3), 1);
      words.insert(base / 4 + w);
    }
    full |= step == 1 && n > kSegment / 4;
  }
  std::ostringstream os;
  t.WriteUseProfile(os);
  PBT_ASSERT(os.str() == Profile(words), "profile is\n" << os.str().substr(0, 400)
                                                        << "oracle says\n"
                                                        << Profile(words).substr(0, 400));
  ctx.nontrivial_if(full);
}
