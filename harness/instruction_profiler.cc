// C30: the instruction profiler.
#include <algorithm>
#include <map>
#include <memory>
#include <sstream>

#include "absl/log/log.h"
#include "elf_common.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/other/instruction_profiler.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT
using mpact::sim::util::ElfProgramLoader;
using mpact::sim::util::InstructionProfiler;
using mpact::sim::util::MemoryInterface;

namespace {

class NoMemory : public MemoryInterface {
 public:
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Store(uint64_t, DataBuffer*) override {}
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override {}
};

using Profile = std::map<uint64_t, uint64_t>;

// Reads the written profile.  The lines are those of a csv file, by address.
Profile Parse(const std::string& text) {
  std::istringstream is(text);
  std::string line;
  PBT_ASSERT(std::getline(is, line) && line == "Address,Count");
  Profile p;
  bool first = true;
  uint64_t last = 0;
  while (std::getline(is, line)) {
    unsigned long long a = 0, n = 0;
    char extra = 0;
    if (sscanf(line.c_str(), "0x%llx,%llu%c", &a, &n, &extra) != 2) {
      pbt::fail("line of the profile: " + line);
    }
    if (!first && a <= last) pbt::fail("profile not in order at " + line);
    first = false;
    last = a;
    if (n == 0) pbt::fail("profile shows no samples: " + line);
    p[a] = n;
  }
  return p;
}

PBT_SUITE(instruction_profiler,
          "samples inside two or more buckets of the executable segments were counted", 12000,
          1000000) {
  unsigned shift = src.weighted({2, 3, 4, 1, 1});
  unsigned granularity = 1u << shift;
  bool late = src.chance(30);
  // The executable segments, in the order of their addresses.
  elfgen::File f;
  f.is64 = src.chance(70);
  struct Range {
    uint64_t begin, end;  // in bytes
  };
  std::vector<Range> ranges;
  uint64_t at = src.pick<uint64_t>({0, 0x1000, 0x10000, 0x80000000, 0x7ffff000});
  if (f.is64 && src.chance(10)) at = 0xffffffff80000000ull;
  int n = src.weighted({1, 6, 6, 4, 2});
  bool aligned = !src.chance(20);
  for (int i = 0; i < n; i++) {
    elfgen::Seg s;
    if (i > 0) {
      uint64_t gap = src.range(0, 40);
      switch (src.weighted({3, 3, 2})) {
        case 0:
          break;
        case 1:
          gap = 0x1000 + src.range(-3, 3);
          break;
        default:
          gap = 0x1000 + src.draw(0x4000);
          break;
      }
      at += gap << shift;
    }
    if (!aligned) at += src.draw(granularity);
    uint64_t size = src.chance(15) ? src.draw(3) : src.range(1, 60);
    size <<= shift;
    if (!aligned) size += src.draw(granularity);
    s.vaddr = at;
    s.paddr = at;
    s.memsz = size;
    s.data = std::string(src.chance(80) ? size : src.draw(size + 1), '\1');
    int kind = src.weighted({8, 2, 1});
    s.flags = kind == 1 ? src.pick<uint32_t>({4, 6, 2}) : src.pick<uint32_t>({5, 7, 1});
    s.type = kind == 2 ? 4 : 1;
    f.segs.push_back(s);
    at += size;
    if (kind == 0 && size > 0) ranges.push_back({s.vaddr, s.vaddr + size});
    ctx.log("segment at ", pbt::hex(s.vaddr), " size ", size, " flags ", s.flags, " type ",
            s.type);
  }
  std::string path = pbt::scratch_dir() + "/profiled.elf";
  elfgen::WriteFile(path, f.Bytes());
  NoMemory mem;
  ElfProgramLoader loader(&mem);
  ctx.log("granularity ", granularity, late ? ", the ELF loader is set later" : "");
  std::unique_ptr<InstructionProfiler> prof;
  // The counter gives its value to the profiler whenever it changes.
  SimpleCounter<uint64_t> pc("pc", 0);
  if (late) {
    prof = std::make_unique<InstructionProfiler>(granularity);
    if (src.flip()) prof->SetValue(src.interesting());
    PBT_ASSERT(loader.LoadProgram(path).ok());
    prof->SetElfLoader(&loader);
  } else {
    PBT_ASSERT(loader.LoadProgram(path).ok());
    prof = std::make_unique<InstructionProfiler>(loader, granularity);
  }
  bool counter = src.flip();
  if (counter) pc.AddListener(prof.get());

  // must: samples inside the segments.  may: those which a profiler that joins
  // segments closer than 0x1000 buckets may also count.
  Profile must, may;
  auto sample = [&](uint64_t v) {
    if (counter) {
      pc.SetValue(v);
    } else {
      prof->SetValue(v);
    }
    uint64_t b = v >> shift;
    bool in = false, near = false;
    for (size_t i = 0; i < ranges.size(); i++) {
      auto& r = ranges[i];
      // Buckets which are not wholly part of a segment may count.
      in |= b >= (r.begin + granularity - 1) >> shift && b < r.end >> shift &&
            (aligned || (r.begin >> shift << shift) == r.begin);
      near |= v >> shift >= r.begin >> shift && b <= (r.end - 1) >> shift;
      if (i + 1 < ranges.size()) {
        uint64_t next = ranges[i + 1].begin >> shift;
        near |= b >= (r.end - 1) >> shift && b <= next && next - (r.end >> shift) <= 0x1002;
      }
    }
    ctx.log("sample ", pbt::hex(v), in ? " inside" : near ? " near" : " outside");
    if (in) {
      must[b << shift]++;
    } else if (near) {
      may[b << shift]++;
      ctx.label("sample near the segments");
    } else {
      ctx.label("sample outside of the segments");
    }
  };
  auto check = [&] {
    std::ostringstream os;
    prof->WriteProfile(os);
    Profile got = Parse(os.str());
    for (auto& [a, c] : must) {
      uint64_t extra = may.count(a) ? may[a] : 0;
      uint64_t g = got.count(a) ? got[a] : 0;
      if (g != c && g != c + extra) {
        pbt::fail("bucket " + pbt::hex(a) + " counts " + std::to_string(g) + ", not " +
                  std::to_string(c));
      }
    }
    for (auto& [a, c] : got) {
      if (must.count(a)) continue;
      if (may.count(a) && c == may[a]) continue;
      pbt::fail("bucket " + pbt::hex(a) + " counts " + std::to_string(c) + " samples of none");
    }
  };
  int steps = src.weighted({3, 1}) == 0 ? src.range(1, 20) : src.range(20, 120);
  uint64_t last = 0;
  for (int i = 0; i < steps; i++) {
    uint64_t v;
    switch (src.weighted({4, 8, 4, 2, 1})) {
      case 0:  // The next instruction.
        v = last + granularity;
        break;
      case 1:  // Inside a segment.
        if (ranges.empty()) {
          v = src.draw(0x1000);
        } else {
          auto& r = ranges[src.draw(ranges.size())];
          v = r.begin + src.draw(r.end - r.begin);
        }
        break;
      case 2:  // At an end of a segment.
        if (ranges.empty()) {
          v = src.interesting();
        } else {
          auto& r = ranges[src.draw(ranges.size())];
          v = (src.flip() ? r.begin : r.end) + (src.range(-2, 2) << shift);
        }
        break;
      case 3:
        v = src.interesting();
        break;
      default:
        v = ~0ull - src.draw(4);
        break;
    }
    last = v;
    int times = src.chance(10) ? src.range(2, 5) : 1;
    while (times-- > 0) sample(v);
    if (src.chance(5)) check();
  }
  check();
  if (ranges.size() > 1) ctx.label("several segments");
  if (must.size() > 1) ctx.label("several buckets");
  ctx.nontrivial_if(must.size() > 1);
}

PBT_SUITE(granularity, "the granularity is not a power of two", 40, 400) {
  unsigned g = src.chance(50) ? 1u << src.draw(16) : src.range(3, 100);
  bool power = (g & (g - 1)) == 0;
  ctx.log("granularity ", g);
  int errors = absl::verif_log::counts().error;
  InstructionProfiler prof(g);
  PBT_EQ(absl::verif_log::counts().error > errors, !power);
  std::ostringstream os;
  prof.SetValue(src.interesting());
  prof.WriteProfile(os);
  PBT_EQ(os.str(), "Address,Count\n");
  ctx.nontrivial_if(!power);
}

}  // namespace
