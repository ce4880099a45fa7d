// C29: the ELF program loader.
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>

#include "absl/status/status.h"
#include "elf_common.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT
using mpact::sim::util::ElfProgramLoader;
using mpact::sim::util::MemoryDescriptor;
using mpact::sim::util::MemoryInterface;

namespace {

// The bytes of a memory which are not zero.
using Image = std::map<uint64_t, uint8_t>;
void Put(Image& m, uint64_t a, uint8_t b) {
  if (b == 0) {
    m.erase(a);
  } else {
    m[a] = b;
  }
}

class Memory : public MemoryInterface {
 public:
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override { loads++; }
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override {
    loads++;
  }
  void Store(uint64_t a, DataBuffer* db) override {
    auto p = static_cast<uint8_t*>(db->raw_ptr());
    for (int i = 0; i < db->size<uint8_t>(); i++) Put(image, a + i, p[i]);
  }
  void Store(DataBuffer* address, DataBuffer* mask, int el, DataBuffer* db) override {
    auto p = static_cast<uint8_t*>(db->raw_ptr());
    auto a = address->Get<uint64_t>();
    auto m = mask->Get<bool>();
    for (size_t i = 0; i < m.size(); i++) {
      uint64_t base = a.size() == 1 ? a[0] + i * el : a[i];
      for (int j = 0; j < el && m[i]; j++) Put(image, base + j, p[i * el + j]);
    }
  }
  Image image;
  int loads = 0;
};

class Core : public CoreDebugInterface {
 public:
  absl::Status No() { return absl::UnimplementedError("no"); }
  absl::Status Halt() override { return No(); }
  absl::Status Halt(HaltReason) override { return No(); }
  absl::Status Halt(HaltReasonValueType) override { return No(); }
  absl::StatusOr<int> Step(int) override { return No(); }
  absl::Status Run() override { return No(); }
  absl::Status Wait() override { return No(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { return No(); }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return No(); }
  absl::StatusOr<uint64_t> ReadRegister(const std::string&) override { return No(); }
  absl::Status WriteRegister(const std::string&, uint64_t) override { return No(); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string&) override { return No(); }
  absl::StatusOr<size_t> ReadMemory(uint64_t, void*, size_t) override { return No(); }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* buf, size_t n) override {
    if (writes_left == 0) {
      hit = true;
      if (error) return absl::InternalError("refused");
      n = n / 2;  // A partial write.
    } else {
      writes_left--;
    }
    auto p = static_cast<const uint8_t*>(buf);
    for (size_t i = 0; i < n; i++) Put(image, a + i, p[i]);
    return n;
  }
  bool HasBreakpoint(uint64_t) override { return false; }
  absl::Status SetSwBreakpoint(uint64_t) override { return No(); }
  absl::Status ClearSwBreakpoint(uint64_t) override { return No(); }
  absl::Status ClearAllSwBreakpoints() override { return No(); }
  absl::Status SetDataWatchpoint(uint64_t, size_t, AccessType) override { return No(); }
  absl::Status ClearDataWatchpoint(uint64_t, AccessType) override { return No(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return No(); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return No(); }
  Image image;
  int writes_left = 1 << 30;
  bool error = false, hit = false;
};

constexpr uint32_t kStack = 0x6474e551;
const char* const kNames[] = {"main", "_start", "foo", "bar", "tohost", "baz", "x", "loop"};

elfgen::File DrawFile(pbt::Src& src, uint64_t scale) {
  elfgen::File f;
  f.is64 = !src.chance(30);
  f.msb = src.chance(25);
  uint64_t mask = f.is64 ? ~0ull : 0xffffffffull;
  f.entry = src.interesting() & mask;
  uint64_t base = src.pick<uint64_t>({0, 0x1000, 0x10000, 0x7fff0000, 0x80000000});
  if (f.is64 && src.chance(15)) base = 0xffffffff80000000ull;
  uint64_t at = base;
  int n = src.range(0, 5);
  bool stack = false;
  for (int i = 0; i < n; i++) {
    elfgen::Seg s;
    switch (src.weighted({8, 1, 1})) {
      case 0:
        s.type = 1;
        break;
      case 1:
        s.type = src.pick<uint32_t>({0, 2, 4, 6, 7, 0x6474e550, 0x6474e552, 0x70000003});
        break;
      default:
        s.type = stack ? 1 : kStack;
        stack = true;
        break;
    }
    s.flags = src.range(0, 7);
    uint64_t size = src.weighted({6, 2}) == 0 ? src.range(0, 24) : src.range(0, 300);
    if (src.chance(10)) size = 0;
    if (s.type == kStack) {
      s.memsz = src.pick<uint64_t>({0, 1, 0x1000, 0x7fffffff, src.draw(1 << 20)});
      if (src.chance(30)) s.data = std::string(src.range(1, 8), 'S');
      s.vaddr = at;
    } else {
      for (uint64_t k = 0; k < size; k++) s.data += static_cast<char>(src.draw(256));
      s.memsz = size + (src.chance(30) ? src.range(1, 64) : 0);
      at += src.chance(50) ? 0 : src.range(1, 600);
      switch (src.weighted({2, 2, 2})) {
        case 0:
          s.vaddr = at;
          s.paddr = 0;
          break;
        case 1:
          s.vaddr = s.paddr = at;
          break;
        default:
          s.paddr = at;
          s.vaddr = src.chance(30) ? 0 : src.u64() & mask & ~0xfffull;
          break;
      }
      at += s.memsz;
    }
    f.segs.push_back(s);
  }
  if (src.chance(20)) std::reverse(f.segs.begin(), f.segs.end());
  int tables = src.weighted({1, 6, 1});
  uint64_t text = f.is64 && src.chance(20) ? 0xffffffff80000000ull : src.pick<uint64_t>({0, 0x1000, 0x80000000});
  for (int t = 0; t < tables; t++) {
    std::vector<elfgen::Sym> table;
    int m = src.range(0, 8);
    uint64_t cur = text;
    for (int i = 0; i < m; i++) {
      elfgen::Sym y;
      y.name = kNames[src.draw(8)];
      y.type = src.weighted({2, 2, 6});  // none, object, function
      y.bind = src.range(0, 2);
      y.size = (src.chance(20) ? 0 : src.range(1, 12)) * scale;
      switch (src.weighted({6, 3, 1})) {
        case 0:  // After the one before.
          y.value = cur + (src.chance(60) ? 0 : src.range(0, 8));
          cur = y.value + y.size / scale;
          break;
        case 1:  // Near, maybe inside another.
          y.value = text + src.range(0, 40);
          break;
        default:
          y.value = (src.u64() & mask) >> 1;
          break;
      }
      table.push_back(y);
    }
    // A symbol table has its local symbols first.
    std::stable_partition(table.begin(), table.end(), [](auto& y) { return y.bind == 0; });
    f.symtabs.push_back(table);
  }
  return f;
}

std::string Show(const Image& m) {
  std::string s;
  int n = 0;
  for (auto& [a, b] : m) {
    if (n++ == 40) return s + "...";
    s += pbt::hex(a) + ":" + pbt::hex(b) + " ";
  }
  return s;
}

PBT_SUITE(elf_loader,
          "at least one file with a loadable segment or a function symbol was loaded, and queried",
          6000, 600000) {
  uint64_t scale = src.chance(15) ? src.range(2, 4) : 1;
  // The destinations.
  int kind = src.weighted({3, 3, 4, 3});
  std::vector<std::unique_ptr<Memory>> mems;
  for (int i = 0; i < 3; i++) mems.push_back(std::make_unique<Memory>());
  std::vector<Image> want(3);
  Core core;
  Image want_core;
  std::vector<MemoryDescriptor> desc;
  struct Route {
    int mem, pred;
    uint64_t limit, offset;
    bool shift;
    bool Takes(uint32_t flags, uint64_t vaddr) const {
      switch (pred) {
        case 0: return (flags & 1) != 0;
        case 1: return (flags & 1) == 0;
        case 2: return (flags & 2) != 0;
        case 3: return vaddr >= limit;
        case 4: return false;
        default: return true;
      }
    }
  };
  std::vector<Route> routes;
  std::unique_ptr<ElfProgramLoader> loader;
  switch (kind) {
    case 0:
      ctx.label("one memory");
      loader = std::make_unique<ElfProgramLoader>(mems[0].get());
      break;
    case 1:
      ctx.label("code and data memories");
      loader = std::make_unique<ElfProgramLoader>(mems[0].get(), mems[1].get());
      break;
    case 2: {
      ctx.label("memory descriptors");
      int n = src.range(0, 4);
      for (int i = 0; i < n; i++) {
        Route r;
        r.mem = src.draw(3);
        r.pred = src.draw(6);
        r.limit = src.pick<uint64_t>({0x1000, 0x10000, 0x80000000});
        r.offset = src.chance(50) ? 0 : src.pick<uint64_t>({0x100000000ull, 0x40000000000ull});
        routes.push_back(r);
        MemoryDescriptor d;
        d.memory = mems[r.mem].get();
        d.predicate_fcn = [r](const ELFIO::segment& s) {
          return r.Takes(s.get_flags(), s.get_virtual_address());
        };
        if (r.offset != 0) d.address_fcn = [r](uint64_t a) { return a ^ r.offset; };
        desc.push_back(std::move(d));
        ctx.log("descriptor: memory ", r.mem, " predicate ", r.pred, " limit ", pbt::hex(r.limit),
                " address ^ ", pbt::hex(r.offset));
      }
      loader = std::make_unique<ElfProgramLoader>(desc);
      break;
    }
    default:
      ctx.label("debug interface");
      loader = std::make_unique<ElfProgramLoader>(static_cast<CoreDebugInterface*>(&core));
      break;
  }
  if (scale != 1) loader->set_text_size_scale(scale);
  ctx.log("destinations ", kind, ", text size scale ", scale);

  std::optional<elfgen::File> current;
  bool known = true;  // What the loader has been told is known.
  std::set<uint64_t> stacks;
  bool no_stack = true;
  bool loaded_something = false, queried = false;
  std::string path = pbt::scratch_dir() + "/prog.elf";
  int loads = 0;
  int steps = src.range(2, 10);
  for (int step = 0; step < steps; step++) {
    int op = src.weighted({step == 0 ? 2 : 1, step == 0 ? 8 : 2, 1, 8});
    if (op <= 1) {
      auto f = DrawFile(src, scale);
      elfgen::WriteFile(path, f.Bytes());
      if (ctx.logging()) {
        ctx.log(op == 0 ? "LoadSymbols" : "LoadProgram", f.is64 ? " 64 bits" : " 32 bits",
                f.msb ? " big endian" : " little endian", " entry ", pbt::hex(f.entry));
        for (auto& s : f.segs) {
          ctx.log("  segment type ", pbt::hex(s.type), " flags ", s.flags, " vaddr ",
                  pbt::hex(s.vaddr), " paddr ", pbt::hex(s.paddr), " size ", s.data.size(),
                  " memory ", s.memsz);
        }
        for (auto& t : f.symtabs) {
          ctx.log("  symbol table");
          for (auto& y : t) {
            ctx.log("    ", y.name, " type ", y.type, " bind ", y.bind, " value ", pbt::hex(y.value),
                    " size ", y.size);
          }
        }
      }
      loads++;
      if (loads > 1) ctx.label("loads again");
      bool partial = false;
      if (kind == 3 && op == 1 && src.chance(20)) {
        core.writes_left = src.draw(4);
        core.error = src.flip();
        partial = true;
      }
      auto res = op == 0 ? loader->LoadSymbols(path) : loader->LoadProgram(path);
      current = f;
      known = true;
      for (auto& t : f.symtabs) {
        for (auto& y : t) loaded_something |= y.type == 2;
      }
      if (op == 0) {
        PBT_ASSERT(res.ok());
        PBT_EQ(*res, f.entry);
        for (auto& s : f.segs) {
          if (s.type == kStack && s.memsz > 0) stacks.insert(s.memsz);
        }
        no_stack = true;
      } else {
        stacks.clear();
        no_stack = true;
        for (auto& s : f.segs) {
          if (s.type == kStack && s.memsz > 0) {
            stacks.insert(s.memsz);
            no_stack = false;
          }
          if (s.type != 1 || s.data.empty()) continue;
          loaded_something = true;
          uint64_t to = s.paddr != 0 ? s.paddr : s.vaddr;
          Image* image = nullptr;
          if (kind == 3) {
            image = &want_core;
          } else if (kind == 2) {
            for (auto& r : routes) {
              if (!r.Takes(s.flags, s.vaddr)) continue;
              image = &want[r.mem];
              to ^= r.offset;
              break;
            }
            if (image == nullptr) ctx.label("segment with no memory");
          } else {
            image = &want[kind == 1 && (s.flags & 1) == 0 ? 1 : 0];
          }
          if (image == nullptr) continue;
          for (size_t i = 0; i < s.data.size(); i++) Put(*image, to + i, s.data[i]);
        }
        if (partial && core.hit) {
          ctx.label("failed write");
          PBT_ASSERT(!res.ok());
          core.hit = false;
          want_core = core.image;
          no_stack = true;
        } else {
          PBT_ASSERT(res.ok());
          PBT_EQ(*res, f.entry);
        }
        core.writes_left = 1 << 30;
      }
      for (int i = 0; i < 3; i++) {
        if (mems[i]->image != want[i]) {
          pbt::fail("memory " + std::to_string(i) + " holds " + Show(mems[i]->image) + " not " +
                    Show(want[i]));
        }
        PBT_EQ(mems[i]->loads, 0);
      }
      if (core.image != want_core) {
        pbt::fail("the core was written " + Show(core.image) + " not " + Show(want_core));
      }
    } else if (op == 2) {
      // A file which cannot be loaded.
      std::string bad = pbt::scratch_dir() + "/bad.elf";
      int how = src.draw(4);
      ctx.log("load of a bad file, kind ", how);
      ctx.label("bad file");
      std::string bytes = DrawFile(src, 1).Bytes();
      if (how == 0) {
        bad = pbt::scratch_dir() + "/no/such/file";
      } else if (how == 1) {
        bytes = "";
      } else if (how == 2) {
        bytes[src.draw(4)] ^= 1 << src.draw(8);
      } else {
        bytes.resize(src.draw(40));
      }
      if (how != 0) elfgen::WriteFile(bad, bytes);
      auto res = src.flip() ? loader->LoadSymbols(bad) : loader->LoadProgram(bad);
      PBT_ASSERT(!res.ok());
      if (how == 0) {
        PBT_ASSERT(absl::IsNotFound(res.status()));
      } else {
        PBT_ASSERT(absl::IsInternal(res.status()));
      }
      if (current.has_value()) known = false;
      no_stack = true;
      for (int i = 0; i < 3; i++) PBT_ASSERT(mems[i]->image == want[i]);
      PBT_ASSERT(core.image == want_core);
    } else {
      std::string name = src.chance(80) ? kNames[src.draw(8)] : "absent";
      uint64_t addr = src.interesting();
      std::vector<elfgen::Sym> all;
      if (current.has_value()) {
        for (auto& t : current->symtabs) all.insert(all.end(), t.begin(), t.end());
      }
      if (!all.empty() && src.chance(85)) {
        auto& y = all[src.draw(all.size())];
        addr = y.value + src.range(0, 3) * (src.flip() ? 1 : -1);
        if (src.chance(30)) addr = y.value;
        if (src.chance(30)) addr = y.value + y.size / scale - src.range(0, 1);
      }
      ctx.log("query ", name, ", ", pbt::hex(addr));
      auto sym = loader->GetSymbol(name);
      auto at = loader->GetFcnSymbolName(addr);
      auto in = loader->GetFunctionName(addr);
      auto stack = loader->GetStackSize();
      if (stack.ok()) {
        PBT_ASSERT(stacks.count(*stack) == 1);
      } else {
        PBT_ASSERT(absl::IsNotFound(stack.status()));
        PBT_ASSERT(no_stack);
      }
      if (!current.has_value()) {
        PBT_ASSERT(absl::IsInternal(sym.status()));
        PBT_ASSERT(absl::IsInternal(at.status()));
        PBT_ASSERT(absl::IsInternal(in.status()));
        continue;
      }
      queried = true;
      std::set<std::pair<uint64_t, uint64_t>> syms;
      std::set<std::string> ats, ins;
      for (auto& y : all) {
        if (y.name == name) syms.insert({y.value, y.size});
        if (y.type != 2) continue;
        if (y.value == addr) ats.insert(y.name);
        if (addr >= y.value && addr - y.value < y.size / scale) ins.insert(y.name);
      }
      if (ins.size() > 1) ctx.label("address in several functions");
      if (!ins.empty()) ctx.label("address in a function");
      if (!ats.empty()) ctx.label("start of a function");
      // After a failed load what was there may be forgotten.
      if (sym.ok()) {
        PBT_ASSERT(syms.count(*sym) == 1);
      } else if (known) {
        PBT_ASSERT(absl::IsNotFound(sym.status()));
        PBT_ASSERT(syms.empty());
      }
      if (at.ok()) {
        if (ats.count(*at) == 0) pbt::fail("GetFcnSymbolName gave " + *at);
      } else if (known) {
        PBT_ASSERT(absl::IsNotFound(at.status()));
        PBT_ASSERT(ats.empty());
      }
      if (in.ok()) {
        if (ins.count(*in) == 0) pbt::fail("GetFunctionName gave " + *in);
      } else if (known) {
        PBT_ASSERT(absl::IsNotFound(in.status()));
        if (!ins.empty()) pbt::fail("GetFunctionName found nothing, not " + *ins.begin());
      }
    }
  }
  ctx.nontrivial_if(loaded_something && queried);
}

}  // namespace
