// C33: the C interface used by Renode.
#include <sys/stat.h>

#include <fstream>
#include <limits>
#include <map>
#include <set>

#include "absl/status/status.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/util/renode/renode_debug_interface.h"
#include "mpact/sim/util/renode/renode_memory_access.h"
#include "mpact/sim/util/renode/renode_mpact.h"
#include "pbt.h"

using namespace mpact::sim::generic;       // NOLINT
using namespace mpact::sim::util::renode;  // NOLINT
using mpact::sim::util::MemoryInterface;

namespace {

using Reason = CoreDebugInterface::HaltReason;

// The simulators which exist.
struct Sim;
struct Sims {
  std::set<Sim*> live;
  Sim* last = nullptr;
  bool refuse = false;
  int created = 0;
};
Sims* sims = nullptr;

// What a simulator is to answer next.
struct Sim : public RenodeDebugInterface {
  std::string name, cpu;
  MemoryInterface* memory;
  std::map<uint32_t, uint64_t> regs;
  std::map<uint64_t, uint8_t> mem;
  uint64_t accepts = ~0ull;  // Bytes of memory accepted at a time.
  bool fail = false;
  std::string call;  // The last call.
  uint64_t executed = 0;
  uint64_t stop_at = ~0ull;
  Reason stop_reason = Reason::kNone, reason = Reason::kNone;
  bool reason_fails = false;
  int fail_step = -1, steps = 0;
  uint64_t short_at = ~0ull;

  Sim(std::string n, std::string c, MemoryInterface* m)
      : name(std::move(n)), cpu(std::move(c)), memory(m) {
    sims->live.insert(this);
    sims->last = this;
    sims->created++;
  }
  ~Sim() override { sims->live.erase(this); }
  absl::Status St() { return fail ? absl::Status(absl::InternalError("no")) : absl::OkStatus(); }

  absl::StatusOr<uint64_t> LoadExecutable(const char* file, bool symbols) override {
    call = std::string("load ") + file + (symbols ? " symbols" : "");
    if (fail) return absl::NotFoundError("file");
    return 0x8000000000000000ull + strlen(file);
  }
  absl::StatusOr<uint64_t> ReadRegister(uint32_t id) override {
    call = "read reg";
    if (fail || regs.count(id) == 0) return absl::NotFoundError("reg");
    return regs[id];
  }
  absl::Status WriteRegister(uint32_t id, uint64_t v) override {
    call = "write reg";
    if (fail) return absl::NotFoundError("reg");
    regs[id] = v;
    return absl::OkStatus();
  }
  int32_t GetRenodeRegisterInfoSize() const override { return regs.size(); }
  absl::Status GetRenodeRegisterInfo(int32_t index, int32_t max_len, char* n,
                                     RenodeCpuRegister& info) override {
    call = "reg info";
    if (fail || index < 0) return absl::NotFoundError("reg");
    std::string s = "register_number_" + std::to_string(index);
    strncpy(n, s.c_str(), max_len);  // Fills up the rest.
    info.index = index;
    info.width = 64;
    info.is_general = index % 2 == 0;
    info.is_read_only = index % 3 == 0;
    return absl::OkStatus();
  }
  absl::Status SetConfig(const char* names[], const char* values[], int size) override {
    call = "config";
    for (int i = 0; i < size; i++) call += std::string(" ") + names[i] + "=" + values[i];
    return St();
  }
  absl::Status SetIrqValue(int32_t irq, bool value) override {
    call = "irq " + std::to_string(irq) + (value ? " on" : " off");
    return St();
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* buf, size_t n) override {
    call = "read mem";
    if (fail) return absl::InternalError("mem");
    if (n > accepts) n = accepts;
    for (size_t i = 0; i < n; i++) {
      auto it = mem.find(a + i);
      static_cast<uint8_t*>(buf)[i] = it == mem.end() ? 0 : it->second;
    }
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* buf, size_t n) override {
    call = "write mem";
    if (fail) return absl::InternalError("mem");
    if (n > accepts) n = accepts;
    for (size_t i = 0; i < n; i++) mem[a + i] = static_cast<const uint8_t*>(buf)[i];
    return n;
  }
  absl::StatusOr<int> Step(int n) override {
    call = "step";
    if (n <= 0) pbt::fail("step of " + std::to_string(n));
    if (++steps == fail_step) return absl::InternalError("step");
    reason = Reason::kNone;
    uint64_t k = n;
    if (executed + k > short_at) k = short_at > executed ? short_at - executed : 0;
    if (stop_at > executed && executed + k >= stop_at) {
      k = stop_at - executed;
      reason = stop_reason;
    }
    executed += k;
    return static_cast<int>(k);
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    if (reason_fails) return absl::InternalError("reason");
    return static_cast<HaltReasonValueType>(reason);
  }
};

// The callbacks of Renode: they count their calls.
int reads[3], writes[3];
template <int N>
int32_t ReadFn(uint64_t, char* b, int32_t n) {
  reads[N]++;
  memset(b, N + 1, n);
  return n;
}
template <int N>
int32_t WriteFn(uint64_t, char*, int32_t n) {
  writes[N]++;
  return n;
}
using Fn = int32_t (*)(uint64_t, char*, int32_t);
const Fn kRead[] = {ReadFn<0>, ReadFn<1>, ReadFn<2>};
const Fn kWrite[] = {WriteFn<0>, WriteFn<1>, WriteFn<2>};

struct Instance {
  Sim* sim;
  int max_len;
  int read_fn, write_fn;  // -1: none
};

}  // namespace

extern RenodeDebugInterface* CreateMpactSim(std::string name, std::string cpu, MemoryInterface* m);
RenodeDebugInterface* CreateMpactSim(std::string name, std::string cpu, MemoryInterface* m) {
  if (sims->refuse) return nullptr;
  return new Sim(name, cpu, m);
}

namespace {

PBT_SUITE(renode_agent, "two instances existed at a time, and were stepped or accessed by id", 12000,
          1000000) {
  Sims all;
  sims = &all;
  std::map<int, Instance> live;
  std::vector<int> dead;
  char cpu[] = "cpu.x";
  // Ids are relative to the count that the interface keeps.
  int base = construct(cpu, 1);
  PBT_ASSERT(base >= 0);
  destruct(base);
  PBT_ASSERT(all.live.empty());
  base++;
  DataBufferFactory factory;
  std::string dir = pbt::scratch_dir();
  bool two = false, used = false;
  int ops = src.range(4, 30);
  auto check_fns = [&](int id) {
    Instance& in = live[id];
    auto* db = factory.Allocate<uint8_t>(8);
    db->set_latency(0);
    int r[3], w[3];
    memcpy(r, reads, sizeof r);
    memcpy(w, writes, sizeof w);
    in.sim->memory->Load(0x10, db, nullptr, nullptr);
    for (int i = 0; i < 3; i++) PBT_EQ(reads[i] - r[i], in.read_fn == i ? 1 : 0, "read callback");
    PBT_EQ(static_cast<int>(db->Get<uint8_t>(7)), in.read_fn + 1, "data read");
    in.sim->memory->Store(0x10, db);
    for (int i = 0; i < 3; i++) PBT_EQ(writes[i] - w[i], in.write_fn == i ? 1 : 0, "write callback");
    db->DecRef();
  };
  for (int o = 0; o < ops; o++) {
    // An id: mostly one that exists.
    int id;
    int kind = src.weighted({12, 2, 2, 1});
    if (kind == 0 && !live.empty()) {
      auto it = live.begin();
      std::advance(it, src.draw(live.size()));
      id = it->first;
    } else if (kind == 1 && !dead.empty()) {
      id = dead[src.draw(dead.size())];
    } else if (kind == 3) {
      id = src.pick<int>({-1, -7, 1 << 30, std::numeric_limits<int>::max()});
    } else {
      id = base + src.draw(6);
    }
    auto it = live.find(id);
    Sim* sim = it == live.end() ? nullptr : it->second.sim;
    int op = src.weighted({4, 3, 2, 2, 3, 3, 2, 2, 6, 2, 2, 2, 1});
    if (op > 2 && sim != nullptr) {
      sim->fail = src.chance(10);
      sim->call.clear();
    }
    bool fail = sim == nullptr || sim->fail;
    if (ctx.logging()) {
      ctx.log("op ", op, ", id base+", id - base, sim == nullptr ? " (none)" : "",
              fail && sim != nullptr ? " (refuses)" : "");
    }
    std::map<Sim*, std::string> calls;
    switch (op) {
      case 0:
      case 1: {
        int r = src.range(-1, 2), w = src.range(-1, 2);
        int len = src.range(1, 30);
        all.refuse = src.chance(8);
        int created = all.created;
        bool bus = (r >= 0 || w >= 0) || src.flip();
        int got;
        if (op == 0) {
          got = bus ? construct_with_sysbus(cpu, len, r < 0 ? nullptr : kRead[r], w < 0 ? nullptr : kWrite[w])
                    : construct(cpu, len);
        } else {
          if (id < 0) id = base + src.draw(3);
          sim = live.count(id) ? live[id].sim : nullptr;
          got = bus ? connect_with_sysbus(cpu, id, len, r < 0 ? nullptr : kRead[r],
                                          w < 0 ? nullptr : kWrite[w])
                    : connect(cpu, id, len);
        }
        if (ctx.logging()) ctx.log(op == 0 ? "  construct" : "  connect", ": base+", got - base);
        if (op == 1 && sim != nullptr) {
          // One that exists: what is missing is added.
          PBT_EQ(got, id);
          PBT_EQ(all.created, created, "simulators created by connect");
          if (live[id].read_fn < 0) live[id].read_fn = r;
          if (live[id].write_fn < 0) live[id].write_fn = w;
          check_fns(id);
          ctx.label("connected to an instance");
        } else if (all.refuse) {
          PBT_ASSERT(got <= 0);
          PBT_EQ(all.created, created);
        } else {
          PBT_EQ(all.created, created + 1, "simulators created");
          PBT_ASSERT(got >= 0);
          if (op == 1) PBT_EQ(got, id, "id of connect");
          PBT_ASSERT(live.count(got) == 0, "the id of another instance is returned");
          for (auto& [other, in] : live) {
            PBT_ASSERT(in.sim->name != all.last->name, "two instances have the name " + in.sim->name);
          }
          PBT_EQ(all.last->cpu, std::string(cpu));
          live[got] = {all.last, len, r, w};
          for (uint32_t i = src.draw(4); i > 0; i--) all.last->regs[src.draw(5)] = i;
          check_fns(got);
          two |= live.size() > 1;
        }
        all.refuse = false;
        break;
      }
      case 2: {
        destruct(id);
        if (sim != nullptr) {
          PBT_ASSERT(all.live.count(sim) == 0, "the simulator is not deleted");
          live.erase(id);
          dead.push_back(id);
        }
        break;
      }
      case 3: PBT_EQ(reset(id), sim == nullptr ? -1 : 0); break;
      case 4: {
        PBT_EQ(get_reg_info_size(id), sim == nullptr ? -1 : static_cast<int>(sim->regs.size()));
        int index = src.range(-1, 5);
        // As large as was told when the instance was made.
        std::vector<char> name(sim == nullptr ? 1 : it->second.max_len);
        RenodeCpuRegister info{-9, -9, false, false};
        int res = get_reg_info(id, index, name.data(), src.chance(10) ? nullptr : &info);
        if (info.index == -9) {
          PBT_EQ(res, -1);
        } else {
          PBT_ASSERT(!fail && index >= 0);
          PBT_EQ(res, 0);
          PBT_EQ(info.index, index);
          std::string want = "register_number_" + std::to_string(index);
          want.resize(name.size());
          PBT_ASSERT(std::string(name.begin(), name.end()) == want, "name of the register");
        }
        break;
      }
      case 5: {
        uint32_t reg = src.draw(5);
        uint64_t v = src.u64(), got = 0x77;
        if (src.flip()) {
          int res = write_register(id, reg, v);
          PBT_EQ(res, fail ? -1 : 0);
          if (!fail) PBT_EQ(sim->regs[reg], v);
        } else {
          bool known = !fail && sim->regs.count(reg) != 0;
          PBT_EQ(read_register(id, reg, &got), known ? 0 : -1);
          PBT_EQ(got, known ? sim->regs[reg] : 0x77, "value read");
          PBT_EQ(read_register(id, reg, nullptr), -1);
        }
        used = true;
        break;
      }
      case 6: {
        uint64_t a = src.interesting();
        uint64_t n = src.draw(40);
        std::vector<char> b(n);
        for (auto& c : b) c = src.draw(256);
        if (sim != nullptr) sim->accepts = src.chance(80) ? ~0ull : src.draw(40);
        uint64_t want = fail ? 0 : std::min(n, sim->accepts);
        if (src.flip()) {
          PBT_EQ(write_memory(id, a, b.data(), n), want);
          for (uint64_t i = 0; i < want; i++) PBT_EQ(static_cast<char>(sim->mem[a + i]), b[i]);
        } else {
          PBT_EQ(read_memory(id, a, b.data(), n), want);
          for (uint64_t i = 0; i < want; i++) PBT_EQ(b[i], static_cast<char>(sim->mem[a + i]));
        }
        if (sim != nullptr) sim->accepts = ~0ull;
        used = true;
        break;
      }
      case 7: {
        bool symbols = src.flip();
        int32_t status = 99;
        std::string file = src.pick<std::string>({"a.elf", "/x/yy", ""});
        uint64_t entry = load_elf(id, file.c_str(), symbols, &status);
        PBT_EQ(status, fail ? -1 : 0);
        PBT_EQ(entry, fail ? 0 : 0x8000000000000000ull + file.size());
        if (sim != nullptr) PBT_EQ(sim->call, "load " + file + (symbols ? " symbols" : ""));
        break;
      }
      case 8: {
        // Runs of more than 2^31 instructions are made of several steps.
        uint64_t n = src.chance(8) ? 0
                     : src.chance(70) ? src.range(1, 100)
                                      : src.pick<uint64_t>({0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
                                                            0x100000000, 0x17fffffff, 0x234567890}) +
                                            src.draw(3);
        int32_t status = 99;
        bool ask = src.chance(85);
        uint64_t want = 0;
        int32_t want_status = 0;
        if (sim == nullptr) {
          want_status = -1;
        } else {
          sim->stop_at = sim->short_at = ~0ull;
          sim->stop_reason = Reason::kNone;
          sim->steps = 0;
          sim->fail_step = -1;
          sim->reason_fails = src.chance(4);
          uint64_t at = src.chance(50) ? n : src.chance(50) ? src.draw(n + 1) : 1 + src.draw(3);
          at = std::min(at, n);
          int how = src.weighted({5, 2, 2, 2, 1, 2});
          want = n;
          uint64_t start = sim->executed;
          bool semihost = sim->reason == Reason::kSemihostHaltRequest;
          if (how == 1 || how == 2 || how == 3) {
            sim->stop_reason = how == 1   ? Reason::kProgramDone
                               : how == 2 ? Reason::kSoftwareBreakpoint
                                          : Reason::kSemihostHaltRequest;
            sim->stop_at = start + at;
            if (at > 0) {
              want = at;
              want_status = how == 2 ? 3 : -1;
            }
          } else if (how == 4) {
            sim->fail_step = src.range(1, 3);
            uint64_t chunks = (n + 0x7ffffffe) / 0x7fffffff;
            if (static_cast<uint64_t>(sim->fail_step) <= chunks) {
              want = (sim->fail_step - 1) * 0x7fffffffull;
              want_status = -1;
            }
          } else if (how == 5) {
            sim->short_at = start + at;
            want = at;
          }
          if (n == 0) {
            want = 0;
            want_status = 0;
          } else if (sim->reason_fails || semihost) {
            want = 0;
            want_status = -1;
          }
          if (ctx.logging()) ctx.log("  step ", n, ", how ", how, " at ", at);
        }
        uint64_t got = step(id, n, ask ? &status : nullptr);
        PBT_EQ(got, want, "instructions stepped");
        if (ask) PBT_EQ(status, want_status, "status of step");
        if (sim != nullptr) {
          if (src.flip()) sim->reason = Reason::kNone;
          sim->reason_fails = false;
        }
        if (n > 0xffffffff) ctx.label("more than 2^32 instructions");
        used = true;
        break;
      }
      case 9: {
        std::string n1 = "n" + std::to_string(src.draw(9));
        const char* names[] = {n1.c_str(), "two"};
        const char* values[] = {"v", ""};
        int size = src.draw(3);
        PBT_EQ(set_config(id, names, values, size), fail ? -1 : 0);
        if (sim != nullptr) {
          PBT_EQ(sim->call, "config" + std::string(size > 0 ? " " + n1 + "=v" : "") +
                                (size > 1 ? " two=" : ""));
        }
        break;
      }
      case 10: {
        int irq = src.pick<int>({0, 1, 31, -1, 1 << 30});
        bool v = src.flip();
        PBT_EQ(set_irq_value(id, irq, v), fail ? -1 : 0);
        if (sim != nullptr) PBT_EQ(sim->call, "irq " + std::to_string(irq) + (v ? " on" : " off"));
        break;
      }
      case 11: {
        // An image; the interface copies it by blocks.
        size_t n = src.chance(93) ? src.draw(300)
                                  : src.pick<size_t>({65535, 65536, 65537, 131072, 131073, 200000});
        std::string file = dir + "/image";
        bool exists = src.chance(85), directory = src.chance(5);
        std::string data(n, '\0');
        uint64_t seed = src.u64();
        for (size_t i = 0; i < n; i++) data[i] = (seed = seed * 6364136223846793005ull + 1442695040888963407ull) >> 56;
        if (exists) std::ofstream(file, std::ios::binary) << data;
        uint64_t a = src.pick<uint64_t>({0, 0x1000, 0xfffffff0, 0x8000000000000000ull});
        if (sim != nullptr) {
          sim->mem.clear();
          sim->accepts = src.chance(85) ? ~0ull : src.draw(n + 10);
          if (n > 65536 && sim->accepts < 65536) ctx.label("image cut");
        }
        int res = load_image(id, directory ? dir.c_str() : file.c_str(), a);
        remove(file.c_str());
        bool ok = !fail && exists && !directory && sim->accepts >= std::min<size_t>(n, 65536);
        PBT_EQ(res, ok ? 0 : -1, "result of load_image");
        if (ok) {
          PBT_EQ(sim->mem.size(), n, "bytes loaded");
          for (size_t i = 0; i < n; i++) {
            if (static_cast<char>(sim->mem[a + i]) != data[i]) pbt::fail("image differs at " + std::to_string(i));
          }
        }
        if (sim != nullptr) {
          sim->accepts = ~0ull;
          sim->mem.clear();
        }
        break;
      }
      case 12:
        if (sim != nullptr) {
          PBT_ASSERT(RenodeAgent::Instance()->core_dbg(id) == sim);
        } else {
          PBT_ASSERT(RenodeAgent::Instance()->core_dbg(id) == nullptr);
        }
        break;
    }
    // No other instance was called or deleted.
    for (auto& [other, in] : live) {
      PBT_ASSERT(all.live.count(in.sim) != 0, "another instance was deleted");
      if (other != id) PBT_ASSERT(in.sim->call.empty(), "another instance was called: " + in.sim->call);
      in.sim->call.clear();
    }
    PBT_EQ(all.live.size(), live.size(), "simulators that exist");
  }
  while (!live.empty()) {
    destruct(live.begin()->first);
    live.erase(live.begin());
  }
  PBT_ASSERT(all.live.empty());
  sims = nullptr;
  ctx.nontrivial_if(two && used);
}

}  // namespace
