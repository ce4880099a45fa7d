// C10: the decode cache.
#include <map>
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/decoder_interface.h"
#include "mpact/sim/generic/instruction.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {

struct World {
  std::map<int, uint64_t> live;  // id -> address
  std::set<uint64_t> undecodable;
  int next_id = 0;
  std::vector<std::pair<int, uint64_t>> decoded;  // since last looked at
};

class TestInst : public Instruction {
 public:
  TestInst(World* w, int id, uint64_t a) : Instruction(a, nullptr), w_(w), id(id) {}
  ~TestInst() override { w_->live.erase(id); }
  World* w_;
  int id;
};

class TestDecoder : public DecoderInterface {
 public:
  explicit TestDecoder(World* w) : w_(w) {}
  Instruction* DecodeInstruction(uint64_t address) override {
    w_->decoded.push_back({-1, address});
    if (w_->undecodable.count(address)) return nullptr;
    int id = w_->next_id++;
    w_->live[id] = address;
    w_->decoded.back().first = id;
    return new TestInst(w_, id, address);
  }
  int GetNumOpcodes() const override { return 0; }
  const char* GetOpcodeName(int) const override { return ""; }
  World* w_;
};
}  // namespace

PBT_SUITE(fetches,
          "a fetch that found its instruction cached, one that evicted another "
          "and an invalidation that hit",
          2000000, 30000000) {
  World w;
  TestDecoder dec(&w);
  uint32_t want_entries = static_cast<uint32_t>(
      src.pick({4, 1, 2, 3, 5, 8, 16, 17, 64}));
  uint32_t inc = static_cast<uint32_t>(src.pick({4, 1, 2, 8, 16, 256}));
  if (src.chance(3)) inc = static_cast<uint32_t>(src.pick({0, 3, 5, 6, 12, 100}));
  if (src.chance(3)) {
    want_entries = static_cast<uint32_t>(src.pick({1024, 4096}));
    inc = static_cast<uint32_t>(src.pick({1 << 20, 1 << 21, 1 << 24, 1 << 30}));
  }
  if (src.draw(400) == 399)
    want_entries = static_cast<uint32_t>(src.pick({255, 256, 257, 1000, 65536, 65537}));
  ctx.log("entries ", want_entries, " increment ", inc);
  bool good = inc != 0 && (inc & (inc - 1)) == 0;
  DecodeCache* dc = DecodeCache::Create({want_entries, inc}, &dec);
  PBT_EQ(dc != nullptr, good, "Create with increment " << inc);
  if (!good) return;
  uint64_t entries = 1;
  while (entries < want_entries) entries *= 2;
  PBT_EQ(static_cast<uint64_t>(dc->num_entries()), entries, "num_entries");
  PBT_EQ(static_cast<uint64_t>(dc->address_inc()), uint64_t{inc}, "address_inc");

  std::map<uint64_t, std::pair<uint64_t, int>> cache;  // slot -> address, id
  auto slot = [&](uint64_t a) { return (a / inc) % entries; };
  struct Held {
    Instruction* inst;
    int id;
  };
  std::vector<Held> held;
  std::vector<uint64_t> recent;
  uint64_t base = src.pick({uint64_t{0}, uint64_t{0x1000}, uint64_t{0xffff'fff0},
                            uint64_t{0} - 64 * uint64_t{inc},
                            uint64_t{1} << 63});
  auto addr = [&]() -> uint64_t {
    uint64_t a;
    switch (src.weighted({6, 4, 2, 1, 1})) {
      case 0: a = base + src.draw(2 * entries + 2) * inc; break;
      case 1: a = recent.empty() ? base : recent[src.draw(recent.size())]; break;
      case 2:
        a = (recent.empty() ? base : recent[src.draw(recent.size())]) +
            entries * inc * src.range(1, 3);
        break;
      case 3: a = src.interesting() / inc * inc; break;
      default:
        // Not aligned to the increment.
        a = base + src.draw(2 * entries + 2) * inc + src.draw(inc);
    }
    recent.push_back(a);
    return a;
  };
  bool hit = false, evict = false, inval = false;
  auto drop = [&](uint64_t s) { cache.erase(s); };
  int steps = static_cast<int>(src.range(1, 30));
  for (int s = 0; s < steps; s++) {
    w.decoded.clear();
    switch (src.weighted({10, 2, 2, 2, 3, 1, 2})) {
      case 0: {
        uint64_t a = addr();
        ctx.log("fetch ", pbt::hex(a));
        auto it = cache.find(slot(a));
        bool cached = it != cache.end() && it->second.first == a;
        Instruction* inst = dc->GetDecodedInstruction(a);
        PBT_EQ(w.decoded.size(), cached ? size_t{0} : size_t{1},
               "decoder calls for fetch " << pbt::hex(a));
        if (cached) {
          hit = true;
          PBT_ASSERT(inst != nullptr, "cached instruction " << pbt::hex(a));
          PBT_EQ(static_cast<TestInst*>(inst)->id, it->second.second,
                 "instruction for " << pbt::hex(a));
        } else {
          PBT_EQ(w.decoded[0].second, a, "address decoded");
          if (w.undecodable.count(a)) {
            PBT_ASSERT(inst == nullptr, "fetch of undecodable " << pbt::hex(a));
          } else {
            PBT_ASSERT(inst != nullptr, "fetch of " << pbt::hex(a));
            PBT_EQ(static_cast<TestInst*>(inst)->id, w.decoded[0].first,
                   "instruction for " << pbt::hex(a));
            evict |= it != cache.end();
            cache[slot(a)] = {a, w.decoded[0].first};
          }
        }
        if (inst != nullptr) {
          PBT_EQ(inst->address(), a, "address of the instruction");
          if (src.chance(20)) {  // still executing
            inst->IncRef();
            held.push_back({inst, static_cast<TestInst*>(inst)->id});
          }
        }
        break;
      }
      case 1: {
        uint64_t a = addr();
        ctx.log("invalidate ", pbt::hex(a));
        dc->Invalidate(a);
        auto it = cache.find(slot(a));
        if (it != cache.end() && it->second.first == a) {
          inval = true;
          drop(slot(a));
        }
        break;
      }
      case 2: {
        uint64_t a = addr(), n = src.draw(4 * entries + 1) * inc;
        if (src.chance(30)) n += src.draw(inc);
        if (src.chance(5)) n = src.interesting();
        uint64_t e = a + n < a ? ~uint64_t{0} : a + n;
        if (src.chance(5)) std::swap(a, e);
        ctx.log("invalidate [", pbt::hex(a), ", ", pbt::hex(e), ")");
        dc->InvalidateRange(a, e);
        for (auto it = cache.begin(); it != cache.end();) {
          if (it->second.first >= a && it->second.first < e) {
            inval = true;
            it = cache.erase(it);
          } else {
            ++it;
          }
        }
        break;
      }
      case 3: {
        if (!src.chance(30)) break;
        ctx.log("invalidate all");
        dc->InvalidateAll();
        inval |= !cache.empty();
        cache.clear();
        break;
      }
      case 4: {
        if (held.empty()) break;
        size_t i = src.draw(held.size());
        ctx.log("done with #", held[i].id);
        PBT_ASSERT(w.live.count(held[i].id), "instruction in use was deleted");
        held[i].inst->DecRef();
        held.erase(held.begin() + i);
        break;
      }
      case 5: {
        uint64_t a = addr();
        ctx.log("undecodable ", pbt::hex(a));
        w.undecodable.insert(a);
        break;
      }
      default: {
        if (w.undecodable.empty()) break;
        w.undecodable.erase(w.undecodable.begin());
      }
    }
    // Exactly the cached and the held instructions are alive.
    std::set<int> want;
    for (auto& [k, v] : cache) want.insert(v.second);
    std::map<int, int> refs;
    for (auto& h : held) {
      want.insert(h.id);
      refs[h.id]++;
    }
    for (auto& [k, v] : cache) refs[v.second]++;
    std::set<int> got;
    for (auto& [k, v] : w.live) got.insert(k);
    PBT_ASSERT(got == want, got.size() << " instructions alive, oracle says "
                                       << want.size());
    for (auto& h : held)
      PBT_EQ(h.inst->ref_count(), refs[h.id], "references to #" << h.id);
  }
  delete dc;
  std::set<int> want, got;
  for (auto& h : held) want.insert(h.id);
  for (auto& [k, v] : w.live) got.insert(k);
  PBT_ASSERT(got == want, "after destruction " << got.size()
                              << " instructions alive, oracle says " << want.size());
  for (auto& h : held) h.inst->DecRef();
  PBT_ASSERT(w.live.empty(), "instructions leaked");
  ctx.nontrivial_if(hit && evict && inval);
}
