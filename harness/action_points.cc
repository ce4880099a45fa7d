// C12: action points and breakpoints.
#include <map>
#include <memory>

#include "absl/status/status.h"
#include "mpact/sim/generic/action_point_manager_base.h"
#include "mpact/sim/generic/breakpoint_manager.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {
// Program memory: which addresses hold a breakpoint instruction.  It can refuse
// accesses.
class Mem : public ActionPointMemoryInterface {
 public:
  absl::Status WriteOriginalInstruction(uint64_t a) override {
    if (refuse.count(a)) {
      refused++;
      return absl::InternalError("refused");
    }
    bp.erase(a);
    return absl::OkStatus();
  }
  absl::Status WriteBreakpointInstruction(uint64_t a) override {
    if (refuse.count(a)) {
      refused++;
      return absl::InternalError("refused");
    }
    bp.insert(a);
    return absl::OkStatus();
  }
  std::set<uint64_t> bp, refuse;
  int refused = 0;
};

struct Act {
  int tag;
  bool enabled;
  bool one_shot;
};
}  // namespace

PBT_SUITE(histories,
          "two actions at one address, one of them disabled, and the address "
          "reached",
          500000, 9000000) {
  Mem mem;
  ActionPointManagerBase apm(&mem);
  int halts = 0;
  BreakpointManager bpm(&apm, [&halts] { halts++; });
  PBT_ASSERT(apm.ap_memory_interface() == &mem, "memory interface");
  PBT_ASSERT(bpm.action_point_manager() == &apm, "action point manager");
  PBT_EQ(bpm.last_breakpoint_address(), ~uint64_t{0}, "no breakpoint hit yet");
  // address -> id -> action.  tag -1 is a breakpoint.
  std::map<uint64_t, std::map<int, Act>> model;
  std::map<uint64_t, std::set<int>> all_ids;
  std::map<uint64_t, bool> bps;  // breakpoints: enabled
  std::map<uint64_t, int> bp_id;
  uint64_t last_bp = ~uint64_t{0};
  std::vector<std::pair<int, std::pair<uint64_t, int>>> ran;
  std::vector<uint64_t> addrs{0x1000, 0x1004, ~uint64_t{3}};
  addrs.resize(src.weighted({5, 3, 1}) + 1);
  int next_tag = 0;
  auto active = [&](uint64_t a) {
    for (auto& [id, x] : model[a])
      if (x.enabled) return true;
    auto b = bps.find(a);
    return b != bps.end() && b->second;
  };
  // Would this change leave (or find) the address without enabled actions?
  bool interesting = false;
  int steps = static_cast<int>(src.range(1, 40));
  for (int s = 0; s < steps; s++) {
    uint64_t a = src.pick(addrs);
    bool refused = mem.refuse.count(a) > 0;
    auto pick_id = [&]() -> int {
      if (model[a].empty() || src.chance(15)) return static_cast<int>(src.range(-1, 6));
      auto it = model[a].begin();
      std::advance(it, src.draw(model[a].size()));
      return it->first;
    };
    // An id that belongs to the breakpoint is left to the breakpoint manager.
    auto foreign = [&](int id) { return bps.count(a) && bp_id[a] == id; };
    switch (src.weighted({6, 3, 4, 4, 5, 3, 2, 2, 2, 1, 1, 2})) {
      case 0: {
        int tag = next_tag++;
        bool one_shot = src.chance(20);
        ctx.log("set action ", tag, " at ", pbt::hex(a), one_shot ? " one shot" : "");
        auto r = apm.SetAction(a, [&, tag, one_shot](uint64_t at, int id) {
          ran.push_back({tag, {at, id}});
          if (one_shot) (void)apm.DisableAction(at, id);
        });
        bool want = active(a) || !refused;
        PBT_EQ(r.ok(), want, "SetAction");
        if (!want) break;
        int id = r.value();
        PBT_ASSERT(!all_ids[a].count(id), "id " << id << " given out twice");
        all_ids[a].insert(id);
        model[a][id] = {tag, true, one_shot};
        break;
      }
      case 1: {
        int id = pick_id();
        if (foreign(id)) break;
        auto it = model[a].find(id);
        bool known = it != model[a].end();
        ctx.log("clear ", id, " at ", pbt::hex(a), refused ? " (refused)" : "");
        int before = mem.refused;
        auto st = apm.ClearAction(a, id);
        // Memory is asked only when no enabled action would be left.
        if (!known) {
          PBT_EQ(st.code(), absl::StatusCode::kNotFound, "ClearAction of unknown");
        } else if (mem.refused == before) {
          PBT_ASSERT(st.ok(), "ClearAction");
          model[a].erase(it);
        } else {
          PBT_ASSERT(!st.ok(), "ClearAction refused by memory");
        }
        break;
      }
      case 2:
      case 3: {
        bool enable = src.flip();
        int id = pick_id();
        if (foreign(id)) break;
        auto it = model[a].find(id);
        bool known = it != model[a].end();
        ctx.log(enable ? "enable " : "disable ", id, " at ", pbt::hex(a),
                refused ? " (refused)" : "");
        int before = mem.refused;
        auto st = enable ? apm.EnableAction(a, id) : apm.DisableAction(a, id);
        if (!known) {
          PBT_EQ(st.code(), absl::StatusCode::kNotFound, "unknown action");
        } else if (mem.refused == before) {
          PBT_ASSERT(st.ok(), "enable/disable");
          it->second.enabled = enable;
        } else {
          PBT_ASSERT(!st.ok(), "enable/disable refused by memory");
        }
        break;
      }
      case 4: {  // the program reaches a
        if (refused) break;  // one shot actions would be refused
        ctx.log("reach ", pbt::hex(a));
        ran.clear();
        int h = halts;
        bool has = !model[a].empty() || bps.count(a);
        apm.PerformActions(a);
        std::vector<std::pair<int, std::pair<uint64_t, int>>> want;
        bool dis = false;
        for (auto& [id, x] : model[a]) {
          if (!x.enabled) {
            dis = true;
            continue;
          }
          want.push_back({x.tag, {a, id}});
          if (x.one_shot) x.enabled = false;
        }
        PBT_ASSERT(ran == want, "actions run at " << pbt::hex(a) << ": " << ran.size()
                                                  << ", oracle " << want.size());
        bool hb = bps.count(a) && bps[a];
        PBT_EQ(halts - h, hb ? 1 : 0, "halt requests");
        if (hb) last_bp = a;
        interesting |= has && dis && !want.empty();
        break;
      }
      case 5: {
        ctx.log("set breakpoint ", pbt::hex(a));
        bool exists = bps.count(a);
        bool want = !exists && (active(a) || !refused);
        // Which id it gets is not visible: find out by difference.
        auto st = bpm.SetBreakpoint(a);
        PBT_EQ(st.ok(), want, "SetBreakpoint");
        if (exists)
          PBT_EQ(st.code(), absl::StatusCode::kAlreadyExists, "SetBreakpoint twice");
        if (want) {
          bps[a] = true;
          bp_id[a] = -99;
          for (int id = 0; id < 100; id++)
            if (!all_ids[a].count(id) && apm.IsActionEnabled(a, id)) bp_id[a] = id;
          PBT_ASSERT(bp_id[a] >= 0, "breakpoint has no action");
          all_ids[a].insert(bp_id[a]);
        }
        break;
      }
      case 6: {
        ctx.log("clear breakpoint ", pbt::hex(a), refused ? " (refused)" : "");
        int before = mem.refused;
        auto st = bpm.ClearBreakpoint(a);
        if (!bps.count(a)) {
          PBT_EQ(st.code(), absl::StatusCode::kNotFound, "ClearBreakpoint of unknown");
        } else if (mem.refused == before) {
          PBT_ASSERT(st.ok(), "ClearBreakpoint");
          bps.erase(a);
        } else {
          PBT_ASSERT(!st.ok(), "ClearBreakpoint refused by memory");
        }
        break;
      }
      case 7:
      case 8: {
        bool enable = src.flip();
        ctx.log(enable ? "enable" : "disable", " breakpoint ", pbt::hex(a));
        int before = mem.refused;
        auto st = enable ? bpm.EnableBreakpoint(a) : bpm.DisableBreakpoint(a);
        if (!bps.count(a)) {
          PBT_EQ(st.code(), absl::StatusCode::kNotFound, "unknown breakpoint");
        } else if (mem.refused == before) {
          PBT_ASSERT(st.ok(), "enable/disable breakpoint");
          bps[a] = enable;
        } else {
          PBT_ASSERT(!st.ok(), "enable/disable breakpoint refused by memory");
        }
        break;
      }
      case 9: {
        if (!mem.refuse.empty()) break;
        ctx.log("clear all breakpoints");
        bpm.ClearAllBreakpoints();
        bps.clear();
        break;
      }
      case 10: {
        if (!mem.refuse.empty() || !bps.empty()) break;
        ctx.log("clear all action points");
        apm.ClearAllActionPoints();
        for (auto& [x, m] : model) {
          m.clear();
          PBT_ASSERT(!apm.HasActionPoint(x), "action point after clear all");
        }
        all_ids.clear();
        break;
      }
      default: {
        if (mem.refuse.count(a)) {
          ctx.log("memory accepts ", pbt::hex(a));
          mem.refuse.erase(a);
        } else if (src.chance(40)) {
          ctx.log("memory refuses ", pbt::hex(a));
          mem.refuse.insert(a);
        }
      }
    }
    for (uint64_t x : addrs) {
      bool act = active(x);
      PBT_EQ(apm.IsActionPointActive(x), act, "active at " << pbt::hex(x));
      PBT_EQ(mem.bp.count(x) > 0, act,
             "breakpoint instruction in memory at " << pbt::hex(x));
      if (!model[x].empty() || bps.count(x))
        PBT_ASSERT(apm.HasActionPoint(x), "has action point at " << pbt::hex(x));
      for (int id = -1; id < 20; id++) {
        auto it = model[x].find(id);
        bool want = it != model[x].end() && it->second.enabled;
        if (bps.count(x) && bp_id[x] == id) want = bps[x];
        PBT_EQ(apm.IsActionEnabled(x, id), want,
               "action " << id << " at " << pbt::hex(x) << " enabled");
      }
      PBT_EQ(bpm.HasBreakpoint(x), bps.count(x) > 0, "has breakpoint");
      PBT_EQ(bpm.IsBreakpoint(x), bps.count(x) > 0 && bps[x], "is breakpoint");
    }
    PBT_EQ(bpm.last_breakpoint_address(), last_bp, "last breakpoint address");
  }
  ctx.nontrivial_if(interesting);
}

// Many actions at one address, and many addresses.
PBT_SUITE(many_actions, "more than 50 actions", 3000, 50000) {
  Mem mem;
  ActionPointManagerBase apm(&mem);
  int halts = 0;
  BreakpointManager bpm(&apm, [&halts] { halts++; });
  bool one = src.flip();
  int n = src.chance(30) ? static_cast<int>(src.range(120, 400))
                         : static_cast<int>(src.range(1, 100));
  uint64_t base = src.pick({uint64_t{0}, uint64_t{0x8000'0000}, uint64_t{0xffff'ff00},
                            uint64_t{0xffff'ffff'ffff'0000}});
  uint64_t gap = src.pick({uint64_t{1}, uint64_t{2}, uint64_t{4}, uint64_t{64}, uint64_t{1} << 32});
  ctx.log(n, one ? " actions at one address" : " addresses", " from ", pbt::hex(base), " by ", gap);
  auto at = [&](int i) { return one ? base : base + gap * i; };
  std::vector<int> ids(n);
  std::vector<char> enabled(n, 1), there(n, 1);
  std::vector<std::pair<uint64_t, int>> ran;
  std::vector<int> tags;
  for (int i = 0; i < n; i++) {
    auto r = apm.SetAction(at(i), [&ran, &tags, i](uint64_t a, int id) {
      ran.push_back({a, id});
      tags.push_back(i);
    });
    PBT_ASSERT(r.ok(), "SetAction " << i);
    ids[i] = r.value();
    for (int k = 0; one && k < i; k++)
      PBT_ASSERT(ids[k] != ids[i], "action id given out twice");
  }
  int changes = static_cast<int>(src.draw(4));
  for (int c = 0; c < changes; c++) {
    int from = static_cast<int>(src.draw(n)), stride = static_cast<int>(src.range(1, 4));
    int op = static_cast<int>(src.draw(3));
    ctx.log(op == 0 ? "disable" : op == 1 ? "enable" : "clear", " from ", from, " step ", stride);
    for (int i = from; i < n; i += stride) {
      auto st = op == 0 ? apm.DisableAction(at(i), ids[i])
                : op == 1 ? apm.EnableAction(at(i), ids[i]) : apm.ClearAction(at(i), ids[i]);
      PBT_EQ(st.ok(), there[i] != 0, "change of action " << i);
      if (!there[i]) continue;
      enabled[i] = op == 1;
      if (op == 2) there[i] = 0;
    }
  }
  std::set<uint64_t> active;
  for (int i = 0; i < n; i++) {
    if (there[i] && enabled[i]) active.insert(at(i));
    PBT_EQ(apm.IsActionEnabled(at(i), ids[i]), there[i] && enabled[i], "IsActionEnabled " << i);
  }
  PBT_ASSERT(mem.bp == active, "breakpoint instructions in memory: " << mem.bp.size()
                                  << ", oracle says " << active.size());
  for (int i = 0; i < (one ? 1 : n); i++) {
    PBT_EQ(apm.IsActionPointActive(at(i)), active.count(at(i)) > 0, "active");
    ran.clear();
    tags.clear();
    if (!apm.HasActionPoint(at(i))) continue;
    apm.PerformActions(at(i));
    std::set<int> want;
    for (int k = 0; k < n; k++)
      if (at(k) == at(i) && there[k] && enabled[k]) want.insert(k);
    PBT_EQ(tags.size(), want.size(), "actions run at address " << i);
    PBT_ASSERT(std::set<int>(tags.begin(), tags.end()) == want, "which actions ran");
    for (size_t k = 0; k < ran.size(); k++) {
      PBT_EQ(ran[k].first, at(i), "address given to the action");
      PBT_EQ(ran[k].second, ids[tags[k]], "id given to the action");
    }
  }
  PBT_EQ(halts, 0, "halt requests");
  ctx.nontrivial_if(n > 50);
}
