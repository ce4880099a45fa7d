// C08: resource sets and simple resources.
#include <map>
#include <memory>

#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/resource_bitset.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/simple_resource_operand.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {

int PickBit(pbt::Src& src) {
  switch (src.draw(4)) {
    case 0: return static_cast<int>(src.draw(8));
    case 1: return static_cast<int>(src.pick({63, 64, 65, 127, 128, 129, 191, 192}));
    case 2: return static_cast<int>(src.draw(64));
    default: return static_cast<int>(src.draw(260));
  }
}

struct Pair {
  std::unique_ptr<ResourceBitSet> b;
  std::set<int> m;
};

void CheckBits(const ResourceBitSet& b, const std::set<int>& m, pbt::Src& src) {
  PBT_EQ(b.GetOnesCount(), static_cast<int>(m.size()), "GetOnesCount");
  int pos = -1;
  PBT_EQ(b.FindFirstSetBit(&pos), !m.empty(), "FindFirstSetBit");
  if (!m.empty()) PBT_EQ(pos, *m.begin(), "FindFirstSetBit position");
  PBT_EQ(b.FindFirstSetBit(nullptr), !m.empty(), "FindFirstSetBit(nullptr)");
  std::set<int> seen;
  int guard = 0;
  for (int i = 0; b.FindNextSetBit(&i); ++i) {
    seen.insert(i);
    if (guard++ > 1000) PBT_FAIL("iteration does not end");
  }
  PBT_ASSERT(seen == m, "iteration over set bits: " << seen.size() << " seen, "
                                                    << m.size() << " set");
  int from = PickBit(src);
  int p = from;
  auto it = m.lower_bound(from);
  PBT_EQ(b.FindNextSetBit(&p), it != m.end(), "FindNextSetBit from " << from);
  if (it != m.end()) PBT_EQ(p, *it, "FindNextSetBit from " << from);
}

}  // namespace

PBT_SUITE(bit_sets,
          "two sets of different sizes combined, with a bit beyond the first 64",
          900000, 15000000) {
  std::vector<Pair> v;
  int n = static_cast<int>(src.range(1, 3));
  bool high = false, combined = false;
  for (int i = 0; i < n; i++) {
    Pair p;
    if (src.flip()) {
      p.b = std::make_unique<ResourceBitSet>();
    } else {
      int sz = PickBit(src);
      ctx.log("set ", i, " of ", sz);
      p.b = std::make_unique<ResourceBitSet>(sz);
    }
    v.push_back(std::move(p));
  }
  int steps = static_cast<int>(src.range(1, 25));
  for (int s = 0; s < steps; s++) {
    int i = static_cast<int>(src.draw(v.size()));
    int j = static_cast<int>(src.draw(v.size()));
    switch (src.weighted({10, 4, 4, 4, 2, 2, 2})) {
      case 0: {
        int b = PickBit(src);
        ctx.log("set bit ", b, " in ", i);
        high |= b >= 64;
        v[i].b->Set(b);
        v[i].m.insert(b);
        break;
      }
      case 1:
        ctx.log(i, " |= ", j);
        combined |= i != j;
        v[i].b->Or(*v[j].b);
        v[i].m.insert(v[j].m.begin(), v[j].m.end());
        break;
      case 2: {
        ctx.log(i, " &= ~", j);
        combined |= i != j;
        v[i].b->AndNot(*v[j].b);
        std::set<int> out;
        for (int b : v[i].m)
          if (!v[j].m.count(b)) out.insert(b);
        v[i].m = out;
        break;
      }
      case 3: {
        bool inter = false;
        for (int b : v[i].m) inter |= v[j].m.count(b) > 0;
        PBT_EQ(v[i].b->IsIntersectionNonEmpty(*v[j].b), inter,
               "intersection of " << i << " and " << j);
        break;
      }
      case 4:
        ctx.log(i, " = ", j);
        *v[i].b = *v[j].b;
        v[i].m = v[j].m;
        break;
      case 5: {
        ctx.log("copy or move ", j, " to ", i);
        bool mv = src.flip() && i != j;
        auto nb = mv ? std::make_unique<ResourceBitSet>(std::move(*v[j].b))
                     : std::make_unique<ResourceBitSet>(*v[j].b);
        auto nm = v[j].m;
        if (mv) {
          v[j].m.clear();
        }
        v[i].b = std::move(nb);
        v[i].m = nm;
        break;
      }
      default: {
        int sz = PickBit(src);
        ctx.log("resize ", i, " to ", sz);
        v[i].b->Resize(sz);
        // Bits beyond the new size go.
        v[i].m.erase(v[i].m.lower_bound(sz), v[i].m.end());
      }
    }
    for (auto& p : v) CheckBits(*p.b, p.m, src);
  }
  ctx.nontrivial_if(high && combined);
}

PBT_SUITE(resource_pools,
          "a set of at least two resources acquired, one of which is acquired or "
          "released by another route as well",
          450000, 8000000) {
  int width = static_cast<int>(src.pick({8, 4, 1, 2, 64, 63, 65, 70, 130}));
  SimpleResourcePool pool("pool", width), other("other", 8);
  PBT_EQ(pool.width(), static_cast<unsigned>(width), "width");
  PBT_EQ(pool.name(), std::string("pool"), "name");
  auto* alien = other.GetOrAddResource("alien");
  std::vector<std::string> names;  // by index
  std::map<std::string, int> index;
  std::set<int> reserved;
  struct RS {
    SimpleResourceSet* s;
    std::set<int> m;
  };
  std::vector<RS> sets;
  SimpleResourceDelayLine dl(static_cast<uint32_t>(src.pick({4, 1, 16})));
  struct Op {
    std::unique_ptr<SimpleResourceOperand> op;
    int set;
    int latency;
  };
  std::vector<Op> ops;
  std::map<long, std::vector<int>> due;  // release of a set
  long now = 0;
  auto any_name = [&]() -> std::string {
    if (!names.empty() && src.flip()) return src.pick(names);
    return "r" + std::to_string(src.draw(width + 3));
  };
  auto add_model = [&](const std::string& n) -> bool {
    if (index.count(n) || static_cast<int>(names.size()) == width) return false;
    index[n] = static_cast<int>(names.size());
    names.push_back(n);
    return true;
  };
  if (src.chance(60)) {
    int k = static_cast<int>(src.range(1, width));
    for (int i = 0; i < k; i++) {
      std::string n = "r" + std::to_string(i);
      add_model(n);
      PBT_ASSERT(pool.AddResource(n).ok(), "AddResource " << n);
    }
  }
  auto as_string = [&](const std::set<int>& m) {
    std::string out = "[", sep;
    for (int b : m) out += sep + names[b], sep = ", ";
    return out + "]";
  };
  auto is_free = [&](const std::set<int>& m) {
    for (int b : m)
      if (reserved.count(b)) return false;
    return true;
  };
  auto check = [&] {
    PBT_EQ(pool.ReservedAsString(), as_string(reserved), "ReservedAsString");
    for (auto& [n, i] : index) {
      auto* r = pool.GetResource(n);
      PBT_ASSERT(r != nullptr, "GetResource " << n);
      PBT_EQ(r->name(), n, "name");
      PBT_EQ(r->index(), i, "index of " << n);
      PBT_ASSERT(r->pool() == &pool, "pool of " << n);
      PBT_ASSERT(pool.GetResource(static_cast<unsigned>(i)) == r,
                 "GetResource by index " << i);
      PBT_EQ(r->IsFree(), !reserved.count(i), n << " IsFree");
      PBT_EQ(pool.IsFree(r), !reserved.count(i), n << " pool IsFree");
    }
    PBT_ASSERT(pool.GetResource(static_cast<unsigned>(names.size())) == nullptr,
               "resource beyond the last");
    for (auto& s : sets) {
      PBT_EQ(s.s->IsFree(), is_free(s.m), "set IsFree");
      PBT_EQ(pool.IsFree(s.s), is_free(s.m), "pool IsFree(set)");
      PBT_EQ(s.s->AsString(), as_string(s.m), "set AsString");
    }
    for (auto& o : ops) {
      PBT_EQ(o.op->IsFree(), is_free(sets[o.set].m), "operand IsFree");
      PBT_EQ(o.op->AsString(), as_string(sets[o.set].m), "operand AsString");
    }
    PBT_ASSERT(alien->IsFree(), "a resource of another pool was reserved");
  };
  bool big = false, mixed = false;
  int steps = static_cast<int>(src.range(1, 30));
  for (int s = 0; s < steps; s++) {
    switch (src.weighted({3, 2, 3, 4, 4, 4, 4, 3, 3, 4})) {
      case 0: {
        std::string n = any_name();
        bool want = add_model(n);
        ctx.log("AddResource ", n, " -> ", want);
        PBT_EQ(pool.AddResource(n).ok(), want, "AddResource " << n);
        break;
      }
      case 1: {
        std::string n = any_name();
        add_model(n);
        ctx.log("GetOrAddResource ", n);
        PBT_EQ(pool.GetOrAddResource(n) != nullptr, index.count(n) > 0,
               "GetOrAddResource " << n);
        break;
      }
      case 2:
        if (sets.size() < 4) {
          ctx.log("new set ", sets.size());
          sets.push_back({pool.CreateResourceSet(), {}});
          PBT_ASSERT(sets.back().s->IsFree(), "an empty set is free");
        }
        break;
      case 3: {
        if (sets.empty()) break;
        auto& st = sets[src.draw(sets.size())];
        int how = static_cast<int>(src.draw(8));
        if (how == 0) {
          PBT_ASSERT(!st.s->AddResource(alien).ok(), "alien resource accepted");
        } else if (how == 1) {
          PBT_ASSERT(st.s->AddResource(static_cast<SimpleResource*>(nullptr)).ok(),
                     "null resource");
        } else if (how < 5) {
          std::string n = any_name();
          add_model(n);
          bool want = index.count(n) > 0;
          ctx.log("add to set by name ", n, " -> ", want);
          PBT_EQ(st.s->AddResource(n).ok(), want, "set AddResource " << n);
          if (want) st.m.insert(index[n]);
        } else if (!names.empty()) {
          std::string n = src.pick(names);
          ctx.log("add to set ", n);
          PBT_ASSERT(st.s->AddResource(pool.GetResource(n)).ok(), "AddResource");
          st.m.insert(index[n]);
        }
        break;
      }
      case 4:
      case 5: {
        if (sets.empty()) break;
        auto& st = sets[src.draw(sets.size())];
        bool acq = src.flip();
        big |= acq && st.m.size() > 1;
        ctx.log(acq ? "acquire " : "release ", as_string(st.m));
        if (acq) {
          for (int b : st.m) mixed |= reserved.count(b) > 0;
          if (src.flip()) st.s->Acquire(); else pool.Acquire(st.s);
          reserved.insert(st.m.begin(), st.m.end());
        } else {
          if (src.flip()) st.s->Release(); else pool.Release(st.s);
          for (int b : st.m) mixed |= reserved.erase(b) > 0;
        }
        break;
      }
      case 6: {
        if (names.empty()) break;
        std::string n = src.pick(names);
        auto* r = pool.GetResource(n);
        bool acq = src.flip();
        ctx.log(acq ? "acquire " : "release ", n);
        if (acq) {
          if (src.flip()) r->Acquire(); else pool.Acquire(r);
          mixed |= !reserved.insert(index[n]).second;
        } else {
          if (src.flip()) r->Release(); else pool.Release(r);
          reserved.erase(index[n]);
        }
        break;
      }
      case 7: {
        if (sets.empty() || ops.size() > 4) break;
        Op o;
        o.set = static_cast<int>(src.draw(sets.size()));
        o.latency = static_cast<int>(src.chance(20) ? src.range(0, 40)
                                                    : src.range(0, 5));
        if (src.flip()) {
          o.op = std::make_unique<SimpleResourceOperand>(sets[o.set].s, o.latency,
                                                         &dl);
        } else {
          o.op = std::make_unique<SimpleResourceOperand>(sets[o.set].s, o.latency);
          o.op->set_delay_line(&dl);
        }
        PBT_EQ(o.op->latency(), o.latency, "latency");
        PBT_ASSERT(o.op->resource_set() == sets[o.set].s, "resource_set");
        ctx.log("operand ", ops.size(), " set ", o.set, " latency ", o.latency);
        ops.push_back(std::move(o));
        break;
      }
      case 8: {
        if (ops.empty()) break;
        size_t k = src.draw(ops.size());
        auto& o = ops[k];
        auto& m = sets[o.set].m;
        int how = static_cast<int>(src.weighted({3, 1, 1}));
        ctx.log("operand ", k, how == 0 ? " acquire" : " release");
        if (how == 0) {
          // Held from now until the latency has passed.
          o.op->Acquire();
          reserved.insert(m.begin(), m.end());
          if (o.latency == 0)
            for (int b : m) reserved.erase(b);
          else
            due[now + o.latency].push_back(o.set);
        } else {
          int lat = how == 1 ? o.latency : static_cast<int>(src.range(0, 6));
          if (how == 1)
            o.op->Release();
          else
            o.op->Release(lat);
          if (lat == 0)
            for (int b : m) reserved.erase(b);
          else
            due[now + lat].push_back(o.set);
        }
        break;
      }
      default: {
        int n = static_cast<int>(src.range(1, 6));
        ctx.log("advance ", n);
        for (int i = 0; i < n; i++) {
          now++;
          for (int k : due[now])
            for (int b : sets[k].m) reserved.erase(b);
          due.erase(now);
          dl.Advance();
          check();
        }
      }
    }
    check();
  }
  ctx.nontrivial_if(big && mixed);
}

// Pools of hundreds of resources.
PBT_SUITE(wide_pools, "more than 200 resources", 3000, 50000) {
  int width = src.pick({200, 255, 256, 257, 300, 511, 512, 513, 700});
  SimpleResourcePool pool("pool", width);
  std::vector<SimpleResource*> rs;
  for (int i = 0; i < width; i++) {
    auto* r = pool.GetOrAddResource("r" + std::to_string(i));
    PBT_ASSERT(r != nullptr, "resource " << i << " of " << width);
    PBT_EQ(r->index(), i, "index");
    rs.push_back(r);
  }
  PBT_ASSERT(!pool.AddResource("one too many").ok(), "resource beyond the width");
  std::set<int> held;
  struct RS {
    SimpleResourceSet* s;
    std::set<int> m;
  };
  std::vector<RS> sets;
  for (int k = static_cast<int>(src.range(1, 3)); k > 0; k--) {
    RS r{pool.CreateResourceSet(), {}};
    int from = static_cast<int>(src.draw(width)), step = static_cast<int>(src.range(1, 90));
    for (int i = from; i < width; i += step) {
      PBT_ASSERT((src.flip() ? r.s->AddResource(rs[i]) : r.s->AddResource("r" + std::to_string(i))).ok(), "AddResource");
      r.m.insert(i);
    }
    ctx.log("set from ", from, " step ", step, " of ", width);
    sets.push_back(r);
  }
  int steps = static_cast<int>(src.range(1, 8));
  for (int s = 0; s < steps; s++) {
    bool take = src.flip();
    if (src.flip()) {
      auto& x = sets[src.draw(sets.size())];
      if (take) x.s->Acquire(); else x.s->Release();
      for (int i : x.m) if (take) held.insert(i); else held.erase(i);
    } else {
      int i = static_cast<int>(src.draw(width));
      if (take) rs[i]->Acquire(); else rs[i]->Release();
      if (take) held.insert(i); else held.erase(i);
    }
    for (int i = 0; i < width; i++)
      PBT_EQ(rs[i]->IsFree(), !held.count(i), "resource " << i << " of " << width << " free");
    for (auto& x : sets) {
      bool free = true;
      for (int i : x.m) free &= !held.count(i);
      PBT_EQ(x.s->IsFree(), free, "set free");
    }
  }
  ctx.nontrivial_if(width > 200);
}
