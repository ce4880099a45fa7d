// C24: memories compose.  Whatever stack of watchers, atomic memories,
// profilers, caches, transactors and routers is put in front of a memory, loads
// and stores (and their tags, latency and instructions) behave as without it.
#include "mem_common.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/single_initiator_router.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.h"

using namespace memtest;  // NOLINT
using namespace mpact::sim::util;  // NOLINT
using mpact::sim::generic::SimpleCounter;

PBT_SUITE(stacks, "four or more wrappers, and a load with an instruction to wait for",
          150000, 3000000) {
  const uint64_t kBase =
      src.pick<uint64_t>({0x1000, 0, 0x3fe0, 0x8000'0000, 0xffff'ffff'fff0'0000});
  constexpr uint64_t kSpan = 0x100;
  SimpleCounter<uint64_t> cycles("cycles", 0);
  std::vector<std::shared_ptr<void>> own;
  auto keep = [&](auto* p) {
    own.push_back(std::shared_ptr<std::remove_pointer_t<decltype(p)>>(p));
    return p;
  };
  MemoryInterface* m = nullptr;
  TaggedMemoryInterface* t = nullptr;
  bool tags = false;  // Whether tags are kept: not through a transactor.
  std::string what;
  switch (src.draw(3)) {
    case 0:
      t = keep(new TaggedFlatDemandMemory(8));
      m = t, tags = true, what = "tagged";
      break;
    case 1: m = keep(new FlatDemandMemory(0)), what = "demand"; break;
    default: m = keep(new FlatMemory(0x1000, kBase, 1, 0)), what = "flat";
  }
  MemoryInterface* bottom = m;
  int n = static_cast<int>(src.range(0, 7));
  uint64_t fired = 0;
  for (int i = 0; i < n; i++) {
    switch (src.draw(6)) {
      case 0: {  // watcher
        auto cb = [&fired](uint64_t, int) { fired++; };
        uint64_t lo = kBase + src.draw(kSpan), hi = lo + src.draw(40);
        auto set = [&](auto* w) {
          if (src.flip())
            PBT_ASSERT(w->SetStoreWatchCallback({lo, hi}, cb).ok(), "set callback");
          if (src.flip())
            PBT_ASSERT(w->SetLoadWatchCallback({lo, hi}, cb).ok(), "set callback");
        };
        if (t != nullptr) {
          auto* w = keep(new TaggedMemoryWatcher(t));
          set(w);
          m = t = w;
        } else {
          auto* w = keep(new MemoryWatcher(m));
          set(w);
          m = w;
        }
        what += " watcher";
        break;
      }
      case 1:
        if (t != nullptr) {
          m = t = keep(new AtomicTaggedMemory(t));
        } else {
          m = keep(new AtomicMemory(m));
        }
        what += " atomic";
        break;
      case 2:
        if (t != nullptr) {
          auto* p = keep(new TaggedMemoryUseProfiler(t));
          p->set_is_enabled(src.flip());
          m = t = p;
        } else {
          auto* p = keep(new MemoryUseProfiler(m));
          p->set_is_enabled(src.flip());
          m = p;
        }
        what += " profiler";
        break;
      case 3: {
        Cache* c = t != nullptr ? new Cache("c", t) : new Cache("c", m);
        keep(c);
        PBT_ASSERT(c->Configure(src.pick<const char*>({"256,16,2,true", "64,4,1,false",
                                                       "128,32,0,true,nc:0x1000:0x1010"}),
                                &cycles)
                       .ok(),
                   "configure the cache");
        m = c;
        if (t != nullptr) t = c;
        what += " cache";
        break;
      }
      case 4:
        if (t == nullptr) {
          t = keep(new TaggedToUntaggedMemoryTransactor(m));
          m = t;
          what += " transactor";
        }
        break;
      default: {
        if (src.flip()) {
          auto* r = keep(new SingleInitiatorRouter("r"));
          bool def = src.flip();
          uint64_t top = kBase + 0xfff;
          if (t != nullptr) {
            PBT_ASSERT((def ? r->AddDefaultTarget<TaggedMemoryInterface>(t)
                            : r->AddTarget<TaggedMemoryInterface>(t, kBase, top))
                           .ok(),
                       "add target");
            m = t = r;
          } else {
            PBT_ASSERT((def ? r->AddDefaultTarget<MemoryInterface>(m)
                            : r->AddTarget<MemoryInterface>(m, kBase, top))
                           .ok(),
                       "add target");
            m = r;
          }
        } else {
          auto* r = keep(new MemoryRouter());
          if (t != nullptr) {
            PBT_ASSERT(r->AddTarget("t", t).ok(), "add target");
            m = t = r->AddTaggedInitiator("i");
          } else {
            PBT_ASSERT(r->AddTarget("t", m).ok(), "add target");
            m = r->AddMemoryInitiator("i");
          }
          PBT_ASSERT(r->AddMapping("i", "t", kBase, kBase + 0xfff).ok(), "add mapping");
        }
        what += " router";
      }
    }
  }
  ctx.log("stack: ", what);
  ByteMap model;
  TagModel tm;
  DataBufferFactory f;
  Rig rig;
  Options o;
  o.address = [&](pbt::Src& s, uint64_t) -> uint64_t { return kBase + s.draw(kSpan); };
  int steps = static_cast<int>(src.range(1, 16));
  bool waited = false;
  for (int s = 0; s < steps; s++) {
    cycles.Increment(1);
    switch (src.weighted({6, t != nullptr ? 4 : 0, 1})) {
      case 0: tm.Stored(PlainOp(src, ctx, o, m, &model, &rig, &f)); break;
      case 1: {
        if (!tags) tm.tag.clear();
        TaggedOp(src, ctx, o, t, &model, &tm, &rig, &f);
        if (!tags) tm.tag.clear();
        break;
      }
      default: rig.Advance();
    }
    waited |= !rig.due.empty();
  }
  rig.Finish();
  auto in = [&](uint64_t a) { return a >= kBase && a < kBase + 0xf00; };
  Sweep(bottom, model, &f, in);
  Sweep(m, model, &f, in);
  if (tags) SweepTags(t, tm, &f, in);
  // What was put last goes first.
  while (!own.empty()) own.pop_back();
  ctx.nontrivial_if(n >= 4 && waited);
}
