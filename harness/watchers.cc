// C19: watch points see exactly the accesses they watch, and change nothing.
#include "mem_common.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"

using namespace memtest;  // NOLINT
using mpact::sim::util::FlatDemandMemory;
using mpact::sim::util::MemoryWatcher;
using mpact::sim::util::TaggedFlatDemandMemory;
using mpact::sim::util::TaggedMemoryWatcher;

namespace {
struct Seen {
  int range;
  uint64_t address;
  int size;
  bool operator<(const Seen& o) const {
    return std::tie(range, address, size) < std::tie(o.range, o.address, o.size);
  }
  bool operator==(const Seen& o) const {
    return range == o.range && address == o.address && size == o.size;
  }
};
struct Range {
  int id;
  uint64_t lo, hi;
};
std::string Show(const std::vector<Seen>& v) {
  std::ostringstream os;
  for (auto& s : v) os << "(range " << s.range << " " << pbt::hex(s.address) << "+" << s.size << ") ";
  return os.str();
}

template <typename W>
void Run(pbt::Src& src, pbt::Ctx& ctx, W& w, MemoryInterface* below,
         TaggedMemoryInterface* tagged) {
  const uint64_t kBase = src.pick({uint64_t{0x1000}, uint64_t{0}, 0 - uint64_t{0x100}});
  std::vector<Range> rs[2];  // stores, loads
  std::vector<Seen> seen[2];
  ByteMap model;
  DataBufferFactory f;
  Rig rig;
  Options o;
  o.long_pct = 2;
  o.address = [&](pbt::Src& s, uint64_t n) -> uint64_t {
    return kBase + s.draw(0x60 - n);
  };
  int next = 0;
  bool partial = false, multi = false;
  int steps = static_cast<int>(src.range(2, 48));
  auto judge = [&](const std::vector<Access>& acc) {
    std::vector<Seen> want[2];
    for (auto& a : acc) {
      uint64_t lo = a.address, hi = a.address + static_cast<uint64_t>(a.size) - 1;
      int hits = 0;
      for (auto& r : rs[a.load]) {
        if (r.hi < lo || r.lo > hi) continue;
        want[a.load].push_back({r.id, a.address, a.size});
        hits++;
        partial |= lo < r.lo || hi > r.hi;
      }
      multi |= hits > 1;
    }
    for (int k = 0; k < 2; k++) {
      std::sort(want[k].begin(), want[k].end());
      std::sort(seen[k].begin(), seen[k].end());
      PBT_ASSERT(seen[k] == want[k], (k ? "load" : "store")
                                         << " callbacks " << Show(seen[k])
                                         << ", oracle says " << Show(want[k]));
      seen[k].clear();
    }
  };
  for (int s = 0; s < steps; s++) {
    switch (src.weighted({6, 2, 8, 3, 1})) {
      case 0: {
        int k = static_cast<int>(src.draw(2));
        uint64_t lo = kBase + src.draw(0x60), n = src.draw(6);
        if (src.chance(10)) n = src.draw(0x40);
        uint64_t hi = lo + n < lo ? ~uint64_t{0} : lo + n;
        if (src.chance(5)) std::swap(lo, hi);
        int id = next++;
        ctx.log("watch ", k ? "loads " : "stores ", id, " [", pbt::hex(lo), ", ",
                pbt::hex(hi), "]");
        bool ok = lo <= hi;
        for (auto& r : rs[k]) ok &= r.hi < lo || r.lo > hi;
        auto cb = [&seen, &rig, below, k, id, &model](uint64_t a, int size) {
          seen[k].push_back({id, a, size});
          if (k == 1) {
            for (int e : rig.executed)
              PBT_ASSERT(e != rig.cur_id, "load callback after the load is done");
          }
        };
        typename W::AddressRange range(lo, hi);
        if (lo == hi && src.flip()) range = typename W::AddressRange(lo);
        auto st = k ? w.SetLoadWatchCallback(range, cb) : w.SetStoreWatchCallback(range, cb);
        PBT_EQ(st.ok(), ok, "setting a watch range");
        if (ok) rs[k].push_back({id, lo, hi});
        break;
      }
      case 1: {
        int k = static_cast<int>(src.draw(2));
        uint64_t a = kBase + src.draw(0x60);
        if (!rs[k].empty() && src.chance(70)) {
          auto& r = rs[k][src.draw(rs[k].size())];
          a = r.lo + src.draw(r.hi - r.lo + 1);
        }
        ctx.log("clear ", k ? "load" : "store", " watch at ", pbt::hex(a));
        bool found = false;
        for (size_t i = 0; i < rs[k].size(); i++)
          if (rs[k][i].lo <= a && a <= rs[k][i].hi) {
            rs[k].erase(rs[k].begin() + i);
            found = true;
            break;
          }
        auto st = k ? w.ClearLoadWatchCallback(a) : w.ClearStoreWatchCallback(a);
        PBT_EQ(st.ok(), found, "clearing a watch range");
        if (!found) PBT_EQ(st.code(), absl::StatusCode::kNotFound, "status");
        break;
      }
      case 2: judge(PlainOp(src, ctx, o, &w, &model, &rig, &f)); break;
      case 3: {
        if (tagged == nullptr) break;
        if constexpr (std::is_same_v<W, TaggedMemoryWatcher>) {
          int n = static_cast<int>(src.range(1, 3));
          uint64_t a = kBase + 8 * src.draw(9);
          DataBuffer* db = f.Allocate(8 * n);
          DataBuffer* tdb = f.Allocate(n);
          for (int i = 0; i < n; i++) {
            db->Set<uint64_t>(i, src.u64());
            tdb->Set<uint8_t>(i, 1);
          }
          if (src.flip()) {
            ctx.log("tagged store at ", pbt::hex(a), " of ", 8 * n);
            w.Store(a, db, tdb);
            Bytes b = Contents(db);
            model.Write(a, b.data(), 8 * n);
            judge({{false, a, 8 * n}});
            tagged->Load(a, db, tdb, nullptr, nullptr);
            PBT_ASSERT(Contents(tdb) == Bytes(static_cast<size_t>(n), 1), "tags stored");
          } else {
            bool only = src.chance(30);
            ctx.log("tagged load at ", pbt::hex(a), " of ", 8 * n, only ? " tags only" : "");
            DataBuffer* t2 = f.Allocate(n);
            tagged->Load(a, nullptr, t2, nullptr, nullptr);
            rig.Prepare(src, only ? tdb : db, static_cast<int>(src.draw(3)));
            w.Load(a, only ? nullptr : db, tdb, rig.inst, rig.context);
            PBT_ASSERT(Contents(t2) == Contents(tdb), "tags loaded");
            rig.Issued(only ? Contents(t2) : model.Read(a, 8 * n), "tagged load");
            t2->DecRef();
            if (!only)
              judge({{true, a, 8 * n}});
            else
              judge({});
          }
          db->DecRef();
          tdb->DecRef();
        }
        break;
      }
      default: rig.Advance();
    }
  }
  rig.Finish();
  Sweep(below, model, &f, [](uint64_t) { return true; });
  ctx.nontrivial_if(partial && multi);
}
}  // namespace

PBT_SUITE(plain, "an access that overlaps two watched ranges, one of them partly", 150000,
          2500000) {
  FlatDemandMemory mem;
  MemoryWatcher w(&mem);
  Run(src, ctx, w, &mem, nullptr);
}

PBT_SUITE(tagged, "an access that overlaps two watched ranges, one of them partly", 150000,
          2500000) {
  TaggedFlatDemandMemory mem(8);
  TaggedMemoryWatcher w(&mem);
  Run(src, ctx, w, &mem, &mem);
}
