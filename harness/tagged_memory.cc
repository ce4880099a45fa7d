// C18: tagged memory keeps a tag per granule, and drops it when data is
// overwritten without one.
#include "mem_common.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.h"

using namespace memtest;  // NOLINT
using mpact::sim::util::FlatDemandMemory;
using mpact::sim::util::TaggedFlatDemandMemory;
using mpact::sim::util::TaggedToUntaggedMemoryTransactor;

PBT_SUITE(tagged,
          "a tag dropped by an untagged store, and a tag loaded back", 120000, 2500000) {
  unsigned granule = src.pick({8u, 16u, 4u, 1u, 32u});
  uint64_t base, size;
  const uint64_t kAll = ~uint64_t{0};
  uint8_t fill = 0;
  std::unique_ptr<TaggedFlatDemandMemory> mem;
  switch (src.draw(4)) {
    case 0:
      base = 0, size = kAll;
      mem = std::make_unique<TaggedFlatDemandMemory>(granule);
      break;
    case 1:
      base = src.pick({uint64_t{0}, uint64_t{0x1000}, uint64_t{1} << 63});
      size = kAll - base;
      mem = std::make_unique<TaggedFlatDemandMemory>(base, granule);
      break;
    case 2:
      base = src.pick({uint64_t{0x1000}, uint64_t{0x8000'0000}, uint64_t{0x3ffc}});
      size = 3 * 16384 + src.draw(100);
      mem = std::make_unique<TaggedFlatDemandMemory>(size, base, granule);
      break;
    default:
      base = src.pick({uint64_t{0}, uint64_t{0x1000}, uint64_t{0x3ff9}, 0 - uint64_t{0x2'0000}});
      size = src.flip() ? 400 + src.draw(100) : 0x1'0000 + src.draw(64);
      fill = static_cast<uint8_t>(src.draw(256));
      mem = std::make_unique<TaggedFlatDemandMemory>(size, base, 1, fill, granule);
  }
  ctx.log("TaggedFlatDemandMemory ", pbt::hex(size), " bytes at ", pbt::hex(base),
          " granule ", granule);
  ByteMap model;
  model.fill = fill;
  std::map<uint64_t, uint8_t> tag;  // granule number -> tag
  DataBufferFactory f;
  Rig rig;
  Options o;
  uint64_t last = base;
  bool wide = src.chance(10);
  if (wide) o.scalar_sizes.push_back(300);
  o.address = [&](pbt::Src& s, uint64_t n) -> uint64_t {
    uint64_t room = size - n, a;
    switch (s.weighted({6, 2, 2, 1, 1})) {
      case 0: a = base + s.draw(80); break;
      case 1:
        a = ((base + 16384 * granule) & ~(uint64_t{16384} * granule - 1)) - 40 + s.draw(60);
        break;
      case 2: a = base + room - s.draw(40); break;
      case 3: a = base + s.draw(room + 1); break;
      default:  // a power of two away from another
        a = last ^ (uint64_t{1} << s.draw(64));
        if (a - base > room) a = last;
    }
    if (a - base > room) a = base;
    last = a;
    return a;
  };
  // An aligned address of n granules, if there is one.
  auto aligned = [&](uint64_t n, uint64_t* out) {
    uint64_t a = (o.address(src, n * granule) + granule - 1) / granule * granule;
    if (a < base || a - base > size - n * granule || size < n * granule) {
      a = (base + granule - 1) / granule * granule;
      if (a < base || a - base > size - n * granule) return false;
    }
    *out = a;
    return true;
  };
  auto tags_at = [&](uint64_t a, int n) {
    Bytes b;
    for (int i = 0; i < n; i++) {
      auto it = tag.find(a / granule + static_cast<uint64_t>(i));
      b.push_back(it == tag.end() ? 0 : it->second);
    }
    return b;
  };
  bool dropped = false, back = false;
  int steps = static_cast<int>(src.range(1, 20));
  for (int s = 0; s < steps; s++) {
    switch (src.weighted({6, 5, 5, 2, 2, 1})) {
      case 0: {
        for (auto& x : PlainOp(src, ctx, o, mem.get(), &model, &rig, &f)) {
          if (x.load) continue;
          for (int i = 0; i < x.size; i++) {
            auto it = tag.find((x.address + static_cast<uint64_t>(i)) / granule);
            if (it != tag.end()) {
              dropped |= it->second != 0;
              tag.erase(it);
            }
          }
        }
        break;
      }
      case 1: {  // tagged store
        int n = static_cast<int>(src.range(1, wide && granule <= 4 && src.chance(30) ? 90 : 5));
        uint64_t a;
        if (!aligned(static_cast<uint64_t>(n), &a)) break;
        DataBuffer* db = f.Allocate(n * static_cast<int>(granule));
        DataBuffer* tdb = f.Allocate(n);
        for (int i = 0; i < db->size<uint8_t>(); i++)
          db->Set<uint8_t>(i, static_cast<uint8_t>(src.draw(256)));
        for (int i = 0; i < n; i++)
          tdb->Set<uint8_t>(i, static_cast<uint8_t>(src.chance(80) ? 1 : src.draw(256)));
        ctx.log("tagged store of ", n, " granules at ", pbt::hex(a), " tags ",
                Show(Contents(tdb)));
        mem->Store(a, db, tdb);
        Bytes b = Contents(db);
        model.Write(a, b.data(), static_cast<int>(b.size()));
        for (int i = 0; i < n; i++)
          tag[a / granule + static_cast<uint64_t>(i)] = tdb->Get<uint8_t>(i);
        PBT_EQ(db->ref_count(), 1, "references to the data");
        PBT_EQ(tdb->ref_count(), 1, "references to the tags");
        db->DecRef();
        tdb->DecRef();
        break;
      }
      case 2:
      case 3: {  // tagged load, or tags only
        bool only = src.chance(35);
        int n = static_cast<int>(src.range(1, wide && granule <= 4 && src.chance(30) ? 90 : 5));
        uint64_t a;
        if (!aligned(static_cast<uint64_t>(n), &a)) break;
        DataBuffer* db = f.Allocate(n * static_cast<int>(granule));
        DataBuffer* tdb = f.Allocate(n);
        std::memset(tdb->raw_ptr(), 0x5a, n);
        std::memset(db->raw_ptr(), 0x5a, db->size<uint8_t>());
        int latency = src.chance(50) ? 0 : static_cast<int>(src.range(1, 4));
        ctx.log("tagged load of ", n, " granules at ", pbt::hex(a),
                only ? " tags only" : "");
        Bytes wt = tags_at(a, n);
        rig.Prepare(src, only ? tdb : db, latency);
        mem->Load(a, only ? nullptr : db, tdb, rig.inst, rig.context);
        PBT_ASSERT(Contents(tdb) == wt, "tags loaded " << Show(Contents(tdb))
                                                       << ", oracle says " << Show(wt));
        rig.Issued(only ? wt : model.Read(a, db->size<uint8_t>()), "tagged load");
        for (uint8_t t : wt) back |= t != 0;
        db->DecRef();
        tdb->DecRef();
        break;
      }
      case 4: {  // not acceptable: no effect
        int n = static_cast<int>(src.range(1, 4));
        uint64_t a;
        if (granule == 1 || !aligned(static_cast<uint64_t>(n) + 1, &a)) break;
        int bytes = n * static_cast<int>(granule), nt = n;
        switch (src.draw(3)) {
          case 0: a += 1 + src.draw(granule - 1); break;
          case 1: bytes += 1 + static_cast<int>(src.draw(granule - 1)); break;
          default: nt += src.chance(50) ? 1 : -1;
        }
        DataBuffer* db = f.Allocate(bytes);
        DataBuffer* tdb = f.Allocate(std::max(nt, 1));
        if (nt == 0) {
          db->DecRef(), tdb->DecRef();
          break;
        }
        std::memset(tdb->raw_ptr(), 0x5a, nt);
        std::memset(db->raw_ptr(), 0x5a, bytes);
        Bytes b1 = Contents(db), b2 = Contents(tdb);
        db->set_latency(0);
        ctx.log("bad tagged access of ", bytes, " bytes and ", nt, " tags at ",
                pbt::hex(a));
        if (src.flip())
          mem->Store(a, db, tdb);
        else
          mem->Load(a, db, tdb, nullptr, nullptr);
        PBT_ASSERT(Contents(db) == b1 && Contents(tdb) == b2,
                   "refused tagged load has an effect");
        db->DecRef();
        tdb->DecRef();
        break;
      }
      default: rig.Advance();
    }
  }
  rig.Finish();
  Sweep(mem.get(), model, &f,
        [&](uint64_t a) { return a >= base && a - base < size; });
  DataBuffer* tdb = f.Allocate(1);
  tdb->set_latency(0);
  std::set<uint64_t> gs;
  for (auto& [k, v] : tag)
    for (int64_t d = -2; d <= 2; d++) gs.insert(k + static_cast<uint64_t>(d));
  for (uint64_t g : gs) {
    uint64_t a = g * granule;
    if (g > ~uint64_t{0} / granule || a < base || a - base >= size) continue;
    mem->Load(a, nullptr, tdb, nullptr, nullptr);
    PBT_ASSERT(Contents(tdb) == tags_at(a, 1),
               "tag at " << pbt::hex(a) << " is " << Show(Contents(tdb))
                         << ", oracle says " << Show(tags_at(a, 1)));
  }
  tdb->DecRef();
  ctx.nontrivial_if(dropped && back);
}

PBT_SUITE(transactor, "a load of just tags with an instruction", 60000, 800000) {
  FlatDemandMemory flat(0x1'0000, 0x1000, 1, 0);
  TaggedToUntaggedMemoryTransactor mem(&flat);
  ByteMap model;
  DataBufferFactory f;
  Rig rig;
  Options o;
  o.address = [&](pbt::Src& s, uint64_t n) -> uint64_t {
    return 0x1000 + s.draw(64);
  };
  int steps = static_cast<int>(src.range(1, 16));
  for (int s = 0; s < steps; s++) {
    int n = static_cast<int>(src.range(1, 4));
    uint64_t a = 0x1000 + 8 * src.draw(8);
    DataBuffer* db = f.Allocate(n * 8);
    DataBuffer* tdb = f.Allocate(n);
    std::memset(tdb->raw_ptr(), 0x5a, n);
    for (int i = 0; i < n * 8; i++)
      db->Set<uint8_t>(i, static_cast<uint8_t>(src.draw(256)));
    switch (src.weighted({4, 3, 3, 1})) {
      case 0: PlainOp(src, ctx, o, &mem, &model, &rig, &f); break;
      case 1: {
        bool only = src.chance(30);
        if (!src.chance(10)) std::memset(tdb->raw_ptr(), 0, n);
        ctx.log("tagged store at ", pbt::hex(a), only ? " tags only" : "");
        Bytes b = Contents(db);
        mem.Store(a, only ? nullptr : db, tdb);
        if (!only) model.Write(a, b.data(), static_cast<int>(b.size()));
        break;
      }
      case 2: {
        bool only = src.chance(40);
        ctx.log("tagged load at ", pbt::hex(a), only ? " tags only" : "");
        int latency = src.chance(50) ? 0 : static_cast<int>(src.range(1, 4));
        rig.Prepare(src, only ? tdb : db, latency);
        mem.Load(a, only ? nullptr : db, tdb, rig.inst, rig.context);
        PBT_ASSERT(Contents(tdb) == Bytes(static_cast<size_t>(n), 0),
                   "tags from untagged memory " << Show(Contents(tdb)));
        ctx.nontrivial_if(only && rig.inst != nullptr);
        rig.Issued(only ? Contents(tdb) : model.Read(a, n * 8), "tagged load");
        break;
      }
      default: rig.Advance();
    }
    db->DecRef();
    tdb->DecRef();
  }
  rig.Finish();
  Sweep(&mem, model, &f, [](uint64_t) { return true; });
}
