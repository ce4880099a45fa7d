// C20: atomic memory operations.
#include "mem_common.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace memtest;  // NOLINT
using mpact::sim::util::AtomicMemory;
using mpact::sim::util::AtomicMemoryOpInterface;
using mpact::sim::util::AtomicTaggedMemory;
using mpact::sim::util::FlatDemandMemory;
using mpact::sim::util::TaggedFlatDemandMemory;
using Op = AtomicMemoryOpInterface::Operation;

namespace {
uint64_t Le(const Bytes& b) {
  uint64_t v = 0;
  for (size_t i = b.size(); i-- > 0;) v = v << 8 | b[i];
  return v;
}
Bytes ToLe(uint64_t v, int n) {
  Bytes b;
  for (int i = 0; i < n; i++) b.push_back(static_cast<uint8_t>(v >> (8 * i)));
  return b;
}
int64_t Sx(uint64_t v, int n) {
  int sh = 64 - 8 * n;
  return static_cast<int64_t>(v << sh) >> sh;
}
uint64_t Apply(Op op, uint64_t m, uint64_t v, int n) {
  int64_t sm = Sx(m, n), sv = Sx(v, n);
  switch (op) {
    case Op::kAtomicSwap: return v;
    case Op::kAtomicAdd: return m + v;
    case Op::kAtomicSub: return m - v;
    case Op::kAtomicAnd: return m & v;
    case Op::kAtomicOr: return m | v;
    case Op::kAtomicXor: return m ^ v;
    case Op::kAtomicMax: return static_cast<uint64_t>(sm > sv ? sm : sv);
    case Op::kAtomicMaxu: return m > v ? m : v;
    case Op::kAtomicMin: return static_cast<uint64_t>(sm < sv ? sm : sv);
    case Op::kAtomicMinu: return m < v ? m : v;
    default: return 0;
  }
}

template <typename A>
void Run(pbt::Src& src, pbt::Ctx& ctx, A& mem, MemoryInterface* below,
         TaggedMemoryInterface* tagged) {
  const uint64_t kBase = src.pick({uint64_t{0x1000}, uint64_t{0}, 0 - uint64_t{0x100},
                                   uint64_t{0x4000} - 0x20});
  ByteMap model;
  std::map<uint64_t, uint8_t> tag;
  std::set<uint64_t> linked;
  DataBufferFactory f;
  Rig rig;
  Options o;
  o.address = [&](pbt::Src& s, uint64_t n) -> uint64_t {
    return kBase + s.draw(0x60 - n);
  };
  auto written = [&](uint64_t a, int n) {
    for (int i = 0; i < n; i++) {
      linked.erase((a + static_cast<uint64_t>(i)) >> 3);
      tag.erase((a + static_cast<uint64_t>(i)) >> 3);
    }
  };
  bool lost = false, won = false;
  std::vector<uint64_t> lls;
  bool wide = src.chance(10);
  const uint64_t span = wide ? 0xc0 : 0x40;
  int steps = static_cast<int>(src.range(1, wide ? 80 : 30));
  for (int s = 0; s < steps; s++) {
    int size = src.pick({4, 8, 1, 2});
    uint64_t a = kBase + src.draw(span / static_cast<uint64_t>(size)) * size;
    DataBuffer* db = f.Allocate(size);
    switch (wide ? src.weighted({2, 14, 9, 3, 2, 1, 1})
                 : src.weighted({6, 4, 5, 5, 3, 1, 1})) {
      case 0:
        for (auto& x : PlainOp(src, ctx, o, &mem, &model, &rig, &f))
          if (!x.load) written(x.address, x.size);
        break;
      case 1: {
        ctx.log("load linked ", size, " at ", pbt::hex(a));
        rig.Prepare(src, db, 0);
        auto st = mem.PerformMemoryOp(a, Op::kLoadLinked, db, rig.inst, rig.context);
        PBT_ASSERT(st.ok(), "load linked");
        linked.insert(a >> 3);
        lls.push_back(a);
        rig.Issued(model.Read(a, size), "load linked");
        break;
      }
      case 2: {
        if (!lls.empty() && src.chance(80)) {
          a = lls[src.draw(lls.size())];
          a = a / static_cast<uint64_t>(size) * static_cast<uint64_t>(size);
        }
        uint64_t v = src.interesting();
        Bytes b = ToLe(v, size);
        std::memcpy(db->raw_ptr(), b.data(), b.size());
        bool ok = linked.count(a >> 3) > 0;
        ctx.log("store conditional ", Show(b), " at ", pbt::hex(a));
        rig.Prepare(src, db, 0);
        auto st = mem.PerformMemoryOp(a, Op::kStoreConditional, db, rig.inst, rig.context);
        PBT_ASSERT(st.ok(), "store conditional");
        if (ok) {
          model.Write(a, b.data(), size);
          written(a, size);
          won = true;
        } else {
          lost = true;
        }
        rig.Issued(ToLe(ok ? 0 : 1, size), "result of store conditional");
        break;
      }
      case 3: {
        Op op = src.pick({Op::kAtomicSwap, Op::kAtomicAdd, Op::kAtomicSub, Op::kAtomicAnd,
                          Op::kAtomicOr, Op::kAtomicXor, Op::kAtomicMax, Op::kAtomicMaxu,
                          Op::kAtomicMin, Op::kAtomicMinu});
        Bytes b = ToLe(src.interesting(), size);
        std::memcpy(db->raw_ptr(), b.data(), b.size());
        ctx.log("atomic op ", static_cast<int>(op), " ", Show(b), " at ", pbt::hex(a));
        Bytes old = model.Read(a, size);
        rig.Prepare(src, db, 0);
        auto st = mem.PerformMemoryOp(a, op, db, rig.inst, rig.context);
        PBT_ASSERT(st.ok(), "atomic operation");
        Bytes nw = ToLe(Apply(op, Le(old), Le(b), size), size);
        model.Write(a, nw.data(), size);
        written(a, size);
        rig.Issued(old, "result of atomic operation");
        break;
      }
      case 4: {
        if constexpr (std::is_same_v<A, AtomicTaggedMemory>) {
          int n = static_cast<int>(src.range(1, 3));
          a = kBase + 8 * src.draw(8);
          DataBuffer* d = f.Allocate(8 * n);
          DataBuffer* t = f.Allocate(n);
          for (int i = 0; i < n; i++) {
            d->Set<uint64_t>(i, src.u64());
            t->Set<uint8_t>(i, static_cast<uint8_t>(src.draw(2)));
          }
          if (src.flip()) {
            ctx.log("tagged store of ", n, " at ", pbt::hex(a), " tags ", Show(Contents(t)));
            mem.Store(a, d, t);
            Bytes b = Contents(d);
            model.Write(a, b.data(), 8 * n);
            written(a, 8 * n);
            for (int i = 0; i < n; i++)
              tag[(a >> 3) + static_cast<uint64_t>(i)] = t->template Get<uint8_t>(i);
          } else {
            ctx.log("tagged load of ", n, " at ", pbt::hex(a));
            Bytes w;
            for (int i = 0; i < n; i++) {
              auto it = tag.find((a >> 3) + static_cast<uint64_t>(i));
              w.push_back(it == tag.end() ? 0 : it->second);
            }
            rig.Prepare(src, d, static_cast<int>(src.draw(3)));
            mem.Load(a, d, t, rig.inst, rig.context);
            PBT_ASSERT(Contents(t) == w, "tags loaded " << Show(Contents(t))
                                                        << ", oracle says " << Show(w));
            rig.Issued(model.Read(a, 8 * n), "tagged load");
          }
          d->DecRef();
          t->DecRef();
        }
        break;
      }
      case 5: {
        int bad = src.pick({3, 5, 6, 7, 16});
        DataBuffer* d = f.Allocate(bad);
        for (int i = 0; i < bad; i++) d->Set<uint8_t>(i, static_cast<uint8_t>(src.draw(256)));
        Op op = src.pick({Op::kStoreConditional, Op::kAtomicSwap, Op::kAtomicAdd,
                          Op::kAtomicMinu});
        ctx.log("atomic op ", static_cast<int>(op), " of ", bad, " bytes");
        auto st = mem.PerformMemoryOp(a, op, d, nullptr, nullptr);
        PBT_ASSERT(!st.ok(), "atomic operation of " << bad << " bytes accepted");
        d->DecRef();
        break;
      }
      default: rig.Advance();
    }
    db->DecRef();
  }
  rig.Finish();
  Sweep(below, model, &f, [](uint64_t) { return true; });
  if (tagged != nullptr) {
    DataBuffer* t = f.Allocate(1);
    t->set_latency(0);
    for (uint64_t a = kBase; a - kBase < span + 0x20; a += 8) {
      tagged->Load(a, nullptr, t, nullptr, nullptr);
      auto it = tag.find(a >> 3);
      PBT_EQ(int{t->Get<uint8_t>(0)}, it == tag.end() ? 0 : int{it->second},
             "tag at " << pbt::hex(a));
    }
    t->DecRef();
  }
  ctx.nontrivial_if(lost && won);
}
}  // namespace

PBT_SUITE(plain, "store conditionals both succeed and fail", 150000, 2500000) {
  FlatDemandMemory mem;
  AtomicMemory a(&mem);
  Run(src, ctx, a, &mem, nullptr);
}

PBT_SUITE(tagged, "store conditionals both succeed and fail", 150000, 2500000) {
  TaggedFlatDemandMemory mem(8);
  AtomicTaggedMemory a(&mem);
  Run(src, ctx, a, &mem, &mem);
}
