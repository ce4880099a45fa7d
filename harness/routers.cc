// C21: the routers deliver every access to the one target which is mapped at
// all of it, unchanged, and deliver nothing that is not mapped.
//
// Targets are recorders.  The oracle resolves an access by a linear search of
// the list of ranges that were accepted, in arithmetic which cannot wrap.
#include <memory>
#include <optional>

#include "absl/status/status.h"
#include "mem_common.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/single_initiator_router.h"

using namespace memtest;
using mpact::sim::util::AtomicMemoryOpInterface;
using mpact::sim::util::MemoryRouter;
using mpact::sim::util::SingleInitiatorRouter;

namespace {

enum Kind { kLoad, kVLoad, kTLoad, kStore, kVStore, kTStore, kOp };
const char* kKindName[] = {"load",         "vector load", "tagged load",     "store",
                           "vector store", "tagged store", "atomic operation"};

struct Call {
  int target;
  Kind kind;
  uint64_t address = 0;
  DataBuffer *db = nullptr, *tags = nullptr, *adb = nullptr, *mdb = nullptr;
  int el = 0;
  Instruction* inst = nullptr;
  ReferenceCount* context = nullptr;
  int op = 0;
  bool operator==(const Call& o) const {
    return target == o.target && kind == o.kind && address == o.address && db == o.db &&
           tags == o.tags && adb == o.adb && mdb == o.mdb && el == o.el &&
           inst == o.inst && context == o.context && op == o.op;
  }
};

std::vector<Call> calls;

class Fake : public TaggedMemoryInterface, public AtomicMemoryOpInterface {
 public:
  explicit Fake(int id) : id(id) {}
  void Load(uint64_t a, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    calls.push_back({id, kLoad, a, db, nullptr, nullptr, nullptr, 0, i, c});
  }
  void Load(DataBuffer* adb, DataBuffer* mdb, int el, DataBuffer* db, Instruction* i,
            ReferenceCount* c) override {
    calls.push_back({id, kVLoad, 0, db, nullptr, adb, mdb, el, i, c});
  }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* tags, Instruction* i,
            ReferenceCount* c) override {
    calls.push_back({id, kTLoad, a, db, tags, nullptr, nullptr, 0, i, c});
  }
  void Store(uint64_t a, DataBuffer* db) override {
    calls.push_back({id, kStore, a, db});
  }
  void Store(DataBuffer* adb, DataBuffer* mdb, int el, DataBuffer* db) override {
    calls.push_back({id, kVStore, 0, db, nullptr, adb, mdb, el});
  }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* tags) override {
    calls.push_back({id, kTStore, a, db, tags});
  }
  absl::Status PerformMemoryOp(uint64_t a, Operation op, DataBuffer* db, Instruction* i,
                               ReferenceCount* c) override {
    calls.push_back({id, kOp, a, db, nullptr, nullptr, nullptr, 0, i, c,
                     static_cast<int>(op)});
    return status;
  }
  int id;
  absl::Status status = absl::OkStatus();
};

struct Range {
  uint64_t base, top;
  int target;
};
constexpr int kNone = -1, kPartial = -2;

struct Table {
  std::vector<Range> ranges;
  int def = kNone;
  // The target of [a, a + n - 1]; kNone if nothing is mapped in it (and there is
  // no default), kPartial if it is mapped in part or to several.
  int Resolve(uint64_t a, uint64_t n) const {
    unsigned __int128 lo = a, hi = lo + n - 1;
    for (auto& r : ranges) {
      if (r.base <= lo && hi <= r.top) return r.target;
      if (r.base <= hi && lo <= r.top) return kPartial;
    }
    return def;
  }
  absl::StatusCode Add(uint64_t base, uint64_t top, int target) {
    if (base > top) return absl::StatusCode::kInvalidArgument;
    for (auto& r : ranges) {
      if (r.base == base && r.top == top) return absl::StatusCode::kOk;
      if (r.base <= top && base <= r.top) return absl::StatusCode::kAlreadyExists;
    }
    ranges.push_back({base, top, target});
    return absl::StatusCode::kOk;
  }
};

struct Tables {
  Table memory, tagged, atomic;
};

// Addresses cluster around a few places, so that ranges are adjacent, near and
// overlapping, and accesses run over their ends.
struct Places {
  explicit Places(pbt::Src& src) {
    int n = static_cast<int>(src.range(1, 3));
    for (int i = 0; i < n; i++)
      at.push_back(src.pick<uint64_t>({0x1000, 0, 0xffff'fff0, 0x1'0000'0000,
                                       0x7fff'ffff'ffff'ffc0, 0xffff'ffff'ffff'ff80,
                                       0x8000'0000'0000'0000}));
  }
  uint64_t Address(pbt::Src& src) {
    uint64_t p = at[src.draw(at.size())];
    return p + src.draw(96);
  }
  std::vector<uint64_t> at;
};

bool Fits(uint64_t a, uint64_t n) { return a + n - 1 >= a; }

std::vector<int> VectorOutcomes(const Tables& t, const std::vector<uint64_t>& addr,
                                const std::vector<bool>& mask, int el) {
  auto stage = [&](const Table& tab, bool* unresolved, std::vector<int>* targets) {
    *unresolved = false;
    for (size_t i = 0; i < addr.size(); i++) {
      if (!mask[i]) continue;
      int r = tab.Resolve(addr[i], static_cast<uint64_t>(el));
      if (r < 0) {
        *unresolved = true;
      } else if (std::find(targets->begin(), targets->end(), r) == targets->end()) {
        targets->push_back(r);
      }
    }
  };
  bool u1, u2;
  std::vector<int> t1, t2;
  stage(t.memory, &u1, &t1);
  stage(t.tagged, &u2, &t2);
  int second = !u2 && t2.size() == 1 ? t2[0] : kNone;
  if (!u1 && t1.size() == 1) return {t1[0]};
  if (!u1) return {kNone};  // Several targets.
  if (t1.size() <= 1) {
    // A default tagged target after a partial match: not pinned down.
    return {second};
  }
  return {second, kNone};
}

// Makes one access through the interfaces of an initiator.
void Access1(pbt::Src& src, pbt::Ctx& ctx, const Tables& t, Places& pl,
             MemoryInterface* mem, TaggedMemoryInterface* tagged,
             AtomicMemoryOpInterface* atomic, std::vector<std::unique_ptr<Fake>>& fakes,
             DataBufferFactory* f, State* state, int* routed, int* refused) {
  Kind kind = static_cast<Kind>(src.draw(7));
  Call want{kNone, kind};
  std::vector<DataBuffer*> held;
  auto alloc = [&](int n) {
    held.push_back(f->Allocate(n));
    return held.back();
  };
  bool load = kind == kLoad || kind == kVLoad || kind == kTLoad || kind == kOp;
  Instruction* inst = load && src.chance(70) ? new Instruction(0, state) : nullptr;
  Context* context = load && src.chance(50) ? new Context(0) : nullptr;
  if (load) {
    want.inst = inst;
    want.context = context;
  }
  std::vector<int> outcomes;
  calls.clear();
  absl::Status st;
  MemoryInterface* plain = src.flip() ? tagged : mem;
  if (kind == kVLoad || kind == kVStore) {
    int el = src.pick({4, 1, 2, 8});
    int n = static_cast<int>(src.range(1, 6));
    bool stride = n == 1 || src.chance(40);
    std::vector<uint64_t> addr;
    std::vector<bool> mask;
    uint64_t a = pl.Address(src);
    // Many elements, all but perhaps one late one near each other.
    int odd = -1;
    bool many = src.chance(3);
    if (many) {
      n = src.pick({33, 40, 65, 130});
      stride = false;
      if (src.chance(60)) odd = n - 1 - static_cast<int>(src.draw(4));
    }
    if (!Fits(a, static_cast<uint64_t>(n * el))) a -= 64;
    bool any = false;
    for (int i = 0; i < n; i++) {
      if (stride) {
        addr.push_back(a + static_cast<uint64_t>(i * el));
      } else {
        uint64_t b = many ? (i == odd ? pl.Address(src) : a + src.draw(2))
                     : src.chance(50) ? a + src.draw(24)
                                      : pl.Address(src);
        if (!Fits(b, 8)) b -= 64;
        addr.push_back(b);
      }
      bool m = !src.chance(30) || (i + 1 == n && !any);
      any |= m;
      mask.push_back(m);
    }
    DataBuffer* adb = alloc(8 * (stride ? 1 : n));
    DataBuffer* mdb = alloc(n);
    DataBuffer* db = alloc(n * el);
    for (int i = 0; i < adb->size<uint64_t>(); i++) adb->Set<uint64_t>(i, addr[i]);
    std::string s;
    for (int i = 0; i < n; i++) {
      mdb->Set<bool>(i, mask[i]);
      s += (mask[i] ? " " : " !") + pbt::hex(addr[i]);
    }
    want.adb = adb;
    want.mdb = mdb;
    want.db = db;
    want.el = el;
    outcomes = VectorOutcomes(t, addr, mask, el);
    ctx.log(kKindName[kind], " of ", el, " bytes at", s, stride ? " (unit stride)" : "");
    if (kind == kVLoad) {
      plain->Load(adb, mdb, el, db, inst, context);
    } else {
      plain->Store(adb, mdb, el, db);
    }
  } else {
    int size = src.pick({4, 1, 2, 8, 16, 3, 32});
    uint64_t a = pl.Address(src);
    bool tags_only = kind == kTLoad && src.chance(30);
    DataBuffer* tags = nullptr;
    if (kind == kTLoad || kind == kTStore)
      tags = alloc(tags_only ? static_cast<int>(src.range(1, 4)) : std::max(1, size / 8));
    if (tags_only) size = tags->size<uint8_t>() * 8;
    if (!Fits(a, static_cast<uint64_t>(size))) a -= 64;
    DataBuffer* db = tags_only ? nullptr : alloc(size);
    want.address = a;
    want.db = db;
    want.tags = tags;
    uint64_t n = static_cast<uint64_t>(size);
    ctx.log(kKindName[kind], " of ", size, " bytes at ", pbt::hex(a),
            tags_only ? " (just tags)" : "");
    int m = t.memory.Resolve(a, n), g = t.tagged.Resolve(a, n),
        o = t.atomic.Resolve(a, n);
    switch (kind) {
      case kLoad:
      case kStore:
        if (m >= 0) {
          outcomes = {m};
        } else {
          outcomes = {g >= 0 ? g : kNone};
          if (m == kPartial) outcomes.push_back(kNone);
        }
        if (kind == kLoad) {
          plain->Load(a, db, inst, context);
        } else {
          plain->Store(a, db);
        }
        break;
      case kTLoad:
        outcomes = {g >= 0 ? g : kNone};
        tagged->Load(a, db, tags, inst, context);
        break;
      case kTStore:
        outcomes = {g >= 0 ? g : kNone};
        tagged->Store(a, db, tags);
        break;
      default: {
        outcomes = {o >= 0 ? o : kNone};
        auto op = static_cast<AtomicMemoryOpInterface::Operation>(src.draw(12));
        want.op = static_cast<int>(op);
        absl::Status answer =
            src.chance(30) ? absl::InternalError("from the target") : absl::OkStatus();
        for (auto& x : fakes) x->status = answer;
        st = atomic->PerformMemoryOp(a, op, db, inst, context);
        if (outcomes[0] == kNone) {
          PBT_EQ(static_cast<int>(st.code()), static_cast<int>(absl::StatusCode::kNotFound),
                 "status of an operation that is mapped nowhere");
        } else {
          PBT_EQ(static_cast<int>(st.code()), static_cast<int>(answer.code()),
                 "status of the operation");
          PBT_EQ(std::string(st.message()), std::string(answer.message()),
                 "status of the operation");
        }
      }
    }
  }
  int got = calls.empty() ? kNone : calls[0].target;
  PBT_ASSERT(calls.size() <= 1, kKindName[kind] << " delivered " << calls.size() << " times");
  PBT_ASSERT(std::find(outcomes.begin(), outcomes.end(), got) != outcomes.end(),
             kKindName[kind] << " delivered to target " << got << ", oracle says "
                             << outcomes[0]);
  if (got != kNone) {
    want.target = got;
    PBT_ASSERT(calls[0] == want, kKindName[kind] << " delivered as a "
                                                 << kKindName[calls[0].kind]
                                                 << " or with other arguments");
    ++*routed;
  } else {
    ++*refused;
  }
  for (auto* d : held) {
    PBT_EQ(d->ref_count(), 1, "references to a buffer");
    d->DecRef();
  }
  if (inst != nullptr) {
    PBT_EQ(inst->ref_count(), 1, "references to the instruction");
    inst->DecRef();
  }
  if (context != nullptr) {
    PBT_EQ(context->ref_count(), 1, "references to the context");
    context->DecRef();
  }
}

// A range near the places.
void GenRange(pbt::Src& src, Places& pl, uint64_t* base, uint64_t* top) {
  do {
    *base = pl.Address(src);
    switch (src.weighted({6, 2, 1, 1})) {
      case 0: *top = *base + src.range(1, 40); break;
      case 1: *top = pl.Address(src); break;
      case 2: *top = *base + src.interesting(); break;
      default: *top = ~0ull; break;
    }
    if (*base == *top) ++*top;
    if (*top == 0 && *base == ~0ull) *base = ~1ull, *top = ~0ull;
  } while (false);
}

}  // namespace

PBT_SUITE(single_initiator,
          "at least 5 accesses were delivered and 2 refused, with 3 or more ranges",
          240000, 6000000) {
  Places pl(src);
  SingleInitiatorRouter router("router");
  std::vector<std::unique_ptr<Fake>> fakes;
  Tables t;
  DataBufferFactory f;
  State state;
  int routed = 0, refused = 0;
  PBT_EQ(std::string(router.name()), "router", "name of the router");
  // Many small ranges behind one interface.
  bool many = src.chance(4);
  auto add = [&]() {
    int kind = static_cast<int>(many ? src.draw(20) == 1 : src.draw(3));
    // Some targets are mapped at several ranges, and behind several interfaces.
    int id;
    if (!fakes.empty() && src.chance(30)) {
      id = static_cast<int>(src.draw(fakes.size()));
    } else {
      id = static_cast<int>(fakes.size());
      fakes.push_back(std::make_unique<Fake>(id));
    }
    Fake* fk = fakes[id].get();
    Table& tab = kind == 0 ? t.memory : kind == 1 ? t.tagged : t.atomic;
    const char* kn[] = {"memory", "tagged", "atomic"};
    absl::StatusCode want, got;
    if (src.chance(15)) {
      bool null = src.chance(25);
      ctx.log("default ", kn[kind], " target ", null ? -1 : id);
      want = !null && tab.def != kNone ? absl::StatusCode::kAlreadyExists
                                       : absl::StatusCode::kOk;
      if (want == absl::StatusCode::kOk) tab.def = null ? kNone : id;
      absl::Status s =
          kind == 0 ? router.AddDefaultTarget<MemoryInterface>(null ? nullptr : fk)
          : kind == 1
              ? router.AddDefaultTarget<TaggedMemoryInterface>(null ? nullptr : fk)
              : router.AddDefaultTarget<AtomicMemoryOpInterface>(null ? nullptr : fk);
      got = s.code();
    } else {
      uint64_t base, top;
      if (!tab.ranges.empty() && src.chance(15)) {
        auto& r = tab.ranges[src.draw(tab.ranges.size())];
        base = r.base, top = r.top;
        // Adjacent to, or the same as, another range.
        if (src.flip() && r.top < ~0ull - 20) base = r.top + 1, top = base + src.range(1, 16);
      } else {
        GenRange(src, pl, &base, &top);
        if (many) {
          base = pl.Address(src);
          top = base + 1;
          if (top == 0) base--, top--;
        }
      }
      ctx.log(kn[kind], " target ", id, " at [", pbt::hex(base), ", ", pbt::hex(top), "]");
      want = tab.Add(base, top, id);
      absl::Status s = kind == 0 ? router.AddTarget<MemoryInterface>(fk, base, top)
                       : kind == 1
                           ? router.AddTarget<TaggedMemoryInterface>(fk, base, top)
                           : router.AddTarget<AtomicMemoryOpInterface>(fk, base, top);
      got = s.code();
    }
    PBT_EQ(static_cast<int>(got), static_cast<int>(want), "status of adding the target");
  };
  int n = static_cast<int>(many ? src.range(30, 120) : src.range(1, 8));
  for (int i = 0; i < n; i++) add();
  int m = static_cast<int>(src.range(1, 30));
  for (int i = 0; i < m; i++) {
    if (src.chance(10)) add();
    Access1(src, ctx, t, pl, &router, &router, &router, fakes, &f, &state, &routed,
            &refused);
  }
  ctx.nontrivial_if(routed >= 5 && refused >= 2 &&
                    t.memory.ranges.size() + t.tagged.ranges.size() +
                            t.atomic.ranges.size() >= 3);
}

PBT_SUITE(memory_router,
          "two or more initiators and three or more mappings, 5 or more accesses "
          "delivered",
          100000, 3000000) {
  Places pl(src);
  auto router = std::make_unique<MemoryRouter>();
  std::vector<std::unique_ptr<Fake>> fakes;
  struct Init {
    Tables t;
    MemoryInterface* mem = nullptr;
    TaggedMemoryInterface* tagged = nullptr;
    AtomicMemoryOpInterface* atomic = nullptr;
  };
  std::map<std::string, Init> inits;
  std::map<std::string, std::pair<int, int>> targets;  // name -> kind, id
  DataBufferFactory f;
  State state;
  int routed = 0, refused = 0, mappings = 0;
  const std::vector<std::string> names = {"a", "b", "c", "ab", "", "cpu0", "dma"};
  int n = static_cast<int>(src.range(4, 80));
  for (int i = 0; i < n; i++) {
    switch (src.weighted({3, 3, 4, 8})) {
      case 0: {
        std::string name = names[src.draw(names.size())];
        int kind = static_cast<int>(src.draw(3));
        ctx.log("initiator '", name, "' kind ", kind);
        Init& in = inits[name];
        if (kind == 0) {
          MemoryInterface* p = router->AddMemoryInitiator(name);
          PBT_ASSERT(p != nullptr, "no initiator");
          PBT_ASSERT(in.mem == nullptr || in.mem == p, "another memory initiator");
          in.mem = p;
        } else if (kind == 1) {
          TaggedMemoryInterface* p = router->AddTaggedInitiator(name);
          PBT_ASSERT(p != nullptr, "no initiator");
          PBT_ASSERT(in.tagged == nullptr || in.tagged == p, "another tagged initiator");
          in.tagged = p;
        } else {
          AtomicMemoryOpInterface* p = router->AddAtomicInitiator(name);
          PBT_ASSERT(p != nullptr, "no initiator");
          PBT_ASSERT(in.atomic == nullptr || in.atomic == p, "another atomic initiator");
          in.atomic = p;
        }
        break;
      }
      case 1: {
        std::string name = names[src.draw(names.size())];
        int kind = static_cast<int>(src.draw(3));
        int id = static_cast<int>(fakes.size());
        fakes.push_back(std::make_unique<Fake>(id));
        Fake* fk = fakes[id].get();
        ctx.log("target '", name, "' kind ", kind, " is ", id);
        absl::Status s =
            kind == 0 ? router->AddTarget(name, static_cast<MemoryInterface*>(fk))
            : kind == 1
                ? router->AddTarget(name, static_cast<TaggedMemoryInterface*>(fk))
                : router->AddTarget(name, static_cast<AtomicMemoryOpInterface*>(fk));
        bool dup = targets.count(name) > 0;
        PBT_EQ(static_cast<int>(s.code()),
               static_cast<int>(dup ? absl::StatusCode::kAlreadyExists
                                    : absl::StatusCode::kOk),
               "status of adding the target");
        if (!dup) targets[name] = {kind, id};
        break;
      }
      case 2: {
        std::string in = names[src.draw(names.size())], tn = names[src.draw(names.size())];
        // Mostly those which are there.
        if (!inits.empty() && src.chance(80))
          in = std::next(inits.begin(), src.draw(inits.size()))->first;
        if (!targets.empty() && src.chance(80))
          tn = std::next(targets.begin(), src.draw(targets.size()))->first;
        uint64_t base, top;
        GenRange(src, pl, &base, &top);
        ctx.log("map '", in, "' to '", tn, "' at [", pbt::hex(base), ", ", pbt::hex(top),
                "]");
        absl::StatusCode want = absl::StatusCode::kNotFound;
        if (inits.count(in) && targets.count(tn)) {
          auto [kind, id] = targets[tn];
          Tables& t = inits[in].t;
          want = (kind == 0 ? t.memory : kind == 1 ? t.tagged : t.atomic)
                     .Add(base, top, id);
          if (want == absl::StatusCode::kOk) mappings++;
        }
        absl::Status s = router->AddMapping(in, tn, base, top);
        PBT_EQ(static_cast<int>(s.code()), static_cast<int>(want), "status of the mapping");
        break;
      }
      default: {
        if (inits.empty()) break;
        auto& [name, in] = *std::next(inits.begin(), src.draw(inits.size()));
        // All the interfaces of a name are the same initiator.
        if (in.mem == nullptr) in.mem = router->AddMemoryInitiator(name);
        if (in.tagged == nullptr) in.tagged = router->AddTaggedInitiator(name);
        if (in.atomic == nullptr) in.atomic = router->AddAtomicInitiator(name);
        ctx.log("by '", name, "':");
        Access1(src, ctx, in.t, pl, in.mem, in.tagged, in.atomic, fakes, &f, &state,
                &routed, &refused);
      }
    }
  }
  ctx.nontrivial_if(routed >= 5 && inits.size() >= 2 && mappings >= 3);
}
