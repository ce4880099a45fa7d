// What the memory harnesses share: a byte map as the reference memory, an
// architecture state with instructions which record their execution, and a
// generator of loads and stores of every kind.
#ifndef VERIF_HARNESS_MEM_COMMON_H_
#define VERIF_HARNESS_MEM_COMMON_H_

#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/ref_count.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/memory/tagged_memory_interface.h"
#include "pbt.h"

namespace memtest {

using mpact::sim::generic::ArchState;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::Instruction;
using mpact::sim::generic::ReferenceCount;
using mpact::sim::util::MemoryInterface;
using mpact::sim::util::TaggedMemoryInterface;

using Bytes = std::vector<uint8_t>;

inline std::string Show(const Bytes& b) {
  std::string s;
  char buf[4];
  for (uint8_t x : b) {
    snprintf(buf, sizeof buf, "%02x", x);
    s += buf;
  }
  return s;
}
inline Bytes Contents(DataBuffer* db) {
  const uint8_t* p = static_cast<const uint8_t*>(db->raw_ptr());
  return Bytes(p, p + db->size<uint8_t>());
}

// The reference: a byte for every (address, byte within the addressable unit).
struct ByteMap {
  int unit = 1;
  uint8_t fill = 0;
  std::map<std::pair<uint64_t, int>, uint8_t> m;
  uint8_t Get(uint64_t a, int i) const {
    auto it = m.find({a + static_cast<uint64_t>(i / unit), i % unit});
    return it == m.end() ? fill : it->second;
  }
  Bytes Read(uint64_t a, int n) const {
    Bytes b;
    for (int i = 0; i < n; i++) b.push_back(Get(a, i));
    return b;
  }
  void Write(uint64_t a, const uint8_t* p, int n) {
    for (int i = 0; i < n; i++)
      m[{a + static_cast<uint64_t>(i / unit), i % unit}] = p[i];
  }
};

// One element access of an operation.
struct Access {
  bool load;
  uint64_t address;
  int size;
};

class State : public ArchState {
 public:
  State() : ArchState("test") {}
};

struct Context : public ReferenceCount {
  explicit Context(int id) : id(id) {}
  int id;
};

// Loads which execute an instruction when they are done.
class Rig {
 public:
  // Sets up an instruction and, perhaps, a context for a load into db; the
  // caller's references are dropped by Issued(), right after the load call.
  void Prepare(pbt::Src& src, DataBuffer* db, int latency) {
    inst = nullptr;
    context = nullptr;
    db->set_latency(latency);
    cur_db = db;
    if (src.chance(25)) {
      // No instruction: nothing is executed, the context is not kept.
      if (src.chance(30)) context = NewContext();
      return;
    }
    int id = next_id_++;
    inst = new Instruction(static_cast<uint64_t>(id), &state);
    if (src.chance(60)) context = NewContext();
    Context* c = context;
    inst->set_semantic_function([this, id, c, db](Instruction* i) {
      executed.push_back(id);
      if (i->context() != c) wrong_context = id;
      if (check_db.count(id) && Contents(db) != check_db[id]) wrong_data = id;
    });
    due[now + latency].push_back(id);
    cur_id = id;
    cur_latency = latency;
    db->IncRef();
    held_db[id] = db;
  }
  // want: what the load has to have put in the buffer.
  void Issued(const Bytes& want, const char* what) {
    PBT_ASSERT(Contents(cur_db) == want, what << " got " << Show(Contents(cur_db))
                                              << ", oracle says " << Show(want));
    if (inst != nullptr) {
      check_db[cur_id] = want;
      PBT_EQ(cur_db->latency(), cur_latency, what << ": latency of the buffer");
      inst->DecRef();  // The memory has to keep it alive.
      Check(what);
    } else {
      Check(what);
    }
  }
  void Check(const char* what) {
    auto it = due.find(now);
    std::vector<int> want;
    if (it != due.end()) {
      want = it->second;
      due.erase(it);
    }
    PBT_EQ(executed.size(), want.size(), what << ": instructions executed at cycle "
                                              << now);
    std::sort(executed.begin(), executed.end());
    std::sort(want.begin(), want.end());
    PBT_ASSERT(executed == want, what << ": wrong instruction executed");
    for (int id : executed) {
      auto h = held_db.find(id);
      if (h != held_db.end()) {
        h->second->DecRef();
        held_db.erase(h);
      }
    }
    executed.clear();
    PBT_EQ(wrong_context, -1, what << ": instruction executed with another context");
    PBT_EQ(wrong_data, -1, what << ": instruction executed with other data");
  }
  void Advance() {
    now++;
    state.AdvanceDelayLines();
    Check("advance");
  }
  void Finish() {
    while (!due.empty()) Advance();
    Advance();
    for (auto& c : contexts) {
      PBT_EQ(c->ref_count(), 1, "references left to context " << c->id);
      c->DecRef();
    }
    contexts.clear();
  }
  ~Rig() {
    // (Only reached with all of them executed unless the case failed.)
  }
  Context* NewContext() {
    contexts.push_back(new Context(static_cast<int>(contexts.size())));
    return contexts.back();
  }

  State state;
  long now = 0;
  Instruction* inst = nullptr;
  Context* context = nullptr;
  DataBuffer* cur_db = nullptr;
  int cur_id = -1, cur_latency = 0;
  std::vector<int> executed;
  int wrong_context = -1, wrong_data = -1;
  std::map<long, std::vector<int>> due;
  std::map<int, Bytes> check_db;
  std::map<int, DataBuffer*> held_db;
  std::vector<Context*> contexts;

 private:
  int next_id_ = 0;
};

struct Options {
  int unit = 1;
  // An address (in units) at which `units` units can be accessed.
  std::function<uint64_t(pbt::Src&, uint64_t units)> address;
  // Whether accesses smaller than, or not a multiple of, the unit are made.
  bool odd_sizes = true;
  bool vectors = true;
  // How often (percent) a vector access has many elements; whether there is
  // room for unit stride accesses of that length.
  int long_pct = 0;
  bool long_stride = false;
  std::vector<int> scalar_sizes = {1, 2, 4, 8, 3, 5, 16, 7, 32};
};

inline int UnitsOf(int size, int unit) { return (size + unit - 1) / unit; }

// Makes one plain (untagged) load or store, compares it with the model, and
// returns the element accesses it made.
inline std::vector<Access> PlainOp(pbt::Src& src, pbt::Ctx& ctx, const Options& o,
                                   MemoryInterface* mem, ByteMap* model, Rig* rig,
                                   DataBufferFactory* f) {
  std::vector<Access> acc;
  int kind = o.vectors ? src.weighted({4, 4, 3, 3}) : src.weighted({4, 4});
  auto fill_db = [&](DataBuffer* db) {
    uint8_t* p = static_cast<uint8_t*>(db->raw_ptr());
    uint64_t seed = src.u64();
    for (int i = 0; i < db->size<uint8_t>(); i++) {
      if (i % 8 == 0 && i > 0) seed = seed * 6364136223846793005ull + 1442695040888963407ull;
      p[i] = static_cast<uint8_t>(seed >> (8 * (i % 8)));
    }
  };
  if (kind <= 1) {
    int size = o.scalar_sizes[src.draw(o.scalar_sizes.size())];
    if (!o.odd_sizes) size = std::max(o.unit, size / o.unit * o.unit);
    uint64_t a = o.address(src, static_cast<uint64_t>(UnitsOf(size, o.unit)));
    DataBuffer* db = f->Allocate(size);
    fill_db(db);
    if (kind == 0) {
      int latency = src.chance(50) ? 0 : static_cast<int>(src.range(1, 5));
      ctx.log("load ", size, " bytes at ", pbt::hex(a), " latency ", latency);
      rig->Prepare(src, db, latency);
      mem->Load(a, db, rig->inst, rig->context);
      rig->Issued(model->Read(a, size), "load");
      acc.push_back({true, a, size});
    } else {
      ctx.log("store ", Show(Contents(db)), " at ", pbt::hex(a));
      Bytes before = Contents(db);
      mem->Store(a, db);
      PBT_ASSERT(Contents(db) == before, "store changes its data");
      model->Write(a, before.data(), size);
      acc.push_back({false, a, size});
    }
    PBT_EQ(db->ref_count(), rig->held_db.count(rig->cur_id) && kind == 0 &&
                                    rig->inst != nullptr
                                ? 2
                                : 1,
           "references to the buffer");
    db->DecRef();
    return acc;
  }
  bool load = kind == 2;
  int el = src.pick({4, 1, 2, 8});
  if (!o.odd_sizes) el = std::max(o.unit, el);
  if (el > 8) el = 8;
  int n = static_cast<int>(src.range(1, 8));
  bool stride = n == 1 || src.chance(50);
  if (o.long_pct > 0 && src.chance(o.long_pct)) {
    n = src.pick({65, 33, 40, 100, 129, 260});
    stride = o.long_stride && src.chance(50);
  }
  int eu = UnitsOf(el, o.unit);
  std::vector<uint64_t> addr;
  if (stride) {
    uint64_t a = o.address(src, static_cast<uint64_t>(n * eu));
    for (int i = 0; i < n; i++) addr.push_back(a + static_cast<uint64_t>(i * eu));
  } else {
    for (int i = 0; i < n; i++)
      addr.push_back(o.address(src, static_cast<uint64_t>(eu)));
  }
  DataBuffer* mask_db = f->Allocate<bool>(n);
  DataBuffer* db = f->Allocate(n * el);
  DataBuffer* addr_db = f->Allocate<uint64_t>(stride ? 1 : n);
  fill_db(db);
  std::string m;
  bool any = false;
  for (int i = 0; i < n; i++) {
    bool b = !src.chance(30);
    if (i + 1 == n && !any) b = true;
    any |= b;
    mask_db->Set<bool>(i, b);
    m += b ? '1' : '0';
    if (b) acc.push_back({load, addr[i], el});
  }
  for (int i = 0; i < addr_db->size<uint64_t>(); i++)
    addr_db->Set<uint64_t>(i, addr[i]);
  if (ctx.logging()) {
    std::string as;
    for (int i = 0; i < addr_db->size<uint64_t>(); i++) as += pbt::hex(addr[i]) + " ";
    ctx.log(stride ? "unit stride " : load ? "gather " : "scatter ",
            load ? "load" : "store", " of ", n, " x ", el, " bytes at ", as, " mask ",
            m, " buffer ", Show(Contents(db)));
  }
  Bytes want = Contents(db), am = Contents(addr_db), mm = Contents(mask_db);
  if (load) {
    for (int i = 0; i < n; i++) {
      if (!mask_db->Get<bool>(i)) continue;
      Bytes b = model->Read(addr[i], el);
      std::copy(b.begin(), b.end(), want.begin() + i * el);
    }
    rig->Prepare(src, db, src.chance(50) ? 0 : static_cast<int>(src.range(1, 5)));
    mem->Load(addr_db, mask_db, el, db, rig->inst, rig->context);
    rig->Issued(want, "vector load");
  } else {
    mem->Store(addr_db, mask_db, el, db);
    PBT_ASSERT(Contents(db) == want, "vector store changes its data");
    for (int i = 0; i < n; i++)
      if (mask_db->Get<bool>(i)) model->Write(addr[i], want.data() + i * el, el);
  }
  PBT_ASSERT(Contents(addr_db) == am && Contents(mask_db) == mm,
             "vector access changes its addresses or mask");
  PBT_EQ(addr_db->ref_count(), 1, "references to the addresses");
  PBT_EQ(mask_db->ref_count(), 1, "references to the mask");
  addr_db->DecRef();
  mask_db->DecRef();
  db->DecRef();
  return acc;
}

// A tagged memory: the bytes, and a tag per granule.
struct TagModel {
  uint64_t granule = 8;
  std::map<uint64_t, uint8_t> tag;  // granule number -> tag
  Bytes At(uint64_t a, int n) const {
    Bytes b;
    for (int i = 0; i < n; i++) {
      auto it = tag.find(a / granule + static_cast<uint64_t>(i));
      b.push_back(it == tag.end() ? 0 : it->second);
    }
    return b;
  }
  // An untagged store drops the tags of the granules it touches.
  void Stored(const std::vector<Access>& acc) {
    for (auto& x : acc) {
      if (x.load) continue;
      for (int i = 0; i < x.size; i++)
        tag.erase((x.address + static_cast<uint64_t>(i)) / granule);
    }
  }
};

struct TaggedAccess {
  bool load;
  uint64_t address;
  int size;
  bool tags_only;
};

// Makes one tagged load or store of whole granules.
inline TaggedAccess TaggedOp(pbt::Src& src, pbt::Ctx& ctx, const Options& o,
                             TaggedMemoryInterface* mem, ByteMap* model, TagModel* tm,
                             Rig* rig, DataBufferFactory* f) {
  int n = static_cast<int>(src.range(1, 4));
  int g = static_cast<int>(tm->granule);
  uint64_t a = o.address(src, static_cast<uint64_t>((n + 1) * g));
  a = (a + tm->granule - 1) / tm->granule * tm->granule;
  bool load = src.flip();
  bool only = load && src.chance(35);
  DataBuffer* db = f->Allocate(n * g);
  DataBuffer* tdb = f->Allocate(n);
  for (int i = 0; i < n * g; i++)
    db->Set<uint8_t>(i, static_cast<uint8_t>(src.draw(256)));
  for (int i = 0; i < n; i++)
    tdb->Set<uint8_t>(i, static_cast<uint8_t>(src.chance(60) ? 1 : src.draw(256)));
  if (load) {
    int latency = src.chance(50) ? 0 : static_cast<int>(src.range(1, 4));
    ctx.log("tagged load of ", n, " granules at ", pbt::hex(a), only ? " tags only" : "");
    Bytes wt = tm->At(a, n);
    rig->Prepare(src, only ? tdb : db, latency);
    mem->Load(a, only ? nullptr : db, tdb, rig->inst, rig->context);
    PBT_ASSERT(Contents(tdb) == wt, "tags loaded " << Show(Contents(tdb))
                                                   << ", oracle says " << Show(wt));
    rig->Issued(only ? wt : model->Read(a, n * g), "tagged load");
  } else {
    ctx.log("tagged store of ", n, " granules at ", pbt::hex(a), " tags ",
            Show(Contents(tdb)));
    Bytes b = Contents(db), t = Contents(tdb);
    mem->Store(a, db, tdb);
    PBT_ASSERT(Contents(db) == b && Contents(tdb) == t, "store changes its data");
    model->Write(a, b.data(), n * g);
    for (int i = 0; i < n; i++) tm->tag[a / tm->granule + static_cast<uint64_t>(i)] = t[i];
  }
  db->DecRef();
  tdb->DecRef();
  return {load, a, n * g, only};
}

// Reads every tag the model knows of, and its surroundings.
inline void SweepTags(TaggedMemoryInterface* mem, const TagModel& tm,
                      DataBufferFactory* f, const std::function<bool(uint64_t)>& readable) {
  std::set<uint64_t> gs;
  for (auto& [k, v] : tm.tag)
    for (int64_t d = -2; d <= 2; d++) gs.insert(k + static_cast<uint64_t>(d));
  DataBuffer* tdb = f->Allocate(1);
  tdb->set_latency(0);
  for (uint64_t g : gs) {
    uint64_t a = g * tm.granule;
    if (g > ~uint64_t{0} / tm.granule || !readable(a)) continue;
    mem->Load(a, nullptr, tdb, nullptr, nullptr);
    PBT_ASSERT(Contents(tdb) == tm.At(a, 1),
               "tag at " << pbt::hex(a) << " is " << Show(Contents(tdb))
                         << ", oracle says " << Show(tm.At(a, 1)));
  }
  tdb->DecRef();
}

// Reads every byte the model knows of, and its surroundings.
inline void Sweep(MemoryInterface* mem, const ByteMap& model, DataBufferFactory* f,
                  const std::function<bool(uint64_t)>& readable) {
  std::map<uint64_t, int> units;
  for (auto& [k, v] : model.m)
    for (int64_t d = -2; d <= 2; d++) units[k.first + static_cast<uint64_t>(d)] = 1;
  DataBuffer* db = f->Allocate(model.unit);
  db->set_latency(0);
  for (auto& [a, x] : units) {
    if (!readable(a)) continue;
    mem->Load(a, db, nullptr, nullptr);
    PBT_ASSERT(Contents(db) == model.Read(a, model.unit),
               "memory at " << pbt::hex(a) << " is " << Show(Contents(db))
                            << ", oracle says " << Show(model.Read(a, model.unit)));
  }
  db->DecRef();
}

}  // namespace memtest

#endif
