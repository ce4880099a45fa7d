// C01: DataBuffer contents and DataBufferFactory storage.
#include <memory>
#include <numeric>
#include <set>

#include "mpact/sim/generic/data_buffer.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {

// Keeps the buffer it was given last, and counts.
struct Keeper : DataBufferDestination {
  void SetDataBuffer(DataBuffer* db) override {
    count++;
    db->IncRef();
    if (cur != nullptr) cur->DecRef();
    cur = db;
  }
  void Drop() {
    if (cur != nullptr) cur->DecRef();
    cur = nullptr;
  }
  int count = 0;
  DataBuffer* cur = nullptr;
};

struct Model {
  DataBuffer* db;
  int factory;
  int refs;
  std::vector<uint8_t> bytes;
  std::vector<bool> defined;  // fresh storage has unspecified contents
};

template <typename T>
T MakeValue(pbt::Src& src) {
  uint64_t v = src.interesting();
  T t;
  std::memcpy(&t, &v, sizeof(T));
  return t;
}
template <>
bool MakeValue<bool>(pbt::Src& src) {
  return src.flip();
}

template <typename T>
void ModelWrite(Model& m, int index, T value) {
  uint8_t b[sizeof(T)];
  std::memcpy(b, &value, sizeof(T));
  for (size_t k = 0; k < sizeof(T); k++) {
    m.bytes[index * sizeof(T) + k] = b[k];
    m.defined[index * sizeof(T) + k] = true;
  }
}

template <typename T>
bool Defined(const Model& m, int index) {
  for (size_t k = 0; k < sizeof(T); k++)
    if (!m.defined[index * sizeof(T) + k]) return false;
  return true;
}

template <typename T>
void CheckTyped(const Model& m, const char* type) {
  int n = static_cast<int>(m.bytes.size() / sizeof(T));
  PBT_EQ(m.db->size<T>(), n, "size<" << type << "> of a " << m.bytes.size()
                                     << "-byte buffer");
  auto span = m.db->Get<T>();
  PBT_EQ(static_cast<int>(span.size()), n, "span size as " << type);
  for (int i = 0; i < n; i++) {
    if (!Defined<T>(m, i)) continue;
    T want, got = m.db->Get<T>(i), sp = span[i];
    std::memcpy(&want, &m.bytes[i * sizeof(T)], sizeof(T));
    if (std::memcmp(&got, &want, sizeof(T)) != 0)
      PBT_FAIL("Get<" << type << ">(" << i << ") of a " << m.bytes.size()
                      << "-byte buffer does not return the bytes written");
    if (std::memcmp(&sp, &want, sizeof(T)) != 0)
      PBT_FAIL("element " << i << " of the " << type << " span of a "
                          << m.bytes.size()
                          << "-byte buffer is not what was written");
  }
}

void CheckBuffer(const Model& m) {
  PBT_EQ(m.db->ref_count(), m.refs, "reference count");
  PBT_EQ(m.db->size<uint8_t>(), static_cast<int>(m.bytes.size()), "byte size");
  std::vector<uint8_t> out(m.bytes.size() + 8, 0xa5);
  m.db->CopyTo(out.data());
  auto* raw = static_cast<uint8_t*>(m.db->raw_ptr());
  for (size_t i = 0; i < m.bytes.size(); i++) {
    if (!m.defined[i]) continue;
    PBT_EQ(out[i], m.bytes[i], "CopyTo byte " << i << " of " << m.bytes.size());
    PBT_EQ(raw[i], m.bytes[i], "raw byte " << i << " of " << m.bytes.size());
  }
  for (int k = 0; k < 8; k++)
    PBT_EQ(out[m.bytes.size() + k], 0xa5, "CopyTo wrote past the buffer");
}

void CheckAllTypes(const Model& m) {
  CheckTyped<uint8_t>(m, "uint8_t");
  CheckTyped<int8_t>(m, "int8_t");
  CheckTyped<uint16_t>(m, "uint16_t");
  CheckTyped<int16_t>(m, "int16_t");
  CheckTyped<uint32_t>(m, "uint32_t");
  CheckTyped<int32_t>(m, "int32_t");
  CheckTyped<uint64_t>(m, "uint64_t");
  CheckTyped<int64_t>(m, "int64_t");
  CheckTyped<float>(m, "float");
  CheckTyped<double>(m, "double");
}

void CheckDisjoint(const std::vector<Model>& live) {
  std::vector<std::pair<uintptr_t, uintptr_t>> r;
  for (auto& m : live) {
    auto p = reinterpret_cast<uintptr_t>(m.db->raw_ptr());
    if (!m.bytes.empty()) r.push_back({p, p + m.bytes.size()});
  }
  std::sort(r.begin(), r.end());
  for (size_t i = 1; i < r.size(); i++)
    PBT_ASSERT(r[i].first >= r[i - 1].second,
               "two live buffers share storage");
}

template <typename T>
bool WriteTyped(pbt::Src& src, pbt::Ctx& ctx, Model& m, const char* type) {
  int n = static_cast<int>(m.bytes.size() / sizeof(T));
  if (n == 0) return false;
  if (src.flip()) {
    int i = src.chance(40) ? n - 1 : static_cast<int>(src.draw(n));
    T v = MakeValue<T>(src);
    ctx.log("Set<", type, ">(", i, ") of ", m.bytes.size(), " bytes");
    m.db->Set<T>(i, v);
    ModelWrite<T>(m, i, v);
  } else {
    int k = src.chance(50) ? n : static_cast<int>(src.draw(n + 1));
    k = std::min(k, 40);
    std::unique_ptr<T[]> vals(new T[k + 1]);
    for (int i = 0; i < k; i++) vals[i] = MakeValue<T>(src);
    ctx.log("Set<", type, ">(span of ", k, ") of ", m.bytes.size(), " bytes");
    m.db->Set<T>(absl::Span<const T>(vals.get(), k));
    for (int i = 0; i < k; i++) ModelWrite<T>(m, i, vals[i]);
  }
  return true;
}

bool WriteSome(pbt::Src& src, pbt::Ctx& ctx, Model& m) {
  switch (src.draw(10)) {
    case 0: return WriteTyped<uint8_t>(src, ctx, m, "uint8_t");
    case 1: return WriteTyped<int8_t>(src, ctx, m, "int8_t");
    case 2: return WriteTyped<uint16_t>(src, ctx, m, "uint16_t");
    case 3: return WriteTyped<int16_t>(src, ctx, m, "int16_t");
    case 4: return WriteTyped<uint32_t>(src, ctx, m, "uint32_t");
    case 5: return WriteTyped<int32_t>(src, ctx, m, "int32_t");
    case 6: return WriteTyped<uint64_t>(src, ctx, m, "uint64_t");
    case 7: return WriteTyped<int64_t>(src, ctx, m, "int64_t");
    case 8: return WriteTyped<float>(src, ctx, m, "float");
    default: return WriteTyped<double>(src, ctx, m, "double");
  }
}

int PickSize(pbt::Src& src, bool large) {
  if (large) {
    switch (src.draw(5)) {
      case 0: return static_cast<int>(src.range(0, 40));
      case 1: return static_cast<int>(src.range(4090, 4102));
      case 2: return src.pick({4095, 4096, 4097, 5000, 8192});
      case 3: return src.pick({4096, 4097, 8192, 65536});
      default: return src.pick({1, 4, 8, 16, 64, 256});
    }
  }
  return src.chance(70) ? src.pick({1, 2, 4, 8, 16, 32, 64})
                        : static_cast<int>(src.range(0, 130));
}

void History(pbt::Src& src, pbt::Ctx& ctx, bool large) {
  std::vector<std::unique_ptr<DataBufferFactory>> factories;
  int nf = src.chance(30) ? 2 : 1;
  for (int i = 0; i < nf; i++)
    factories.push_back(std::make_unique<DataBufferFactory>());
  std::vector<Model> live;
  std::vector<int> recent_sizes;
  int recycled = 0, reused = 0;
  std::multiset<int> free_sizes;
  Keeper keeper;
  DataBuffer* kept = nullptr;  // what the keeper must hold
  int steps = static_cast<int>(src.range(1, 40));
  auto add = [&](DataBuffer* db, int f, int size) -> Model& {
    PBT_ASSERT(db != nullptr, "allocation of " << size << " bytes failed");
    PBT_EQ(db->ref_count(), 1, "references of a newly allocated buffer");
    PBT_EQ(db->size<uint8_t>(), size, "size of a newly allocated buffer");
    live.push_back({db, f, 1, std::vector<uint8_t>(size),
                    std::vector<bool>(size, false)});
    auto it = free_sizes.find(size);
    if (it != free_sizes.end()) {
      reused++;
      free_sizes.erase(it);
    }
    CheckDisjoint(live);
    return live.back();
  };
  for (int s = 0; s < steps; s++) {
    int op = src.weighted({20, 25, 8, 8, 6, 6, 16, 3, 8});
    int f = nf == 1 ? 0 : static_cast<int>(src.draw(2));
    size_t bi = live.empty() ? 0 : src.draw(live.size());
    if (live.empty() && op != 7) op = 0;
    // The keeper's reference is not ours to give.
    if ((op == 6 || op == 8) && live[bi].db == kept && live[bi].refs == 1) op = 1;
    switch (op) {
      case 0: {
        int size = !recent_sizes.empty() && src.chance(50)
                       ? src.pick(recent_sizes)
                       : PickSize(src, large);
        recent_sizes.push_back(size);
        DataBuffer* db;
        int how = static_cast<int>(src.draw(4));
        if (how == 1 && size % 4 == 0) {
          ctx.log("Allocate<uint32_t>(", size / 4, ")");
          db = factories[f]->Allocate<uint32_t>(size / 4);
        } else if (how == 2 && size % 8 == 0) {
          ctx.log("Allocate<uint64_t>(", size / 8, ")");
          db = factories[f]->Allocate<uint64_t>(size / 8);
        } else {
          ctx.log("Allocate(", size, ")");
          db = factories[f]->Allocate(size);
        }
        Model& m = add(db, f, size);
        // A buffer straight from the factory has no destination and no latency.
        PBT_EQ(db->latency(), 0, "latency of a newly allocated buffer");
        if (src.chance(15)) {
          // It goes nowhere when submitted as it is.
          int count = keeper.count;
          db->IncRef();
          db->Submit();
          PBT_EQ(keeper.count, count, "a newly allocated buffer has a destination");
          PBT_EQ(db->ref_count(), 1, "references after Submit without a destination");
        }
        if (src.chance(70)) {
          for (size_t i = 0; i < m.bytes.size(); i++) {
            m.bytes[i] = static_cast<uint8_t>(i * 37 + 11 * live.size() + s);
            m.defined[i] = true;
          }
          db->CopyFrom(m.bytes.data());
        }
        break;
      }
      case 1:
        WriteSome(src, ctx, live[bi]);
        break;
      case 2: {
        auto bytes = live[bi].bytes;
        auto def = live[bi].defined;
        ctx.log("MakeCopyOf buffer of ", bytes.size());
        auto* db = factories[f]->MakeCopyOf(live[bi].db);
        PBT_ASSERT(db != live[bi].db, "MakeCopyOf returned its argument");
        Model& m = add(db, f, static_cast<int>(bytes.size()));
        m.bytes = bytes;
        m.defined = def;
        break;
      }
      case 3: {
        size_t bj = src.draw(live.size());
        if (bi != bj && live[bi].bytes.size() == live[bj].bytes.size()) {
          ctx.log("CopyFrom buffer, ", live[bi].bytes.size(), " bytes");
          live[bi].db->CopyFrom(live[bj].db);
          live[bi].bytes = live[bj].bytes;
          live[bi].defined = live[bj].defined;
        }
        break;
      }
      case 4: {
        auto& m = live[bi];
        for (size_t i = 0; i < m.bytes.size(); i++) {
          m.bytes[i] = static_cast<uint8_t>(s * 31 + i * 7);
          m.defined[i] = true;
        }
        ctx.log("CopyFrom bytes, ", m.bytes.size());
        m.db->CopyFrom(m.bytes.data());
        break;
      }
      case 5:
        ctx.log("IncRef");
        live[bi].db->IncRef();
        live[bi].refs++;
        break;
      case 6: {
        ctx.log("DecRef of ", live[bi].bytes.size(), "-byte buffer with ",
                live[bi].refs, " refs");
        if (src.chance(20)) live[bi].db->set_latency(3);
        int refs = --live[bi].refs;
        auto* db = live[bi].db;
        if (refs == 0) {
          free_sizes.insert(static_cast<int>(live[bi].bytes.size()));
          live.erase(live.begin() + bi);
          recycled++;
        }
        db->DecRef();
        break;
      }
      case 7:
        ctx.log("Clear()");
        factories[f]->Clear();
        free_sizes.clear();
        ctx.label("clear");
        break;
      case 8: {
        // Submitting gives away one reference.
        auto& m = live[bi];
        bool to_keeper = src.flip();
        // What the keeper holds now is given back, unless it is this one.
        if (to_keeper) {
          m.db->set_destination(&keeper);
        }
        ctx.log("Submit(0) of ", m.bytes.size(), "-byte buffer with ", m.refs,
                " refs", to_keeper ? " to a keeper" : "");
        if (!to_keeper) m.db->set_destination(nullptr);
        auto* db = m.db;
        int count = keeper.count;
        auto lose = [&](DataBuffer* b) {
          for (size_t k = 0; k < live.size(); k++)
            if (live[k].db == b && --live[k].refs == 0) {
              free_sizes.insert(static_cast<int>(live[k].bytes.size()));
              live.erase(live.begin() + k);
              recycled++;
              return;
            }
        };
        db->Submit(0);
        PBT_EQ(keeper.count, count + (to_keeper ? 1 : 0), "buffers delivered by Submit(0)");
        if (to_keeper) {
          PBT_ASSERT(keeper.cur == db, "Submit(0) delivered another buffer");
          m.refs++;
          if (kept != nullptr) lose(kept);
          kept = db;
        }
        lose(db);
        break;
      }
    }
    for (auto& m : live) CheckBuffer(m);
    if (!live.empty()) CheckAllTypes(live[src.draw(live.size())]);
  }
  for (auto& m : live) CheckAllTypes(m);
  if (kept != nullptr) {
    for (auto& m : live)
      if (m.db == kept) m.refs--;
    keeper.Drop();
  }
  for (auto& m : live)
    for (; m.refs > 0; m.refs--) m.db->DecRef();
  if (reused) ctx.label("reused a recycled buffer");
  if (recycled) ctx.label("recycled");
  ctx.nontrivial_if(steps >= 3 && (reused || live.size() >= 2));
}

}  // namespace

PBT_SUITE(history_small,
          "at least three operations and two live buffers or a buffer reused "
          "after recycling",
          200000, 3000000) {
  History(src, ctx, false);
}

PBT_SUITE(history_large,
          "as history_small, with sizes around and above the factory's short "
          "size",
          12000, 150000) {
  History(src, ctx, true);
}

// Exhaustive over small sizes: every element of every type is independent.
PBT_SUITE(elements, "buffer of at least two elements", 60000, 600000) {
  DataBufferFactory f;
  int size = static_cast<int>(src.range(1, 48));
  Model m{f.Allocate(size), 0, 1, std::vector<uint8_t>(size),
          std::vector<bool>(size, true)};
  for (int i = 0; i < size; i++) m.bytes[i] = static_cast<uint8_t>(src.draw(256));
  m.db->CopyFrom(m.bytes.data());
  int n = static_cast<int>(src.range(1, 6));
  for (int k = 0; k < n; k++) {
    WriteSome(src, ctx, m);
    CheckBuffer(m);
    CheckAllTypes(m);
  }
  ctx.nontrivial_if(size >= 2);
  m.db->DecRef();
}

// Pools of many buffers, of all sizes.
PBT_SUITE(many_buffers, "at least 100 buffers live at once", 1500, 30000) {
  DataBufferFactory f;
  struct One {
    DataBuffer* db;
    int size;
    uint8_t fill;
  };
  std::vector<One> live;
  int sizes[3];
  for (int& s : sizes)
    s = src.weighted({3, 3, 1}) == 2
            ? src.pick({65535, 65536, 65537, 70000, 1 << 17, 1 << 20})
            : static_cast<int>(src.flip() ? src.range(1, 64) : src.range(4090, 4400));
  int rounds = static_cast<int>(src.range(1, 4)), most = 0;
  auto touch = [](const One& o) {
    auto* p = static_cast<uint8_t*>(o.db->raw_ptr());
    p[0] = o.fill;
    p[o.size / 2] = o.fill;
    p[o.size - 1] = o.fill;
  };
  auto verify = [](const One& o) {
    PBT_EQ(o.db->size<uint8_t>(), o.size, "size");
    PBT_EQ(o.db->ref_count(), 1, "references");
    PBT_EQ(o.db->Get<uint8_t>(0), o.fill, "first byte of one of many buffers");
    PBT_EQ(o.db->Get<uint8_t>(o.size / 2), o.fill, "middle byte of one of many buffers");
    PBT_EQ(o.db->Get<uint8_t>(o.size - 1), o.fill, "last byte of one of many buffers");
  };
  for (int r = 0; r < rounds; r++) {
    int which = static_cast<int>(src.draw(3));
    int n = static_cast<int>(src.pick({20, 70, 130, 260, 520}) + src.draw(9));
    if (sizes[which] > 60000) n = std::min(n, 24);
    ctx.log("allocate ", n, " buffers of ", sizes[which]);
    for (int i = 0; i < n; i++) {
      One o{f.Allocate(sizes[which]), sizes[which], static_cast<uint8_t>(i + 7 * r)};
      PBT_EQ(o.db->ref_count(), 1, "references of a newly allocated buffer");
      PBT_EQ(o.db->size<uint8_t>(), o.size, "size of a newly allocated buffer");
      touch(o);
      live.push_back(o);
    }
    most = std::max(most, static_cast<int>(live.size()));
    std::set<const DataBuffer*> distinct;
    for (auto& o : live) {
      verify(o);
      PBT_ASSERT(distinct.insert(o.db).second, "a buffer was handed out twice");
    }
    int keep = src.flip() ? 0 : static_cast<int>(src.draw(live.size() + 1));
    bool front = src.flip();
    ctx.log("release all but ", keep, front ? " from the first" : " from the last");
    while (static_cast<int>(live.size()) > keep) {
      size_t k = front ? 0 : live.size() - 1;
      verify(live[k]);
      live[k].db->DecRef();
      live.erase(live.begin() + k);
    }
  }
  for (auto& o : live) {
    verify(o);
    o.db->DecRef();
  }
  ctx.nontrivial_if(most >= 100);
}

// A buffer lives until its last reference goes, however many there were.
PBT_SUITE(many_references, "more than 255 references taken", 600, 12000) {
  DataBufferFactory f;
  DataBuffer* db = f.Allocate(8);
  db->Set<uint64_t>(0, 0x0123456789abcdefULL);
  long refs = 1, taken = 1;
  int steps = static_cast<int>(src.range(1, 5));
  auto check = [&]() {
    PBT_EQ(db->ref_count(), static_cast<int>(refs), "reference count");
    PBT_EQ(db->Get<uint64_t>(0), 0x0123456789abcdefULL, "contents");
    auto* other = f.Allocate(8);
    PBT_ASSERT(other != db, "a buffer with " << refs << " references was handed out again");
    other->DecRef();
  };
  for (int s = 0; s < steps; s++) {
    long n = src.pick({1, 100, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 131072});
    switch (src.draw(3)) {
      case 0:
        ctx.log("IncRef x", n);
        for (long i = 0; i < n; i++) {
          db->IncRef();
          refs++;
          taken++;
          if ((i & 0x3fff) == 0x3fff) check();
        }
        break;
      case 1:
        n = std::min(n, refs - 1);
        ctx.log("DecRef x", n);
        for (long i = 0; i < n; i++) db->DecRef();
        refs -= n;
        break;
      default:
        ctx.log("IncRef, DecRef x", n);
        for (long i = 0; i < n; i++) {
          db->IncRef();
          db->DecRef();
          taken++;
        }
    }
    check();
  }
  for (; refs > 1; refs--) db->DecRef();
  check();
  db->DecRef();
  auto* other = f.Allocate(8);
  PBT_ASSERT(other->ref_count() == 1, "references of a recycled buffer");
  other->DecRef();
  ctx.nontrivial_if(taken > 255);
}
