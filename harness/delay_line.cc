// C02: delayed delivery.
#include <deque>
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {

// ----- the bare template ----------------------------------------------------
struct World {
  std::vector<int> fired;
};
struct Rec {
  Rec(World* w, int id) : w(w), id(id) {}
  void Apply() { w->fired.push_back(id); }
  World* w;
  int id;
};

int PickLatency(pbt::Src& src, int depth) {
  switch (src.draw(6)) {
    case 0: return static_cast<int>(src.range(1, 3));
    case 1: return static_cast<int>(src.range(std::max(1, depth - 1), depth + 1));
    case 2: return 1 << src.draw(8);
    case 3: return (1 << src.range(1, 7)) - 1;
    case 4: return (1 << src.range(0, 7)) + 1;
    default: return static_cast<int>(src.range(1, 70));
  }
}

// The reference: entries due at an absolute cycle, in order of entry.
struct Due {
  std::map<long, std::vector<int>> due;
  long now = 0;
  int count = 0;
  void Add(int latency, int id) {
    due[now + latency].push_back(id);
    count++;
  }
  std::vector<int> Advance() {
    now++;
    std::vector<int> v;
    auto it = due.find(now);
    if (it != due.end()) {
      v = it->second;
      due.erase(it);
    }
    count -= static_cast<int>(v.size());
    return v;
  }
};

std::string Show(const std::vector<int>& v) {
  std::ostringstream os;
  os << "{";
  for (size_t i = 0; i < v.size(); i++) os << (i ? "," : "") << v[i];
  os << "}";
  return os.str();
}

}  // namespace

PBT_SUITE(bare_delay_line,
          "at least two entries in flight at once and one latency that reaches "
          "or exceeds the current depth",
          500000, 8000000) {
  World w;
  Due ref;
  int depth = src.pick({16, 1, 2, 3, 4, 5, 8, 9, 32});
  bool dflt = src.chance(30);
  if (dflt) depth = 16;
  std::unique_ptr<DelayLine<Rec>> dl(dflt ? new DelayLine<Rec>()
                                          : new DelayLine<Rec>(depth));
  ctx.log("DelayLine depth ", depth);
  int id = 0, maxin = 0, maxlat = 0;
  int phases = static_cast<int>(src.range(1, 14));
  for (int p = 0; p < phases; p++) {
    if (src.flip()) {
      int n = static_cast<int>(src.range(1, 4));
      for (int i = 0; i < n; i++) {
        int lat = PickLatency(src, depth);
        maxlat = std::max(maxlat, lat);
        int r = dl->Add(lat, &w, id);
        ref.Add(lat, id);
        ctx.log("Add(", lat, ") -> #", id);
        PBT_EQ(r, ref.count, "number of valid entries returned by Add");
        PBT_ASSERT(!dl->IsEmpty(), "IsEmpty() right after Add");
        id++;
      }
      maxin = std::max(maxin, ref.count);
    } else {
      int n = static_cast<int>(src.range(1, 20));
      ctx.log("Advance x", n);
      for (int i = 0; i < n; i++) {
        w.fired.clear();
        int r = dl->Advance();
        auto want = ref.Advance();
        if (w.fired != want)
          PBT_FAIL("cycle " << ref.now << ": applied " << Show(w.fired)
                            << ", oracle says " << Show(want));
        PBT_EQ(r, ref.count, "number of entries left after Advance");
        PBT_EQ(dl->IsEmpty(), ref.count == 0, "IsEmpty()");
      }
    }
  }
  for (int guard = 0; ref.count > 0 && guard < 1000; guard++) {
    w.fired.clear();
    dl->Advance();
    auto want = ref.Advance();
    if (w.fired != want)
      PBT_FAIL("cycle " << ref.now << " (drain): applied " << Show(w.fired)
                        << ", oracle says " << Show(want));
  }
  PBT_ASSERT(dl->IsEmpty(), "entries left after the last due cycle");
  for (int i = 0; i < 3; i++) {
    w.fired.clear();
    dl->Advance();
    PBT_ASSERT(w.fired.empty(), "an entry was applied twice: " << Show(w.fired));
  }
  if (maxlat >= depth) ctx.label("resized");
  ctx.nontrivial_if(maxin >= 2 && maxlat >= depth);
}

// ----- many entries, long latencies ------------------------------------------
PBT_SUITE(bulk, "more than 255 entries in flight or a latency above 4096", 700,
          10000) {
  World w;
  Due ref;
  DelayLine<Rec> dl(src.pick({16, 1, 64, 1000}));
  int id = 0, most = 0, maxlat = 0;
  long adds = 0, advances = 0;
  int phases = static_cast<int>(src.range(1, 6));
  auto advance = [&](long n) {
    for (long i = 0; i < n; i++) {
      w.fired.clear();
      int r = dl.Advance();
      auto want = ref.Advance();
      if (w.fired != want)
        PBT_FAIL("cycle " << ref.now << ": " << w.fired.size() << " applied, first "
                          << (w.fired.empty() ? -1 : w.fired[0]) << "; oracle says "
                          << want.size() << ", first " << (want.empty() ? -1 : want[0]));
      PBT_EQ(r, ref.count, "number of entries left after Advance");
      PBT_EQ(dl.IsEmpty(), ref.count == 0, "IsEmpty()");
    }
    advances += n;
  };
  for (int p = 0; p < phases; p++) {
    switch (src.draw(3)) {
      case 0: {
        int n = src.chance(6) ? 65530 + static_cast<int>(src.draw(20))
                              : src.pick({100, 255, 256, 257, 300, 1000});
        if (adds + n > 70000) n = 10;
        int base = static_cast<int>(src.range(1, 20));
        int spread = static_cast<int>(src.range(1, 40));
        ctx.log("Add x", n, " latencies ", base, "..", base + spread - 1);
        for (int i = 0; i < n; i++) {
          int lat = base + i % spread;
          int r = dl.Add(lat, &w, id);
          ref.Add(lat, id++);
          maxlat = std::max(maxlat, lat);
          PBT_EQ(r, ref.count, "number of valid entries returned by Add");
          PBT_ASSERT(!dl.IsEmpty(), "IsEmpty() right after Add");
        }
        adds += n;
        break;
      }
      case 1: {
        int lat = src.chance(15) ? src.pick({32767, 32768, 65535, 65536, 65537, 131072})
                                 : static_cast<int>(src.range(200, 5000));
        ctx.log("Add(", lat, ")");
        dl.Add(lat, &w, id);
        ref.Add(lat, id++);
        maxlat = std::max(maxlat, lat);
        break;
      }
      default: {
        int n = static_cast<int>(src.range(1, 300));
        ctx.log("Advance x", n);
        advance(n);
      }
    }
    most = std::max(most, ref.count);
  }
  while (ref.count > 0 && advances < 400000) advance(1);
  PBT_ASSERT(dl.IsEmpty(), "entries left after the last due cycle");
  ctx.nontrivial_if(most > 255 || maxlat > 4096);
}

// ----- functions, which may themselves schedule -----------------------------
namespace {
struct FnWorld {
  FunctionDelayLine* dl;
  Due ref;          // expectation, updated as functions really run
  std::vector<int> fired;
  std::vector<std::vector<int>> children;  // id -> latencies to schedule
  int next = 0;
  std::vector<int> budget;
};
void Schedule(FnWorld* w, int lat, int depth_left, pbt::Src* src) {
  int id = w->next++;
  std::vector<int> kids;
  if (depth_left > 0 && src->chance(40)) {
    int n = static_cast<int>(src->range(1, 2));
    for (int i = 0; i < n; i++) kids.push_back(PickLatency(*src, 16));
  }
  w->ref.Add(lat, id);
  w->dl->Add(lat, [w, id, kids, depth_left, src]() {
    w->fired.push_back(id);
    for (int k : kids) Schedule(w, k, depth_left - 1, src);
  });
}
}  // namespace

PBT_SUITE(function_delay_line,
          "at least one function scheduled from inside another while the line "
          "advances",
          200000, 3000000) {
  FunctionDelayLine dl(src.pick({16, 2, 4, 8}));
  FnWorld w;
  w.dl = &dl;
  int steps = static_cast<int>(src.range(1, 30));
  int roots = 0;
  for (int s = 0; s < steps; s++) {
    if (src.chance(40) && roots < 8) {
      int lat = PickLatency(src, 16);
      ctx.log("Add(", lat, ") -> #", w.next);
      Schedule(&w, lat, 3, &src);
      roots++;
    } else {
      int n = static_cast<int>(src.range(1, 8));
      for (int k = 0; k < n; k++) {
        w.fired.clear();
        // What is due is fixed before the cycle: entries made during it are
        // due later.
        auto it = w.ref.due.find(w.ref.now + 1);
        std::vector<int> want = it == w.ref.due.end() ? std::vector<int>{}
                                                      : it->second;
        w.ref.now++;
        w.ref.due.erase(w.ref.now);
        int before = w.next;
        int r = dl.Advance();
        w.ref.count -= static_cast<int>(want.size());
        if (w.fired != want)
          PBT_FAIL("cycle " << w.ref.now << ": called " << Show(w.fired)
                            << ", oracle says " << Show(want));
        PBT_EQ(r, w.ref.count, "entries left after Advance");
        PBT_EQ(dl.IsEmpty(), w.ref.count == 0, "IsEmpty()");
        if (w.next > before) ctx.nontrivial();
      }
    }
  }
  for (int guard = 0; w.ref.count > 0 && guard < 2000; guard++) {
    w.fired.clear();
    auto it = w.ref.due.find(w.ref.now + 1);
    std::vector<int> want =
        it == w.ref.due.end() ? std::vector<int>{} : it->second;
    w.ref.now++;
    w.ref.due.erase(w.ref.now);
    dl.Advance();
    w.ref.count -= static_cast<int>(want.size());
    if (w.fired != want)
      PBT_FAIL("cycle " << w.ref.now << " (drain): called " << Show(w.fired)
                        << ", oracle says " << Show(want));
  }
}

// ----- data buffers through Submit ------------------------------------------
namespace {
struct Delivery {
  long cycle;
  int dest;
  const DataBuffer* db;
  uint64_t value;
  bool operator==(const Delivery& o) const {
    return cycle == o.cycle && dest == o.dest && db == o.db && value == o.value;
  }
};
std::ostream& operator<<(std::ostream& os, const Delivery& d) {
  return os << "{cycle " << d.cycle << " dest " << d.dest << " value "
            << d.value << "}";
}
std::string Show(const std::vector<Delivery>& v) {
  std::ostringstream os;
  for (auto& d : v) os << d << " ";
  return os.str();
}
struct Dest : DataBufferDestination {
  Dest(int n, long* now, std::vector<Delivery>* log, bool keep)
      : n(n), now(now), log(log), keep(keep) {}
  ~Dest() override {
    if (cur) cur->DecRef();
  }
  void SetDataBuffer(DataBuffer* db) override {
    log->push_back({*now, n, db, db->Get<uint64_t>(0)});
    if (keep) {
      if (cur) cur->DecRef();
      cur = db;
      db->IncRef();
    }
  }
  int n;
  long* now;
  std::vector<Delivery>* log;
  bool keep;
  DataBuffer* cur = nullptr;
};

class TestState : public ArchState {
 public:
  explicit TestState(const char* id) : ArchState(id) {}
};

void Buffers(pbt::Src& src, pbt::Ctx& ctx, bool with_state) {
  DataBufferFactory own_factory;
  std::unique_ptr<DataBufferDelayLine> own_dl;
  std::unique_ptr<TestState> state;
  DataBufferFactory* factory = &own_factory;
  DataBufferDelayLine* dl;
  std::vector<int> custom_fired, custom_want;
  World custom_world;
  DelayLine<Rec>* custom = nullptr;
  FunctionDelayLine* fdl = nullptr;
  Due fref, cref;
  std::vector<int> ffired;
  if (with_state) {
    state = std::make_unique<TestState>("state");
    dl = state->data_buffer_delay_line();
    fdl = state->function_delay_line();
    factory = state->db_factory();
    if (src.flip()) custom = state->CreateAndAddDelayLine<DelayLine<Rec>>(4);
  } else {
    own_dl = std::make_unique<DataBufferDelayLine>(src.pick({8, 1, 2, 4, 16}));
    dl = own_dl.get();
  }
  long now = 0;
  std::vector<Delivery> got;
  std::map<long, std::vector<Delivery>> due;
  std::vector<std::unique_ptr<Dest>> dests;
  int nd = static_cast<int>(src.range(1, 4));
  for (int i = 0; i < nd; i++)
    dests.push_back(std::make_unique<Dest>(i, &now, &got, src.flip()));
  // Buffers watched after their last user reference is given to Submit.
  struct Watched {
    DataBuffer* db;
    int users;          // references this test holds
    int in_flight;      // references the delay line holds
  };
  std::vector<Watched> held;
  int submitted = 0, maxlat = 0, inflight = 0;
  int steps = static_cast<int>(src.range(1, 30));
  auto held_by_dest = [&](const DataBuffer* db) {
    int n = 0;
    for (auto& d : dests)
      if (d->cur == db) n++;
    return n;
  };
  auto check_refs = [&]() {
    for (auto& h : held) {
      PBT_EQ(h.db->ref_count(), h.users + h.in_flight + held_by_dest(h.db),
             "references of a submitted buffer");
    }
  };
  auto advance = [&]() {
    now++;
    got.clear();
    ffired.clear();
    custom_world.fired.clear();
    if (state) {
      auto c = state->cycle();
      state->AdvanceDelayLines();
      PBT_EQ(state->cycle(), c + 1, "cycle count");
    } else {
      dl->Advance();
    }
    auto want = due[now];
    due.erase(now);
    if (!(got == want))
      PBT_FAIL("cycle " << now << ": delivered " << Show(got)
                        << ", oracle says " << Show(want));
    for (auto& d : want)
      for (auto& h : held)
        if (h.db == d.db) h.in_flight--;
    inflight -= static_cast<int>(want.size());
    PBT_EQ(dl->IsEmpty(), inflight == 0, "IsEmpty of the buffer delay line");
    auto fw = fref.Advance();
    if (fdl && ffired != fw)
      PBT_FAIL("cycle " << now << ": called " << Show(ffired)
                        << ", oracle says " << Show(fw));
    auto cw = cref.Advance();
    if (custom && custom_world.fired != cw)
      PBT_FAIL("cycle " << now << ": custom line applied "
                        << Show(custom_world.fired) << ", oracle says "
                        << Show(cw));
    check_refs();
  };
  for (int s = 0; s < steps; s++) {
    int op = src.weighted({30, 30, 10, 10});
    if (op == 0) {
      int kind = static_cast<int>(src.draw(5));
      bool nodest = src.chance(8);
      int di = static_cast<int>(src.draw(nd));
      int lat = src.chance(20) ? 0 : PickLatency(src, 8);
      DataBuffer* db = factory->Allocate<uint64_t>(1);
      uint64_t v = 1000 + s;
      db->set_destination(nodest ? nullptr : dests[di].get());
      db->set_delay_line(dl);
      bool hold = src.chance(60);
      if (hold) {
        db->IncRef();
        held.push_back({db, 1, 0});
      }
      got.clear();
      ctx.log("submit value ", v, " latency ", lat, " dest ",
              nodest ? -1 : di);
      if (kind == 0) {
        db->Set<uint64_t>(0, v);
        db->Submit(lat);
      } else if (kind == 1) {
        db->Set<uint64_t>(0, v);
        db->set_latency(lat);
        PBT_EQ(db->latency(), lat, "latency()");
        db->Submit();
      } else if (kind == 2) {
        db->set_latency(lat);
        db->SetSubmit<uint64_t>(0, v);
      } else if (kind == 3) {
        db->set_latency(lat);
        db->SetSubmit<uint64_t>(absl::Span<const uint64_t>(&v, 1));
      } else {
        db->set_latency(lat + 3);  // an explicit latency overrides
        db->Set<uint64_t>(0, v);
        db->Submit(lat);
      }
      std::vector<Delivery> want;
      if (!nodest) {
        Delivery d{now + lat, di, db, v};
        if (lat == 0) {
          want.push_back(d);
        } else {
          due[now + lat].push_back(d);
          inflight++;
          if (hold) held.back().in_flight++;
        }
        submitted++;
        maxlat = std::max(maxlat, lat);
      }
      if (!(got == want))
        PBT_FAIL("on Submit: delivered " << Show(got) << ", oracle says "
                                         << Show(want));
      check_refs();
    } else if (op == 1) {
      int n = static_cast<int>(src.range(1, 12));
      ctx.log("advance x", n);
      for (int i = 0; i < n; i++) advance();
    } else if (op == 2 && fdl) {
      int lat = PickLatency(src, 16);
      int id = s;
      fref.Add(lat, id);
      fdl->Add(lat, [&ffired, id]() { ffired.push_back(id); });
    } else if (op == 3 && custom) {
      int lat = PickLatency(src, 4);
      cref.Add(lat, s);
      custom->Add(lat, &custom_world, s);
    } else if (op == 3 && !held.empty()) {
      size_t k = src.draw(held.size());
      if (held[k].users > 0) {
        auto* db = held[k].db;
        held.erase(held.begin() + k);
        db->DecRef();
      }
    }
  }
  int guard = 0;
  if (!src.chance(15)) {
    while ((inflight > 0 || fref.count > 0 || cref.count > 0) && guard++ < 600)
      advance();
  } else {
    ctx.label("entries left in flight at destruction");
  }
  for (auto& h : held)
    for (; h.users > 0; h.users--) h.db->DecRef();
  held.clear();
  own_dl.reset();
  if (state) {
    // Destinations release their buffers before the factory goes away.
    dests.clear();
  }
  ctx.nontrivial_if(submitted >= 2 && maxlat >= 2);
}
}  // namespace

// A buffer submitted with a long latency.
PBT_SUITE(long_submit, "latency of at least 256", 300, 6000) {
  DataBufferFactory f;
  DataBufferDelayLine dl(16);
  long now = 0;
  std::vector<Delivery> got;
  Dest dest(0, &now, &got, false);
  int lat = src.chance(20) ? src.pick({32768, 65535, 65536, 65537, 131072})
                           : src.pick({127, 128, 255, 256, 257, 511, 512, 4096, 4097, 8192});
  int early = static_cast<int>(src.draw(20));
  for (int i = 0; i < early; i++) { dl.Advance(); now++; }
  auto* db = f.Allocate<uint64_t>(1);
  db->set_destination(&dest);
  db->set_delay_line(&dl);
  bool stored = src.flip();
  ctx.log("submit latency ", lat, stored ? " (stored)" : "");
  db->Set<uint64_t>(0, 17);
  if (stored) {
    db->set_latency(lat);
    PBT_EQ(db->latency(), lat, "latency()");
    db->Submit();
  } else {
    db->Submit(lat);
  }
  for (int i = 1; i <= lat + 2; i++) {
    PBT_EQ(got.size(), i > lat ? 1u : 0u, "deliveries before advance " << i << " of a latency of " << lat);
    now++;
    dl.Advance();
  }
  PBT_EQ(got.size(), 1u, "deliveries");
  PBT_EQ(got[0].cycle, early + lat, "cycle of delivery");
  PBT_ASSERT(dl.IsEmpty(), "IsEmpty()");
  ctx.nontrivial_if(lat >= 256);
}

PBT_SUITE(data_buffers,
          "at least two buffers submitted, one of them with a latency of two or "
          "more",
          200000, 3000000) {
  Buffers(src, ctx, false);
}

PBT_SUITE(arch_state,
          "at least two buffers submitted, one of them with a latency of two or "
          "more, advanced by the architecture state together with its other "
          "delay lines",
          80000, 1000000) {
  Buffers(src, ctx, true);
}
