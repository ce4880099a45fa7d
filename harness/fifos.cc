// C05: fifos.
#include <deque>
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/fifo_with_notify.h"
#include "mpact/sim/generic/program_error.h"
#include "mpact/sim/generic/token_fifo.h"
#include "mpact/sim/proto/component_data.pb.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {

class TestState : public ArchState {
 public:
  explicit TestState(const char* id) : ArchState(id) {}
};

struct Item {
  DataBuffer* db;
  std::vector<uint8_t> bytes;
};

enum Kind { kPlain, kToken, kNotify };

struct F {
  std::string name;
  FifoBase* fifo = nullptr;
  Kind kind = kPlain;
  int width = 0;
  int n = 1;
  std::vector<int> shape;
  unsigned cap = 0;
  unsigned reserved = 0;
  std::deque<Item> q;
  bool over_err = false, under_err = false;
  long want_over = 0, want_under = 0;
  long not_empty = 0, empty = 0, want_not_empty = 0, want_empty = 0;
  bool hooked_ne = false, hooked_e = false;
  bool bad_cb = false;
  std::unique_ptr<SourceOperandInterface> src;
  std::unique_ptr<DestinationOperandInterface> dst;
  int latency = 0;
};

struct World {
  unsigned tokens_cap = 0, tokens = 0;
  bool full(const F& f) const {
    if (f.q.size() + f.reserved >= f.cap) return true;
    return f.kind == kToken && f.reserved >= tokens;
  }
  bool over(const F& f) const {
    if (f.q.size() + f.reserved > f.cap) return true;
    return f.kind == kToken && f.reserved > tokens;
  }
  bool empty(const F& f) const { return f.q.empty() && f.reserved == 0; }
  bool Push(F& f, const Item& it) {
    bool was_empty = empty(f);
    // A token fifo with an exhausted store refuses before anything else.
    if (f.kind == kToken && tokens == 0) {
      f.want_over += f.over_err;
      return false;
    }
    if (f.reserved > 0) f.reserved--;
    if (full(f)) {
      f.want_over += f.over_err;
      return false;
    }
    f.q.push_back(it);
    if (f.kind == kToken) tokens--;
    if (was_empty && f.hooked_ne) f.want_not_empty++;
    return true;
  }
  void Pop(F& f) {
    if (f.q.empty()) {
      f.want_under += f.under_err;
      return;
    }
    f.q.pop_front();
    if (f.kind == kToken) tokens++;
    if (empty(f) && f.hooked_e) f.want_empty++;
  }
};

template <typename T>
void Make(TestState* st, F* f, FifoTokenStore* store, pbt::Src& src) {
  f->width = sizeof(T);
  auto finish = [&](auto* p) {
    f->fifo = p;
    std::string nm = "opname";
    bool named = src.flip();
    f->src.reset(named ? p->CreateSourceOperand(nm) : p->CreateSourceOperand());
    PBT_EQ(f->src->AsString(), named ? nm : f->name, "source AsString");
    f->latency = static_cast<int>(src.draw(5));
    named = src.flip();
    f->dst.reset(named ? p->CreateDestinationOperand(f->latency, nm)
                       : p->CreateDestinationOperand(f->latency));
    PBT_EQ(f->dst->AsString(), named ? nm : f->name, "destination AsString");
    PBT_EQ(f->dst->latency(), f->latency, "destination latency");
    auto o = f->src->GetObject(), d = f->dst->GetObject();
    PBT_ASSERT(std::any_cast<FifoBase*>(&o) && std::any_cast<FifoBase*>(o) == p,
               "source GetObject");
    PBT_ASSERT(std::any_cast<FifoBase*>(&d) && std::any_cast<FifoBase*>(d) == p,
               "destination GetObject");
    PBT_ASSERT(f->src->shape() == f->shape && f->dst->shape() == f->shape &&
                   p->shape() == f->shape,
               "shape");
    PBT_ASSERT(f->dst->CopyDataBuffer() == nullptr, "CopyDataBuffer");
  };
  int cap = static_cast<int>(f->cap);
  if (f->kind == kToken) {
    f->shape = {1};
    finish(st->AddFifo<TokenFifo<T>>(f->name, static_cast<unsigned>(cap), store));
  } else if (f->kind == kNotify) {
    f->shape = {1};
    auto* p = st->AddFifo<FifoWithNotify<T>>(f->name, cap);
    finish(p);
  } else {
    switch (src.draw(3)) {
      case 0:
        f->shape = {1};
        finish(st->AddFifo<Fifo<T>>(f->name, cap));
        break;
      case 1:
        f->shape = {6};
        f->n = 6;
        finish(st->AddFifo<VectorFifo<T, 6>>(f->name, cap));
        break;
      default:
        f->shape = {2, 3};
        f->n = 6;
        finish(st->AddFifo<MatrixFifo<T, 2, 3>>(f->name, cap));
    }
  }
}

void CheckOperand(F& f) {
  // Reading through an operand looks at the front element.
  for (int i = 0; i < f.n; i++) {
    uint64_t v = 0;
    int64_t sx = 0;
    if (!f.q.empty()) {
      std::memcpy(&v, &f.q.front().bytes[static_cast<size_t>(i) * f.width],
                  f.width);
      int sh = 64 - 8 * f.width;
      sx = static_cast<int64_t>(v << sh) >> sh;
    } else {
      f.want_under += 9 * f.under_err;
    }
    auto* op = f.src.get();
    PBT_EQ(op->AsBool(i), v != 0, f.name << " AsBool " << i);
    PBT_EQ(op->AsUint8(i), static_cast<uint8_t>(v), f.name << " AsUint8 " << i);
    PBT_EQ(op->AsInt8(i), static_cast<int8_t>(sx), f.name << " AsInt8 " << i);
    PBT_EQ(op->AsUint16(i), static_cast<uint16_t>(v), f.name << " AsUint16 " << i);
    PBT_EQ(op->AsInt16(i), static_cast<int16_t>(sx), f.name << " AsInt16 " << i);
    PBT_EQ(op->AsUint32(i), static_cast<uint32_t>(v), f.name << " AsUint32 " << i);
    PBT_EQ(op->AsInt32(i), static_cast<int32_t>(sx), f.name << " AsInt32 " << i);
    PBT_EQ(op->AsUint64(i), v, f.name << " AsUint64 " << i);
    PBT_EQ(op->AsInt64(i), sx, f.name << " AsInt64 " << i);
  }
}

}  // namespace

PBT_SUITE(fifo_histories,
          "a push was refused or a slot was reserved, and at least two elements "
          "were popped",
          400000, 8000000) {
  auto st = std::make_unique<TestState>("state");
  World w;
  w.tokens_cap = w.tokens = static_cast<unsigned>(src.range(1, 6));
  FifoTokenStore store(w.tokens_cap);
  ProgramErrorController pec("pec");
  int nf = static_cast<int>(src.range(1, 3));
  std::vector<std::unique_ptr<F>> fs;
  Kind base = static_cast<Kind>(src.draw(3));
  for (int i = 0; i < nf; i++) {
    auto f = std::make_unique<F>();
    f->name = "f" + std::to_string(i);
    f->kind = src.chance(80) ? base : static_cast<Kind>(src.draw(3));
    f->cap = static_cast<unsigned>(src.range(1, 5));
    switch (src.draw(4)) {
      case 0: Make<uint32_t>(st.get(), f.get(), &store, src); break;
      case 1: Make<uint8_t>(st.get(), f.get(), &store, src); break;
      case 2: Make<int16_t>(st.get(), f.get(), &store, src); break;
      default: Make<uint64_t>(st.get(), f.get(), &store, src); break;
    }
    if (src.chance(70)) {
      PBT_ASSERT(pec.AddProgramErrorName("over" + f->name), "add name");
      auto e = pec.GetProgramError("over" + f->name);
      f->fifo->SetOverflowProgramError(&e);
      f->over_err = true;
    }
    if (src.chance(70)) {
      PBT_ASSERT(pec.AddProgramErrorName("under" + f->name), "add name");
      auto e = pec.GetProgramError("under" + f->name);
      f->fifo->SetUnderflowProgramError(&e);
      f->under_err = true;
    }
    ctx.log("fifo ", f->name, " kind ", f->kind, " capacity ", f->cap, " width ",
            f->width, " n ", f->n);
    auto it = st->fifos()->find(f->name);
    PBT_ASSERT(it != st->fifos()->end() && it->second == f->fifo, "fifo table");
    if (src.chance(15)) {
      // A second name of the same fifo, perhaps taken back.
      std::string alias = f->name + "alias";
      st->AddFifo(alias, f->fifo);
      auto ia = st->fifos()->find(alias);
      PBT_ASSERT(ia != st->fifos()->end() && ia->second == f->fifo, "alias of a fifo");
      if (src.chance(30)) {
        st->RemoveFifo(alias);
        PBT_ASSERT(!st->fifos()->contains(alias), "a removed fifo name is still there");
        PBT_ASSERT(st->fifos()->contains(f->name), "removing an alias removed the fifo");
      } else {
        ctx.label("aliased");
      }
    }
    fs.push_back(std::move(f));
  }
  ctx.log("tokens ", w.tokens);
  // Every buffer ever made is kept alive by the harness, so that reference
  // counts can be compared.
  struct Buf {
    DataBuffer* db;
    int in_fifo;
    int in_flight;
  };
  std::vector<Buf> bufs;
  struct Pending {
    int f;
    Item it;
  };
  std::map<long, std::vector<Pending>> due;
  long now = 0;
  int pops = 0, refused = 0, reserves = 0;
  auto counts = [&] {
    std::map<DataBuffer*, int> c;
    for (auto& f : fs)
      for (auto& i : f->q) c[i.db]++;
    for (auto& [t, v] : due)
      for (auto& p : v) c[p.it.db]++;
    return c;
  };
  auto check = [&] {
    for (auto& fp : fs) {
      F& f = *fp;
      PBT_EQ(f.fifo->Capacity(), f.cap, f.name << " Capacity()");
      PBT_EQ(f.fifo->Available(), f.q.size(), f.name << " Available()");
      PBT_EQ(f.fifo->Reserved(), f.reserved, f.name << " Reserved()");
      PBT_EQ(f.fifo->IsEmpty(), w.empty(f), f.name << " IsEmpty()");
      PBT_EQ(f.fifo->IsFull(), w.full(f), f.name << " IsFull()");
      PBT_EQ(f.fifo->IsOverSubscribed(), w.over(f), f.name << " IsOverSubscribed()");
      PBT_ASSERT(f.fifo->Front() == (f.q.empty() ? nullptr : f.q.front().db),
                 f.name << " Front()");
      if (f.q.empty()) f.want_under += f.under_err;
      if (f.over_err)
        PBT_EQ(static_cast<long>(pec.GetErrorMessages("over" + f.name).size()),
               f.want_over, f.name << " overflow errors raised");
      if (f.under_err)
        PBT_EQ(static_cast<long>(pec.GetErrorMessages("under" + f.name).size()),
               f.want_under, f.name << " underflow errors raised");
      PBT_EQ(f.not_empty, f.want_not_empty, f.name << " became-not-empty calls");
      PBT_EQ(f.empty, f.want_empty, f.name << " became-empty calls");
      PBT_ASSERT(!f.bad_cb, f.name << " callback saw a wrong fifo");
    }
    PBT_EQ(store.available(), w.tokens, "tokens available");
    PBT_EQ(store.capacity(), w.tokens_cap, "token capacity");
    auto c = counts();
    for (auto& b : bufs)
      PBT_EQ(b.db->ref_count(), 1 + c[b.db], "references to a buffer");
  };
  check();
  int steps = static_cast<int>(src.range(1, 40));
  for (int s = 0; s < steps; s++) {
    int fi = static_cast<int>(src.draw(fs.size()));
    F& f = *fs[fi];
    switch (src.weighted({10, 7, 3, 3, 4, 1, 1, 1})) {
      case 0:    // push
      case 4: {  // push through the destination operand
        bool via = src.flip();
        DataBuffer* db =
            via ? f.dst->AllocateDataBuffer()
                : st->db_factory()->Allocate(f.fifo->size());
        PBT_EQ(db->size<uint8_t>(), f.n * f.width, f.name << " buffer size");
        std::vector<uint8_t> v(static_cast<size_t>(f.n) * f.width);
        for (int k = 0; k < f.n; k++) {
          uint64_t x = src.interesting();
          std::memcpy(&v[static_cast<size_t>(k) * f.width], &x, f.width);
        }
        std::memcpy(db->raw_ptr(), v.data(), v.size());
        db->IncRef();  // the harness's own
        bufs.push_back({db, 0, 0});
        Item it{db, v};
        if (via) {
          ctx.log("submit to ", f.name, " latency ", f.latency);
          if (f.latency == 0) {
            if (!w.Push(f, it)) refused++;
          } else {
            due[now + f.latency].push_back({fi, it});
          }
          db->Submit();
        } else {
          bool want = w.Push(f, it);
          if (!want) refused++;
          ctx.log("push to ", f.name, " -> ", want);
          PBT_EQ(f.fifo->Push(db), want, f.name << " Push");
          db->DecRef();
        }
        break;
      }
      case 1:
        ctx.log("pop ", f.name);
        if (!f.q.empty()) pops++;
        w.Pop(f);
        f.fifo->Pop();
        break;
      case 2: {
        int k = static_cast<int>(src.range(1, 3));
        ctx.log("reserve ", k, " in ", f.name);
        f.reserved += k;
        reserves++;
        f.fifo->Reserve(k);
        break;
      }
      case 3: {
        int k = static_cast<int>(src.range(1, 4));
        ctx.log("advance ", k);
        for (int i = 0; i < k; i++) {
          now++;
          for (auto& p : due[now])
            if (!w.Push(*fs[p.f], p.it)) refused++;
          due.erase(now);
          st->AdvanceDelayLines();
        }
        break;
      }
      case 5:
        if (f.kind == kNotify) {
          auto* nf2 = static_cast<FifoWithNotifyBase*>(f.fifo);
          F* fptr = &f;
          int which = static_cast<int>(src.draw(4));
          ctx.log("callbacks ", which, " on ", f.name);
          if (which == 0) {
            nf2->SetOnNotEmpty([fptr](FifoWithNotifyBase* p) {
              fptr->not_empty++;
              if (p != fptr->fifo || p->IsEmpty()) fptr->bad_cb = true;
            });
            f.hooked_ne = true;
          } else if (which == 1) {
            nf2->SetOnEmpty([fptr](FifoWithNotifyBase* p) {
              fptr->empty++;
              if (p != fptr->fifo || !p->IsEmpty()) fptr->bad_cb = true;
            });
            f.hooked_e = true;
          } else if (which == 2) {
            nf2->SetOnNotEmpty(nullptr);
            f.hooked_ne = false;
          } else {
            nf2->SetOnEmpty(nullptr);
            f.hooked_e = false;
          }
        }
        break;
      case 6:
        CheckOperand(f);
        break;
      default: {
        // The depth is a configuration entry of the fifo.
        mpact::sim::proto::ComponentData data;
        data.set_name(f.name);
        auto* e = data.add_configuration();
        e->set_name("depth");
        f.cap = static_cast<unsigned>(src.range(1, 6));
        e->set_uint64_value(f.cap);
        ctx.log("import depth ", f.cap, " into ", f.name);
        PBT_ASSERT(f.fifo->Import(data).ok(), "Import");
        ctx.label("depth imported");
      }
    }
    check();
  }
  ctx.nontrivial_if((refused > 0 || reserves > 0) && pops >= 2);
  for (auto& f : fs) CheckOperand(*f);
  check();
  // Everything the fifos hold is released when they go.
  for (auto& f : fs) f->src.reset(), f->dst.reset();
  if (src.flip()) {
    for (auto& f : fs) {
      while (!f->q.empty()) {
        w.Pop(*f);
        f->fifo->Pop();
      }
    }
    check();
    if (due.empty())
      for (auto& b : bufs) PBT_EQ(b.db->ref_count(), 1, "references at the end");
  }
  for (auto& b : bufs) b.db->DecRef();
  bufs.clear();
}

PBT_SUITE(token_store, "a refused acquire or a refused release", 20000, 200000) {
  unsigned cap = static_cast<unsigned>(src.range(0, 5)), avail = cap;
  FifoTokenStore store(cap);
  int steps = static_cast<int>(src.range(1, 30));
  for (int s = 0; s < steps; s++) {
    if (src.flip()) {
      bool ok = avail > 0;
      if (ok) avail--;
      ctx.nontrivial_if(!ok);
      PBT_EQ(store.Acquire().ok(), ok, "Acquire");
    } else {
      bool ok = avail < cap;
      if (ok) avail++;
      ctx.nontrivial_if(!ok);
      PBT_EQ(store.Release().ok(), ok, "Release");
    }
    PBT_EQ(store.available(), avail, "available");
    PBT_EQ(store.capacity(), cap, "capacity");
  }
}

// Deep fifos: the same buffers pushed many times.
PBT_SUITE(deep_fifos, "more than 255 elements held", 400, 8000) {
  auto st = std::make_unique<TestState>("state");
  unsigned cap = src.chance(15) ? src.pick({32768u, 65535u, 65536u, 65537u, 70000u})
                                : src.pick({200u, 255u, 256u, 257u, 300u, 511u, 1000u});
  ProgramErrorController pec("pec");
  PBT_ASSERT(pec.AddProgramErrorName("over"), "add name");
  bool token = src.chance(30);
  unsigned tokens = cap + static_cast<unsigned>(src.draw(3));
  FifoTokenStore store(tokens);
  FifoBase* f = token ? static_cast<FifoBase*>(st->AddFifo<TokenFifo<uint32_t>>("f", cap, &store))
                      : st->AddFifo<Fifo<uint32_t>>("f", static_cast<int>(cap));
  auto e = pec.GetProgramError("over");
  f->SetOverflowProgramError(&e);
  std::vector<DataBuffer*> bufs;
  for (int i = 0; i < 7; i++) {
    bufs.push_back(st->db_factory()->Allocate<uint32_t>(1));
    bufs.back()->Set<uint32_t>(0, i);
  }
  std::deque<DataBuffer*> q;
  unsigned reserved = 0, most = 0;
  size_t over = 0;
  ctx.log(token ? "token fifo" : "fifo", " of capacity ", cap);
  int steps = static_cast<int>(src.range(1, 6));
  unsigned pushes = 0;
  for (int s = 0; s < steps; s++) {
    switch (src.draw(4)) {
      case 0:
      case 1: {
        unsigned n = src.flip() ? cap + 3 : static_cast<unsigned>(src.draw(cap + 1));
        if (pushes > 150000) n = 5;
        pushes += n;
        ctx.log("push x", n);
        for (unsigned i = 0; i < n; i++) {
          auto* db = bufs[(i + s) % 7];
          if (reserved > 0) reserved--;
          bool want = q.size() + reserved < cap && (!token || (store.available() > 0 && reserved < tokens - q.size()));
          PBT_EQ(f->Push(db), want, "Push with " << q.size() << " of " << cap << " held and " << reserved << " reserved");
          if (want) {
            q.push_back(db);
          } else {
            over++;
            if (over > 40) break;
          }
        }
        break;
      }
      case 2: {
        size_t n = src.flip() ? q.size() : src.draw(q.size() + 1);
        ctx.log("pop x", n);
        for (size_t i = 0; i < n; i++) {
          PBT_ASSERT(f->Front() == q.front(), "element at the front");
          f->Pop();
          q.pop_front();
        }
        break;
      }
      default: {
        if (token) break;
        int n = src.pick({1, 5, 250, 256});
        ctx.log("reserve ", n);
        f->Reserve(n);
        reserved += n;
      }
    }
    most = std::max<unsigned>(most, q.size());
    PBT_EQ(f->Capacity(), cap, "Capacity()");
    PBT_EQ(f->Available(), q.size(), "Available()");
    PBT_EQ(f->Reserved(), reserved, "Reserved()");
    PBT_EQ(f->IsEmpty(), q.empty() && reserved == 0, "IsEmpty()");
    if (!token) {
      PBT_EQ(f->IsFull(), q.size() + reserved >= cap, "IsFull()");
      PBT_EQ(f->IsOverSubscribed(), q.size() + reserved > cap, "IsOverSubscribed()");
    } else {
      PBT_EQ(store.available(), tokens - q.size(), "tokens available");
    }
    PBT_EQ(pec.GetErrorMessages("over").size(), over, "overflow errors");
  }
  while (!q.empty()) {
    PBT_ASSERT(f->Front() == q.front(), "element at the front");
    f->Pop();
    q.pop_front();
  }
  for (auto* b : bufs) {
    PBT_EQ(b->ref_count(), 1, "references to a buffer after the last pop");
    b->DecRef();
  }
  ctx.nontrivial_if(most > 255);
}
