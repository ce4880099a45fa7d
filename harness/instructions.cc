// C11: instruction objects: structure, ownership, execution, typed operands.
#include <cmath>
#include <map>
#include <memory>

#include "absl/numeric/int128.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/resource_operand_interface.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {

struct Track {
  std::map<int, int> deleted;  // operand id -> times deleted
  std::set<int> dead_insts;
};

class SrcOp : public ImmediateOperand<uint32_t> {
 public:
  SrcOp(Track* t, int id) : ImmediateOperand<uint32_t>(id), t_(t), id_(id) {}
  ~SrcOp() override { t_->deleted[id_]++; }
  Track* t_;
  int id_;
};
class DestOp : public DestinationOperandInterface {
 public:
  DestOp(Track* t, int id) : t_(t), id_(id) {}
  ~DestOp() override { t_->deleted[id_]++; }
  DataBuffer* AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(DataBuffer*) override {}
  DataBuffer* CopyDataBuffer() override { return nullptr; }
  int latency() const override { return 0; }
  std::vector<int> shape() const override { return {1}; }
  std::any GetObject() const override { return std::any(); }
  std::string AsString() const override { return ""; }
  Track* t_;
  int id_;
};
class PredOp : public PredicateOperandInterface {
 public:
  PredOp(Track* t, int id) : t_(t), id_(id) {}
  ~PredOp() override { t_->deleted[id_]++; }
  bool Value() override { return true; }
  std::string AsString() const override { return ""; }
  Track* t_;
  int id_;
};
class ResOp : public ResourceOperandInterface {
 public:
  ResOp(Track* t, int id) : t_(t), id_(id) {}
  ~ResOp() override { t_->deleted[id_]++; }
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return ""; }
  Track* t_;
  int id_;
};
class TInst : public Instruction {
 public:
  TInst(Track* t, int id, uint64_t a) : Instruction(a, nullptr), t_(t), id(id) {}
  ~TInst() override { t_->dead_insts.insert(id); }
  Track* t_;
  int id;
};

struct Node {
  TInst* inst;
  int refs = 1;
  int ext = 1;
  int next = -1, child = -1, parent = -1;
  bool linked = false;
  bool alive = true;
  uint64_t address = 0;
  int opcode = -1, size = -1;
  std::string disasm;
  std::vector<int> attrs;
  std::vector<int> srcs, dests, hold, acq;
  int pred = -1;
};

}  // namespace

PBT_SUITE(structure,
          "an instruction with two children released while somebody still holds "
          "one of the children, or a chain of three",
          1500000, 25000000) {
  Track t;
  int next_op = 0;
  std::vector<Node> n;
  std::set<int> owned_dead;  // operands of dead instructions
  auto new_node = [&] {
    Node x;
    x.address = src.interesting();
    x.inst = new TInst(&t, static_cast<int>(n.size()), x.address);
    n.push_back(x);
  };
  std::function<void(int)> release = [&](int i) {
    if (--n[i].refs > 0) return;
    n[i].alive = false;
    for (auto* v : {&n[i].srcs, &n[i].dests, &n[i].hold, &n[i].acq})
      for (int o : *v) owned_dead.insert(o);
    if (n[i].pred >= 0) owned_dead.insert(n[i].pred);
    for (auto& x : n)
      if (x.parent == i) x.parent = -1;
    if (n[i].next >= 0) release(n[i].next);
    if (n[i].child >= 0) release(n[i].child);
  };
  auto reach = [&](int from, int to) {  // is `to` reachable from `from`?
    std::vector<int> st{from};
    while (!st.empty()) {
      int x = st.back();
      st.pop_back();
      if (x == to) return true;
      if (n[x].next >= 0) st.push_back(n[x].next);
      if (n[x].child >= 0) st.push_back(n[x].child);
    }
    return false;
  };
  auto pick_alive = [&]() -> int {
    std::vector<int> v;
    for (size_t i = 0; i < n.size(); i++)
      if (n[i].alive) v.push_back(static_cast<int>(i));
    return v.empty() ? -1 : v[src.draw(v.size())];
  };
  auto check = [&] {
    for (size_t i = 0; i < n.size(); i++) {
      auto& x = n[i];
      PBT_EQ(t.dead_insts.count(static_cast<int>(i)) == 0, x.alive,
             "instruction " << i << " alive");
      if (!x.alive) continue;
      auto p = [&](int k) -> Instruction* { return k < 0 ? nullptr : n[k].inst; };
      PBT_ASSERT(x.inst->next() == p(x.next), "next of " << i);
      PBT_ASSERT(x.inst->child() == p(x.child), "child of " << i);
      PBT_ASSERT(x.inst->parent() == p(x.parent), "parent of " << i);
      PBT_EQ(x.inst->ref_count(), x.refs, "references to " << i);
      PBT_EQ(x.inst->address(), x.address, "address of " << i);
      if (x.opcode >= 0) PBT_EQ(x.inst->opcode(), x.opcode, "opcode");
      if (x.size >= 0) PBT_EQ(x.inst->size(), x.size, "size");
      PBT_EQ(x.inst->AsString(), x.disasm, "disassembly");
      PBT_ASSERT(std::vector<int>(x.inst->Attributes().begin(),
                                  x.inst->Attributes().end()) == x.attrs,
                 "attributes of " << i);
      PBT_EQ(static_cast<size_t>(x.inst->SourcesSize()), x.srcs.size(), "sources");
      for (size_t k = 0; k < x.srcs.size(); k++)
        PBT_EQ(static_cast<SrcOp*>(x.inst->Source(static_cast<int>(k)))->id_,
               x.srcs[k], "source " << k);
      PBT_EQ(static_cast<size_t>(x.inst->DestinationsSize()), x.dests.size(),
             "destinations");
      for (size_t k = 0; k < x.dests.size(); k++)
        PBT_EQ(static_cast<DestOp*>(x.inst->Destination(static_cast<int>(k)))->id_,
               x.dests[k], "destination " << k);
      PBT_EQ(x.inst->ResourceHold().size(), x.hold.size(), "held resources");
      for (size_t k = 0; k < x.hold.size(); k++)
        PBT_EQ(static_cast<ResOp*>(x.inst->ResourceHold()[k])->id_, x.hold[k],
               "held resource");
      PBT_EQ(x.inst->ResourceAcquire().size(), x.acq.size(), "acquired resources");
      for (size_t k = 0; k < x.acq.size(); k++)
        PBT_EQ(static_cast<ResOp*>(x.inst->ResourceAcquire()[k])->id_, x.acq[k],
               "acquired resource");
      PBT_EQ(x.inst->Predicate() != nullptr, x.pred >= 0, "predicate");
    }
    std::set<int> del;
    for (auto& [k, c] : t.deleted) {
      PBT_EQ(c, 1, "operand " << k << " deleted");
      del.insert(k);
    }
    PBT_ASSERT(del == owned_dead, "operands deleted: " << del.size() << ", oracle "
                                                       << owned_dead.size());
  };
  new_node();
  bool interesting = false;
  int steps = static_cast<int>(src.range(1, 30));
  for (int s = 0; s < steps; s++) {
    switch (src.weighted({4, 4, 5, 4, 2, 4, 3})) {
      case 0:
        new_node();
        ctx.log("new ", n.size() - 1);
        break;
      case 1:
      case 2: {
        bool child = src.flip();
        int a = pick_alive(), b = pick_alive();
        if (a < 0) break;
        if (src.chance(4)) {
          child ? n[a].inst->AppendChild(nullptr) : n[a].inst->Append(nullptr);
          break;
        }
        if (n[b].linked || n[b].parent >= 0 || reach(b, a)) break;
        ctx.log(child ? "append child " : "append ", b, " to ", a);
        if (child) {
          n[a].inst->AppendChild(n[b].inst);
          n[b].parent = a;
        } else {
          n[a].inst->Append(n[b].inst);
        }
        int* at = child ? &n[a].child : &n[a].next;
        int len = 0;
        while (*at >= 0) {
          at = &n[*at].next;
          len++;
        }
        *at = b;
        n[b].linked = true;
        n[b].refs++;
        interesting |= len >= 2;
        break;
      }
      case 3: {  // drop an external reference
        std::vector<int> v;
        for (size_t i = 0; i < n.size(); i++)
          if (n[i].alive && n[i].ext > 0) v.push_back(static_cast<int>(i));
        if (v.empty()) break;
        int i = v[src.draw(v.size())];
        ctx.log("release ", i);
        if (n[i].refs == 1 && n[i].child >= 0 && n[n[i].child].next >= 0)
          for (auto& x : n)
            if (x.parent == i && x.ext > 0) interesting = true;
        n[i].ext--;
        n[i].inst->DecRef();
        release(i);
        break;
      }
      case 4: {
        int i = pick_alive();
        if (i < 0) break;
        n[i].inst->IncRef();
        n[i].ext++;
        n[i].refs++;
        break;
      }
      case 5: {  // operands
        int i = pick_alive();
        if (i < 0) break;
        int id = next_op++;
        switch (src.draw(5)) {
          case 0:
            n[i].inst->AppendSource(new SrcOp(&t, id));
            n[i].srcs.push_back(id);
            break;
          case 1:
            n[i].inst->AppendDestination(new DestOp(&t, id));
            n[i].dests.push_back(id);
            break;
          case 2:
            n[i].inst->AppendResourceHold(new ResOp(&t, id));
            n[i].hold.push_back(id);
            break;
          case 3:
            n[i].inst->AppendResourceAcquire(new ResOp(&t, id));
            n[i].acq.push_back(id);
            break;
          default:
            if (n[i].pred >= 0) break;
            n[i].inst->SetPredicate(new PredOp(&t, id));
            n[i].pred = id;
        }
        break;
      }
      default: {
        int i = pick_alive();
        if (i < 0) break;
        switch (src.draw(5)) {
          case 0: {
            std::vector<int> a(src.draw(5));
            for (auto& v : a) v = static_cast<int>(src.draw(1000));
            ctx.log("attributes of ", i, ": ", a.size());
            n[i].inst->SetAttributes(a);
            n[i].attrs = a;
            break;
          }
          case 1:
            n[i].opcode = static_cast<int>(src.draw(5000));
            n[i].inst->set_opcode(n[i].opcode);
            break;
          case 2:
            n[i].size = static_cast<int>(src.draw(64));
            n[i].inst->set_size(n[i].size);
            break;
          case 3:
            n[i].disasm = std::string(src.draw(40), 'x') + "y";
            n[i].inst->SetDisassemblyString(n[i].disasm);
            break;
          default:
            n[i].address = src.interesting();
            n[i].inst->set_address(n[i].address);
        }
      }
    }
    check();
  }
  for (size_t i = 0; i < n.size(); i++)
    while (n[i].alive && n[i].ext > 0) {
      n[i].ext--;
      n[i].inst->DecRef();
      release(static_cast<int>(i));
      check();
    }
  ctx.nontrivial_if(interesting);
}

namespace {
class Context : public ReferenceCount {};
}  // namespace

PBT_SUITE(execution, "a nested execution with its own context", 300000, 5000000) {
  // A tree of instructions, each of which executes its children with or without
  // a context and records what it saw.
  struct Seen {
    int id;
    ReferenceCount* context;
  };
  std::vector<Seen> seen, want;
  std::vector<std::unique_ptr<Context>> contexts;
  for (int i = 0; i < 4; i++) contexts.push_back(std::make_unique<Context>());
  struct Plan {
    Instruction* inst;
    std::vector<std::pair<int, int>> calls;  // which, context or -1
  };
  int count = static_cast<int>(src.range(1, 6));
  std::vector<Plan> plan(count);
  for (int i = 0; i < count; i++) {
    plan[i].inst = new Instruction(i, nullptr);
    PBT_ASSERT(plan[i].inst->context() == nullptr, "context of a new instruction");
    int calls = i + 1 < count ? static_cast<int>(src.draw(3)) : 0;
    for (int c = 0; c < calls; c++)
      plan[i].calls.push_back({static_cast<int>(src.range(i + 1, count - 1)),
                               static_cast<int>(src.draw(5)) - 1});
    plan[i].inst->set_semantic_function([&, i](Instruction* inst) {
      PBT_ASSERT(inst == plan[i].inst, "instruction passed to semantic function");
      seen.push_back({i, inst->context()});
      for (auto [w, c] : plan[i].calls) {
        if (c < 0)
          plan[w].inst->Execute();
        else
          plan[w].inst->Execute(contexts[c].get());
      }
      seen.push_back({-1 - i, inst->context()});
    });
  }
  bool nested = false;
  std::function<void(int, int)> model = [&](int i, int c) {
    ReferenceCount* p = c < 0 ? nullptr : contexts[c].get();
    want.push_back({i, p});
    for (auto [w, cc] : plan[i].calls) {
      nested |= cc >= 0;
      model(w, cc);
    }
    want.push_back({-1 - i, p});
  };
  int times = static_cast<int>(src.range(1, 3));
  for (int k = 0; k < times; k++) {
    int c = static_cast<int>(src.draw(5)) - 1;
    ctx.log("execute with context ", c);
    seen.clear();
    want.clear();
    if (c < 0)
      plan[0].inst->Execute();
    else
      plan[0].inst->Execute(contexts[c].get());
    model(0, c);
    PBT_EQ(seen.size(), want.size(), "semantic functions run");
    for (size_t i = 0; i < seen.size(); i++) {
      PBT_EQ(seen[i].id, want[i].id, "order of execution");
      PBT_ASSERT(seen[i].context == want[i].context, "context of " << want[i].id);
    }
    for (auto& p : plan)
      PBT_ASSERT(p.inst->context() == nullptr, "context after execution");
    for (auto& x : contexts) PBT_EQ(x->ref_count(), 1, "references to a context");
  }
  for (auto& p : plan) p.inst->DecRef();
  ctx.nontrivial_if(nested);
}

// ----- typed operand access ---------------------------------------------------
namespace {
class TestState : public ArchState {
 public:
  explicit TestState(const char* id) : ArchState(id) {}
};

template <typename T>
bool Same(const T& a, const T& b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}

// The bytes of element i of the buffer, reinterpreted.
template <typename T, typename E>
T Expect(const std::vector<E>& v, int i) {
  E e = v[i];
  if constexpr (std::is_same_v<T, float>) {
    uint32_t u = static_cast<uint32_t>(e);
    float f;
    std::memcpy(&f, &u, 4);
    return f;
  } else if constexpr (std::is_same_v<T, double>) {
    uint64_t u = static_cast<uint64_t>(e);
    double f;
    std::memcpy(&f, &u, 8);
    return f;
  } else {
    return static_cast<T>(e);
  }
}

template <typename E>
void Access(pbt::Src& src, pbt::Ctx& ctx) {
  auto* inst = new Instruction(0, nullptr);
  int nsrc = static_cast<int>(src.range(1, 4));
  std::vector<std::vector<E>> vals;
  for (int i = 0; i < nsrc; i++) {
    std::vector<E> v(src.range(1, 5));
    for (auto& x : v) x = static_cast<E>(src.interesting());
    vals.push_back(v);
    inst->AppendSource(new VectorImmediateOperand<E>(v));
  }
  ctx.log(nsrc, " sources of ", sizeof(E), " bytes");
  ctx.nontrivial_if(nsrc > 1);
  for (int i = 0; i < nsrc; i++) {
#define ONE(T)                                                                    \
  {                                                                               \
    T got = GetInstructionSource<T>(inst, i);                                     \
    PBT_ASSERT(Same(got, Expect<T>(vals[i], 0)), "source " << i << " as " #T);    \
    for (size_t k = 0; k < vals[i].size(); k++) {                                 \
      T g = GetInstructionSource<T>(inst, i, static_cast<int>(k));                \
      PBT_ASSERT(Same(g, Expect<T>(vals[i], static_cast<int>(k))),                \
                 "source " << i << " element " << k << " as " #T);                \
    }                                                                             \
  }
    ONE(bool) ONE(uint8_t) ONE(int8_t) ONE(uint16_t) ONE(int16_t) ONE(uint32_t)
    ONE(int32_t) ONE(uint64_t) ONE(int64_t) ONE(float) ONE(double)
#undef ONE
    PBT_EQ(GetInstructionSource<HalfFP>(inst, i).value,
           static_cast<uint16_t>(vals[i][0]), "half precision source");
    PBT_ASSERT(GetInstructionSource<absl::uint128>(inst, i) ==
                   absl::uint128(static_cast<uint64_t>(vals[i][0])),
               "uint128 source");
    PBT_ASSERT(GetInstructionSource<absl::int128>(inst, i) ==
                   absl::int128(static_cast<int64_t>(vals[i][0])),
               "int128 source");
  }
  inst->DecRef();
}

// A register read as a signed type is sign extended, whatever its own type.
template <typename To, typename From>
To Conv(From x) {
  if constexpr (std::is_signed_v<To>)
    return static_cast<To>(static_cast<std::make_signed_t<From>>(x));
  else
    return static_cast<To>(x);
}

// Unary, binary and ternary helpers from register to register.
template <typename R, typename A, typename B, typename C>
void Helpers(pbt::Src& src, pbt::Ctx& ctx) {
  TestState state("s");
  int len = static_cast<int>(src.range(1, 4));
  int latency = static_cast<int>(src.draw(3));
  using RegA = VectorRegister<A, 4>;
  using RegB = VectorRegister<B, 4>;
  using RegC = VectorRegister<C, 4>;
  using RegR = VectorRegister<R, 4>;
  len = 4;
  std::vector<A> a(4);
  std::vector<B> b(4);
  std::vector<C> c(4);
  for (int i = 0; i < 4; i++) {
    a[i] = static_cast<A>(src.interesting());
    b[i] = static_cast<B>(src.interesting());
    c[i] = static_cast<C>(src.interesting());
  }
  RegA* ra = state.AddRegister<RegA>("a");
  RegB* rb = state.AddRegister<RegB>("b");
  RegC* rc = state.AddRegister<RegC>("c");
  RegR* rr = state.AddRegister<RegR>("r");
  auto fill = [&](auto* reg, const auto& v) {
    using E = typename std::decay_t<decltype(v)>::value_type;
    auto* db = state.db_factory()->Allocate(sizeof(E) * 4);
    for (int i = 0; i < 4; i++) db->template Set<E>(i, v[i]);
    reg->SetDataBuffer(db);
    db->DecRef();
  };
  fill(ra, a);
  fill(rb, b);
  fill(rc, c);
  std::vector<R> old(4);
  for (auto& x : old) x = static_cast<R>(0x5a);
  fill(rr, old);
  auto* inst = new Instruction(0, &state);
  int shape = static_cast<int>(src.draw(13));
  inst->AppendSource(ra->CreateSourceOperand());
  inst->AppendSource(rb->CreateSourceOperand());
  inst->AppendSource(rc->CreateSourceOperand());
  inst->AppendDestination(rr->CreateDestinationOperand(latency));
  std::vector<R> want(4);
  int elements = 1;
  auto f1 = [](auto x) { return static_cast<R>(static_cast<uint64_t>(x) * 3 + 1); };
  auto f2 = [](auto x, auto y) {
    return static_cast<R>(static_cast<uint64_t>(x) * 3 - static_cast<uint64_t>(y));
  };
  auto f3 = [](auto x, auto y, auto z) {
    return static_cast<R>(static_cast<uint64_t>(x) * 3 - static_cast<uint64_t>(y) +
                          7 * static_cast<uint64_t>(z));
  };
  switch (shape) {
    case 0:
      BinaryOp<R, A, B>(inst, f2);
      want[0] = f2(a[0], Conv<B>(b[0]));
      break;
    case 1:
      BinaryOp<R, A>(inst, std::function<R(A, A)>(f2));
      want[0] = f2(a[0], Conv<A>(b[0]));
      break;
    case 2:
      BinaryOp<R>(inst, std::function<R(R, R)>(f2));
      want[0] = f2(Conv<R>(a[0]), Conv<R>(b[0]));
      break;
    case 3:
      UnaryOp<R, A>(inst, std::function<R(A)>(f1));
      want[0] = f1(a[0]);
      break;
    case 4:
      UnaryOp<R>(inst, std::function<R(R)>(f1));
      want[0] = f1(Conv<R>(a[0]));
      break;
    case 5:
      TernaryVectorOp<R, A, B, C>(inst, f3);
      elements = 4;
      for (int i = 0; i < 4; i++) want[i] = f3(a[i], Conv<B>(b[i]), Conv<C>(c[i]));
      break;
    case 6:
      TernaryVectorOp<R, A>(inst, std::function<R(A, A, A)>(f3));
      elements = 4;
      for (int i = 0; i < 4; i++)
        want[i] = f3(a[i], Conv<A>(b[i]), Conv<A>(c[i]));
      break;
    case 7:
      TernaryVectorOp<R>(inst, std::function<R(R, R, R)>(f3));
      elements = 4;
      for (int i = 0; i < 4; i++)
        want[i] = f3(Conv<R>(a[i]), Conv<R>(b[i]), Conv<R>(c[i]));
      break;
    case 8:
      BinaryVectorOp<R, A, B>(inst, f2);
      elements = 4;
      for (int i = 0; i < 4; i++) want[i] = f2(a[i], Conv<B>(b[i]));
      break;
    case 9:
      BinaryVectorOp<R, A>(inst, std::function<R(A, A)>(f2));
      elements = 4;
      for (int i = 0; i < 4; i++) want[i] = f2(a[i], Conv<A>(b[i]));
      break;
    case 12:
      BinaryVectorOp<R>(inst, std::function<R(R, R)>(f2));
      elements = 4;
      for (int i = 0; i < 4; i++) want[i] = f2(Conv<R>(a[i]), Conv<R>(b[i]));
      break;
    case 10:
      UnaryVectorOp<R, A>(inst, std::function<R(A)>(f1));
      elements = 4;
      for (int i = 0; i < 4; i++) want[i] = f1(a[i]);
      break;
    default:
      UnaryVectorOp<R>(inst, std::function<R(R)>(f1));
      elements = 4;
      for (int i = 0; i < 4; i++) want[i] = f1(Conv<R>(a[i]));
  }
  ctx.log("helper ", shape, " latency ", latency);
  for (int k = 0; k < latency; k++) {
    for (int i = 0; i < 4; i++)
      PBT_EQ(rr->data_buffer()->template Get<R>(i), old[i],
             "destination before the latency has passed");
    state.AdvanceDelayLines();
  }
  for (int i = 0; i < elements; i++)
    PBT_EQ(rr->data_buffer()->template Get<R>(i), want[i], "helper " << shape
                                                            << " element " << i);
  ctx.nontrivial_if(elements > 1);
  inst->DecRef();
}
}  // namespace

PBT_SUITE(typed_sources, "more than one source", 600000, 9000000) {
  switch (src.draw(8)) {
    case 0: Access<uint8_t>(src, ctx); break;
    case 1: Access<int8_t>(src, ctx); break;
    case 2: Access<uint16_t>(src, ctx); break;
    case 3: Access<int16_t>(src, ctx); break;
    case 4: Access<uint32_t>(src, ctx); break;
    case 5: Access<int32_t>(src, ctx); break;
    case 6: Access<uint64_t>(src, ctx); break;
    default: Access<int64_t>(src, ctx);
  }
}

PBT_SUITE(semantic_helpers, "a vector helper", 500000, 8000000) {
  switch (src.draw(6)) {
    case 0: Helpers<uint32_t, uint32_t, uint32_t, uint32_t>(src, ctx); break;
    case 1: Helpers<uint64_t, uint32_t, int16_t, uint8_t>(src, ctx); break;
    case 2: Helpers<int8_t, int64_t, uint16_t, int32_t>(src, ctx); break;
    case 3: Helpers<int32_t, int8_t, uint64_t, int16_t>(src, ctx); break;
    case 4: Helpers<uint16_t, uint8_t, int8_t, uint64_t>(src, ctx); break;
    default: Helpers<int64_t, int32_t, uint32_t, int64_t>(src, ctx);
  }
}

// Long chains, and many operands.
PBT_SUITE(long_chains, "more than 100 instructions or operands", 2500, 40000) {
  Track t;
  int n = src.chance(30) ? static_cast<int>(src.range(200, 1500)) : static_cast<int>(src.range(1, 150));
  int kids = static_cast<int>(src.draw(4)) * static_cast<int>(src.draw(n + 1)) / 3;
  int ops = src.chance(30) ? src.pick({255, 256, 257, 300}) : static_cast<int>(src.draw(12));
  bool hold_last = src.flip();
  auto* head = new TInst(&t, 0, 0);
  std::vector<TInst*> chain{head};
  for (int i = 1; i < n; i++) {
    auto* x = new TInst(&t, i, i);
    (i % 3 == 0 || n > 300 ? chain.back() : head)->Append(x);
    x->DecRef();
    chain.push_back(x);
  }
  std::vector<TInst*> children;
  for (int i = 0; i < kids; i++) {
    auto* x = new TInst(&t, n + i, n + i);
    head->AppendChild(x);
    x->DecRef();
    children.push_back(x);
  }
  for (int i = 0; i < ops; i++) {
    head->AppendSource(new SrcOp(&t, 3 * i));
    head->AppendDestination(new DestOp(&t, 3 * i + 1));
    head->AppendResourceHold(new ResOp(&t, 3 * i + 2));
  }
  std::vector<int> attrs(ops);
  for (int i = 0; i < ops; i++) attrs[i] = i * 7 - 3;
  if (ops) head->SetAttributes(attrs);
  ctx.log(n, " instructions, ", kids, " children, ", ops, " operands");
  int k = 0;
  for (Instruction* x = head; x != nullptr; x = x->next(), k++)
    PBT_ASSERT(k < n && x == chain[k], "instruction " << k << " of the chain of " << n);
  PBT_EQ(k, n, "length of the chain");
  k = 0;
  for (Instruction* x = head->child(); x != nullptr; x = x->next(), k++) {
    PBT_ASSERT(k < kids && x == children[k], "child " << k << " of " << kids);
    PBT_ASSERT(x->parent() == head, "parent of child " << k);
  }
  PBT_EQ(k, kids, "children");
  PBT_EQ(static_cast<int>(head->SourcesSize()), ops, "sources");
  PBT_EQ(static_cast<int>(head->DestinationsSize()), ops, "destinations");
  for (int i = 0; i < ops; i++) {
    PBT_EQ(head->Source(i)->AsUint32(0), static_cast<uint32_t>(3 * i), "source " << i);
    PBT_ASSERT(static_cast<DestOp*>(head->Destination(i))->id_ == 3 * i + 1, "destination " << i);
    PBT_EQ(head->Attributes()[i], attrs[i], "attribute " << i);
  }
  PBT_EQ(head->ResourceHold().size(), static_cast<size_t>(ops), "resources held");
  TInst* last = chain.back();
  if (hold_last) last->IncRef();
  PBT_ASSERT(t.dead_insts.empty() && t.deleted.empty(), "something was freed early");
  head->DecRef();
  bool kept = hold_last;
  size_t want = n + kids - (kept ? (n == 1 ? 1 + kids : 1) : 0);
  PBT_EQ(t.dead_insts.size(), want, "instructions freed with the first of the chain");
  if (hold_last) last->DecRef();
  PBT_EQ(t.dead_insts.size(), static_cast<size_t>(n + kids), "instructions freed");
  PBT_EQ(t.deleted.size(), static_cast<size_t>(3 * ops), "operands freed");
  for (auto& [id, c] : t.deleted) PBT_EQ(c, 1, "times operand " << id << " was freed");
  ctx.nontrivial_if(n > 100 || kids > 100 || ops > 100);
}

// The constructor without an address.
PBT_SUITE(constructors, "always", 2000, 20000) {
  TestState state("s");
  uint64_t a = src.interesting();
  auto* x = new Instruction(a, &state);
  auto* y = new Instruction(&state);
  PBT_EQ(x->address(), a, "address");
  PBT_EQ(y->address(), uint64_t{0}, "address of an instruction made without one");
  PBT_ASSERT(x->state() == &state && y->state() == &state, "state");
  PBT_ASSERT(y->next() == nullptr && y->child() == nullptr && y->parent() == nullptr, "links");
  PBT_EQ(y->ref_count(), 1, "references");
  y->DecRef();
  x->DecRef();
  ctx.nontrivial();
}
