// C03: registers, status/control registers and their operands.
#include <map>
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/control_register.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/devnull_operand.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/status_register.h"
#include "mpact/sim/generic/wrapper_operand.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {

class TestState : public ArchState {
 public:
  explicit TestState(const char* id) : ArchState(id) {}
};

enum Kind { kPlain, kReserved, kControl };

struct Reg {
  std::string name;
  std::string alias;
  RegisterBase* reg = nullptr;
  std::vector<std::unique_ptr<SourceOperandInterface>> srcs;
  std::vector<std::string> src_names;
  std::vector<std::unique_ptr<DestinationOperandInterface>> dsts;
  std::vector<std::string> dst_names;
  std::vector<int> dst_latency;
  std::vector<bool> dst_custom_line;
  std::vector<int> shape;
  int width = 0;
  bool is_signed = false;
  int n = 0;
  Kind kind = kPlain;
  std::vector<uint8_t> bytes;  // the oracle's value
  SimpleResource* res = nullptr;
  bool res_free = true;
  // Control registers.
  int policy = 0;        // 0: ignore writes, 1: store, 2: store masked
  uint64_t mask = 0;
  int callbacks = 0;
  int want_callbacks = 0;
  DataBuffer* last_cb_db = nullptr;
  ControlRegisterBase* last_cb_reg = nullptr;
  // Creators
  std::function<SourceOperandInterface*(const std::string*)> mk_src;
  std::function<DestinationOperandInterface*(int, const std::string*,
                                             DataBufferDelayLine*)>
      mk_dst;
};

template <typename T, typename R>
void Finish(Reg* r, R* reg) {
  r->reg = reg;
  r->width = sizeof(T);
  r->is_signed = std::is_signed_v<T>;
  r->mk_src = [reg](const std::string* n) -> SourceOperandInterface* {
    return n ? reg->CreateSourceOperand(*n) : reg->CreateSourceOperand();
  };
  r->mk_dst = [reg](int lat, const std::string* n,
                    DataBufferDelayLine* dl) -> DestinationOperandInterface* {
    if (dl != nullptr) {
      if (n) return new RegisterDestinationOperand<T>(reg, lat, *n, dl);
      return new RegisterDestinationOperand<T>(reg, lat, dl);
    }
    return n ? reg->CreateDestinationOperand(lat, *n)
             : reg->CreateDestinationOperand(lat);
  };
}

template <typename T>
void Make(TestState* state, Reg* r, pbt::Src& src) {
  const std::string& nm = r->name;
  if (r->kind == kReserved) {
    switch (src.draw(3)) {
      case 0:
        r->shape = {1};
        Finish<T>(r, state->AddRegister<ReservedRegister<T>>(nm, r->res));
        break;
      case 1:
        r->shape = {4};
        Finish<T>(r, state->AddRegister<ReservedVectorRegister<T, 4>>(nm, r->res));
        break;
      default:
        r->shape = {2, 3};
        Finish<T>(r,
                  state->AddRegister<ReservedMatrixRegister<T, 2, 3>>(nm, r->res));
    }
    return;
  }
  if (r->kind == kControl) {
    r->shape = {1};
    ControlRegisterBase::UpdateCallbackFunction cb =
        [r](ControlRegisterBase* reg, DataBuffer* db) {
          r->callbacks++;
          r->last_cb_reg = reg;
          r->last_cb_db = db;
          if (r->policy == 0) return;
          if (r->policy == 2)
            db->Set<T>(0, static_cast<T>(db->Get<T>(0) &
                                         static_cast<T>(r->mask)));
          reg->RegisterBase::SetDataBuffer(db);
        };
    Finish<T>(r, state->AddRegister<ControlRegister<T>>(nm, cb));
    return;
  }
  switch (src.draw(5)) {
    case 0:
      r->shape = {1};
      Finish<T>(r, state->AddRegister<Register<T>>(nm));
      break;
    case 1:
      r->shape = {8};
      Finish<T>(r, state->AddRegister<VectorRegister<T, 8>>(nm));
      break;
    case 2:
      r->shape = {3, 5};
      Finish<T>(r, state->AddRegister<MatrixRegister<T, 3, 5>>(nm));
      break;
    case 3:
      r->shape = {5, 2};
      Finish<T>(r, state->AddRegister<MatrixRegister<T, 5, 2>>(nm));
      break;
    default: {
      // A byte array register of a width chosen when it is built.
      using Wide = StateItem<RegisterBase, uint8_t*, RegisterSourceOperand<uint8_t>,
                             RegisterDestinationOperand<uint8_t>>;
      int w = static_cast<int>(src.range(1, 40));
      r->shape = {w};
      Finish<uint8_t>(r, state->AddRegister<Wide>(nm, w));
    }
  }
}

void MakeAny(TestState* s, Reg* r, pbt::Src& src) {
  switch (src.draw(8)) {
    case 0: Make<uint32_t>(s, r, src); break;
    case 1: Make<int8_t>(s, r, src); break;
    case 2: Make<uint8_t>(s, r, src); break;
    case 3: Make<int16_t>(s, r, src); break;
    case 4: Make<uint16_t>(s, r, src); break;
    case 5: Make<int32_t>(s, r, src); break;
    case 6: Make<int64_t>(s, r, src); break;
    default: Make<uint64_t>(s, r, src); break;
  }
}

void CheckAccess(SourceOperandInterface* op, int i, uint64_t ux, int64_t sx,
                 const std::string& what) {
  PBT_EQ(op->AsBool(i), ux != 0, what << " AsBool(" << i << ")");
  PBT_EQ(op->AsUint8(i), static_cast<uint8_t>(ux), what << " AsUint8(" << i << ")");
  PBT_EQ(op->AsInt8(i), static_cast<int8_t>(sx), what << " AsInt8(" << i << ")");
  PBT_EQ(op->AsUint16(i), static_cast<uint16_t>(ux), what << " AsUint16(" << i << ")");
  PBT_EQ(op->AsInt16(i), static_cast<int16_t>(sx), what << " AsInt16(" << i << ")");
  PBT_EQ(op->AsUint32(i), static_cast<uint32_t>(ux), what << " AsUint32(" << i << ")");
  PBT_EQ(op->AsInt32(i), static_cast<int32_t>(sx), what << " AsInt32(" << i << ")");
  PBT_EQ(op->AsUint64(i), ux, what << " AsUint64(" << i << ")");
  PBT_EQ(op->AsInt64(i), sx, what << " AsInt64(" << i << ")");
}

uint64_t ElementOf(const std::vector<uint8_t>& b, int width, int i) {
  uint64_t v = 0;
  std::memcpy(&v, &b[static_cast<size_t>(i) * width], width);
  return v;
}

int64_t Sext(uint64_t v, int width) {
  int sh = 64 - 8 * width;
  return static_cast<int64_t>(v << sh) >> sh;
}

void CheckReg(Reg& r) {
  PBT_ASSERT(r.reg->data_buffer() != nullptr, r.name << " has no value");
  PBT_EQ(r.reg->data_buffer()->size<uint8_t>(), static_cast<int>(r.bytes.size()),
         r.name << " buffer size");
  if (std::memcmp(r.reg->data_buffer()->raw_ptr(), r.bytes.data(),
                  r.bytes.size()) != 0)
    PBT_FAIL(r.name << ": value bytes differ from the oracle's");
  for (auto& s : r.srcs)
    for (int i = 0; i < r.n; i++) {
      uint64_t v = ElementOf(r.bytes, r.width, i);
      int64_t sx = Sext(v, r.width);
      CheckAccess(s.get(), i, r.is_signed ? static_cast<uint64_t>(sx) : v, sx,
                  r.name);
    }
  if (r.res) PBT_EQ(r.res->IsFree(), r.res_free, r.name << " resource free");
  PBT_EQ(r.callbacks, r.want_callbacks, r.name << " update callbacks");
}

struct Write {
  int reg;
  std::vector<uint8_t> bytes;
  DataBuffer* db;
};

void Commit(std::vector<std::unique_ptr<Reg>>& regs, Write w) {
  Reg& r = *regs[w.reg];
  if (r.kind == kControl) {
    r.want_callbacks++;
    if (r.policy == 0) return;
    if (r.policy == 2) {
      uint64_t v = ElementOf(w.bytes, r.width, 0) & r.mask;
      std::memcpy(w.bytes.data(), &v, r.width);
    }
  }
  r.bytes = w.bytes;
  r.res_free = true;
}

}  // namespace

PBT_SUITE(register_file,
          "at least two registers written, one of them through a destination "
          "operand with a non-zero latency, and a vector, matrix, control or "
          "reserved register among them",
          400000, 8000000) {
  auto state = std::make_unique<TestState>("state");
  auto line = std::make_unique<DataBufferDelayLine>();
  SimpleResourcePool pool("pool", 16);
  std::vector<std::unique_ptr<Reg>> regs;
  int nreg = static_cast<int>(src.range(1, 4));
  bool rich = false;
  for (int i = 0; i < nreg; i++) {
    auto r = std::make_unique<Reg>();
    r->name = "r" + std::to_string(i);
    r->kind = static_cast<Kind>(src.weighted({6, 2, 2}));
    if (r->kind == kReserved && !src.chance(10)) {
      r->res = pool.GetOrAddResource(r->name);
      PBT_ASSERT(r->res != nullptr, "resource");
    }
    if (r->kind == kControl) {
      r->policy = static_cast<int>(src.draw(3));
      r->mask = src.interesting();
    }
    MakeAny(state.get(), r.get(), src);
    rich |= r->kind != kPlain || r->shape.size() > 1 || r->shape[0] > 1;
    r->n = 1;
    for (int d : r->shape) r->n *= d;
    r->bytes.assign(static_cast<size_t>(r->n) * r->width, 0);
    ctx.log("register ", r->name, " kind ", r->kind, " width ", r->width,
            r->is_signed ? " signed" : " unsigned", " elements ", r->n);
    PBT_EQ(r->reg->name(), r->name, "name()");
    PBT_ASSERT(r->reg->shape() == r->shape, "shape()");
    PBT_EQ(r->reg->size(), r->n * r->width, "size()");
    PBT_EQ(r->reg->element_size(), r->width, "element_size()");
    PBT_ASSERT(r->reg->arch_state() == state.get(), "arch_state()");
    for (int k = 0; k < 2; k++) {
      std::string nm = "op" + std::to_string(src.draw(10));
      bool named = src.flip();
      r->srcs.emplace_back(r->mk_src(named ? &nm : nullptr));
      PBT_EQ(r->srcs.back()->AsString(), named ? nm : r->name, "source AsString");
      PBT_ASSERT(r->srcs.back()->shape() == r->shape, "source shape");
      auto obj = r->srcs.back()->GetObject();
      PBT_ASSERT(std::any_cast<RegisterBase*>(&obj) &&
                     std::any_cast<RegisterBase*>(obj) == r->reg,
                 "source GetObject");
      named = src.flip();
      int lat = static_cast<int>(
          src.weighted({2, 1}) == 0 ? src.draw(4) : src.draw(20));
      bool custom = src.chance(25);
      r->dsts.emplace_back(
          r->mk_dst(lat, named ? &nm : nullptr, custom ? line.get() : nullptr));
      r->dst_latency.push_back(lat);
      r->dst_custom_line.push_back(custom);
      PBT_EQ(r->dsts.back()->AsString(), named ? nm : r->name, "dest AsString");
      PBT_EQ(r->dsts.back()->latency(), lat, "dest latency");
      PBT_ASSERT(r->dsts.back()->shape() == r->shape, "dest shape");
      auto dobj = r->dsts.back()->GetObject();
      PBT_ASSERT(std::any_cast<RegisterBase*>(&dobj) &&
                     std::any_cast<RegisterBase*>(dobj) == r->reg,
                 "dest GetObject");
    }
    regs.push_back(std::move(r));
  }
  // The register table.
  std::map<std::string, RegisterBase*> table;
  for (auto& r : regs) table[r->name] = r->reg;
  for (auto& r : regs)
    if (src.chance(30)) {
      r->alias = "alias_" + r->name;
      state->AddRegister(r->alias, r->reg);
      table[r->alias] = r->reg;
    }
  auto check_table = [&] {
    PBT_EQ(state->registers()->size(), table.size(), "register table size");
    for (auto& [n, p] : table) {
      auto it = state->registers()->find(n);
      PBT_ASSERT(it != state->registers()->end() && it->second == p,
                 "register table lookup of " << n);
    }
  };
  check_table();
  std::map<long, std::vector<Write>> due_state, due_line;
  long now_state = 0, now_line = 0;
  int writes = 0;
  bool delayed = false;
  std::set<int> touched;
  auto check_all = [&] {
    std::map<const DataBuffer*, int> holders;
    for (auto& r : regs) {
      CheckReg(*r);
      holders[r->reg->data_buffer()]++;
    }
    for (auto& r : regs)
      if (r->kind != kControl)
        PBT_EQ(r->reg->data_buffer()->ref_count(), holders[r->reg->data_buffer()],
               r->name << ": references to the buffer of the register");
  };
  check_all();
  int steps = static_cast<int>(src.range(1, 25));
  for (int s = 0; s < steps; s++) {
    int op = src.weighted({10, 6, 2, 2, 1});
    int ri = static_cast<int>(src.draw(regs.size()));
    Reg& r = *regs[ri];
    if (op == 0) {  // write through a destination operand
      int oi = static_cast<int>(src.draw(r.dsts.size()));
      auto& d = r.dsts[oi];
      int how = static_cast<int>(src.draw(3));
      DataBuffer* db;
      std::vector<uint8_t> v;
      if (how == 0) {
        db = d->AllocateDataBuffer();
        v.assign(r.bytes.size(), 0);
      } else if (how == 1) {
        db = d->CopyDataBuffer();
        v = r.bytes;
        PBT_EQ(db->size<uint8_t>(), static_cast<int>(v.size()), "copy size");
        PBT_ASSERT(std::memcmp(db->raw_ptr(), v.data(), v.size()) == 0,
                   r.name << ": CopyDataBuffer differs from the current value");
      } else {
        db = state->db_factory()->Allocate(static_cast<int>(r.bytes.size()));
        d->InitializeDataBuffer(db);
        v.assign(r.bytes.size(), 0);
      }
      PBT_EQ(db->size<uint8_t>(), static_cast<int>(r.bytes.size()),
             "size of the buffer for " << r.name);
      PBT_EQ(db->latency(), r.dst_latency[oi], "buffer latency");
      PBT_ASSERT(db != r.reg->data_buffer(), "buffer aliases the register");
      if (how != 1) std::memset(db->raw_ptr(), 0, v.size());
      int nw = static_cast<int>(how == 1 ? src.range(0, 3) : src.range(1, r.n));
      for (int k = 0; k < nw; k++) {
        int e = static_cast<int>(src.draw(r.n));
        uint64_t x = src.interesting();
        std::memcpy(&v[static_cast<size_t>(e) * r.width], &x, r.width);
        std::memcpy(static_cast<uint8_t*>(db->raw_ptr()) + e * r.width, &x,
                    r.width);
      }
      ctx.log("write ", r.name, " through operand ", oi, " how ", how,
              " latency ", r.dst_latency[oi], " first element ",
              pbt::hex(ElementOf(v, r.width, 0)));
      check_all();  // nothing changes before Submit
      if (r.res && src.chance(80)) {
        r.res->Acquire();
        r.res_free = false;
      }
      Write w{ri, v, db};
      int lat = r.dst_latency[oi];
      writes++;
      touched.insert(ri);
      if (lat == 0) {
        Commit(regs, w);
      } else {
        delayed = true;
        (r.dst_custom_line[oi] ? due_line : due_state)
            [(r.dst_custom_line[oi] ? now_line : now_state) + lat]
                .push_back(w);
      }
      db->Submit();
      if (lat == 0 && r.kind == kControl) {
        PBT_ASSERT(r.last_cb_db == db, "callback buffer");
        PBT_ASSERT(r.last_cb_reg == r.reg, "callback register");
      }
    } else if (op == 1) {
      int n = static_cast<int>(src.range(1, 8));
      ctx.log("advance ", n);
      for (int k = 0; k < n; k++) {
        now_state++;
        for (auto& w : due_state[now_state]) Commit(regs, w);
        due_state.erase(now_state);
        state->AdvanceDelayLines();
        check_all();
        if (src.flip()) {
          now_line++;
          for (auto& w : due_line[now_line]) Commit(regs, w);
          due_line.erase(now_line);
          line->Advance();
          check_all();
        }
      }
    } else if (op == 2 && r.kind != kControl && src.chance(30)) {
      // Moving one register to another, or itself: they share the buffer.
      std::vector<int> same;
      for (size_t k = 0; k < regs.size(); k++)
        if (regs[k]->kind != kControl && regs[k]->bytes.size() == r.bytes.size())
          same.push_back(static_cast<int>(k));
      Reg& from = *regs[src.pick(same)];
      ctx.log("SetDataBuffer ", r.name, " to that of ", from.name);
      auto* db = from.reg->data_buffer();
      Commit(regs, Write{ri, from.bytes, db});
      r.reg->SetDataBuffer(db);
      PBT_ASSERT(r.reg->data_buffer() == db, "data_buffer()");
      writes++;
      touched.insert(ri);
    } else if (op == 2) {  // set a buffer directly
      auto* db = state->db_factory()->Allocate(static_cast<int>(r.bytes.size()));
      std::vector<uint8_t> v(r.bytes.size());
      uint64_t x = src.interesting();
      for (size_t k = 0; k < v.size(); k++)
        v[k] = static_cast<uint8_t>(x >> (8 * (k % 8)));
      std::memcpy(db->raw_ptr(), v.data(), v.size());
      ctx.log("SetDataBuffer ", r.name, " ", pbt::hex(x));
      Commit(regs, Write{ri, v, db});
      r.reg->SetDataBuffer(db);
      db->DecRef();
      writes++;
      touched.insert(ri);
      if (r.kind != kControl || r.policy != 0)
        PBT_ASSERT(r.reg->data_buffer() == db, "data_buffer()");
    } else if (op == 3) {
      if (r.res) {
        if (src.flip()) {
          r.res->Acquire();
          r.res_free = false;
        } else {
          r.res->Release();
          r.res_free = true;
        }
      }
    } else if (!r.alias.empty() && table.count(r.alias)) {
      ctx.log("RemoveRegister ", r.alias);
      state->RemoveRegister(r.alias);
      table.erase(r.alias);
      state->RemoveRegister("no_such_register");
    }
    check_all();
    check_table();
  }
  ctx.nontrivial_if(writes >= 2 && delayed && touched.size() >= 2 && rich);
  // Deliver what is in flight before the state goes away.
  for (int k = 0; k < 24; k++) {
    now_line++;
    for (auto& w : due_line[now_line]) Commit(regs, w);
    line->Advance();
  }
  check_all();
  for (auto& r : regs)
    if (!r->alias.empty() && table.count(r->alias) && src.flip())
      state->RemoveRegister(r->alias);
  line.reset();
}

namespace {

template <typename T>
void StatusCase(pbt::Src& src, pbt::Ctx& ctx) {
  TestState state("state");
  auto reg = std::make_unique<StatusRegister<T>>(&state, "status");
  constexpr int kBits = sizeof(T) * 8;
  PBT_EQ(reg->size(), static_cast<int>(sizeof(T)), "size()");
  std::unique_ptr<SourceOperandInterface> ops[2] = {
      std::unique_ptr<SourceOperandInterface>(reg->CreateSourceOperand()),
      std::unique_ptr<SourceOperandInterface>(
          reg->CreateSourceOperand("other"))};
  PBT_EQ(ops[0]->AsString(), std::string("status"), "AsString");
  PBT_EQ(ops[1]->AsString(), std::string("other"), "AsString");
  uint64_t live = 0;     // the condition the functions report
  uint64_t hooked = 0;   // which bits have a function
  std::vector<int> evals(kBits, 0);
  int steps = static_cast<int>(src.range(1, 14));
  int reads = 0;
  for (int s = 0; s < steps; s++) {
    switch (src.weighted({4, 3, 3, 3, 1})) {
      case 0: {
        int b = static_cast<int>(src.chance(30) ? kBits - 1 : src.draw(kBits));
        hooked |= uint64_t{1} << b;
        ctx.log("hook bit ", b);
        reg->SetEvaluateFunction(b, [&live, &evals, b]() -> bool {
          evals[b]++;
          return (live >> b) & 1;
        });
        break;
      }
      case 1:
        live = src.interesting();
        ctx.log("conditions ", pbt::hex(live));
        break;
      case 2: {
        std::fill(evals.begin(), evals.end(), 0);
        T got = reg->Read();
        reads++;
        PBT_EQ(got, static_cast<T>(live & hooked), "Read()");
        for (int b = 0; b < kBits; b++)
          PBT_EQ(evals[b], ((hooked >> b) & 1) ? 1 : 0,
                 "evaluations of bit " << b << " in Read()");
        break;
      }
      case 3: {
        std::fill(evals.begin(), evals.end(), 0);
        T mask = static_cast<T>(src.interesting());
        T got = reg->Read(mask);
        reads++;
        ctx.log("Read(", pbt::hex(static_cast<uint64_t>(mask)), ")");
        PBT_EQ(got, static_cast<T>(live & hooked & mask), "Read(mask)");
        for (int b = 0; b < kBits; b++)
          PBT_EQ(evals[b],
                 ((hooked >> b) & 1) && ((static_cast<uint64_t>(mask) >> b) & 1)
                     ? 1
                     : 0,
                 "evaluations of bit " << b << " in Read(mask)");
        break;
      }
      default: {
        // Read only: a write has no effect, and consumes nothing it was not
        // given.
        auto* db = state.db_factory()->Allocate<T>(1);
        db->template Set<T>(0, static_cast<T>(src.interesting()));
        db->set_destination(reg.get());
        db->set_latency(static_cast<int>(src.draw(2)));
        db->set_delay_line(state.data_buffer_delay_line());
        db->IncRef();
        ctx.log("write the read-only register");
        db->Submit();
        state.AdvanceDelayLines();
        PBT_EQ(db->ref_count(), 1, "references left after a write was ignored");
        db->DecRef();
        ctx.label("write to a status register");
      }
    }
    T v = static_cast<T>(live & hooked);
    for (auto& op : ops) {
      PBT_EQ(op->AsBool(0), v != 0, "AsBool");
      PBT_EQ(op->AsUint8(0), static_cast<uint8_t>(v), "AsUint8");
      PBT_EQ(op->AsInt8(0), static_cast<int8_t>(v), "AsInt8");
      PBT_EQ(op->AsUint16(0), static_cast<uint16_t>(v), "AsUint16");
      PBT_EQ(op->AsInt16(0), static_cast<int16_t>(v), "AsInt16");
      PBT_EQ(op->AsUint32(0), static_cast<uint32_t>(v), "AsUint32");
      PBT_EQ(op->AsInt32(0), static_cast<int32_t>(v), "AsInt32");
      PBT_EQ(op->AsUint64(0), static_cast<uint64_t>(v), "AsUint64");
      PBT_EQ(op->AsInt64(0), static_cast<int64_t>(v), "AsInt64");
      PBT_ASSERT(op->shape() == std::vector<int>{1}, "shape");
    }
  }
  ctx.nontrivial_if(reads > 0 && (live & hooked) != 0);
}

template <typename T>
void DevNull(pbt::Src& src, pbt::Ctx& ctx) {
  TestState state("state");
  std::vector<int> shape;
  int dims = static_cast<int>(src.range(1, 3));
  int n = 1;
  for (int i = 0; i < dims; i++) {
    shape.push_back(i == 0 && src.flip() ? 4 : i > 0 && src.flip() ? 1 : static_cast<int>(src.range(1, 6)));
    n *= shape.back();
  }
  std::string nm = src.flip() ? "null" : "";
  std::unique_ptr<DestinationOperandInterface> op(
      nm.empty() ? new DevNullOperand<T>(&state, shape)
                 : new DevNullOperand<T>(&state, shape, nm));
  PBT_EQ(op->AsString(), nm, "AsString");
  PBT_EQ(op->latency(), 0, "latency");
  PBT_ASSERT(op->shape() == shape, "shape");
  PBT_ASSERT(!op->GetObject().has_value(), "GetObject");
  auto reg = std::make_unique<VectorRegister<T, 4>>(&state, "r");
  std::unique_ptr<DestinationOperandInterface> rop(
      reg->CreateDestinationOperand(0));
  for (int k = 0; k < 4; k++) {
    DataBuffer* db;
    int how = static_cast<int>(src.draw(3));
    // A buffer meant for the register is given back unused, and may come again.
    if (src.flip()) rop->AllocateDataBuffer()->DecRef();
    if (how == 0) {
      db = op->AllocateDataBuffer();
    } else if (how == 1) {
      db = op->CopyDataBuffer();
    } else {
      // A buffer that was meant for a register is redirected to nowhere.
      db = rop->AllocateDataBuffer();
      op->InitializeDataBuffer(db);
    }
    if (how != 2)
      PBT_EQ(db->template size<T>(), n, "elements in the buffer");
    PBT_EQ(db->latency(), 0, "latency");
    for (int i = 0; i < db->template size<T>(); i++)
      db->template Set<T>(i, static_cast<T>(src.interesting() | 1));
    db->IncRef();
    db->Submit();
    state.AdvanceDelayLines();
    PBT_EQ(db->ref_count(), 1, "references after Submit");
    db->DecRef();
    for (int i = 0; i < 4; i++)
      PBT_EQ(reg->data_buffer()->template Get<T>(i), T{0}, "register changed");
  }
  ctx.nontrivial_if(n > 1);
}

}  // namespace

PBT_SUITE(status_register,
          "a read of a register at least one bit of which is hooked and true",
          300000, 6000000) {
  switch (src.draw(8)) {
    case 0: StatusCase<uint32_t>(src, ctx); break;
    case 1: StatusCase<uint64_t>(src, ctx); break;
    case 2: StatusCase<uint8_t>(src, ctx); break;
    case 3: StatusCase<uint16_t>(src, ctx); break;
    case 4: StatusCase<int8_t>(src, ctx); break;
    case 5: StatusCase<int16_t>(src, ctx); break;
    case 6: StatusCase<int32_t>(src, ctx); break;
    default: StatusCase<int64_t>(src, ctx); break;
  }
}

PBT_SUITE(null_destination, "a shape with more than one element", 80000, 1000000) {
  switch (src.draw(4)) {
    case 0: DevNull<uint32_t>(src, ctx); break;
    case 1: DevNull<uint64_t>(src, ctx); break;
    case 2: DevNull<uint8_t>(src, ctx); break;
    default: DevNull<int16_t>(src, ctx); break;
  }
}

// The register and fifo tables: names, aliases, and what the state deletes.
PBT_SUITE(state_tables, "an alias, and a removed name", 60000, 900000) {
  struct CReg : Register<uint32_t> {
    CReg(ArchState* s, absl::string_view n, int* c) : Register<uint32_t>(s, n), count(c) {}
    ~CReg() override { ++*count; }
    int* count;
  };
  struct CFifo : Fifo<uint32_t> {
    CFifo(ArchState* s, absl::string_view n, int* c) : Fifo<uint32_t>(s, n, 3), count(c) {}
    ~CFifo() override { ++*count; }
    int* count;
  };
  int counts[2][6] = {};
  int made[2] = {0, 0};
  auto state = std::make_unique<TestState>("state");
  std::map<std::string, std::pair<RegisterBase*, int>> rt;
  std::map<std::string, std::pair<FifoBase*, int>> ft;
  std::vector<std::pair<RegisterBase*, int>> regs;
  std::vector<std::pair<FifoBase*, int>> fifos;
  bool alias = false, removed = false;
  auto name = [&]() { return std::string(src.pick<const char*>({"a", "b", "c", "d", "e", ""})); };
  int steps = static_cast<int>(src.range(1, 14));
  for (int s = 0; s < steps; s++) {
    bool fifo = src.flip();
    std::string n = name();
    bool taken = fifo ? ft.count(n) > 0 : rt.count(n) > 0;
    switch (src.draw(3)) {
      case 0:
        if (taken || made[fifo] == 6) break;
        ctx.log("add ", fifo ? "fifo " : "register ", n);
        if (fifo) {
          auto* f = state->AddFifo<CFifo>(n, &counts[1][made[1]]);
          ft[n] = {f, made[1]++};
          fifos.push_back(ft[n]);
        } else {
          auto* r = state->AddRegister<CReg>(n, &counts[0][made[0]]);
          rt[n] = {r, made[0]++};
          regs.push_back(rt[n]);
        }
        break;
      case 1:
        // An alias; a name that is taken keeps what it names.
        if (fifo ? fifos.empty() : regs.empty()) break;
        alias = true;
        ctx.log("alias ", fifo ? "fifo " : "register ", n);
        if (fifo) {
          auto f = fifos[src.draw(fifos.size())];
          state->AddFifo(n, f.first);
          ft.emplace(n, f);
        } else {
          auto r = regs[src.draw(regs.size())];
          state->AddRegister(n, r.first);
          rt.emplace(n, r);
        }
        break;
      default:
        ctx.log("remove ", fifo ? "fifo " : "register ", n);
        if (fifo) {
          state->RemoveFifo(n);
          removed |= ft.erase(n) > 0;
        } else {
          state->RemoveRegister(n);
          removed |= rt.erase(n) > 0;
        }
    }
    PBT_EQ(state->registers()->size(), rt.size(), "names of registers");
    PBT_EQ(state->fifos()->size(), ft.size(), "names of fifos");
    for (auto& [k, v] : rt) {
      auto it = state->registers()->find(k);
      PBT_ASSERT(it != state->registers()->end() && it->second == v.first, "register '" << k << "'");
    }
    for (auto& [k, v] : ft) {
      auto it = state->fifos()->find(k);
      PBT_ASSERT(it != state->fifos()->end() && it->second == v.first, "fifo '" << k << "'");
    }
    for (int k = 0; k < 2; k++)
      for (int i = 0; i < made[k]; i++) PBT_EQ(counts[k][i], 0, "deleted while the state lives");
  }
  // What no name is left for is the caller's.
  for (auto& [r, i] : regs) {
    bool there = false;
    for (auto& [k, v] : rt) there = there || v.first == r;
    if (!there) delete r;
  }
  for (auto& [f, i] : fifos) {
    bool there = false;
    for (auto& [k, v] : ft) there = there || v.first == f;
    if (!there) delete f;
  }
  state.reset();
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < made[k]; i++) PBT_EQ(counts[k][i], 1, "times deleted");
  ctx.nontrivial_if(alias && removed);
}

PBT_SUITE(wrapper_operands, "always", 2000, 20000) {
  struct Obj {
    std::string s;
    std::string AsString() const { return s; }
  };
  ctx.nontrivial();
  Obj o{std::string("obj") + std::to_string(src.draw(100))};
  std::vector<int> shape;
  for (int i = static_cast<int>(src.draw(3)); i >= 0; i--)
    shape.push_back(static_cast<int>(src.range(1, 9)));
  WrapperSourceOperand<Obj> so(&o, shape);
  WrapperDestinationOperand<Obj> dop(&o, shape);
  PBT_EQ(so.AsString(), o.s, "AsString");
  PBT_EQ(dop.AsString(), o.s, "AsString");
  PBT_ASSERT(so.shape() == shape && dop.shape() == shape, "shape");
  PBT_ASSERT(std::any_cast<Obj*>(so.GetObject()) == &o, "GetObject");
  // There is no number to read.
  int ix = static_cast<int>(src.draw(4));
  PBT_ASSERT(!so.AsBool(ix) && so.AsInt8(ix) == 0 && so.AsUint8(ix) == 0 && so.AsInt16(ix) == 0 &&
                 so.AsUint16(ix) == 0 && so.AsInt32(ix) == 0 && so.AsUint32(ix) == 0 &&
                 so.AsInt64(ix) == 0 && so.AsUint64(ix) == 0,
             "a wrapper source yields a number");
  PBT_ASSERT(std::any_cast<Obj*>(dop.GetObject()) == &o, "GetObject");
}

namespace {
template <typename T, typename RegType>
void Wide(pbt::Src& src, pbt::Ctx& ctx, std::vector<int> shape) {
  TestState state("state");
  int n = 1;
  for (int d : shape) n *= d;
  auto* reg = state.AddRegister<RegType>("wide");
  PBT_ASSERT(reg->shape() == shape, "shape()");
  PBT_EQ(reg->size(), n * static_cast<int>(sizeof(T)), "size()");
  std::unique_ptr<SourceOperandInterface> s(reg->CreateSourceOperand());
  std::unique_ptr<DestinationOperandInterface> d(reg->CreateDestinationOperand(src.flip() ? 1 : 0));
  std::vector<T> want(n, T{0});
  int steps = static_cast<int>(src.range(1, 4));
  for (int k = 0; k < steps; k++) {
    DataBuffer* db = k == 0 && src.flip() ? d->AllocateDataBuffer() : d->CopyDataBuffer();
    PBT_EQ(db->size<T>(), n, "elements of the buffer");
    uint64_t mul = src.interesting() | 1;
    if (src.flip()) {
      for (int i = 0; i < n; i++) want[i] = static_cast<T>(mul * (i + 1));
      db->Set<T>(absl::Span<const T>(want.data(), n));
    } else {
      if (k == 0) { std::memset(db->raw_ptr(), 0, n * sizeof(T)); want.assign(n, T{0}); }
      int i = src.flip() ? n - 1 : static_cast<int>(src.draw(n));
      want[i] = static_cast<T>(mul);
      db->Set<T>(i, want[i]);
    }
    db->Submit();
    if (d->latency() > 0) state.AdvanceDelayLines();
    for (int i = 0; i < n; i++) {
      PBT_EQ(s->AsUint64(i), static_cast<uint64_t>(want[i]), "element " << i << " of " << n);
      PBT_EQ(s->AsInt64(i), static_cast<int64_t>(static_cast<std::make_signed_t<T>>(want[i])), "signed element " << i << " of " << n);
      PBT_EQ(s->AsUint8(i), static_cast<uint8_t>(want[i]), "byte of element " << i << " of " << n);
    }
  }
  ctx.log(n, " elements of ", sizeof(T), " bytes");
  ctx.nontrivial_if(n > 255);
}
}  // namespace

PBT_SUITE(wide_registers, "more than 255 elements", 20000, 300000) {
  switch (src.draw(5)) {
    case 0: Wide<uint8_t, VectorRegister<uint8_t, 300>>(src, ctx, {300}); break;
    case 1: Wide<uint16_t, MatrixRegister<uint16_t, 20, 40>>(src, ctx, {20, 40}); break;
    case 2: Wide<uint64_t, VectorRegister<uint64_t, 257>>(src, ctx, {257}); break;
    case 3: Wide<uint32_t, VectorRegister<uint32_t, 1024>>(src, ctx, {1024}); break;
    default: Wide<uint8_t, MatrixRegister<uint8_t, 3, 100>>(src, ctx, {3, 100});
  }
}
