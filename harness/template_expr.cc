// C15: template expressions of the instruction set description.
#include <climits>
#include <memory>
#include <optional>

#include "absl/status/statusor.h"
#include "mpact/sim/decoder/template_expression.h"
#include "pbt.h"

using namespace mpact::sim::machine_description::instruction_set;  // NOLINT

namespace {
int g_live = 0;

// A constant whose instances are counted.
class Leaf : public TemplateExpression {
 public:
  explicit Leaf(int v) : v_(v) { g_live++; }
  ~Leaf() override { g_live--; }
  absl::StatusOr<TemplateValue> GetValue() const override { return v_; }
  absl::StatusOr<TemplateExpression*> Evaluate(TemplateInstantiationArgs*) override {
    return new Leaf(v_);
  }
  bool IsConstant() const override { return true; }
  TemplateExpression* DeepCopy() const override { return new Leaf(v_); }

 private:
  int v_;
};

// The model: an immutable expression tree.
struct M;
using MP = std::shared_ptr<const M>;
enum Kind { kConst, kLeaf, kParam, kNeg, kAdd, kSub, kMul, kDiv, kFn, kSlot };
struct M {
  Kind k;
  long v = 0;  // value, parameter or function number
  std::vector<MP> c;
};
MP Mk(Kind k, long v, std::vector<MP> c = {}) {
  return std::make_shared<M>(M{k, v, std::move(c)});
}

bool IsConst(const MP& m) {
  if (m->k == kParam) return false;
  for (auto& c : m->c)
    if (!IsConst(c)) return false;
  return true;
}

constexpr int kFns = 3;  // sum, first minus second (error when fewer), always error

struct Overflow {};
long Fit(__int128 v) {
  if (v > INT_MAX || v < INT_MIN) throw Overflow{};
  return static_cast<long>(v);
}

using V = std::optional<long>;  // nullopt: error

V Val(const MP& m) {
  switch (m->k) {
    case kConst:
    case kLeaf: return m->v;
    case kParam: return std::nullopt;
    case kSlot: return Val(m->c[0]);
    case kNeg: {
      V a = Val(m->c[0]);
      if (!a) return a;
      return Fit(-static_cast<__int128>(*a));
    }
    case kFn: {
      if (!IsConst(m)) return std::nullopt;
      std::vector<long> a;
      for (auto& c : m->c) {
        V v = Val(c);
        if (!v) return v;
        a.push_back(*v);
      }
      if (m->v == 2) return std::nullopt;
      if (m->v == 1) {
        if (a.size() < 2) return std::nullopt;
        return Fit(static_cast<__int128>(a[0]) - a[1]);
      }
      __int128 s = 0;
      for (long x : a) s = Fit(s + x);
      return static_cast<long>(s);
    }
    default: {
      V a = Val(m->c[0]), b = Val(m->c[1]);
      if (!a || !b) return std::nullopt;
      __int128 x = *a, y = *b;
      switch (m->k) {
        case kAdd: return Fit(x + y);
        case kSub: return Fit(x - y);
        case kMul: return Fit(x * y);
        default:
          if (y == 0) return std::nullopt;
          return Fit(x / y);
      }
    }
  }
}

// Substitution; nullptr result is an error.
MP Ev(const MP& m, const std::vector<MP>* args) {
  switch (m->k) {
    case kConst:
    case kLeaf: return m;
    case kSlot: return Ev(m->c[0], args);
    case kParam: {
      if (args == nullptr) return m;
      if (static_cast<size_t>(m->v) >= args->size()) return nullptr;
      const MP& a = (*args)[m->v];
      if (IsConst(a)) {
        V v = Val(a);
        return v ? Mk(kConst, *v) : nullptr;
      }
      return Ev(a, nullptr);
    }
    case kFn: {
      std::vector<MP> c;
      for (auto& x : m->c) {
        auto e = Ev(x, args);
        if (!e) return nullptr;
        c.push_back(e);
      }
      return Mk(kFn, m->v, c);
    }
    default: {
      std::vector<MP> c;
      bool all = true;
      for (auto& x : m->c) {
        auto e = Ev(x, args);
        if (!e) return nullptr;
        all &= IsConst(e);
        c.push_back(e);
      }
      auto n = Mk(m->k, 0, c);
      if (!all) return n;
      V v = Val(n);
      return v ? Mk(kConst, *v) : nullptr;
    }
  }
}

std::vector<std::unique_ptr<TemplateFormal>> g_formals;
TemplateFormal* Formal(long i) {
  while (g_formals.size() <= static_cast<size_t>(i))
    g_formals.push_back(std::make_unique<TemplateFormal>(
        "p" + std::to_string(g_formals.size()), static_cast<int>(g_formals.size())));
  return g_formals[i].get();
}

absl::StatusOr<TemplateValue> CallFn(long which, TemplateInstantiationArgs* args) {
  std::vector<int> a;
  for (auto* e : *args) {
    auto v = e->GetValue();
    if (!v.ok()) return v.status();
    a.push_back(std::get<int>(v.value()));
  }
  if (which == 2) return absl::InternalError("function fails");
  if (which == 1) {
    if (a.size() < 2) return absl::InternalError("too few");
    return a[0] - a[1];
  }
  int s = 0;
  for (int x : a) s += x;
  return s;
}

TemplateExpression* Build(const MP& m) {
  switch (m->k) {
    case kConst: return new TemplateConstant(static_cast<int>(m->v));
    case kLeaf: return new Leaf(static_cast<int>(m->v));
    case kParam: return new TemplateParam(Formal(m->v));
    case kNeg: return new TemplateNegate(Build(m->c[0]));
    case kSlot: return new SlotConstant(Build(m->c[0]));
    case kFn: {
      auto* a = new TemplateInstantiationArgs;
      for (auto& c : m->c) a->push_back(Build(c));
      long w = m->v;
      return new TemplateFunction(
          [w](TemplateInstantiationArgs* args) { return CallFn(w, args); }, a);
    }
    case kAdd: return new TemplateAdd(Build(m->c[0]), Build(m->c[1]));
    case kSub: return new TemplateSubtract(Build(m->c[0]), Build(m->c[1]));
    case kMul: return new TemplateMultiply(Build(m->c[0]), Build(m->c[1]));
    default: return new TemplateDivide(Build(m->c[0]), Build(m->c[1]));
  }
}

std::string Text(const MP& m) {
  switch (m->k) {
    case kConst: return std::to_string(m->v);
    case kLeaf: return std::to_string(m->v) + "'";
    case kParam: return "p" + std::to_string(m->v);
    case kNeg: return "-(" + Text(m->c[0]) + ")";
    case kSlot: return "slot(" + Text(m->c[0]) + ")";
    case kFn: {
      std::string s = "f" + std::to_string(m->v) + "(";
      for (auto& c : m->c) s += Text(c) + " ";
      return s + ")";
    }
    default: return "(" + Text(m->c[0]) + "+-*/"[m->k - kAdd] + Text(m->c[1]) + ")";
  }
}

MP Gen(pbt::Src& src, int depth, int params) {
  int w = depth <= 0 ? 0 : static_cast<int>(src.draw(10));
  auto leaf = [&]() -> MP {
    if (params > 0 && src.chance(35))
      return Mk(kParam, static_cast<long>(src.draw(params)));
    long v = src.weighted({5, 2, 1}) == 0 ? src.range(-3, 9)
             : src.chance(70)             ? src.range(-1000, 1000)
                              : static_cast<long>(static_cast<int32_t>(src.interesting()));
    return Mk(src.chance(30) ? kLeaf : kConst, v);
  };
  switch (w) {
    case 0:
    case 1: return leaf();
    case 2: return Mk(kNeg, 0, {Gen(src, depth - 1, params)});
    case 3: return Mk(kSlot, 0, {Gen(src, depth - 1, params)});
    case 4: {
      std::vector<MP> c;
      int n = src.chance(10) ? static_cast<int>(src.range(0, 9)) : static_cast<int>(src.range(1, 3));
      for (int i = 0; i < n; i++) c.push_back(Gen(src, depth - 2, params));
      return Mk(kFn, static_cast<long>(src.weighted({6, 3, 1})), c);
    }
    default: {
      Kind k = static_cast<Kind>(kAdd + src.draw(4));
      auto a = Gen(src, depth - 1, params);
      return Mk(k, 0, {a, Gen(src, depth - 1, params)});
    }
  }
}

void Compare(TemplateExpression* e, const MP& m, const std::string& what) {
  PBT_EQ(e->IsConstant(), IsConst(m), what << ": IsConstant of " << Text(m));
  auto got = e->GetValue();
  V want = Val(m);
  PBT_EQ(got.ok(), want.has_value(), what << ": has a value: " << Text(m));
  if (want)
    PBT_EQ(static_cast<long>(std::get<int>(got.value())), *want,
           what << ": value of " << Text(m));
}
}  // namespace

namespace {
void Run(pbt::Src& src, pbt::Ctx& ctx, const MP& m, const std::vector<MP>& args,
         const std::vector<MP>& args2, int depth) {
  ctx.log(Text(m));
  for (auto& a : args) ctx.log("  argument ", Text(a));
  for (auto& a : args2) ctx.log("  outer argument ", Text(a));
  try {
    // Anything that overflows an int is outside the property.
    Val(m);
    auto e0 = Ev(m, nullptr);
    auto e1 = Ev(m, &args);
    MP e2;
    if (e1) e2 = Ev(e1, &args2);
    for (auto& x : {e0, e1, e2})
      if (x) Val(x);
    std::unique_ptr<TemplateExpression> e(Build(m));
    Compare(e.get(), m, "as built");
    std::unique_ptr<TemplateExpression> copy(e->DeepCopy());
    Compare(copy.get(), m, "copy");
    TemplateInstantiationArgs ta, ta2;
    std::vector<std::unique_ptr<TemplateExpression>> own;
    for (auto& a : args) {
      own.emplace_back(Build(a));
      ta.push_back(own.back().get());
    }
    for (auto& a : args2) {
      own.emplace_back(Build(a));
      ta2.push_back(own.back().get());
    }
    int before = g_live;
    auto check = [&](TemplateExpression* from, TemplateInstantiationArgs* a,
                     const MP& want, const char* what)
        -> std::unique_ptr<TemplateExpression> {
      auto r = from->Evaluate(a);
      PBT_EQ(r.ok(), want != nullptr, what << ": evaluates: " << Text(m));
      if (!r.ok()) return nullptr;
      std::unique_ptr<TemplateExpression> p(r.value());
      PBT_ASSERT(p.get() != from, what << ": a new expression");
      Compare(p.get(), want, what);
      return p;
    };
    {
      auto r0 = check(e.get(), nullptr, e0, "no arguments");
      auto r1 = check(e.get(), &ta, e1, "with arguments");
      if (r1) {
        if (src.flip()) r1.reset(r1->DeepCopy());
        auto r2 = check(r1.get(), &ta2, e2, "with outer arguments");
      }
      auto rc = check(copy.get(), &ta, e1, "copy with arguments");
      Compare(e.get(), m, "after evaluation");
    }
    PBT_EQ(g_live, before, "expression nodes left behind by evaluation");
    e.reset();
    copy.reset();
    own.clear();
    PBT_EQ(g_live, 0, "expression nodes left behind");
    bool used = false;
    std::function<void(const MP&)> walk = [&](const MP& x) {
      if (x->k == kParam && static_cast<size_t>(x->v) < args.size() &&
          args[x->v]->k != kConst && args[x->v]->k != kLeaf)
        used = true;
      for (auto& c : x->c) walk(c);
    };
    walk(m);
    ctx.nontrivial_if(used && depth > 1);
  } catch (const Overflow&) {
    ctx.label("overflow");
  }
}
}  // namespace

PBT_SUITE(expressions,
          "an expression with a parameter that is bound to an argument which is "
          "itself not a plain constant",
          900000, 15000000) {
  g_live = 0;
  int inner = static_cast<int>(src.draw(3)), outer = static_cast<int>(src.draw(3));
  if (src.chance(10)) inner += static_cast<int>(src.draw(20));
  if (src.chance(10)) outer += static_cast<int>(src.draw(20));
  int depth = static_cast<int>(src.range(1, 5));
  MP m = Gen(src, depth, inner);
  // Usually enough arguments.
  size_t n = static_cast<size_t>(inner);
  if (n > 0 && src.chance(10)) n--;
  if (src.chance(10)) n++;
  std::vector<MP> args, args2;
  for (size_t i = 0; i < n; i++) args.push_back(Gen(src, 2, outer));
  for (int i = 0; i < outer; i++) args2.push_back(Gen(src, 2, 0));
  Run(src, ctx, m, args, args2, depth);
}

// Long chains of operators and functions of many arguments.
PBT_SUITE(large_expressions, "more than 50 operators", 4000, 60000) {
  g_live = 0;
  int inner = static_cast<int>(src.range(1, 40)), outer = static_cast<int>(src.range(1, 40));
  auto one = [&](int params) {
    return params > 0 && src.chance(40) ? Mk(kParam, static_cast<long>(src.draw(params)))
                                        : Mk(src.flip() ? kLeaf : kConst, src.range(-9, 9));
  };
  MP m = one(inner);
  int n = static_cast<int>(src.range(1, 400));
  int negations = 0;  // each doubles the time GetValue takes
  for (int i = 0; i < n; i++) {
    switch (src.draw(6)) {
      case 0:
        if (negations++ < 4) m = Mk(kNeg, 0, {m});
        break;
      case 1: m = Mk(kSub, 0, {m, one(inner)}); break;
      case 2: m = Mk(kSub, 0, {one(inner), m}); break;
      case 3: m = Mk(kSlot, 0, {m}); break;
      case 4: {
        std::vector<MP> c{m};
        int k = static_cast<int>(src.draw(12));
        for (int j = 0; j < k; j++) c.push_back(one(inner));
        m = Mk(kFn, 0, c);
        break;
      }
      default: m = Mk(kAdd, 0, {m, one(inner)});
    }
  }
  std::vector<MP> args, args2;
  for (int i = 0; i < inner; i++)
    args.push_back(src.flip() ? one(outer) : Mk(kAdd, 0, {one(outer), one(outer)}));
  for (int i = 0; i < outer; i++) args2.push_back(one(0));
  Run(src, ctx, m, args, args2, n > 50 ? 2 : 0);
}
