// C04: immediate and literal operands.
#include <memory>

#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/literal_operand.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {

void CheckAll(SourceOperandInterface* op, int i, int64_t v, uint64_t uv,
              const std::string& what) {
  // uv: the value converted to 64 bits; every narrower access is its low bits.
  PBT_EQ(op->AsBool(i), uv != 0, what << " AsBool(" << i << ")");
  PBT_EQ(op->AsUint8(i), static_cast<uint8_t>(uv), what << " AsUint8(" << i << ")");
  PBT_EQ(op->AsInt8(i), static_cast<int8_t>(uv), what << " AsInt8(" << i << ")");
  PBT_EQ(op->AsUint16(i), static_cast<uint16_t>(uv), what << " AsUint16(" << i << ")");
  PBT_EQ(op->AsInt16(i), static_cast<int16_t>(uv), what << " AsInt16(" << i << ")");
  PBT_EQ(op->AsUint32(i), static_cast<uint32_t>(uv), what << " AsUint32(" << i << ")");
  PBT_EQ(op->AsInt32(i), static_cast<int32_t>(uv), what << " AsInt32(" << i << ")");
  PBT_EQ(op->AsUint64(i), uv, what << " AsUint64(" << i << ")");
  PBT_EQ(op->AsInt64(i), v, what << " AsInt64(" << i << ")");
  PBT_ASSERT(!op->GetObject().has_value(), what << " GetObject is not empty");
}

template <typename T>
std::string Dec(T v) {
  if constexpr (std::is_signed_v<T>) return std::to_string(static_cast<long long>(v));
  return std::to_string(static_cast<unsigned long long>(v));
}

template <typename T>
void Scalar(pbt::Src& src, pbt::Ctx& ctx) {
  T v = static_cast<T>(src.interesting());
  std::vector<int> shape;
  int kind = static_cast<int>(src.draw(4));
  for (int i = static_cast<int>(src.draw(3)); i >= 0; i--)
    shape.push_back(static_cast<int>(src.range(1, 200)));
  std::string text = src.flip() ? "some text" : "";
  std::unique_ptr<ImmediateOperand<T>> op;
  switch (kind) {
    case 0: op.reset(new ImmediateOperand<T>(v)); break;
    case 1: op.reset(new ImmediateOperand<T>(v, text)); break;
    case 2: op.reset(new ImmediateOperand<T>(v, shape)); break;
    default: op.reset(new ImmediateOperand<T>(v, shape, text)); break;
  }
  ctx.log(sizeof(T) * 8, std::is_signed_v<T> ? "s " : "u ", Dec(v), " kind ", kind);
  ctx.nontrivial_if(v != 0 && v != 1);
  PBT_ASSERT(op->shape() == (kind >= 2 ? shape : std::vector<int>{1}), "shape");
  PBT_EQ(op->AsString(), (kind & 1) ? text : Dec(v), "AsString");
  for (int k = 0; k < 3; k++) {
    int i = k == 0 ? 0 : static_cast<int>(src.interesting());
    CheckAll(op.get(), i, static_cast<int64_t>(v), static_cast<uint64_t>(v),
             "immediate");
  }
}

template <typename T>
void Vector(pbt::Src& src, pbt::Ctx& ctx) {
  std::vector<T> v;
  int n = static_cast<int>(src.chance(20) ? src.range(1, 64) : src.range(1, 5));
  if (src.draw(2000) == 1999) n = src.pick({255, 256, 257, 300, 65535, 65536, 65537});
  for (int i = 0; i < n; i++)
    v.push_back(static_cast<T>(i < 100 || i >= n - 3 ? src.interesting() : 0x0123456789abcdefULL * (i + 1)));
  std::unique_ptr<VectorImmediateOperand<T>> op(
      src.flip() ? new VectorImmediateOperand<T>(v, {n})
                 : new VectorImmediateOperand<T>(v));
  ctx.nontrivial_if(n > 1);
  ctx.log(sizeof(T) * 8, std::is_signed_v<T> ? "s" : "u", " x ", n);
  PBT_ASSERT(op->shape() == std::vector<int>{n}, "shape");
  PBT_EQ(op->AsString(), "[" + Dec(v.front()) + "..." + Dec(v.back()) + "]",
         "AsString");
  for (int i = 0; i < n; i += i > 700 && i < n - 3 ? 3 : 1)
    CheckAll(op.get(), i, static_cast<int64_t>(v[i]),
             static_cast<uint64_t>(v[i]), "vector immediate");
}

template <template <typename> class F, typename... A>
void Dispatch(pbt::Src& src, A&... a);

#define DISPATCH(F)                                \
  switch (src.draw(8)) {                           \
    case 0: F<int32_t>(src, ctx); break;           \
    case 1: F<uint32_t>(src, ctx); break;          \
    case 2: F<int8_t>(src, ctx); break;            \
    case 3: F<uint8_t>(src, ctx); break;           \
    case 4: F<int16_t>(src, ctx); break;           \
    case 5: F<uint16_t>(src, ctx); break;          \
    case 6: F<int64_t>(src, ctx); break;           \
    default: F<uint64_t>(src, ctx); break;         \
  }

template <typename Op>
void Literal(pbt::Src& src, pbt::Ctx& ctx, int64_t v) {
  std::vector<int> shape;
  for (int i = static_cast<int>(src.draw(3)); i >= 0; i--)
    shape.push_back(static_cast<int>(src.range(1, 200)));
  std::string text = src.flip() ? "txt" : "";
  int kind = static_cast<int>(src.draw(4));
  std::unique_ptr<Op> op;
  switch (kind) {
    case 0: op.reset(new Op()); break;
    case 1: op.reset(new Op(absl::string_view(text))); break;
    case 2: op.reset(new Op(shape)); break;
    default: op.reset(new Op(shape, absl::string_view(text))); break;
  }
  ctx.nontrivial_if(v != 0);
  ctx.log("literal ", v, " kind ", kind);
  PBT_EQ(op->AsString(), (kind & 1) ? text : std::to_string(v), "AsString");
  if (kind >= 2)
    PBT_ASSERT(op->shape() == shape, "shape");
  for (int k = 0; k < 3; k++)
    CheckAll(op.get(), k == 0 ? 0 : static_cast<int>(src.interesting()), v,
             static_cast<uint64_t>(v), "literal");
}

}  // namespace

PBT_SUITE(immediate, "the value is neither 0 nor 1", 6000000, 90000000) {
  DISPATCH(Scalar)
}

PBT_SUITE(vector_immediate, "more than one element", 2000000, 30000000) {
  DISPATCH(Vector)
}

// Literals are compile time constants: a fixed set of boundary values.
PBT_SUITE(literal, "a non-zero literal", 600000, 5000000) {
  switch (src.draw(20)) {
    case 0: Literal<BoolLiteralOperand<false>>(src, ctx, 0); break;
    case 1: Literal<BoolLiteralOperand<true>>(src, ctx, 1); break;
#define L(k, v) case k: Literal<IntLiteralOperand<v>>(src, ctx, v); break;
    L(2, 0) L(3, 1) L(4, -1) L(5, 2) L(6, 127) L(7, 128) L(8, 255) L(9, 256)
    L(10, -128) L(11, -129) L(12, 32767) L(13, 32768) L(14, 65535) L(15, 65536)
    L(16, 2147483647) L(17, -2147483647 - 1) L(18, -32768)
#undef L
    default: {
      BoolLiteralPredicateOperand<true> t;
      BoolLiteralPredicateOperand<false> f;
      ctx.nontrivial();
      PBT_ASSERT(t.Value() && !f.Value(), "predicate");
    }
  }
}
