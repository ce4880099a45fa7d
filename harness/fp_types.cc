// C13: numeric type helpers.
#include <cmath>
#include <cstdio>
#include <limits>

#include "absl/numeric/int128.h"
#include "absl/types/variant.h"
#include "mpact/sim/generic/signed_type.h"
#include "mpact/sim/generic/type_helpers.h"
#include "mpact/sim/generic/variant_helper.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {

// IEEE-754 interchange formats, from the format's parameters alone.
struct Format {
  int bits, exp;
  int sig() const { return bits - exp - 1; }
  uint64_t exponent(uint64_t v) const { return (v >> sig()) & ((1ull << exp) - 1); }
  uint64_t fraction(uint64_t v) const { return v & ((1ull << sig()) - 1); }
  bool sign(uint64_t v) const { return (v >> (bits - 1)) & 1; }
  bool special(uint64_t v) const { return exponent(v) == (1ull << exp) - 1; }
  bool inf(uint64_t v) const { return special(v) && fraction(v) == 0; }
  bool nan(uint64_t v) const { return special(v) && fraction(v) != 0; }
  bool quiet(uint64_t v) const { return nan(v) && ((v >> (sig() - 1)) & 1); }
};

uint64_t GenBits(pbt::Src& src, const Format& f) {
  uint64_t sign = src.draw(2);
  uint64_t emax = (1ull << f.exp) - 1;
  uint64_t e;
  switch (src.weighted({4, 3, 2, 2})) {
    case 0: e = emax; break;
    case 1: e = src.draw(emax + 1); break;
    case 2: e = 0; break;
    default: e = emax - 1 - src.draw(2);
  }
  uint64_t m;
  switch (src.weighted({3, 3, 3, 2})) {
    case 0: m = 0; break;
    case 1: m = src.u64(); break;
    case 2: m = 1ull << src.draw(f.sig()); break;
    default: m = (1ull << f.sig()) - 1 - src.draw(2);
  }
  m &= (1ull << f.sig()) - 1;
  return (sign << (f.bits - 1)) | (e << f.sig()) | m;
}

template <typename T>
T FromBits(uint64_t v) {
  T t;
  std::memcpy(&t, &v, sizeof(T));
  return t;
}

template <typename T>
void Classify(pbt::Src& src, pbt::Ctx& ctx, const Format& f, const char* name) {
  using I = FPTypeInfo<T>;
  uint64_t b = GenBits(src, f);
  ctx.log(name, " ", pbt::hex(b));
  ctx.nontrivial_if(f.special(b));
  PBT_EQ(I::kBitSize, f.bits, name << " kBitSize");
  PBT_EQ(I::kExpSize, f.exp, name << " kExpSize");
  PBT_EQ(I::kSigSize, f.sig(), name << " kSigSize");
  PBT_EQ(I::kExpBias, (1 << (f.exp - 1)) - 1, name << " kExpBias");
  PBT_EQ(sizeof(typename I::UIntType) * 8, static_cast<size_t>(f.bits), name);
  PBT_ASSERT(std::is_unsigned_v<typename I::UIntType>, name);
  PBT_EQ(sizeof(typename I::IntType) * 8, static_cast<size_t>(f.bits), name);
  PBT_ASSERT(std::is_signed_v<typename I::IntType>, name);
  uint64_t emax = (1ull << f.exp) - 1, sb = 1ull << (f.bits - 1);
  PBT_EQ(uint64_t{I::kExpMask}, emax << f.sig(), name << " kExpMask");
  PBT_EQ(uint64_t{I::kSigMask}, (1ull << f.sig()) - 1, name << " kSigMask");
  PBT_EQ(uint64_t{I::kPosInf}, emax << f.sig(), name << " kPosInf");
  PBT_EQ(uint64_t{I::kNegInf}, (emax << f.sig()) | sb, name << " kNegInf");
  PBT_EQ(uint64_t{I::kCanonicalNaN}, (emax << f.sig()) | (1ull << (f.sig() - 1)),
         name << " kCanonicalNaN");
  PBT_EQ(uint64_t{I::kInfMask}, sb - 1, name << " kInfMask");
  T v = FromBits<T>(b);
  PBT_EQ(I::IsInf(v), f.inf(b), name << " IsInf " << pbt::hex(b));
  PBT_EQ(I::IsNaN(v), f.nan(b), name << " IsNaN " << pbt::hex(b));
  PBT_EQ(I::IsQNaN(v), f.quiet(b), name << " IsQNaN " << pbt::hex(b));
  PBT_EQ(I::IsSNaN(v), f.nan(b) && !f.quiet(b), name << " IsSNaN " << pbt::hex(b));
  PBT_EQ(I::SignBit(v), f.sign(b), name << " SignBit " << pbt::hex(b));
}
enum class E8 : int8_t { a = -3, b = 100 };
enum class E64 : uint64_t { a = 0xffff'ffff'ffff'fff0ull };
}  // namespace

PBT_SUITE(classification, "an infinity or a NaN", 9000000, 120000000) {
  const Format h{16, 5}, s{32, 8}, d{64, 11};
  switch (src.draw(9)) {
    case 0: Classify<HalfFP>(src, ctx, h, "half"); break;
    case 1: Classify<float>(src, ctx, s, "float"); break;
    case 2: Classify<double>(src, ctx, d, "double"); break;
    case 3: Classify<uint16_t>(src, ctx, h, "uint16"); break;
    case 4: Classify<int16_t>(src, ctx, h, "int16"); break;
    case 5: Classify<uint32_t>(src, ctx, s, "uint32"); break;
    case 6: Classify<int32_t>(src, ctx, s, "int32"); break;
    case 7: Classify<uint64_t>(src, ctx, d, "uint64"); break;
    default: Classify<int64_t>(src, ctx, d, "int64");
  }
}

// All 65536 values: each case covers 16 neighbouring values.
PBT_SUITE(half_to_single, "a block of subnormals, infinities or NaNs", 1600000, 16000000) {
  uint32_t block = static_cast<uint32_t>(src.draw(4096));
  const Format h{16, 5};
  for (uint32_t v = block * 16; v < block * 16 + 16; v++) {
    float got = ConvertHalfToSingle(HalfFP{static_cast<uint16_t>(v)});
    bool neg = h.sign(v);
    ctx.nontrivial_if(h.special(v) || h.exponent(v) == 0);
    uint32_t bits;
    std::memcpy(&bits, &got, 4);
    if (h.nan(v)) {
      PBT_EQ(std::signbit(got), (v >> 15) != 0, "sign of the NaN for " << pbt::hex(v));
      PBT_ASSERT(std::isnan(got), "half NaN " << pbt::hex(v) << " gives "
                                              << pbt::hex(bits));
      continue;
    }
    double want;
    if (h.inf(v))
      want = HUGE_VAL;
    else if (h.exponent(v) == 0)
      want = std::ldexp(static_cast<double>(h.fraction(v)), -24);
    else
      want = std::ldexp(1024.0 + static_cast<double>(h.fraction(v)),
                        static_cast<int>(h.exponent(v)) - 25);
    if (neg) want = -want;
    PBT_ASSERT(static_cast<double>(got) == want && std::signbit(got) == neg,
               "half " << pbt::hex(v) << " gives " << got << ", oracle says " << want);
    char buf[64];
    snprintf(buf, sizeof buf, "%f", want);
    PBT_EQ(FloatingPointToString(HalfFP{static_cast<uint16_t>(v)}), std::string(buf),
           "text of half " << pbt::hex(v));
  }
}

// Wide and narrow types: the product and sum of any two values fit in the wide
// type; narrowing keeps the low half.
namespace {
template <typename T>
__int128 Wide(T v) {
  return static_cast<__int128>(v);
}
template <typename T>
void Widths(pbt::Src& src, pbt::Ctx& ctx) {
  using W = typename WideType<T>::type;
  T a = static_cast<T>(src.interesting()), b = static_cast<T>(src.interesting());
  W w = static_cast<W>(a) * static_cast<W>(b);
  PBT_EQ(sizeof(W), 2 * sizeof(T), "width of the wide type");
  bool wide_signed = std::numeric_limits<W>::is_signed;
  PBT_EQ(wide_signed, std::is_signed_v<T>, "signedness of the wide type");
  if constexpr (sizeof(T) < 8) {
    PBT_ASSERT(static_cast<__int128>(w) == Wide(a) * Wide(b), "product in wide type");
    using N = typename NarrowType<W>::type;
    PBT_ASSERT((std::is_same_v<N, T>), "narrow type of the wide type");
    PBT_ASSERT(static_cast<N>(static_cast<W>(a)) == a, "round trip");
  }
  PBT_EQ(sizeof(typename MakeUnsigned<W>::type), sizeof(W), "unsigned wide type");
  PBT_ASSERT(!std::numeric_limits<typename MakeUnsigned<W>::type>::is_signed,
             "unsigned wide type");
  using SI = typename SameSignedType<T, int8_t>::type;
  using SU = typename SameSignedType<T, uint8_t>::type;
  PBT_ASSERT((std::is_same_v<SI, std::make_signed_t<T>>), "same signed type");
  PBT_ASSERT((std::is_same_v<SU, std::make_unsigned_t<T>>), "same unsigned type");
  PBT_ASSERT((std::is_same_v<typename internal::SignedType<T>::type,
                             std::make_signed_t<T>>), "signed type");
  ctx.nontrivial_if(a != 0 && b != 0);
}
}  // namespace

PBT_SUITE(widths, "two non-zero values", 1600000, 16000000) {
  switch (src.draw(8)) {
    case 0: Widths<int8_t>(src, ctx); break;
    case 1: Widths<uint8_t>(src, ctx); break;
    case 2: Widths<int16_t>(src, ctx); break;
    case 3: Widths<uint16_t>(src, ctx); break;
    case 4: Widths<int32_t>(src, ctx); break;
    case 5: Widths<uint32_t>(src, ctx); break;
    case 6: Widths<int64_t>(src, ctx); break;
    default: Widths<uint64_t>(src, ctx);
  }
  PBT_ASSERT(IsMpactFp<HalfFP>::value && IsMpactFp<float>::value &&
                 IsMpactFp<double>::value && !IsMpactFp<uint16_t>::value &&
                 !IsMpactFp<int>::value, "floating point types");
  PBT_ASSERT(*E8::a == -3 && *E8::b == 100 && *E64::a == 0xffff'ffff'ffff'fff0ull,
             "enum values");
  using V = absl::variant<int, double, char>;
  bool m0 = IsMemberOfVariant<V, int>::value, m1 = IsMemberOfVariant<V, double>::value,
       m2 = IsMemberOfVariant<V, char>::value, m3 = IsMemberOfVariant<V, float>::value,
       m4 = IsMemberOfVariant<V, unsigned>::value;
  PBT_ASSERT(m0 && m1 && m2 && !m3 && !m4, "variant membership");
}
