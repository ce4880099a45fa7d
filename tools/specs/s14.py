ID="s14-double-nan-low"; PROPERTY="C13"
NEEDS="a double precision NaN whose payload is only in the low 32 bits of the significand"
BREAKS="Such a NaN is not recognised as a NaN."
EDITS=[("mpact/sim/generic/type_helpers.h","""  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                            << (kSigSize - 1);
  static constexpr UIntType kPosInf = kExpMask;
  static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
  static inline bool IsInf(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return (uint_val & kInfMask) == kPosInf;
  }
  static inline bool IsNaN(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return ((uint_val & kExpMask) == kExpMask) && ((uint_val & kSigMask) != 0);
  }
  static inline bool IsSNaN(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return IsNaN(value) && (((1ULL << (kSigSize - 1)) & uint_val) == 0);
  }
  static inline bool IsQNaN(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return IsNaN(value) && (((1ULL << (kSigSize - 1)) & uint_val) != 0);
  }
  static inline bool SignBit(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return 1 == (uint_val >> (kBitSize - 1));
  }
};

template <>
struct FPTypeInfo<uint16_t> {""","""  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                            << (kSigSize - 1);
  static constexpr UIntType kPosInf = kExpMask;
  static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
  static inline bool IsInf(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return (uint_val & kInfMask) == kPosInf;
  }
  static inline bool IsNaN(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    uint32_t hi = uint_val >> 32;
    return ((uint_val & kExpMask) == kExpMask) && ((hi & (kSigMask >> 32)) != 0);
  }
  static inline bool IsSNaN(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return IsNaN(value) && (((1ULL << (kSigSize - 1)) & uint_val) == 0);
  }
  static inline bool IsQNaN(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return IsNaN(value) && (((1ULL << (kSigSize - 1)) & uint_val) != 0);
  }
  static inline bool SignBit(T value) {
    UIntType uint_val = *reinterpret_cast<UIntType*>(&value);
    return 1 == (uint_val >> (kBitSize - 1));
  }
};

template <>
struct FPTypeInfo<uint16_t> {""")]
DEMO='''#include <cstring>
#include "mpact/sim/generic/type_helpers.h"
using namespace mpact::sim::generic;
int main() {
  uint64_t b = 0x7ff0000000000010ULL;
  double d;
  std::memcpy(&d, &b, 8);
  return FPTypeInfo<double>::IsNaN(d) ? 0 : 1;
}
'''
