// The installed abseil's bit_width returns the argument type; the one that
// mpact-sim is written against returns int, as the standard does.
#ifndef VERIF_ABSL_NUMERIC_BITS_H_
#define VERIF_ABSL_NUMERIC_BITS_H_
#include_next <absl/numeric/bits.h>
namespace absl {
template <typename T>
constexpr int verif_bit_width(T x) {
  return static_cast<int>(bit_width(x));
}
}  // namespace absl
#define bit_width verif_bit_width
#endif  // VERIF_ABSL_NUMERIC_BITS_H_
