// A small property-based testing engine.
//
// A case is a function of a sequence of choices (Src).  Random generation
// records the choices; shrinking edits the recorded sequence and re-runs the
// case, so every generator shrinks for free; a replay file is that sequence.
// Cases run in forked workers, so a crash, sanitizer report, abort() or hang of
// the code under test is attributed to the exact case that caused it.
#ifndef VERIF_LIB_PBT_H_
#define VERIF_LIB_PBT_H_

#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};

class Src {
 public:
  explicit Src(uint64_t seed) : state_(seed) {}
  explicit Src(std::vector<uint64_t> choices)
      : replay_(true), in_(std::move(choices)) {}

  // Uniform in [0, bound); bound == 0 means all 64 bits.
  uint64_t draw(uint64_t bound);
  uint64_t u64() { return draw(0); }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive
    return static_cast<int64_t>(
        static_cast<uint64_t>(lo) +
        draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
  }
  // True with probability percent/100; shrinks to false.
  bool chance(int percent) {
    return draw(100) >= static_cast<uint64_t>(100 - percent);
  }
  bool flip() { return draw(2) == 1; }
  template <typename C>
  const typename C::value_type& pick(const C& c) {
    return c[draw(c.size())];
  }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + draw(l.size()));
  }
  // 64-bit values biased to boundaries: small, powers of two +-1, all ones...
  uint64_t interesting();
  // Weighted choice: returns the index.
  int weighted(std::initializer_list<int> w);
  const std::vector<uint64_t>& recorded() const { return rec_; }

 private:
  bool replay_ = false;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  uint64_t state_ = 0;
  std::vector<uint64_t> rec_;
};

class Ctx {
 public:
  // Marks the case non-trivial (by the suite's stated rule).
  void nontrivial() { nontrivial_ = true; }
  void nontrivial_if(bool b) { nontrivial_ |= b; }
  // What the case leaves allocated is not part of the property.
  void leaks_are_fine() { leak_ok_ = true; }
  // Coverage classification.
  void label(const std::string& l) { labels_.insert(l); }
  // Human readable trace of the case (kept for samples and for failures).
  template <typename... T>
  void log(const T&... t) {
    if (!logging_) return;
    std::ostringstream os;
    (os << ... << t);
    add_log(os.str());
  }
  bool logging() const { return logging_; }
  void add_log(const std::string& s);
  const std::vector<std::string>& lines() const { return lines_; }

  bool logging_ = false;
  bool nontrivial_ = false;
  bool leak_ok_ = false;
  std::set<std::string> labels_;
  std::vector<std::string> lines_;
};

[[noreturn]] void fail(const std::string& msg);

// A known finding: the failure is identified by `key`, which has to be listed
// in the known findings file for this property; if it is not it is a failure.
[[noreturn]] void fail_known(const std::string& key, const std::string& msg);

using CaseFn = std::function<void(Src&, Ctx&)>;

struct Suite {
  std::string name;
  std::string rule;  // what makes a case non-trivial
  long quick;        // number of cases
  long thorough;
  CaseFn fn;
};

struct Registrar {
  Registrar(const char* name, const char* rule, long quick, long thorough,
            CaseFn fn);
};

template <typename T>
std::string show(const T& v) {
  std::ostringstream os;
  if constexpr (std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t> ||
                std::is_same_v<T, char>) {
    os << static_cast<int>(v);
  } else {
    os << v;
  }
  return os.str();
}

std::string hex(uint64_t v);

// Installed by suites which need a scratch directory; removed at exit.
std::string scratch_dir();

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

#define PBT_SUITE(ident, rule, quick, thorough)                          \
  static void pbt_case_##ident(pbt::Src&, pbt::Ctx&);                    \
  static pbt::Registrar pbt_reg_##ident(#ident, rule, quick, thorough,   \
                                        pbt_case_##ident);               \
  static void pbt_case_##ident([[maybe_unused]] pbt::Src& src,           \
                               [[maybe_unused]] pbt::Ctx& ctx)

#define PBT_FAIL(...)                                       \
  do {                                                      \
    std::ostringstream pbt_os_;                             \
    pbt_os_ << __VA_ARGS__;                                 \
    ::pbt::fail(pbt_os_.str());                             \
  } while (0)

#define PBT_ASSERT(cond, ...)                                              \
  do {                                                                     \
    if (!(cond)) {                                                         \
      std::ostringstream pbt_os_;                                          \
      pbt_os_ << "expected " #cond << ": " __VA_OPT__(<< __VA_ARGS__);               \
      ::pbt::fail(pbt_os_.str());                                          \
    }                                                                      \
  } while (0)

// Equality with both values shown.  First argument: what the code did; second:
// what the oracle says.
#define PBT_EQ(got, want, ...)                                             \
  do {                                                                     \
    const auto& pbt_g_ = (got);                                            \
    const auto& pbt_w_ = (want);                                           \
    if (!(pbt_g_ == pbt_w_)) {                                             \
      std::ostringstream pbt_os_;                                          \
      pbt_os_ __VA_OPT__(<< __VA_ARGS__) << ": " #got " = " << ::pbt::show(pbt_g_)      \
              << ", oracle says " << ::pbt::show(pbt_w_);                  \
      ::pbt::fail(pbt_os_.str());                                          \
    }                                                                      \
  } while (0)

#endif
