// C09: resources reserved over future cycles.
#include <map>
#include <memory>

#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/complex_resource.h"
#include "mpact/sim/generic/complex_resource_operand.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {
class TestState : public ArchState {
 public:
  explicit TestState(const char* id) : ArchState(id) {}
  void Jump(uint64_t n) { set_cycle(cycle() + n); }
};

std::vector<uint64_t> ToSpan(const std::set<long>& m, size_t words) {
  std::vector<uint64_t> v(words, 0);
  for (long b : m)
    if (static_cast<size_t>(b) < words * 64) v[b / 64] |= uint64_t{1} << (b % 64);
  return v;
}
}  // namespace

PBT_SUITE(reservations,
          "a reservation beyond the first 64 cycles that is tested again after "
          "time has passed, or a partial release",
          250000, 5000000) {
  TestState state("state");
  size_t depth = static_cast<size_t>(
      src.pick({64, 1, 2, 8, 31, 32, 33, 63, 65, 100, 127, 128, 129, 200, 256, 512}));
  if (src.chance(20)) depth = static_cast<size_t>(src.range(1, 300));
  // The cycles of a partial last word, and advances by 64 cycles or more at
  // once that stay within the window, are the subject of two known findings.
  // They are decided on exact histories below and kept out of this suite.
  if (depth < 64) depth = 64;
  const size_t usable = depth - depth % 64;
  int warm = static_cast<int>(src.draw(4));
  for (int i = 0; i < warm; i++) state.AdvanceDelayLines();
  ComplexResource res(&state, "res", depth);
  ctx.log("depth ", depth);
  PBT_EQ(res.name(), std::string("res"), "name");
  PBT_EQ(res.AsString(), std::string("res"), "AsString");
  PBT_EQ(res.cycle_depth(), depth, "cycle_depth");
  size_t words = (depth + 63) / 64;
  PBT_EQ(res.bit_array().size(), words, "bit array words");
  std::set<long> busy;  // absolute cycles
  struct Op {
    std::unique_ptr<ComplexResourceOperand> op;
    std::set<long> rel;
  };
  std::vector<Op> ops;
  auto rand_bits = [&](size_t limit) {
    std::set<long> m;
    int n = static_cast<int>(src.range(1, 4));
    for (int i = 0; i < n; i++) {
      long lo = static_cast<long>(
          src.chance(30) ? std::max<long>(0, static_cast<long>(limit) - 1 -
                                                 static_cast<long>(src.draw(4)))
                         : src.draw(limit));
      long len = static_cast<long>(src.chance(30) ? src.draw(70) : src.draw(3));
      for (long b = lo; b <= lo + len && b < static_cast<long>(limit); b++)
        m.insert(b);
    }
    return m;
  };
  bool far = false, partial = false, advanced_after = false;
  int steps = static_cast<int>(src.range(1, 25));
  for (int s = 0; s < steps; s++) {
    long now = static_cast<long>(state.cycle());
    switch (src.weighted({4, 5, 3, 5, 4, 3, 3})) {
      case 0: {  // query
        size_t w = static_cast<size_t>(src.range(1, words + 1));
        auto m = rand_bits(w * 64);
        auto sp = ToSpan(m, w);
        bool free = true;
        for (long b : m)
          if (b < static_cast<long>(depth) && busy.count(now + b)) free = false;
        PBT_EQ(res.IsFree(sp), free, "IsFree at cycle " << now);
        break;
      }
      case 1: {
        size_t w = static_cast<size_t>(src.range(1, words + 1));
        auto m = rand_bits(std::min(usable, w * 64));
        ctx.log("acquire ", m.size(), " cycles from +", *m.begin(), " to +",
                *m.rbegin());
        res.Acquire(ToSpan(m, w));
        for (long b : m)
          if (b < static_cast<long>(depth)) {
            busy.insert(now + b);
            far |= b >= 64;
          }
        break;
      }
      case 2: {
        size_t w = static_cast<size_t>(src.range(1, words + 1));
        auto m = rand_bits(std::min(usable, w * 64));
        ctx.log("release ", m.size(), " cycles from +", *m.begin());
        res.Release(ToSpan(m, w));
        for (long b : m)
          if (b < static_cast<long>(depth)) partial |= busy.erase(now + b) > 0;
        break;
      }
      case 3: {
        long n = static_cast<long>(
            src.weighted({4, 2, 1}) == 0
                ? src.range(1, 5)
                : src.pick({63, 62, 32, 33, 17, static_cast<int>(depth) + 1,
                            static_cast<int>(depth) + 2, 2 * static_cast<int>(depth),
                            2000}));
        // Far jumps of the clock.
        if (src.chance(5))
          n = static_cast<long>((uint64_t{1} << src.pick({20, 31, 32, 33, 40})) * src.range(1, 3) + src.draw(70));
        ctx.log("advance ", n);
        if (n > 3000) {
          state.Jump(static_cast<uint64_t>(n));
        } else {
          for (long i = 0; i < n; i++) state.AdvanceDelayLines();
        }
        advanced_after |= far;
        break;
      }
      case 4: {  // operand with a cycle range
        if (ops.size() < 4 || src.flip()) {
          Op o;
          o.op = std::make_unique<ComplexResourceOperand>(&res);
          PBT_ASSERT(o.op->IsFree(), "operand with no cycles");
          ops.push_back(std::move(o));
        }
        auto& o = ops[src.draw(ops.size())];
        size_t b = src.draw(depth + 2), e = src.draw(depth + 2);
        if (src.chance(80) && b > e) std::swap(b, e);
        if (src.chance(25)) e = b;
        if (src.chance(25)) e = (e / 64) * 64;
        bool want = b <= e && e < depth;
        ctx.log("operand cycles ", b, "..", e, " -> ", want);
        PBT_EQ(o.op->SetCycleMask(b, e).ok(), want,
               "SetCycleMask(" << b << ", " << e << ")");
        if (want) {
          o.rel.clear();
          for (size_t i = b; i <= e; i++) o.rel.insert(static_cast<long>(i));
        }
        break;
      }
      case 5: {  // operand with explicit cycles
        if (ops.empty()) break;
        auto& o = ops[src.draw(ops.size())];
        size_t w = static_cast<size_t>(src.range(0, words + 1));
        std::set<long> m;
        if (w > 0 && !src.chance(10)) m = rand_bits(src.flip() ? std::min(depth, w * 64) : w * 64);
        bool want = w <= words && !m.empty() &&
                    *m.rbegin() < static_cast<long>(depth);
        ctx.log("operand span of ", w, " words, ", m.size(), " bits -> ", want);
        auto sp = ToSpan(m, w);
        PBT_EQ(o.op->SetCycleMask(absl::Span<const uint64_t>(sp)).ok(), want,
               "SetCycleMask(span)");
        if (want) o.rel = m;
        break;
      }
      default: {
        if (ops.empty()) break;
        auto& o = ops[src.draw(ops.size())];
        if (!o.rel.empty() && *o.rel.rbegin() >= static_cast<long>(usable)) break;
        ctx.log("acquire operand, ", o.rel.size(), " cycles");
        o.op->Acquire();
        for (long b : o.rel) {
          busy.insert(now + b);
          far |= b >= 64;
        }
      }
    }
    now = static_cast<long>(state.cycle());
    for (auto& o : ops) {
      std::set<long> got;
      auto span = o.op->bit_array();
      for (size_t i = 0; i < span.size() * 64; i++)
        if ((span[i / 64] >> (i % 64)) & 1) got.insert(static_cast<long>(i));
      PBT_ASSERT(got == o.rel, "operand cycles: " << got.size() << " set, oracle "
                                                  << o.rel.size());
      bool free = true;
      for (long b : o.rel) free &= !busy.count(now + b);
      PBT_EQ(o.op->IsFree(), free, "operand IsFree at cycle " << now);
      PBT_EQ(o.op->AsString(), std::string("res"), "operand AsString");
    }
    // Every cycle of the window, one by one.
    for (size_t b = 0; b < depth; b++) {
      std::vector<uint64_t> v(b / 64 + 1, 0);
      v[b / 64] = uint64_t{1} << (b % 64);
      bool want = !busy.count(now + static_cast<long>(b));
      if (res.IsFree(v) != want)
        PBT_FAIL("cycle +" << b << " at cycle " << now << " free = " << !want
                           << ", oracle says " << want);
    }
  }
  ctx.nontrivial_if((far && advanced_after) || partial);
}

namespace {
// The free cycles (within `bits`) of the resource.
std::string FreeCycles(ComplexResource& res, size_t bits) {
  std::ostringstream os;
  long from = -1;
  for (size_t b = 0; b <= bits; b++) {
    bool free = false;
    if (b < bits) {
      std::vector<uint64_t> v(b / 64 + 1, 0);
      v[b / 64] = uint64_t{1} << (b % 64);
      free = res.IsFree(v);
    }
    if (free && from < 0) from = static_cast<long>(b);
    if (!free && from >= 0) {
      os << from << "-" << b - 1 << " ";
      from = -1;
    }
  }
  return os.str();
}
void Judge(const char* key, const std::string& got, const std::string& right,
           const std::string& recorded, const char* what) {
  if (got == right) return;
  if (got == recorded)
    pbt::fail_known(key, std::string(what) + ": free cycles " + got +
                             "but they should be " + right);
  PBT_FAIL(what << ": free cycles " << got << ", oracle says " << right);
}
}  // namespace

// The two exact histories of the known findings.
PBT_SUITE(partial_word, "every case (one fixed history)", 1, 1) {
  ctx.nontrivial();
  TestState state("state");
  ComplexResource res(&state, "res", 234);
  ctx.log("depth 234, acquire 256 cycles");
  std::vector<uint64_t> all(4, ~uint64_t{0});
  res.Acquire(all);
  Judge("partial-word", FreeCycles(res, 256), "234-255 ", "192-213 ",
        "depth 234, all cycles acquired");
}

PBT_SUITE(advance_64, "every case (one fixed history)", 1, 1) {
  ctx.nontrivial();
  TestState state("state");
  ComplexResource res(&state, "res", 256);
  ctx.log("depth 256, acquire 256 cycles, advance 96");
  std::vector<uint64_t> all(4, ~uint64_t{0});
  res.Acquire(all);
  for (int i = 0; i < 96; i++) state.AdvanceDelayLines();
  Judge("advance-64", FreeCycles(res, 256), "160-255 ", "0-63 224-255 ",
        "depth 256, all cycles acquired, then 96 cycles pass at once");
}
