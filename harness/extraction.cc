// C14: bit field extraction recipes and the code written for them.
#include <cctype>
#include <map>

#include "mpact/sim/decoder/extract.h"
#include "pbt.h"

using namespace mpact::sim::decoder::bin_format;  // NOLINT

namespace {
// The bits of v selected by mask, packed, in order.
uint64_t Pext(uint64_t v, uint64_t mask) {
  uint64_t out = 0;
  int n = 0;
  for (int i = 0; i < 64; i++)
    if ((mask >> i) & 1) out |= ((v >> i) & 1) << n++;
  return out;
}

uint64_t GenMask(pbt::Src& src) {
  switch (src.weighted({5, 3, 2, 1, 2})) {
    case 0: {  // runs
      uint64_t m = 0;
      int pos = static_cast<int>(src.draw(20));
      while (pos < 64) {
        int len = static_cast<int>(src.range(1, 12));
        for (int i = 0; i < len && pos < 64; i++) m |= uint64_t{1} << pos++;
        pos += static_cast<int>(src.range(1, 20));
        if (src.chance(25)) break;
      }
      return m;
    }
    case 1: return src.interesting();
    case 2: return src.u64();
    case 3: return src.u64() & src.u64() & src.u64();
    default: {  // many short runs: up to the 32 a word can hold
      uint64_t m = 0;
      int skip = static_cast<int>(src.draw(8));
      for (int pos = static_cast<int>(src.draw(3)); pos < 64; pos += 2) {
        m |= uint64_t{1} << pos;
        if (skip && src.draw(8) >= 8u - skip / 2) pos += static_cast<int>(src.draw(2));
      }
      return m;
    }
  }
}

// Runs straight line C assignments over uint64_t variables.
class Interp {
 public:
  explicit Interp(std::map<std::string, uint64_t> vars) : vars_(std::move(vars)) {}
  std::map<std::string, uint64_t> Run(const std::string& text) {
    t_ = text;
    p_ = 0;
    for (Skip(); p_ < t_.size(); Skip()) {
      std::string name = Ident();
      Skip();
      std::string op;
      while (p_ < t_.size() && std::string("|&^+<>=").find(t_[p_]) != std::string::npos)
        op += t_[p_++];
      uint64_t v = Or();
      Skip();
      if (p_ >= t_.size() || t_[p_] != ';') Bad("';' expected");
      p_++;
      if (op == "=")
        vars_[name] = v;
      else if (op == "|=" && vars_.count(name))
        vars_[name] |= v;
      else if (op == "+=" && vars_.count(name))
        vars_[name] += v;
      else if (op == "^=" && vars_.count(name))
        vars_[name] ^= v;
      else
        Bad("assignment '" + name + " " + op + "'");
    }
    return vars_;
  }

 private:
  [[noreturn]] void Bad(const std::string& m) {
    pbt::fail("generated code: " + m + " in: " + t_);
  }
  void Skip() {
    while (p_ < t_.size() && isspace(static_cast<unsigned char>(t_[p_]))) p_++;
  }
  std::string Ident() {
    Skip();
    std::string s;
    while (p_ < t_.size() && (isalnum(static_cast<unsigned char>(t_[p_])) || t_[p_] == '_'))
      s += t_[p_++];
    if (s.empty()) Bad("identifier expected");
    return s;
  }
  bool Eat(const std::string& s) {
    Skip();
    if (t_.compare(p_, s.size(), s) != 0) return false;
    p_ += s.size();
    return true;
  }
  uint64_t Or() {
    uint64_t v = And();
    while (Eat("|")) v |= And();
    return v;
  }
  uint64_t And() {
    uint64_t v = Shift();
    while (Eat("&")) v &= Shift();
    return v;
  }
  uint64_t Shift() {
    uint64_t v = Prim();
    while (true) {
      if (Eat(">>")) {
        uint64_t n = Prim();
        if (n > 63) Bad("shift by more than 63");
        v >>= n;
      } else if (Eat("<<")) {
        uint64_t n = Prim();
        if (n > 63) Bad("shift by more than 63");
        v <<= n;
      } else {
        return v;
      }
    }
  }
  uint64_t Prim() {
    if (Eat("(")) {
      uint64_t v = Or();
      if (!Eat(")")) Bad("')' expected");
      return v;
    }
    Skip();
    if (p_ < t_.size() && isdigit(static_cast<unsigned char>(t_[p_]))) {
      size_t n = 0;
      uint64_t v = std::stoull(t_.substr(p_), &n, 0);
      p_ += n;
      while (p_ < t_.size() && std::string("uUlL").find(t_[p_]) != std::string::npos) p_++;
      return v;
    }
    std::string id = Ident();
    if (!vars_.count(id)) Bad("unknown variable " + id);
    return vars_[id];
  }
  std::map<std::string, uint64_t> vars_;
  std::string t_;
  size_t p_ = 0;
};
}  // namespace

PBT_SUITE(recipes, "a mask of at least two runs", 3000000, 60000000) {
  uint64_t mask = GenMask(src);
  auto recipe = GetExtractionRecipe(mask);
  ctx.log("mask ", pbt::hex(mask), ", ", recipe.size(), " steps");
  int runs = 0;
  for (int i = 0; i < 64; i++)
    if (((mask >> i) & 1) && (i == 0 || !((mask >> (i - 1)) & 1))) runs++;
  ctx.nontrivial_if(runs >= 2);
  PBT_EQ(recipe.size(), static_cast<size_t>(runs), "steps for " << pbt::hex(mask));
  for (auto& st : recipe)
    PBT_ASSERT(st.shift >= 0 && st.shift < 64, "shift " << st.shift);
  for (int k = 0; k < 4; k++) {
    uint64_t v = k == 0 ? ~uint64_t{0} : k == 1 ? src.interesting() : src.u64();
    PBT_EQ(ExtractValue(v, recipe), Pext(v, mask),
           "extraction of " << pbt::hex(mask) << " from " << pbt::hex(v));
  }
}

PBT_SUITE(arbitrary_recipes, "more than one step", 500000, 9000000) {
  ExtractionRecipe r;
  int n = static_cast<int>(src.draw(5));
  uint64_t v = src.interesting(), want = 0;
  for (int i = 0; i < n; i++) {
    ExtractionStep st{GenMask(src), static_cast<int>(src.draw(64))};
    r.push_back(st);
    for (int b = 0; b < 64; b++)
      if (((st.mask >> b) & 1) && b + st.shift < 64 && ((v >> (b + st.shift)) & 1))
        want |= uint64_t{1} << b;
  }
  PBT_EQ(ExtractValue(v, r), want, n << " steps on " << pbt::hex(v));
  ctx.nontrivial_if(n > 1);
}

PBT_SUITE(written_code, "a mask of at least two runs", 300000, 6000000) {
  uint64_t mask = GenMask(src);
  if (mask == 0) return;
  auto recipe = GetExtractionRecipe(mask);
  std::string in = src.pick({std::string("inst_word"), std::string("v"), std::string("format")});
  std::string out = src.pick({std::string("result"), std::string("r_1")});
  std::string indent(src.draw(9), ' ');
  std::string text = WriteExtraction(recipe, in, out, indent);
  ctx.log("mask ", pbt::hex(mask), ": ", text);
  ctx.nontrivial_if(recipe.size() >= 2);
  for (int k = 0; k < 3; k++) {
    uint64_t v = k == 0 ? ~uint64_t{0} : src.u64();
    auto vars = Interp({{in, v}}).Run(text);
    PBT_EQ(vars[out], Pext(v, mask), "written code for " << pbt::hex(mask) << " on "
                                                         << pbt::hex(v) << ": " << text);
    PBT_EQ(vars[in], v, "written code changes its input");
  }
  // Every line is indented as asked.
  size_t p = 0;
  while (p < text.size()) {
    PBT_ASSERT(text.compare(p, indent.size(), indent) == 0 &&
                   (p + indent.size() >= text.size() || text[p + indent.size()] != ' '),
               "indentation of: " << text);
    size_t e = text.find('\n', p);
    PBT_ASSERT(e != std::string::npos, "last line not ended: " << text);
    p = e + 1;
  }
}
