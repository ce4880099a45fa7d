// C16: generated names, and the registry of resources they name.
#include <map>

#include "mpact/sim/decoder/format_name.h"
#include "mpact/sim/decoder/resource.h"
#include "pbt.h"

using namespace mpact::sim::machine_description::instruction_set;  // NOLINT

namespace {
std::string Up(char c) {
  return std::string(1, c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c);
}
std::string Low(char c) {
  return std::string(1, c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c);
}
bool IsUp(char c) { return c >= 'A' && c <= 'Z'; }

std::string Gen(pbt::Src& src, const std::string& alphabet, size_t max = 14) {
  std::string s;
  size_t n = src.draw(max);
  for (size_t i = 0; i < n; i++) s += alphabet[src.draw(alphabet.size())];
  return s;
}
std::string Pascal(const std::string& s) {
  std::string out, word;
  size_t p = 0;
  while (p <= s.size()) {
    size_t e = s.find('_', p);
    if (e == std::string::npos) e = s.size();
    word = s.substr(p, e - p);
    if (!word.empty()) out += Up(word[0]) + word.substr(1);
    p = e + 1;
  }
  return out;
}
void CheckName(const std::string& s) {
  PBT_EQ(ToPascalCase(s), Pascal(s), "PascalCase of '" << s << "'");
  std::string snake, guard, low;
  for (size_t i = 0; i < s.size(); i++) {
    if (i > 0 && IsUp(s[i])) snake += "_";
    snake += Low(s[i]);
    guard += (s[i] == '/' || s[i] == '.') ? std::string("_") : Up(s[i]);
    low += Low(s[i]);
  }
  PBT_EQ(ToSnakeCase(s), snake, "snake_case of '" << s << "'");
  PBT_EQ(ToHeaderGuard(s), guard, "header guard of '" << s << "'");
  PBT_EQ(ToLowerCase(s), low, "lower case of '" << s << "'");
  PBT_EQ(Indent(absl::string_view(s)), std::string(s.size(), ' '), "indent");
}
const std::string& Printable() {
  static const std::string* all = [] {
    auto* s = new std::string;
    for (char c = 32; c < 127; c++) *s += c;
    return s;
  }();
  return *all;
}
}  // namespace

PBT_SUITE(names, "an underscore next to a letter, and an upper case letter", 3000000,
          40000000) {
  std::string s = Gen(src, src.chance(50)   ? "abz_AZ09_"
                          : src.chance(70) ? "abcxyz_ABCXYZ0189./-_"
                                           : Printable());
  ctx.log("'", s, "'");
  ctx.nontrivial_if(s.find('_') != std::string::npos &&
                    s.find_first_of("ABCXYZ") != std::string::npos);
  CheckName(s);
  int k = static_cast<int>(src.draw(40));
  PBT_EQ(Indent(k), std::string(static_cast<size_t>(k), ' '), "indent");
  // Names made of words survive the round trip.
  std::string pascal, snake2;
  int words = static_cast<int>(src.range(1, 4));
  for (int i = 0; i < words; i++) {
    std::string w = "w" + Gen(src, "abcz09");
    snake2 += (i ? "_" : "") + w;
    pascal += Up(w[0]) + w.substr(1);
  }
  PBT_EQ(ToPascalCase(snake2), pascal, "PascalCase of '" << snake2 << "'");
  PBT_EQ(ToSnakeCase(pascal), snake2, "snake_case of '" << pascal << "'");
}

PBT_SUITE(long_names, "more than 64 characters", 40000, 800000) {
  std::string s = Gen(src, src.chance(50) ? "abz_AZ09_" : Printable(),
                      src.chance(20) ? 3000 : 300);
  ctx.nontrivial_if(s.size() > 64);
  ctx.log(s.size(), " characters");
  CheckName(s);
  int k = static_cast<int>(src.draw(3000));
  PBT_EQ(Indent(k), std::string(static_cast<size_t>(k), ' '), "indent");
  std::string pascal, snake;
  int words = static_cast<int>(src.range(1, 60));
  for (int i = 0; i < words; i++) {
    std::string w = "w" + Gen(src, "abcz09");
    snake += (i ? "_" : "") + w;
    pascal += Up(w[0]) + w.substr(1);
  }
  PBT_EQ(ToPascalCase(snake), pascal, "PascalCase of '" << snake << "'");
  PBT_EQ(ToSnakeCase(pascal), snake, "snake_case of '" << pascal << "'");
}

namespace {
void Registry(pbt::Src& src, pbt::Ctx& ctx, int max_steps, int style) {
  ResourceFactory f;
  struct R {
    Resource* p;
    bool simple = true, multi = false, array = false;
  };
  std::map<std::string, R> model;
  int steps = static_cast<int>(src.range(1, max_steps));
  for (int s = 0; s < steps; s++) {
    std::string n;
    switch (style) {
      case 0:
        n = Gen(src, "ab_");
        if (n.size() > 3) n.resize(3);
        break;
      case 1:  // names that differ little
        n = src.pick({std::string("next_pc"), std::string("next_pC"), std::string("a.b/c"),
                      std::string(40, 'x'), std::string(40, 'x') + "_"});
        if (src.chance(50)) n += src.pick({std::string("_"), std::string("A"),
                                           std::string("a"), std::string(" "),
                                           std::string("0"), std::string(1, '\0')});
        break;
      default:
        n = "r" + std::to_string(src.draw(400));
    }
    auto it = model.find(n);
    switch (src.weighted({3, 3, 3})) {
      case 0: {
        auto r = f.CreateResource(n);
        ctx.log("create '", n, "'");
        PBT_EQ(r.ok(), it == model.end(), "CreateResource('" << n << "')");
        if (r.ok()) {
          for (auto& [k, v] : model)
            PBT_ASSERT(v.p != r.value(), "resource shared with " << k);
          model[n] = {r.value()};
        } else {
          ctx.nontrivial();
          PBT_EQ(r.status().code(), absl::StatusCode::kAlreadyExists, "duplicate");
        }
        break;
      }
      case 1: {
        auto* p = f.GetOrInsertResource(n);
        ctx.log("get '", n, "'");
        PBT_ASSERT(p != nullptr, "GetOrInsertResource('" << n << "')");
        if (it != model.end()) {
          ctx.nontrivial();
          PBT_ASSERT(p == it->second.p, "GetOrInsertResource('" << n << "') is another");
        } else {
          for (auto& [k, v] : model) PBT_ASSERT(v.p != p, "resource shared with " << k);
          model[n] = {p};
        }
        break;
      }
      default: {
        if (it == model.end()) break;
        bool b = src.flip();
        switch (src.draw(3)) {
          case 0: it->second.p->set_is_simple(b); it->second.simple = b; break;
          case 1: it->second.p->set_is_multi_valued(b); it->second.multi = b; break;
          default: it->second.p->set_is_array(b); it->second.array = b;
        }
      }
    }
    PBT_EQ(f.resource_map().size(), model.size(), "resources");
    if (style == 2 && s + 1 < steps) continue;
    for (auto& [k, v] : model) {
      auto e = f.resource_map().find(k);
      PBT_ASSERT(e != f.resource_map().end() && e->second == v.p, "map entry " << k);
      PBT_EQ(v.p->name(), k, "name");
      PBT_EQ(v.p->pascal_name(), Pascal(k), "pascal name of '" << k << "'");
      PBT_EQ(v.p->is_simple(), v.simple, "is_simple of " << k);
      PBT_EQ(v.p->is_multi_valued(), v.multi, "is_multi_valued of " << k);
      PBT_EQ(v.p->is_array(), v.array, "is_array of " << k);
    }
  }
}
}  // namespace

PBT_SUITE(resource_registry, "a name asked for twice", 700000, 9000000) {
  Registry(src, ctx, 25, static_cast<int>(src.draw(2)));
}
PBT_SUITE(many_resources, "a name asked for twice", 4000, 60000) {
  Registry(src, ctx, 900, 2);
}
