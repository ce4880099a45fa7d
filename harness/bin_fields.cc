// C26: extractors, inserters and opcode encodings emitted for binary format
// descriptions.
#include "bin_common.h"

using namespace bin;  // NOLINT

namespace {

// The formats the emitted code has.
std::set<int> Reachable(const Desc& d) {
  std::set<int> r;
  std::map<std::string, int> by_name;
  for (size_t i = 0; i < d.formats.size(); i++) by_name[d.formats[i].name] = static_cast<int>(i);
  for (int l : d.listed) {
    auto gs = d.groups[l].children.empty() ? std::vector<int>{l} : d.groups[l].children;
    for (int g : gs) {
      r.insert(d.groups[g].format);
      for (auto& i : d.groups[g].insts) r.insert(i.format);
    }
  }
  auto close = [&](std::set<int>& s) {
    for (bool more = true; more;) {
      more = false;
      for (int f : std::set<int>(s)) {
        auto& fm = d.formats[f];
        if (fm.base >= 0) more |= s.insert(fm.base).second;
        for (auto& x : fm.items)
          if (x.kind == Item::kFormat) more |= s.insert(by_name[x.format_name]).second;
      }
    }
  };
  close(r);
  // Then the formats that contain one of those, and so on.
  std::set<int> q = r;
  for (bool more = true; more;) {
    more = false;
    for (size_t i = 0; i < d.formats.size(); i++) {
      if (q.count(static_cast<int>(i))) continue;
      for (auto& x : d.formats[i].items)
        if (x.kind == Item::kFormat && q.count(by_name[x.format_name])) more |= q.insert(static_cast<int>(i)).second;
    }
  }
  r = q;
  close(r);
  return r;
}

struct Probe {
  int format = 0;
  Item item;
  bool required = false;
  std::vector<std::pair<std::string, Item>> others;  // the same name, in formats derived from this one
};

}  // namespace

PBT_SUITE(emitted_fields, "an overlay of several pieces, or a sub-format with several instances", 160, 4000) {
  Gen gen(src, Options{false});
  Desc d = gen.Make();
  LogDesc(ctx, d);
  std::string dir = Prepare(d);
  auto st = RunGenerator(dir);
  PBT_ASSERT(st.ok(), "a correct description is refused: " << std::string(st.message()));
  auto fmts = Reachable(d);
  std::vector<Probe> probes;
  for (int f : fmts) {
    std::set<std::string> names;
    for (int g : fmts)
      if (d.Derived(g, f))
        for (auto& x : d.formats[g].items) names.insert(x.name);
    for (auto& n : names) {
      Probe p;
      p.format = f;
      const Item* own = d.formats[f].Find(n);
      bool clash = false;  // a field in one format, an overlay in another
      for (int g : fmts) {
        if (!d.Derived(g, f)) continue;
        const Item* x = d.formats[g].Find(n);
        if (x == nullptr) continue;
        for (int g2 : fmts) {
          const Item* y = d.Derived(g2, f) ? d.formats[g2].Find(n) : nullptr;
          if (y != nullptr && (y->kind == Item::kOverlay) != (x->kind == Item::kOverlay)) clash = true;
        }
        if (g == f) continue;
        // Only if the formats between have no definition of their own.
        bool between = false;
        for (int b = d.formats[g].base; b >= 0 && b != f; b = d.formats[b].base)
          between = between || d.formats[b].Find(n) != nullptr;
        if (!between) p.others.push_back({d.formats[g].name, *x});
      }
      p.required = own != nullptr;
      if (clash) continue;
      p.item = own != nullptr ? *own : p.others[0].second;
      probes.push_back(p);
    }
  }
  // The glue: probe k, by the namespace (0), the class (1), bytes (2, 3) or the
  // inserter (4).  Sets *ok if there is such a function.
  std::string fns, ext = "extern \"C\" uint64_t probe(int k, int how, uint64_t w, const uint8_t* p, int index, uint64_t v, int* ok) {\n"
                         "  *ok = 1;\n  switch (k * 8 + how) {\n";
  auto Case = [&](size_t k, int how, const std::string& e) {
    ext += "    case " + std::to_string(k * 8 + static_cast<size_t>(how)) + ": return static_cast<uint64_t>(" + e + ");\n";
  };
  for (size_t k = 0; k < probes.size(); k++) {
    auto& p = probes[k];
    auto& f = d.formats[p.format];
    std::string W = UType(f.width), ns = Snake(f.name), cl = Pascal(f.name), n = Pascal(p.item.name);
    bool many = p.item.kind == Item::kFormat && p.item.count > 1;
    std::string ix = many ? ", index" : "";
    bool bytes = p.item.kind != Item::kOverlay && __builtin_popcount(static_cast<unsigned>(f.width)) > 1;
    if (p.required) {
      Case(k, 0, "static_cast<int64_t>(" + ns + "::Extract" + n + "(static_cast<" + W + ">(w)" + ix + "))");
      Case(k, 1, "static_cast<int64_t>(Extractors::" + cl + "().Extract" + n + "(static_cast<" + W + ">(w)" + ix + "))");
      if (bytes) {
        Case(k, 2, "static_cast<int64_t>(" + ns + "::Extract" + n + "(p" + ix + "))");
        Case(k, 3, "static_cast<int64_t>(Extractors::" + cl + "().Extract" + n + "(p" + ix + "))");
      }
      Case(k, 4, "Encoder::" + cl + "::Insert" + n + "(" + (many ? "index, " : "") + "v, static_cast<" + W + ">(w))");
    } else {
      // Only if there.
      std::string t = "T" + std::to_string(k);
      fns += "template <typename T> static auto x" + t + "(int, uint64_t w, int index, int*) -> decltype(static_cast<uint64_t>(static_cast<int64_t>(T().Extract" + n +
             "(static_cast<" + W + ">(w)" + ix + ")))) { return static_cast<uint64_t>(static_cast<int64_t>(T().Extract" + n + "(static_cast<" + W + ">(w)" + ix + "))); }\n"
             "template <typename T> static uint64_t x" + t + "(long, uint64_t, int, int* ok) { *ok = 0; return 0; }\n";
      // The class may not be there at all.
      Case(k, 1, "x" + t + "<Has" + cl + ">(0, w, index, ok)");
    }
  }
  std::string glue = GluePrefix();
  // A format with nothing left to extract has no class: look the name up where
  // a stand-in is found instead.
  glue += "namespace vt_standins {\n";
  std::set<std::string> cls;
  for (int f : fmts) cls.insert(Pascal(d.formats[f].name));
  for (auto& c : cls) glue += "struct " + c + " {};\n";
  glue += "}\nstruct VtFind : public Extractors {};\n";
  std::string hdr = ReadFile(dir + "/p_bin_decoder.h");
  for (auto& c : cls) {
    bool there = hdr.find("class " + c + " {") != std::string::npos;
    glue += "using Has" + c + " = " + (there ? "Extractors::" : "vt_standins::") + c + ";\n";
  }
  glue += fns + ext + "  }\n  *ok = 0;\n  return 0;\n}\n";
  glue += "extern \"C\" int opcode(int k, uint64_t* v, int* w) {\n  auto it = kOpcodeEncodings->find(static_cast<OpcodeEnum>(k));\n"
          "  if (it == kOpcodeEncodings->end()) return 0;\n  *v = std::get<0>(it->second); *w = std::get<1>(it->second);\n  return 1;\n}\n"
          "extern \"C\" int opcodes() { return static_cast<int>(kOpcodeEncodings->size()); }\n";
  std::string log;
  void* h = CompileAndLoad(dir, glue, &log);
  PBT_ASSERT(h != nullptr, "the emitted code does not compile: " << log);
  auto probe = reinterpret_cast<uint64_t (*)(int, int, uint64_t, const uint8_t*, int, uint64_t, int*)>(dlsym(h, "probe"));
  bool nontrivial = false;
  uint64_t rng = src.u64();
  auto rnd = [&]() {
    rng += 0x9e3779b97f4a7c15ULL;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  };
  for (size_t k = 0; k < probes.size(); k++) {
    auto& p = probes[k];
    auto& f = d.formats[p.format];
    int W = f.width;
    if (p.required && (p.item.pieces.size() > 1 || p.item.count > 1)) nontrivial = true;
    std::vector<uint64_t> words = {0, Mask(W)};
    for (int t = 0; t < 6; t++) words.push_back(rnd() & Mask(W));
    for (int b = 0; b < W; b += 1 + static_cast<int>(rnd() % 4)) words.push_back((words[rnd() % 3 + 2]) ^ (1ULL << b));
    for (uint64_t w : words) {
      uint8_t bytes[8];
      int nb = (W + 7) / 8;
      for (int i = 0; i < nb; i++) bytes[nb - 1 - i] = static_cast<uint8_t>(w >> (8 * i));
      for (int index = 0; index < p.item.count; index++) {
        std::string what = "format " + f.name + ", " + p.item.name + (p.item.count > 1 ? "[" + std::to_string(index) + "]" : "") + ", word " + pbt::hex(w);
        if (!p.required) {
          int ok = 0;
          uint64_t got = probe(static_cast<int>(k), 1, w, bytes, index, 0, &ok);
          if (!ok) continue;
          ctx.label("promoted to a base format");
          for (auto& [fn, x] : p.others) {
            if (index >= x.count) continue;
            PBT_EQ(got, x.Value(w, index), what << ": the extractor of the base format, for format " << fn);
          }
          continue;
        }
        for (int how = 0; how < 4; how++) {
          int ok = 0;
          uint64_t got = probe(static_cast<int>(k), how, w, bytes, index, 0, &ok);
          if (!ok && how < 2) PBT_FAIL(what << ": no extractor");
          if (!ok) continue;
          PBT_EQ(got, p.item.Value(w, index), what << ": extracted by " << (how == 0 ? "function" : how == 1 ? "class" : "bytes"));
        }
        if (p.item.duplicates || p.item.OnlyConstant()) continue;
        for (int t = 0; t < 3; t++) {
          uint64_t v = t == 0 ? Mask(p.item.width) : rnd();
          if (t != 2) v &= Mask(p.item.width);
          int ok = 0;
          uint64_t got = probe(static_cast<int>(k), 4, w, bytes, index, v, &ok);
          PBT_ASSERT(ok, what << ": no inserter");
          PBT_EQ(got, p.item.Insert(w, v, index), what << ": after inserting " << pbt::hex(v));
        }
      }
    }
  }
  // Opcode encodings.
  auto opcode = reinterpret_cast<int (*)(int, uint64_t*, int*)>(dlsym(h, "opcode"));
  auto opcodes = reinterpret_cast<int (*)()>(dlsym(h, "opcodes"));
  std::map<std::string, int> number;
  {
    int k = 1;
    for (auto& g : d.groups)
      for (auto& i : g.insts)
        if (number.emplace(Pascal(i.name), k).second) k++;
  }
  std::map<int, std::pair<uint64_t, int>> want;
  want[0] = {0, 0};
  for (int l : d.listed) {
    auto gs = d.groups[l].children.empty() ? std::vector<int>{l} : d.groups[l].children;
    for (int g : gs)
      for (auto& i : d.groups[g].insts) {
        if (i.parent >= 0) continue;
        uint64_t v = 0;
        for (auto& c : i.cs) {
          const Item* x = d.formats[i.format].Find(c.lhs);
          if (c.op != kEq || !c.rhs.empty() || x->HasConstant()) continue;
          v |= x->Insert(0, c.value);
        }
        want.emplace(number[Pascal(i.name)], std::make_pair(v, d.formats[d.groups[g].format].width));
      }
  }
  PBT_EQ(opcodes(), static_cast<int>(want.size()), "number of opcode encodings");
  for (auto& [op, vw] : want) {
    uint64_t v = 0;
    int w = -1;
    PBT_ASSERT(opcode(op, &v, &w), "opcode " << op << " has no encoding");
    PBT_EQ(v, vw.first, "encoding of opcode " << op);
    PBT_EQ(w, vw.second, "width of opcode " << op);
  }
  dlclose(h);
  ctx.nontrivial_if(nontrivial);
}
