// C25: the decoders emitted for binary format descriptions.
#include "bin_common.h"

using namespace bin;  // NOLINT

PBT_SUITE(emitted_decoders, "two instructions of a group told apart by more than one field", 260, 6000) {
  Gen gen(src, Options{true});
  Desc d = gen.Make();
  LogDesc(ctx, d);
  std::string dir = Prepare(d);
  auto st = RunGenerator(dir);
  PBT_ASSERT(st.ok(), "a correct description is refused: " << std::string(st.message()));
  std::map<int, std::string> opname;
  {
    std::set<std::string> seen;
    int k = 1;
    for (auto& g : d.groups)
      for (auto& i : g.insts)
        if (seen.insert(Pascal(i.name)).second) opname[k++] = i.name;
  }
  std::string glue = GluePrefix();
  std::set<int> fmts;
  for (int l : d.listed) {
    auto gs = d.groups[l].children.empty() ? std::vector<int>{l} : d.groups[l].children;
    for (int g : gs)
      for (auto& i : d.groups[g].insts) fmts.insert(i.format);
  }
  glue += "static int fid(FormatEnum f) {\n  if (f == FormatEnum::kNone) return -1;\n";
  for (int f : fmts)
    glue += "  if (f == FormatEnum::k" + Pascal(d.formats[f].name) + ") return " + std::to_string(f) + ";\n";
  glue += "  return -2;\n}\n";
  for (size_t k = 0; k < d.listed.size(); k++) {
    auto& g = d.groups[d.listed[k]];
    std::string n = g.name;
    glue += "extern \"C\" int dec" + std::to_string(k) + "(uint64_t w, int* op2, int* fmt) {\n"
            "  auto p = Decode" + n + "WithFormat(static_cast<" + UType(d.formats[g.format].width) + ">(w));\n"
            "  *op2 = static_cast<int>(p.first); *fmt = fid(p.second);\n"
            "  return static_cast<int>(Decode" + n + "(static_cast<" + UType(d.formats[g.format].width) + ">(w)));\n}\n";
  }
  std::string log;
  void* h = CompileAndLoad(dir, glue, &log);
  PBT_ASSERT(h != nullptr, "the emitted code does not compile: " << log);
  bool nontrivial = false;
  for (size_t k = 0; k < d.listed.size(); k++) {
    int g = d.listed[k];
    auto fn = reinterpret_cast<int (*)(uint64_t, int*, int*)>(dlsym(h, ("dec" + std::to_string(k)).c_str()));
    int W = d.formats[d.groups[g].format].width;
    std::vector<uint64_t> words;
    if (W <= 12) {
      for (uint64_t w = 0; w <= Mask(W); w++) words.push_back(w);
    } else {
      auto gs = d.groups[g].children.empty() ? std::vector<int>{g} : d.groups[g].children;
      std::vector<uint64_t> good;
      uint64_t rng = src.u64();
      auto rnd = [&]() {
        rng += 0x9e3779b97f4a7c15ULL;
        uint64_t z = rng;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
      };
      for (int gi : gs)
        for (auto& in : d.groups[gi].insts)
          for (int t = 0; t < 12; t++) {
            uint64_t w = t == 0 ? 0 : t == 1 ? Mask(W) : rnd() & Mask(W);
            // Make the equalities true, the parent's too, then some others.
            auto force = [&](const Inst& x) {
              for (auto& c : x.cs) {
                const Item* lhs = d.formats[x.format].Find(c.lhs);
                if (c.rhs.empty()) {
                  if (c.op == kEq) w = lhs->Insert(w, c.value);
                } else if (rnd() % 2) {
                  uint64_t v = d.formats[x.format].Find(c.rhs)->Raw(w);
                  w = lhs->Insert(w, v + rnd() % 3 - 1);
                }
              }
              for (auto& c : x.cs)
                if (c.rhs.empty() && c.op != kEq && rnd() % 2)
                  w = d.formats[x.format].Find(c.lhs)->Insert(w, c.value + rnd() % 3 - 1);
            };
            if (in.parent >= 0) force(d.groups[gi].insts[in.parent]);
            force(in);
            good.push_back(w & Mask(W));
          }
      for (auto w : good) {
        words.push_back(w);
        for (int t = 0; t < 6; t++) {
          uint64_t x = w ^ (1ULL << (rnd() % W));
          if (t > 3) x ^= 1ULL << (rnd() % W);
          words.push_back(x);
        }
        words.push_back((w & rnd()) | (good[rnd() % good.size()] & ~w));
      }
      // Each bit of a few words.
      for (int t = 0; t < 4; t++) {
        uint64_t w = good[rnd() % good.size()];
        for (int b = 0; b < W; b++) words.push_back(w ^ (1ULL << b));
      }
      for (int t = 0; t < 300; t++) words.push_back(rnd() & Mask(W));
    }
    long hits = 0, none = 0;
    std::set<std::string> seen;
    for (uint64_t w : words) {
      int op2 = 0, fmt = 0;
      int op = fn(w, &op2, &fmt);
      PBT_EQ(op2, op, "the two decoders of group " << d.groups[g].name << " disagree about " << pbt::hex(w));
      auto want = d.Decode(g, w);
      std::string wants;
      for (auto& [o, f] : want) wants += " " + o + "/" + f;
      if (op == 0) {
        none++;
        PBT_ASSERT(want.empty(), "group " << d.groups[g].name << ", word " << pbt::hex(w) << " decodes to nothing, but matches" << wants);
        PBT_EQ(fmt, -1, "format of a word that does not decode");
        continue;
      }
      hits++;
      PBT_ASSERT(opname.count(op) && fmt >= 0, "opcode " << op << ", format " << fmt);
      seen.insert(opname[op]);
      PBT_ASSERT(want.count({opname[op], d.formats[fmt].name}),
                 "group " << d.groups[g].name << ", word " << pbt::hex(w) << " decodes to " << opname[op] << "/"
                          << d.formats[fmt].name << ", but matches" << (wants.empty() ? " nothing" : wants));
    }
    if (hits > 0 && none > 0 && seen.size() >= 2) nontrivial = true;
    if (seen.size() > 4) ctx.label("more than 4 opcodes decoded");
  }
  dlclose(h);
  ctx.nontrivial_if(nontrivial);
}
