// Writes ELF files byte by byte, for the checks of what reads them.
#ifndef VERIF_ELF_COMMON_H
#define VERIF_ELF_COMMON_H
#include <cstdint>
#include <fstream>
#include <string>
#include <vector>

namespace elfgen {

struct Seg {
  uint32_t type = 1, flags = 4;
  uint64_t vaddr = 0, paddr = 0, memsz = 0;
  std::string data;
};
struct Sym {
  std::string name;
  uint64_t value = 0, size = 0;
  unsigned bind = 0, type = 0, shndx = 1;
};
struct File {
  bool is64 = true, msb = false;
  uint64_t entry = 0;
  std::vector<Seg> segs;
  std::vector<std::vector<Sym>> symtabs;

  std::string Bytes() const {
    std::string o;
    auto put = [&](uint64_t at, int n, uint64_t v) {
      if (o.size() < at + n) o.resize(at + n);
      for (int i = 0; i < n; i++) {
        o[at + (msb ? n - 1 - i : i)] = static_cast<char>(v >> (8 * i));
      }
    };
    int w = is64 ? 8 : 4;
    uint64_t ehsize = is64 ? 64 : 52, phsize = is64 ? 56 : 32, shsize = is64 ? 64 : 40;
    o = std::string("\177ELF", 4);
    put(4, 1, is64 ? 2 : 1);
    put(5, 1, msb ? 2 : 1);
    put(6, 1, 1);
    o.resize(ehsize + phsize * segs.size());
    put(16, 2, 2);    // ET_EXEC
    put(18, 2, 243);  // EM_RISCV
    put(20, 4, 1);
    put(24, w, entry);
    put(24 + w, w, segs.empty() ? 0 : ehsize);
    uint64_t tail = 24 + 3 * w;  // e_flags
    put(tail + 4, 2, ehsize);
    put(tail + 6, 2, phsize);
    put(tail + 8, 2, segs.size());
    put(tail + 10, 2, shsize);
    for (size_t i = 0; i < segs.size(); i++) {
      auto& s = segs[i];
      uint64_t p = ehsize + phsize * i, off = o.size();
      o += s.data;
      put(p, 4, s.type);
      put(p + (is64 ? 4 : 24), 4, s.flags);
      uint64_t q = p + (is64 ? 8 : 4);
      for (uint64_t v : {off, s.vaddr, s.paddr, static_cast<uint64_t>(s.data.size()), s.memsz}) {
        put(q, w, v);
        q += w;
      }
      put(p + (is64 ? 48 : 28), w, 1);
    }
    // Sections: null, .text, then a symbol table and a string table for each
    // list of symbols, then the section names.
    struct Sh {
      std::string name;
      uint64_t type, off, size, link, info, entsize;
    };
    std::vector<Sh> shs = {{"", 0, 0, 0, 0, 0, 0}, {".text", 8, o.size(), 0, 0, 0, 0}};
    for (auto& t : symtabs) {
      std::string names(1, '\0');
      uint64_t ent = is64 ? 24 : 16, at = o.size();
      o.resize(at + ent * (t.size() + 1));
      uint64_t local = 1;
      for (size_t i = 0; i < t.size(); i++) {
        auto& y = t[i];
        uint64_t p = at + ent * (i + 1);
        put(p, 4, y.name.empty() ? 0 : names.size());
        if (!y.name.empty()) names += y.name + std::string(1, '\0');
        put(p + (is64 ? 4 : 12), 1, y.bind << 4 | y.type);
        put(p + (is64 ? 6 : 14), 2, y.shndx);
        put(p + (is64 ? 8 : 4), w, y.value);
        put(p + (is64 ? 16 : 8), w, y.size);
        if (y.bind == 0) local = i + 2;
      }
      uint64_t n = shs.size();
      shs.push_back({".symtab", 2, at, ent * (t.size() + 1), n + 1, local, ent});
      shs.push_back({".strtab", 3, o.size(), names.size(), 0, 0, 0});
      o += names;
    }
    std::string names(1, '\0');
    std::vector<uint64_t> name_off;
    shs.push_back({".shstrtab", 3, 0, 0, 0, 0, 0});
    for (auto& s : shs) {
      name_off.push_back(s.name.empty() ? 0 : names.size());
      if (!s.name.empty()) names += s.name + std::string(1, '\0');
    }
    shs.back().off = o.size();
    shs.back().size = names.size();
    o += names;
    uint64_t shoff = o.size();
    put(24 + 2 * w, w, shoff);
    put(tail + 12, 2, shs.size());
    put(tail + 14, 2, shs.size() - 1);
    for (size_t i = 0; i < shs.size(); i++) {
      auto& s = shs[i];
      uint64_t p = shoff + shsize * i;
      put(p, 4, name_off[i]);
      put(p + 4, 4, s.type);
      put(p + (is64 ? 24 : 16), w, s.off);
      put(p + (is64 ? 32 : 20), w, s.size);
      put(p + (is64 ? 40 : 24), 4, s.link);
      put(p + (is64 ? 44 : 28), 4, s.info);
      put(p + (is64 ? 48 : 32), w, 1);
      put(p + (is64 ? 56 : 36), w, s.entsize);
    }
    return o;
  }
};

inline void WriteFile(const std::string& path, const std::string& bytes) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(bytes.data(), bytes.size());
}

}  // namespace elfgen
#endif
