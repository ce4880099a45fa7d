// Generation of binary format descriptions (.bin_fmt), with a model of what
// they say, and the machinery to generate, compile and load the decoder that
// the code under test emits for them.
#ifndef VERIF_BIN_COMMON_H_
#define VERIF_BIN_COMMON_H_
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "mpact/sim/decoder/bin_format_visitor.h"
#include "pbt.h"

namespace bin {

inline uint64_t Mask(int w) {
  return w <= 0 ? 0 : (w >= 64 ? ~0ULL : (1ULL << w) - 1);
}
inline uint64_t SignExt(uint64_t v, int w) {
  if (w >= 64) return v;
  v &= Mask(w);
  return (v >> (w - 1)) & 1 ? v | ~Mask(w) : v;
}
inline std::string Pascal(const std::string& s) {
  std::string o;
  bool up = true;
  for (char c : s) {
    if (c == '_') {
      up = true;
    } else {
      o += up ? static_cast<char>(toupper(c)) : c;
      up = false;
    }
  }
  return o;
}
inline std::string Snake(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (i > 0 && isupper(s[i])) o += '_';
    o += static_cast<char>(tolower(s[i]));
  }
  return o;
}
inline int TypeWidth(int w) { return w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : 64; }
inline std::string UType(int w) {
  return "uint" + std::to_string(TypeWidth(w)) + "_t";
}

// A piece of an overlay: bits of the word, or constant bits.
struct Piece {
  bool constant = false;
  uint64_t value = 0;
  int high = 0, low = 0;  // in the word
  int width = 0;
};

// Something with a name and a value in a word: a field, a sub-format or an
// overlay.
struct Item {
  enum Kind { kField, kFormat, kOverlay } kind = kField;
  std::string name;
  bool sgn = false;
  int width = 0;     // of the value (of one instance)
  int low = 0;       // of the field, or of instance 0
  int count = 1;     // instances of a sub-format
  std::string format_name;
  std::vector<Piece> pieces;
  std::string text;  // right hand side of an overlay
  bool duplicates = false;  // an overlay which uses a bit more than once

  // The value as plain bits.
  uint64_t Raw(uint64_t word, int index = 0) const {
    if (kind != kOverlay) return (word >> (low - index * width)) & Mask(width);
    uint64_t v = 0;
    for (auto& p : pieces) {
      uint64_t b = p.constant ? p.value : (word >> p.low) & Mask(p.width);
      v = p.width >= 64 ? b : (v << p.width) | b;
    }
    return v;
  }
  uint64_t Value(uint64_t word, int index = 0) const {
    uint64_t v = Raw(word, index);
    return sgn ? SignExt(v, width) : v;
  }
  // Bits of the word the item depends on.
  uint64_t Bits() const {
    if (kind != kOverlay) return Mask(width * count) << (low - (count - 1) * width);
    uint64_t m = 0;
    for (auto& p : pieces)
      if (!p.constant) m |= Mask(p.width) << p.low;
    return m;
  }
  bool HasConstant() const {
    for (auto& p : pieces)
      if (p.constant) return true;
    return false;
  }
  bool OnlyConstant() const {
    for (auto& p : pieces)
      if (!p.constant) return false;
    return kind == kOverlay;
  }
  // Puts a value in the word.
  uint64_t Insert(uint64_t word, uint64_t v, int index = 0) const {
    if (kind != kOverlay) {
      int l = low - index * width;
      return (word & ~(Mask(width) << l)) | ((v & Mask(width)) << l);
    }
    int pos = width;
    for (auto& p : pieces) {
      pos -= p.width;
      if (p.constant) continue;
      uint64_t b = (v >> pos) & Mask(p.width);
      word = (word & ~(Mask(p.width) << p.low)) | (b << p.low);
    }
    return word;
  }
  bool Same(const Item& o) const {
    if (kind != o.kind || sgn != o.sgn || width != o.width) return false;
    if (kind != kOverlay) return low == o.low && count == o.count && format_name == o.format_name;
    if (pieces.size() != o.pieces.size()) return false;
    for (size_t i = 0; i < pieces.size(); i++) {
      auto &a = pieces[i], &b = o.pieces[i];
      if (a.constant != b.constant || a.value != b.value || a.low != b.low || a.width != b.width) return false;
    }
    return true;
  }
};

struct Format {
  std::string name;
  int width = 0;
  int base = -1;
  std::vector<Item> items;  // fields and sub-formats in order, then overlays
  const Item* Find(const std::string& n) const {
    for (auto& i : items)
      if (i.name == n) return &i;
    return nullptr;
  }
};

enum Op { kEq, kNe, kLt, kLe, kGt, kGe };
inline const char* OpText(int op) {
  static const char* t[] = {"==", "!=", "<", "<=", ">", ">="};
  return t[op];
}
inline bool Cmp(int op, uint64_t a, uint64_t b) {
  switch (op) {
    case kEq: return a == b;
    case kNe: return a != b;
    case kLt: return a < b;
    case kLe: return a <= b;
    case kGt: return a > b;
    default: return a >= b;
  }
}
struct Constraint {
  int op = kEq;
  std::string lhs;
  std::string rhs;  // a name, if not empty
  uint64_t value = 0;
};
struct Inst {
  std::string name;
  int format = 0;
  bool dup = false;
  std::vector<Constraint> cs;
  int parent = -1;  // index in the group, of the instruction it specializes
  std::string gen;  // not empty: comes from this GENERATE text (emitted once)
};
struct Group {
  std::string name;
  int format = 0;
  std::vector<Inst> insts;
  std::vector<int> children;  // combines these
};
struct Desc {
  std::vector<Format> formats;
  std::vector<Group> groups;
  std::vector<int> listed;  // groups the decoder lists
  std::string main_text, include_text;

  bool Derived(int f, int base) const {
    while (f >= 0) {
      if (f == base) return true;
      f = formats[f].base;
    }
    return false;
  }
  bool Match(const Inst& i, uint64_t w) const {
    const Format& f = formats[i.format];
    for (auto& c : i.cs) {
      uint64_t a = f.Find(c.lhs)->Raw(w);
      uint64_t b = c.rhs.empty() ? c.value : f.Find(c.rhs)->Raw(w);
      if (!Cmp(c.op, a, b)) return false;
    }
    return true;
  }
  // The (opcode, format) pairs a decoder of the group may give for the word.
  std::set<std::pair<std::string, std::string>> Decode(int g, uint64_t w) const {
    std::set<std::pair<std::string, std::string>> r;
    std::vector<int> gs = groups[g].children.empty() ? std::vector<int>{g}
                                                     : groups[g].children;
    for (int k : gs) {
      auto& is = groups[k].insts;
      for (size_t i = 0; i < is.size(); i++) {
        if (is[i].parent >= 0 || !Match(is[i], w)) continue;
        bool special = false;
        for (size_t j = 0; j < is.size(); j++) {
          if (is[j].parent != static_cast<int>(i) || !Match(is[j], w)) continue;
          special = true;
          r.insert({is[j].name, formats[is[j].format].name});
        }
        if (!special) r.insert({is[i].name, formats[is[i].format].name});
      }
    }
    return r;
  }
};

struct Options {
  bool decode = true;  // concentrate on instructions, or on fields
};

class Gen {
 public:
  Gen(pbt::Src& s, Options o) : s_(s), o_(o) {}

  std::string Number(uint64_t v, bool allow_sep = true) {
    char b[80];
    std::string t;
    int k = static_cast<int>(s_.draw(4));
    if (k == 1) {
      snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(v));
      t = b;
    } else if (k == 2) {
      do {
        t.insert(t.begin(), static_cast<char>('0' + (v & 1)));
        v >>= 1;
      } while (v);
    } else if (k == 3) {
      snprintf(b, sizeof b, "%llo", static_cast<unsigned long long>(v));
      t = b;
    } else {
      t = std::to_string(v);
    }
    if (allow_sep && t.size() > 1 && s_.chance(25))
      t.insert(static_cast<size_t>(s_.range(1, static_cast<int64_t>(t.size()) - 1)), "'");
    if (k == 1) return "0x" + t;
    if (k == 2) return "0b" + t;
    if (k == 3) return "0" + t;
    return t;
  }

  std::string Ws() {
    switch (s_.draw(8)) {
      case 1: return "\n";
      case 2: return "  ";
      case 3: return " /* x */ ";
      case 4: return " // y\n";
      default: return " ";
    }
  }

  int PickWidth() {
    switch (s_.draw(7)) {
      case 0: return 8;
      case 1: return 16;
      case 2: return 32;
      case 3: return 64;
      case 4: return static_cast<int>(s_.range(3, 64));
      case 5: return 24;
      default: return 32;
    }
  }

  // Fills a format of the given width with fields and overlays.
  void Fill(Desc& d, Format& f, int sub_ok) {
    int left = f.width;
    std::vector<std::string> pool = {"op",  "func", "rd",     "rs_1", "imm_lo", "Bits",
                                     "sel", "kk",   "wide_A", "x3",   "q_q",    "Zed"};
    std::set<std::string> used;
    auto name = [&]() {
      std::string n;
      for (int t = 0; t < 6; t++) {
        n = s_.pick(pool);
        if (!used.count(Pascal(n))) break;
      }
      int k = 0;
      std::string base = n;
      while (used.count(Pascal(n))) n = base + std::to_string(++k);
      used.insert(Pascal(n));
      return n;
    };
    std::vector<Item> fields;
    while (left > 0) {
      Item it;
      it.name = name();
      std::vector<int> fit;
      for (int k = 0; k < sub_ok; k++)
        if (d.formats[k].width <= left) fit.push_back(k);
      if (!fit.empty() && s_.chance(45)) {
        int k = s_.pick(fit);
        it.kind = Item::kFormat;
        it.width = d.formats[k].width;
        it.format_name = d.formats[k].name;
        int max = left / it.width;
        if (max > 1 && s_.chance(50)) it.count = static_cast<int>(s_.range(1, std::min(max, 4)));
        it.low = left - it.width;
        left -= it.width * it.count;
      } else {
        int w;
        if (s_.chance(10)) {
          w = left;
        } else {
          w = static_cast<int>(s_.range(1, std::min(left, s_.chance(20) ? 64 : 8)));
        }
        it.width = w;
        it.sgn = s_.chance(30);
        it.low = left - w;
        left -= w;
      }
      fields.push_back(it);
    }
    std::vector<Item> overlays;
    int no = static_cast<int>(s_.draw(o_.decode ? 3 : 4));
    for (int k = 0; k < no; k++) {
      Item it;
      it.kind = Item::kOverlay;
      it.name = name();
      it.sgn = s_.chance(30);
      int np = static_cast<int>(s_.range(1, 5));
      uint64_t seen = 0;
      auto add = [&](const Piece& p) {
        if (it.width + p.width > 64) return false;
        if (!p.constant) {
          if (seen & (Mask(p.width) << p.low)) it.duplicates = true;
          seen |= Mask(p.width) << p.low;
        }
        it.pieces.push_back(p);
        it.width += p.width;
        return true;
      };
      for (int j = 0; j < np; j++) {
        std::string t;
        Piece p;
        switch (s_.draw(4)) {
          case 0: {  // bits of the format
            p.low = static_cast<int>(s_.range(0, f.width - 1));
            p.high = static_cast<int>(s_.range(p.low, std::min(f.width - 1, p.low + (s_.chance(20) ? 63 : 6))));
            p.width = p.high - p.low + 1;
            if (!add(p)) continue;
            t = "[" + Range(p.high, p.low);
            if (s_.chance(30)) {
              Piece q;
              q.low = q.high = static_cast<int>(s_.range(0, f.width - 1));
              q.width = 1;
              if (add(q)) t += ", " + Range(q.high, q.low);
            }
            t += "]";
            break;
          }
          case 1: {  // constant
            p.constant = true;
            p.width = static_cast<int>(s_.range(1, s_.chance(20) ? 20 : 4));
            p.value = s_.u64() & Mask(p.width);
            if (!add(p)) continue;
            t = "0b";
            for (int b = p.width - 1; b >= 0; b--) {
              t += (p.value >> b) & 1 ? '1' : '0';
              if (b > 0 && s_.chance(10)) t += "'";
            }
            break;
          }
          default: {  // field, or bits of one
            std::vector<const Item*> fs;
            for (auto& x : fields)
              if (x.kind == Item::kField) fs.push_back(&x);
            if (fs.empty()) continue;
            const Item* x = s_.pick(fs);
            if (s_.chance(50)) {
              p.low = x->low;
              p.width = x->width;
              p.high = p.low + p.width - 1;
              if (!add(p)) continue;
              t = x->name;
            } else {
              int lo = static_cast<int>(s_.range(0, x->width - 1));
              int hi = static_cast<int>(s_.range(lo, x->width - 1));
              p.low = x->low + lo;
              p.high = x->low + hi;
              p.width = hi - lo + 1;
              if (!add(p)) continue;
              t = x->name + "[" + Range(hi, lo) + "]";
            }
          }
        }
        it.text += (it.text.empty() ? "" : ", ") + t;
      }
      if (it.width == 0) continue;
      overlays.push_back(it);
    }
    f.items = fields;
    for (auto& x : overlays) f.items.push_back(x);
  }
  std::string Range(int hi, int lo) {
    if (hi == lo && s_.flip()) return Number(static_cast<uint64_t>(hi));
    return Number(static_cast<uint64_t>(hi)) + ".." + Number(static_cast<uint64_t>(lo));
  }

  std::string FormatText(const Desc& d, const Format& f) {
    std::string t = "format " + f.name;
    if (f.base < 0 || s_.flip()) t += "[" + Number(static_cast<uint64_t>(f.width)) + "]";
    if (f.base >= 0) t += " : " + d.formats[f.base].name;
    t += Ws() + "{\n";
    if (s_.chance(10)) t += "  layout: default;\n";
    t += "  fields:\n";
    bool ov = false;
    for (auto& i : f.items) {
      if (i.kind == Item::kOverlay && !ov) {
        t += "  overlays:\n";
        ov = true;
      }
      t += "    ";
      if (i.kind == Item::kFormat) {
        t += "format " + i.format_name + " " + i.name;
        if (i.count > 1 || s_.chance(20)) t += "[" + Number(static_cast<uint64_t>(i.count)) + "]";
      } else {
        t += (i.sgn ? "signed " : "unsigned ") + i.name + "[" + Number(static_cast<uint64_t>(i.width)) + "]";
        if (i.kind == Item::kOverlay) t += " = " + i.text;
      }
      t += ";" + Ws();
    }
    t += "}" + std::string(s_.flip() ? ";" : "") + "\n";
    return t;
  }

  std::string ConstraintText(const Constraint& c) {
    return c.lhs + " " + OpText(c.op) + " " + (c.rhs.empty() ? Number(c.value) : c.rhs);
  }

  // Adds a constraint which the word satisfies.
  void AddConstraint(const Desc& d, Inst& inst, uint64_t word, int budget_bits) {
    const Format& f = d.formats[inst.format];
    std::vector<const Item*> ok;
    for (auto& i : f.items)
      if (i.kind != Item::kFormat && i.width < 63) ok.push_back(&i);
    if (ok.empty()) return;
    const Item* x = s_.pick(ok);
    Constraint c;
    c.lhs = x->name;
    uint64_t v = x->Raw(word);
    int kind = static_cast<int>(s_.draw(10));
    if (kind >= 8) {  // against another item
      std::vector<const Item*> rs;
      for (auto* r : ok)
        if (r != x && !r->sgn && !x->sgn) rs.push_back(r);
      if (rs.empty()) return;
      const Item* r = s_.pick(rs);
      c.rhs = r->name;
      uint64_t w = r->Raw(word);
      c.op = v == w ? s_.pick({kEq, kLe, kGe}) : v < w ? s_.pick({kNe, kLt, kLe}) : s_.pick({kNe, kGt, kGe});
      inst.cs.push_back(c);
      return;
    }
    uint64_t top = Mask(x->width);
    if (x->sgn) top >>= 1;  // no other value can be written
    if (kind >= 6) {
      c.op = x->sgn ? kNe : static_cast<int>(s_.range(kNe, kGe));
      uint64_t o = s_.flip() ? s_.u64() & top : (v + (s_.flip() ? 1 : ~0ULL)) & top;
      c.value = o;
      if (!Cmp(c.op, v, o)) {
        if (c.op == kNe || c.op == kLt || c.op == kGt) c.op = x->sgn ? -1 : c.op == kNe ? kGe : c.op == kLt ? kGe : kLe;
        else c.op = c.op == kLe ? kGt : kLt;
        if (c.op < 0 || !Cmp(c.op, v, o)) return;
      }
      inst.cs.push_back(c);
      return;
    }
    int bits = __builtin_popcountll(x->Bits() & ~EqBits(d, inst));
    if (bits > budget_bits) return;
    if (v > top) return;
    c.op = kEq;
    c.value = v;
    inst.cs.push_back(c);
  }
  uint64_t EqBits(const Desc& d, const Inst& i) {
    uint64_t m = 0;
    for (auto& c : i.cs)
      if (c.op == kEq && c.rhs.empty()) m |= d.formats[i.format].Find(c.lhs)->Bits();
    return m;
  }

  Desc Make() {
    Desc d;
    int W = PickWidth();
    // Sub-formats first, then a root and formats derived from it.
    int nsub = o_.decode ? static_cast<int>(s_.draw(2)) : static_cast<int>(s_.draw(4));
    for (int i = 0; i < nsub; i++) {
      Format f;
      f.name = NewName({"Sub", "part_b", "pieceC"});
      f.width = static_cast<int>(s_.range(1, std::max(1, s_.chance(10) ? W : W / 2)));
      Fill(d, f, i);
      d.formats.push_back(f);
    }
    int root = static_cast<int>(d.formats.size());
    int nf = static_cast<int>(s_.range(1, 4));
    for (int i = 0; i < nf; i++) {
      Format f;
      f.name = NewName({"Inst", "RType", "i_type", "wordFmt"});
      f.width = W;
      if (i > 0) f.base = static_cast<int>(s_.range(root, root + i - 1));
      Fill(d, f, nsub);
      d.formats.push_back(f);
    }
    int ng = static_cast<int>(s_.range(1, 3));
    int uniq = 0;
    std::set<std::string> names;
    for (int g = 0; g < ng; g++) {
      Group gr;
      gr.name = NewName({"Grp", "inst_set", "ISA"});
      gr.format = root;
      int ni = static_cast<int>(s_.range(1, o_.decode ? 9 : 3));
      // Instructions share format and fields often, so that they are told
      // apart by values.
      int wide = s_.chance(25) ? static_cast<int>(s_.draw(static_cast<uint64_t>(ni))) : -1;
      uint64_t group_word = s_.u64() & Mask(W);
      for (int i = 0; i < ni; i++) {
        Inst in;
        std::string base = s_.pick({"add", "sub_i", "lw", "jAl", "c_nop"});
        in.name = base + "_" + std::to_string(uniq++);
        in.format = static_cast<int>(s_.range(root, root + nf - 1));
        uint64_t word = s_.flip() ? s_.u64() & Mask(W) : group_word ^ (1ULL << s_.draw(static_cast<uint64_t>(W)));
        if (!gr.insts.empty() && s_.chance(60)) {
          // Like an earlier one.
          const Inst& p = gr.insts[s_.draw(gr.insts.size())];
          if (p.parent < 0) {
            in.format = p.format;
            for (auto& c : p.cs) {
              const Item* x = d.formats[p.format].Find(c.lhs);
              if (c.op != kEq || !c.rhs.empty()) continue;
              if (__builtin_popcountll((x->Bits() | EqBits(d, in))) > 10) continue;
              uint64_t v = x->Raw(word);
              if (x->sgn && v > Mask(x->width) >> 1) continue;
              Constraint c2 = c;
              c2.value = v;
              in.cs.push_back(c2);
            }
          }
        }
        int nc = static_cast<int>(s_.range(1, 4));
        for (int k = 0; k < nc; k++)
          AddConstraint(d, in, word, i == wide ? 64 : std::max(0, 10 - __builtin_popcountll(EqBits(d, in))));
        if (in.cs.empty()) {
          Constraint c;
          for (auto& x : d.formats[in.format].items)
            if (x.kind != Item::kFormat && x.width < 63 && x.width <= 8) {
              c.lhs = x.name;
              c.op = kNe;
              c.value = 0;
              in.cs.push_back(c);
              break;
            }
          if (in.cs.empty()) continue;
        }
        // A second encoding of an opcode.
        if (!gr.insts.empty() && s_.chance(8)) {
          const Inst& p = gr.insts[s_.draw(gr.insts.size())];
          bool special = p.parent >= 0;
          for (auto& q : gr.insts)
            if (q.parent >= 0 && gr.insts[q.parent].name == p.name) special = true;
          if (!special) {
            in.name = p.name;
            in.dup = true;
          }
        }
        gr.insts.push_back(in);
        if (!in.dup && s_.chance(15)) {
          int pidx = static_cast<int>(gr.insts.size()) - 1;
          int ns = static_cast<int>(s_.range(1, 2));
          for (int k = 0; k < ns; k++) {
            Inst sp;
            sp.name = "spec_" + std::to_string(uniq++);
            sp.format = in.format;
            sp.parent = pidx;
            int n = static_cast<int>(s_.range(1, 3));
            for (int j = 0; j < n; j++) AddConstraint(d, sp, word, 64);
            if (!sp.cs.empty()) gr.insts.push_back(sp);
          }
        }
      }
      if (gr.insts.empty()) {
        if (g == 0) {  // A group with nothing else in it.
          Format f;
          f.name = "plain_one";
          f.width = W;
          f.base = root;
          Item it;
          it.name = "only";
          it.width = std::min(W, 3);
          it.low = W - it.width;
          f.items.push_back(it);
          if (W > it.width) {
            Item r;
            r.name = "rest";
            r.width = W - it.width;
            f.items.push_back(r);
          }
          Inst in;
          in.name = "one";
          in.format = static_cast<int>(d.formats.size());
          d.formats.push_back(f);
          in.cs.push_back({kEq, "only", "", 1});
          gr.insts.push_back(in);
        } else {
          continue;
        }
      }
      d.groups.push_back(gr);
    }
    // Which groups the decoder lists; combined groups.
    int n = static_cast<int>(d.groups.size());
    bool in_decoder = false;
    if (n > 1 && s_.chance(50)) {
      Group c;
      c.name = NewName({"All", "all_of"});
      c.format = root;
      for (int i = 0; i < n; i++)
        if (i == 0 || s_.chance(70)) c.children.push_back(i);
      in_decoder = s_.flip();
      d.groups.push_back(c);
      d.listed.push_back(n);
      for (int i = 1; i < n; i++) {
        bool used = false;
        for (int k : c.children) used |= k == i;
        if (!used && s_.flip()) d.listed.push_back(i);
      }
    } else {
      for (int i = 0; i < n; i++)
        if (i == 0 || s_.chance(80)) d.listed.push_back(i);
    }
    Render(d, in_decoder);
    return d;
  }

  std::string GroupText(const Desc& d, const Group& g) {
    std::string t = "instruction group " + g.name;
    if (!g.children.empty()) {
      t += " = { ";
      for (size_t i = 0; i < g.children.size(); i++)
        t += (i ? ", " : "") + d.groups[g.children[i]].name;
      return t + std::string(s_.chance(20) ? "," : "") + " };\n";
    }
    t += "[" + Number(static_cast<uint64_t>(d.formats[g.format].width)) + "] : " + d.formats[g.format].name + " {\n";
    std::string late;
    for (size_t i = 0; i < g.insts.size(); i++) {
      auto& in = g.insts[i];
      std::string cs;
      for (size_t k = 0; k < in.cs.size(); k++) cs += (k ? "," + Ws() : "") + ConstraintText(in.cs[k]);
      if (in.parent >= 0) {
        std::string s = "  " + in.name + " : specializes " + g.insts[in.parent].name + " : " + cs + ";\n";
        if (s_.flip()) t += s;
        else late += s;
        continue;
      }
      if (!in.dup && s_.chance(12)) {
        // The same, by a generator: name, a value and an operator argument.
        t += Generated(d, in);
        continue;
      }
      t += "  " + std::string(in.dup ? "!" : "") + in.name + " :" + Ws() + d.formats[in.format].name + " : " + cs + ";" + Ws();
    }
    return t + late + "}" + std::string(s_.flip() ? ";" : "") + "\n";
  }
  std::string Generated(const Desc& d, const Inst& in) {
    // Splits the name, and takes the first value from a tuple.
    size_t cut = static_cast<size_t>(s_.range(1, static_cast<int64_t>(in.name.size()) - 1));
    std::string tail = in.name.substr(cut);
    bool str = s_.flip() || isdigit(tail[0]);
    std::string t = "  GENERATE(";
    std::string body_name = in.name.substr(0, cut) + "$(n)";
    bool tuple = s_.flip();
    std::string first = in.cs[0].rhs.empty() ? Number(in.cs[0].value) : "";
    std::string tv = str ? "\"" + tail + "\"" : tail;
    if (first.empty()) tuple = false;
    if (tuple) {
      t += "[n, val] = [{" + tv + ", " + first + "}]";
    } else {
      t += "n = [" + tv + "]";
      if (!first.empty()) t += ", val = [" + first + "]";
    }
    t += ") {\n    " + body_name + " : " + d.formats[in.format].name + " : ";
    if (in.cs[0].rhs.empty()) {
      t += in.cs[0].lhs + " " + OpText(in.cs[0].op) + " $(val)";
    } else {
      // A generator has no constraints against other fields: spell it out.
      return "  " + in.name + " : " + d.formats[in.format].name + " : " + All(in) + ";\n";
    }
    for (size_t k = 1; k < in.cs.size(); k++) {
      if (!in.cs[k].rhs.empty())
        return "  " + in.name + " : " + d.formats[in.format].name + " : " + All(in) + ";\n";
      t += ", " + ConstraintText(in.cs[k]);
    }
    return t + ";\n  };\n";
  }
  std::string All(const Inst& in) {
    std::string cs;
    for (size_t k = 0; k < in.cs.size(); k++) cs += (k ? ", " : "") + ConstraintText(in.cs[k]);
    return cs;
  }

  void Render(Desc& d, bool in_decoder) {
    std::vector<std::string> parts;
    for (auto& f : d.formats) parts.push_back(FormatText(d, f));
    for (auto& g : d.groups)
      if (g.children.empty() || !in_decoder) parts.push_back(GroupText(d, g));
    std::string dec = "decoder Dec {\n  namespace vt::gen;\n  opcode_enum = \"OpcodeEnum\";\n"
                      "  includes { #include \"p_enums.h\" }\n";
    for (int l : d.listed) {
      auto& g = d.groups[l];
      if (!g.children.empty() && in_decoder) {
        dec += "  " + g.name + " = { ";
        for (size_t i = 0; i < g.children.size(); i++)
          dec += (i ? ", " : "") + d.groups[g.children[i]].name;
        dec += " };\n";
      } else {
        dec += "  " + g.name + ";\n";
      }
    }
    parts.push_back(dec + "}\n");
    // Any order, some of it in a second file.
    for (size_t i = parts.size(); i > 1; i--)
      if (s_.chance(40)) std::swap(parts[i - 1], parts[s_.draw(i)]);
    bool inc = s_.chance(30);
    for (auto& p : parts) {
      if (inc && s_.chance(40)) d.include_text += p;
      else d.main_text += p;
    }
    if (!d.include_text.empty()) {
      d.main_text = s_.flip() ? "#include \"more.bin_fmt\"\n" + d.main_text
                              : d.main_text + "#include \"more.bin_fmt\"\n";
      if (s_.flip()) d.include_text = "# once\n" + d.include_text;
    }
  }

  std::string NewName(std::vector<std::string> stems) {
    std::string n = s_.pick(stems) + std::to_string(count_++);
    return n;
  }

 private:
  pbt::Src& s_;
  Options o_;
  int count_ = 0;
};

inline void WriteFile(const std::string& p, const std::string& t) {
  std::ofstream o(p);
  o << t;
}
inline std::string ReadFile(const std::string& p) {
  std::ifstream i(p);
  return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}

inline absl::Status RunGenerator(const std::string& dir, const std::string& decoder = "Dec") {
  using mpact::sim::decoder::bin_format::BinFormatVisitor;
  auto v = std::make_unique<BinFormatVisitor>();
  std::vector<std::string> files = {dir + "/d.bin_fmt"};
  return v->Process(files, decoder, "p", {}, dir);
}

// Compiles glue + emitted code; returns the handle, or fails the case.
inline void* CompileAndLoad(const std::string& dir, const std::string& glue, std::string* log) {
  WriteFile(dir + "/glue.cc", glue);
  static int n = 0;
  std::string so = dir + "/g" + std::to_string(n++) + ".so";
  std::string cmd = "cd '" + dir + "' && " VERIF_CXX " -std=c++17 -O0 -w -fPIC -shared -I" VERIF_SHIM
                    " -I. -include-pch " VERIF_PCH " glue.cc -o '" + so + "' >cc.log 2>&1";
  int rc = system(cmd.c_str());
  if (rc != 0) {
    *log = ReadFile(dir + "/cc.log").substr(0, 1500);
    return nullptr;
  }
  void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (h == nullptr) *log = dlerror();
  unlink(so.c_str());
  return h;
}

inline std::string Prepare(const Desc& d) {
  std::string dir = pbt::scratch_dir();
  WriteFile(dir + "/d.bin_fmt", d.main_text);
  unlink((dir + "/more.bin_fmt").c_str());
  if (!d.include_text.empty()) WriteFile(dir + "/more.bin_fmt", d.include_text);
  std::string e = "#ifndef P_ENUMS_H\n#define P_ENUMS_H\nnamespace vt { namespace gen {\nenum class OpcodeEnum { kNone = 0";
  std::set<std::string> seen;
  for (auto& g : d.groups)
    for (auto& i : g.insts)
      if (seen.insert(Pascal(i.name)).second) e += ", k" + Pascal(i.name);
  e += " };\n} }\n#endif\n";
  WriteFile(dir + "/p_enums.h", e);
  return dir;
}
inline const char* GluePrefix() {
  return "#include \"p_bin_decoder.h\"\n#include \"p_bin_encoder.h\"\n"
         "#include \"p_bin_decoder.cc\"\n#include \"p_bin_encoder.cc\"\n"
         "using namespace vt::gen;\n";
}
inline void LogDesc(pbt::Ctx& ctx, const Desc& d) {
  if (!ctx.logging()) return;
  ctx.log("description:\n" + d.main_text);
  if (!d.include_text.empty()) ctx.log("more.bin_fmt:\n" + d.include_text);
}

}  // namespace bin
#endif
