// C31: the simple assembler.
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

#include "absl/status/status.h"
#include "elf_common.h"
#include "elfio/elfio.hpp"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/asm/opcode_assembler_interface.h"
#include "mpact/sim/util/asm/resolver.h"
#include "mpact/sim/util/asm/resolver_interface.h"
#include "mpact/sim/util/asm/simple_assembler.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"
#include "pbt.h"

using namespace mpact::sim::generic;          // NOLINT
using namespace mpact::sim::util::assembler;  // NOLINT
using mpact::sim::util::ElfProgramLoader;
using mpact::sim::util::MemoryInterface;

namespace {

using Bytes = std::vector<uint8_t>;
void Le(Bytes& b, uint64_t v, int n) {
  for (int i = 0; i < n; i++) b.push_back(v >> (8 * i));
}

class Memory : public MemoryInterface {
 public:
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override {}
  void Store(uint64_t a, DataBuffer* db) override {
    auto p = static_cast<uint8_t*>(db->raw_ptr());
    for (int i = 0; i < db->size<uint8_t>(); i++) image[a + i] = p[i];
  }
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override {}
  std::map<uint64_t, uint8_t> image;
};

// The instructions of the target:
//   nop           01 00 00 00
//   li N          02, the low 24 bits of N
//   ref S         03, the low 24 bits of the value of S (relocation 1)
//   rel S         04, the low 24 bits of the value of S - the address (2)
//   far S+K       05 00 00 00, the low 32 bits of S + K (relocation 7, K)
//   even S        06, the low 24 bits of S, which has to be even
//   { I; I; ... } one after the other, each on a line of its own
//   fail          cannot be encoded
struct Target : public OpcodeAssemblerInterface {
  absl::StatusOr<size_t> Encode(uint64_t address, absl::string_view text, AddSymbolCallback add,
                                ResolverInterface* resolver, Bytes& bytes,
                                std::vector<RelocationInfo>& relocations) override {
    std::string s(text);
    size_t colon = s.find(':');
    if (colon != std::string::npos && !isspace(s[0])) {
      std::string label = s.substr(0, colon);
      while (!label.empty() && isspace(label.back())) label.pop_back();
      auto status = add(label, address, 0, ELFIO::STT_NOTYPE, ELFIO::STB_LOCAL, 0);
      if (!status.ok()) return status;
      s = s.substr(colon + 1);
    }
    size_t before = bytes.size();
    if (s.find('{') != std::string::npos) {
      for (char& c : s) {
        if (c == '{' || c == '}' || c == '\\') c = ' ';
      }
      std::istringstream is(s);
      std::string line;
      while (std::getline(is, line)) {
        lines++;
        auto status = One(address + bytes.size() - before, line, resolver, bytes, relocations);
        if (!status.ok()) return status;
      }
    } else {
      auto status = One(address, s, resolver, bytes, relocations);
      if (!status.ok()) return status;
    }
    return bytes.size() - before;
  }
  absl::Status One(uint64_t address, const std::string& text, ResolverInterface* resolver,
                   Bytes& bytes, std::vector<RelocationInfo>& relocations) {
    std::istringstream is(text);
    std::string op, arg, more;
    is >> op >> arg >> more;
    if (!more.empty()) return absl::InvalidArgumentError("too much: " + text);
    if (op == "nop") {
      Le(bytes, 1, 4);
      return absl::OkStatus();
    }
    if (arg.empty()) return absl::InvalidArgumentError("what is " + text);
    if (op == "li") {
      bytes.push_back(2);
      Le(bytes, std::stoull(arg), 3);
      return absl::OkStatus();
    }
    uint64_t k = 0;
    size_t plus = arg.find('+');
    if (plus != std::string::npos) {
      k = std::stoull(arg.substr(plus + 1));
      arg = arg.substr(0, plus);
    }
    auto res = resolver->Resolve(arg);
    if (!res.ok()) return res.status();
    uint64_t v = *res;
    if (op == "ref") {
      bytes.push_back(3);
      Le(bytes, v, 3);
      relocations.emplace_back(0, arg, 1, 0, 0);
    } else if (op == "rel") {
      bytes.push_back(4);
      Le(bytes, v - address, 3);
      relocations.emplace_back(0, arg, 2, 0, 0);
    } else if (op == "far") {
      Le(bytes, 5, 4);
      Le(bytes, v + k, 4);
      relocations.emplace_back(0, arg, 7, k, 0);
    } else if (op == "even") {
      if (v % 2 != 0) return absl::InvalidArgumentError("odd value");
      bytes.push_back(6);
      Le(bytes, v, 3);
    } else {
      return absl::InvalidArgumentError("what is " + text);
    }
    return absl::OkStatus();
  }
  int lines = 0;
};

// Resolves some symbols that the program does not define.
struct Externals : public ResolverInterface {
  absl::StatusOr<uint64_t> Resolve(absl::string_view text) override {
    if (text.substr(0, 3) == "ext") return 0x1230 + 0x10 * (text[3] - '0');
    return inner->Resolve(text);
  }
  std::unique_ptr<SymbolResolver> inner;
};

enum { kText, kData, kBss };
const char* const kSections[] = {".text", ".data", ".bss"};

struct Ref {  // An instruction which refers to a symbol.
  std::string op, sym;
  uint64_t k;
  int section;
  uint64_t offset;  // Of the instruction.
  uint64_t stmt;    // Of the statement.
};
struct Sym {
  int section;
  uint64_t offset, size;
  unsigned type = 0;
};

struct Program {
  pbt::Src& src;
  pbt::Ctx& ctx;
  std::string comment;
  bool externals;
  uint64_t unit = 1;
  std::string text;
  Bytes bytes[3];
  uint64_t align[3] = {16, 16, 16};
  std::map<std::string, Sym> syms;
  std::set<std::string> globals, undefined;
  std::vector<Ref> refs;
  std::vector<std::string> pending;  // Labels referred to, to be defined yet.
  int cur = -1;
  int label_count = 0;
  int statements = 0;

  Program(pbt::Src& s, pbt::Ctx& c) : src(s), ctx(c) {}

  std::string Space(bool some) {
    std::string r = some ? (src.chance(70) ? " " : "\t") : "";
    if (src.chance(15)) r += src.flip() ? "  " : " \t";
    return r;
  }
  std::string Comment() {
    if (!src.chance(12)) return "";
    return Space(false) + comment + src.pick<std::string>({"", " note", " foo: .word 1", "\"x\" 'y'"});
  }
  void Line(const std::string& s) {
    std::string l = s + Comment();
    if (ctx.logging()) ctx.log("> ", l);
    text += l + "\n";
  }
  std::string NewLabel() {
    if (!pending.empty() && src.chance(70)) {
      std::string s = pending.back();
      pending.pop_back();
      return s;
    }
    return src.pick<std::string>({"l", "main_", "_x", "L", "a.b", "data"}) +
           std::to_string(label_count++);
  }
  // The labels of data count in units of the data memory, except when it is the
  // target that gives them their address.
  void Define(const std::string& l, uint64_t size, bool by_target) {
    uint64_t at = bytes[cur].size();
    if (cur != kText && !by_target) at /= unit;
    syms[l] = {cur, at, size};
  }
  // A symbol to refer to: one defined before, one to define later, external.
  std::string Symbol() {
    int w = src.weighted({5, 3, externals ? 2 : 0});
    if (w == 2) {
      std::string s = "ext" + std::to_string(src.draw(3));
      undefined.insert(s);
      return s;
    }
    if (w == 0 && !syms.empty()) {
      auto it = syms.begin();
      std::advance(it, src.draw(syms.size()));
      return it->first;
    }
    if (!pending.empty() && src.flip()) return pending[src.draw(pending.size())];
    pending.push_back("f" + std::to_string(label_count++));
    return pending.back();
  }
  void Switch(int s) {
    cur = s;
    Line(Space(true) + kSections[s] + (src.chance(10) ? "  " : ""));
  }
  // The text before a statement on its line: white space, or a label.
  std::string Prefix(uint64_t size, bool by_target = false) {
    if (!src.chance(20)) return Space(true);
    std::string l = NewLabel();
    Define(l, size, by_target);
    return l + Space(false) + ":" + Space(true);
  }
  std::string Number(int64_t lo, uint64_t hi, uint64_t& v) {
    char buf[40];
    if (lo < 0 && src.chance(40)) {
      int64_t n = src.chance(30) ? lo + static_cast<int64_t>(src.draw(2))
                                 : -static_cast<int64_t>(src.u64() % (static_cast<uint64_t>(-(lo + 1)) + 1));
      v = static_cast<uint64_t>(n);
      snprintf(buf, sizeof buf, "%lld", static_cast<long long>(n));
      return buf;
    }
    v = src.chance(30) ? hi - src.draw(2) : src.chance(50) ? src.draw(100) : hi == ~0ull ? src.u64() : src.u64() % (hi + 1);
    if (v > hi) v = hi;
    int form = src.weighted({3, 2, 1, 1});
    snprintf(buf, sizeof buf,
             form == 0   ? "%llu"
             : form == 1 ? "0x%llx"
             : form == 2 ? "0x%llX"
                         : "0x0%llx",
             static_cast<unsigned long long>(v));
    return buf;
  }
  // The text of one character, and what it stands for.
  std::string Char(bool in_string, std::string& means) {
    static const char kPlain[] = "abcxyzABC0129 ,.:!?(){}[]<>=+-*&^%$@|~`_";
    if (src.chance(25)) {
      static const char* const kEsc[][2] = {{"\\n", "\n"}, {"\\r", "\r"}, {"\\v", "\v"},
                                            {"\\f", "\f"}, {"\\a", "\a"}, {"\\b", "\b"},
                                            {"\\t", "\t"}, {"\\\\", "\\"}, {"\\'", "'"},
                                            {"\\\"", "\""}, {"\\?", "?"}};
      auto& e = kEsc[src.draw(11)];
      means += e[1];
      return e[0];
    }
    if (in_string && src.chance(5)) {
      means += "'";
      return "'";
    }
    if (!in_string && src.chance(5)) {
      means += '"';
      return "\"";
    }
    char c = kPlain[src.draw(sizeof kPlain - 1)];
    means += c;
    return std::string(1, c);
  }
  void Data() {
    struct D {
      const char* name;
      int size;
      int64_t lo;
      uint64_t hi;
    };
    static const D kD[] = {{"bytes", 1, 0, 255},
                           {"uchar", 1, 0, 255},
                           {"short", 2, INT16_MIN, INT16_MAX},
                           {"ushort", 2, 0, UINT16_MAX},
                           {"word", 4, INT32_MIN, INT32_MAX},
                           {"uword", 4, 0, UINT32_MAX},
                           {"long", 8, INT64_MIN, INT64_MAX},
                           {"ulong", 8, 0, UINT64_MAX},
                           {"char", 0, 0, 0},
                           {"string", 0, 0, 0},
                           {"cstring", 0, 0, 0}};
    auto& d = kD[src.draw(11)];
    Bytes b;
    std::string list;
    int n = src.range(1, 4);
    bool broken = false;
    for (int i = 0; i < n; i++) {
      if (i > 0) {
        list += Space(false) + "," + Space(false);
        if (src.chance(10)) {
          list += "\\\n  ";
          broken = true;
        }
      }
      if (d.size != 0) {
        uint64_t v;
        list += Number(d.lo, d.hi, v);
        Le(b, v, d.size);
      } else {
        std::string means, t;
        if (d.name[0] == 'c' && d.name[1] == 'h') {
          t = "'" + Char(false, means) + "'";
        } else {
          int m = src.range(0, 6);
          for (int k = 0; k < m; k++) t += Char(true, means);
          t = "\"" + t + "\"";
          if (d.name[0] == 'c') means += '\0';
        }
        list += t;
        b.insert(b.end(), means.begin(), means.end());
      }
    }
    if (broken) ctx.label("continued line");
    std::string p = Prefix(b.size());
    Line(p + "." + d.name + Space(true) + list + Space(false));
    bytes[cur].insert(bytes[cur].end(), b.begin(), b.end());
  }
  // The text of an instruction, encoded but for its symbol.
  std::string Instruction(Bytes& b, uint64_t stmt) {
    uint64_t at = bytes[cur].size() + b.size();
    int op = src.weighted({2, 3, 3, 3, 2, 1});
    if (op == 0) {
      Le(b, 1, 4);
      return "nop";
    }
    if (op == 1) {
      uint64_t v = src.draw(1 << 24);
      b.push_back(2);
      Le(b, v, 3);
      return "li" + Space(true) + std::to_string(v);
    }
    static const char* const kOps[] = {"ref", "rel", "far", "even"};
    std::string name = kOps[op - 2], sym;
    uint64_t k = 0;
    if (op == 5) {
      // Needs a symbol with an even value.
      if (syms.empty()) {
        Le(b, 1, 4);
        return "nop";
      }
      auto it = syms.begin();
      std::advance(it, src.draw(syms.size()));
      if (it->second.offset % 2 != 0) {
        Le(b, 1, 4);
        return "nop";
      }
      sym = it->first;
    } else {
      sym = Symbol();
    }
    std::string s = name + Space(true) + sym;
    if (op == 4) {
      k = src.draw(100);
      s += "+" + std::to_string(k);
    }
    refs.push_back({name, sym, k, cur, at, stmt});
    Le(b, 0, op == 4 ? 8 : 4);
    return s;
  }
  void Statement() {
    statements++;
    uint64_t at = bytes[cur].size();
    std::string p = Prefix(0, true);
    Bytes b;
    std::string s;
    if (src.chance(10)) {
      ctx.label("continued line");
      int n = src.range(2, 3);
      s = "{ ";
      for (int i = 0; i < n; i++) s += (i > 0 ? " \\\n  " : "") + Instruction(b, at);
      s += " }";
    } else {
      s = Instruction(b, at);
    }
    Line(p + s + Space(false));
    bytes[cur].insert(bytes[cur].end(), b.begin(), b.end());
  }
  void Align() {
    uint64_t n = 1ull << src.weighted({1, 2, 3, 3, 2, 1, 1, 1});
    uint64_t to = (bytes[cur].size() + n - 1) / n * n;
    std::string p = Prefix(to - bytes[cur].size());
    Line(p + ".align" + Space(true) + (src.chance(70) ? std::to_string(n) : pbt::hex(n)));
    bytes[cur].resize(to);
    align[cur] = std::max(align[cur], n);
  }
  void SpaceDirective() {
    uint64_t n = src.chance(10) ? 0 : src.range(1, 40);
    std::string p = Prefix(n);
    Line(p + ".space" + Space(true) + (src.chance(70) ? std::to_string(n) : pbt::hex(n)));
    bytes[cur].resize(bytes[cur].size() + n);
  }
  void Global() {
    if (syms.empty()) return;
    std::string l;
    int n = src.range(1, 3);
    for (int i = 0; i < n; i++) {
      auto it = syms.begin();
      std::advance(it, src.draw(syms.size()));
      // The names of labels for .global have no dots.
      if (it->first.find('.') != std::string::npos) continue;
      l += (l.empty() ? "" : Space(false) + "," + Space(false)) + it->first;
      globals.insert(it->first);
    }
    if (l.empty()) return;
    Line(Space(true) + ".global" + Space(true) + l);
  }
  void Label() {
    std::string l = NewLabel();
    Define(l, 0, false);
    Line(l + Space(false) + ":" + Space(false));
  }
  void Item() {
    if (cur < 0 || src.chance(12)) {
      Switch(src.weighted({3, 3, 2}));
      return;
    }
    if (cur == kBss) {
      switch (src.weighted({3, 3, 2, 1})) {
        case 0: Label(); break;
        case 1: SpaceDirective(); break;
        case 2: Align(); break;
        default: Global(); break;
      }
      return;
    }
    bool text = cur == kText;
    switch (src.weighted({3, text ? 6 : 1, text ? 1 : 6, 1, 2, 1, 1})) {
      case 0: Label(); break;
      case 1: Statement(); break;
      case 2: Data(); break;
      case 3: SpaceDirective(); break;
      case 4: Align(); break;
      case 5: Global(); break;
      default: Line(src.flip() ? "" : Space(true)); break;
    }
  }
  void Finish() {
    // Define what was referred to.
    while (!pending.empty()) {
      if (cur < 0 || src.chance(30)) Switch(src.draw(3));
      std::string l = pending.back();
      pending.pop_back();
      Define(l, 0, false);
      Line(l + ":");
    }
  }
};

PBT_SUITE(assembler,
          "the program has three or more symbols, and an instruction that refers to one", 12000,
          500000) {
  int cls = src.chance(60) ? ELFIO::ELFCLASS64 : ELFIO::ELFCLASS32;
  bool exec = src.chance(60);
  bool own_resolver = exec && src.chance(25);
  Program p(src, ctx);
  p.comment = src.pick<std::string>({";", "#", "//"});
  p.externals = !exec || own_resolver;
  Target target;
  SimpleAssembler as(p.comment, cls, &target);
  ctx.label(exec ? "executable" : "relocatable");
  ctx.log(cls == ELFIO::ELFCLASS64 ? "64" : "32", exec ? " bits, executable" : " bits, relocatable",
          own_resolver ? ", own resolver" : "");
  if (!exec && src.chance(15)) {
    p.unit = src.pick<uint64_t>({2, 4, 8});
    as.set_data_address_unit(p.unit);
    ctx.label("data address unit");
    ctx.log("data address unit ", p.unit);
  }
  // Symbols of the user.
  if (src.chance(15)) {
    int s = src.draw(3);
    uint64_t off = src.draw(64);
    ctx.log("AddSymbol special in ", kSections[s], " at ", off);
    PBT_ASSERT(as.AddSymbol("special", off, 8, ELFIO::STT_OBJECT, ELFIO::STB_GLOBAL, 0, kSections[s]).ok());
    PBT_ASSERT(!as.AddSymbol("special", off, 8, ELFIO::STT_OBJECT, ELFIO::STB_GLOBAL, 0, kSections[s]).ok());
    PBT_ASSERT(!as.AddSymbol("other", 0, 0, 0, 0, 0, ".none").ok());
    p.syms["special"] = {s, off, 8, ELFIO::STT_OBJECT};
    p.globals.insert("special");
  }
  int error = src.chance(15) ? src.range(1, 18) : 0;
  bool parse_failed = false;
  auto parse = [&] {
    std::string t = p.text;
    if (!t.empty() && src.chance(20)) t.pop_back();
    std::istringstream is(t);
    auto status = as.Parse(is);
    if (!status.ok()) {
      if (error == 0) pbt::fail("Parse: " + std::string(status.message()));
      parse_failed = true;
    }
    p.text.clear();
  };
  if (error == 1) p.Line(src.pick<std::string>({" .word 5", "x0: .word 5", " nop", " ref ext0", "y0:", " .space 4", " .align 4"}));
  int items = src.weighted({3, 2}) == 0 ? src.range(1, 14) : src.range(14, 40);
  int second = src.chance(15) ? src.range(1, items) : -1;
  for (int i = 0; i < items; i++) {
    p.Item();
    if (i == second && error == 0) {
      p.Finish();
      if (!p.undefined.empty()) continue;  // Only once.
      ctx.label("two sources");
      ctx.log("-- next source");
      parse();
    }
  }
  p.Finish();
  if (error != 0) ctx.label("error");
  if (error > 1) {
    if (p.cur < 0 || p.cur == kBss) p.Switch(kData);
    switch (error) {
      case 2: {  // The same label again.
        std::string l = p.syms.empty() || p.syms.count("special") ? "again" : p.syms.begin()->first;
        auto once = [&] {
          switch (src.draw(3)) {
            case 0: p.Line(l + ":"); break;
            case 1: p.Line(l + ": .word 1"); break;
            default: p.Line(l + ": nop"); break;
          }
        };
        if (l == "again") once();
        once();
        break;
      }
      case 3:
        if (!exec || own_resolver) {
          error = 0;
        } else {
          p.Line(src.pick<std::string>({" ref nowhere", " rel nowhere", " far nowhere+1"}));
        }
        break;
      case 4: p.Line(src.pick<std::string>({" .word 1 2", " .word 1, foo", " .word foo", " .word 1x", " .long 0x"})); break;
      case 5: p.Line(src.pick<std::string>({" .char 'abc'", " .char a", " .char '\\q'", " .char 'a', b"})); break;
      case 6: p.Line(src.pick<std::string>({" .cstring abc", " .string \"a\" b", " .cstring \"a"})); break;
      case 7: p.Line(src.pick<std::string>({" .bytes -1", " .bytes 1, -2", " .bytes foo", " .bytes 99999999999"})); break;
      case 8: p.Line(src.pick<std::string>({" .global 1x", " .global a b", " .global 'a'"})); break;
      case 9: p.Line(src.pick<std::string>({" .foo 1", " .type x", " .sect .x", " .section x", " ."})); break;
      case 10: p.Line(" .align " + std::to_string(src.pick<int>({0, 3, 6, 12, 100}))); break;
      case 11: p.Line(src.pick<std::string>({" .align", " .align x", " .space", " .space x", " .space -1"})); break;
      case 12: p.Line(src.pick<std::string>({" fail", " nop 1 2", " li", "zz: fail"})); break;
      case 13:  // Fails in the second pass only.
        for (uint64_t n = p.bytes[p.cur].size();
             n / (p.cur == kText ? 1 : p.unit) % 2 == 0; n++) {
          p.Line(" .uchar 1");
        }
        p.Line("odd:");
        p.Line(" .uchar 1");
        p.Line(" even odd");
        break;
      case 14: p.Line(src.pick<std::string>({"label .word 1", " nop: nop nop", " nop .word 1"})); break;
      case 15:
        if (!exec) error = 0;
        break;  // The entry point is not defined.
      case 16: p.Line(src.pick<std::string>({" .uword -1", " .ulong -1", " .ushort -1", " .uchar -1"})); break;
      case 17: p.Line(src.pick<std::string>({" .ulong 18446744073709551616", " .long 9223372036854775808", " .uword 4294967296", " .word 2147483648"})); break;
      default: p.Line(src.pick<std::string>({" .word 1,,2", " .cstring \"a\",,\"b\"", " .word ,1"})); break;
    }
  }
  parse();
  if (parse_failed) return;

  // What the sections start with.
  uint64_t start[3] = {0, 0, 0};
  absl::Status status;
  uint64_t entry = 0;
  auto value = [&](const std::string& s) -> uint64_t {
    if (p.syms.count(s) != 0) return start[p.syms[s].section] + p.syms[s].offset;
    return own_resolver && s.substr(0, 3) == "ext" ? 0x1230 + 0x10 * (s[3] - '0') : 0;
  };
  if (exec) {
    uint64_t base = src.pick<uint64_t>({0x1000, 0, 0x10000, 0x80000000, 0x20000});
    if (cls == ELFIO::ELFCLASS64 && src.chance(15)) base = 0x4000000000ull;
    start[kText] = base;
    start[kData] = (base + p.bytes[kText].size() + 4095) / 4096 * 4096;
    if (src.chance(20)) {
      start[kData] = base + 0x100000;
      as.set_data_segment_start(start[kData]);
      ctx.log("data segment at ", pbt::hex(start[kData]));
    }
    uint64_t a = p.align[kBss];
    start[kBss] = (start[kData] + p.bytes[kData].size() + a - 1) / a * a;
    Externals ext;
    ResolverInterface* resolver = nullptr;
    if (own_resolver) {
      ext.inner = std::make_unique<SymbolResolver>(cls, as.symtab(), as.symbol_indices());
      resolver = &ext;
    }
    if (error == 15) {
      status = as.CreateExecutable(base, std::string("nowhere"), resolver);
    } else if (!p.syms.empty() && src.chance(60)) {
      auto it = p.syms.begin();
      std::advance(it, src.draw(p.syms.size()));
      entry = value(it->first);
      ctx.log("CreateExecutable ", pbt::hex(base), " ", it->first);
      status = as.CreateExecutable(base, it->first, resolver);
    } else {
      entry = base + src.draw(64);
      ctx.log("CreateExecutable ", pbt::hex(base), " ", pbt::hex(entry));
      if (src.flip()) {
        status = as.CreateExecutable(base, entry, resolver);
      } else {
        status = as.CreateExecutable(base, pbt::hex(entry), resolver);
      }
    }
  } else {
    status = as.CreateRelocatable();
  }
  if (error != 0) {
    if (status.ok()) pbt::fail("there is no error, kind " + std::to_string(error));
    return;
  }
  if (!status.ok()) pbt::fail("no file: " + std::string(status.message()));

  // Fill in the values of the symbols.
  for (auto& r : p.refs) {
    uint64_t v = value(r.sym);
    Bytes b;
    if (r.op == "ref") {
      b.push_back(3);
      Le(b, v, 3);
    } else if (r.op == "rel") {
      b.push_back(4);
      Le(b, v - (start[r.section] + r.offset), 3);
    } else if (r.op == "far") {
      Le(b, 5, 4);
      Le(b, v + r.k, 4);
    } else {
      b.push_back(6);
      Le(b, v, 3);
    }
    std::copy(b.begin(), b.end(), p.bytes[r.section].begin() + r.offset);
  }

  // The sections.
  auto& w = as.writer();
  PBT_EQ(w.get_type(), exec ? ELFIO::ET_EXEC : ELFIO::ET_REL);
  for (int s = 0; s < 3; s++) {
    auto* sec = w.sections[kSections[s]];
    PBT_ASSERT(sec != nullptr);
    PBT_EQ(sec->get_size(), p.bytes[s].size(), kSections[s]);
    PBT_ASSERT(sec->get_addr_align() % p.align[s] == 0, kSections[s] << " is not aligned enough");
    PBT_EQ(sec->get_type(), s == kBss ? ELFIO::SHT_NOBITS : ELFIO::SHT_PROGBITS);
    PBT_EQ(sec->get_flags(),
           ELFIO::SHF_ALLOC | (s == kText ? ELFIO::SHF_EXECINSTR : ELFIO::SHF_WRITE));
    if (s == kBss) continue;
    for (size_t i = 0; i < p.bytes[s].size(); i++) {
      uint8_t got = sec->get_data()[i];
      if (got != p.bytes[s][i]) {
        pbt::fail(std::string(kSections[s]) + "+" + pbt::hex(i) + " is " + pbt::hex(got) +
                  ", not " + pbt::hex(p.bytes[s][i]));
      }
    }
  }
  // The symbols.
  auto* symtab = w.sections[".symtab"];
  ELFIO::symbol_section_accessor access(w, symtab);
  std::map<std::string, int> seen;
  std::vector<std::string> names;
  bool local = true;
  for (unsigned i = 0; i < access.get_symbols_num(); i++) {
    std::string name;
    ELFIO::Elf64_Addr v = 0;
    ELFIO::Elf_Xword size = 0;
    unsigned char bind = 0, type = 0, other = 0;
    ELFIO::Elf_Half shndx = 0;
    PBT_ASSERT(access.get_symbol(i, name, v, size, bind, type, shndx, other));
    names.push_back(name);
    if (bind == ELFIO::STB_LOCAL) {
      PBT_ASSERT(local, "local symbol " << name << " after a global one");
    } else if (local) {
      local = false;
      PBT_EQ(symtab->get_info(), i, "index of the first global symbol");
    }
    if (i == 0) {
      PBT_ASSERT(name.empty() && v == 0 && shndx == 0);
      continue;
    }
    seen[name]++;
    if (p.syms.count(name) != 0) {
      auto& y = p.syms[name];
      PBT_EQ(v, value(name), name);
      PBT_EQ(shndx, w.sections[kSections[y.section]]->get_index(), name);
      PBT_EQ(bind, p.globals.count(name) ? ELFIO::STB_GLOBAL : ELFIO::STB_LOCAL, name);
      PBT_EQ(type, y.type, name);
      if (size != y.size) PBT_EQ(size, 0u, name);
      if (y.type != 0) PBT_EQ(size, y.size, name);
    } else if (p.undefined.count(name) != 0) {
      PBT_EQ(shndx, ELFIO::SHN_UNDEF, name);
      PBT_EQ(v, 0u, name);
      PBT_EQ(bind, ELFIO::STB_GLOBAL, name);
    } else {
      int s = name == ".text" ? kText : name == ".data" ? kData : kBss;
      PBT_EQ(name, kSections[s]);
      PBT_EQ(type, ELFIO::STT_SECTION);
      PBT_EQ(v, start[s], name);
    }
  }
  if (local) PBT_EQ(symtab->get_info(), names.size(), "number of local symbols");
  for (auto& [n, y] : p.syms) PBT_EQ(seen[n], 1, n);
  for (auto& n : p.undefined) PBT_EQ(seen[n], 1, n);

  // The relocations.
  for (int s = 0; s < 3; s++) {
    std::vector<const Ref*> want;
    for (auto& r : p.refs) {
      if (!exec && r.section == s && r.op != "even") want.push_back(&r);
    }
    auto* rela = w.sections[std::string(".rela") + kSections[s]];
    if (want.empty()) {
      PBT_ASSERT(rela == nullptr || rela->get_size() == 0);
      continue;
    }
    ctx.label("relocations");
    PBT_ASSERT(rela != nullptr);
    PBT_EQ(rela->get_type(), ELFIO::SHT_RELA);
    PBT_EQ(rela->get_link(), symtab->get_index());
    PBT_EQ(rela->get_info(), w.sections[kSections[s]]->get_index(), "section of the relocations");
    size_t ent = cls == ELFIO::ELFCLASS64 ? 24 : 12;
    PBT_EQ(rela->get_entry_size(), ent);
    PBT_EQ(rela->get_size(), ent * want.size());
    std::multiset<std::string> got, expect;
    for (size_t i = 0; i < want.size(); i++) {
      uint64_t off, info, type;
      int64_t addend;
      if (cls == ELFIO::ELFCLASS64) {
        ELFIO::Elf64_Rela r;
        memcpy(&r, rela->get_data() + i * ent, ent);
        off = r.r_offset;
        info = r.r_info >> 32;
        type = r.r_info & 0xffffffff;
        addend = r.r_addend;
      } else {
        ELFIO::Elf32_Rela r;
        memcpy(&r, rela->get_data() + i * ent, ent);
        off = r.r_offset;
        info = r.r_info >> 8;
        type = r.r_info & 0xff;
        addend = r.r_addend;
      }
      PBT_ASSERT(info < names.size());
      std::ostringstream a, b;
      a << off << " " << names[info] << " " << type << " " << addend;
      auto& r = *want[i];
      b << r.stmt << " " << r.sym << " " << (r.op == "ref" ? 1 : r.op == "rel" ? 2 : 7) << " " << r.k;
      got.insert(a.str());
      expect.insert(b.str());
    }
    for (auto& x : expect) {
      if (got.count(x) != expect.count(x)) pbt::fail("relocation missing: " + x);
    }
  }

  // The file, and the program as it is loaded.
  {
    std::ostringstream bad;
    bad.setstate(std::ios::failbit);
    PBT_ASSERT(!as.Write(bad).ok(), "a failed write");
  }
  std::ostringstream os;
  PBT_ASSERT(as.Write(os).ok());
  if (exec) {
    PBT_EQ(w.get_entry(), entry);
    std::string path = pbt::scratch_dir() + "/out.elf";
    elfgen::WriteFile(path, os.str());
    Memory mem;
    ElfProgramLoader loader(&mem);
    auto res = loader.LoadProgram(path);
    PBT_ASSERT(res.ok());
    PBT_EQ(*res, entry, "entry point of the file");
    for (int s = 0; s < 2; s++) {
      for (size_t i = 0; i < p.bytes[s].size(); i++) {
        auto it = mem.image.find(start[s] + i);
        PBT_ASSERT(it != mem.image.end() && it->second == p.bytes[s][i],
                   kSections[s] << "+" << i << " as loaded");
      }
    }
    for (auto& [n, y] : p.syms) {
      auto sym = loader.GetSymbol(n);
      PBT_ASSERT(sym.ok(), n);
      PBT_EQ(sym->first, value(n), n << " as loaded");
    }
    // The segments hold all of their sections.
    for (int s = 0; s < 3; s++) {
      if (p.bytes[s].empty()) continue;
      bool found = false;
      for (auto& g : loader.elf_reader()->segments) {
        found |= g->get_virtual_address() <= start[s] &&
                 g->get_virtual_address() + g->get_memory_size() >= start[s] + p.bytes[s].size() &&
                 ((g->get_flags() & ELFIO::PF_X) != 0) == (s == kText) &&
                 ((g->get_flags() & ELFIO::PF_W) != 0) == (s != kText);
      }
      PBT_ASSERT(found, kSections[s] << " is in no segment");
    }
  }
  if (p.align[0] > 16 || p.align[1] > 16 || p.align[2] > 16) ctx.label("aligned to more than 16");
  ctx.nontrivial_if(p.syms.size() >= 3 && !p.refs.empty());
}

}  // namespace
