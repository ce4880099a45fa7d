// C35: proto instruction descriptions (.proto_fmt), and the decoders emitted for
// them.
#include <dlfcn.h>
#include <google/protobuf/message.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "mpact/sim/decoder/proto_constraint_expression.h"
#include "mpact/sim/decoder/proto_constraint_value_set.h"
#include "mpact/sim/decoder/proto_format_visitor.h"
#include "mpact/sim/decoder/proto_instruction_encoding.h"
#include "pbt.h"
#include "proto_schema.pb.h"

namespace {

using google::protobuf::Descriptor;
using google::protobuf::EnumValueDescriptor;
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;
using google::protobuf::OneofDescriptor;
using mpact::sim::decoder::proto_fmt::ProtoFormatVisitor;
using FD = FieldDescriptor;
using I128 = __int128;

// ---- The schema ----

using Path = std::vector<const FD*>;

std::string Text(const Path& p) {
  std::string s;
  for (auto* f : p) s += (s.empty() ? "" : ".") + f->name();
  return s;
}
bool IsInt(const FD* f) {
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32:
    case FD::CPPTYPE_INT64:
    case FD::CPPTYPE_UINT32:
    case FD::CPPTYPE_UINT64:
    case FD::CPPTYPE_ENUM:
      return true;
    default:
      return false;
  }
}
bool IsMsg(const FD* f) { return f->cpp_type() == FD::CPPTYPE_MESSAGE; }
// All fields that can be named, to a depth.
void AllPaths(const Descriptor* d, Path at, int depth, std::vector<Path>* out) {
  for (int i = 0; i < d->field_count(); i++) {
    Path p = at;
    p.push_back(d->field(i));
    out->push_back(p);
    if (IsMsg(d->field(i)) && depth > 1) AllPaths(d->field(i)->message_type(), p, depth - 1, out);
  }
}
struct Schema {
  const Descriptor* msg;
  std::vector<Path> all, scalars, ints, members, top_ints, plain_ints;
  explicit Schema(const Descriptor* m) : msg(m) {
    AllPaths(m, {}, 3, &all);
    for (auto& p : all) {
      if (p.back()->containing_oneof() != nullptr) members.push_back(p);
      if (IsMsg(p.back())) continue;
      scalars.push_back(p);
      if (!IsInt(p.back())) continue;
      ints.push_back(p);
      if (p.size() == 1 && p[0]->containing_oneof() == nullptr) top_ints.push_back(p);
      bool plain = true;
      for (auto* f : p) plain &= f->containing_oneof() == nullptr;
      if (plain) plain_ints.push_back(p);
    }
  }
};
const Schema& InstSchema() {
  static Schema s(vp::t::Inst::descriptor());
  return s;
}
const Schema& TinySchema() {
  static Schema s(vp::t::Tiny::descriptor());
  return s;
}

// ---- What a message holds ----

struct Val {
  int kind = 0;  // 0 integer (also an enumerator), 1 bool, 2 string, 3 double
  I128 i = 0;
  std::string s;
  double d = 0;
};
std::string Dec(I128 v) {
  if (v < 0) return "-" + Dec(-v);
  std::string s;
  do {
    s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
    v /= 10;
  } while (v != 0);
  return s;
}
std::string Show(const Val& v) {
  return v.kind == 0 ? Dec(v.i) : v.kind == 1 ? (v.i ? "true" : "false") : v.kind == 2 ? "\"" + v.s + "\"" : std::to_string(v.d);
}

Val Get(const Message& m, const FD* f) {
  auto* r = m.GetReflection();
  Val v;
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: v.i = r->GetInt32(m, f); break;
    case FD::CPPTYPE_INT64: v.i = r->GetInt64(m, f); break;
    case FD::CPPTYPE_UINT32: v.i = r->GetUInt32(m, f); break;
    case FD::CPPTYPE_UINT64: v.i = r->GetUInt64(m, f); break;
    case FD::CPPTYPE_ENUM: v.i = r->GetEnumValue(m, f); break;
    case FD::CPPTYPE_BOOL: v.kind = 1; v.i = r->GetBool(m, f); break;
    case FD::CPPTYPE_STRING: v.kind = 2; v.s = r->GetString(m, f); break;
    case FD::CPPTYPE_DOUBLE: v.kind = 3; v.d = r->GetDouble(m, f); break;
    default: break;
  }
  return v;
}
struct Found {
  bool members_set = true;  // every member of a oneof on the way is the one that is set
  bool present = false;
  Val val;
};
Found Look(const Message& top, const Path& p) {
  const Message* m = &top;
  Found o;
  for (size_t i = 0; i < p.size(); i++) {
    auto* r = m->GetReflection();
    if (p[i]->containing_oneof() != nullptr && !r->HasField(*m, p[i])) o.members_set = false;
    if (i + 1 == p.size()) {
      o.present = r->HasField(*m, p[i]);
      if (!IsMsg(p[i])) o.val = Get(*m, p[i]);
    } else {
      m = &r->GetMessage(*m, p[i]);
    }
  }
  return o;
}

// ---- The description ----

enum Op { kEq, kNe, kLt, kLe, kGt, kGe, kHas };
const char* kOpText[] = {"==", "!=", "<", "<=", ">", ">=", "HAS"};

struct Con {
  Op op;
  Path path;
  Val lit;
  std::string lit_text;
};
struct Setter {
  std::string name;
  Path path;
  bool if_not = false;
  Val def;
  std::string def_text;
};
struct Ins {
  std::string name;
  std::vector<Con> cons;
  std::vector<Setter> setters;
  std::vector<int> refs;  // setter groups
};
struct Group {
  std::string name, msg_text;
  const Schema* schema;
  std::vector<std::pair<std::string, std::vector<Setter>>> setter_groups;
  std::vector<Ins> ins;
  bool must_accept = true;
  std::vector<int> children;  // of a parent group
};
struct Desc {
  std::vector<Group> groups;
  std::vector<int> listed;
  std::string main_text, more_text;
  bool must_accept = true;
};

bool Holds(const Con& c, const Message& m) {
  auto f = Look(m, c.path);
  if (!f.members_set) return false;
  if (c.op == kHas) return f.present;
  int cmp;  // of the field with the literal
  if (c.lit.kind == 2) {
    cmp = f.val.s == c.lit.s ? 0 : f.val.s < c.lit.s ? -1 : 1;
  } else if (f.val.kind == 3) {
    double l = static_cast<double>(c.lit.i);
    cmp = f.val.d == l ? 0 : f.val.d < l ? -1 : 1;
  } else {
    cmp = f.val.i == c.lit.i ? 0 : f.val.i < c.lit.i ? -1 : 1;
  }
  switch (c.op) {
    case kEq: return cmp == 0;
    case kNe: return cmp != 0;
    case kLt: return cmp < 0;
    case kLe: return cmp <= 0;
    case kGt: return cmp > 0;
    default: return cmp >= 0;
  }
}
bool Matches(const Ins& i, const Message& m) {
  for (auto& c : i.cons)
    if (!Holds(c, m)) return false;
  return true;
}

// The members of oneofs that an instruction requires.
using Members = std::map<const OneofDescriptor*, const FD*>;
void Require(const Path& p, Members* m, bool* clash) {
  for (auto* f : p) {
    if (f->containing_oneof() == nullptr) continue;
    auto [it, fresh] = m->emplace(f->containing_oneof(), f);
    if (!fresh && it->second != f) *clash = true;
  }
}
bool Clashes(const Members& m, const Path& p) {
  Members c = m;
  bool clash = false;
  Require(p, &c, &clash);
  return clash;
}
Members RequiredBy(const Ins& i) {
  Members m;
  bool clash = false;
  for (auto& c : i.cons) Require(c.path, &m, &clash);
  return m;
}

class Gen {
 public:
  Gen(pbt::Src& s) : s_(s) {}

  Desc Make(int max_groups, int max_ins) {
    Desc d;
    int n = s_.range(1, max_groups);
    for (int i = 0; i < n; i++) {
      d.groups.push_back(MakeGroup(max_ins));
      d.listed.push_back(i);
    }
    // A parent of two groups with the same message.
    if (n >= 2 && s_.chance(25) && d.groups[0].schema == d.groups[1].schema) {
      Group p;
      p.name = "all" + std::to_string(count_++);
      p.schema = d.groups[0].schema;
      p.children = {0, 1};
      p.must_accept = false;
      d.groups.push_back(p);
      d.listed.erase(d.listed.begin(), d.listed.begin() + 2);
      d.listed.insert(d.listed.begin() + s_.draw(d.listed.size() + 1), static_cast<int>(d.groups.size()) - 1);
    }
    for (int l : d.listed) d.must_accept &= d.groups[l].must_accept;
    if (mixed_) d.must_accept = false;
    Print(&d);
    return d;
  }

  static I128 Max(const FD* f) {
    switch (f->cpp_type()) {
      case FD::CPPTYPE_UINT32: return 0xffffffffu;
      case FD::CPPTYPE_INT64: return INT64_MAX;
      case FD::CPPTYPE_UINT64: return INT64_MAX;
      case FD::CPPTYPE_DOUBLE: return 100000;
      default: return INT32_MAX;
    }
  }

  // The text of an integer.
  std::string Number(I128 v, bool is_unsigned) {
    uint64_t u = static_cast<uint64_t>(v);
    std::string t;
    char b[40];
    switch (s_.weighted({6, 2, 1, 1})) {
      case 0: t = std::to_string(u); break;
      case 1:
        snprintf(b, sizeof b, s_.flip() ? "0x%llx" : "0x%llX", static_cast<unsigned long long>(u));
        return b;
      case 2: t = std::to_string(u); break;
      default:
        t = std::to_string(u);
        if (t.size() > 3) t.insert(t.size() - 3, "'");
        return t;
    }
    if (u != 0 && s_.chance(20)) t += is_unsigned ? s_.pick<const char*>({"u", "U", "ull", "LLU", "l"}) : s_.pick<const char*>({"l", "LL", "ll"});
    return t;
  }

  I128 Value(const FD* f, bool small) {
    I128 v;
    if (small) {
      v = s_.draw(12);
    } else {
      switch (s_.weighted({6, 2, 2})) {
        case 0: v = s_.draw(12); break;
        case 1: v = s_.pick<int64_t>({100, 1000, 65536, INT32_MAX, 0xffffffffLL, 0x80000000LL, 5000000000LL, INT64_MAX}); break;
        default: v = s_.draw(100000); break;
      }
    }
    return std::min(v, Max(f));
  }

  Con Compare(const Path& p, Op op, bool small, const I128* value = nullptr) {
    Con c{op, p};
    auto* f = p.back();
    switch (f->cpp_type()) {
      case FD::CPPTYPE_ENUM: {
        auto* e = f->enum_type();
        auto* v = value != nullptr ? e->FindValueByNumber(static_cast<int>(*value))
                                   : e->value(s_.draw(e->value_count()));
        c.lit.i = v->number();
        c.lit_text = v->name();
        break;
      }
      case FD::CPPTYPE_BOOL:
        c.lit.kind = 1;
        c.lit.i = s_.flip();
        c.lit_text = c.lit.i ? "true" : "false";
        if (op != kEq && op != kNe) c.op = kEq;
        break;
      case FD::CPPTYPE_STRING:
        c.lit.kind = 2;
        c.lit.s = s_.pick<const char*>({"", "a", "b", "ab c", "mul.w"});
        c.lit_text = "\"" + c.lit.s + "\"";
        if (op != kEq && op != kNe) c.op = kNe;
        break;
      default:
        c.lit.i = value != nullptr ? *value : Value(f, small);
        c.lit_text = Number(c.lit.i, f->cpp_type() == FD::CPPTYPE_UINT32 || f->cpp_type() == FD::CPPTYPE_UINT64);
    }
    return c;
  }

  std::vector<Setter> Setters(const Schema& sc, const Members& m, std::set<std::string>* used, int n) {
    std::vector<Setter> out;
    for (int i = 0; i < n; i++) {
      Setter t;
      t.path = s_.pick(sc.scalars);
      if (Clashes(m, t.path)) continue;
      auto* f = t.path.back();
      std::string cls = IsInt(f) ? "int" : f->cpp_type() == FD::CPPTYPE_BOOL ? "bool" : f->cpp_type() == FD::CPPTYPE_STRING ? "str" : "dbl";
      // Names are of one type, or of several integer types.
      if (cls == "int" && s_.chance(25)) {
        t.name = s_.pick<const char*>({"rd", "imm_val", "B_imm12"});
        auto [it, fresh] = type_.emplace(t.name, f->cpp_type());
        if (!fresh && it->second != f->cpp_type()) mixed_ = true;
      } else {
        t.name = s_.pick<const char*>({"x", "y_", "val"}) + cls + std::to_string(cls == "int" ? (f->cpp_type() == FD::CPPTYPE_ENUM ? 1 : f->cpp_type()) : 0);
      }
      if (!used->insert(t.name).second) continue;
      if (s_.chance(35)) {
        t.if_not = true;
        if (cls == "int" || cls == "dbl") {
          t.def.i = s_.draw(200);
          t.def_text = std::to_string(static_cast<int>(t.def.i));
          if (cls == "dbl") t.def.kind = 3, t.def.d = static_cast<double>(t.def.i);
        } else if (cls == "bool") {
          t.def.kind = 1;
          t.def.i = s_.flip();
          t.def_text = t.def.i ? "true" : "false";
        } else {
          t.def.kind = 2;
          t.def.s = s_.pick<const char*>({"none", "", "d e"});
          t.def_text = "\"" + t.def.s + "\"";
        }
      }
      out.push_back(t);
    }
    return out;
  }

  void Extra(const Schema& sc, Ins* in, const Path* avoid, bool small) {
    Members m = RequiredBy(*in);
    Con c;
    switch (s_.weighted({4, 4, 2})) {
      case 0: c = Con{kHas, s_.chance(75) ? s_.pick(sc.members) : s_.pick(sc.all)}; break;
      case 1: c = Compare(s_.pick(sc.scalars), static_cast<Op>(s_.draw(6)), small); break;
      default: c = Compare(s_.pick(sc.top_ints), static_cast<Op>(s_.draw(6)), small); break;
    }
    if (Clashes(m, c.path)) return;
    if (avoid != nullptr && c.path == *avoid) return;
    for (auto& o : in->cons)
      if (Gen::Print(o) == Gen::Print(c)) return;
    in->cons.insert(in->cons.begin() + s_.draw(in->cons.size() + 1), c);
  }

  Group MakeGroup(int max_ins) {
    Group g;
    g.name = s_.pick<const char*>({"grp", "my_insts", "G"}) + std::to_string(count_++);
    g.schema = s_.chance(75) ? &InstSchema() : &TinySchema();
    auto& sc = *g.schema;
    g.msg_text = s_.flip() ? sc.msg->name() : sc.msg->full_name();
    int n = s_.range(1, max_ins);
    int style = s_.weighted({5, 3, 2, 2});
    Path key = s_.chance(70) ? s_.pick(sc.top_ints) : s_.pick(sc.plain_ints);
    std::set<I128> taken;
    bool sparse = s_.chance(40);
    int base = s_.draw(6);
    Path second = s_.pick(sc.plain_ints);
    std::vector<I128> cuts;
    for (int i = 0; i < n; i++) {
      Ins in;
      in.name = s_.pick<const char*>({"add", "i_x", "op"}) + std::to_string(count_++);
      if (style == 0) {  // told apart by the value of one field
        I128 v;
        bool fresh = false;
        for (int t = 0;; t++) {
          if (key.back()->cpp_type() == FD::CPPTYPE_ENUM) {
            auto* e = key.back()->enum_type();
            v = e->value(s_.draw(e->value_count()))->number();
          } else {
            v = sparse ? Value(key.back(), false) : base + static_cast<int>(s_.draw(n + 3));
          }
          fresh = taken.insert(v).second;
          if (fresh || t > 8) break;
        }
        if (!fresh) continue;
        in.cons.push_back(Compare(key, kEq, true, &v));
        int more = s_.weighted({4, 3, 2, 1});
        for (int k = 0; k < more; k++) Extra(sc, &in, &key, s_.flip());
      } else if (style == 1) {  // anything
        int more = s_.range(1, 4);
        for (int k = 0; k < more; k++) Extra(sc, &in, nullptr, true);
        if (in.cons.empty()) in.cons.push_back(Compare(s_.pick(sc.top_ints), kEq, true));
      } else if (style == 2) {  // two fields together
        in.cons.push_back(Compare(key, kEq, true));
        if (second != key) in.cons.push_back(Compare(second, kEq, true));
        if (s_.chance(30)) Extra(sc, &in, nullptr, true);
        if (s_.chance(20)) in.cons.erase(in.cons.begin());
        if (in.cons.empty()) in.cons.push_back(Compare(key, kEq, true));
      } else {  // by the member of a oneof, or by the range of a value
        if (s_.flip()) in.cons.push_back(Con{kHas, s_.pick(sc.members)});
        if (in.cons.empty() || s_.flip()) {
          int lo = static_cast<int>(s_.draw(20));
          Path p = key.back()->cpp_type() == FD::CPPTYPE_ENUM ? sc.top_ints.back() : key;
          I128 a = lo, b = lo + s_.draw(5);
          in.cons.push_back(Compare(p, s_.flip() ? kGe : kGt, true, p.back()->cpp_type() == FD::CPPTYPE_ENUM ? nullptr : &a));
          in.cons.push_back(Compare(p, s_.flip() ? kLe : kLt, true, p.back()->cpp_type() == FD::CPPTYPE_ENUM ? nullptr : &b));
        }
      }
      g.ins.push_back(in);
    }
    if (g.ins.empty()) {
      Ins in;
      in.name = "only" + std::to_string(count_++);
      in.cons.push_back(Compare(sc.top_ints[0], kEq, true));
      g.ins.push_back(in);
    }
    g.must_accept = style == 0;
    // Setters; those of a setter group must suit each instruction that uses it.
    std::vector<std::set<std::string>> used(g.ins.size());
    if (s_.chance(40)) {
      int ng = s_.range(1, 2);
      for (int k = 0; k < ng; k++) {
        std::set<std::string> u;
        auto ss = Setters(sc, {}, &u, s_.range(1, 3));
        if (ss.empty()) continue;
        g.setter_groups.push_back({"sg" + std::to_string(count_++), ss});
        for (size_t i = 0; i < g.ins.size(); i++) {
          if (!s_.flip()) continue;
          bool ok = true;
          Members m = RequiredBy(g.ins[i]);
          for (auto& t : ss) ok &= !Clashes(m, t.path) && used[i].count(t.name) == 0;
          if (!ok) continue;
          g.ins[i].refs.push_back(static_cast<int>(g.setter_groups.size()) - 1);
          used[i].insert(u.begin(), u.end());
        }
      }
    }
    for (size_t i = 0; i < g.ins.size(); i++)
      g.ins[i].setters = Setters(sc, RequiredBy(g.ins[i]), &used[i], s_.weighted({3, 3, 2, 1}));
    return g;
  }

  static std::string Print(const Setter& t) {
    return t.name + " = " + Text(t.path) + (t.if_not ? " || " + t.def_text : "") + ";\n";
  }
  static std::string Print(const Con& c) {
    return c.op == kHas ? "HAS(" + Text(c.path) + ")" : Text(c.path) + " " + kOpText[c.op] + " " + c.lit_text;
  }
  static std::string Print(const Group& g) {
    std::string t = "instruction group " + g.name + " : " + g.msg_text + " {\n";
    for (auto& [n, ss] : g.setter_groups) {
      t += "  setter " + n + ":\n";
      for (auto& s : ss) t += "    " + Print(s);
    }
    for (auto& in : g.ins) {
      t += "  " + in.name + ": ";
      for (size_t i = 0; i < in.cons.size(); i++) t += (i ? ", " : "") + Print(in.cons[i]);
      t += ";\n";
      for (int r : in.refs) t += "    " + g.setter_groups[r].first + ";\n";
      for (auto& s : in.setters) t += "    " + Print(s);
    }
    return t + "}\n";
  }
  void Print(Desc* d) {
    std::string dec = "decoder Dec {\n  namespace vp::gen;\n  opcode_enum = \"OpcodeEnum\";\n"
                      "  includes {\n    #include \"opcodes.h\"\n  }\n";
    for (int l : d->listed) {
      auto& g = d->groups[l];
      if (g.children.empty()) {
        dec += "  " + g.name + ";\n";
      } else {
        dec += "  " + g.name + " = {" + d->groups[g.children[0]].name + ", " + d->groups[g.children[1]].name + "};\n";
      }
    }
    dec += "}\n";
    std::string use = "using vp.t.Inst;\nusing Tiny = vp.t.Tiny;\n";
    bool first = s_.flip();
    d->main_text = (first ? dec : "") + use;
    for (auto& g : d->groups) {
      if (!g.children.empty()) continue;
      (s_.chance(15) ? d->more_text : d->main_text) += Print(g);
    }
    if (!first) d->main_text += dec;
    if (!d->more_text.empty())
      d->main_text = s_.flip() ? "#include \"more.proto_fmt\"\n" + d->main_text : d->main_text + "#include \"more.proto_fmt\"\n";
  }

 private:
  pbt::Src& s_;
  int count_ = 0;
  bool mixed_ = false;
  std::map<std::string, FD::CppType> type_;
};

void WriteFile(const std::string& p, const std::string& t) { std::ofstream(p) << t; }
std::string ReadFile(const std::string& p) {
  std::ifstream i(p);
  return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}
std::string Pascal(const std::string& s) {
  std::string o;
  bool up = true;
  for (char c : s) {
    if (c == '_') {
      up = true;
    } else {
      o += up ? static_cast<char>(toupper(c)) : c;
      up = false;
    }
  }
  return o;
}

absl::Status Generate(const std::string& dir, const Desc& d, const std::string& decoder = "Dec") {
  WriteFile(dir + "/d.proto_fmt", d.main_text);
  unlink((dir + "/more.proto_fmt").c_str());
  if (!d.more_text.empty()) WriteFile(dir + "/more.proto_fmt", d.more_text);
  auto v = std::make_unique<ProtoFormatVisitor>();
  return v->Process({dir + "/d.proto_fmt"}, decoder, "p", {dir}, {VERIF_HARNESS}, {"proto_schema.proto"}, dir);
}

// The instructions of a listed group.
std::vector<const Ins*> InsOf(const Desc& d, int l) {
  std::vector<const Ins*> o;
  auto add = [&](const Group& g) {
    for (auto& i : g.ins) o.push_back(&i);
  };
  if (d.groups[l].children.empty()) {
    add(d.groups[l]);
  } else {
    for (int c : d.groups[l].children) add(d.groups[c]);
  }
  return o;
}
std::vector<Setter> SettersOf(const Desc& d, int l, const Ins* in) {
  std::vector<Setter> o = in->setters;
  auto gs = d.groups[l].children.empty() ? std::vector<int>{l} : d.groups[l].children;
  for (int g : gs)
    for (auto& i : d.groups[g].ins)
      if (&i == in)
        for (int r : i.refs) o.insert(o.end(), d.groups[g].setter_groups[r].second.begin(), d.groups[g].setter_groups[r].second.end());
  return o;
}

// ---- Messages ----

struct Rng {
  uint64_t x;
  uint64_t next() {
    x += 0x9e3779b97f4a7c15ULL;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t draw(uint64_t n) { return next() % n; }
  bool chance(int p) { return draw(100) < static_cast<uint64_t>(p); }
};

void SetInt(Message* m, const FD* f, I128 v) {
  auto* r = m->GetReflection();
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: r->SetInt32(m, f, static_cast<int32_t>(v)); break;
    case FD::CPPTYPE_INT64: r->SetInt64(m, f, static_cast<int64_t>(v)); break;
    case FD::CPPTYPE_UINT32: r->SetUInt32(m, f, static_cast<uint32_t>(v)); break;
    case FD::CPPTYPE_UINT64: r->SetUInt64(m, f, static_cast<uint64_t>(v)); break;
    case FD::CPPTYPE_ENUM:
      if (f->enum_type()->FindValueByNumber(static_cast<int>(v)) != nullptr) r->SetEnumValue(m, f, static_cast<int>(v));
      break;
    case FD::CPPTYPE_BOOL: r->SetBool(m, f, v != 0); break;
    case FD::CPPTYPE_DOUBLE: r->SetDouble(m, f, static_cast<double>(v)); break;
    default: break;
  }
}
void Randomize(Message* m, const FD* f, Rng& g) {
  auto* r = m->GetReflection();
  switch (f->cpp_type()) {
    case FD::CPPTYPE_ENUM: r->SetEnum(m, f, f->enum_type()->value(g.draw(f->enum_type()->value_count()))); break;
    case FD::CPPTYPE_STRING: {
      const char* t[] = {"", "a", "b", "ab c", "mul.w", "zz"};
      r->SetString(m, f, t[g.draw(6)]);
      break;
    }
    case FD::CPPTYPE_DOUBLE: r->SetDouble(m, f, (static_cast<double>(g.draw(40)) - 10) / 2); break;
    default:
      switch (g.draw(5)) {
        case 0: SetInt(m, f, static_cast<I128>(g.next())); break;
        case 1: {
          int64_t t[] = {-1, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, 0xffffffffLL, 0x80000000LL, 0x100000001LL};
          SetInt(m, f, t[g.draw(8)]);
          break;
        }
        default: SetInt(m, f, static_cast<I128>(g.draw(16)));
      }
  }
}
void Fill(Message* m, Rng& g, int depth) {
  auto* d = m->GetDescriptor();
  auto* r = m->GetReflection();
  for (int i = 0; i < d->field_count(); i++) {
    auto* f = d->field(i);
    if (!g.chance(45)) continue;
    if (IsMsg(f)) {
      Message* s = r->MutableMessage(m, f);
      if (depth > 0) Fill(s, g, depth - 1);
    } else {
      Randomize(m, f, g);
    }
  }
}
void Satisfy(Message* top, const Con& c, Rng& g) {
  Message* m = top;
  for (size_t i = 0; i + 1 < c.path.size(); i++) m = m->GetReflection()->MutableMessage(m, c.path[i]);
  auto* f = c.path.back();
  auto* r = m->GetReflection();
  if (c.op == kHas) {
    if (r->HasField(*m, f)) return;
    if (IsMsg(f)) {
      r->MutableMessage(m, f);
    } else {
      Randomize(m, f, g);
    }
    return;
  }
  if (Holds(c, *top) && g.chance(70)) return;
  for (int t = 0; t < 12; t++) {
    if (c.lit.kind == 2) {
      if (t == 0 && c.op == kEq) {
        r->SetString(m, f, c.lit.s);
      } else {
        Randomize(m, f, g);
      }
    } else if (t < 6) {
      SetInt(m, f, c.lit.i + (c.op == kEq ? 0 : static_cast<int>(g.draw(3)) - 1));
    } else {
      Randomize(m, f, g);
    }
    if (Holds(c, *top)) return;
  }
}
// One step away from where it is.
void Nudge(Message* top, const Path& p, Rng& g) {
  Message* m = top;
  for (size_t i = 0; i + 1 < p.size(); i++) m = m->GetReflection()->MutableMessage(m, p[i]);
  auto* f = p.back();
  auto* r = m->GetReflection();
  if (g.chance(25)) {
    r->ClearField(m, f);
  } else if (IsMsg(f)) {
    r->MutableMessage(m, f);
  } else if (IsInt(f) && f->cpp_type() != FD::CPPTYPE_ENUM && g.chance(60)) {
    SetInt(m, f, Get(*m, f).i + (g.chance(50) ? 1 : -1));
  } else {
    Randomize(m, f, g);
  }
}

void* CompileAndLoad(const std::string& dir, const std::string& glue, std::string* log) {
  WriteFile(dir + "/glue.cc", glue);
  static int n = 0;
  std::string so = dir + "/g" + std::to_string(n++) + ".so";
  std::string cmd = "cd '" + dir + "' && " VERIF_CXX " " VERIF_EMITTED_FLAGS
                    " -shared -I. -include-pch " VERIF_PCH " glue.cc -o '" + so + "' >cc.log 2>&1";
  int rc = system(cmd.c_str());
  if (rc != 0) {
    *log = ReadFile(dir + "/cc.log").substr(0, 1500);
    return nullptr;
  }
  void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (h == nullptr) *log = dlerror();
  unlink(so.c_str());
  return h;
}

struct Heard {
  std::map<std::string, std::pair<std::string, std::string>> vals;
};
void Hear(void* x, const char* n, const char* t, const char* v) {
  static_cast<Heard*>(x)->vals[n] = {t, v};
}

void LogDesc(pbt::Ctx& ctx, const Desc& d) {
  if (!ctx.logging()) return;
  ctx.log("description:\n" + d.main_text);
  if (!d.more_text.empty()) ctx.log("more.proto_fmt:\n" + d.more_text);
}

// The fields that are compared, and the members that must be set for that.
std::set<std::string> PathsOf(const Ins& in) {
  std::set<std::string> o;
  for (auto& c : in.cons) {
    Path p;
    for (auto* f : c.path) {
      p.push_back(f);
      if (f->containing_oneof() != nullptr) o.insert(Text(p));
    }
    o.insert((c.op == kHas ? "" : "=") + Text(c.path));
  }
  return o;
}

PBT_SUITE(emitted_decoders, "an accepted description; messages decoded to an instruction and to none", 110, 4000) {
  Gen gen(src);
  Desc d = gen.Make(4, 8);
  LogDesc(ctx, d);
  std::string dir = pbt::scratch_dir();
  auto st = Generate(dir, d);
  if (!st.ok()) {
    PBT_ASSERT(!d.must_accept, "a correct description is refused: " << std::string(st.message()));
    ctx.label("refused");
    ctx.leaks_are_fine();
    ctx.nontrivial_if(false);
    return;
  }
  std::map<int, const Ins*> by_op;
  std::string e = "#ifndef OPCODES_H\n#define OPCODES_H\nnamespace vp { namespace gen {\nenum class OpcodeEnum { kNone = 0";
  std::set<std::string> names;
  int k = 1;
  for (auto& g : d.groups) {
    for (auto& i : g.ins) {
      e += ", k" + Pascal(i.name) + " = " + std::to_string(k);
      by_op[k++] = &i;
    }
  }
  for (int l : d.listed)
    for (auto* i : InsOf(d, l))
      for (auto& t : SettersOf(d, l, i)) names.insert(t.name);
  for (auto& g : d.groups)
    if (std::find(d.listed.begin(), d.listed.end(), &g - &d.groups[0]) != d.listed.end() || !g.children.empty() || true)
      for (auto& sg : g.setter_groups)
        for (auto& t : sg.second) names.insert(t.name);
  WriteFile(dir + "/opcodes.h", e + "};\n} }\n#endif\n");
  std::string glue = "#include \"p_proto_decoder.h\"\n#include \"p_proto_decoder.cc\"\nusing namespace vp::gen;\n";
  std::string preset, tell;
  for (auto& n : names) {
    preset += "  d.Set" + Pascal(n) + "(vp::Sentinel<decltype(d.Get" + Pascal(n) + "())>());\n";
    tell += "  vp::Tell(e, x, \"" + n + "\", d.Get" + Pascal(n) + "());\n";
  }
  for (int l : d.listed) {
    auto& g = d.groups[l];
    glue += "extern \"C\" int dec" + std::to_string(l) + "(const google::protobuf::Message* m, vp::Emit e, void* x) {\n"
            "  DecDecoder d;\n" + preset + "  int r = static_cast<int>(d.Decode" + Pascal(g.name) + "(*static_cast<const vp::t::" +
            g.schema->msg->name() + "*>(m)));\n" + tell + "  return r;\n}\n";
  }
  std::string log;
  void* h = CompileAndLoad(dir, glue, &log);
  PBT_ASSERT(h != nullptr, "the emitted code does not compile: " << log);
  int hits = 0, none = 0, sets = 0;
  Rng rng{src.u64()};
  for (int l : d.listed) {
    auto fn = reinterpret_cast<int (*)(const Message*, void (*)(void*, const char*, const char*, const char*), void*)>(
        dlsym(h, ("dec" + std::to_string(l)).c_str()));
    auto ins = InsOf(d, l);
    auto& sc = *d.groups[l].schema;
    int n = 40 + 12 * static_cast<int>(ins.size());
    for (int t = 0; t < n; t++) {
      std::unique_ptr<Message> m;
      if (&sc == &InstSchema()) {
        m = std::make_unique<vp::t::Inst>();
      } else {
        m = std::make_unique<vp::t::Tiny>();
      }
      if (t > 0 && rng.chance(90)) Fill(m.get(), rng, 2);
      if (t % 8 != 0) {
        auto* in = ins[t % ins.size()];
        for (int k = 0; k < 2; k++)
          for (auto& c : in->cons) Satisfy(m.get(), c, rng);
        for (auto& s : SettersOf(d, l, in)) {
          if (rng.chance(30) && !Clashes(RequiredBy(*in), s.path)) Nudge(m.get(), s.path, rng);
        }
        if (t % 4 == 0) Nudge(m.get(), in->cons[rng.draw(in->cons.size())].path, rng);
      }
      Heard heard;
      int op = fn(m.get(), Hear, &heard);
      std::string wants;
      bool ok = false;
      std::map<std::set<std::string>, const Ins*> alike;
      for (auto* i : ins) {
        if (!Matches(*i, *m)) continue;
        auto [it, fresh] = alike.emplace(PathsOf(*i), i);
        PBT_ASSERT(fresh, "accepted, although {" << m->ShortDebugString() << "} is both " << i->name << " and " << it->second->name
                                                 << ", which constrain the same fields");
        wants += " " + i->name;
        ok |= by_op.count(op) != 0 && by_op[op] == i;
      }
      std::string got = op == 0 ? "nothing" : by_op.count(op) ? by_op[op]->name : "?";
      PBT_ASSERT(op == 0 ? wants.empty() : ok, "group " << d.groups[l].name << ", message {" << m->ShortDebugString() << "} decodes to "
                           << got << ", but matches" << (wants.empty() ? " nothing" : wants));
      op == 0 ? none++ : hits++;
      std::map<std::string, Setter> mine;
      if (op != 0)
        for (auto& s : SettersOf(d, l, by_op[op])) mine[s.name] = s;
      for (auto& [name, tv] : heard.vals) {
        std::string want = tv.first == "string" ? "?" : tv.first == "bool" ? "1" : tv.first == "double" || tv.first == "float" ? std::to_string(77.0) : "77";
        auto it = mine.find(name);
        if (it != mine.end()) {
          auto f = Look(*m, it->second.path);
          Val v = f.val;
          bool given = f.members_set;
          if (it->second.if_not && !(f.members_set && f.present)) {
            v = it->second.def;
            given = true;
          }
          if (given) {
            sets++;
            switch (v.kind) {
              case 0: {
                // The same value, in whichever integer type the setter has.
                uint64_t u = static_cast<uint64_t>(v.i);
                want = tv.first == "bool" ? (u != 0 ? "1" : "0") : tv.first == "u64" || tv.first == "u32" ? std::to_string(u) : std::to_string(static_cast<int64_t>(u));
                break;
              }
              case 1: want = v.i ? "1" : "0"; break;
              case 2: want = v.s; break;
              default: want = std::to_string(v.d);
            }
          }
        }
        PBT_EQ(tv.second, want, "setter " + name + " of " + got + ", message {" + m->ShortDebugString() + "}");
      }
    }
  }
  dlclose(h);
  if (sets > 0) ctx.label("setters");
  ctx.nontrivial_if(hits > 0 && none > 0);
}

// ---- Sets of values ----

template <typename T>
struct SetModel {
  mpact::sim::decoder::proto_fmt::ProtoConstraintValueSet set;
  std::vector<bool> in;  // of each of the points
};

// Whether a point is in the set, from the sub ranges it tells.
template <typename T>
bool Contains(const mpact::sim::decoder::proto_fmt::ProtoConstraintValueSet& s, T v) {
  for (auto& r : s.subranges()) {
    if (r.min != nullptr) {
      T m = r.min->template GetValueAs<T>();
      if (v < m || (v == m && !r.min_included)) continue;
    }
    if (r.max != nullptr) {
      T m = r.max->template GetValueAs<T>();
      if (v > m || (v == m && !r.max_included)) continue;
    }
    return true;
  }
  return false;
}

template <typename T>
void ValueSets(pbt::Src& src, pbt::Ctx& ctx, const FD* field, const std::vector<T>& points) {
  using namespace mpact::sim::decoder::proto_fmt;
  auto make = [&](std::string* text) {
    SetModel<T> m;
    m.in.resize(points.size());
    if (src.chance(75)) {
      auto op = static_cast<Op>(src.draw(6));
      T lit = points[src.draw(points.size())];
      ProtoConstraintValueExpression e(lit);
      static const ConstraintType kOps[] = {ConstraintType::kEq, ConstraintType::kNe, ConstraintType::kLt,
                                            ConstraintType::kLe, ConstraintType::kGt, ConstraintType::kGe};
      ProtoConstraint c(nullptr, field, kOps[op], &e, 0, nullptr);
      ProtoConstraintValueSet set(c);
      for (size_t i = 0; i < points.size(); i++) {
        T v = points[i];
        m.in[i] = op == kEq ? v == lit : op == kNe ? v != lit : op == kLt ? v < lit : op == kLe ? v <= lit : op == kGt ? v > lit : v >= lit;
      }
      *text = std::string(kOpText[op]) + " " + std::to_string(lit);
      return std::make_pair(ProtoConstraintValueSet(set), m.in);
    }
    T a = points[src.draw(points.size())], b = points[src.draw(points.size())];
    if (b < a) std::swap(a, b);
    bool ai = src.flip(), bi = src.flip();
    ProtoConstraintValueExpression ea(a), eb(b);
    for (size_t i = 0; i < points.size(); i++) {
      T v = points[i];
      m.in[i] = (v > a || (v == a && ai)) && (v < b || (v == b && bi));
    }
    *text = std::string(ai ? "[" : "(") + std::to_string(a) + "," + std::to_string(b) + (bi ? "]" : ")");
    return std::make_pair(ProtoConstraintValueSet(&ea, ai, &eb, bi), m.in);
  };
  std::string text;
  auto [set, in] = make(&text);
  ctx.log("set = ", text);
  int both = 0, n = src.range(1, 5);
  auto check = [&](const ProtoConstraintValueSet& s, const std::vector<bool>& want) {
    for (size_t i = 0; i < points.size(); i++)
      PBT_EQ(Contains<T>(s, points[i]), static_cast<bool>(want[i]), "whether " + std::to_string(points[i]) + " is in the set");
    bool any = std::find(want.begin(), want.end(), true) != want.end();
    if (any) PBT_ASSERT(!s.IsEmpty(), "the set is empty, but is to hold values");
  };
  check(set, in);
  for (int k = 0; k < n; k++) {
    auto [rhs, rin] = make(&text);
    bool meet = src.chance(70);
    if (meet) {
      ctx.log("intersect with ", text);
      PBT_ASSERT(set.IntersectWith(rhs).ok());
      for (size_t i = 0; i < in.size(); i++) in[i] = in[i] && rin[i];
      for (auto& r : set.subranges()) {
        PBT_ASSERT(r.min != nullptr && r.max != nullptr);
        T a = r.min->template GetValueAs<T>(), b = r.max->template GetValueAs<T>();
        PBT_ASSERT(a < b || (a == b && r.min_included && r.max_included), "an empty interval is kept");
      }
    } else {
      ctx.log("union with ", text);
      PBT_ASSERT(set.UnionWith(rhs).ok());
      for (size_t i = 0; i < in.size(); i++) in[i] = in[i] || rin[i];
    }
    check(set, in);
    check(rhs, rin);
    int c = static_cast<int>(std::count(in.begin(), in.end(), true));
    both += c > 0 && c < static_cast<int>(in.size());
  }
  // One of another type.
  if (src.chance(20) && !set.IsEmpty()) {
    ProtoConstraintValueExpression e(1.5f);
    ProtoConstraintValueSet other(&e, true, &e, true);
    PBT_ASSERT(!set.IntersectWith(other).ok(), "sets of different types intersect");
    check(set, in);
  }
  ctx.nontrivial_if(both > 0);
}

PBT_SUITE(value_sets, "a set that holds some of the points and not others", 3000, 60000) {
  auto* d = vp::t::Inst::descriptor();
  auto around = [&](auto zero, std::vector<I128> extra) {
    using T = decltype(zero);
    std::vector<T> p = {std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max()};
    for (int i = 0; i < 6; i++) p.push_back(static_cast<T>(i));
    for (auto v : extra) p.push_back(static_cast<T>(v));
    std::sort(p.begin(), p.end());
    p.erase(std::unique(p.begin(), p.end()), p.end());
    return p;
  };
  switch (src.draw(6)) {
    case 0: ValueSets<int32_t>(src, ctx, d->FindFieldByName("i32"), around(int32_t{}, {-1, -2, INT32_MAX - 1, INT32_MIN + 1, 1000})); break;
    case 1: ValueSets<int64_t>(src, ctx, d->FindFieldByName("i64"), around(int64_t{}, {-1, -2, INT64_MAX - 1, INT32_MAX, 0x100000001LL})); break;
    case 2: ValueSets<uint32_t>(src, ctx, d->FindFieldByName("u32"), around(uint32_t{}, {0xfffffffe, 0x80000000, 0x7fffffff})); break;
    case 3: ValueSets<uint64_t>(src, ctx, d->FindFieldByName("u64"), around(uint64_t{}, {INT64_MAX, INT64_MIN, -2, 0x100000001LL})); break;
    case 4: ValueSets<double>(src, ctx, d->FindFieldByName("dbl"), around(double{}, {-1, -2, 1000})); break;
    default: ValueSets<bool>(src, ctx, d->FindFieldByName("flag"), {false, true}); break;
  }
}

// ---- Descriptions with an error ----

struct Bad {
  const char* what;
  const char* group;  // the declarations
  const char* list;   // how they are listed in the decoder
};
const Bad kBad[] = {
    {"an unknown field", "instruction group bad : Inst { b1: nosuch == 1; }", "bad;"},
    {"an unknown field of a message", "instruction group bad : Inst { b1: reg.nosuch == 1; }", "bad;"},
    {"a field of a number", "instruction group bad : Inst { b1: i32.x == 1; }", "bad;"},
    {"HAS of an unknown field", "instruction group bad : Inst { b1: HAS(sub.nosuch); }", "bad;"},
    {"an unknown enumerator", "instruction group bad : Inst { b1: op == OP_ZZ; }", "bad;"},
    {"an enumerator of another enum", "instruction group bad : Inst { b1: op == KIND_X; }", "bad;"},
    {"an enumerator for a number", "instruction group bad : Inst { b1: i32 == OP_A; }", "bad;"},
    {"two members of one oneof", "instruction group bad : Inst { b1: HAS(reg), HAS(raw); }", "bad;"},
    {"fields of two members of one oneof", "instruction group bad : Inst { b1: reg.rd == 1, imm_fmt.rd == 2; }", "bad;"},
    {"a setter given twice", "instruction group bad : Inst { b1: a == 1; s = i32; s = a; }", "bad;"},
    {"a setter group used twice", "instruction group bad : Inst { setter g: s = i32; b1: a == 1; g; g; }", "bad;"},
    {"a setter of a message", "instruction group bad : Inst { b1: a == 1; s = sub; }", "bad;"},
    {"an unknown setter group", "instruction group bad : Inst { b1: a == 1; nosuch; }", "bad;"},
    {"a setter of an unknown field", "instruction group bad : Inst { b1: a == 1; s = nosuch; }", "bad;"},
    {"a setter of an unknown field of a message", "instruction group bad : Inst { b1: a == 1; s = sub.nosuch; }", "bad;"},
    {"a setter of an unknown field in a setter group", "instruction group bad : Inst { setter g: s = nosuch; b1: a == 1; g; }", "bad;"},
    {"a setter of another member of the oneof", "instruction group bad : Inst { b1: HAS(reg); s = imm_fmt.rd; }", "bad;"},
    {"a setter of two types", "instruction group bad : Inst { b1: a == 1; s = i32; b2: a == 2; s = name; }", "bad;"},
    {"a setter of two types", "instruction group bad : Inst { b1: a == 1; s = flag; b2: a == 2; s = dbl; }", "bad;"},
    {"a setter of two types", "instruction group bad : Inst { b1: a == 1; s = u32; b2: a == 2; s = name; }", "bad;"},
    {"a setter of two types", "instruction group bad : Inst { b1: a == 1; s = name; b2: a == 2; s = u32; }", "bad;"},
    {"a setter of two types", "instruction group bad : Inst { b1: a == 1; s = name; b2: a == 2; s = i64; }", "bad;"},
    {"a setter of two types", "instruction group bad : Inst { b1: a == 1; s = u64; b2: a == 2; s = dbl; }", "bad;"},
    {"a string for a number", "instruction group bad : Inst { b1: i32 == \"a\"; }", "bad;"},
    {"a number for a string", "instruction group bad : Inst { b1: name == 3; }", "bad;"},
    {"a number for a truth value", "instruction group bad : Inst { b1: flag == 3; }", "bad;"},
    {"a truth value for a number", "instruction group bad : Inst { b1: i32 == true; }", "bad;"},
    {"a truth value for a string", "instruction group bad : Inst { b1: a == 1, name != false; }", "bad;"},
    {"a number out of range", "instruction group bad : Inst { b1: i32 == 2147483648; }", "bad;"},
    {"a number out of range", "instruction group bad : Inst { b1: u32 <= 0x100000000; }", "bad;"},
    {"a number out of range", "instruction group bad : Inst { b1: i64 > 0xffffffffffffffff; }", "bad;"},
    {"a number out of range", "instruction group bad : Inst { b1: u64 > 18446744073709551616; }", "bad;"},
    {"a comparison with a message", "instruction group bad : Inst { b1: sub == 1; }", "bad;"},
    {"an unknown message type", "instruction group bad : NoSuch { b1: a == 1; }", "bad;"},
    {"an unknown message type", "instruction group bad : vp.t.NoSuch { b1: a == 1; }", "bad;"},
    {"an enum for a message type", "instruction group bad : vp.t.Op { b1: a == 1; }", "bad;"},
    {"an unknown group", "", "bad;"},
    {"a group defined twice", "instruction group bad : Inst { b1: a == 1; }\ninstruction group bad : Inst { b2: a == 2; }", "bad;"},
    {"a group listed twice", "instruction group bad : Inst { b1: a == 1; }", "bad;\nbad;"},
    {"two instructions encoded the same", "instruction group bad : Inst { b1: a == 1; b2: a == 1; }", "bad;"},
    {"two instructions encoded the same", "instruction group bad : Inst { b1: a == 1, i32 > 4; b2: a == 1, i32 > 5; }", "bad;"},
    {"two instructions encoded the same", "instruction group bad : Inst { b1: reg.rd == 3; b2: HAS(reg), reg.rd == 3; }", "bad;"},
    {"two instructions encoded the same", "instruction group bad : Inst { b1: HAS(raw), raw < 5; b2: raw == 3; }", "bad;"},
    {"two instructions of child groups encoded the same",
     "instruction group c1 : Inst { b1: a == 1; }\ninstruction group c2 : Inst { b2: a == 1; }", "bad = {c1, c2};"},
    {"a parent of an unknown group", "instruction group c1 : Inst { b1: a == 1; }", "bad = {c1, c2};"},
    {"a parent of an unknown group", "instruction group c1 : Inst { b1: a == 1; }", "bad = {c2, c1};\nc1;"},
    {"a parent of one group twice", "instruction group c1 : Inst { b1: a == 1; }", "bad = {c1, c1};"},
    {"a parent of one group twice", "instruction group c1 : Inst { b1: a == 1; }", "bad = {c1, c1};\nc1;"},
    {"a child that is listed too", "instruction group c1 : Inst { b1: a == 1; }", "bad = {c1};\nc1;"},
    {"a child that is listed too", "instruction group c1 : Inst { b1: a == 1; }", "c1;\nbad = {c1};"},
    {"a child of two parents", "instruction group c1 : Inst { b1: a == 1; }\ninstruction group c2 : Inst { b2: a == 2; }",
     "bad = {c1, c2};\nworse = {c2};"},
    {"children of different messages", "instruction group c1 : Inst { b1: a == 1; }\ninstruction group c2 : Tiny { b2: kind == KIND_X; }",
     "bad = {c1, c2};"},
    {"two parents of one name", "instruction group c1 : Inst { b1: a == 1; }\ninstruction group c2 : Inst { b2: a == 2; }",
     "bad = {c1};\nbad = {c2};"},
    {"a syntax error", "instruction group bad : Inst { b1: a == ; }", "bad;"},
    {"a syntax error", "instruction group bad : Inst { b1: a = 1; }", "bad;"},
    {"a syntax error", "instruction group bad : Inst { b1: HAS(a; }", "bad;"},
    {"a syntax error", "instruction group bad : Inst { b1 a == 1; }", "bad;"},
    {"a syntax error", "instruction group : Inst { b1: a == 1; }", "bad;"},
    {"a syntax error", "instruction group bad : Inst { b1: a == 1; ", "bad;"},
    {"a missing include file", "#include \"nosuch.proto_fmt\"\n", ""},
    {"an alias given twice", "using Al = vp.t.Inst;\nusing Al = vp.t.Tiny;\n", ""},
    {"a decoder defined twice", "decoder Dec { namespace vp::gen; opcode_enum = \"OpcodeEnum\"; includes { } bad; }\ninstruction group bad : Inst { b1: a == 1; }", "bad;"},
};

// Correct descriptions.
const Bad kGood[] = {
    {"child groups", "instruction group c1 : Inst { b1: a == 1; }\ninstruction group c2 : Inst { b2: a == 2; }", "bad = {c1, c2};"},
    {"child groups", "instruction group c1 : vp.t.Inst { b1: reg.rd == 1; }\ninstruction group c2 : Inst { b2: HAS(imm_fmt); }", "bad = {c2, c1};"},
    {"child groups", "instruction group c1 : vp.t.Reg { b1: rd == 1; }\ninstruction group c2 : vp.t.Reg { b2: rd == 3; }", "bad = {c2, c1};"},
    {"one child group", "instruction group c1 : Tiny { b1: kind == KIND_X; b2: kind == KIND_Y; }", "bad = {c1};"},
    {"an alias", "using Al = vp.t.Inst;\ninstruction group bad : Al { b1: a == 1; }", "bad;"},
    {"an alias of a package", "using P = vp.t;\ninstruction group bad : P.Inst { b1: a == 1; }", "bad;"},
    {"setters of one type", "instruction group bad : Inst { b1: a == 1; s = i32; b2: a == 2; s = sub.a; }", "bad;"},
    {"a group that is not listed", "instruction group bad : Inst { b1: a == 1; }\ninstruction group c1 : Inst { b1: a == 1; }", "c1;"},
    {"numbers of the type of the field",
     "instruction group bad : Inst { b1: a == 1, u32 < 4294967295u, i64 >= 9'223'372'036'854'775'807, u64 <= 0xffffffffffffffffULL; }", "bad;"},
    {"a setter of a member without a constraint", "instruction group bad : Inst { b1: a == 1; s = reg.rs2 || 3; t = num; }", "bad;"},
    {"members of nested oneofs", "instruction group bad : Inst { b1: HAS(reg.deep); s = reg.deep.a; t = reg.rd; u = reg.deep.g || \"x\"; }", "bad;"},
};

PBT_SUITE(refused, "a description with one error in it", 500, 8000) {
  Gen gen(src);
  Desc d = gen.Make(2, 3);
  bool good = src.chance(25);
  if (good && !d.must_accept) {
    d.more_text.clear();
    d.main_text = "using vp.t.Inst;\nusing Tiny = vp.t.Tiny;\ninstruction group other : Inst { o1: a == 1; }\n"
                  "decoder Dec {\n  namespace vp::gen;\n  opcode_enum = \"OpcodeEnum\";\n  includes {\n    #include \"opcodes.h\"\n  }\n  other;\n}\n";
  }
  const Bad& b = good ? kGood[src.draw(sizeof kGood / sizeof kGood[0])] : kBad[src.draw(sizeof kBad / sizeof kBad[0])];
  const std::string dec = "decoder Dec {\n", inc = "    #include \"opcodes.h\"\n  }\n";
  PBT_ASSERT(d.main_text.find(inc) != std::string::npos);
  if (src.chance(70)) {
    d.main_text.insert(d.main_text.find(inc) + inc.size(), std::string(b.list) + "\n");
  } else {  // alone, or last
    size_t at = d.main_text.find(inc) + inc.size(), end = d.main_text.find("\n}", at - 1) + 1;
    if (src.flip()) d.main_text.erase(at, end - at), end = at;
    d.main_text.insert(end, std::string(b.list) + "\n");
  }
  d.main_text = src.flip() ? b.group + ("\n" + d.main_text) : d.main_text + "\n" + b.group + "\n";
  LogDesc(ctx, d);
  if (src.chance(25)) {
    if (d.more_text.empty()) {
      d.more_text = d.main_text;
      d.main_text = "#include \"more.proto_fmt\"\n";
    }
  }
  auto st = Generate(pbt::scratch_dir(), d);
  if (good) {
    PBT_ASSERT(st.ok(), "a correct description is refused, with " << b.what << ": " << std::string(st.message()));
    ctx.label("accepted");
    return;
  }
  PBT_ASSERT(!st.ok(), "accepted with " << b.what);
  ctx.label(b.what);
  ctx.leaks_are_fine();
  if (src.chance(3)) {
    Desc e = gen.Make(2, 2);
    PBT_ASSERT(!Generate(pbt::scratch_dir(), e, "NoSuch").ok(), "a decoder that is not declared is emitted");
  }
  ctx.nontrivial_if(true);
}

}  // namespace
