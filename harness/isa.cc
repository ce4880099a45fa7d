// C28: the decoder that the generator emits for an instruction set description
// (.isa) makes the instructions that the description says.
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "absl/log/log.h"
#include "mpact/sim/decoder/instruction_set_visitor.h"
#include "pbt.h"

ABSL_DECLARE_FLAG(unsigned, generator);

namespace {

using mpact::sim::machine_description::instruction_set::InstructionSetVisitor;
using pbt::Ctx;
using pbt::Src;

std::string Pascal(const std::string& s) {
  std::string o;
  bool up = true;
  for (char c : s) {
    if (c == '_') {
      up = true;
    } else {
      o += up ? static_cast<char>(toupper(c)) : c;
      up = false;
    }
  }
  return o;
}

int64_t ValueOf(const std::string& name) {  // As in isa_glue.h.
  uint32_t h = 2166136261u;
  for (char c : name) h = (h ^ static_cast<unsigned char>(c)) * 16777619u;
  h ^= h >> 15;
  return static_cast<int64_t>(h % 200003) - 100001;
}

// ---------------------------------------------------------------- expressions

struct Expr;
using ExprP = std::shared_ptr<Expr>;
struct Expr {
  char op = 'n';  // n number, i ident, - + * / binary, m minus, a abs
  int v = 0;
  std::string text;  // number or ident as written
  ExprP l, r;
  bool paren = false;
};
using Env = std::map<std::string, int>;

int Eval(const ExprP& e, const Env& env) {
  switch (e->op) {
    case 'n': return e->v;
    case 'i': {
      auto it = env.find(e->text);
      if (it == env.end()) pbt::fail("model: no value for " + e->text);
      return it->second;
    }
    case '+': return Eval(e->l, env) + Eval(e->r, env);
    case '-': return Eval(e->l, env) - Eval(e->r, env);
    case '*': return Eval(e->l, env) * Eval(e->r, env);
    case '/': return Eval(e->l, env) / Eval(e->r, env);
    case 'm': return -Eval(e->l, env);
    case 'a': return std::abs(Eval(e->l, env));
  }
  return 0;
}
int Prec(const ExprP& e) {
  if (e->paren) return 4;
  switch (e->op) {
    case '+': case '-': return 1;
    case '*': case '/': return 2;
    case 'm': return 3;
  }
  return 4;
}
std::string Text(const ExprP& e, int min_prec = 0) {
  std::string o;
  switch (e->op) {
    case 'n': case 'i': o = e->text; break;
    case 'm': o = "-" + Text(e->l, 3); break;
    case 'a': o = "abs(" + Text(e->l) + ")"; break;
    default: {
      int p = e->op == '+' || e->op == '-' ? 1 : 2;
      o = Text(e->l, p) + " " + e->op + " " + Text(e->r, p + 1);
    }
  }
  if (e->paren || Prec(e) < min_prec) o = "(" + o + ")";
  return o;
}
ExprP Num(int v) {
  auto e = std::make_shared<Expr>();
  e->v = v;
  e->text = std::to_string(v);
  return e;
}
ExprP GenNum(Src& src, int lo, int hi) {
  auto e = Num(src.range(lo, hi));
  switch (src.weighted({6, 1, 1})) {
    case 1: {
      char b[16];
      snprintf(b, sizeof b, "0x%x", e->v);
      e->text = b;
      break;
    }
    case 2: {
      char b[16];
      snprintf(b, sizeof b, "0%o", e->v);
      if (e->v != 0) e->text = b;
      break;
    }
  }
  return e;
}
ExprP GenExpr(Src& src, const std::vector<std::string>& idents, int depth) {
  int k = depth <= 0 ? src.weighted({2, 3}) : src.weighted({3, 4, 2, 2, 2, 1, 1, 1});
  auto e = std::make_shared<Expr>();
  switch (k) {
    case 1:
      if (!idents.empty()) {
        e->op = 'i';
        e->text = src.pick(idents);
        break;
      }
      [[fallthrough]];
    case 0:
      e = GenNum(src, 0, 9);
      break;
    case 2: case 3: case 4:
      e->op = k == 2 ? '+' : k == 3 ? '-' : '*';
      e->l = GenExpr(src, idents, depth - 1);
      e->r = GenExpr(src, idents, depth - 1);
      break;
    case 5:
      e->op = '/';
      e->l = GenExpr(src, idents, depth - 1);
      e->r = GenNum(src, 1, 4);
      break;
    case 6:
      e->op = 'm';
      e->l = GenExpr(src, idents, depth - 1);
      break;
    case 7:
      e->op = 'a';
      e->l = GenExpr(src, idents, depth - 1);
      break;
  }
  if (src.chance(10)) e->paren = true;
  return e;
}
// One whose value is never negative.
ExprP GenNonNeg(Src& src, const std::vector<std::string>& idents, int depth) {
  if (src.chance(40)) return GenNum(src, 0, 9);
  auto e = std::make_shared<Expr>();
  e->op = 'a';
  e->l = GenExpr(src, idents, depth);
  return e;
}

// ---------------------------------------------------------------- the model

struct SrcOp {
  std::string name;
  bool array = false;
};
struct DstOp {
  std::string name;
  bool array = false;
  int latency = 0;  // 0 default, 1 expression, 2 '*'
  ExprP expr;
  bool reloc = false;
};
struct Spec {
  std::string pred;
  std::vector<SrcOp> srcs;
  std::vector<DstOp> dsts;
};
struct Res {
  int list = 0;  // 0 use, 1 acquire, 2 hold
  std::string name;
  bool array = false;
  ExprP begin, end;     // null: omitted
  bool brackets = true;  // "[]" when both are omitted
};
struct Frag {
  std::string text;  // before the operand
  std::string op;    // empty: address only, or no operand
  bool has_op = false;
  bool formatted = false;
  bool address = false;
  char sign = '+';
  int shift = 0;  // > 0 left, < 0 right
  std::string fmt;
};
using Disasm = std::vector<std::vector<Frag>>;
struct Sem {
  int kind = 0, id = 0, inc = 0;
};
struct Attr {
  std::string name;
  ExprP value;  // null: none written
};
struct Attrs {  // What follows the operands of an opcode.
  bool has_disasm = false, has_sem = false, has_res = false, has_attr = false;
  Disasm disasm;
  std::vector<Sem> sems;
  std::vector<Res> res;
  std::string res_name;  // a named list
  std::vector<Attr> attr;
  std::vector<int> order = {0, 1, 2, 3};
};
struct Opcode {
  std::string name;
  int size = -1;
  std::vector<Spec> specs;
  Attrs attrs;
  std::string generated;  // not empty: written as a GENERATE
};
struct Base {
  int slot;
  std::vector<ExprP> args;
};
struct Slot {
  std::string name;
  bool top = false;
  int instances = 0;  // size, 0: none
  std::vector<std::string> formals;
  std::vector<Base> bases;
  std::vector<std::pair<std::string, ExprP>> consts;
  int default_size = -1;
  ExprP default_latency;
  bool has_default_attrs = false;
  std::vector<Attr> default_attrs;
  std::vector<std::pair<std::string, std::vector<Res>>> named_res;
  int include = -1;
  Attrs default_op;  // top slots: disasm, semfunc
  std::vector<std::string> deleted;
  std::vector<std::pair<std::string, Attrs>> overridden;
  std::vector<Opcode> opcodes;
  bool in_include = false;
};

struct ERes {
  std::string name;
  bool array;
  int begin, end;
};
struct Inst {  // What the decoder of a slot makes for an opcode.
  std::string name;
  int size = 1;
  std::vector<Spec> specs;
  std::vector<std::vector<int>> lat;  // -1 for '*'
  Disasm disasm;
  std::vector<Sem> sems;
  std::vector<ERes> hold, acquire;
  std::map<std::string, int> attrs;
  Env decl_env;  // names visible where it was declared
};

struct Isa {
  std::string name;
  std::vector<std::string> ns;
  bool v2 = false;
  std::vector<std::pair<std::string, ExprP>> globals;
  Env genv;
  std::vector<int> widths;
  std::vector<std::string> width_text;
  std::vector<Slot> slots;
  std::vector<std::pair<int, std::vector<int>>> uses;  // top slots; instances
  int global_include = -1;
  std::string text, more;
  std::vector<std::map<std::string, Inst>> elab;  // per slot (top ones)
  std::vector<std::set<std::string>> attr_names;
  std::set<std::string> complex_res;
};

const std::vector<std::string> kOps = {"rs1", "rs2", "rs3", "imm_12", "i_uimm5", "rd", "rd_2",
                                       "vs1", "vmask", "csr", "x_acc", "flag", "base", "off"};
const std::vector<std::string> kArrays = {"reglist", "v_arr", "k_list"};
const std::vector<std::string> kPreds = {"pred", "p_x"};
const std::vector<std::string> kRes = {"alu", "mem_port", "fpu", "rd", "x_acc", "div_unit"};
const std::vector<std::string> kArrRes = {"bank", "lane_set"};
const std::vector<std::string> kAttrs = {"branch", "load", "a_store", "priv", "cost", "is_vec"};
const std::vector<std::string> kOpcodes = {
    "add", "sub", "ld_w", "st_w", "mul_add", "beq", "jal", "v_add", "csrrw", "fence", "fadd_s",
    "slli", "lui", "xor_i", "amo_swap", "div", "rem_u", "ecall", "nop2", "br_abs", "Setx", "z80"};
const std::vector<std::string> kSlots = {"alpha", "beta_slot", "gam_ma", "delta0", "eps", "zeta_w",
                                         "eta_x"};

struct Gen {
  Src& src;
  Isa& isa;
  int next_sem = 1;
  int next_inc = 0;
  std::vector<int> usable_inc;  // includes that are in force in the slot
  std::vector<std::string> op_names;  // not used yet

  std::vector<std::string> Visible(const Slot& s) {
    std::vector<std::string> v;
    for (auto& [n, e] : isa.globals) v.push_back(n);
    for (auto& f : s.formals) v.push_back(f);
    for (auto& [n, e] : s.consts) v.push_back(n);
    return v;
  }

  Disasm GenDisasm(const std::vector<Spec>& specs) {
    Disasm d;
    std::vector<std::string> any, srcs;
    for (auto& sp : specs) {
      if (!sp.pred.empty()) any.push_back(sp.pred);
      for (auto& s : sp.srcs) {
        if (s.array) break;  // The position of what follows depends on the array.
        any.push_back(s.name);
        srcs.push_back(s.name);
      }
      for (auto& t : sp.dsts) {
        if (t.array) break;
        any.push_back(t.name);
      }
    }
    int n = src.range(1, 3);
    for (int i = 0; i < n; i++) {
      std::vector<Frag> str;
      int m = src.weighted({3, 4, 3, 2}) ;
      static const std::vector<std::string> kText = {"mov", ", ", " ", "(", ") ", "x[", "]", ".w ",
                                                     "0x", " + ", "a: b", "{}", "op"};
      for (int k = 0; k < m; k++) {
        Frag f;
        if (k == 0 ? src.chance(60) : src.chance(70)) f.text = src.pick(kText);
        int kind = src.weighted({5, 2, 2, 2, 1});
        f.has_op = true;
        if (kind == 0 && !any.empty()) {
          f.op = src.pick(any);
        } else if (kind <= 3 && !srcs.empty()) {
          f.formatted = true;
          f.op = src.pick(srcs);
          if (kind == 2) f.address = true;
          if (kind == 2) f.sign = src.chance(70) ? '+' : '-';
          if (kind >= 2 && src.chance(60)) f.shift = src.range(1, 5) * (src.chance(60) ? 1 : -1);
        } else {
          f.formatted = true;
          f.address = true;
        }
        if (f.formatted) {
          static const std::vector<std::string> kFmt = {"", "x", "d", "08x", "4d", "2x", "16X", "o",
                                                        "04x", "X", "12d", "1x", "03o"};
          f.fmt = src.pick(kFmt);
        }
        str.push_back(f);
      }
      Frag last;
      if (m == 0 || src.chance(50)) last.text = src.pick(kText);
      // An identifier must not run into the name of the operand before it.
      if (!str.empty() && !str.back().formatted && !last.text.empty() &&
          (isalnum(last.text[0]) || last.text[0] == '_')) {
        last.text = "," + last.text;
      }
      str.push_back(last);
      for (size_t k = 1; k + 1 < str.size(); k++) {
        if (!str[k - 1].formatted && !str[k].text.empty() &&
            (isalnum(str[k].text[0]) || str[k].text[0] == '_')) {
          str[k].text = "," + str[k].text;
        }
      }
      d.push_back(str);
    }
    return d;
  }

  std::vector<Res> GenRes(const Slot& s, const std::vector<Spec>* specs) {
    std::vector<Res> v;
    auto vis = Visible(s);
    std::map<std::string, bool> dests;  // name: has an expression
    if (specs != nullptr) {
      for (auto& sp : *specs) {
        for (auto& d : sp.dsts) dests[d.name] = d.latency != 2;
      }
    }
    for (int list = 0; list < 3; list++) {
      int n = src.weighted({3, 4, 2});
      std::set<std::string> used;
      for (int i = 0; i < n; i++) {
        Res r;
        r.list = list;
        r.array = src.chance(25);
        r.name = src.pick(r.array ? kArrRes : kRes);
        if (!used.insert(r.name).second) continue;
        auto it = dests.find(r.name);
        bool by_dest = it != dests.end();
        auto exprs = vis;
        // The latency of one destination operand may be part of it.
        if (by_dest) {
          if (it->second) exprs.push_back(r.name);
        } else if (!dests.empty() && src.chance(30)) {
          auto d = std::next(dests.begin(), src.draw(dests.size()));
          if (d->second) exprs.push_back(d->first);
        }
        bool complex_ok = r.array ? true : r.name != "alu" && r.name != "rd";
        if (complex_ok && src.chance(45)) {
          r.begin = src.chance(20) ? Num(0) : GenNonNeg(src, exprs, 1);
        } else if (src.chance(20)) {
          r.begin = Num(0);
        }
        bool may_omit = by_dest && it->second;
        if (!may_omit || src.chance(50)) r.end = GenNonNeg(src, exprs, 1);
        // A resource that needs only to be free, and the same one acquired.
        r.brackets = src.flip();
        v.push_back(r);
      }
    }
    return v;
  }

  std::vector<Attr> GenAttrs(const Slot& s) {
    std::vector<Attr> v;
    std::set<std::string> used;
    int n = src.range(1, 3);
    for (int i = 0; i < n; i++) {
      Attr a;
      a.name = src.pick(kAttrs);
      if (!used.insert(a.name).second) continue;
      if (src.chance(70)) a.value = GenExpr(src, Visible(s), 2);
      v.push_back(a);
    }
    return v;
  }

  Attrs GenOpAttrs(const Slot& s, const std::vector<Spec>& specs, bool override) {
    Attrs a;
    a.has_disasm = src.chance(override ? 40 : 85);
    a.has_sem = src.chance(override ? 40 : 85);
    a.has_res = src.chance(override ? 40 : 60);
    a.has_attr = src.chance(override ? 40 : 50);
    if (override && !a.has_disasm && !a.has_sem && !a.has_res && !a.has_attr) a.has_sem = true;
    if (a.has_disasm) a.disasm = GenDisasm(specs);
    if (a.has_sem) {
      for (size_t i = 0; i < specs.size(); i++) a.sems.push_back(GenSem());
    }
    if (a.has_res) {
      if (!s.named_res.empty() && src.chance(40)) {
        auto& n = s.named_res[src.draw(s.named_res.size())];
        a.res_name = n.first;
        a.res = n.second;
      } else {
        a.res = GenRes(s, override ? nullptr : &specs);
      }
    }
    if (a.has_attr) a.attr = GenAttrs(s);
    for (int i = 3; i > 0; i--) std::swap(a.order[i], a.order[src.draw(i + 1)]);
    return a;
  }
  Sem GenSem() {
    Sem s;
    s.kind = src.weighted({3, 3, 2, usable_inc.empty() ? 0 : 1});
    if (s.kind == 3) s.inc = src.pick(usable_inc);
    s.id = next_sem++;
    return s;
  }

  std::vector<Spec> GenSpecs(const Slot& s) {
    std::vector<Spec> v;
    std::vector<std::string> names = kOps, arrays = kArrays, preds = kPreds;
    auto take = [&](std::vector<std::string>& p) {
      size_t i = src.draw(p.size());
      std::string n = p[i];
      p.erase(p.begin() + i);
      return n;
    };
    int n = src.weighted({0, 6, 2, 1});
    for (int i = 0; i < n; i++) {
      Spec sp;
      if (!preds.empty() && src.chance(30)) sp.pred = take(preds);
      int ns = src.weighted({2, 3, 3, 1});
      for (int k = 0; k < ns && !names.empty(); k++) {
        SrcOp o;
        o.array = !arrays.empty() && src.chance(15);
        o.name = take(o.array ? arrays : names);
        sp.srcs.push_back(o);
      }
      int nd = src.weighted({2, 4, 2, 1});
      for (int k = 0; k < nd && !names.empty(); k++) {
        DstOp o;
        o.array = !arrays.empty() && src.chance(15);
        o.name = take(o.array ? arrays : names);
        o.latency = src.weighted({4, 4, 1});
        if (o.latency == 1) o.expr = GenNonNeg(src, Visible(s), 2);
        sp.dsts.push_back(o);
      }
      v.push_back(sp);
    }
    return v;
  }
};

// ---------------------------------------------------------------- as text

std::string SemText(const Sem& s) {
  std::string id = std::to_string(s.id);
  switch (s.kind) {
    case 0: return "&::verif_isa::RanT<" + id + ">";
    case 1: return "[](Instruction *inst) { ::verif_isa::Ran(inst, " + id + "); }";
    case 2: return "absl::bind_front(&::verif_isa::RanBound, /*id*/ " + id + ")";
    default:
      return "[](Instruction *inst) { ::verif_isa::Ran(inst, ::kInc" + std::to_string(s.inc) + " + " + id + "); }";
  }
}
std::string SemRan(const Sem& s) {
  switch (s.kind) {
    case 0: return " t" + std::to_string(s.id);
    case 1: return " f" + std::to_string(s.id);
    case 2: return " b" + std::to_string(s.id);
    default: return " f" + std::to_string(s.id + 7000 + 100 * s.inc);
  }
}
std::string DisasmText(const Disasm& d) {
  std::string o;
  for (size_t i = 0; i < d.size(); i++) {
    o += i == 0 ? "\"" : ", \"";
    for (auto& f : d[i]) {
      o += f.text;
      if (!f.has_op) continue;
      if (!f.formatted) {
        o += "%" + f.op;
        continue;
      }
      o += "%(";
      if (f.address) o += "@";
      if (!f.op.empty()) {
        if (f.address) o += f.sign;
        if (f.shift != 0) {
          o += "(" + f.op + (f.shift > 0 ? "<<" : " >> ") + std::to_string(std::abs(f.shift)) + ")";
        } else {
          o += f.op;
        }
      }
      if (!f.fmt.empty()) o += ":" + f.fmt;
      o += ")";
    }
    o += "\"";
  }
  return o;
}
std::string ResText(const std::vector<Res>& v) {
  std::string l[3];
  int last = 0;
  for (auto& r : v) {
    std::string t = r.array ? "[" + r.name + "]" : r.name;
    if (r.begin != nullptr || r.end != nullptr) {
      t += "[";
      if (r.begin != nullptr) t += Text(r.begin);
      if (r.end != nullptr) t += " .. " + Text(r.end);
      t += "]";
    } else if (r.brackets) {
      t += "[]";
    }
    l[r.list] += (l[r.list].empty() ? "" : ", ") + t;
    if (r.list > last) last = r.list;
  }
  std::string o = "{" + l[0];
  if (last >= 1) o += " : " + l[1];
  if (last >= 2) o += " : " + l[2];
  return o + "}";
}
std::string AttrText(const std::vector<Attr>& v) {
  std::string o = "{";
  for (size_t i = 0; i < v.size(); i++) {
    o += (i == 0 ? "" : ", ") + v[i].name;
    if (v[i].value != nullptr) o += " = " + Text(v[i].value);
  }
  return o + "}";
}
std::string AttrsText(const Attrs& a) {
  std::string o;
  for (int k : a.order) {
    std::string t;
    if (k == 0 && a.has_disasm) t = "disasm: " + DisasmText(a.disasm);
    if (k == 1 && a.has_sem) {
      t = "semfunc: ";
      for (size_t i = 0; i < a.sems.size(); i++) {
        t += (i == 0 ? "\"" : ", \"") + SemText(a.sems[i]) + "\"";
      }
    }
    if (k == 2 && a.has_res) t = "resources: " + (a.res_name.empty() ? ResText(a.res) : a.res_name);
    if (k == 3 && a.has_attr) t = "attributes: " + AttrText(a.attr);
    if (!t.empty()) o += (o.empty() ? "" : ",\n        ") + t;
  }
  return o;
}
std::string SpecText(const Spec& s) {
  std::string o = s.pred;
  if (s.srcs.empty() && s.dsts.empty()) return o;
  o += " : ";
  for (size_t i = 0; i < s.srcs.size(); i++) {
    o += (i == 0 ? "" : ", ") + (s.srcs[i].array ? "[" + s.srcs[i].name + "]" : s.srcs[i].name);
  }
  if (s.dsts.empty()) return o;
  o += " : ";
  for (size_t i = 0; i < s.dsts.size(); i++) {
    auto& d = s.dsts[i];
    o += (i == 0 ? "" : ", ") + (d.array ? "[" + d.name + "]" : d.name);
    if (d.latency == 1) o += "(" + Text(d.expr) + ")";
    if (d.latency == 2) o += "(*)";
  }
  return o;
}
std::string OpcodeText(const Opcode& op) {
  std::string o = op.name;
  if (op.size >= 0) o += "[" + std::to_string(op.size) + "]";
  o += "{";
  if (op.specs.size() == 1 && op.name.size() % 2 == 0) {
    o += SpecText(op.specs[0]);
  } else {
    for (size_t i = 0; i < op.specs.size(); i++) {
      o += (i == 0 ? "(" : ", (") + SpecText(op.specs[i]) + ")";
    }
  }
  o += "}";
  std::string a = AttrsText(op.attrs);
  if (!a.empty()) o += ",\n        " + a;
  return o + ";\n";
}
std::string SlotText(const Isa& isa, const Slot& s) {
  std::string o;
  if (!s.formals.empty()) {
    o += "template <";
    for (size_t i = 0; i < s.formals.size(); i++) o += (i == 0 ? "int " : ", int ") + s.formals[i];
    o += ">\n";
  }
  o += "slot " + s.name;
  if (s.instances > 0) o += "[" + std::to_string(s.instances) + "]";
  for (size_t i = 0; i < s.bases.size(); i++) {
    o += (i == 0 ? " : " : ", ") + isa.slots[s.bases[i].slot].name;
    auto& args = s.bases[i].args;
    for (size_t k = 0; k < args.size(); k++) o += (k == 0 ? "<" : ", ") + Text(args[k]);
    if (!args.empty()) o += ">";
  }
  o += " {\n";
  if (s.include >= 0) o += "  includes {\n    #include \"inc_" + std::to_string(s.include) + ".h\"\n  }\n";
  for (auto& [n, e] : s.consts) o += "  int " + n + " = " + Text(e) + ";\n";
  if (s.default_size >= 0) o += "  default size = " + std::to_string(s.default_size) + ";\n";
  if (s.default_latency != nullptr) o += "  default latency = " + Text(s.default_latency) + ";\n";
  if (s.has_default_attrs) o += "  default attributes = " + AttrText(s.default_attrs) + ";\n";
  for (auto& [n, r] : s.named_res) o += "  resources " + n + " = " + ResText(r) + ";\n";
  if (s.top) o += "  default opcode = " + AttrsText(s.default_op) + ";\n";
  if (!s.deleted.empty() || !s.overridden.empty() || !s.opcodes.empty()) {
    o += "  opcodes {\n";
    for (auto& d : s.deleted) o += "    " + d + " = delete;\n";
    for (auto& [n, a] : s.overridden) o += "    " + n + " = override, " + AttrsText(a) + ";\n";
    std::set<std::string> done;
    for (auto& op : s.opcodes) {
      if (op.generated.empty()) {
        o += "    " + OpcodeText(op);
      } else if (done.insert(op.generated).second) {
        o += op.generated;
      }
    }
    o += "  }\n";
  }
  return o + "}\n";
}

// ---------------------------------------------------------------- what it means

struct Elab {
  const Isa& isa;

  Env SlotEnv(const Slot& s, const Env& formals) {
    Env env = isa.genv;
    for (auto& [n, v] : formals) env[n] = v;
    for (auto& [n, e] : s.consts) env[n] = Eval(e, env);
    return env;
  }
  void Apply(const Attrs& a, const Env& env, Inst* i) {
    if (a.has_disasm) i->disasm = a.disasm;
    if (a.has_sem) i->sems = a.sems;
    if (a.has_res) {
      Env renv = env;
      std::map<std::string, int> lats;
      // The first operand of that name is the one, but names do not repeat.
      for (size_t k = 0; k < i->specs.size(); k++) {
        for (size_t d = 0; d < i->specs[k].dsts.size(); d++) {
          if (i->lat[k][d] < 0) continue;
          lats[i->specs[k].dsts[d].name] = i->lat[k][d];
        }
      }
      for (auto& [n, v] : lats) renv.emplace(n, v);
      i->hold.clear();
      i->acquire.clear();
      for (auto& r : a.res) {
        ERes e;
        e.name = r.name;
        e.array = r.array;
        e.begin = r.begin == nullptr ? 0 : Eval(r.begin, renv);
        e.end = r.end != nullptr ? Eval(r.end, renv) : lats.count(r.name) ? lats[r.name] : 0;
        if (r.list == 0) i->hold.push_back(e);
        if (r.list == 1) {
          bool found = false;
          for (auto& h : i->hold) found |= h.name == e.name;
          if (!found) i->hold.push_back(e);
        }
        if (r.list >= 1) i->acquire.push_back(e);
      }
    }
    if (a.has_attr) {
      i->attrs.clear();  // Those of the slot and those inherited.
      for (auto& x : a.attr) i->attrs[x.name] = x.value == nullptr ? 1 : Eval(x.value, env);
    }
  }
  std::map<std::string, Inst> Run(int si, const Env& formals) {
    const Slot& s = isa.slots[si];
    Env env = SlotEnv(s, formals);
    std::map<std::string, Inst> m;
    for (auto& b : s.bases) {
      Env benv = isa.genv, args;
      for (auto& [n, v] : formals) benv[n] = v;
      const Slot& base = isa.slots[b.slot];
      for (size_t k = 0; k < b.args.size(); k++) args[base.formals[k]] = Eval(b.args[k], benv);
      for (auto& [n, i] : Run(b.slot, args)) m.emplace(n, i);
    }
    for (auto& d : s.deleted) m.erase(d);
    for (auto& [n, a] : s.overridden) Apply(a, env, &m.at(n));
    for (auto& op : s.opcodes) {
      Inst i;
      i.name = op.name;
      i.size = op.size >= 0 ? op.size : s.default_size >= 0 ? s.default_size : 1;
      i.specs = op.specs;
      int def = s.default_latency == nullptr ? 1 : Eval(s.default_latency, env);
      for (auto& sp : op.specs) {
        i.lat.emplace_back();
        for (auto& d : sp.dsts) {
          i.lat.back().push_back(d.latency == 0 ? def : d.latency == 1 ? Eval(d.expr, env) : -1);
        }
      }
      for (auto& x : s.default_attrs) {
        i.attrs[x.name] = x.value == nullptr ? 1 : Eval(x.value, env);
      }
      Apply(op.attrs, env, &i);
      m[op.name] = i;
    }
    return m;
  }
};

std::string FormatValue(const Frag& f, uint64_t address) {
  std::string fmt = f.fmt.empty() ? "d" : f.fmt;
  char conv = fmt.back();
  std::string flags = fmt.substr(0, fmt.size() - 1);
  bool is_unsigned = false;
  int bits = 64;
  uint64_t v;
  if (f.op.empty()) {
    v = address;
    is_unsigned = true;
  } else {
    int n = flags.empty() ? 0 : std::stoi(flags);
    bits = n == 0 ? 64 : n <= 2 ? 8 : n <= 4 ? 16 : n <= 8 ? 32 : 64;
    int64_t x = ValueOf(Pascal(f.op));
    if (bits == 8) x = static_cast<int8_t>(x);
    if (bits == 16) x = static_cast<int16_t>(x);
    if (bits == 32) x = static_cast<int32_t>(x);
    if (f.shift > 0) x = static_cast<int64_t>(static_cast<uint64_t>(x) << f.shift);
    if (f.shift < 0) x >>= -f.shift;
    if (f.shift != 0 && bits < 32) bits = 32;  // int
    v = x;
    if (f.address) {
      v = f.sign == '+' ? address + v : address - v;
      bits = 64;
      is_unsigned = true;
    }
  }
  char b[100];
  if (conv == 'd') {
    snprintf(b, sizeof b, ("%" + flags + (is_unsigned ? "llu" : "lld")).c_str(), v);
  } else {
    if (bits < 64) v &= (1ULL << bits) - 1;
    snprintf(b, sizeof b, ("%" + flags + "ll" + conv).c_str(), v);
  }
  return (conv == 'x' ? "0x" : "") + std::string(b);
}

std::string DisasmOf(const Isa& isa, const Disasm& d, const std::vector<Spec>& specs,
                     uint64_t address) {
  std::string o;
  for (size_t i = 0; i < d.size(); i++) {
    std::string t;
    for (auto& f : d[i]) {
      t += f.text;
      if (!f.has_op) continue;
      if (f.formatted) {
        t += FormatValue(f, address);
        continue;
      }
      char kind = 's';
      for (auto& sp : specs) {
        if (sp.pred == f.op) kind = 'p';
        for (auto& x : sp.dsts) {
          if (x.name == f.op) kind = 'd';
        }
      }
      t += std::string(1, kind) + "." + Pascal(f.op);
    }
    if (i < isa.widths.size() && isa.widths[i] != 0) {
      size_t w = std::abs(isa.widths[i]);
      if (t.size() < w) t = isa.widths[i] < 0 ? t + std::string(w - t.size(), ' ')
                                              : std::string(w - t.size(), ' ') + t;
    }
    o += t;
  }
  return o;
}

// The text that isa_enc.h makes of an instruction.
std::string Expected(const Isa& isa, int si, const Inst* in, int k, int entry, uint64_t address,
                     const std::string& size) {
  const Slot& s = isa.slots[si];
  std::string o = "inst " + std::to_string(k) + " addr=" + std::to_string(address) +
                  " size=" + size + " op=" + (in == nullptr ? "none" : Pascal(in->name)) + "\n";
  std::string where = " " + Pascal(s.name) + "/" + std::to_string(entry) + "/" +
                      (in == nullptr ? "none" : Pascal(in->name));
  static const std::vector<Spec> kNoSpecs = {Spec()};
  auto& specs = in == nullptr ? kNoSpecs : in->specs;
  o += "  disasm \"" +
       DisasmOf(isa, in == nullptr ? s.default_op.disasm : in->disasm, specs, address) + "\"\n";
  o += "  attrs";
  for (auto& n : isa.attr_names[si]) {
    int v = 0;
    if (in != nullptr && in->attrs.count(n)) v = in->attrs.at(n);
    o += " " + Pascal(n) + "=" + std::to_string(v);
  }
  o += "\n";
  if (in != nullptr) {
    for (int pass = 0; pass < 2; pass++) {
      std::vector<std::string> all;
      for (auto& r : pass == 0 ? in->hold : in->acquire) {
        std::string range = std::to_string(r.begin) + ".." + std::to_string(r.end);
        if (!isa.complex_res.count(r.name)) {
          all.push_back("simple " + Pascal(r.name) +
                        " end=" + (pass == 0 ? "-1" : std::to_string(r.end)) + where);
        } else if (!r.array) {
          all.push_back("complex " + Pascal(r.name) + " " + range + where);
        } else {
          for (int x = 0; x < 2; x++) {
            all.push_back("complex [" + Pascal(r.name) + "] " + std::to_string(x) + " " + range +
                          where);
          }
        }
      }
      std::sort(all.begin(), all.end());
      for (auto& a : all) o += std::string("  ") + (pass == 0 ? "hold " : "acquire ") + a + "\n";
    }
  }
  for (size_t c = 0; c < specs.size(); c++) {
    auto& sp = specs[c];
    if (c > 0) o += " child addr=" + std::to_string(address) + "\n";
    bool own = in != nullptr && !in->sems.empty();
    o += "  ran" + SemRan(own ? in->sems[c] : s.default_op.sems[0]) + "\n";
    if (!sp.pred.empty()) o += "  pred " + Pascal(sp.pred) + where + "\n";
    for (size_t i = 0; i < sp.srcs.size(); i++) {
      std::string no = where + " #" + std::to_string(i) + "\n";
      if (sp.srcs[i].array) {
        for (int x = 0; x < 2; x++) {
          o += "  src " + Pascal(sp.srcs[i].name) + "[" + std::to_string(x) + "]" + no;
        }
      } else {
        o += "  src " + Pascal(sp.srcs[i].name) + no;
      }
    }
    for (size_t i = 0; i < sp.dsts.size(); i++) {
      std::string name = Pascal(sp.dsts[i].name), no = where + " #" + std::to_string(i) + " lat=";
      int lat = in->lat[c][i];
      int no10 = 10 * static_cast<int>(i);
      if (!sp.dsts[i].array) {
        if (lat < 0) lat = 1000 + no10 + static_cast<int>(ValueOf(name) % 7);
        o += "  dst " + name + no + std::to_string(lat) + "\n";
        continue;
      }
      std::vector<int> lats = {lat};
      if (lat < 0) lats = {2000 + no10, 3000 + no10, 4000};
      for (size_t x = 0; x < lats.size(); x++) {
        o += "  dst " + name + "[" + std::to_string(x) + "]" + no + std::to_string(lats[x]) + "\n";
      }
    }
  }
  return o;
}

// ---------------------------------------------------------------- generation

void Ancestors(const Isa& isa, int s, std::set<int>* out) {
  out->insert(s);
  for (auto& b : isa.slots[s].bases) Ancestors(isa, b.slot, out);
}

void GenGenerated(Gen& g, Slot* s) {
  // A GENERATE and the opcodes that it stands for.
  Src& src = g.src;
  int form = src.draw(3);
  std::string stem = "gen" + std::to_string(g.next_sem);
  int count = src.range(1, 3);
  static const std::vector<std::string> kVals = {"b", "h", "w", "dd", "q"};
  struct Row {
    std::string suffix, op, num, text;
  };
  std::vector<Row> rows;
  std::string head;
  std::string lat = src.chance(50) ? std::to_string(src.range(0, 9)) : "";
  bool star = lat.empty() && src.chance(20);
  if (form == 0) {
    head = "v = [";
    for (int i = 0; i < count; i++) {
      head += (i == 0 ? "" : ", ") + kVals[i];
      rows.push_back({kVals[i], "rs1", std::to_string(g.next_sem), kVals[i]});
    }
    head += "]";
  } else if (form == 1) {
    static const std::vector<std::string> kO = {"rs2", "imm_12", "vs1"};
    head = "[v, s, n] = [";
    for (int i = 0; i < count; i++) {
      std::string n = std::to_string(g.next_sem + i);
      head += (i == 0 ? "" : ", ") + std::string("{") + kVals[i] + ", " + kO[i] + ", " + n + "}";
      rows.push_back({kVals[i], kO[i], n, kVals[i]});
    }
    head += "]";
  } else {
    head = "v = [";
    for (int i = 0; i < count; i++) head += (i == 0 ? "" : ", ") + kVals[i];
    head += "], t = [x, \"yy\"]";
    for (int i = 0; i < count; i++) {
      for (std::string t : {"x", "yy"}) {
        rows.push_back({kVals[i] + "_" + t, "rs1", std::to_string(g.next_sem), kVals[i] + "." + t});
      }
    }
  }
  int size = src.chance(40) ? src.range(1, 8) : -1;
  bool sem = src.chance(80), pred = src.chance(40), dest = src.chance(70);
  std::string o = "    GENERATE(" + head + ") {\n      " + stem + "_" +
                  (form == 2 ? "$(v)_$(t)" : "$(v)");
  if (size >= 0) o += "[" + std::to_string(size) + "]";
  o += "{" + std::string(pred ? "pred" : "") + " : " + (form == 1 ? "$(s)" : "rs1") + ", csr";
  if (dest) o += " : rd" + (star ? "(*)" : lat.empty() ? "" : "(" + lat + ")");
  o += "}, disasm: \"" + stem + "." + (form == 2 ? "$(v).$(t)" : "$(v)") + "\", \"%" +
       (form == 1 ? "$(s)" : "rs1") + ", %(csr:x)\"";
  if (sem) {
    o += ", semfunc: \"&::verif_isa::RanT<" +
         (form == 1 ? std::string("$(n)") : std::to_string(g.next_sem)) + ">\"";
  }
  o += ";\n    };\n";
  for (auto& r : rows) {
    Opcode op;
    op.name = stem + "_" + r.suffix;
    op.size = size;
    op.generated = o;
    Spec sp;
    if (pred) sp.pred = "pred";
    sp.srcs = {{r.op, false}, {"csr", false}};
    if (dest) {
      DstOp d;
      d.name = "rd";
      d.latency = star ? 2 : lat.empty() ? 0 : 1;
      if (!lat.empty()) d.expr = Num(std::stoi(lat));
      sp.dsts = {d};
    }
    op.specs = {sp};
    op.attrs.has_disasm = true;
    Frag a, b, c, z;
    a.text = stem + "." + r.text;
    b.has_op = true;
    b.op = r.op;
    c.text = ", ";
    c.has_op = c.formatted = true;
    c.op = "csr";
    c.fmt = "x";
    op.attrs.disasm = {{a}, {b, c, z}};
    op.attrs.has_sem = sem;
    Sem sm;
    sm.id = std::stoi(r.num);
    if (sem) op.attrs.sems = {sm};
    s->opcodes.push_back(op);
  }
  g.next_sem += 3;
}

Isa GenIsa(Src& src) {
  Isa isa;
  Gen g{src, isa};
  static const std::vector<std::string> kNames = {"tst", "RiscY32", "my_isa", "V"};
  isa.name = src.pick(kNames);
  isa.ns = {"sim_ns"};
  if (src.chance(50)) isa.ns.push_back("isa_ns");
  isa.v2 = src.chance(35);
  g.op_names = kOpcodes;
  for (size_t i = g.op_names.size() - 1; i > 0; i--) {
    std::swap(g.op_names[i], g.op_names[src.draw(i + 1)]);
  }
  int n_glob = src.range(0, 3);
  for (int i = 0; i < n_glob; i++) {
    std::vector<std::string> vis;
    for (auto& [n, e] : isa.globals) vis.push_back(n);
    std::string name = std::string("g_") + static_cast<char>('a' + i);
    auto e = GenExpr(src, vis, 2);
    isa.globals.push_back({name, e});
    isa.genv[name] = Eval(e, isa.genv);
  }
  int n_w = src.weighted({4, 2, 2, 1});
  for (int i = 0; i < n_w; i++) {
    int w = src.range(-18, 18);
    isa.widths.push_back(w);
    isa.width_text.push_back(w < 0 && src.flip() ? "0 - " + std::to_string(-w) : std::to_string(w));
  }
  if (src.chance(25)) isa.global_include = g.next_inc++;
  int n_base = src.weighted({3, 4, 3, 2});
  int n_top = src.weighted({0, 5, 3, 2});
  std::vector<std::set<std::string>> has;  // opcode names per slot
  std::vector<std::map<std::string, std::vector<Spec>>> specs;
  for (int si = 0; si < n_base + n_top; si++) {
    Slot s;
    s.name = kSlots[si];
    s.top = si >= n_base;
    std::map<std::string, std::vector<Spec>> own;
    if (!s.top && src.chance(60)) {
      int n = src.range(1, 2);
      for (int i = 0; i < n; i++) s.formals.push_back(i == 0 ? "n" : "width");
    }
    std::vector<std::string> arg_vis;
    for (auto& [n, e] : isa.globals) arg_vis.push_back(n);
    for (auto& f : s.formals) arg_vis.push_back(f);
    std::set<int> anc;
    for (int b = 0; b < n_base && b < si; b++) {
      if (!src.chance(s.top ? 65 : 30)) continue;
      std::set<int> a;
      Ancestors(isa, b, &a);
      bool clash = false;
      for (int x : a) clash |= anc.count(x) > 0;
      if (clash) continue;
      anc.insert(a.begin(), a.end());
      Base base;
      base.slot = b;
      for (size_t i = 0; i < isa.slots[b].formals.size(); i++) {
        base.args.push_back(GenExpr(src, arg_vis, 1));
      }
      s.bases.push_back(base);
      for (auto& [n, sp] : specs[b]) own[n] = sp;
    }
    if (src.chance(20)) s.include = g.next_inc++;
    g.usable_inc.clear();
    if (isa.global_include >= 0) g.usable_inc.push_back(isa.global_include);
    if (s.include >= 0) g.usable_inc.push_back(s.include);
    if (s.top && src.chance(30)) s.instances = src.range(1, 4);
    int n_const = src.weighted({4, 2, 1});
    for (int i = 0; i < n_const; i++) {
      s.consts.push_back({"k" + std::to_string(i), GenExpr(src, g.Visible(s), 2)});
    }
    if (src.chance(50)) s.default_size = src.range(1, 16);
    if (src.chance(50)) s.default_latency = GenNonNeg(src, g.Visible(s), 2);
    if (src.chance(40)) {
      s.has_default_attrs = true;
      s.default_attrs = g.GenAttrs(s);
    }
    int n_res = src.weighted({5, 2, 1});
    for (int i = 0; i < n_res; i++) {
      s.named_res.push_back({"res_" + std::to_string(i), g.GenRes(s, nullptr)});
    }
    if (s.top) {
      s.default_op.has_sem = true;
      s.default_op.sems = {g.GenSem()};
      s.default_op.has_disasm = src.chance(50);
      if (s.default_op.has_disasm) s.default_op.disasm = g.GenDisasm({});
      if (src.flip()) std::swap(s.default_op.order[0], s.default_op.order[1]);
    }
    std::vector<std::string> names;
    for (auto& [n, sp] : own) names.push_back(n);
    for (auto& n : names) {
      int k = src.weighted({7, 1, 2});
      if (k == 1) {
        s.deleted.push_back(n);
        own.erase(n);
      } else if (k == 2) {
        s.overridden.push_back({n, g.GenOpAttrs(s, own[n], true)});
      }
    }
    int n_op = src.range(s.top ? 0 : 1, 4);
    for (int i = 0; i < n_op && !g.op_names.empty(); i++) {
      if (src.chance(12)) {
        GenGenerated(g, &s);
        continue;
      }
      Opcode op;
      op.name = g.op_names.back();
      g.op_names.pop_back();
      if (src.chance(40)) op.size = src.range(1, 16);
      op.specs = g.GenSpecs(s);
      op.attrs = g.GenOpAttrs(s, op.specs, false);
      s.opcodes.push_back(op);
    }
    for (auto& op : s.opcodes) own[op.name] = op.specs;
    specs.push_back(own);
    isa.slots.push_back(s);
  }
  // Which slots the isa has.
  std::set<int> reach;
  for (int si = n_base; si < n_base + n_top; si++) {
    if (n_top > 1 && src.chance(15) && !(isa.uses.empty() && si == n_base + n_top - 1)) continue;
    std::vector<int> inst;
    if (isa.slots[si].instances > 0 && src.chance(85)) {
      for (int k = 0; k < isa.slots[si].instances; k++) {
        if (src.chance(75)) inst.push_back(k);
      }
    }
    isa.uses.push_back({si, inst});
    Ancestors(isa, si, &reach);
  }
  Elab el{isa};
  isa.elab.resize(isa.slots.size());
  isa.attr_names.resize(isa.slots.size());
  for (int si : reach) {
    if (!isa.slots[si].formals.empty()) continue;
    isa.elab[si] = el.Run(si, {});
    for (auto& [n, i] : isa.elab[si]) {
      for (auto& r : i.acquire) {
        if (r.begin != 0) isa.complex_res.insert(r.name);
      }
      for (auto& [a, v] : i.attrs) isa.attr_names[si].insert(a);
    }
    for (auto& a : isa.slots[si].default_attrs) isa.attr_names[si].insert(a.name);
  }

  // The text.
  std::vector<std::string> decl;
  std::string isa_text = "isa " + isa.name + " {\n  namespace " + isa.ns[0];
  for (size_t i = 1; i < isa.ns.size(); i++) isa_text += "::" + isa.ns[i];
  isa_text += ";\n  slots {\n";
  for (auto& [si, inst] : isa.uses) {
    isa_text += "    " + isa.slots[si].name;
    if (!inst.empty()) {
      isa_text += "[";
      for (size_t k = 0; k < inst.size();) {
        size_t e = k;
        while (e + 1 < inst.size() && inst[e + 1] == inst[e] + 1) e++;
        isa_text += (k == 0 ? "" : ", ") + std::to_string(inst[k]);
        if (e > k) isa_text += ".." + std::to_string(inst[e]);
        k = e + 1;
      }
      isa_text += "]";
    }
    isa_text += ";\n";
  }
  isa_text += "  }\n}\n";
  decl.push_back(isa_text);
  if (src.chance(20)) {
    decl.push_back("isa other_isa {\n  namespace other_ns;\n  slots { " +
                   isa.slots[n_base].name + "; }\n}\n");
  }
  if (isa.global_include >= 0) {
    decl.push_back("includes {\n  #include \"inc_" + std::to_string(isa.global_include) +
                   ".h\"\n}\n");
  }
  std::vector<std::string> more;
  for (auto& s : isa.slots) (src.chance(15) ? more : decl).push_back(SlotText(isa, s));
  for (auto* v : {&decl, &more}) {
    for (size_t i = v->size(); i > 1; i--) std::swap((*v)[i - 1], (*v)[src.draw(i)]);
  }
  std::string globals, widths;
  for (auto& [n, e] : isa.globals) globals += "int " + n + " = " + Text(e) + ";\n";
  if (!isa.widths.empty()) {
    widths = "disasm widths = {";
    for (size_t i = 0; i < isa.width_text.size(); i++) {
      widths += (i == 0 ? "" : ", ") + isa.width_text[i];
    }
    widths += "};\n";
  }
  for (auto& m : more) isa.more += m + "\n";
  isa.text = "// Generated.\n" + globals + widths;
  size_t at = src.draw(decl.size() + 1);
  for (size_t i = 0; i <= decl.size(); i++) {
    if (i == at && !isa.more.empty()) isa.text += "#include \"more.isa\"\n";
    if (i < decl.size()) isa.text += decl[i] + (src.chance(20) ? "/* and */\n" : "\n");
  }
  return isa;
}

// ---------------------------------------------------------------- the emitted code

void WriteFile(const std::string& p, const std::string& t) {
  std::ofstream f(p);
  f << t;
}
std::string ReadFile(const std::string& p) {
  std::ifstream f(p);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

// The slot instances in the order of the decode.
std::vector<std::pair<int, int>> Entries(const Isa& isa) {
  std::vector<std::pair<int, int>> v;
  for (auto& [si, inst] : isa.uses) {
    if (inst.empty()) v.push_back({si, 0});
    for (int k : inst) v.push_back({si, k});
  }
  return v;
}

// The size of what does not decode in a slot: that of its shortest opcode. -1
// if a slot that it is made of deletes opcodes, as it may be one of those.
int MinSize(const Isa& isa, int si) {
  const Slot& s = isa.slots[si];
  if (!s.deleted.empty()) return -1;
  int m = 1000;
  for (auto& b : s.bases) m = std::min(m, MinSize(isa, b.slot));
  for (auto& o : s.opcodes) {
    m = std::min(m, o.size >= 0 ? o.size : s.default_size >= 0 ? s.default_size : 1);
  }
  return m;
}
int NoneSize(const Isa& isa, int si) {
  if (isa.elab[si].empty() && isa.slots[si].deleted.empty() && MinSize(isa, si) == 1000) {
    return isa.slots[si].default_size >= 0 ? isa.slots[si].default_size : 1;
  }
  return isa.elab[si].empty() ? -1 : MinSize(isa, si);
}

struct Request {
  uint64_t address;
  std::vector<const Inst*> insts;  // per entry; null: none
};

std::string ExpectedOf(const Isa& isa, const Request& r) {
  auto entries = Entries(isa);
  std::string o;
  std::vector<int> size(entries.size());
  int total = 0;
  for (size_t k = 0; k < entries.size(); k++) {
    size[k] = r.insts[k] != nullptr ? r.insts[k]->size : NoneSize(isa, entries[k].first);
    total = total < 0 || size[k] < 0 ? -1 : total + size[k];
  }
  size[0] = total;
  for (size_t k = 0; k < entries.size(); k++) {
    o += Expected(isa, entries[k].first, r.insts[k], k, entries[k].second, r.address,
                  size[k] < 0 ? "?" : std::to_string(size[k]));
  }
  return o;
}

std::string Glue(const Isa& isa, const std::vector<Request>& reqs) {
  auto entries = Entries(isa);
  std::string vn;
  for (auto& n : isa.ns) vn += (vn.empty() ? "" : "::") + n;
  std::string cls = Pascal(isa.name);
  std::string o = "#define V2 " + std::to_string(isa.v2) + "\n#define VN ::" + vn +
                  "\n#define VENC ::" + vn + "::" + cls + "EncodingBase\n" +
                  "#include \"isa_glue.h\"\n#include \"p_enums.cc\"\n#include \"p_decoder.cc\"\n" +
                  "inline std::string VSlotName(VN::SlotEnum s) {\n";
  for (auto& [si, inst] : isa.uses) {
    std::string p = Pascal(isa.slots[si].name);
    o += "  if (s == VN::SlotEnum::k" + p + ") return \"" + p + "\";\n";
  }
  o += "  return \"?\";\n}\n#include \"isa_enc.h\"\n";
  o += "struct Factory : public VN::" + cls + "InstructionSetFactory {\n";
  for (auto& [si, inst] : isa.uses) {
    std::string p = Pascal(isa.slots[si].name);
    o += "  std::unique_ptr<VN::" + p + "Slot> Create" + p +
         "Slot(mpact::sim::generic::ArchState *s) override { return std::make_unique<VN::" + p +
         "Slot>(s); }\n";
  }
  o += "};\n#define NAME(E, n) if (std::string(VN::k##E##Names[static_cast<int>(VN::E##Enum::k##n)])"
       " != #n) *out += \"the name of \" #E \" \" #n \" is wrong\\n\";\n";
  for (auto& [si, inst] : isa.uses) {
    std::string p = Pascal(isa.slots[si].name);
    o += "std::string Attr" + p + "(absl::Span<const int> a) {\n  std::string o;\n";
    if (isa.attr_names[si].empty()) {
      o += "  if (a.size() != 0) o = absl::StrCat(\" size \", a.size());\n";
    } else {
      o += "  using E = VN::" + isa.slots[si].name + "::AttributeEnum;\n"
           "  if (a.size() != static_cast<size_t>(E::kPastMaxValue)) return absl::StrCat(\" size \", "
           "a.size());\n";
      for (auto& n : isa.attr_names[si]) {
        o += "  o += absl::StrCat(\" " + Pascal(n) + "=\", a[static_cast<int>(E::k" + Pascal(n) +
             ")]);\n";
      }
    }
    o += "  return o;\n}\n";
  }
  o += "extern \"C\" void IsaMain(mpact::sim::generic::ArchState *state, std::string *out) {\n";
  std::set<std::string> names;
  for (auto& [si, inst] : isa.uses) {
    for (auto& [n, i] : isa.elab[si]) {
      names.insert("Opcode, " + Pascal(n));
      for (auto& sp : i.specs) {
        if (!sp.pred.empty()) names.insert("PredOp, " + Pascal(sp.pred));
        for (auto& x : sp.srcs) {
          names.insert((x.array ? "ListSourceOp, " : "SourceOp, ") + Pascal(x.name));
        }
        for (auto& x : sp.dsts) {
          names.insert((x.array ? "ListDestOp, " : "DestOp, ") + Pascal(x.name));
        }
      }
      for (auto* v : {&i.hold, &i.acquire}) {
        for (auto& r : *v) {
          bool cx = isa.complex_res.count(r.name) > 0;
          names.insert((!cx ? "SimpleResource, " : r.array ? "ListComplexResource, "
                                                           : "ComplexResource, ") +
                       Pascal(r.name));
        }
      }
    }
  }
  for (auto& n : names) o += "  NAME(" + n + ")\n";
  o += "  Factory factory;\n  VN::" + cls + "InstructionSet isa(state, &factory);\n"
       "  ::verif_isa::Enc enc;\n"
       "  std::vector<std::function<std::string(absl::Span<const int>)>> attrs = {";
  for (auto& [si, k] : entries) o += "Attr" + Pascal(isa.slots[si].name) + ", ";
  o += "};\n";
  for (auto& r : reqs) {
    o += "  enc.ops.clear();\n";
    std::string mask;
    bool top = true;
    for (size_t k = 0; k < entries.size(); k++) {
      std::string p = Pascal(isa.slots[entries[k].first].name);
      if (r.insts[k] != nullptr) {
        o += "  enc.ops[{VN::SlotEnum::k" + p + ", " + std::to_string(entries[k].second) +
             "}] = VN::OpcodeEnum::k" + Pascal(r.insts[k]->name) + ";\n";
      }
      bool known = r.insts[k] != nullptr || NoneSize(isa, entries[k].first) >= 0;
      top &= known;
      mask += known ? "1" : "0";
    }
    mask[0] = top ? '1' : '0';
    char a[24];
    snprintf(a, sizeof a, "0x%llxULL", static_cast<unsigned long long>(r.address));
    o += "  ::verif_isa::Request(isa, &enc, " + std::string(a) + ", attrs, \"" + mask + "\", out);\n";
  }
  return o + "}\n";
}

// Runs the generator in a child: it ends the process on some errors.
std::string Generate(const Isa& isa, const std::string& dir) {
  std::string log = dir + "/gen.log";
  pid_t pid = fork();
  if (pid == 0) {
    struct Sink : absl::LogSink {
      std::string path;
      std::string text;
      void Send(const absl::LogEntry& e) override {
        text += std::string(e.text_message()) + "\n";
        WriteFile(path, text);
      }
    };
    auto* sink = new Sink;
    sink->path = log;
    WriteFile(log, "");
    absl::AddLogSink(sink);
    absl::SetFlag(&FLAGS_generator, isa.v2 ? 2 : 1);
    int rc = 1;
    {
      InstructionSetVisitor v;
      auto s = v.Process({dir + "/a.isa"}, "p", isa.name, {dir}, dir);
      rc = s.ok() ? 0 : 1;
      if (!s.ok()) WriteFile(log, sink->text + s.ToString());
    }
    _exit(rc);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  return "status " + std::to_string(st) + "\n" + ReadFile(log).substr(0, 1500) + "\n";
}

}  // namespace

PBT_SUITE(isa_decoder,
          "the description has two or more opcodes, inheritance or several slots, and operands; "
          "every opcode of it was decoded", 140, 1800) {
  Isa isa = GenIsa(src);
  auto entries = Entries(isa);
  std::vector<Request> reqs;
  size_t rounds = 1;
  for (auto& [si, k] : entries) rounds = std::max(rounds, isa.elab[si].size() + 1);
  std::vector<size_t> shift;
  for (size_t k = 0; k < entries.size(); k++) shift.push_back(src.draw(rounds));
  for (size_t r = 0; r < rounds; r++) {
    Request q;
    q.address = src.interesting();
    for (size_t k = 0; k < entries.size(); k++) {
      auto& m = isa.elab[entries[k].first];
      size_t i = (r + shift[k]) % (m.size() + 1);
      q.insts.push_back(i == m.size() ? nullptr : &std::next(m.begin(), i)->second);
    }
    reqs.push_back(q);
  }
  if (ctx.logging()) {
    ctx.log("isa " + isa.name + ", generator version " + (isa.v2 ? "2" : "1") + ", a.isa:\n" +
            isa.text);
    if (!isa.more.empty()) ctx.log("more.isa:\n" + isa.more);
  }
  std::string dir = pbt::scratch_dir();
  WriteFile(dir + "/a.isa", isa.text);
  unlink((dir + "/more.isa").c_str());
  if (!isa.more.empty()) WriteFile(dir + "/more.isa", isa.more);
  for (int k = 0; k < 12; k++) {
    std::string n = std::to_string(k);
    WriteFile(dir + "/inc_" + n + ".h",
              "#ifndef INC_" + n + "_H\n#define INC_" + n + "_H\nconstexpr int kInc" + n + " = " +
                  std::to_string(7000 + 100 * k) + ";\n#endif\n");
  }
  for (const char* f : {"p_enums.h", "p_enums.cc", "p_decoder.h", "p_decoder.cc", "out.txt"}) {
    unlink((dir + "/" + f).c_str());
  }
  std::string err = Generate(isa, dir);
  PBT_ASSERT(err.empty(), "the generator rejects the description: " << err);
  WriteFile(dir + "/glue.cc", Glue(isa, reqs));
  std::string cmd = "cd '" + dir + "' && " VERIF_CXX " " VERIF_EMITTED_FLAGS
                    " -shared -I. -include-pch " VERIF_PCH " glue.cc -o g.so >cc.log 2>&1";
  int rc = system(cmd.c_str());
  PBT_ASSERT(rc == 0, "the emitted code does not compile: " << ReadFile(dir + "/cc.log").substr(0, 1500));
  cmd = VERIF_RT " '" + dir + "/g.so' '" + dir + "/out.txt' >'" + dir + "/rt.log' 2>&1";
  rc = system(cmd.c_str());
  PBT_ASSERT(rc == 0, "the emitted decoder ends with status "
                          << rc << ": " << ReadFile(dir + "/rt.log").substr(0, 1500));
  unlink((dir + "/g.so").c_str());
  std::string got = ReadFile(dir + "/out.txt"), want;
  for (auto& r : reqs) want += ExpectedOf(isa, r) + "\n";
  if (got != want) {
    // The first line that is different, and what it belongs to.
    size_t i = 0, line = 0, inst = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) {
      if (got[i] == '\n') line = i + 1;
      if (got.compare(i, 5, "inst ") == 0 && line == i) inst = i;
      i++;
    }
    auto at = [](const std::string& s, size_t p) {
      return p >= s.size() ? std::string("(end)") : s.substr(p, s.find('\n', p) - p);
    };
    pbt::fail("in\n" + at(got, inst) + "\nthe decoder makes:\n" + at(got, line) +
              "\nthe description says:\n" + at(want, line));
  }
  size_t n_inst = 0;
  bool inherit = false, ops = false, children = false, arrays = false, gen = false;
  for (auto& [si, k] : isa.uses) {
    n_inst += isa.elab[si].size();
    inherit |= !isa.slots[si].bases.empty();
    for (auto& [n, i] : isa.elab[si]) {
      children |= i.specs.size() > 1;
      for (auto& sp : i.specs) {
        ops |= !sp.srcs.empty() || !sp.dsts.empty();
        for (auto& x : sp.srcs) arrays |= x.array;
        for (auto& x : sp.dsts) arrays |= x.array;
      }
    }
    for (auto& o : isa.slots[si].opcodes) gen |= !o.generated.empty();
  }
  if (inherit) ctx.label("opcodes inherited");
  if (entries.size() > 1) ctx.label("several slots or instances");
  if (children) ctx.label("child instructions");
  if (arrays) ctx.label("array operands");
  if (gen) ctx.label("GENERATE");
  if (!isa.complex_res.empty()) ctx.label("complex resources");
  if (isa.v2) ctx.label("version 2");
  if (!isa.more.empty()) ctx.label("two files");
  for (auto& s : isa.slots) {
    if (!s.overridden.empty()) { ctx.label("override"); break; }
  }
  for (auto& s : isa.slots) {
    if (!s.deleted.empty()) { ctx.label("delete"); break; }
  }
  ctx.nontrivial_if(n_inst >= 2 && (inherit || entries.size() > 1) && ops);
}
