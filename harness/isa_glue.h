// Compiled with the code that the decoder generator emits: operands that
// remember how they were asked for, and a description of an instruction as
// text. Comes before the emitted code (the semantic function strings refer to
// what is declared here); isa_enc.h comes after it.
#ifndef VERIF_ISA_GLUE_H_
#define VERIF_ISA_GLUE_H_
#include <algorithm>
#include <any>
#include <array>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "absl/functional/bind_front.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/types/span.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/operand_interface.h"
#include "mpact/sim/generic/resource_operand_interface.h"

namespace verif_isa {

namespace g = ::mpact::sim::generic;

inline std::string& Log() {
  static std::string log;
  return log;
}
inline void Ran(g::Instruction*, int id) { Log() += absl::StrCat(" f", id); }
inline void RanBound(int id, g::Instruction*) { Log() += absl::StrCat(" b", id); }
template <int id>
inline void RanT(g::Instruction*) { Log() += absl::StrCat(" t", id); }

// Small values, of either sign, that depend on the name.
inline int64_t ValueOf(const std::string& name) {
  uint32_t h = 2166136261u;
  for (char c : name) h = (h ^ static_cast<unsigned char>(c)) * 16777619u;
  h ^= h >> 15;
  return static_cast<int64_t>(h % 200003) - 100001;
}

// The instruction that was passed when the operand was asked for, if any.
inline g::Instruction*& Owner() {
  static g::Instruction* owner = nullptr;
  return owner;
}
struct Owned {
  g::Instruction* owner = Owner();
  std::string Wrong(g::Instruction* i) const {
    return owner == nullptr || owner == i ? "" : " (asked for with another instruction)";
  }
};

struct Pred : g::PredicateOperandInterface, Owned {
  std::string name, how;
  Pred(std::string n, std::string h) : name(n), how(h) {}
  bool Value() override { return true; }
  std::string AsString() const override { return "p." + name; }
};
struct Src : g::SourceOperandInterface, Owned {
  std::string name, how;
  int64_t v;
  Src(std::string n, std::string h) : name(n), how(h), v(ValueOf(n)) {}
  bool AsBool(int) override { return v != 0; }
  int8_t AsInt8(int) override { return v; }
  uint8_t AsUint8(int) override { return v; }
  int16_t AsInt16(int) override { return v; }
  uint16_t AsUint16(int) override { return v; }
  int32_t AsInt32(int) override { return v; }
  uint32_t AsUint32(int) override { return v; }
  int64_t AsInt64(int) override { return v; }
  uint64_t AsUint64(int) override { return v; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return "s." + name; }
};
struct Dst : g::DestinationOperandInterface, Owned {
  std::string name, how;
  int lat;
  Dst(std::string n, std::string h, int l) : name(n), how(h), lat(l) {}
  g::DataBuffer* AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(g::DataBuffer*) override {}
  g::DataBuffer* CopyDataBuffer() override { return nullptr; }
  int latency() const override { return lat; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return "d." + name; }
};
struct Res : g::ResourceOperandInterface, Owned {
  std::vector<std::string> how;
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return "r"; }
};

inline void List(const char* what, g::Instruction* i, const std::vector<g::ResourceOperandInterface*>& v,
                 std::string* o) {
  std::vector<std::string> all;
  for (auto* r : v) {
    auto* x = dynamic_cast<Res*>(r);
    if (x == nullptr) {
      all.push_back("?");
    } else {
      for (auto& h : x->how) all.push_back(h + x->Wrong(i));
    }
  }
  std::sort(all.begin(), all.end());
  for (auto& s : all) *o += absl::StrCat("  ", what, " ", s, "\n");
}

// One instruction of the child chain.
inline void DescribeOne(g::Instruction* i, std::string* o) {
  Log().clear();
  i->Execute();
  *o += absl::StrCat("  ran", Log(), "\n");
  if (i->Predicate() != nullptr) {
    auto* p = dynamic_cast<Pred*>(i->Predicate());
    *o += absl::StrCat("  pred ", p == nullptr ? "?" : p->name + p->how + p->Wrong(i), "\n");
  }
  for (int k = 0; k < i->SourcesSize(); k++) {
    auto* p = dynamic_cast<Src*>(i->Source(k));
    *o += absl::StrCat("  src ", p == nullptr ? "?" : p->name + p->how + p->Wrong(i), "\n");
  }
  for (int k = 0; k < i->DestinationsSize(); k++) {
    auto* p = dynamic_cast<Dst*>(i->Destination(k));
    *o += absl::StrCat("  dst ", p == nullptr ? "?" : absl::StrCat(p->name, p->how, " lat=", p->lat, p->Wrong(i)),
                       "\n");
  }
}

}  // namespace verif_isa
#endif  // VERIF_ISA_GLUE_H_
