// After the emitted code. Needs: VN (the namespace of the emitted code),
// VENC (its encoding base class), V2 (generator version 2 or not), and
// std::string VSlotName(VN::SlotEnum).
#if V2
#define VINST g::Instruction *vinst,
#define VFROM ((Owner() = vinst) == nullptr ? " (no instruction)" : "")
#else
#define VINST
#define VFROM ""
#endif

#define VHOW HowTo(VFROM, s, e, op)

namespace verif_isa {

struct Enc : public VENC {
  // What GetOpcode returns, per slot and entry.
  std::map<std::pair<VN::SlotEnum, int>, VN::OpcodeEnum> ops;

  static std::string Name(const char* const* names, int i, int n) {
    if (i < 0 || i >= n) return absl::StrCat("#", i);
    return names[i];
  }
#define VNAME(E, x) \
  Name(VN::k##E##Names, static_cast<int>(x), static_cast<int>(VN::E##Enum::kPastMaxValue))
  std::string HowTo(const char* from, VN::SlotEnum slot, int entry, VN::OpcodeEnum op) {
    return absl::StrCat(from, " ", VSlotName(slot), "/", entry, "/", VNAME(Opcode, op));
  }
  VN::OpcodeEnum GetOpcode(VN::SlotEnum slot, int entry) override {
    auto it = ops.find({slot, entry});
    return it == ops.end() ? VN::OpcodeEnum::kNone : it->second;
  }
  g::PredicateOperandInterface* GetPredicate(VINST VN::SlotEnum s, int e, VN::OpcodeEnum op,
                                             VN::PredOpEnum x) override {
    std::string how = VHOW;
    return new Pred(VNAME(PredOp, x), how);
  }
  g::SourceOperandInterface* GetSource(VINST VN::SlotEnum s, int e, VN::OpcodeEnum op,
                                       VN::SourceOpEnum x, int no) override {
    std::string how = absl::StrCat(VHOW, " #", no);
    return new Src(VNAME(SourceOp, x), how);
  }
  std::vector<g::SourceOperandInterface*> GetSources(VINST VN::SlotEnum s, int e,
                                                     VN::OpcodeEnum op, VN::ListSourceOpEnum x,
                                                     int no) override {
    std::vector<g::SourceOperandInterface*> v;
    std::string how = absl::StrCat(VHOW, " #", no);
    for (int k = 0; k < 2; k++) {
      v.push_back(new Src(VNAME(ListSourceOp, x), absl::StrCat("[", k, "]", how)));
    }
    return v;
  }
  g::DestinationOperandInterface* GetDestination(VINST VN::SlotEnum s, int e, VN::OpcodeEnum op,
                                                 VN::DestOpEnum x, int no, int lat) override {
    std::string how = absl::StrCat(VHOW, " #", no);
    return new Dst(VNAME(DestOp, x), how, lat);
  }
  std::vector<g::DestinationOperandInterface*> GetDestinations(
      VINST VN::SlotEnum s, int e, VN::OpcodeEnum op, VN::ListDestOpEnum x, int no,
      const std::vector<int>& lat) override {
    std::vector<g::DestinationOperandInterface*> v;
    std::string how = absl::StrCat(VHOW, " #", no);
    for (size_t k = 0; k < lat.size(); k++) {
      v.push_back(new Dst(VNAME(ListDestOp, x), absl::StrCat("[", k, "]", how), lat[k]));
    }
    return v;
  }
  int GetLatency(VINST VN::SlotEnum s, int e, VN::OpcodeEnum op, VN::DestOpEnum x,
                 int no) override {
    return 1000 + 10 * no + ValueOf(VNAME(DestOp, x)) % 7;
  }
  std::vector<int> GetLatency(VINST VN::SlotEnum s, int e, VN::OpcodeEnum op,
                              VN::ListDestOpEnum x, int no) override {
    return {2000 + 10 * no, 3000 + 10 * no, 4000};
  }
  g::ResourceOperandInterface* GetSimpleResourceOperand(VINST VN::SlotEnum s, int e,
                                                        VN::OpcodeEnum op,
                                                        VN::SimpleResourceVector& vec,
                                                        int end) override {
    std::string how = VHOW;
    auto* r = new Res;
    for (auto x : vec) {
      r->how.push_back(absl::StrCat("simple ", VNAME(SimpleResource, x), " end=", end, how));
    }
    return r;
  }
  g::ResourceOperandInterface* GetComplexResourceOperand(VINST VN::SlotEnum s, int e,
                                                         VN::OpcodeEnum op,
                                                         VN::ComplexResourceEnum x, int begin,
                                                         int end) override {
    std::string how = VHOW;
    auto* r = new Res;
    r->how.push_back(absl::StrCat("complex ", VNAME(ComplexResource, x), " ", begin, "..", end, how));
    return r;
  }
  std::vector<g::ResourceOperandInterface*> GetComplexResourceOperands(
      VINST VN::SlotEnum s, int e, VN::OpcodeEnum op, VN::ListComplexResourceEnum x, int begin,
      int end) override {
    std::vector<g::ResourceOperandInterface*> v;
    std::string how = VHOW;
    for (int k = 0; k < 2; k++) {
      auto* r = new Res;
      r->how.push_back(absl::StrCat("complex [", VNAME(ListComplexResource, x), "] ", k, " ",
                                    begin, "..", end, how));
      v.push_back(r);
    }
    return v;
  }
};

// The instructions of a decode: one per slot instance, linked by next().
inline void Describe(g::Instruction* inst,
                     const std::vector<std::function<std::string(absl::Span<const int>)>>& attrs,
                     const char* known, std::string* o) {
  size_t k = 0;
  for (auto* i = inst; i != nullptr; i = i->next(), k++) {
    *o += absl::StrCat("inst ", k, " addr=", i->address(), " size=",
                       known[k] == '1' ? absl::StrCat(i->size())
                                       : i->size() > 0 && i->size() <= 100 ? "?" : "bad",
                       " op=",
                       Enc::Name(VN::kOpcodeNames, i->opcode(),
                                 static_cast<int>(VN::OpcodeEnum::kPastMaxValue)),
                       "\n  disasm \"", i->AsString(), "\"\n");
    *o += absl::StrCat("  attrs", k < attrs.size() ? attrs[k](i->Attributes()) : "?", "\n");
    List("hold", i, i->ResourceHold(), o);
    List("acquire", i, i->ResourceAcquire(), o);
    for (auto* c = i; c != nullptr; c = c->child()) {
      if (c != i) {
        *o += absl::StrCat(" child addr=", c->address(), "\n");
        if (c->next() != nullptr) *o += "  child has next\n";
      }
      DescribeOne(c, o);
    }
  }
}

template <typename Isa>
void Request(Isa& isa, Enc* enc, uint64_t address,
             const std::vector<std::function<std::string(absl::Span<const int>)>>& attrs,
             const char* known, std::string* o) {
  auto* inst = isa.Decode(address, enc);
  if (inst == nullptr) {
    *o += "nothing decoded\n\n";
    return;
  }
  size_t n = 0;
  for (auto* i = inst; i != nullptr; i = i->next()) n++;
  if (n != attrs.size()) {
    *o += absl::StrCat(n, " instructions\n");
  } else {
    Describe(inst, attrs, known, o);
  }
  *o += "\n";
  inst->DecRef();
}

}  // namespace verif_isa
