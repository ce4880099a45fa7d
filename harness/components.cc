// C07: components, configuration entries and counters: export and import.
#include <limits>
#include <map>
#include <memory>

#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/proto/component_data.pb.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT
namespace proto = mpact::sim::proto;

namespace {

enum VType { kBool, kInt, kUint, kDouble, kString, kPhys, kNumV };

struct Val {
  VType t = kBool;
  uint64_t bits = 0;  // bool, int, uint, double
  std::string s;
  proto::SIPrefix prefix = proto::PREFIX_NONE;
  proto::SIUnit unit = proto::UNIT_NONE;
  double d() const {
    double x;
    std::memcpy(&x, &bits, 8);
    return x;
  }
  bool operator==(const Val& o) const {
    return t == o.t && bits == o.bits && s == o.s && prefix == o.prefix &&
           unit == o.unit;
  }
};

std::ostream& operator<<(std::ostream& os, const Val& v) {
  os << "<type " << v.t << " " << pbt::hex(v.bits) << " '" << v.s << "' "
     << v.prefix << " " << v.unit << ">";
  return os;
}

uint64_t DoubleBits(double d) {
  uint64_t b;
  std::memcpy(&b, &d, 8);
  return b;
}

double AnyDouble(pbt::Src& src) {
  switch (src.draw(6)) {
    case 0: return 0.0;
    case 1: return static_cast<double>(static_cast<int64_t>(src.interesting()));
    case 2: return -0.0;
    case 3: return std::numeric_limits<double>::infinity();
    case 4: return static_cast<double>(src.range(-1000, 1000)) / 7.0;
    default: return std::numeric_limits<double>::denorm_min();
  }
}

std::string AnyString(pbt::Src& src) {
  std::string s;
  for (int n = static_cast<int>(src.draw(6)); n > 0; n--)
    s += static_cast<char>(src.pick({'a', 'b', ' ', '"', '\\', '\n', '0'}));
  return s;
}

Val AnyVal(pbt::Src& src, VType t) {
  static const std::vector<proto::SIPrefix> prefixes = {
      proto::PREFIX_NONE, proto::PREFIX_PICO, proto::PREFIX_NANO,
      proto::PREFIX_MICRO, proto::PREFIX_MILLI, proto::PREFIX_KILO,
      proto::PREFIX_MEGA, proto::PREFIX_GIGA, proto::PREFIX_TERA};
  static const std::vector<proto::SIUnit> units = {
      proto::UNIT_NONE, proto::UNIT_SECOND, proto::UNIT_HERTZ,
      proto::UNIT_VOLT, proto::UNIT_AMPERE, proto::UNIT_WATT};
  Val v;
  v.t = t;
  switch (t) {
    case kBool: v.bits = src.draw(2); break;
    case kInt:
    case kUint: v.bits = src.interesting(); break;
    case kDouble: v.bits = DoubleBits(AnyDouble(src)); break;
    case kString: v.s = AnyString(src); break;
    default:
      v.bits = DoubleBits(AnyDouble(src));
      v.prefix = src.pick(prefixes);
      v.unit = src.pick(units);
  }
  return v;
}

ConfigValue ToConfig(const Val& v) {
  switch (v.t) {
    case kBool: return ConfigValue(static_cast<bool>(v.bits));
    case kInt: return ConfigValue(static_cast<int64_t>(v.bits));
    case kUint: return ConfigValue(static_cast<uint64_t>(v.bits));
    case kDouble: return ConfigValue(v.d());
    case kString: return ConfigValue(v.s);
    default: return ConfigValue(PhysicalValue(v.d(), v.prefix, v.unit));
  }
}

Val FromConfig(const ConfigValue& c) {
  Val v;
  v.t = static_cast<VType>(c.index());
  if (auto* b = std::get_if<bool>(&c)) v.bits = *b;
  if (auto* i = std::get_if<int64_t>(&c)) v.bits = static_cast<uint64_t>(*i);
  if (auto* u = std::get_if<uint64_t>(&c)) v.bits = *u;
  if (auto* d = std::get_if<double>(&c)) v.bits = DoubleBits(*d);
  if (auto* s = std::get_if<std::string>(&c)) v.s = *s;
  if (auto* p = std::get_if<PhysicalValue>(&c)) {
    v.bits = DoubleBits(p->value);
    v.prefix = p->si_prefix;
    v.unit = p->si_unit;
  }
  return v;
}

void ToEntry(const Val& v, proto::ComponentValueEntry* e) {
  switch (v.t) {
    case kBool: e->set_bool_value(v.bits); break;
    case kInt: e->set_sint64_value(static_cast<int64_t>(v.bits)); break;
    case kUint: e->set_uint64_value(v.bits); break;
    case kDouble: e->set_double_value(v.d()); break;
    case kString: e->set_string_value(v.s); break;
    default: {
      auto* p = e->mutable_physical_value();
      p->set_value(v.d());
      p->set_si_prefix(v.prefix);
      p->set_si_unit(v.unit);
    }
  }
}

Val FromEntry(const proto::ComponentValueEntry& e) {
  Val v;
  switch (e.value_case()) {
    case proto::ComponentValueEntry::kBoolValue:
      v.t = kBool, v.bits = e.bool_value();
      break;
    case proto::ComponentValueEntry::kSint64Value:
      v.t = kInt, v.bits = static_cast<uint64_t>(e.sint64_value());
      break;
    case proto::ComponentValueEntry::kUint64Value:
      v.t = kUint, v.bits = e.uint64_value();
      break;
    case proto::ComponentValueEntry::kDoubleValue:
      v.t = kDouble, v.bits = DoubleBits(e.double_value());
      break;
    case proto::ComponentValueEntry::kStringValue:
      v.t = kString, v.s = e.string_value();
      break;
    case proto::ComponentValueEntry::kPhysicalValue:
      v.t = kPhys;
      v.bits = DoubleBits(e.physical_value().value());
      v.prefix = e.physical_value().si_prefix();
      v.unit = e.physical_value().si_unit();
      break;
    default:
      PBT_FAIL("exported entry '" << e.name() << "' has no value");
  }
  return v;
}

struct Cfg {
  std::unique_ptr<ConfigBase> c;
  Val v;
  bool written = false;
  int callbacks = 0, want_callbacks = 0;
  int parts[3] = {0, 0, 0};
  bool bad = false;
  ConfigValue seen;  // by the last callback
};

template <typename T>
void MakeCfg(Cfg* c, const std::string& name, const Val& v, bool cb) {
  auto* p = new Config<T>(name, std::get<T>(ToConfig(v)));
  c->c.reset(p);
  c->v = v;
  if (cb) {
    // Three callbacks for a write, each once, after the value is there.
    auto call = [c, p](int k) {
      c->parts[k]++;
      if (!p->HasConfigValue()) c->bad = true;
      if (c->parts[0] == c->parts[1] && c->parts[1] == c->parts[2]) {
        c->callbacks++;
        c->seen = p->GetConfigValue();
      }
    };
    for (int k = 0; k < 3; k++) p->AddValueWrittenCallback([call, k]() { call(k); });
  }
}

struct Ctr {
  std::unique_ptr<CounterBaseInterface> c;
  VType t = kUint;
  uint64_t bits = 0;
  std::string about;
  bool enabled = true;
  bool fn = false;
  uint64_t threshold = 0;
  std::vector<std::string> listeners;  // names in the same component
  // Typed access.
  std::function<void(int op, uint64_t bits)> apply;
  std::function<void(Ctr*)> listen;
};

struct Node {
  std::string name;
  std::unique_ptr<Component> comp;
  Node* parent = nullptr;
  std::map<std::string, Node*> kids;
  std::map<std::string, std::unique_ptr<Cfg>> cfgs;
  std::map<std::string, std::unique_ptr<Ctr>> ctrs;
  int done = 0, want_done = 0;
  bool cb = false;
};

struct Tree {
  std::vector<std::unique_ptr<Node>> nodes;
};

template <typename T>
T FromBits(uint64_t b) {
  T v;
  std::memcpy(&v, &b, 8);
  return v;
}
template <typename T>
uint64_t ToBits(T v) {
  uint64_t b;
  std::memcpy(&b, &v, 8);
  return b;
}

// What a set of the value does to the counter and, transitively, to those that
// listen to it.
template <typename T>
void RefSet(Node* n, Ctr* c, T in) {
  if (!c->enabled) return;
  if (c->fn) {
    // A filter which keeps inputs at least as large as the threshold, doubled.
    if (in < static_cast<T>(c->threshold)) return;
    in = static_cast<T>(in + in);
  }
  c->bits = ToBits(in);
  for (auto& l : c->listeners) RefSet<T>(n, n->ctrs[l].get(), in);
}

template <typename T>
void MakeCtr(Node* n, const std::string& name, VType t, pbt::Src& src) {
  auto c = std::make_unique<Ctr>();
  c->t = t;
  T init = t == kDouble ? static_cast<T>(src.range(-100, 100))
                        : static_cast<T>(src.range(0, 1000));
  c->fn = src.chance(30);
  c->threshold = src.draw(200);
  Ctr* cp = c.get();
  if (c->fn) {
    auto f = [cp](const T& in, T* out) -> bool {
      if (in < static_cast<T>(cp->threshold)) return false;
      *out = static_cast<T>(in + in);
      return true;
    };
    FunctionCounter<T>* p;
    switch (src.draw(3)) {
      case 0:
        p = new FunctionCounter<T>(name, init, f);
        break;
      case 1:
        p = new FunctionCounter<T>(name, f);
        init = T();
        break;
      default:
        p = new FunctionCounter<T>(name, init);
        p->SetFunction(f);
    }
    c->c.reset(p);
    c->bits = ToBits(init);
    c->apply = [p](int, uint64_t b) { p->SetValue(FromBits<T>(b)); };
    c->listen = [p](Ctr* o) {
      p->AddListener(dynamic_cast<CounterValueSetInterface<T>*>(o->c.get()));
    };
  } else {
    SimpleCounter<T>* p;
    switch (src.draw(5)) {
      case 0:
        p = new SimpleCounter<T>(name, init);
        break;
      case 1:
        c->about = "about " + name;
        p = new SimpleCounter<T>(name, c->about, init);
        break;
      case 2:
        p = new SimpleCounter<T>(name);
        init = T();
        break;
      case 3:
        c->about = "x";
        p = new SimpleCounter<T>(name, std::string("x"));
        init = T();
        break;
      default:
        p = new SimpleCounter<T>();
        PBT_ASSERT(!p->IsInitialized(), "default constructed counter");
        PBT_ASSERT(!n->comp->AddCounter(p).ok(),
                   "uninitialized counter accepted");
        p->Initialize(name, init);
    }
    PBT_ASSERT(p->IsInitialized(), "IsInitialized");
    c->c.reset(p);
    c->bits = ToBits(init);
    c->apply = [p](int op, uint64_t b) {
      T v = FromBits<T>(b);
      if (op == 0) p->SetValue(v);
      if (op == 1) p->Increment(v);
      if (op == 2) p->Decrement(v);
    };
    c->listen = [p](Ctr* o) {
      p->AddListener(dynamic_cast<CounterValueSetInterface<T>*>(o->c.get()));
    };
  }
  if (src.chance(20)) {
    c->about = "set later";
    c->c->SetAbout(c->about);
  }
  PBT_EQ(c->c->GetName(), name, "counter name");
  n->ctrs[name] = std::move(c);
}

template <typename T>
void RefApply(Node* n, Ctr* c, int op, T v) {
  if (c->fn || op == 0) return RefSet<T>(n, c, v);
  if (!c->enabled) return;
  T cur = FromBits<T>(c->bits);
  T next = op == 1 ? static_cast<T>(cur + v) : static_cast<T>(cur - v);
  RefSet<T>(n, c, next);
}

void CheckExport(const proto::ComponentData& d, const Node& n) {
  PBT_EQ(d.name(), n.name, "exported name");
  PBT_EQ(d.configuration_size(), static_cast<int>(n.cfgs.size()),
         n.name << ": exported configuration entries");
  int i = 0;
  for (auto& [name, c] : n.cfgs) {  // in name order
    PBT_EQ(d.configuration(i).name(), name, "configuration " << i);
    Val v = FromEntry(d.configuration(i));
    PBT_EQ(v, c->v, n.name << "." << name << " exported value");
    i++;
  }
  PBT_EQ(d.statistics_size(), static_cast<int>(n.ctrs.size()),
         n.name << ": exported counters");
  i = 0;
  for (auto& [name, c] : n.ctrs) {
    const auto& e = d.statistics(i);
    PBT_EQ(e.name(), name, "statistics " << i);
    PBT_EQ(e.about(), c->about, "about of " << name);
    PBT_EQ(e.has_about(), !c->about.empty(), "has_about of " << name);
    Val v = FromEntry(e);
    PBT_EQ(static_cast<int>(v.t), static_cast<int>(c->t), "type of " << name);
    PBT_EQ(v.bits, c->bits, n.name << "." << name << " exported counter");
    i++;
  }
  PBT_EQ(d.component_data_size(), static_cast<int>(n.kids.size()),
         n.name << ": exported children");
  i = 0;
  for (auto& [name, k] : n.kids) CheckExport(d.component_data(i++), *k);
}

void CheckNode(const Node& n) {
  PBT_EQ(n.comp->component_name(), n.name, "component_name");
  PBT_EQ(n.comp->child_map().size(), n.kids.size(), "children");
  for (auto& [name, k] : n.kids) {
    PBT_ASSERT(n.comp->GetChildComponent(name) == k->comp.get(), "child " << name);
    PBT_ASSERT(k->comp->parent() == n.comp.get(), "parent of " << name);
  }
  PBT_EQ(n.comp->config_map().size(), n.cfgs.size(), "configs");
  for (auto& [name, c] : n.cfgs) {
    PBT_ASSERT(n.comp->GetConfig(name) == c->c.get(), "config " << name);
    PBT_EQ(FromConfig(c->c->GetConfigValue()), c->v, n.name << "." << name);
    PBT_EQ(c->c->HasConfigValue(), c->written, name << " HasConfigValue");
    PBT_EQ(c->callbacks, c->want_callbacks, name << " value written callbacks");
    PBT_ASSERT(c->parts[0] == c->parts[1] && c->parts[1] == c->parts[2],
               name << ": not all of the callbacks were called");
    PBT_ASSERT(!c->bad, name << " has no value in a value written callback");
    if (c->callbacks > 0)
      PBT_EQ(FromConfig(c->seen), c->v, name << " as seen by the last callback");
  }
  PBT_EQ(n.comp->counter_map().size(), n.ctrs.size(), "counters");
  for (auto& [name, c] : n.ctrs) {
    PBT_ASSERT(n.comp->GetCounter(name) == c->c.get(), "counter " << name);
    CounterValue v = c->c->GetCounterValue();
    uint64_t bits = 0;
    if (auto* u = std::get_if<uint64_t>(&v)) bits = *u;
    if (auto* i = std::get_if<int64_t>(&v)) bits = ToBits(*i);
    if (auto* d = std::get_if<double>(&v)) bits = ToBits(*d);
    PBT_EQ(bits, c->bits, n.name << "." << name << " counter value");
    PBT_EQ(c->c->IsEnabled(), c->enabled, name << " enabled");
    if (c->t == kUint)
      PBT_EQ(c->c->ToString(), std::to_string(c->bits), name << " ToString");
    if (c->t == kInt)
      PBT_EQ(c->c->ToString(), std::to_string(FromBits<int64_t>(c->bits)),
             name << " ToString");
  }
  PBT_EQ(n.done, n.want_done, n.name << " import done callbacks");
  PBT_ASSERT(n.comp->GetChildComponent("nope") == nullptr, "unknown child");
  PBT_ASSERT(n.comp->GetConfig("nope") == nullptr, "unknown config");
  PBT_ASSERT(n.comp->GetCounter("nope") == nullptr, "unknown counter");
}

void BuildTree(Tree* t, pbt::Src& src) {
  int nn = static_cast<int>(src.range(1, 5));
  for (int i = 0; i < nn; i++) {
    auto n = std::make_unique<Node>();
    n->name = "n" + std::to_string(src.draw(4)) + (src.flip() ? "x" : "");
    Node* parent = i == 0 ? nullptr : t->nodes[src.draw(t->nodes.size())].get();
    if (parent && parent->kids.count(n->name)) {
      // A second child of the same name is refused.
      Component dup(n->name);
      PBT_ASSERT(!parent->comp->AddChildComponent(dup).ok(), "duplicate child");
      PBT_ASSERT(dup.parent() == nullptr, "refused child has a parent");
      continue;
    }
    if (parent && src.flip()) {
      n->comp = std::make_unique<Component>(n->name, parent->comp.get());
    } else {
      n->comp = std::make_unique<Component>(n->name);
      if (parent)
        PBT_ASSERT(parent->comp->AddChildComponent(*n->comp).ok(), "add child");
    }
    n->parent = parent;
    if (parent) parent->kids[n->name] = n.get();
    int nc = static_cast<int>(src.draw(4));
    for (int k = 0; k < nc; k++) {
      std::string name = std::string("c") + static_cast<char>('0' + src.draw(6));
      auto c = std::make_unique<Cfg>();
      Val v = AnyVal(src, static_cast<VType>(src.draw(kNumV)));
      bool cb = src.flip();
      switch (v.t) {
        case kBool: MakeCfg<bool>(c.get(), name, v, cb); break;
        case kInt: MakeCfg<int64_t>(c.get(), name, v, cb); break;
        case kUint: MakeCfg<uint64_t>(c.get(), name, v, cb); break;
        case kDouble: MakeCfg<double>(c.get(), name, v, cb); break;
        case kString: MakeCfg<std::string>(c.get(), name, v, cb); break;
        default: MakeCfg<PhysicalValue>(c.get(), name, v, cb); break;
      }
      if (!cb) c->want_callbacks = -1;
      bool dup = n->cfgs.count(name) > 0;
      PBT_EQ(n->comp->AddConfig(c->c.get()).ok(), !dup, "AddConfig");
      if (!dup) n->cfgs[name] = std::move(c);
    }
    int nk = static_cast<int>(src.draw(4));
    for (int k = 0; k < nk; k++) {
      std::string name = std::string("k") + static_cast<char>('0' + k);
      switch (src.draw(3)) {
        case 0: MakeCtr<uint64_t>(n.get(), name, kUint, src); break;
        case 1: MakeCtr<int64_t>(n.get(), name, kInt, src); break;
        default: MakeCtr<double>(n.get(), name, kDouble, src); break;
      }
      PBT_ASSERT(n->comp->AddCounter(n->ctrs[name]->c.get()).ok(), "AddCounter");
      PBT_ASSERT(!n->comp->AddCounter(n->ctrs[name]->c.get()).ok(),
                 "counter added twice");
      // Listen to an earlier counter of the same type: no cycles.
      for (auto& [on, o] : n->ctrs)
        if (on != name && o->t == n->ctrs[name]->t && src.chance(40)) {
          o->listen(n->ctrs[name].get());
          o->listeners.push_back(name);
        }
    }
    if (src.flip()) {
      Node* np = n.get();
      n->cb = true;
      n->comp->AddImportDoneCallback([np]() {
        np->done++;
        // Children are told before their parents.
        for (auto& [kn, k] : np->kids)
          if (k->cb && k->done < np->done) np->done += 1000;
      });
    }
    t->nodes.push_back(std::move(n));
  }
  for (auto& n : t->nodes)
    for (auto& [name, c] : n->cfgs)
      if (c->want_callbacks < 0) c->want_callbacks = 0;
}

bool HasCallback(const Cfg& c);

void Written(Cfg* c, const Val& v, bool has_cb) {
  c->v = v;
  c->written = true;
  if (has_cb) c->want_callbacks++;
}

}  // namespace

PBT_SUITE(component_trees,
          "more than one component, with a configuration entry changed by an "
          "import and a counter changed",
          240000, 4000000) {
  Tree t;
  BuildTree(&t, src);
  // Which configurations have a callback: found by writing their own value.
  std::map<Cfg*, bool> has_cb;
  for (auto& n : t.nodes)
    for (auto& [name, c] : n->cfgs) {
      int before = c->callbacks;
      PBT_ASSERT(!c->c->HasConfigValue(), "a default counts as configured");
      PBT_ASSERT(c->c->SetConfigValue(ToConfig(c->v)).ok(), "SetConfigValue");
      has_cb[c.get()] = c->callbacks != before;
      PBT_ASSERT(c->callbacks - before <= 1, "one write, many callbacks");
      c->want_callbacks = c->callbacks;
      c->written = true;
    }
  auto check = [&] {
    for (auto& n : t.nodes) CheckNode(*n);
  };
  check();
  bool cfg_changed = false, ctr_changed = false;
  int steps = static_cast<int>(src.range(1, 14));
  for (int s = 0; s < steps; s++) {
    Node* n = t.nodes[src.draw(t.nodes.size())].get();
    switch (src.weighted({5, 3, 2, 5, 2, 1, 1})) {
      case 0: {  // counters
        if (n->ctrs.empty()) break;
        auto it = n->ctrs.begin();
        std::advance(it, src.draw(n->ctrs.size()));
        Ctr* c = it->second.get();
        int op = static_cast<int>(src.draw(3));
        ctr_changed = true;
        if (c->t == kUint) {
          uint64_t v = src.interesting();
          RefApply<uint64_t>(n, c, op, v);
          c->apply(op, v);
        } else if (c->t == kInt) {
          int64_t v = src.range(-1000000, 1000000);
          RefApply<int64_t>(n, c, op, v);
          c->apply(op, ToBits(v));
        } else {
          double v = static_cast<double>(src.range(-1000, 1000)) / 8;
          RefApply<double>(n, c, op, v);
          c->apply(op, ToBits(v));
        }
        ctx.log("counter ", n->name, ".", it->first, " op ", op);
        break;
      }
      case 1: {
        if (n->ctrs.empty()) break;
        auto it = n->ctrs.begin();
        std::advance(it, src.draw(n->ctrs.size()));
        it->second->enabled = src.flip();
        ctx.log(it->first, " enabled ", it->second->enabled);
        it->second->c->SetIsEnabled(it->second->enabled);
        break;
      }
      case 2: {  // set a configuration
        if (n->cfgs.empty()) break;
        auto it = n->cfgs.begin();
        std::advance(it, src.draw(n->cfgs.size()));
        Cfg* c = it->second.get();
        Val v = AnyVal(src, src.chance(70) ? c->v.t
                                           : static_cast<VType>(src.draw(kNumV)));
        bool ok = v.t == c->v.t;
        ctx.log("set ", n->name, ".", it->first, " ok ", ok);
        PBT_EQ(c->c->SetConfigValue(ToConfig(v)).ok(), ok, "SetConfigValue");
        if (ok) Written(c, v, has_cb[c]);
        break;
      }
      case 3: {  // import into a component: mutate its own export
        proto::ComponentData d;
        PBT_ASSERT(n->comp->Export(&d).ok(), "Export");
        // Walk the message in the order in which it is read and decide what the
        // import is to do.
        bool ok = true;
        std::vector<std::pair<Cfg*, Val>> writes;
        std::function<void(proto::ComponentData*, Node*)> walk =
            [&](proto::ComponentData* pd, Node* pn) {
              int extra = static_cast<int>(src.chance(20) ? 1 : 0);
              if (extra) {
                auto* e = pd->add_configuration();
                e->set_name("no_such_entry");
                e->set_bool_value(true);
              }
              // The same entry twice: both are read.
              if (pd->configuration_size() > 0 && src.chance(10)) {
                proto::ComponentValueEntry copy =
                    pd->configuration(static_cast<int>(src.draw(pd->configuration_size())));
                *pd->add_configuration() = copy;
              }
              // Any order will do.
              for (int i = 1; i < pd->configuration_size(); i++)
                if (src.chance(30))
                  pd->mutable_configuration()->SwapElements(
                      i, static_cast<int>(src.draw(i)));
              for (int i = 0; i < pd->configuration_size(); i++) {
                auto* e = pd->mutable_configuration(i);
                if (!pn->cfgs.count(e->name())) continue;
                Cfg* c = pn->cfgs[e->name()].get();
                int how = src.weighted({6, 6, 1, 1});
                if (how == 0) {
                  if (ok) writes.push_back({c, c->v});
                } else if (how == 1) {
                  Val v = AnyVal(src, c->v.t);
                  ToEntry(v, e);
                  if (ok) writes.push_back({c, v});
                } else if (how == 2) {
                  VType other = static_cast<VType>((c->v.t + 1 + src.draw(5)) % 6);
                  ToEntry(AnyVal(src, other), e);
                  ok = false;
                } else {
                  e->clear_name();
                  ok = false;
                }
              }
              if (src.chance(25)) {
                auto* k = pd->add_component_data();
                k->set_name("stranger");
                if (src.flip()) k->add_configuration()->set_name("n0");
              }
              for (int i = 1; i < pd->component_data_size(); i++)
                if (src.chance(40))
                  pd->mutable_component_data()->SwapElements(
                      i, static_cast<int>(src.draw(i)));
              for (int i = 0; i < pd->component_data_size(); i++) {
                auto* k = pd->mutable_component_data(i);
                if (!pn->kids.count(k->name())) continue;
                Node* kn = pn->kids[k->name()];
                if (src.chance(5)) {
                  k->clear_name();
                  ok = false;
                  continue;
                }
                walk(k, kn);
              }
            };
        if (src.chance(8)) {
          if (src.flip())
            d.set_name("wrong");
          else
            d.clear_name();
          ok = false;
        } else {
          walk(&d, n);
        }
        ctx.log("import into ", n->name, " ok ", ok, " writes ", writes.size());
        std::map<Cfg*, Val> before;
        std::map<Cfg*, int> cb_before;
        for (auto& nn : t.nodes)
          for (auto& [cn, c] : nn->cfgs) {
            before[c.get()] = c->v;
            cb_before[c.get()] = c->callbacks;
          }
        PBT_EQ(n->comp->Import(d).ok(), ok, "Import");
        if (ok) {
          for (auto& [c, v] : writes) {
            cfg_changed |= !(c->v == v);
            Written(c, v, has_cb[c]);
          }
        } else {
          // A refused import may have applied what came before the fault, but
          // nothing else.
          std::map<Cfg*, Val> may;
          for (auto& [c, v] : writes) may[c] = v;
          for (auto& nn : t.nodes)
            for (auto& [cn, c] : nn->cfgs) {
              Val now = FromConfig(c->c->GetConfigValue());
              if (!(now == before[c.get()]) &&
                  !(may.count(c.get()) && now == may[c.get()]))
                PBT_FAIL("a refused import set " << cn << " to " << now);
              c->v = now;
              c->want_callbacks = c->callbacks;
            }
          ctx.label("refused import");
        }
        break;
      }
      case 4: {
        ctx.log("import done on ", n->name);
        std::function<void(Node*)> done = [&](Node* x) {
          for (auto& [kn, k] : x->kids) done(k);
          if (x->cb) x->want_done++;
        };
        // The order check of the callbacks needs equal counts at the start.
        bool even = true;
        for (auto& nn : t.nodes)
          if (nn->cb && nn->done != t.nodes[0]->done) even = false;
        if (!even || n != t.nodes[0].get()) n = t.nodes[0].get();
        done(n);
        n->comp->ImportDone();
        break;
      }
      case 5:
        PBT_ASSERT(!n->comp->Export(nullptr).ok(), "Export(nullptr)");
        PBT_ASSERT(!n->comp->RemoveChildComponent("nope").ok(), "remove unknown");
        break;
      default: {
        // Remove a child: it is no longer exported.
        if (n->kids.empty()) break;
        auto it = n->kids.begin();
        std::advance(it, src.draw(n->kids.size()));
        ctx.log("remove ", it->first, " from ", n->name);
        Node* k = it->second;
        PBT_ASSERT(n->comp->RemoveChildComponent(it->first).ok(), "remove");
        n->kids.erase(it);
        PBT_ASSERT(n->comp->GetChildComponent(k->name) == nullptr, "removed");
        if (src.flip()) {
          PBT_ASSERT(n->comp->AddChildComponent(*k->comp).ok(), "add again");
          n->kids[k->name] = k;
        } else {
          k->cb = false;  // no longer reached from the root
          k->want_done = k->done;
        }
      }
    }
    check();
    proto::ComponentData d;
    PBT_ASSERT(t.nodes[0]->comp->Export(&d).ok(), "Export");
    CheckExport(d, *t.nodes[0]);
    // It survives the wire.
    proto::ComponentData d2;
    PBT_ASSERT(d2.ParseFromString(d.SerializeAsString()), "parse");
    CheckExport(d2, *t.nodes[0]);
  }
  ctx.nontrivial_if(t.nodes.size() > 1 && cfg_changed && ctr_changed);
}

// Wide and deep trees.
PBT_SUITE(large_trees, "more than 100 components or entries", 1500, 25000) {
  int n = src.chance(30) ? static_cast<int>(src.range(100, 400)) : static_cast<int>(src.range(1, 60));
  int shape = static_cast<int>(src.draw(3));  // wide, deep, random
  std::vector<std::unique_ptr<Component>> comps;
  std::vector<std::unique_ptr<Config<uint64_t>>> cfgs;
  std::vector<std::unique_ptr<SimpleCounter<uint64_t>>> ctrs;
  std::vector<std::vector<int>> kids(n);
  std::vector<int> order;  // by name
  auto name = [](int i) { return "n" + std::to_string(100000 + i); };
  for (int i = 0; i < n; i++) {
    int parent = i == 0 ? -1 : shape == 0 ? 0 : shape == 1 ? i - 1 : static_cast<int>(src.draw(i));
    comps.push_back(parent < 0 ? std::make_unique<Component>(name(i))
                               : std::make_unique<Component>(name(i), comps[parent].get()));
    if (parent >= 0) kids[parent].push_back(i);
    cfgs.push_back(std::make_unique<Config<uint64_t>>("cfg", i));
    PBT_ASSERT(comps.back()->AddConfig(cfgs.back().get()).ok(), "AddConfig");
    ctrs.push_back(std::make_unique<SimpleCounter<uint64_t>>("ctr", 3 * i));
    PBT_ASSERT(comps.back()->AddCounter(ctrs.back().get()).ok(), "AddCounter");
  }
  int extra = src.chance(30) ? static_cast<int>(src.range(100, 300)) : static_cast<int>(src.draw(20));
  std::vector<std::unique_ptr<SimpleCounter<uint64_t>>> more;
  std::vector<std::unique_ptr<Config<uint64_t>>> more_cfg;
  int host = static_cast<int>(src.draw(n));
  for (int i = 0; i < extra; i++) {
    more.push_back(std::make_unique<SimpleCounter<uint64_t>>("x" + std::to_string(100000 + i), i));
    PBT_ASSERT(comps[host]->AddCounter(more.back().get()).ok(), "AddCounter");
    more_cfg.push_back(std::make_unique<Config<uint64_t>>("y" + std::to_string(100000 + i), i));
    PBT_ASSERT(comps[host]->AddConfig(more_cfg.back().get()).ok(), "AddConfig");
  }
  ctx.log(n, " components, shape ", shape, ", ", extra, " more entries in one");
  proto::ComponentData d;
  PBT_ASSERT(comps[0]->Export(&d).ok(), "Export");
  std::function<void(const proto::ComponentData&, int)> walk = [&](const proto::ComponentData& x, int i) {
    PBT_EQ(x.name(), name(i), "exported name");
    int e = i == host ? extra : 0;
    PBT_EQ(x.configuration_size(), 1 + e, "exported configuration entries");
    PBT_EQ(x.statistics_size(), 1 + e, "exported counters");
    PBT_EQ(x.configuration(0).uint64_value(), cfgs[i]->GetValue(), "exported configuration");
    PBT_EQ(x.statistics(0).uint64_value(), ctrs[i]->GetValue(), "exported counter");
    for (int k = 0; k < e; k++) {
      PBT_EQ(x.configuration(1 + k).name(), more_cfg[k]->name(), "exported configuration entry " << k);
      PBT_EQ(x.configuration(1 + k).uint64_value(), more_cfg[k]->GetValue(), "exported configuration entry " << k);
      PBT_EQ(x.statistics(1 + k).uint64_value(), more[k]->GetValue(), "exported counter " << k);
    }
    PBT_EQ(x.component_data_size(), static_cast<int>(kids[i].size()), "exported children of " << i);
    for (size_t k = 0; k < kids[i].size(); k++) walk(x.component_data(static_cast<int>(k)), kids[i][k]);
  };
  walk(d, 0);
  // Change every value, and take them back by importing.
  uint64_t delta = 1 + src.draw(5);
  for (int i = 0; i < n; i++) {
    cfgs[i]->SetValue(cfgs[i]->GetValue() + delta);
    ctrs[i]->Increment(delta);
  }
  for (auto& c : more_cfg) c->SetValue(c->GetValue() + delta);
  PBT_ASSERT(comps[0]->Import(d).ok(), "Import");
  for (int i = 0; i < n; i++) {
    PBT_EQ(cfgs[i]->GetValue(), static_cast<uint64_t>(i), "imported configuration of component " << i);
    PBT_EQ(ctrs[i]->GetValue(), 3 * i + delta, "counter of component " << i << " after an import");
  }
  for (int i = 0; i < extra; i++)
    PBT_EQ(more_cfg[i]->GetValue(), static_cast<uint64_t>(i), "imported configuration entry " << i);
  ctx.nontrivial_if(n > 100 || extra > 100);
}

// A part that cannot be exported: the error is reported.
namespace {
class Stubborn : public SimpleCounter<uint64_t> {
 public:
  explicit Stubborn(std::string name) : SimpleCounter<uint64_t>(name) {}
  absl::Status Export(proto::ComponentValueEntry*) const override {
    return absl::InternalError("no");
  }
};
class StubbornConfig : public Config<bool> {
 public:
  explicit StubbornConfig(const std::string& name) : Config<bool>(name, false) {}
  absl::Status Export(proto::ComponentValueEntry*) const override { return absl::InternalError("no"); }
  absl::Status Import(const proto::ComponentValueEntry*) override { return absl::InternalError("no"); }
};
}  // namespace
PBT_SUITE(export_errors, "a part that refuses", 40000, 500000) {
  Component root("root");
  std::vector<std::unique_ptr<Component>> comps;
  Component* at = &root;
  for (int i = static_cast<int>(src.draw(4)); i > 0; i--) {
    comps.push_back(std::make_unique<Component>("c" + std::to_string(i), at));
    if (src.chance(70)) at = comps.back().get();
  }
  SimpleCounter<uint64_t> before("a"), after("z");
  PBT_ASSERT(at->AddCounter(&before).ok() && at->AddCounter(&after).ok(), "AddCounter");
  Stubborn s("m");
  StubbornConfig c("m");
  int what = static_cast<int>(src.draw(3));
  if (what == 1) PBT_ASSERT(at->AddCounter(&s).ok(), "AddCounter");
  if (what == 2) PBT_ASSERT(at->AddConfig(&c).ok(), "AddConfig");
  ctx.log("refusing part: ", what, " of ", comps.size());
  proto::ComponentData d;
  PBT_EQ(root.Export(&d).ok(), what == 0, "Export with refusing part " << what);
  PBT_ASSERT(!root.Export(nullptr).ok(), "Export to null");
  ctx.nontrivial_if(what != 0);
}
