ID="s08-import-unknown-child"; PROPERTY="C07"
NEEDS="imported data in which a child unknown to the component comes before a known one"
BREAKS="The configuration of children listed after an unknown child is silently not imported."
EDITS=[("mpact/sim/generic/component.cc","    if (child == nullptr) continue;\n    auto status = child->Import(child_data);","    if (child == nullptr) break;\n    auto status = child->Import(child_data);")]
SHIM=True; PROTO=True
SRCS=["mpact/sim/generic/component.cc"]
DEMO='''#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
using namespace mpact::sim::generic;
int main() {
  Component top("top"), a("a", &top);
  Config<uint64_t> c("n", 1);
  if (!a.AddConfig(&c).ok()) return 2;
  mpact::sim::proto::ComponentData d;
  d.set_name("top");
  d.add_component_data()->set_name("other");
  auto* e = d.add_component_data();
  e->set_name("a");
  auto* v = e->add_configuration();
  v->set_name("n");
  v->set_uint64_value(7);
  if (!top.Import(d).ok()) return 2;
  return c.GetValue() == 7 ? 0 : 1;
}
'''
