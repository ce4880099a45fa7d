ID="s16-param-nested-args"; PROPERTY="C15"
NEEDS="a template argument that is itself a function of an unbound parameter"
BREAKS="A parameter inside an argument expression is bound to the arguments of the wrong instantiation."
EDITS=[("mpact/sim/decoder/template_expression.cc","return (*args)[param_->position()]->Evaluate(nullptr);","return (*args)[param_->position()]->Evaluate(args);")]
SRCS=["mpact/sim/decoder/template_expression.cc"]
DEMO='''#include "mpact/sim/decoder/template_expression.h"
using namespace mpact::sim::machine_description::instruction_set;
int main() {
  TemplateFormal f0("a", 0), f1("b", 1);
  // Argument 0 refers to parameter 1 of the enclosing template.
  TemplateInstantiationArgs args;
  args.push_back(new TemplateParam(&f1));
  args.push_back(new TemplateConstant(5));
  TemplateParam p(&f0);
  auto r = p.Evaluate(&args);
  if (!r.ok()) return 2;
  return r.value()->IsConstant() ? 1 : 0;
}
'''
