ID="s13-action-id-reuse"; PROPERTY="C12"
NEEDS="several actions on one address, the first cleared, another one set, and the ids used afterwards"
BREAKS="A new action gets the id of a live one, so it is lost (and leaked) and clearing one clears the other."
EDITS=[("mpact/sim/generic/action_point_manager_base.cc","  int id = ap->next_id++;","  int id = ap->action_map.size();")]
SHIM=True
SRCS=["mpact/sim/generic/action_point_manager_base.cc"]
DEMO='''#include "mpact/sim/generic/action_point_manager_base.h"
using namespace mpact::sim::generic;
struct M : ActionPointMemoryInterface {
  absl::Status WriteBreakpointInstruction(uint64_t) override { return absl::OkStatus(); }
  absl::Status WriteOriginalInstruction(uint64_t) override { return absl::OkStatus(); }
};
int main() {
  M m;
  ActionPointManagerBase a(&m);
  int n = 0;
  auto f = [&n](uint64_t, int) { n++; };
  int i0 = a.SetAction(16, f).value();
  (void)a.SetAction(16, f).value();
  if (!a.ClearAction(16, i0).ok()) return 2;
  (void)a.SetAction(16, f).value();
  a.PerformActions(16);
  return n == 2 ? 0 : 1;
}
'''
