ID="s17-resource-case"; PROPERTY="C16"
NEEDS="two resources whose names differ but whose pascal case names do not"
BREAKS="Two different resource names end up as one resource."
EDITS=[("mpact/sim/decoder/resource.cc","""  auto iter = resource_map_.find(name);
  if (iter != resource_map_.end()) return iter->second;
  auto result""","""  auto iter = resource_map_.find(name);
  if (iter != resource_map_.end()) return iter->second;
  for (auto& [unused, resource] : resource_map_) {
    if (resource->pascal_name() == ToPascalCase(name)) return resource;
  }
  auto result""")]
SRCS=["mpact/sim/decoder/resource.cc","mpact/sim/decoder/format_name.cc"]
DEMO='''#include "mpact/sim/decoder/resource.h"
using namespace mpact::sim::machine_description::instruction_set;
int main() {
  ResourceFactory f;
  auto* a = f.GetOrInsertResource("next_pc");
  auto* b = f.GetOrInsertResource("nextPc");
  return a != b && b->name() == "nextPc" ? 0 : 1;
}
'''
