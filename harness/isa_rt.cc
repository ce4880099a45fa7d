// Loads the code emitted for one case and writes what its decoder does.
#include <dlfcn.h>

#include <cstdio>
#include <string>

#include "isa_glue.h"

namespace {
// Makes the code under test part of this program.
class State : public mpact::sim::generic::ArchState {
 public:
  State() : ArchState("state") {}
};
}  // namespace

int main(int argc, char** argv) {
  if (argc < 3) return 3;
  State state;
  mpact::sim::generic::Instruction* inst = new mpact::sim::generic::Instruction(0, &state);
  inst->DecRef();
  void* so = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
  if (so == nullptr) {
    fprintf(stderr, "%s\n", dlerror());
    return 4;
  }
  auto fcn = reinterpret_cast<void (*)(mpact::sim::generic::ArchState*, std::string*)>(
      dlsym(so, "IsaMain"));
  if (fcn == nullptr) return 5;
  std::string out;
  fcn(&state, &out);
  FILE* f = fopen(argv[2], "w");
  if (f == nullptr) return 6;
  fwrite(out.data(), 1, out.size(), f);
  fclose(f);
  _exit(0);
}
