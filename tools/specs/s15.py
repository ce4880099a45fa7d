ID="s15-recipe-wide-mask"; PROPERTY="C14"
NEEDS="a mask that selects 63 or more bits"
BREAKS="The most significant selected bit is lost."
EDITS=[("mpact/sim/decoder/extract.cc","""  if (mask != 0) {
    recipe.push_back(
        ExtractionStep{mask << total_width, shift - width - total_width});
  }
  return recipe;""","""  if (mask != 0) {
    if (total_width + width > 62) mask >>= 1;
    recipe.push_back(
        ExtractionStep{mask << total_width, shift - width - total_width});
  }
  return recipe;""")]
SRCS=["mpact/sim/decoder/extract.cc"]
DEMO='''#include "mpact/sim/decoder/extract.h"
using namespace mpact::sim::decoder::bin_format;
int main() {
  auto r = GetExtractionRecipe(0xffffffff7fffffffULL);
  return ExtractValue(~0ULL, r) == 0x7fffffffffffffffULL ? 0 : 1;
}
'''
