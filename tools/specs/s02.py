ID="s02-delay-line-grow"; PROPERTY="C02"
NEEDS="the line has wrapped, an item sits in its first slot, and a later submission has a latency that makes the line grow"
BREAKS="An item that was in the first slot when a wrapped line grows is delivered later than its latency says."
EDITS=[("mpact/sim/generic/delay_line.h","for (int index = 0; index < current_; ++index)","for (int index = 1; index < current_; ++index)")]
DEMO='''#include "mpact/sim/generic/delay_line.h"
using namespace mpact::sim::generic;
struct Rec { int* p; int v; Rec(int* p, int v) : p(p), v(v) {} void Apply() { *p = v; } };
int main() {
  DelayLine<Rec> dl(4);
  int a = 0, b = 0;
  dl.Advance(); dl.Advance();   // current slot is 2
  dl.Add(2, &a, 1);             // lands in slot 0
  dl.Add(9, &b, 1);             // grows the line
  dl.Advance();
  if (a) return 1;
  dl.Advance();
  return a == 1 ? 0 : 1;
}
'''
