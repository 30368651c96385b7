// C02: one or two editing operations from every reachable kind of String state, against a reference value.
#include "ops.h"
static void run(unsigned steps, unsigned kinds) {
  size_t live0 = vf_live();
  { String s, alias; Ref r, ar; unsigned k = vf_pick(0, kinds); size_t n = vf_pick(0, MAXN);
    build(s, r, alias, ar, k, n);
    for (unsigned i = 0; i < steps; ++i) {
      unsigned op = vf_pick(0, NOPS - 1);
      step(s, r, op);
      VF_ASSERT(same(s, r), "value after the operation");
      VF_ASSERT(s.size() == r.n && s.isEmpty() == (r.n == 0) && (!s) == (r.n == 0), "size and emptiness agree with the value");
    }
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0, "no leak");
}
extern "C" void string_ops() { run(1, K_NKINDS - 1); }
