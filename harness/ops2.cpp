// C02: pairs of editing operations.
#define MAXN TIER(1, 2)
#define ARGN TIER(2, 3)
#define POS(n) ({ size_t p_ = vf_pick(0, 2); p_ == 0 ? (size_t)0 : p_ == 1 ? (n) / 2 : (n); })
#define IDX(n) ({ vf_flag() ? (n) - 1 : 0; })
#define LEN(m) ({ vf_flag() ? (m) : 1; })
#define ARGKINDS 2
#define SL ({ static const long l_[] = {-1, 1, -2, 0}; l_[vf_pick(0, TIER(2, 3))]; })
#include "ops.h"
static void run(unsigned lo, unsigned hi) {
  size_t live0 = vf_live();
  { String s, alias; Ref r, ar; static const unsigned ks[] = {K_EXACT, K_OFFSET, K_SUBSHARED, K_FRESH, K_SHARED, K_TAIL}; unsigned k = ks[vf_pick(0, TIER(2, 5))]; size_t n = TIER(2, vf_pick(1, 2));
    build(s, r, alias, ar, k, n);
    unsigned o1 = (unsigned)vf_pick(lo, hi), o2 = (unsigned)vf_pick(0, NOPS - 1); if (TIER(1, 0) && (o1 == 55 || o1 == 59 || o1 == 61 || o2 == 55 || o2 == 59 || o2 == 61)) vf_stop();   // wide and covered alone; in pairs only in the thorough tier
    step(s, r, o1);
    VF_ASSERT(same(s, r), "value after the first operation");
    step(s, r, o2);
    VF_ASSERT(same(s, r), "value after the second operation");
    VF_ASSERT(same(alias, ar), "objects sharing the buffer keep their value");
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0, "no leak");
}
extern "C" void string_pairs() { run(0, NOPS - 1); }
