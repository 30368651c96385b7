// C11/C03: pairs of Array operations, and longer arrays.
#define AMAXN 2
#define AARGN 2
#define APOS(n) ({ size_t p_ = vf_pick(0, 2); p_ == 0 ? (size_t)0 : p_ == 1 ? (n) / 2 : (n); })
#define AIDX(n) ({ vf_flag() ? (n) - 1 : 0; })
#define ALEN(m) (m)
#define AKINDSARG 2
#define ASL ({ static const long l_[] = {-1, 1, -2, 0}; l_[vf_pick(0, TIER(2, 3))]; })
#define ACAP 600
#include "aops.h"
template <class T> static void pairs(unsigned nk, bool big) {
  size_t live0 = vf_live(); long c0 = Obj::count;
  { Array<T> s, alias; ARef r, ar; static const unsigned ks[] = {A_SHIFTED, A_SUBSHARED, A_FRESH, A_SIZED, A_SHARED, A_POPPED}; unsigned k = ks[vf_pick(0, nk)];
    static const unsigned bigs[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128}; size_t n = big ? bigs[vf_pick(0, TIER(6, 11))] : 2;
    abuild(s, r, alias, ar, k, n);
    unsigned op = (unsigned)vf_pick(0, ANOPS - 2); if (big && (op == 47 || op == 48)) vf_stop();
    unsigned o2 = big ? 0 : (unsigned)vf_pick(0, ANOPS - 2); if (TIER(1, 0) && (op == 60 || o2 == 60)) vf_stop();   // wide and covered alone; in pairs only in the thorough tier
    astep(s, r, op);
    VF_ASSERT(asame(s, r), "value after the first operation");
    if (!big) { astep(s, r, o2); VF_ASSERT(asame(s, r), "value after the second operation"); }
    VF_ASSERT(asame(alias, ar), "arrays sharing the buffer keep their value");
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0 && Obj::count == c0, "everything released");
}
extern "C" void array_pairs_long() { pairs<long>(TIER(1, 5), false); }
extern "C" void array_pairs_string() { pairs<String>(TIER(0, 5), false); }
extern "C" void array_pairs_obj() { pairs<Obj>(TIER(1, 5), false); }
extern "C" void array_big_long() { pairs<long>(TIER(2, 5), true); }
extern "C" void array_big_obj() { pairs<Obj>(TIER(2, 5), true); }
