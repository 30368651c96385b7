// C11: one Array operation from every kind of state, for plain, String and lifetime-tracked elements.
#include "aops.h"
template <class T> static void one() {
  size_t live0 = vf_live(); long c0 = Obj::count;
  { Array<T> s, alias; ARef r, ar; unsigned k = vf_pick(0, A_NKINDS - 1); size_t n = vf_pick(0, AMAXN);
    abuild(s, r, alias, ar, k, n);
    astep(s, r, (unsigned)vf_pick(0, ANOPS - 1));
    VF_ASSERT(asame(s, r), "value after the operation");
    VF_ASSERT(s.size() == r.n && s.isEmpty() == (r.n == 0) && (!s) == (r.n == 0) && (bool)s == (r.n != 0), "size and emptiness agree with the value");
    VF_ASSERT(asame(alias, ar), "arrays sharing the buffer keep their value");
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0 && Obj::count == c0, "everything released");
}
extern "C" void array_long() { one<long>(); }
extern "C" void array_string() { one<String>(); }
extern "C" void array_obj() { one<Obj>(); }
