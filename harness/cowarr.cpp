// C01: Arrays sharing one buffer.
#define AMAXN 2
#define AARGN 2
#define APOS(n) ({ size_t p_ = vf_pick(0, 2); p_ == 0 ? (size_t)0 : p_ == 1 ? (n) / 2 : (n); })
#define AIDX(n) ({ vf_flag() ? (n) - 1 : 0; })
#define ALEN(m) (m)
#define AKINDSARG 2
#define ASL ({ static const long l_[] = {-1, 1, -2, 0}; l_[vf_pick(0, TIER(2, 3))]; })
#include "aops.h"
template <class T> struct Hashed { static const bool v = true; static void f(Array<T>& a) { a.hash(); } }; template <> struct Hashed<Obj> { static const bool v = false; static void f(Array<Obj>&) {} };
template <class T> static void cow() {
  size_t live0 = vf_live(); long c0 = Obj::count;
  { Array<T> a, b; ARef ra, rb, x; { Array<T> dummy; abuild(a, ra, dummy, x, vf_flag() ? A_FRESH : vf_flag() ? A_SIZED : A_FILLED, 3); }
    size_t s = 0, l = 3; switch (vf_pick(0, 4)) { case 0: b = a; break; case 1: b = a.subarray(0, 2); l = 2; break; case 2: b = a(1, 1); s = 1; l = 1; break; case 3: b = a; b.shift(); s = 1; l = 2; break; default: b = a; b.pop(); l = 2; break; }
    rb.set(ra.v + s, l);
    VF_ASSERT(asame(a, ra) && asame(b, rb), "a copy has the value of its source");
    if (Hashed<T>::v && vf_flag()) { Hashed<T>::f(a); Hashed<T>::f(b); }
    { bool ca = vf_flag(); Array<T> c(ca ? a : b); ARef rc(ca ? ra : rb);
      VF_ASSERT(asame(c, rc), "a copy of a copy has the value of its source");
      bool onb = vf_flag(); astep(onb ? b : a, onb ? rb : ra, (unsigned)vf_pick(0, ANOPS - 1));
      VF_ASSERT(asame(a, ra) && asame(b, rb) && asame(c, rc), "an operation on one array shows in no other"); vf_reach("op"); }
    VF_ASSERT(asame(a, ra) && asame(b, rb), "destroying one array shows in no other");
    vf_reach("done"); }
  VF_ASSERT(vf_live() == live0 && Obj::count == c0, "every buffer and element released exactly once");
}
extern "C" void cow_array_long() { cow<long>(); }
extern "C" void cow_array_string() { cow<String>(); }
extern "C" void cow_array_obj() { cow<Obj>(); }
