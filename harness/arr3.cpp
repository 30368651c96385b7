// C11/C03/C06: longer histories of operations on one Array with another Array coming and going on its buffer.
#define AMAXN 2
#define AARGN 2
#define APOS(n) ((n) / 2)
#define AIDX(n) ((n) / 2)
#define ALEN(m) (m)
#define AKINDSARG 1
#define ASL (-1L)
#include "aops.h"
static const unsigned NH = 17;
template <class T> static void hstep(Array<T>& s, ARef& r, Array<T>& o, ARef& ro, unsigned op) {
  using E = El<T>; size_t n = r.n; unsigned char c = 0;
  switch (op) {
    case 0: c = vf_u8(); s.push_back(E::mk(c)); r.ins(r.n, &c, 1); break;
    case 1: c = vf_u8(); s.push_front(E::mk(c)); r.ins(0, &c, 1); break;
    case 2: { if (!n) vf_stop(); T t = s.shift(); VF_ASSERT(E::is(t, r.v[0]), "shift returns the first"); r.drop(1); break; }
    case 3: { if (!n) vf_stop(); T t = s.pop(); VF_ASSERT(E::is(t, r.v[n - 1]), "pop returns the last"); r.n--; break; }
    case 4: c = vf_u8(); s.resize(n + 2, E::mk(c)); r.ins(r.n, &c, 1); r.ins(r.n, &c, 1); break;
    case 5: if (!n) vf_stop(); c = vf_u8(); s[n / 2] = E::mk(c); r.v[n / 2] = c; break;
    case 6: o = s; ro = r; break;
    case 7: o = Array<T>(); ro.n = 0; break;
    case 8: if (n < 2) vf_stop(); s.insert(1, E::mk(c = vf_u8())); r.ins(1, &c, 1); break;
    case 9: if (n < 2) vf_stop(); o = s(1, (long)n - 2); ro.set(r.v + 1, n - 2); break;
    case 10: s.reserve(n + 3); VF_ASSERT(s.capacity() >= n + 3, "room reserved"); break;
    case 11: { if (!n) vf_stop(); unsigned char d[2] = {vf_u8(), vf_u8()}; s((long)n - 1, 2) = from<T>(d, 2); r.over(n - 1, d, 2); break; }
    case 12: { s += o; ARef t(ro); r.ins(r.n, t.v, t.n); break; }
    case 13: { Array<T> t(std::move(s)); s = std::move(o); o = std::move(t); ARef x(r); r = ro; ro = x; break; }
    case 14: if (n < 2) vf_stop(); s.resize(n - 2); r.n -= 2; break;
    case 15: s.clear(); r.n = 0; break;
    case 16: if (!n) vf_stop(); ++s; r.drop(1); break;
  }
}
template <class T> static void hist(unsigned d) {
  size_t live0 = vf_live(); long c0 = Obj::count;
  { Array<T> s, o; ARef r, ro; size_t n = vf_pick(0, 1) * 2; unsigned char t[4]; for (size_t i = 0; i < n; ++i) t[i] = vf_u8(); s = from<T>(t, n); r.set(t, n);
    for (unsigned i = 0; i < d; ++i) { hstep(s, r, o, ro, (unsigned)vf_pick(0, NH - 1)); VF_ASSERT(asame(s, r), "value after each operation"); VF_ASSERT(asame(o, ro), "the other array keeps its value"); }
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0 && Obj::count == c0, "everything released");
}
extern "C" void array_history_long() { hist<long>(TIER(4, 5)); }
extern "C" void array_history_string() { hist<String>(TIER(3, 4)); }
extern "C" void array_history_obj() { hist<Obj>(TIER(4, 5)); }
