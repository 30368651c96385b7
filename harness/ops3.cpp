// C02/C03/C06: longer histories of editing operations on one String with another String coming and going on its buffer.
#include "hs.h"
#include <utility>
static const unsigned NH = 16;
static void hstep(String& s, Ref& r, String& o, Ref& ro, unsigned op) {
  size_t n = r.n; char c = (char)0;
  switch (op) {
    case 0: c = (char)vf_u8(); s += c; r.app(&c, 1); break;
    case 1: c = (char)vf_u8(); s.insert(size_t(0), c); r.ins(0, &c, 1); break;
    case 2: if (!n) vf_stop(); ++s; r.drop(1); break;
    case 3: if (!n) vf_stop(); --s; r.cut(1); break;
    case 4: c = (char)vf_u8(); s.resize(n + 2, c); r.app(&c, 1); r.app(&c, 1); break;
    case 5: if (!n) vf_stop(); c = (char)vf_u8(); s[n / 2] = c; r.b[n / 2] = c; break;
    case 6: o = s; ro = r; break;
    case 7: o = String(); ro.n = 0; break;
    case 8: { const char* p = s.c_str(); VF_ASSERT(vf_eq(p, r.b, n) && p[n] == 0, "c_str shows the value"); break; }
    case 9: if (n < 2) vf_stop(); o = s(1, (long)n - 2); ro.set(r.b + 1, n - 2); break;
    case 10: s.reserve(n + 3); VF_ASSERT(s.capacity() >= n + 3, "room reserved"); break;
    case 11: { if (!n) vf_stop(); char d[2]; vf_bytes(d, 2); s((long)n - 1, 2) = String(d, 2); r.over(n - 1, d, 2); break; }
    case 12: s.hash(); break;
    case 13: { s += o; Ref t(ro); r.app(t.b, t.n); break; }
    case 14: { std::swap(s, o); Ref t(r); r = ro; ro = t; break; }
    case 15: { if (n < 2) vf_stop(); s.resize(n - 2); r.cut(2); break; }
  }
}
static void hist(unsigned d, bool hash) {
  size_t live0 = vf_live();
  { String s, o; Ref r, ro; size_t n = vf_pick(0, 1) * 2; char t[4]; vf_bytes(t, n); s = String(t, n); r.set(t, n);
    for (unsigned i = 0; i < d; ++i) { hstep(s, r, o, ro, (unsigned)vf_pick(0, NH - 1)); VF_ASSERT(same(s, r), "value after each operation"); VF_ASSERT(same(o, ro), "the other object keeps its value"); }
    if (hash) { String f(r.b, r.n); VF_ASSERT(s.hash() == f.hash() && s == f, "equal to, and hashed as, the same value built directly"); }
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0, "no leak");
}
extern "C" void string_history() { hist(TIER(4, 5), false); }
extern "C" void hash_history() { hist(TIER(3, 4), true); }
