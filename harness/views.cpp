// C04: NUL-terminated views and copies.
#define CAPR 160
#include "hs.h"
#include <string>
static void views(unsigned k, size_t n) {
  size_t live0 = vf_live();
  { String s, alias; Ref r, ar; build(s, r, alias, ar, k, n);
    unsigned w = (unsigned)vf_pick(0, 7);
    switch (w) {
      case 0: { const char* p = s.c_str(); VF_ASSERT(p[n] == 0, "c_str() is terminated"); VF_ASSERT(n == 0 || vf_eq(p, r.b, n), "c_str() shows the value"); VF_ASSERT(s.c_str() == p, "c_str() is stable"); break; }
      case 1: { const char* p = *s; VF_ASSERT(p[n] == 0, "operator* is terminated"); VF_ASSERT(n == 0 || vf_eq(p, r.b, n), "operator* shows the value"); break; }
      case 2: { char* d = s.dup(); VF_ASSERT(d[n] == 0, "dup() is terminated"); VF_ASSERT(n == 0 || vf_eq(d, r.b, n), "dup() copies the value"); d[0] = 'x'; VF_ASSERT(vf_objsize(d) == n + 1, "dup() is a block of its own"); delete[] d; break; }
      case 3: { char* buf = new char[n + 3]; for (size_t i = 0; i < n + 3; ++i) buf[i] = '#'; size_t q = vf_pick(0, n + 2); if (q == n + 2) q = (size_t)-1; size_t c = s.copy(buf, q); size_t e = q < n ? q : n; VF_ASSERT(c == e, "copy() returns the number copied"); VF_ASSERT(vf_eq(buf, r.b, e), "copy() copies the value"); for (size_t i = e; i < n + 3; ++i) VF_ASSERT(buf[i] == '#', "copy() writes nothing else"); delete[] buf; break; }
      case 4: { std::string t = s; VF_ASSERT(t.size() == n && vf_eq(t.data(), r.b, n), "conversion to std::string"); String u(t); VF_ASSERT(same(u, r), "construction from std::string"); String v("zz"); v = t; VF_ASSERT(same(v, r), "assignment of std::string"); VF_ASSERT(v.c_str()[n] == 0, "terminated after assignment"); break; }
      case 5: { if (!ar.n) return; const char* q = alias.c_str(); const char* p = s.c_str(); VF_ASSERT(p[n] == 0 && q[ar.n] == 0, "both sharers have terminated views"); VF_ASSERT(vf_eq(p, r.b, n) && vf_eq(q, ar.b, ar.n), "both sharers keep their views"); break; }
      case 6: { // a view of a value built by a further edit
        unsigned e = (unsigned)vf_pick(0, 5); char c = (char)vf_u8();
        if (e == 0) { s += c; r.app(&c, 1); } else if (e == 1) { if (!n) return; s -= size_t(1); r.cut(1); } else if (e == 2) { if (!n) return; s += size_t(1); r.drop(1); } else if (e == 3) { if (n < 2) return; s.slice(1, 1); r.drop(1); r.n = 1; } else if (e == 4) { s.resize(n + 2, c); r.app(&c, 1); r.app(&c, 1); } else { s.reserve(n + 9); }
        const char* p = s.c_str(); VF_ASSERT(p[r.n] == 0, "c_str() is terminated after an edit"); VF_ASSERT(r.n == 0 || vf_eq(p, r.b, r.n), "c_str() shows the edited value"); break; }
      default: { const String& cs = s; const String t = cs; const char* p = t.c_str(); VF_ASSERT(p[n] == 0 && (n == 0 || vf_eq(p, r.b, n)), "c_str() of a const copy"); break; }
    }
    VF_ASSERT(same(s, r), "taking a view changes nothing");
    VF_ASSERT(same(alias, ar), "taking a view changes no sharer");
    String t(s); VF_ASSERT(same(t, r), "copy after taking a view");
    vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "no leak");
}
extern "C" void views_small() { views((unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, TIER(8, 12))); }
extern "C" void views_big() { static const unsigned b[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128}; views((unsigned)vf_pick(0, K_NKINDS - 1), b[vf_pick(0, 10)]); }
// construction from C strings
extern "C" void views_cstr() {
  size_t n = vf_pick(0, TIER(12, 30)); char* t = new char[n + 1]; vf_nzbytes(t, n); t[n] = 0;
  { String s(t); VF_ASSERT(same_const(s, t, n), "construction from a C string"); VF_ASSERT(s.c_str()[n] == 0, "terminated"); String u; u = (const char*)t; VF_ASSERT(same_const(u, t, n), "assignment of a C string"); VF_ASSERT(vf_eq(u.c_str(), t, n + 1), "terminated copy");
    if (n) { String v(t[0]); VF_ASSERT(same_const(v, t, 1) && v.c_str()[1] == 0, "construction from a character"); }
    String w((const char*)nullptr); VF_ASSERT(w.isEmpty() && w.c_str()[0] == 0, "a null C string is empty"); vf_reach("done"); }
  delete[] t;
}
