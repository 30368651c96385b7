// C09: sub and subst.
#define CAPR 96
#include "hs.h"
#include "HashTable.h"
static const size_t NP = (size_t)-1;
static bool at(const Ref& h, size_t i, const Ref& d) { if (i + d.n > h.n) return false; return vf_eq(h.b + i, d.b, d.n); }
static void rsub(Ref& o, const Ref& t, const Ref& s, const Ref& p, int limit) { if (!s.n) { o = t; return; } size_t i = 0; int c = 0; while (i < t.n) { if ((limit == -1 || c < limit) && at(t, i, s)) { o.app(p.b, p.n); i += s.n; ++c; } else { o.app(t.b + i, 1); ++i; } } }
static void go(const String& s, const Ref& r, const String& x, const Ref& rx, const String& p, const Ref& rp, int limit) { Ref e; String o = limit == -1 ? s.sub(x, p) : s.sub(x, p, limit); rsub(e, r, rx, rp, limit); VF_ASSERT(same(o, e), "sub() replaces exactly the non-overlapping occurrences"); VF_ASSERT(same(s, r), "sub() leaves the receiver"); VF_ASSERT(same(x, rx) && same(p, rp), "sub() leaves its arguments"); o += 'q'; VF_ASSERT(same(s, r) && same(x, rx) && same(p, rp), "the result is independent"); e.app("q", 1); VF_ASSERT(same(o, e), "the result can be used"); vf_reach("done"); }
extern "C" void sub_text() {
  static const unsigned HK[] = {K_SUBSHARED, K_EXACT, K_OFFSET, K_COWED}; String s, al, x, p, a2, a3; Ref r, ra, rx, rp, r2, r3; build(s, r, al, ra, HK[vf_pick(0, 3)], vf_pick(0, TIER(7, 8))); build(x, rx, a2, r2, vf_flag() ? K_SUB : K_FRESH, vf_pick(0, TIER(3, 4))); build(p, rp, a3, r3, K_FRESH, vf_pick(0, 3));
  int lim = (int)vf_pick(0, 3); if (lim == 0) lim = -1; go(s, r, x, rx, p, rp, lim); VF_ASSERT(same(al, ra), "sub() affects no other String");
}
extern "C" void sub_alias() { // search and replacement taken from the text itself
  String s, al; Ref r, ra; size_t n = vf_pick(1, TIER(6, 7)); build(s, r, al, ra, K_FRESH, n); size_t i = vf_pick(0, n - 1), l = vf_pick(1, n - i), j = vf_pick(0, n - 1), m = vf_pick(1, n - j); int lim = vf_flag() ? -1 : (int)vf_pick(1, 2);
  if (i == 0 && l == n) { go(s, r, s, r, s, r, lim); return; } String x = s.substring((long)i, (long)l), p = s.substring((long)j, (long)m); go(s, r, x, Ref(r.b + i, l), p, Ref(r.b + j, m), lim);
}
extern "C" void sub_big() { static const unsigned z[] = {16, 17, 33}; size_t N = z[vf_pick(0, TIER(1, 2))]; char t[CAPR]; for (size_t i = 0; i < N; ++i) t[i] = i % 3 ? 'a' : 'b'; vf_bytes(t + N / 2, 2); vf_bytes(t + N - 2, 2); String s(t, N); static const char* const S[] = {"a", "ab", "aa", "aba", "b"}; static const char* const P[] = {"", "a", "ab", "aab"}; const char* x = S[vf_pick(0, 4)]; const char* p = P[vf_pick(0, 3)]; String sx(x), sp(p); int lim = (int)vf_pick(0, 4); if (!lim) lim = -1; go(s, Ref(t, N), sx, Ref(x, sx.length()), sp, Ref(p, sp.length()), lim); }
// keys that do not interact, so the order in which the map is walked does not matter
extern "C" void subst_map() {
  bd::HashTable<String, String> h; Ref m[2]; char t[2]; bool ha = vf_flag(), hb = vf_flag(); for (int k = 0; k < 2; ++k) { m[k].n = vf_pick(0, 2); for (size_t i = 0; i < m[k].n; ++i) { m[k].b[i] = (char)vf_u8(); vf_assume(m[k].b[i] != 'a' && m[k].b[i] != 'b'); } }
  if (ha) h["a"] = String(m[0].b, m[0].n); if (hb) h["b"] = String(m[1].b, m[1].n); String s, al; Ref r, ra; build(s, r, al, ra, vf_flag() ? K_SUBSHARED : K_EXACT, vf_pick(0, TIER(5, 6)));
  String o = s.subst(h); Ref e; for (size_t i = 0; i < r.n; ++i) { if (ha && r.b[i] == 'a') e.app(m[0].b, m[0].n); else if (hb && r.b[i] == 'b') e.app(m[1].b, m[1].n); else e.app(r.b + i, 1); }
  VF_ASSERT(same(o, e), "subst() applies every mapping"); VF_ASSERT(same(s, r) && same(al, ra), "subst() leaves the receiver"); VF_ASSERT(h.size() == (size_t)ha + hb, "subst() leaves the map"); if (ha) VF_ASSERT(same(h["a"], m[0]), "subst() leaves the map"); vf_reach("done");
}
// any keys, in any order of application: the result is that of applying one sub() per key, in some order
extern "C" void subst_order() {
  static const char* const K[] = {"a", "bb", "ab", "c", "abc", "longer than any text here", ""}; static const char* const P[] = {"b", "", "ca", "a", "ab", "bb", "cc"};
  bd::HashTable<String, String> h; unsigned k[3], v[3], nk = (unsigned)vf_pick(0, 3); for (unsigned i = 0; i < nk; ++i) { k[i] = (unsigned)vf_pick(i ? k[i - 1] + 1 : 0, 6); v[i] = (unsigned)vf_pick(0, TIER(1, 3)); v[i] = (v[i] + k[i]) % 7; vf_assume(k[i] <= 6); if (i < nk - 1) vf_assume(k[i] < 6); }
  for (unsigned i = 0; i < nk; ++i) h[K[k[i]]] = P[v[i]];
  Ref r; r.n = vf_pick(0, TIER(4, 5)); for (size_t i = 0; i < r.n; ++i) r.b[i] = (char)vf_u8(); String s(r.b, r.n), o = s.subst(h); static const unsigned char pm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; bool any = false;
  for (auto& q : pm) { Ref c = r; for (unsigned char j : q) if (j < nk) { Ref e; const char *x = K[k[j]], *y = P[v[j]]; rsub(e, c, Ref(x, __builtin_strlen(x)), Ref(y, __builtin_strlen(y)), -1); c = e; } any |= same(o, c); }
  VF_ASSERT(any, "subst() applies one replacement per key"); VF_ASSERT(same(s, r), "subst() leaves the receiver"); VF_ASSERT(h.size() == nk, "subst() leaves the map"); for (unsigned i = 0; i < nk; ++i) VF_ASSERT(h[K[k[i]]] == P[v[i]], "subst() leaves the map"); vf_reach("done");
}
