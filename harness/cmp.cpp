// C05: ordering.
#define CAPR 80
#include "hs.h"
// branch-free sign of the comparison of two byte strings
static int refcmp(const char* a, size_t n, const char* b, size_t m) {
  int res = n < m ? -1 : n > m ? 1 : 0; size_t k = n < m ? n : m;
  for (size_t i = k; i-- > 0;) { int x = (unsigned char)a[i], y = (unsigned char)b[i]; int d = (int)(x > y) - (int)(x < y); int ne = -(int)(x != y); res = (d & ne) | (res & ~ne); }
  return res;
}
static bool sg(int got, int want) { return ((got > 0) == (want > 0)) & ((got < 0) == (want < 0)); }
static size_t mn(size_t a, size_t b) { return a < b ? a : b; }
static void two(const String& a, const Ref& ra, const String& b, const Ref& rb) {
  int w = refcmp(ra.b, ra.n, rb.b, rb.n);
  VF_ASSERT(sg(a.compare(b), w), "compare()"); VF_ASSERT(sg(b.compare(a), -w), "compare() the other way round");
  VF_ASSERT((a == b) == (w == 0) && (b == a) == (w == 0), "=="); VF_ASSERT((a != b) == (w != 0), "!=");
  VF_ASSERT((a < b) == (w < 0), "<"); VF_ASSERT((a <= b) == (w <= 0), "<="); VF_ASSERT((a > b) == (w > 0), ">"); VF_ASSERT((a >= b) == (w >= 0), ">=");
  size_t k = vf_pick(0, (ra.n > rb.n ? ra.n : rb.n) + 1);
  VF_ASSERT(sg(a.compare(b, k), refcmp(ra.b, mn(ra.n, k), rb.b, mn(rb.n, k))), "compare() of the first n characters");
  VF_ASSERT(same(a, ra) && same(b, rb), "comparing changes nothing");
}
static void cs(const String& a, const Ref& ra, size_t m) {
  char* t = new char[m + 1]; vf_nzbytes(t, m); t[m] = 0; const char* c = t;
  int w = refcmp(ra.b, ra.n, t, m);
  unsigned o = (unsigned)vf_pick(0, 3);
  if (o == 0) { VF_ASSERT(sg(a.compare(c), w), "compare(cstring)"); VF_ASSERT((a == c) == (w == 0), "== cstring"); VF_ASSERT((a != c) == (w != 0), "!= cstring"); }
  else if (o == 1) { VF_ASSERT((a < c) == (w < 0), "< cstring"); VF_ASSERT((a <= c) == (w <= 0), "<= cstring"); VF_ASSERT((a > c) == (w > 0), "> cstring"); VF_ASSERT((a >= c) == (w >= 0), ">= cstring"); }
  else if (o == 2) { size_t k = vf_pick(0, (ra.n > m ? ra.n : m) + 1); VF_ASSERT(sg(a.compare(c, k), refcmp(ra.b, mn(ra.n, k), t, mn(m, k))), "compare(cstring) of the first n characters"); }
  else { VF_ASSERT((c == a) == (w == 0), "cstring =="); VF_ASSERT((c < a) == (w > 0), "cstring <"); VF_ASSERT((c >= a) == (w <= 0), "cstring >="); }
  delete[] t;
}
extern "C" void cmp_pairs() {
  String a, b, x, y; Ref ra, rb, rx, ry; size_t n = vf_pick(0, TIER(4, 6)), m = vf_pick(0, TIER(4, 6));
  build(a, ra, x, rx, (unsigned)vf_pick(0, K_NKINDS - 1), n); static const unsigned kb[] = {K_FRESH, K_EXACT, K_SUB, K_OFFSET, K_SHARED, K_TAIL}; build(b, rb, y, ry, kb[vf_pick(0, 5)], m);
  two(a, ra, b, rb); VF_ASSERT(same(x, rx) && same(y, ry), "sharers unchanged"); vf_reach("done");
}
// Two windows of one buffer
extern "C" void cmp_same_buffer() {
  size_t N = TIER(4, 5); char t[8]; vf_bytes(t, N); String base(t, N);
  size_t s1 = vf_pick(0, N), l1 = vf_pick(0, N - s1), s2 = vf_pick(0, N), l2 = vf_pick(0, N - s2);
  String a = base.substring((long)s1, (long)l1), b = base.substring((long)s2, (long)l2); Ref ra(t + s1, l1), rb(t + s2, l2);
  two(a, ra, b, rb); vf_reach("done");
}
extern "C" void cmp_cstr() {
  String a, x; Ref ra, rx; build(a, ra, x, rx, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, TIER(4, 5)));
  cs(a, ra, vf_pick(0, TIER(4, 5))); VF_ASSERT(same(a, ra) && same(x, rx), "comparing changes nothing"); vf_reach("done");
}
extern "C" void cmp_big() {
  static const unsigned z[] = {15, 16, 17, 31, 32, 33}; String a, b, x; Ref ra, rb, rx;
  size_t n = z[vf_pick(0, TIER(2, 5))]; int d = (int)vf_pick(0, 2) - 1; size_t m = n + d;
  build(a, ra, x, rx, vf_flag() ? K_SUBSHARED : K_EXACT, n); Ref ry; String y; build(b, rb, y, ry, vf_flag() ? K_OFFSET : K_FRESH, m);
  if (vf_flag()) two(a, ra, b, rb); else cs(a, ra, m); vf_reach("done");
}
