// C07: searching.
#define CAPR 80
#include "hs.h"
static const size_t NP = (size_t)-1;
static int low(unsigned char c) { return c + (((unsigned)((c >= 'A') & (c <= 'Z'))) << 5); }
static bool at(const Ref& h, size_t i, const Ref& n, bool ci) { bool ok = true; for (size_t j = 0; j < n.n; ++j) { int x = (unsigned char)h.b[i + j], y = (unsigned char)n.b[j]; if (ci) { x = low(x); y = low(y); } ok &= x == y; } return ok; }
static size_t sel(bool c, size_t a, size_t b) { size_t m = (size_t)0 - (size_t)c; return (a & m) | (b & ~m); }
// first occurrence at or after p, relative to p (npos if none)
static size_t rfirst(const Ref& h, const Ref& n, size_t p, bool ci) { size_t r = NP; if (h.n >= n.n) for (size_t i = h.n - n.n + 1; i-- > p;) r = sel(at(h, i, n, ci), i - p, r); return r; }
static size_t rlast(const Ref& h, const Ref& n, size_t lp, bool ci) { size_t r = NP; if (h.n >= n.n) for (size_t i = lp; i <= h.n - n.n; ++i) r = sel(at(h, i, n, ci), i, r); return r; }
static void srch(const String& s, const Ref& r, const String& x, const Ref& n, unsigned w) {
  bool threw = false, must = false;
  try { switch (w) {
    case 0: VF_ASSERT(s.find(x) == (n.n ? rfirst(r, n, 0, false) : 0), "find() returns the first occurrence"); break;
    case 1: { size_t p = vf_pick(0, r.n + 2); if (p == r.n + 2) p = NP; must = p > r.n; size_t g = s.find(x, p); VF_ASSERT(must || g == (n.n ? rfirst(r, n, p, false) : 0), "find() from a position"); break; }
    case 2: VF_ASSERT(s.rfind(x) == (n.n ? rlast(r, n, 0, false) : r.n - 1), "rfind() returns the last occurrence"); break;
    case 3: { if (!n.n) return; size_t p = vf_pick(0, r.n + 2); if (p == r.n + 2) p = (size_t)1 << 40; VF_ASSERT(s.rfind(x, p) == (p > r.n ? NP : rlast(r, n, p, false)), "rfind() considers nothing before lpos"); break; }
    case 4: VF_ASSERT(s.ifind(x) == (n.n ? rfirst(r, n, 0, true) : 0), "ifind() ignores case"); break;
    case 5: { if (!n.n) return; size_t p = vf_pick(0, r.n + 1); VF_ASSERT(s.rifind(x, p) == (p > r.n ? NP : rlast(r, n, p, true)), "rifind() ignores case and considers nothing before lpos"); break; }
    case 6: { if (n.n != 1) return; char c = n.b[0]; VF_ASSERT(s.find(c) == rfirst(r, n, 0, false), "find(char)"); VF_ASSERT(s.rfind(c) == rlast(r, n, 0, false), "rfind(char)"); break; }
    default: { if (n.n != 1) return; char c = n.b[0]; size_t p = vf_pick(0, r.n + 2); if (p == r.n + 2) p = NP; must = p > r.n; size_t g = s.find(c, p); VF_ASSERT(must || g == rfirst(r, n, p, false), "find(char) from a position"); break; }
  } } catch (const std::out_of_range&) { threw = true; }
  VF_ASSERT(threw == must, "out_of_range exactly when the position is past the end");
  vf_reach("done");
}
extern "C" void search_small() {
  String s, a, x, b; Ref r, ra, n, rb; static const unsigned HK[] = {K_OFFSET, K_SUBSHARED, K_EXACT, K_FRESH, K_TAIL, K_COWED}; build(s, r, a, ra, HK[vf_pick(0, 5)], vf_pick(0, TIER(6, 7)));
  build(x, n, b, rb, vf_flag() ? K_FRESH : K_SUB, vf_pick(0, 3));
  srch(s, r, x, n, (unsigned)vf_pick(0, 7));
  VF_ASSERT(same(s, r) && same(x, n) && same(a, ra), "searching changes nothing");
}
// the needle is part of the haystack's own buffer
extern "C" void search_self() {
  String s, a; Ref r, ra; size_t N = vf_pick(1, TIER(5, 6)); build(s, r, a, ra, vf_flag() ? K_FRESH : K_SUBSHARED, N);
  size_t i = vf_pick(0, N - 1), l = vf_pick(1, N - i); String x = s.substring((long)i, (long)l); Ref n(r.b + i, l); srch(s, r, x, n, (unsigned)vf_pick(0, 5));
}
// long haystacks: filler except for four symbolic bytes, at the start, across the middle or at the end
extern "C" void search_big() {
  static const unsigned z[] = {15, 16, 17, 33, 64}; size_t N = z[vf_pick(0, 4)], w = vf_pick(0, 2); size_t at0 = w == 0 ? 0 : w == 1 ? N / 2 - 2 : N - 4;
  char t[CAPR]; for (size_t i = 0; i < N; ++i) t[i] = 'f'; vf_bytes(t + at0, 4); Ref r(t, N); String s; if (vf_flag()) { s = String("PQ"); s.append(t, N); s += size_t(2); } else s = String(t, N);
  size_t m = vf_pick(1, 2); char u[4]; vf_bytes(u, m); String x(u, m); Ref n(u, m); unsigned op = (unsigned)vf_pick(0, 7);
  bool threw = false, must = false; size_t p = 0; if (op & 1) { static const long D[] = {0, 1, 2}; p = vf_pick(0, 4); p = p == 0 ? at0 : p == 1 ? at0 + 1 : p == 2 ? at0 + 4 : p == 3 ? N : N + 1; }
  try { switch (op) {
    case 0: VF_ASSERT(s.find(x) == rfirst(r, n, 0, false), "find() returns the first occurrence"); break;
    case 1: { must = p > N; size_t g = s.find(x, p); VF_ASSERT(g == rfirst(r, n, p, false), "find() from a position"); break; }
    case 2: VF_ASSERT(s.rfind(x) == rlast(r, n, 0, false), "rfind() returns the last occurrence"); break;
    case 3: VF_ASSERT(s.rfind(x, p) == (p > N ? NP : rlast(r, n, p, false)), "rfind() considers nothing before lpos"); break;
    case 4: VF_ASSERT(s.ifind(x) == rfirst(r, n, 0, true), "ifind() ignores case"); break;
    case 5: VF_ASSERT(s.rifind(x, p) == (p > N ? NP : rlast(r, n, p, true)), "rifind() considers nothing before lpos"); break;
    case 6: if (m == 1) { VF_ASSERT(s.find(u[0]) == rfirst(r, n, 0, false), "find(char)"); VF_ASSERT(s.rfind(u[0]) == rlast(r, n, 0, false), "rfind(char)"); } break;
    default: if (m == 1) { must = p > N; size_t g = s.find(u[0], p); VF_ASSERT(g == rfirst(r, n, p, false), "find(char) from a position"); } break;
  } } catch (const std::out_of_range&) { threw = true; }
  VF_ASSERT(threw == must, "out_of_range exactly when the position is past the end"); vf_reach("done");
}
