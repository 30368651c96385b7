// C08: split, newsplit, join.
#define CAPR 96
#include "hs.h"
static const size_t NP = (size_t)-1;
static bool at(const Ref& h, size_t i, const Ref& d) { if (i + d.n > h.n) return false; return vf_eq(h.b + i, d.b, d.n); }
static size_t mksplit(const Ref& t, const Ref& d, size_t limit, size_t* st, size_t* ln) {
  size_t c = 0, i = 0; if (!t.n) return 0; if (limit == 1) { st[0] = 0; ln[0] = t.n; return 1; }
  bool sp = d.n == 1 && d.b[0] == ' ';
  while (c < limit - 1) {
    if (sp) while (i < t.n && t.b[i] == ' ') ++i;
    if (i >= t.n) break;
    size_t j = i; if (d.n == 0) j = t.n; else while (j < t.n && !at(t, j, d)) ++j;
    st[c] = i; ln[c++] = j - i; i = j + d.n; }
  if (limit != NP) { if (sp) while (i < t.n && t.b[i] == ' ') ++i; if (i > t.n) i = t.n; st[c] = i; ln[c++] = t.n - i; }
  return c;
}
static void verify(const Array<String>& a, const Ref& t, const Ref& d, size_t limit) {
  size_t st[CAPR], ln[CAPR]; size_t c = mksplit(t, d, limit, st, ln);
  VF_ASSERT(a.length() == c, "number of pieces"); for (size_t i = 0; i < c; ++i) VF_ASSERT(same_const(a[i], t.b + st[i], ln[i]), "each piece is the text between two delimiters");
  VF_ASSERT(limit == NP || c <= limit, "no more pieces than the limit");
}
static void mkdelim(String& d, Ref& rd, unsigned w) { char t[2]; switch (w) { case 0: d = " "; rd.set(" ", 1); break; case 1: vf_bytes(t, 1); d = String(t, 1); rd.set(t, 1); break; case 2: vf_bytes(t, 2); d = String(t, 2); rd.set(t, 2); break; default: rd.n = 0; } }
extern "C" void split_text() {
  static const unsigned HK[] = {K_SUBSHARED, K_EXACT, K_OFFSET, K_FRESH}; String s, al, d; Ref r, ra, rd; build(s, r, al, ra, HK[vf_pick(0, 3)], vf_pick(0, TIER(8, 10))); mkdelim(d, rd, (unsigned)vf_pick(0, 3));
  size_t limit = vf_pick(1, 5); if (limit == 5) limit = NP; const String& cs = s;
  Array<String> a = limit == NP ? cs.split(d) : cs.split(d, limit); verify(a, r, rd, limit);
  VF_ASSERT(same(s, r) && same(d, rd) && same(al, ra), "split() changes nothing");
  if (rd.n && limit == NP && !(rd.n == 1 && rd.b[0] == ' ')) { // joining gives the text back, up to one trailing delimiter
    String j = a.join(d); Ref e = r; size_t st[CAPR], ln[CAPR], c = mksplit(r, rd, NP, st, ln); size_t total = c ? st[c - 1] + ln[c - 1] : 0; e.n = total;
    VF_ASSERT(same(j, e), "joining the pieces gives the original text"); VF_ASSERT(total == r.n || (total + rd.n == r.n && at(r, total, rd)), "up to one trailing delimiter"); }
  if (a.length()) { static_cast<String>(a[0]); a[0] = String("changed"); String x(a[a.length() - 1]); x += 'y'; VF_ASSERT(same(s, r) && same(al, ra), "the pieces are independent of the text"); }
  vf_reach("done");
}
// The delimiter is part of the text's own buffer / the text itself
extern "C" void split_alias() {
  String s, al; Ref r, ra; size_t n = vf_pick(1, TIER(7, 8)); build(s, r, al, ra, K_FRESH, n); size_t i = vf_pick(0, n - 1), l = vf_pick(1, n - i); String d = s.substring((long)i, (long)l); Ref rd(r.b + i, l);
  size_t limit = vf_pick(2, 3); if (limit == 3) limit = NP; s = s; Array<String> a = s.split(d, limit); verify(a, r, rd, limit); if (i == 0 && l == n) { Array<String> b = s.split(s); verify(b, r, r, NP); }
  VF_ASSERT(same(s, r) && same(d, rd), "split() changes nothing"); vf_reach("done");
}
extern "C" void split_big() {
  static const unsigned z[] = {16, 20, 33, 40}; size_t N = z[vf_pick(0, 3)]; char t[CAPR]; for (size_t i = 0; i < N; ++i) t[i] = (i % 5 == 4) ? ' ' : (i % 7 == 3) ? ',' : 'w'; vf_bytes(t + N / 2, 2); vf_bytes(t + N - 2, 2);
  String s(t, N); Ref r(t, N); static const char* const D[] = {" ", ",", "ww", ", "}; const char* ds = D[vf_pick(0, 3)]; String d(ds); Ref rd(ds, d.length()); size_t limit = vf_pick(2, 9); if (limit > 4) limit = limit == 5 ? NP : limit + 3;
  Array<String> a = s.split(d, limit); verify(a, r, rd, limit); VF_ASSERT(same(s, r), "split() changes nothing"); vf_reach("done");
}
extern "C" void newsplit_text() {
  String s, al; Ref r, ra; build(s, r, al, ra, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, TIER(7, 10))); char d = ' '; bool def = vf_flag(); if (!def && vf_flag()) { d = (char)vf_u8(); }
  String keep(s);
  for (unsigned k = 0; k < 2; ++k) {
    Ref tok, rest; if (r.n) { size_t j = 0; while (j < r.n && r.b[j] != d) ++j; tok.set(r.b, j); if (d == ' ') while (j + 1 < r.n && r.b[j + 1] == ' ') ++j; if (j + 1 < r.n) rest.set(r.b + j + 1, r.n - j - 1); }
    String t = def ? newsplit(s) : newsplit(s, d);
    VF_ASSERT(same(t, tok), "newsplit() returns the first token"); VF_ASSERT(same(s, rest), "newsplit() leaves the rest"); VF_ASSERT(same(al, ra), "newsplit() affects no other String");
    t += '!'; VF_ASSERT(same(s, rest), "the token is independent of the rest"); r = rest; }
  s += 'z'; r.app("z", 1); VF_ASSERT(same(s, r), "the rest can be used"); VF_ASSERT(same(al, ra), "newsplit() affects no other String"); vf_reach("done");
}
extern "C" void join_pieces() {
  size_t n = vf_pick(0, 3), total = 0; Array<String> a; Ref e; bool q = vf_flag(); String d; Ref rd; mkdelim(d, rd, (unsigned)vf_pick(0, 3)); String base("LLxyRR"); bool shared = vf_flag();
  for (size_t i = 0; i < n; ++i) { String p, al; Ref rp, ra; build(p, rp, al, ra, shared ? (i & 1 ? K_SUB : K_EXACT) : K_FRESH, vf_pick(0, 2)); if (i) e.app(rd.b, rd.n); if (q) e.app("\"", 1); e.app(rp.b, rp.n); if (q) e.app("\"", 1); a.push_back(p); total += rp.n; }
  Array<String> cp(a); String j = q ? a.join(d, true) : a.join(d); VF_ASSERT(same(j, e), "join() concatenates the pieces with the delimiter between them"); VF_ASSERT(a == cp, "join() changes nothing"); VF_ASSERT(same(d, rd), "join() keeps the delimiter"); j += 'x'; e.app("x", 1); VF_ASSERT(same(j, e), "the joined String can be used"); vf_reach("done");
}
extern "C" void join_big() { // pieces whose lengths make growth interesting, delimiter among the pieces
  static const unsigned z[] = {0, 1, 7, 15, 16}; Array<String> a; Ref e; size_t n = vf_pick(1, 3); bool q = vf_flag(); char dc = (char)vf_u8(); for (size_t i = 0; i < n; ++i) { size_t L = z[vf_pick(0, 4)]; char t[32]; for (size_t k = 0; k < L; ++k) t[k] = 'a' + k; if (L) vf_bytes(t + L - 1, 1); if (i) e.app(&dc, 1); if (q) e.app("\"", 1); e.app(t, L); if (q) e.app("\"", 1); a << String(t, L); }
  String j = a.join(String(dc), q); VF_ASSERT(same(j, e), "join() concatenates the pieces with the delimiter between them"); j = a.join(a[0], q); Ref f; for (size_t i = 0; i < n; ++i) { String p(a[i]), d0(a[0]); if (i) f.app(d0.data(), d0.length()); if (q) f.app("\"", 1); f.app(p.data(), p.length()); if (q) f.app("\"", 1); } VF_ASSERT(same(j, f), "the delimiter may be one of the pieces"); vf_reach("done");
}
