// C13: an in-memory Stream is a byte file with a position.
#define CAPR 64
#include "hs.h"
#include "Stream.h"
using bd::Stream;
struct SR { Ref c; size_t p = 0; };
static void agree(Stream& s, const SR& r) { VF_ASSERT(s.length() == r.c.n, "length()"); VF_ASSERT(s.tell() == r.p, "tell()"); String v = s; VF_ASSERT(same(v, r.c), "the content"); VF_ASSERT(!s == (r.c.n == 0), "operator!"); VF_ASSERT(s.capacity() >= r.c.n, "capacity() covers the content"); }
static Ref rread(SR& r, size_t max, char d) { Ref o; size_t rem = r.p < r.c.n ? r.c.n - r.p : 0; size_t k = max < rem ? max : rem; if (d) { size_t j = 0; while (j < k) { bool e = r.c.b[r.p + j] == d; ++j; if (e) break; } k = j; } o.set(r.c.b + (rem ? r.p : 0), k); r.p += k; return o; }
static void sstep(Stream& s, SR& r, unsigned op) {
  switch (op) {
    case 0: case 1: case 2: case 3: { String x, al; Ref rx, ra; build(x, rx, al, ra, op & 1 ? K_EXACT : K_SUBSHARED, vf_pick(0, 2)); bool past = r.p > r.c.n, threw = false;
      try { if (op == 0) s.puts(x); else if (op == 1) s.puts(String(x)); else if (op == 2) s << x; else s << std::move(x); } catch (const std::out_of_range&) { threw = true; }
      if (past) { if (rx.n) VF_ASSERT(threw, "writing past the content is refused"); if (!threw) r.p += rx.n; } else { VF_ASSERT(!threw, "writing at a valid position succeeds"); r.c.over(r.p, rx.b, rx.n); r.p += rx.n; } if (op != 3) VF_ASSERT(same(x, rx) && same(al, ra), "writing leaves its argument"); break; }
    case 4: { size_t n = vf_pick(0, 5); if (n == 5) n = (size_t)-1; Ref e = rread(r, n, 0); String g = s.read(n); VF_ASSERT(same(g, e), "read() returns the next bytes"); g += 'x'; break; }
    case 5: { size_t n = vf_pick(0, 5); if (n == 5) n = (size_t)-1; char d = (char)vf_u8(); String g = s.read(n, d); Ref e = rread(r, n, d); VF_ASSERT(same(g, e), "read() stops after the delimiter"); break; }
    case 6: { String g = s.getline(); Ref e = rread(r, (size_t)-1, '\n'); VF_ASSERT(same(g, e), "getline() returns one line"); break; }
    case 7: { size_t n = vf_pick(0, 4); String g = s.getline(n); Ref e = rread(r, n, '\n'); VF_ASSERT(same(g, e), "getline() returns one line within the limit"); break; }
    case 8: s.truncate(); if (r.p < r.c.n) r.c.n = r.p; break;
    case 9: { String g = s.peek(); size_t i = r.p < r.c.n ? r.p : r.c.n; VF_ASSERT(same_const(g, r.c.b + i, r.c.n - i), "peek() shows what is left"); g += 'x'; break; }
    case 10: { unsigned w = (unsigned)vf_pick(0, 3); long off; static const long O[] = {0, 1, 2, 5, -1, -3, 1000000, -1000000, 2000, -2000}; off = O[vf_pick(0, 9)]; long base = w == 0 ? 0 : w == 1 ? (long)r.p : (long)s.capacity(); long np = w == 3 ? (long)r.p : w == 2 ? base - off : base + off; if (np < 0) np = 0; if (np > (long)s.capacity()) np = (long)s.capacity(); int g = s.seek((int)off, w == 3 ? 77 : (int)w); VF_ASSERT((long)g == np, "seek() returns the new position"); r.p = (size_t)np; break; }
    case 11: s.clear(); r.c.n = 0; r.p = 0; break;
    case 12: s.reserve(vf_flag() ? 3 : 1500); break;
    case 13: { Stream t(s); agree(t, r); t.seek(0, SEEK_SET); t << String("zz"); break; }
    case 14: { Stream t(std::move(s)); agree(t, r); s = std::move(t); break; }
    case 15: { Stream t(String("qq")); swap(s, t); agree(t, r); SR q; q.c.set("qq", 2); agree(s, q); Stream u(t); swap(s, u); break; }
    default: { String v = s; v += 'x'; if (v.length()) v[0] = '?'; break; }
  }
  agree(s, r);
}
#define SOPS 17
static void start(Stream& s, SR& r, String& al, Ref& ra, unsigned k, size_t n) { String x; Ref rx; build(x, rx, al, ra, k == 3 ? K_EXACT : K_SUBSHARED, n); r.c = rx; switch (k) { case 0: { Stream t(x); swap(s, t); break; } case 1: { Stream t(35); t << x; t.seek(0, SEEK_SET); swap(s, t); break; } case 2: { Stream t; t.puts(String("PREFIX")); t.seek(0, SEEK_SET); t.truncate(); t << x; t.seek(0, SEEK_SET); swap(s, t); break; } default: { Stream t(std::move(x)); swap(s, t); } } size_t p = vf_pick(0, n + 1); if (p == n + 1) { s.seek(0, SEEK_END); p = s.capacity(); } else { s.seek((int)p, SEEK_SET); VF_ASSERT(s.tell() == p, "seek()"); } r.p = p; agree(s, r); }
extern "C" void stream_ops() { size_t l0 = vf_live(); { Stream s; SR r; String al; Ref ra; start(s, r, al, ra, (unsigned)vf_pick(0, 3), vf_pick(0, TIER(4, 6))); sstep(s, r, (unsigned)vf_pick(0, SOPS - 1)); VF_ASSERT(same(al, ra), "no other String is affected"); } VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void stream_seq() { Stream s; SR r; String al; Ref ra; start(s, r, al, ra, (unsigned)vf_pick(0, 1), vf_pick(0, 2)); for (unsigned i = 0; i < TIER(2, 3); ++i) { static const unsigned char O[] = {0, 4, 5, 6, 8, 10, 2, 11}; sstep(s, r, O[vf_pick(0, TIER(6, 7))]); } VF_ASSERT(same(al, ra), "no other String is affected"); vf_reach("done"); }
// everything written is read back once and in order, line by line
extern "C" void stream_lines() { Stream s; Ref all; size_t k = vf_pick(0, TIER(3, 4)); for (size_t i = 0; i < k; ++i) { size_t n = vf_pick(0, 2); char t[4]; vf_bytes(t, n); s << String(t, n); all.app(t, n); } VF_ASSERT(s.tell() == all.n, "writing advances the position"); s.seek(0, SEEK_SET); Ref got; size_t guard = 0; bool lim = vf_flag(); while (s.tell() < s.length()) { VF_ASSERT(++guard <= all.n, "reading makes progress"); String l = lim ? s.getline(2) : s.getline(); VF_ASSERT(l.length() > 0, "reading makes progress"); if (lim) VF_ASSERT(l.length() <= 2, "getline() respects its limit"); for (size_t i = 0; i + 1 < l.length(); ++i) VF_ASSERT(l.data()[i] != '\n', "a newline only ends a line"); got.app(l.data(), l.length()); VF_ASSERT(l.data()[l.length() - 1] == '\n' || s.tell() == s.length() || lim, "every line but the last ends in a newline"); } VF_ASSERT(got.n == all.n && vf_eq(got.b, all.b, all.n), "reading everything back gives exactly what was written"); VF_ASSERT(s.getline().length() == 0 && s.read(3).length() == 0, "nothing is left"); vf_reach("done"); }
// growth past the block size
extern "C" void stream_big() { static const unsigned z[] = {1022, 1023, 1024, 1025, 2048}; Stream s(vf_flag() ? 35 : 0); size_t n = z[vf_pick(0, 4)]; String f(n, 'f'); char t[3]; vf_bytes(t, 3); s << f; s << String(t, 3); VF_ASSERT(s.length() == n + 3 && s.tell() == n + 3, "length and position after writing"); s.seek((int)n - 1, SEEK_SET); String g = s.read(10); Ref e; e.app("f", 1); e.app(t, 3); VF_ASSERT(same(g, e), "reading back"); s.seek(-2, SEEK_CUR); s << String("XYZ"); VF_ASSERT(s.length() == n + 4, "overwriting and extending"); s.seek((int)n, SEEK_SET); g = s.peek(); e.n = 0; e.app(t, 1); e.app("XYZ", 3); VF_ASSERT(same(g, e), "overwriting and extending"); s.truncate(); VF_ASSERT(s.length() == n, "truncate()"); vf_reach("done"); }
// longer histories with few choices each; the position stays inside the content
extern "C" void stream_history() { size_t l0 = vf_live(); { Stream s; SR r; String keep; Ref rk; for (unsigned i = 0; i < TIER(4, 5); ++i) { switch (vf_pick(0, 11)) {
    case 0: case 1: { size_t k = vf_flag() ? 1 : 2; char t[2]; vf_bytes(t, k); s << String(t, k); r.c.over(r.p, t, k); r.p += k; break; }
    case 2: case 3: { size_t k = vf_flag() ? 1 : 3; Ref e = rread(r, k, 0); String g = s.read(k); VF_ASSERT(same(g, e), "read() returns the next bytes"); keep = g; rk = e; break; }
    case 4: { Ref e = rread(r, (size_t)-1, '\n'); String g = s.getline(); VF_ASSERT(same(g, e), "getline() returns one line"); keep = std::move(g); rk = e; break; }
    case 5: s.seek(0, SEEK_SET); r.p = 0; break;
    case 6: if (r.p + 1 > r.c.n) vf_stop(); s.seek(1, SEEK_CUR); r.p += 1; break;
    case 7: s.seek((int)r.c.n, SEEK_SET); r.p = r.c.n; break;
    case 8: s.truncate(); r.c.n = r.p; break;
    case 9: keep = s; rk = r.c; break;
    case 10: { Stream t(s); t.seek(0, SEEK_SET); t << String("Z"); s.reserve(r.c.n + 2); break; }
    default: s.clear(); r.c.n = 0; r.p = 0; }
    agree(s, r); VF_ASSERT(same(keep, rk), "what was read keeps its value"); } } VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
