// C10: trim, chomp, repetition, printf.
#define CAPR 160
#include "hs.h"
#include <cstring>
static bool ws(char c) { return (bool)((c == ' ') | ((c >= 9) & (c <= 13))); }
static void after(String& s, Ref& r, const String& al, const Ref& ra) { VF_ASSERT(same(s, r), "the value"); VF_ASSERT(same(al, ra), "no other String is affected"); s += 'z'; r.app("z", 1); VF_ASSERT(same(s, r), "the String can be used afterwards"); VF_ASSERT(same(al, ra), "no other String is affected"); vf_reach("done"); }
static void rtrim(Ref& r) { while (r.n && ws(r.b[0])) r.drop(1); while (r.n && ws(r.b[r.n - 1])) r.cut(1); }
static void rchomp(Ref& r) { if (r.n && r.b[r.n - 1] == '\n') r.cut(1); if (r.n && r.b[r.n - 1] == '\r') r.cut(1); }
extern "C" void trim_text() { String s, al; Ref r, ra; build(s, r, al, ra, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, TIER(10, 14))); Ref o = r; rtrim(r); const String& c = s; String t = c.trim(); VF_ASSERT(same(t, r), "trim() of a const String"); VF_ASSERT(same(s, o), "trim() of a const String leaves it"); String keep(s); s.trim(); VF_ASSERT(same(keep, o), "copies keep their value"); after(s, r, al, ra); }
extern "C" void chomp_text() { String s, al; Ref r, ra; build(s, r, al, ra, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, TIER(10, 14))); Ref o = r; rchomp(r); const String& c = s; String t = c.chomp(); VF_ASSERT(same(t, r), "chomp() of a const String"); VF_ASSERT(same(s, o), "chomp() of a const String leaves it"); String keep(s); s.chomp(); VF_ASSERT(same(keep, o), "copies keep their value"); after(s, r, al, ra); }
extern "C" void repeat_text() { String s, al; Ref r, ra; build(s, r, al, ra, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, 4)); int k = (int)vf_pick(0, 17); if (k > 9) { static const int big[] = {12, 13, 15, 16, 17, 24, 31, 33}; k = big[k - 10]; } String o = s * k; Ref e; for (int i = 0; i < k; ++i) e.app(r.b, r.n); VF_ASSERT(same(s, r) && same(al, ra), "repetition leaves the receiver"); o.length(); after(o, e, al, ra); VF_ASSERT(same(s, r), "repetition leaves the receiver"); }
extern "C" void trim_big() { static const unsigned z[] = {16, 17, 40}; size_t N = z[vf_pick(0, 2)]; size_t a = vf_pick(0, 4), b = vf_pick(0, 4); char t[CAPR]; for (size_t i = 0; i < N; ++i) t[i] = i % 3 ? 'x' : ' '; for (size_t i = 0; i < a; ++i) t[i] = " \t\n\v\f"[i]; for (size_t i = 0; i < b; ++i) t[N - 1 - i] = "\r\n \t"[i]; vf_bytes(t + a, 1); vf_bytes(t + N - 1 - b, 1); String s(t, N), al(s); Ref r(t, N), ra(t, N); if (vf_flag()) { rtrim(r); s.trim(); } else { rchomp(r); s.chomp(); } after(s, r, al, ra); }
extern "C" void printf_short() { // %s and literal text, precision, width and integers around the sign boundaries
  char t[8]; size_t n = vf_pick(0, 7); vf_nzbytes(t, n); t[n] = 0; Ref e; String o;
  switch (vf_pick(0, 5)) {
    case 0: o = String::printf("%s", t); e.app(t, n); break;
    case 1: o = String::printf("[%s]%%%c", t, 'k'); e.app("[", 1); e.app(t, n); e.app("]%k", 3); break;
    case 2: o = String::printf("%.2s|%5s", t, "ab"); e.app(t, n < 2 ? n : 2); e.app("|   ab", 6); break;
    case 3: { static const int v[] = {0, -1, 7, 2147483647, -2147483647 - 1}; static const char* const x[] = {"0", "-1", "7", "2147483647", "-2147483648"}; size_t i = vf_pick(0, 4); o = String::printf("%s%d", t, v[i]); e.app(t, n); e.app(x[i], strlen(x[i])); break; }
    case 4: o = String::printf("%s", ""); break;
    default: o = String::printf("%s%c%s", t, 0, t); e.app(t, n); e.app("", 1); e.app(t, n); break; }
  VF_ASSERT(same(o, e), "printf() yields the formatted text"); VF_ASSERT(o.length() == e.n && (!e.n || o.c_str()[e.n] == 0), "terminated"); vf_reach("done");
}
// around the size of the internal buffer: the argument is 4090..4102 (and 5000, 9000) characters
extern "C" void printf_long() {
  static const unsigned z[] = {127, 128, 129, 255, 256, 257, 300, 511, 512, 1023, 1024, 1025, 2047, 2048, 4090, 4093, 4094, 4095, 4096, 4097, 4098, 4102, 5000, 8191, 8192, 16384, 65535, 65536, 65537}; size_t n = z[vf_pick(0, 28)]; char* t = new char[n + 1]; for (size_t i = 0; i < n; ++i) t[i] = "abcdefg"[i % 7]; vf_nzbytes(t, 1); vf_nzbytes(t + (n > 4094 ? 4094 : n / 2), 1); vf_nzbytes(t + n - 1, 1); t[n] = 0; bool two = vf_flag();
  String o = two ? String::printf("%s-%d", t, 42) : String::printf("%s", t); VF_ASSERT(o.length() == n + (two ? 3 : 0), "printf() yields text of the right length"); bool ok = true; const char* p = o.data(); for (size_t i = 0; i < n; ++i) ok &= p[i] == t[i]; VF_ASSERT(ok, "printf() yields the formatted text"); if (two) VF_ASSERT(p[n] == '-' && p[n + 1] == '4' && p[n + 2] == '2', "printf() yields the formatted text"); VF_ASSERT(o.c_str()[o.length()] == 0, "terminated"); o += 'x'; VF_ASSERT(o[0] == t[0] && o[n - 1] == t[n - 1] && o[o.length() - 1] == 'x', "the String can be used afterwards"); delete[] t; vf_reach("done");
}
