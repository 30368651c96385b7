// C26: Strings and iostreams.  The real libstdc++ templates (istream, ostream, streambuf) are executed; only ios_base, locale and the
// character table behind them are given here for the symbolic executor.
#include "hs.h"
#include <istream>
#include <ostream>
#include <streambuf>
#include <cstring>
#ifdef VF_SYM
namespace std {
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(0), _M_word(0) {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale::locale() noexcept : _M_impl(0) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
struct VfCt : ctype<char> { static ctype_base::mask const* ctype<char>::* tab() { return &VfCt::_M_table; } };
alignas(ctype<char>) static char vf_ct[sizeof(ctype<char>)];
static ctype_base::mask vf_mask[256];
template<> void basic_ios<char>::_M_cache_locale(const locale&) { static const char w[] = " \t\n\v\f\r"; for (int i = 0; i < 6; ++i) vf_mask[(unsigned char)w[i]] = ctype_base::space; ctype<char>* c = reinterpret_cast<ctype<char>*>(vf_ct); c->*VfCt::tab() = vf_mask; _M_ctype = c; _M_num_put = 0; _M_num_get = 0; _M_fill = ' '; _M_fill_init = true; }
}
#endif
static bool ws(char c) { return (bool)((c == ' ') | ((c >= 9) & (c <= 13))); }
// the input arrives in pieces
struct In : std::streambuf { char t[16]; size_t n, at, piece; In(const char* p, size_t l, size_t k) : n(l), at(0), piece(k) { for (size_t i = 0; i < l; ++i) t[i] = p[i]; }
  int_type underflow() override { if (at == n) return traits_type::eof(); size_t k = piece && piece < n - at ? piece : n - at; setg(t + at, t + at, t + at + k); at += k; return traits_type::to_int_type(*gptr()); }
  size_t left() const { return n - at + (size_t)(egptr() - gptr()); } };
// the output accepts a limited number of characters, buffered or not
struct Out : std::streambuf { char t[24]; size_t n, cap; Out(size_t c, bool buffered) : n(0), cap(c) { if (buffered) setp(t, t + c); }
  int_type overflow(int_type c) override { if (pbase() || n >= cap) return traits_type::eof(); t[n++] = traits_type::to_char_type(c); return c; }
  size_t len() const { return pbase() ? (size_t)(pptr() - pbase()) : n; } };
static void words(size_t N, unsigned reads) { char t[16]; vf_bytes(t, N); In b(t, N, vf_pick(0, 2)); std::istream is(&b); size_t p = 0; bool failed = false, ateof = false;
  String s, al; Ref r, ra; build(s, r, al, ra, (unsigned)vf_pick(0, K_NKINDS - 1), 2);
  for (unsigned k = 0; k < reads; ++k) { std::istream& ret = is >> s; VF_ASSERT(&ret == &is, "returns the stream"); Ref e; if (!failed) { if (ateof) failed = true; else { while (p < N && ws(t[p])) ++p; while (p < N && !ws(t[p])) e.app(t + p++, 1); if (p == N) ateof = true; if (!e.n) failed = true; } }
    VF_ASSERT(same(s, e), "the word read"); VF_ASSERT(is.fail() == failed, "fails exactly when there is no word"); VF_ASSERT(!is.bad(), "the stream is not broken"); VF_ASSERT(b.left() == N - p, "what follows the word is left on the stream"); VF_ASSERT(same(al, ra), "no other String is affected"); }
  s += 'z'; VF_ASSERT(s.length() && s[s.length() - 1] == 'z', "usable"); vf_reach("done"); }
extern "C" void read_words() { words(vf_pick(0, TIER(7, 8)), 2); }
extern "C" void read_words3() { words(TIER(8, 9), 4); }
extern "C" void read_lines() { size_t N = vf_pick(0, TIER(8, 9)); char t[16]; vf_bytes(t, N); In b(t, N, vf_pick(0, 2)); std::istream is(&b); size_t p = 0; bool failed = false, ateof = false;
  String s, al; Ref r, ra; build(s, r, al, ra, (unsigned)vf_pick(0, K_NKINDS - 1), 2);
  for (unsigned k = 0; k < 3; ++k) { std::istream& ret = getline(is, s); VF_ASSERT(&ret == &is, "returns the stream"); Ref e; if (!failed) { if (ateof || p == N) failed = ateof = true; else { while (p < N && t[p] != '\n') e.app(t + p++, 1); if (p == N) ateof = true; else ++p; } }
    VF_ASSERT(same(s, e), "the line read"); VF_ASSERT(is.fail() == failed, "fails exactly when there is no line"); VF_ASSERT(!is.bad(), "the stream is not broken"); VF_ASSERT(b.left() == N - p, "what follows the line is left on the stream"); VF_ASSERT(same(al, ra), "no other String is affected"); }
  vf_reach("done"); }
// words and lines in any order
extern "C" void read_mixed() { size_t N = TIER(7, 8); char t[16]; vf_bytes(t, N); In b(t, N, vf_pick(0, 1)); std::istream is(&b); size_t p = 0; bool failed = false, ateof = false; String s;
  for (unsigned k = 0; k < 4; ++k) { bool w = vf_flag(); if (w) is >> s; else getline(is, s); Ref e;
    if (!failed) { if (ateof) failed = true; else if (w) { while (p < N && ws(t[p])) ++p; while (p < N && !ws(t[p])) e.app(t + p++, 1); if (p == N) ateof = true; if (!e.n) failed = true; } else if (p == N) failed = ateof = true; else { while (p < N && t[p] != '\n') e.app(t + p++, 1); if (p == N) ateof = true; else ++p; } }
    VF_ASSERT(same(s, e), "the text read"); VF_ASSERT(is.fail() == failed, "fails exactly when there is nothing"); VF_ASSERT(b.left() == N - p, "the rest is left on the stream"); }
  vf_reach("done"); }
extern "C" void write_text() { String s, al; Ref r, ra; build(s, r, al, ra, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, TIER(6, 8))); Ref o = r; size_t cap = vf_pick(0, 9); Out b(cap, vf_flag()); std::ostream os(&b); Ref e;
  for (int k = 0; k < 2; ++k) { switch (vf_pick(0, 3)) { case 0: os << s; e.app(r.b, r.n); break; case 1: os << String(s); e.app(r.b, r.n); break; case 2: os << static_cast<const String&>(s); e.app(r.b, r.n); break; default: os << (s + "-"); e.app(r.b, r.n); e.app("-", 1); } }
  VF_ASSERT(same(s, o) && same(al, ra), "writing changes no String"); size_t n = e.n < cap ? e.n : cap; VF_ASSERT(b.len() == n && vf_eq(b.t, e.b, n), "exactly the characters of the Strings, as many as fit"); VF_ASSERT(os.good() == (e.n <= cap), "the stream reports what did not fit"); vf_reach("done"); }

// long words and lines: past 8, 12 and 16 bits of length
struct HIn : std::streambuf { char* t; size_t n, at, piece; HIn(char* p, size_t l, size_t k) : t(p), n(l), at(0), piece(k) {}
  int_type underflow() override { if (at == n) return traits_type::eof(); size_t k = piece && piece < n - at ? piece : n - at; setg(t + at, t + at, t + at + k); at += k; return traits_type::to_int_type(*gptr()); }
  size_t left() const { return n - at + (size_t)(egptr() - gptr()); } };
struct HOut : std::streambuf { char* t; size_t n, cap; HOut(char* p, size_t c, bool buffered) : t(p), n(0), cap(c) { if (buffered) setp(t, t + c); }
  int_type overflow(int_type c) override { if (pbase() || n >= cap) return traits_type::eof(); t[n++] = traits_type::to_char_type(c); return c; }
  size_t len() const { return pbase() ? (size_t)(pptr() - pbase()) : n; } };
static char hb[140000], ho[140000];
static const unsigned HZ[] = {255, 256, 257, 300, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537};
static char sym(bool word) { uint8_t c = vf_u8(); if (word) vf_assume(!ws((char)c)); else vf_assume(c != '\n'); return (char)c; }
extern "C" void read_huge() { size_t n = HZ[vf_pick(0, 12)]; bool word = vf_flag(), end = vf_flag(); size_t lead = word ? vf_pick(0, 1) * 300 : 0, N = 0; for (size_t i = 0; i < lead; ++i) hb[N++] = i % 2 ? ' ' : '\n'; size_t b0 = N; for (size_t i = 0; i < n; ++i) hb[N++] = (char)('a' + i % 23); hb[b0] = sym(word); hb[b0 + n / 2] = sym(word); hb[b0 + n - 1] = sym(word); if (!end) { hb[N++] = '\n'; hb[N++] = 'q'; hb[N++] = '\n'; }
  static const unsigned pz[] = {0, 100, 8191}; HIn b(hb, N, pz[vf_pick(0, 2)]); std::istream is(&b); String s("before"), al(s); if (word) is >> s; else getline(is, s);
  VF_ASSERT(s.length() == n && !memcmp(s.data(), hb + b0, n), "the text read"); VF_ASSERT(!is.fail(), "reading succeeds"); VF_ASSERT(b.left() == (end ? 0 : word ? 3u : 2u), "what follows is left on the stream"); VF_ASSERT(same_const(al, "before", 6), "no other String is affected");
  if (word) is >> s; else getline(is, s); if (end) VF_ASSERT(is.fail() && s.length() == 0, "fails exactly when there is nothing"); else VF_ASSERT(!is.fail() && same_const(s, "q", 1), "the text read"); vf_reach("done"); }
// many lines and words
extern "C" void read_many() { size_t N = 0; unsigned n = TIER(300, 1100); bool word = vf_flag(); char c = sym(word); for (unsigned i = 0; i < n; ++i) { hb[N++] = (char)('a' + i % 26); hb[N++] = (char)('a' + i / 26); if (i + 1 == n) hb[N++] = c; hb[N++] = '\n'; } HIn b(hb, N, 64); std::istream is(&b); String s;
  for (unsigned i = 0; i < n; ++i) { if (word) is >> s; else getline(is, s); VF_ASSERT(!is.fail() && s.length() == (i + 1 == n ? 3u : 2u) && s[0] == (char)('a' + i % 26) && s[1] == (char)('a' + i / 26), "each in turn"); } VF_ASSERT(s[2] == c, "the last"); if (word) is >> s; else getline(is, s); VF_ASSERT(is.fail() && s.length() == 0, "fails exactly when there is nothing"); vf_reach("done"); }
extern "C" void write_huge() { size_t n = HZ[vf_pick(0, 12)]; for (size_t i = 0; i < n; ++i) hb[i] = (char)('a' + i % 23); hb[0] = (char)vf_u8(); hb[n / 2] = (char)vf_u8(); hb[n - 1] = (char)vf_u8(); String s, keep; switch (vf_pick(0, 2)) { case 0: s = String(hb, n); break; case 1: s = String(hb, n); keep = s; break; default: { String t("<<"); t.append(hb, n); t += ">>"; keep = t; s = t.substring(2, (long)n); } }
  static const int d[] = {-1, 0, 300}; size_t cap = n + (size_t)(long)d[vf_pick(0, 2)]; bool buf = vf_flag(); if (!buf && n > 5000) vf_assume(false); HOut b(ho, cap, buf); std::ostream os(&b); if (vf_flag()) os << s; else os << String(s); size_t m = n < cap ? n : cap; VF_ASSERT(b.len() == m && !memcmp(ho, hb, m), "exactly the characters of the String, as many as fit"); VF_ASSERT(os.good() == (n <= cap), "the stream reports what did not fit"); VF_ASSERT(s.length() == n && !memcmp(s.data(), hb, n), "writing changes no String"); vf_reach("done"); }
