// Long Strings (C01, C02, C04-C10, C22, C23).
#include "huge.h"
static void edit(bool value) {
  size_t live0 = vf_live();
  { size_t n = HZ[vf_pick(0, NHZ - 1)]; unsigned k = (unsigned)vf_pick(value ? 0 : 1, value ? 4 : 2); hfill(hb, n); String s, keep; hbuild(s, keep, k, hb, n); if (value) VF_ASSERT(hsame(s, hb, n), "the value it was built from"); size_t m = n; memcpy(hb2, hb, n); char c = (char)vf_u8();
    auto ins = [&](size_t p, const char* t, size_t l) { memmove(hb2 + p + l, hb2 + p, m - p); memcpy(hb2 + p, t, l); m += l; };
    switch (vf_pick(0, 15)) {
      case 0: s += c; ins(n, &c, 1); break;
      case 1: s.insert(n / 2, "xyz", 3); ins(n / 2, "xyz", 3); break;
      case 2: s.insert(size_t(0), c); ins(0, &c, 1); break;
      case 3: s += s; ins(n, hb, n); break;
      case 4: s.append(hb, n); ins(n, hb, n); break;
      case 5: s.replace(n - 1, "pq", 2); memcpy(hb2 + n - 1, "pq", 2); m = n + 1; break;
      case 6: s.resize(n + 3, c); hb2[n] = hb2[n + 1] = hb2[n + 2] = c; m = n + 3; break;
      case 7: s.resize(n - 3); m = n - 3; break;
      case 8: s.slice(1, (long)n - 2); memmove(hb2, hb2 + 1, n - 2); m = n - 2; break;
      case 9: s = s.substring(-2); memmove(hb2, hb2 + n - 2, 2); m = 2; break;
      case 10: s[n - 1] = c; hb2[n - 1] = c; break;
      case 11: s += size_t(n - 1); memmove(hb2, hb2 + n - 1, 1); m = 1; break;
      case 12: s -= size_t(n - 1); m = 1; break;
      case 13: { String t(hb, n); t += s; s = std::move(t); ins(n, hb, n); break; }
      case 14: { String t("q"); t.insert(1, s); s.insert(size_t(0), std::move(t)); memcpy(hb2 + n + 1, hb, n); hb2[0] = 'q'; memcpy(hb2 + 1, hb, n); m = 2 * n + 1; break; }
      default: *(s.end() - 1) = c; s.begin()[0] = c; hb2[n - 1] = c; hb2[0] = c; break;
    }
    if (value) VF_ASSERT(hsame(s, hb2, m), "value after the operation"); VF_ASSERT(hkept(keep, k, hb, n), "objects sharing the buffer keep their value"); vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "no leak");
}
extern "C" void huge_edit() { edit(true); }
extern "C" void huge_cow() { edit(false); }
#define HUGE_BEGIN(nz) size_t live0 = vf_live(); { size_t n = HZ[vf_pick(0, NHZ - 1)]; unsigned k = (unsigned)vf_pick(0, 4); hfill(hb, n, nz); String s, keep; hbuild(s, keep, k, hb, n);
#define HUGE_END VF_ASSERT(hsame(s, hb, n) && hkept(keep, k, hb, n), "the value is unchanged"); vf_reach("done"); } VF_ASSERT(vf_live() == live0, "no leak");
extern "C" void huge_views() { HUGE_BEGIN(false)
  switch (vf_pick(0, 5)) {
    case 0: { const char* p = s.c_str(); VF_ASSERT(!memcmp(p, hb, n) && p[n] == 0, "c_str()"); break; }
    case 1: { const char* p = *s; VF_ASSERT(!memcmp(p, hb, n) && p[n] == 0, "operator*"); break; }
    case 2: { char* p = s.dup(); VF_ASSERT(!memcmp(p, hb, n) && p[n] == 0, "dup()"); delete[] p; break; }
    case 3: { hb2[n - 1] = 'z'; hb2[n] = 'y'; size_t q = n - vf_pick(0, 1); VF_ASSERT(s.copy(hb2, q) == q && !memcmp(hb2, hb, q) && hb2[n] == 'y' && (q == n || hb2[n - 1] == 'z'), "copy()"); break; }
    case 4: { std::string x(s.begin(), s.end()); VF_ASSERT(x.size() == n && !memcmp(x.data(), hb, n), "iterators"); String y(x); VF_ASSERT(hsame(y, hb, n), "from a std::string"); break; }
    default: { const String& c = s; VF_ASSERT(!memcmp(c.data(), hb, n) && (size_t)(c.end() - c.begin()) == n && c[n - 1] == hb[n - 1] && c.at(n / 2) == hb[n / 2] && c.back() == hb[n - 1], "data()"); hb[n] = 0; break; }
  } HUGE_END }
extern "C" void huge_cstr() { size_t live0 = vf_live(); { size_t n = HZ[vf_pick(0, NHZ - 1)]; hfill(hb, n, true); hb[n] = 0; String s(hb), t; t = hb; String u("x"); u += hb; VF_ASSERT(hsame(s, hb, n) && hsame(t, hb, n) && u.length() == n + 1 && !memcmp(u.data() + 1, hb, n), "made from a C string"); vf_reach("done"); } VF_ASSERT(vf_live() == live0, "no leak"); }
static int sg(long x) { return x < 0 ? -1 : x > 0; }
extern "C" void huge_cmp() { HUGE_BEGIN(true)
  size_t m = n; memcpy(hb2, hb, n); switch (vf_pick(0, 4)) { case 0: break; case 1: m = n - 1; break; case 2: m = n + 1; hb2[n] = 'k'; break; case 3: m = n + 65536; memset(hb2 + n, 'k', m - n); break; default: { static const unsigned w[] = {0, 2, 1}; unsigned x = w[vf_pick(0, 2)]; size_t at = x == 0 ? 0 : x == 1 ? n / 2 : n - 1; uint8_t c = vf_u8(); vf_assume(c != 0); hb2[at] = (char)c; } }
  size_t l = m < n ? m : n; long d = 0; for (size_t x : {size_t(0), n / 2, n - 1}) if (!d && x < l) d = (long)(unsigned char)hb[x] - (unsigned char)hb2[x]; if (!d) d = (long)n - (long)m; hb2[m] = 0;
  if (vf_flag()) { String o(hb2, m); VF_ASSERT(sg(s.compare(o)) == sg(d) && sg(o.compare(s)) == -sg(d), "compare() orders by bytes, then by length"); VF_ASSERT((s == o) == (d == 0) && (s != o) == (d != 0) && (s < o) == (d < 0) && (s > o) == (d > 0), "the operators agree"); VF_ASSERT(s.compare(o, l) == 0 || sg(s.compare(o, l)) == sg(d), "compare(s, n)"); }
  else { VF_ASSERT(sg(s.compare(hb2)) == sg(d), "compare() with a C string"); VF_ASSERT((s == hb2) == (d == 0), "the operators agree"); }
  HUGE_END }
extern "C" void huge_hash() { size_t live0 = vf_live(); { size_t n = HZ[vf_pick(0, NHZ - 1)]; unsigned k = (unsigned)vf_pick(0, 4); hfill(hb, n, false, 'a', 23, true); String s, keep; hbuild(s, keep, k, hb, n); size_t h = s.hash(); String f(hb, n); VF_ASSERT(h == f.hash() && s.hash() == h && std::hash<String>()(s) == h, "equal Strings have equal hashes"); String e(s); char c = (char)vf_u8(); e += c; memcpy(hb2, hb, n); hb2[n] = c; VF_ASSERT(e.hash() == String(hb2, n + 1).hash(), "the hash follows an edit"); e -= size_t(1); VF_ASSERT(e.hash() == h, "the hash follows an edit"); HUGE_END }
extern "C" void huge_find() { size_t live0 = vf_live(); { size_t n = HZ[vf_pick(0, NHZ - 1)]; unsigned k = (unsigned)vf_pick(0, 2); for (size_t i = 0; i < n; ++i) hb[i] = (char)('a' + i % 13); hb[2] = hb[n / 3] = (char)vf_range('a', 'm'); size_t at = vf_pick(0, 2); at = at == 0 ? 7 : at == 1 ? n / 2 : n - 3; hb[at] = 'X'; hb[at + 1] = 'Y'; hb[at + 2] = 'Z'; String s, keep; hbuild(s, keep, k, hb, n); const String xyz("XYZ"), low("xYz"); const size_t np = String::npos;
  switch (vf_pick(0, 6)) {
    case 0: VF_ASSERT(s.find(xyz) == at && s.find(xyz, at) == 0 && s.find(xyz, at + 1) == np && s.find(xyz, 5) == at - 5, "find()"); break;
    case 1: VF_ASSERT(s.rfind(xyz) == at && s.rfind(xyz, at) == at && s.rfind(xyz, at + 1) == np, "rfind()"); break;
    case 2: VF_ASSERT(s.ifind(low) == at, "ifind()"); break;
    case 3: VF_ASSERT(s.rifind(low) == at, "rifind()"); break;
    case 4: VF_ASSERT(s.find('Y') == at + 1 && s.rfind('Y') == at + 1 && s.find('!') == np && s.rfind('!') == np, "find() of a character"); break;
    case 5: { String nd(hb + 4, n - 4); VF_ASSERT(s.find(nd) == 4 && s.rfind(nd) == 4, "a long needle"); nd[n - 5] = '!'; VF_ASSERT(s.find(nd) == np && s.rfind(nd) == np, "a long needle that is not there"); break; }
    default: { String nd(s); nd += 'q'; VF_ASSERT(s.find(nd) == np && s.rfind(nd) == np && nd.find(s) == 0 && nd.rfind(s) == 0, "a needle longer than the text"); }
  } HUGE_END }
extern "C" void huge_split() { size_t live0 = vf_live(); { static const unsigned cnt[] = {127, 256, 300, 1025}; unsigned pieces = cnt[vf_pick(0, 3)]; bool sp = vf_flag(); char dl = sp ? ' ' : ','; size_t n = 0; static unsigned st[1100], ln[1100]; unsigned big = pieces / 2; for (unsigned i = 0; i < pieces; ++i) { if (i) hb[n++] = dl; st[i] = (unsigned)n; ln[i] = 1 + i % 3 + (i == big ? 5000 : 0); for (unsigned j = 0; j < ln[i]; ++j) hb[n++] = (char)('a' + (i + j) % 13); } for (unsigned i : {0u, big, pieces - 1}) { uint8_t c = vf_u8(); vf_assume(c != ' ' && c != ','); hb[st[i]] = (char)c; }
  unsigned k = (unsigned)vf_pick(0, 4); String s, keep, d(dl); hbuild(s, keep, k, hb, n); bool lim = vf_flag(); size_t L = lim ? pieces - 1 : 0; { Array<String> a = lim ? s.split(d, L) : s.split(d); VF_ASSERT(a.length() == (lim ? L : pieces), "one piece per field"); for (size_t i = 0; i < a.length(); ++i) VF_ASSERT(hsame(a.data()[i], hb + st[i], lim && i == L - 1 ? n - st[i] : ln[i]), "each piece is its field"); String j = a.join(d); VF_ASSERT(hsame(j, hb, n), "joining gives the text back"); }
  { String w(s); for (unsigned i = 0; i < 3; ++i) { String f = newsplit(w, dl); VF_ASSERT(hsame(f, hb + st[i], ln[i]), "newsplit() takes the first field"); } VF_ASSERT(hsame(w, hb + st[3], n - st[3]), "newsplit() leaves the rest"); }
  HUGE_END }
extern "C" void huge_sub() { size_t live0 = vf_live(); { static const unsigned cnt[] = {130, 300, 1025}; unsigned c = cnt[vf_pick(0, 2)]; bool gap = vf_flag(); size_t n = 0, m = 0; unsigned w = (unsigned)vf_pick(0, 2); static const char* const R[] = {"", "ZZ", "longer"}; size_t rl = strlen(R[w]); bool lim = vf_flag(); unsigned L = lim ? c - 1 : c; char x = (char)vf_range('a', 'f');
    for (unsigned i = 0; i < c; ++i) { hb[n++] = '<'; hb[n++] = '>'; if (i < L) { memcpy(hb2 + m, R[w], rl); m += rl; } else { hb2[m++] = '<'; hb2[m++] = '>'; } size_t g = i % 4 + (gap && i == c / 2 ? 5000 : 0); for (size_t j = 0; j < g; ++j) { char y = (i + j) % 50 == 7 ? x : 'a' + (i + j) % 5; hb[n++] = y; hb2[m++] = y; } }
    unsigned k = (unsigned)vf_pick(0, 4); String s, keep; hbuild(s, keep, k, hb, n); String o = lim ? s.sub("<>", R[w], (int)L) : s.sub("<>", R[w]); VF_ASSERT(hsame(o, hb2, m), "every occurrence is replaced, up to the limit"); HUGE_END }
extern "C" void huge_trim() { size_t live0 = vf_live(); { static const unsigned z[] = {0, 1, 127, 256, 300, 4097}; size_t a = z[vf_pick(0, 5)], b = z[vf_pick(0, 5)], m = HZ[vf_pick(0, 4)]; size_t n = a + m + b; for (size_t i = 0; i < a; ++i) hb[i] = " \t\n"[i % 3]; for (size_t i = 0; i < m; ++i) hb[a + i] = (char)('a' + i % 23); uint8_t c = vf_u8(); vf_assume(c > 32); hb[a] = hb[a + m - 1] = (char)c; for (size_t i = 0; i < b; ++i) hb[a + m + i] = " \n\r"[i % 3];
    unsigned k = (unsigned)vf_pick(0, 2); String s, keep; hbuild(s, keep, k, hb, n); { const String& cs = s; String t = cs.trim(); VF_ASSERT(hsame(t, hb + a, m), "trim()"); String u(s); u.trim(); VF_ASSERT(hsame(u, hb + a, m), "trim()"); u += "\r\n"; u.chomp(); VF_ASSERT(hsame(u, hb + a, m), "chomp()"); } HUGE_END }
extern "C" void huge_repeat() { size_t live0 = vf_live(); { static const unsigned z[] = {40, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 20000}; unsigned c = z[vf_pick(0, 10)]; char t[3]; vf_bytes(t, 3); String s(t, 3), keep(s); String o = s * (int)c; for (unsigned i = 0; i < c; ++i) memcpy(hb2 + 3 * i, t, 3); VF_ASSERT(hsame(o, hb2, 3 * c), "as many copies as asked for"); VF_ASSERT(hsame(s, t, 3) && hsame(keep, t, 3), "the value is unchanged"); vf_reach("done"); } VF_ASSERT(vf_live() == live0, "no leak"); }
extern "C" void huge_move() { size_t live0 = vf_live(); { size_t n = HZ[vf_pick(0, NHZ - 1)]; unsigned k = (unsigned)vf_pick(0, 4); hfill(hb, n, false, 'a', 23, true); String s, keep; hbuild(s, keep, k, hb, n); if (vf_flag()) s.hash(); String d; switch (vf_pick(0, 4)) { case 0: { String x(std::move(s)); d = x; break; } case 1: d = "held"; d = std::move(s); break; case 2: { using std::swap; swap(s, d); break; } case 3: d += std::move(s); break; default: { Array<String> a; a << std::move(s); d = a.pop(); } } VF_ASSERT(hsame(d, hb, n), "the destination has the value"); VF_ASSERT(hkept(keep, k, hb, n), "other objects keep their value"); s = "again"; VF_ASSERT(hsame(s, "again", 5) && hsame(d, hb, n), "the source can be assigned"); vf_reach("done"); } VF_ASSERT(vf_live() == live0, "no leak"); }
