// C17: C string helpers.
#define CAPR 64
#include "hs.h"
#include "Cstrings.h"
#include <cstdlib>
#include <cstring>
static char* mk(size_t n, size_t extra = 0) { char* p = new char[n + 1 + extra]; vf_nzbytes(p, n); p[n] = 0; return p; }
static const size_t MX = TIER(9, 12);
extern "C" void c_strlcpy() { size_t sl = vf_pick(0, MX), siz = vf_pick(0, MX + 2); char* s = mk(sl); Ref rs(s, sl + 1); char* d = new char[siz ? siz : 1]; char g = (char)vf_u8(); for (size_t i = 0; i < siz; ++i) d[i] = g; size_t r = bd::strlcpy(d, s, siz); VF_ASSERT(r == sl, "returns the length it tried to create"); if (siz) { size_t k = sl < siz ? sl : siz - 1; VF_ASSERT(vf_eq(d, s, k), "the longest prefix that fits"); VF_ASSERT(d[k] == 0, "terminated"); for (size_t i = k + 1; i < siz; ++i) VF_ASSERT(d[i] == g, "nothing past the terminator is written"); } VF_ASSERT(vf_eq(s, rs.b, sl + 1), "the source is unchanged"); delete[] s; delete[] d; vf_reach("done"); }
extern "C" void c_strlcat() { size_t dl = vf_pick(0, MX), sl = vf_pick(0, MX), siz = vf_pick(0, TIER(12, 20)); bool term = dl < siz; char* s = mk(sl); Ref rs(s, sl + 1); char* d = new char[siz ? siz : 1]; char o[CAPR]; if (!term) dl = siz; vf_nzbytes(o, dl); char g = (char)vf_u8(); for (size_t i = 0; i < siz; ++i) d[i] = i < dl ? o[i] : g; if (term) d[dl] = 0; size_t r = bd::strlcat(d, s, siz); VF_ASSERT(r == dl + sl, "returns the length it tried to create");
  if (!term) VF_ASSERT(vf_eq(d, o, siz), "an unterminated destination is left alone"); else { size_t room = siz - 1 - dl, k = sl < room ? sl : room; VF_ASSERT(vf_eq(d, o, dl), "what was there stays"); VF_ASSERT(vf_eq(d + dl, s, k), "the longest prefix that fits"); VF_ASSERT(d[dl + k] == 0, "terminated"); for (size_t i = dl + k + 1; i < siz; ++i) VF_ASSERT(d[i] == g, "nothing past the terminator is written"); } VF_ASSERT(vf_eq(s, rs.b, sl + 1), "the source is unchanged"); delete[] s; delete[] d; vf_reach("done"); }
extern "C" void c_strdup() { size_t n = vf_pick(0, TIER(9, 20)); char* s = mk(n); size_t l0 = vf_live(); char* p = bd::strdup(s); VF_ASSERT(p && p != s, "a fresh copy"); VF_ASSERT(vf_objsize(p) >= n + 1, "large enough"); VF_ASSERT(vf_eq(p, s, n + 1), "all the characters and the terminator"); VF_ASSERT(vf_live() == l0 + 1, "one allocation"); free(p); delete[] s; vf_reach("done"); }
extern "C" void c_strldup() { size_t n = vf_pick(0, MX), m = vf_pick(0, MX + 2); if (m == MX + 2) m = (size_t)-1; char* s = mk(n); size_t k = n < m ? n : m; char* p = bd::strldup(s, m); VF_ASSERT(p && p != s, "a fresh copy"); VF_ASSERT(vf_eq(p, s, k) && p[k] == 0, "the first maxlen characters, terminated"); VF_ASSERT(vf_objsize(p) >= k + 1, "large enough"); free(p); delete[] s; vf_reach("done"); }
extern "C" void c_redup() { size_t l0 = vf_live(); char* t = nullptr; size_t n0 = vf_pick(0, MX + 1); if (n0 <= MX) { t = (char*)malloc(n0 + 1); vf_nzbytes(t, n0); t[n0] = 0; } for (unsigned i = 0; i < 2; ++i) { size_t n = vf_pick(0, TIER(3, 5)); if (n == TIER(3, 5)) { bd::str_redup(&t, nullptr); VF_ASSERT(t == nullptr, "NULL frees the target"); } else { char* s = mk(n); bd::str_redup(&t, s); VF_ASSERT(t && t != s && vf_eq(t, s, n + 1), "the target is a copy"); delete[] s; } } if (t) free(t); VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// the new value may be (part of) the old one
extern "C" void c_redup_self() { size_t n = vf_pick(0, MX), k = vf_pick(0, n); char* t = (char*)malloc(n + 1); vf_nzbytes(t, n); t[n] = 0; Ref r(t, n + 1); bd::str_redup(&t, t + k); VF_ASSERT(vf_eq(t, r.b + k, n - k + 1), "the target is a copy"); free(t); vf_reach("done"); }
extern "C" void c_alloc() { size_t a = vf_pick(0, 3), b = vf_pick(1, 3); char* p = (char*)bd::calloc(a, b); for (size_t i = 0; i < a * b; ++i) VF_ASSERT(p[i] == 0, "calloc() zeroes"); char* q = (char*)bd::realloc(p, a * b + 2); for (size_t i = 0; i < a * b; ++i) VF_ASSERT(q[i] == 0, "realloc() keeps the content"); q[a * b + 1] = 1; free(q); vf_reach("done"); }
// out of memory: the helpers never return without the memory, they end the process
static char* keep; static bool cfail;
extern "C" void* vfs_malloc(size_t n) { return cfail && vf_bool() ? nullptr : vf_rawmalloc(n); }
extern "C" void* vfs_calloc(size_t a, size_t b) { return cfail && vf_bool() ? nullptr : vf_rawcalloc(a, b); }
extern "C" void* vfs_realloc(void* p, size_t n) { return cfail && n && vf_bool() ? nullptr : vf_rawrealloc(p, n); }
extern "C" void vfs_exit(int c) { cfail = false; VF_ASSERT(c != 0, "the process ends with a failure status"); if (keep) VF_ASSERT(keep[0] == 'k', "the old block is kept"); vf_reach("exit"); vf_stop(); }
extern "C" void c_oom() { char t[8]; size_t n = vf_pick(0, 3); vf_nzbytes(t, n); t[n] = 0; char* o = nullptr; size_t m = vf_pick(0, 4); switch (vf_pick(0, 5)) {
  case 0: cfail = true; o = bd::strdup(t); cfail = false; VF_ASSERT(o != nullptr && vf_eq(o, t, n + 1), "a fresh copy"); break;
  case 1: cfail = true; o = bd::strldup(t, m); cfail = false; VF_ASSERT(o != nullptr && vf_eq(o, t, n < m ? n : m) && o[n < m ? n : m] == 0, "a fresh copy"); break;
  case 2: o = (char*)malloc(2); o[0] = 'k'; o[1] = 0; keep = o; cfail = true; bd::str_redup(&o, t); cfail = false; keep = nullptr; VF_ASSERT(o != nullptr && vf_eq(o, t, n + 1), "a fresh copy"); break;
  case 3: cfail = true; o = (char*)bd::calloc(m + 1, 2); cfail = false; VF_ASSERT(o != nullptr && o[m] == 0, "zeroed memory"); break;
  case 4: cfail = true; o = (char*)bd::realloc(nullptr, m + 1); cfail = false; VF_ASSERT(o != nullptr, "memory"); o[m] = 1; break;
  default: o = (char*)malloc(2); o[0] = 'k'; o[1] = 0; keep = o; cfail = true; o = (char*)bd::realloc(o, m + 2); cfail = false; keep = nullptr; VF_ASSERT(o != nullptr && o[0] == 'k', "memory"); o[m + 1] = 1; break; }
  free(o); vf_reach("done"); }

// lengths past 8, 12 and 16 bits
static const unsigned HZ[] = {255, 256, 257, 300, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537};
static char* hmk(size_t n, char base, size_t extra = 0) { char* p = (char*)malloc(n + 1 + extra); for (size_t i = 0; i < n; ++i) p[i] = (char)(base + i % 23); size_t at[] = {0, n / 2, n - 1}; if (n) for (size_t x : at) { uint8_t c = vf_u8(); vf_assume(c != 0); p[x] = (char)c; } p[n] = 0; return p; }
extern "C" void c_huge() { size_t n = HZ[vf_pick(0, 12)]; size_t l0 = vf_live(); char* s = hmk(n, 'a');
  switch (vf_pick(0, 4)) {
    case 0: { size_t siz = n + vf_pick(0, 3) - 1; char* d = (char*)malloc(siz); memset(d, 7, siz); size_t r = bd::strlcpy(d, s, siz), k = n < siz ? n : siz - 1; VF_ASSERT(r == n, "returns the length of the source"); VF_ASSERT(!memcmp(d, s, k) && d[k] == 0, "the longest prefix that fits"); free(d); break; }
    case 1: { size_t m = HZ[vf_pick(0, 12)]; char* o = hmk(m, 'A'); size_t siz = m + n + vf_pick(0, 3) - 1; char* d = (char*)malloc(siz); memset(d, 7, siz); memcpy(d, o, m + 1); size_t r = bd::strlcat(d, s, siz), k = n < siz - 1 - m ? n : siz - 1 - m; VF_ASSERT(r == m + n, "returns the length it tried to create"); VF_ASSERT(!memcmp(d, o, m) && !memcmp(d + m, s, k) && d[m + k] == 0, "the longest prefix that fits"); free(d); free(o); break; }
    case 2: { char* p = bd::strdup(s); VF_ASSERT(p != s && vf_objsize(p) >= n + 1 && !memcmp(p, s, n + 1), "all the characters"); free(p); break; }
    case 3: { size_t m = n + vf_pick(0, 2) - 1, k = n < m ? n : m; char* p = bd::strldup(s, m); VF_ASSERT(p != s && !memcmp(p, s, k) && p[k] == 0, "at most that many characters"); free(p); break; }
    default: { size_t m = HZ[vf_pick(0, 12)]; char* t = hmk(m, 'A'); bd::str_redup(&t, s); VF_ASSERT(t != s && !memcmp(t, s, n + 1), "the target is a copy"); bd::str_redup(&t, t + n / 2); VF_ASSERT(!memcmp(t, s + n / 2, n - n / 2 + 1), "the target is a copy"); free(t); } }
  free(s); VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
