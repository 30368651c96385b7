// C16: base64.
#define CAPR 64
#include "hs.h"
#include "base64.h"
#include <cstdlib>
#include <cstring>
static const char STD[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static char alph[4][65];
static void mkalph() { const char* e = "./0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"; for (int i = 0; i < 64; ++i) { alph[0][i] = STD[i]; alph[1][i] = e[i]; alph[2][i] = (char)(0xFF - i); alph[3][i] = (char)(i + 1 + (i + 1 >= '=')); } }
static const char* pick(bool& dflt) { mkalph(); unsigned a = (unsigned)vf_pick(0, TIER(3, 4)); dflt = a == 0; if (a == 4) { static char rot[64]; unsigned k = (unsigned)vf_pick(0, 63); for (int i = 0; i < 64; ++i) rot[i] = STD[(i + k) & 63]; return rot; } return alph[a]; }
static size_t renc(const unsigned char* d, size_t n, const char* cs, char* o) { size_t k = 0; for (size_t i = 0; i < n; i += 3) { unsigned v = (unsigned)d[i] << 16; if (i + 1 < n) v |= (unsigned)d[i + 1] << 8; if (i + 2 < n) v |= d[i + 2]; o[k++] = cs[(v >> 18) & 63]; o[k++] = cs[(v >> 12) & 63]; o[k] = i + 1 < n ? cs[(v >> 6) & 63] : '='; ++k; o[k] = i + 2 < n ? cs[v & 63] : '='; ++k; } return k; }
static const size_t MAXE = TIER(15, 30);
extern "C" void b64_encode() {
  bool d; const char* cs = pick(d); size_t n = vf_pick(0, MAXE); unsigned char in[CAPR]; vf_bytes((char*)in, n); char e[CAPR]; size_t k = renc(in, n, cs, e); VF_ASSERT(k == (n + 2) / 3 * 4, "reference");
  unsigned char* src = new unsigned char[n + 1]; for (size_t i = 0; i < n; ++i) src[i] = in[i]; unsigned char* ex = new unsigned char[n ? n : 1]; for (size_t i = 0; i < n; ++i) ex[i] = in[i];
  switch (vf_pick(0, 2)) {
    case 0: { size_t len = n; char* p = d ? bd::b64enc(ex, &len) : bd::b64enc(ex, &len, cs); VF_ASSERT(len == k, "the encoded length is exact"); VF_ASSERT(vf_eq(p, e, k), "standard padded base64"); VF_ASSERT(p[k] == 0, "the buffer is terminated"); free(p); break; }
    case 1: { size_t len = n; char* p = new char[k ? k : 1]; if (d) bd::b64enc_buf(ex, &len, p); else bd::b64enc_buf(ex, &len, p, cs); VF_ASSERT(len == k, "the encoded length is exact"); VF_ASSERT(vf_eq(p, e, k), "standard padded base64"); delete[] p; break; }
    default: { String s((const char*)in, n), al; if (!n) s = String(); String o = d ? bd::base64Encode(s) : bd::base64Encode(s, cs); VF_ASSERT(same_const(o, e, k), "standard padded base64"); VF_ASSERT(same_const(s, (const char*)in, n), "encoding leaves its argument"); } }
  VF_ASSERT(vf_eq((char*)ex, (char*)in, n), "encoding leaves its input"); delete[] src; delete[] ex; vf_reach("done");
}
extern "C" void b64_round() {
  bool d; const char* cs = pick(d); size_t n = vf_pick(0, TIER(9, 14)); unsigned char in[CAPR]; vf_bytes((char*)in, n);
  switch (vf_pick(0, 2)) {
    case 0: { size_t len = n; char* p = d ? bd::b64enc(in, &len) : bd::b64enc(in, &len, cs); char* q = d ? bd::b64dec((unsigned char*)p, &len) : bd::b64dec((unsigned char*)p, &len, cs); VF_ASSERT(len == n, "the decoded length is exact"); VF_ASSERT(vf_eq(q, (char*)in, n), "decoding gives back the original bytes"); VF_ASSERT(q[n] == 0, "the buffer is terminated"); free(p); free(q); break; }
    case 1: { size_t len = n; char* p = bd::b64enc(in, &len); size_t bl = len / 4 * 3; char* q = new char[bl ? bl : 1]; bd::b64dec_buf((unsigned char*)p, &len, q); VF_ASSERT(len == n, "the decoded length is exact"); VF_ASSERT(vf_eq(q, (char*)in, n), "decoding gives back the original bytes"); free(p); delete[] q; break; }
    default: { String s((const char*)in, n); String e = d ? bd::base64Encode(s) : bd::base64Encode(s, cs); String o = d ? bd::base64Decode(e) : bd::base64Decode(e, cs); VF_ASSERT(same_const(o, (const char*)in, n), "decoding gives back the original bytes"); } }
  vf_reach("done");
}
// arbitrary bytes of any length; input and output buffers are exactly as large as they need to be
extern "C" void b64_any() {
  bool d; const char* cs = pick(d); size_t n = vf_pick(0, TIER(11, 14)); unsigned char* in = new unsigned char[n ? n : 1]; vf_bytes((char*)in, n); size_t mx = (n + 3) / 4 * 3, l0 = vf_live();
  switch (vf_pick(0, 2)) {
    case 0: { size_t len = n; char* q = d ? bd::b64dec(in, &len) : bd::b64dec(in, &len, cs); VF_ASSERT(len <= mx, "the decoded length is within the buffer"); VF_ASSERT(q[len] == 0, "the buffer is terminated"); free(q); break; }
    case 1: { size_t len = n; char* q = new char[mx ? mx : 1]; bd::b64dec_buf(in, &len, q); VF_ASSERT(len <= mx, "the decoded length is within the buffer"); delete[] q; break; }
    default: { String s(n, 'q'); for (size_t i = 0; i < n; ++i) s[i] = (char)in[i]; String o = d ? bd::base64Decode(s) : bd::base64Decode(s, cs); VF_ASSERT(o.length() <= mx, "the decoded length is within the buffer"); VF_ASSERT(same_const(s, (char*)in, n), "decoding leaves its argument"); } }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); delete[] in; vf_reach("done");
}
// valid text without its padding decodes to the same bytes
extern "C" void b64_unpadded() { size_t n = vf_pick(1, 7); unsigned char in[8]; vf_bytes((char*)in, n); char e[16]; size_t k = renc(in, n, STD, e); while (k && e[k - 1] == '=') --k; unsigned char* x = new unsigned char[k]; for (size_t i = 0; i < k; ++i) x[i] = (unsigned char)e[i]; size_t len = k; char* q = bd::b64dec(x, &len); VF_ASSERT(len == n && vf_eq(q, (char*)in, n), "a missing padding is implied"); free(q); delete[] x; vf_reach("done"); }
// every block of a longer input, through both interfaces
extern "C" void b64_long() { static const unsigned z[] = {12, 13, 14, 48, 56, 57, 58, 75, 76, 77, 95, 96, 97, 191, 192, 193, 254, 255, 256, 257, 511, 512, 767, 768, 769, 1023, 1024, 1025}; size_t n = z[vf_pick(0, 27)]; static unsigned char in[1100]; for (size_t i = 0; i < n; ++i) in[i] = (unsigned char)(i * 37 + 11); vf_bytes((char*)in + n - 3, 3); vf_bytes((char*)in + 5, 1); vf_bytes((char*)in + n / 2, 1); static char e[1500]; size_t k = renc(in, n, STD, e);
  if (vf_flag()) { String s((char*)in, n); String o = bd::base64Encode(s); VF_ASSERT(o.length() == k && vf_eq(o.data(), e, k), "standard padded base64"); String b = bd::base64Decode(o); VF_ASSERT(b.length() == n && vf_eq(b.data(), (char*)in, n), "decoding gives back the original bytes"); }
  else { size_t len = n; char* p = bd::b64enc(in, &len); VF_ASSERT(len == k && vf_eq(p, e, k) && p[k] == 0, "standard padded base64"); char* q = bd::b64dec((unsigned char*)p, &len); VF_ASSERT(len == n && vf_eq(q, (char*)in, n) && q[n] == 0, "decoding gives back the original bytes"); free(p); free(q); }
  vf_reach("done"); }
// decoding anything twice gives the same bytes, whatever was on the stack and heap
static void __attribute__((noinline)) dirty(int c) { volatile char b[2048]; for (int i = 0; i < 2048; ++i) b[i] = (char)c; }
extern "C" void b64_same() { bool d; const char* cs = pick(d); size_t n = vf_pick(0, TIER(6, 8)); unsigned char in[16]; vf_bytes((char*)in, n); size_t l1 = n, l2 = n; if (!vf_is_engine()) dirty(0x15); char* p = d ? bd::b64dec(in, &l1) : bd::b64dec(in, &l1, cs); if (!vf_is_engine()) dirty(0x2a); char* q = d ? bd::b64dec(in, &l2) : bd::b64dec(in, &l2, cs); VF_ASSERT(l1 == l2, "the decoded length depends on the input only"); VF_ASSERT(vf_eq(p, q, l1), "the decoded bytes depend on the input only"); free(p); free(q); vf_reach("done"); }

// sizes past 8 and 16 bits of length
static unsigned char hin[70000]; static char hen[100000];
extern "C" void b64_huge() { static const unsigned z[] = {300, 3071, 3072, 3073, 4096, 4097, 49151, 49152, 49153, 65535, 65536, 65537}; size_t n = z[vf_pick(0, 11)]; for (size_t i = 0; i < n; ++i) hin[i] = (unsigned char)(i * 31 + i / 256); hin[0] = vf_u8(); hin[n / 2] = vf_u8(); hin[n - 1] = vf_u8(); size_t k = renc(hin, n, STD, hen);
  if (vf_flag()) { String s((char*)hin, n); String o = bd::base64Encode(s); VF_ASSERT(o.length() == k && !memcmp(o.data(), hen, k), "standard padded base64"); String b = bd::base64Decode(o); VF_ASSERT(b.length() == n && !memcmp(b.data(), (char*)hin, n), "decoding gives back the original bytes"); }
  else { size_t len = n; char* p = bd::b64enc(hin, &len); VF_ASSERT(len == k && !memcmp(p, hen, k) && p[k] == 0, "standard padded base64"); char* q = bd::b64dec((unsigned char*)p, &len); VF_ASSERT(len == n && !memcmp(q, (char*)hin, n) && q[n] == 0, "decoding gives back the original bytes"); free(p); free(q); }
  vf_reach("done"); }
