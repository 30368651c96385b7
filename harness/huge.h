// Long contents: a fixed pattern with symbolic bytes at the ends and in the middle, in several internal states, next to a reference copy.
#pragma once
#define CAPR 8
#include "hs.h"
#include <cstring>
static const size_t HCAP = 140000;
static char hb[HCAP], hb2[HCAP];           // reference contents
static const unsigned HZ[] = {300, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537};
static const unsigned NHZ = 9;
static inline void hfill(char* p, size_t n, bool nz = false, char base = 'a', unsigned mod = 23, bool late = false) {
  for (size_t i = 0; i < n; ++i) p[i] = (char)(base + i % mod);
  size_t at[] = {0, n / 2, n - 1}; for (size_t x : at) if (!late || x + 1 == n) { uint8_t c = vf_u8(); if (nz) vf_assume(c != 0); p[x] = (char)c; }
}
static inline bool hsame(const String& s, const char* p, size_t n) { return s.length() == n && !memcmp(s.data(), p, n); }
// kinds: own buffer; shared; the middle of a longer shared buffer; front removed; much spare room
static inline void hbuild(String& s, String& keep, unsigned k, const char* p, size_t n) {
  switch (k) {
    case 0: s = String(p, n); break;
    case 1: s = String(p, n); keep = s; break;
    case 2: { String t("<<"); t.append(p, n); t += ">>"; keep = t; s = t.substring(2, (long)n); break; }
    case 3: { String t("<<"); t.append(p, n); t += size_t(2); s = std::move(t); break; }
    default: { String t; t.reserve(2 * n + 10); t.append(p, n); s = std::move(t); }
  }
}
static inline bool hkept(const String& keep, unsigned k, const char* p, size_t n) { if (k == 1) return hsame(keep, p, n); if (k == 2) return keep.length() == n + 4 && !memcmp(keep.data(), "<<", 2) && !memcmp(keep.data() + 2, p, n) && !memcmp(keep.data() + n + 2, ">>", 2); return keep.length() == 0; }
