// Shared harness helpers: symbolic construction of Strings/Arrays through the public API together with a reference value.
#pragma once
#include "vf.h"
#include "String.h"
#include "Array.h"
#include <stdexcept>
using bd::String; using bd::Array;
#ifdef VF_THOROUGH
#define TIER(q, t) (t)
#else
#define TIER(q, t) (q)
#endif
#ifndef CAPR
#define CAPR 64
#endif
// Reference string: concrete length, symbolic bytes.
struct Ref {
  size_t n = 0; char b[CAPR];
  Ref() {}
  Ref(const Ref& o) { set(o.b, o.n); }
  Ref& operator=(const Ref& o) { if (this != &o) set(o.b, o.n); return *this; }
  Ref(const char* p, size_t k) { set(p, k); }
  void set(const char* p, size_t k) { n = k; for (size_t i = 0; i < k; ++i) b[i] = p[i]; }
  void ins(size_t pos, const char* p, size_t k) { for (size_t i = n; i > pos; --i) b[i - 1 + k] = b[i - 1]; for (size_t i = 0; i < k; ++i) b[pos + i] = p[i]; n += k; }
  void over(size_t pos, const char* p, size_t k) { for (size_t i = 0; i < k; ++i) b[pos + i] = p[i]; if (pos + k > n) n = pos + k; }
  void app(const char* p, size_t k) { ins(n, p, k); }
  void drop(size_t k) { if (k > n) k = n; for (size_t i = k; i < n; ++i) b[i - k] = b[i]; n -= k; }
  void cut(size_t k) { n = k > n ? 0 : n - k; }
};
// The documented subarray rule: negative start counts from the end (clamped to the beginning), start past the end is empty,
// len -1 means "to the end", other negative len stops that many elements before the end, too long is truncated.
static inline void slice_rule(size_t n, long start, long len, size_t& s, size_t& l) {
  long N = (long)n;
  if (start >= N) { s = n; l = 0; return; }
  if (start < 0) start += N;
  if (start < 0) start = 0;
  long L = len == -1 ? N - start : len < 0 ? N - start + len : len;
  if (L < 0) L = 0;
  if (start + L > N) L = N - start;
  s = (size_t)start; l = (size_t)L;
}
static inline bool same(const String& s, const Ref& r) { return s.length() == r.n && (r.n == 0 || vf_eq(s.data(), r.b, r.n)); }
static inline bool same_const(const String& s, const char* p, size_t n) { return s.length() == n && (n == 0 || vf_eq(s.data(), p, n)); }

// How a String value came to be.  Every kind holds the same abstract value (r) in a different internal state.
enum Kind { K_FRESH, K_SPARE, K_EXACT, K_OFFSET, K_TAIL, K_SHARED, K_SUB, K_SUBSHARED, K_GROWN, K_COWED, K_NKINDS };
// Fills s with n symbolic bytes using construction k; 'alias' receives an object sharing the buffer where the kind says so, with its value in ar.
static const char* const kind_name[] = {"fresh", "spare", "exact", "offset", "tail", "shared", "sub", "subshared", "grown", "cowed"};
static inline void build(String& s, Ref& r, String& alias, Ref& ar, unsigned k, size_t n, bool nz = false) {
  vf_note(kind_name[k]);
  char t[CAPR]; for (size_t i = 0; i < n; ++i) { uint8_t c = vf_u8(); if (nz) vf_assume(c != 0); t[i] = (char)c; }
  r.set(t, n); ar.n = 0;
  switch (k) {
    case K_FRESH: s = String(t, n); break;
    case K_SPARE: { String x(size_t(n + 5)); for (size_t i = 0; i < n; ++i) x.append(t[i]); s = x; break; }
    case K_EXACT: { s = String(t, t + n); break; }   // capacity equal to the length: no room for a terminator
    case K_OFFSET: { char u[CAPR]; u[0] = 'P'; u[1] = 'Q'; for (size_t i = 0; i < n; ++i) u[2 + i] = t[i]; s = String(u, n + 2); s += size_t(2); break; }
    case K_TAIL: { char u[CAPR]; for (size_t i = 0; i < n; ++i) u[i] = t[i]; u[n] = 'T'; u[n + 1] = 'U'; s = String(u, n + 2); s -= size_t(2); break; }
    case K_SHARED: s = String(t, n); alias = s; ar.set(t, n); break;
    case K_SUB: { char u[CAPR]; u[0] = 'L'; for (size_t i = 0; i < n; ++i) u[1 + i] = t[i]; u[n + 1] = 'R'; s = String(u, n + 2).substring(1, (long)n); break; }
    case K_SUBSHARED: { char u[CAPR]; u[0] = 'L'; for (size_t i = 0; i < n; ++i) u[1 + i] = t[i]; u[n + 1] = 'R'; alias = String(u, n + 2); ar.set(u, n + 2); if (n) s = alias.substring(1, (long)n); break; }
    case K_GROWN: { for (size_t i = 0; i < n; ++i) s.append(t[i]); break; }
    case K_COWED: { String x(t, n); String y(x); if (n) y[0] = t[0]; s = y; break; }
  }
}
