// C23: when the last owner of a buffer is destroyed, nothing of what the buffer held is left in the released memory.
// In the engine every byte of a released block must be independent of the symbolic characters.  A native run cannot see
// dependence, so it repeats the scenario with shifted characters and calls a byte retained when it shifts along every time.
#include "ops.h"
#include "Stream.h"
#include <new>
static bool watch; static int rep; static const int REPS = 6; static const unsigned STEP = 59;
static unsigned char lg[REPS][300000]; static size_t nb[REPS], nblk[REPS];
static void on_free(void* p, size_t n) {
  if (!watch) return;
  if (vf_is_engine()) { VF_ASSERT(vf_const_bytes(p, n), "released buffer still holds characters of the String"); ++nblk[0]; return; }
  if (nb[rep] + n > sizeof lg[0]) vf_giveup("too much released");
  ++nblk[rep]; for (size_t i = 0; i < n; ++i) lg[rep][nb[rep]++] = ((unsigned char*)p)[i];
}
template<class F> static void repeat(const char* t, size_t n, F f) {
  size_t live = vf_live(); vf_on_free = on_free; static char u[70000];
  int reps = vf_is_engine() ? 1 : REPS;
  for (rep = 0; rep < reps; ++rep) { for (size_t i = 0; i < n; ++i) u[i] = (char)(t[i] + rep * STEP); f(u); VF_ASSERT(vf_live() == live, "no leak"); }
  vf_on_free = nullptr; VF_ASSERT(nblk[0] > 0, "the buffer is released");
  for (size_t i = 0; reps > 1 && i < nb[0]; ++i) { bool kept = true; for (int r = 1; r < reps; ++r) kept &= i < nb[r] && lg[r][i] == (unsigned char)(lg[0][i] + r * STEP); VF_ASSERT(!kept, "released buffer still holds characters of the String"); }
}
template<class T> struct Box { alignas(T) char m[sizeof(T)]; bool on = false; T& operator*() { return *(T*)m; } template<class... A> void make(A&&... a) { new (m) T(std::forward<A>(a)...); on = true; } void last() { watch = true; (**this).~T(); watch = false; } void drop() { (**this).~T(); } };
static bool eqc(const String& s, const char* p, size_t n) { return same_const(s, p, n); }
#define WN TIER(6, 10)
// A String built and edited in every way that leaves characters outside its window, then destroyed.
static void state(String& s, unsigned k, const char* t, size_t n) {
  switch (k) {
    case 0: s = String(t, n); break;
    case 1: s = String(t, n); s += size_t(2); break;                                        // cut at the front
    case 2: s = String(t, n); s -= size_t(2); break;                                        // cut at the end
    case 3: s = String(t, n); s += size_t(1); s -= size_t(1); break;
    case 4: for (size_t i = 0; i < n; ++i) s.append(t[i]); break;                           // grown
    case 5: s = String(t, n); s.resize(1); break;
    case 6: s = String(t, n); s.reserve(n + 7); break;
    case 7: { String x(t, n); s = x; if (n) s[0] = t[0]; break; }                           // own copy of a shared buffer
    case 8: s = String(t, n).substring(1, 1); break;                                        // the last owner shows only a part
    case 9: { String x(t, n); s = x.substring(1); break; }
    case 10: s = String(t, n); s.insert(size_t(0), t, n); break;
    case 11: s = String(t, n); s += size_t(n); break;                                       // everything cut
    case 12: { s = String(t, t + n); break; }  // exactly full
    case 13: s = String(t, n); (void)s.c_str(); (void)s.hash(); break;
    case 14: s = String(t, n); s += size_t(2); s.append(t, n); break;                       // shifted back to make room
    case 15: s = String(t, n); while (s.length()) --s; break;
    case 16: s = String(t, n); while (s.length() > 1) ++s; break;
  }
}
static const unsigned STATES = 17;
extern "C" void wipe_string() {
  unsigned k = vf_pick(0, STATES - 1); size_t n = vf_pick(1, WN); char t[CAPR]; vf_bytes(t, n);
  repeat(t, n, [&](const char* u) { Box<String> b; b.make(); state(*b, k, u, n); b.last(); });
  vf_reach("done");
}
// The buffer has several owners: only the last one to go wipes it, whichever that is, and the others keep their value meanwhile.
extern "C" void wipe_shared() {
  unsigned k = vf_pick(0, STATES - 1), how = vf_pick(0, 3); size_t n = vf_pick(2, WN); bool first = vf_flag(); char t[CAPR]; vf_bytes(t, n);
  repeat(t, n, [&](const char* u) {
    Box<String> a, b; a.make(); state(*a, k, u, n);
    Ref ra; size_t la = (*a).length(); if (la > 30) vf_giveup("long"); for (size_t i = 0; i < la; ++i) ra.b[i] = (*a).data()[i]; ra.n = la;
    if (how == 0) b.make(*a); else if (how == 1) b.make((*a).substring(0, 1)); else if (how == 2) b.make((*a).substring(1)); else { b.make(*a); *b += size_t(1); }
    Ref rb; size_t lb = (*b).length(); for (size_t i = 0; i < lb; ++i) rb.b[i] = (*b).data()[i]; rb.n = lb;
    Box<String>&x = first ? a : b, &y = first ? b : a; Ref& ry = first ? rb : ra;
    x.drop(); VF_ASSERT(same(*y, ry), "destroying one owner leaves the other's value");
    y.last();
  });
  vf_reach("done");
}
// Strings inside containers and streams are wiped with them.
extern "C" void wipe_inside() {
  unsigned k = vf_pick(0, 3); size_t n = vf_pick(1, WN); char t[CAPR]; vf_bytes(t, n);
  repeat(t, n, [&](const char* u) {
    if (k == 0) { Box<Array<String>> a; a.make(); *a << String(u, n) << String(u, n); a.last(); }
    else if (k == 1) { Box<Array<String>> a; a.make(); *a << String(u, n) << String(u, n); (*a).shift(); a.last(); }
    else if (k == 2) { Box<bd::Stream> s; s.make(String(u, n)); s.last(); }
    else { Box<bd::Stream> s; s.make(); (*s) << String(u, n); s.last(); }
  });
  vf_reach("done");
}
// Longer buffers.
extern "C" void wipe_big() {
  unsigned k = vf_pick(0, STATES - 1); size_t n = vf_pick(0, 1) ? 256 : 33; char t[300]; for (size_t i = 0; i < n; ++i) t[i] = (char)(i * 7); t[0] = (char)vf_u8(); t[n - 1] = (char)vf_u8(); t[n / 2] = (char)vf_u8();
  repeat(t, n, [&](const char* u) { Box<String> b; b.make(); state(*b, k, u, n); b.last(); });
  vf_reach("done");
}

// Buffers past 8, 12 and 16 bits of length, every way of building them that does not go character by character.
extern "C" void wipe_huge() {
  static const unsigned z[] = {300, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537}; static const unsigned ks[] = {0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 14}; static char t[70000];
  unsigned k = ks[vf_pick(0, 11)]; size_t n = z[vf_pick(0, 8)]; for (size_t i = 0; i < n; ++i) t[i] = (char)(i * 7); size_t at[] = {0, 1, 254, 255, 256, n / 2, n - 2, n - 1}; for (size_t x : at) t[x] = (char)vf_u8();
  repeat(t, n, [&](const char* u) { Box<String> b; b.make(); state(*b, k, u, n); b.last(); });
  vf_reach("done");
}
