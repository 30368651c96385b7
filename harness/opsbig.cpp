// C02: one editing operation on longer strings (sizes around powers of two), all bytes symbolic.
#define CAPR 1400
static const unsigned bigs[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512};
#define MAXN 18
#define POS(n) ({ size_t q_ = vf_pick(0, 4); q_ == 0 ? (size_t)0 : q_ == 1 ? (size_t)1 : q_ == 2 ? (n) / 2 : q_ == 3 ? (n) : (n) + 1; })
#define IDX(n) ({ size_t q_ = vf_pick(0, 2); q_ == 0 ? (size_t)0 : q_ == 1 ? (n) / 2 : (n) - 1; })
#define LEN(m) ({ size_t q_ = vf_pick(0, 2); q_ == 0 ? (size_t)1 : q_ == 1 ? (size_t)8 : (size_t)(m); })
#define ARGKINDS 2
#include "ops.h"
static const unsigned skip[] = {17, 18, 19, 20, 21, 29};
extern "C" void string_big() {
  size_t live0 = vf_live();
  { String s, alias; Ref r, ar; static const unsigned ks[] = {K_FRESH, K_EXACT, K_SUBSHARED, K_GROWN}; unsigned k = ks[vf_pick(0, 2)]; size_t n = bigs[vf_pick(0, TIER(11, 15))];
    build(s, r, alias, ar, k, n);
    unsigned op = vf_pick(0, NOPS - 1);
    switch (op) {
      case 17: case 18: { static const size_t d[] = {1, 8, 15, 16, 17}; size_t x = vf_pick(0, 6); size_t q = x < 5 ? d[x] : x == 5 ? n - 1 : n; if (op == 17) { r.drop(q); s += q; } else { r.cut(q); s -= q; } break; }
      case 19: { static const int d[] = {-17, -1, 0, 1, 2, 16, 40}; int x = d[vf_pick(0, 6)]; size_t q = (long)n + x < 0 ? 0 : n + x; char c = (char)vf_u8(); s.resize(q, c); while (r.n < q) r.app(&c, 1); r.n = q; break; }
      case 21: case 29: case 20: { static const long st[] = {0, 1, 14, 16, -1, -16, -300}; static const long ln[] = {-1, 0, 1, 16, 600, -2, -16}; long a = st[vf_pick(0, 6)], l = ln[vf_pick(0, 6)]; size_t x, y; slice_rule(r.n, a, l, x, y); s.slice(a, l); r.drop(x); r.n = y; break; }
      default: step(s, r, op);
    }
    VF_ASSERT(same(s, r), "value after the operation");
    VF_ASSERT(same(alias, ar), "objects sharing the buffer keep their value");
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0, "no leak");
}
