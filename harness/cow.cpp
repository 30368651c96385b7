// C01: Strings sharing one buffer in every arrangement; an operation on one never shows in another.
#define MAXN 2
#define ARGN 2
#define POS(n) ({ size_t p_ = vf_pick(0, 2); p_ == 0 ? (size_t)0 : p_ == 1 ? (n) / 2 : (n); })
#define IDX(n) ({ vf_flag() ? (n) - 1 : 0; })
#define LEN(m) (m)
#define ARGKINDS 2
#define SL ({ static const long l_[] = {-1, 1, -2, 0}; l_[vf_pick(0, TIER(2, 3))]; })
#include "ops.h"
// A base buffer of n characters with no, one or several spare bytes behind them.
static void base(String& a, Ref& ra, size_t n, unsigned cap) {
  char t[CAPR]; vf_bytes(t, n); ra.set(t, n);
  switch (cap) { case 0: a = String(t, n); break; case 1: { String x(n, 'q'); for (size_t i = 0; i < n; ++i) x[i] = t[i]; a = std::move(x); break; }
    case 2: { a = String(size_t(n + 6)); a.append(t, n); break; }
    default: { a = String(t, n); a += String("zz"); a.insert(0, "yy", 2); a += size_t(2); a -= size_t(2); break; } }
}
static void window(String& b, Ref& rb, const String& a, const Ref& ra, unsigned w) {
  size_t n = ra.n, s = 0, l = n;
  switch (w) { case 0: b = a; break; case 1: l = n - 1; b = a.substring(0, (long)l); break; case 2: s = 1; l = n - 2; b = a(1, (long)l); break; case 3: s = 1; l = n - 1; b = a.substring(1); break;
    case 4: { b = a; b += size_t(1); b -= size_t(1); s = 1; l = n - 2; break; } default: { String t(a); ++t; b = std::move(t); s = 1; l = n - 1; break; } }
  rb.set(ra.b + s, l);
}
static const unsigned second[] = {13, 22, 34, 0, 24, 33, 19, 25, 31, 7, 14, 37, 23, 32, 30, 42};
extern "C" void cow_string() {
  size_t live0 = vf_live();
  { String a, b; Ref ra, rb; size_t n = TIER(3, vf_pick(3, 4));
    base(a, ra, n, (unsigned)vf_pick(0, 3)); window(b, rb, a, ra, (unsigned)vf_pick(0, 5));
    if (vf_flag()) { a.hash(); b.hash(); }
    { bool ca = vf_flag(); String c(ca ? a : b); Ref rc(ca ? ra : rb);
      VF_ASSERT(same(c, rc), "a copy has the value of its source");
      bool onb = vf_flag();
      step(onb ? b : a, onb ? rb : ra, (unsigned)vf_pick(0, NOPS - 1));
      VF_ASSERT(same(a, ra) && same(b, rb) && same(c, rc), "an operation on one object shows in no other");
      vf_reach("op"); }
    VF_ASSERT(same(a, ra) && same(b, rb), "destroying one object shows in no other");
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0, "every buffer released exactly once");
}
extern "C" void cow_history() {
  size_t live0 = vf_live();
  { String b; Ref rb;
    { String a; Ref ra; base(a, ra, 3, (unsigned)vf_pick(0, 3)); window(b, rb, a, ra, (unsigned)vf_pick(0, 3));
      for (unsigned i = 0; i < TIER(2, 3); ++i) {
        bool onb = vf_flag();
        step(onb ? b : a, onb ? rb : ra, second[vf_pick(0, TIER(11, 15))]);
        VF_ASSERT(same(a, ra) && same(b, rb), "an operation on one object shows in no other");
        if (vf_flag()) { if (onb) { a = b; ra = rb; } else { b = a; rb = ra; } VF_ASSERT(same(a, ra) && same(b, rb), "assignment gives the source's value"); }
      } }
    VF_ASSERT(same(b, rb), "destroying one object shows in no other");
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0, "every buffer released exactly once");
}
// Non-editing uses of shared strings: trim, chomp, split pieces, newsplit, moves, substring of substring.
extern "C" void cow_uses() {
  size_t live0 = vf_live();
  { String a, b; Ref ra, rb; base(a, ra, TIER(3, 4), (unsigned)vf_pick(0, 3)); window(b, rb, a, ra, (unsigned)vf_pick(0, 3));
    String& x = vf_flag() ? a : b; bool onb = &x == &b; Ref& other = onb ? ra : rb; String& o = onb ? a : b; Ref& mine = onb ? rb : ra;
    unsigned w = (unsigned)vf_pick(0, 8); bool chk = true;
    switch (w) {
      case 0: x.trim(); chk = false; break;
      case 1: x.chomp(); chk = false; break;
      case 2: { Array<String> p = x.split(","); for (size_t i = 0; i < p.length(); ++i) { p[i].mget() += 'Z'; if (p.data()[i].length() > 1) p.begin()[i][0] = 'Y'; } break; }
      case 3: { String t = newsplit(x, ' '); t += 'c'; t[0] = 'd'; chk = false; break; }
      case 4: { String t(std::move(x)); t += 'e'; t[0] = 'f'; chk = false; break; }
      case 5: { String t = x.substring(1).substring(0, 1); t += 'g'; t[0] = 'h'; break; }
      case 6: { String t = x.sub("a", "b"); t += 'i'; break; }
      case 7: { String t = x * 2; t += 'j'; t[0] = 'k'; break; }
      case 8: { x.hash(); String t(x); t.hash(); t[0] = 'l'; break; }
    }
    VF_ASSERT(same(o, other), "using one object shows in no other");
    if (chk) VF_ASSERT(same(x, mine), "working on derived strings leaves the source alone");
    vf_reach("done");
  }
  VF_ASSERT(vf_live() == live0, "every buffer released exactly once");
}
