// The String editing operations, each paired with its effect on a reference value.
#pragma once
#include "hs.h"
#ifndef MAXN
#define MAXN TIER(3, 4)
#endif
#ifndef ARGN
#define ARGN (MAXN + 1)
#endif
#ifndef POS            // positions tried: every index, the end, one beyond, and two huge values
static size_t anypos(size_t n) { size_t p = vf_pick(0, n + 3); return p == n + 2 ? (size_t)-1 : p == n + 3 ? (size_t)1 << 32 : p; }
#define POS(n) anypos(n)
#endif
#ifndef IDX            // an existing index
#define IDX(n) vf_pick(0, (n) - 1)
#endif
#ifndef LEN            // argument lengths
#define LEN(m) vf_pick(0, m)
#endif
// Operations with at most one String/char argument.  Returns through r the expected value; 'threw' tells whether out_of_range must be thrown.
struct Arg { String s; Ref r; };
#ifndef SL
#define SL ((long)vf_pick(0, 2 * MAXN + 4) - (MAXN + 2))
#endif
#ifndef ARGKINDS
#define ARGKINDS 3
#endif
// A String argument: 0 fresh, 1 inside a larger buffer, 2 sharing the target's own buffer, 3 a slice of the target's own buffer
static void mkarg(Arg& a, const String& s, const Ref& r, unsigned maxn) {
  unsigned k = vf_pick(0, ARGKINDS);
  if (k == 2) { a.s = s; a.r = r; return; }
  if (k == 3) { if (r.n < 2) vf_stop(); a.s = s.substring(1, 1); a.r.set(r.b + 1, 1); return; }
  size_t n = LEN(maxn); char t[CAPR]; vf_bytes(t, n); a.r.set(t, n);
  if (k == 0) a.s = String(t, n);
  else { char u[CAPR]; u[0] = 'x'; for (size_t i = 0; i < n; ++i) u[i + 1] = t[i]; u[n + 1] = 'y'; a.s = String(u, n + 2); a.s += size_t(1); a.s -= size_t(1); }
}
static const char* const opn[] = {"insert-char","insert-str","insert-str-n","insert-move","insert-move-n","insert-cstr","insert-cstr-n","replace-char","replace-str","replace-str-n","replace-move","replace-cstr","replace-cstr-n","+=char","+=str","+=move","+=cstr","+=count","-=count","resize-fill","resize","slice","index-assign","write","clear","pre++","pre--","post++","post--","slice-assign","begin-write","mdata-write","front-back","reserve","c_str","insert-range","insert-it","assign","assign-move","assign-cstr","assign-list","plus","pop_back","append-n","append-cstr-n","at","own-element","self","self-append","self-assign","std-string","index-index","reserve-huge","replace-move-n","slice-assign-move","slice-slice","end-write","append-move-n","construct","const-slice","mget","own-cstr"};
static void step(String& s, Ref& r, unsigned op) {
  vf_note(opn[op]);
  bool threw = false, must = false; Ref before = r;
  try {
    switch (op) {
      case 0: { size_t p = POS(r.n); char c = (char)vf_u8(); must = p > r.n; if (!must) r.ins(p, &c, 1); s.insert(p, c); break; }
      case 1: { Arg a; mkarg(a, s, r, ARGN); size_t p = POS(r.n); must = p > r.n; if (!must) r.ins(p, a.r.b, a.r.n); s.insert(p, a.s); VF_ASSERT(same(a.s, a.r), "argument of insert unchanged"); break; }
      case 2: { Arg a; mkarg(a, s, r, ARGN); size_t p = POS(r.n), k = vf_pick(0, a.r.n + 1); must = k != 0 && p > r.n; if (!must) r.ins(p, a.r.b, k < a.r.n ? k : a.r.n); s.insert(p, a.s, k); VF_ASSERT(same(a.s, a.r), "argument of insert(n) unchanged"); break; }
      case 3: { Arg a; mkarg(a, s, r, ARGN); size_t p = POS(r.n); must = p > r.n; if (!must) r.ins(p, a.r.b, a.r.n); s.insert(p, std::move(a.s)); break; }
      case 4: { Arg a; mkarg(a, s, r, ARGN); size_t p = POS(r.n), k = vf_pick(0, a.r.n + 1); must = k != 0 && p > r.n; if (!must) r.ins(p, a.r.b, k < a.r.n ? k : a.r.n); s.insert(p, std::move(a.s), k); break; }
      case 5: { size_t k = LEN(MAXN); char t[CAPR]; vf_nzbytes(t, k); t[k] = 0; size_t p = POS(r.n); must = p > r.n; if (!must) r.ins(p, t, k); s.insert(p, t); break; }
      case 6: { size_t k = LEN(MAXN); char t[CAPR]; vf_bytes(t, k); size_t p = POS(r.n); must = k && p > r.n; if (!must) r.ins(p, t, k); s.insert(p, t, k); break; }
      case 7: { size_t p = POS(r.n); char c = (char)vf_u8(); must = p > r.n; if (!must) r.over(p, &c, 1); s.replace(p, c); break; }
      case 8: { Arg a; mkarg(a, s, r, ARGN); size_t p = POS(r.n); must = p > r.n; if (!must) r.over(p, a.r.b, a.r.n); s.replace(p, a.s); VF_ASSERT(same(a.s, a.r), "argument of replace unchanged"); break; }
      case 9: { Arg a; mkarg(a, s, r, ARGN); size_t p = POS(r.n), k = vf_pick(0, a.r.n + 1); must = k && p > r.n; if (!must && k) r.over(p, a.r.b, k < a.r.n ? k : a.r.n); s.replace(p, a.s, k); VF_ASSERT(same(a.s, a.r), "argument of replace(n) unchanged"); break; }
      case 10: { Arg a; mkarg(a, s, r, ARGN); size_t p = POS(r.n); must = p > r.n; if (!must) r.over(p, a.r.b, a.r.n); s.replace(p, std::move(a.s)); break; }
      case 11: { size_t k = LEN(MAXN); char t[CAPR]; vf_nzbytes(t, k); t[k] = 0; size_t p = POS(r.n); must = p > r.n; if (!must) r.over(p, t, k); s.replace(p, t); break; }
      case 12: { size_t k = LEN(MAXN); char t[CAPR]; vf_bytes(t, k); size_t p = POS(r.n); must = k && p > r.n; if (!must && k) r.over(p, t, k); s.replace(p, t, k); break; }
      case 13: { char c = (char)vf_u8(); r.app(&c, 1); s += c; break; }
      case 14: { Arg a; mkarg(a, s, r, ARGN); r.app(a.r.b, a.r.n); s += a.s; VF_ASSERT(same(a.s, a.r), "argument of += unchanged"); break; }
      case 15: { Arg a; mkarg(a, s, r, ARGN); r.app(a.r.b, a.r.n); s += std::move(a.s); break; }
      case 16: { size_t k = LEN(MAXN); char t[CAPR]; vf_nzbytes(t, k); t[k] = 0; r.app(t, k); s += t; break; }
      case 17: { size_t k = vf_pick(0, r.n + 2); r.drop(k); s += k; break; }
      case 18: { size_t k = vf_pick(0, r.n + 2); r.cut(k); s -= k; break; }
      case 19: { size_t k = vf_pick(0, r.n + 3); char c = (char)vf_u8(); s.resize(k, c); while (r.n < k) r.app(&c, 1); r.n = k; break; }
      case 20: { size_t k = vf_pick(0, r.n); s.resize(k); r.n = k; break; }
      case 21: { long st = SL, ln = SL; size_t a, l; slice_rule(r.n, st, ln, a, l); s.slice(st, ln); r.drop(a); r.n = l; break; }
      case 22: { if (!r.n) return; size_t p = IDX(r.n); char c = (char)vf_u8(); r.b[p] = c; s[p] = c; break; }
      case 23: { if (!r.n) return; size_t p = IDX(r.n); char c = (char)vf_u8(); r.b[p] = c; s.write(p, c); break; }
      case 24: { s.clear(); r.n = 0; break; }
      case 25: { if (!r.n) return; ++s; r.drop(1); break; }
      case 26: { if (!r.n) return; --s; r.cut(1); break; }
      case 27: { if (!r.n) return; String o = s++; VF_ASSERT(same(o, r), "postfix ++ returns old value"); r.drop(1); break; }
      case 28: { if (!r.n) return; String o = s--; VF_ASSERT(same(o, r), "postfix -- returns old value"); r.cut(1); break; }
      case 29: { Arg a; mkarg(a, s, r, MAXN); long st = (long)vf_pick(0, r.n), ln = (long)vf_pick(0, MAXN + 1); if (ln == MAXN + 1) ln = -1; size_t k = ln < 0 || (size_t)ln > a.r.n ? a.r.n : ln; if (k) r.over(st, a.r.b, k); s(st, ln) = a.s; break; }
      case 30: { if (!r.n) return; size_t p = IDX(r.n); char c = (char)vf_u8(); r.b[p] = c; s.begin()[p] = c; break; }
      case 31: { if (!r.n) return; size_t p = IDX(r.n); char c = (char)vf_u8(); r.b[p] = c; s.mdata()[p] = c; break; }
      case 32: { if (!r.n) return; char c = (char)vf_u8(); bool f = vf_flag(); if (f) { s.front() = c; r.b[0] = c; } else { s.back() = c; r.b[r.n - 1] = c; } break; }
      case 33: { size_t k = vf_pick(0, 2) == 0 ? 1 : vf_pick(0, r.n + 4); s.reserve(k); VF_ASSERT(s.capacity() >= k, "capacity after reserve"); break; }
      case 34: { const char* c = s.c_str(); VF_ASSERT(c[r.n] == 0 && (r.n == 0 || vf_eq(c, r.b, r.n)), "c_str"); break; }
      case 35: { size_t k = LEN(MAXN); char t[CAPR]; vf_bytes(t, k); size_t p = vf_pick(0, r.n); r.ins(p, t, k); auto it = s.insert(s.cbegin() + p, (const char*)t, (const char*)t + k); VF_ASSERT((size_t)(it - s.begin()) == p, "insert returns the first inserted"); break; }
      case 36: { size_t p = vf_pick(0, r.n); char c = (char)vf_u8(); r.ins(p, &c, 1); auto it = s.insert(s.cbegin() + p, c); VF_ASSERT((size_t)(it - s.begin()) == p && *it == c, "insert returns the inserted element"); break; }
      case 37: { Arg a; mkarg(a, s, r, ARGN); s = a.s; r = a.r; VF_ASSERT(same(a.s, a.r), "assigned-from unchanged"); break; }
      case 38: { Arg a; mkarg(a, s, r, ARGN); s = std::move(a.s); r = a.r; break; }
      case 39: { size_t k = LEN(MAXN); char t[CAPR]; vf_nzbytes(t, k); t[k] = 0; s = t; r.set(t, k); break; }
      case 40: { char a = (char)vf_u8(), b = (char)vf_u8(); s = {a, b}; char t[2] = {a, b}; r.set(t, 2); break; }
      case 41: { Arg a; mkarg(a, s, r, ARGN); r.app(a.r.b, a.r.n); String t = s + a.s; VF_ASSERT(same(s, before), "operand of + unchanged"); s = t; break; }
      case 42: { if (!r.n) return; s.pop_back(); r.cut(1); break; }
      case 43: { Arg a; mkarg(a, s, r, ARGN); size_t k = vf_pick(0, a.r.n + 1); r.app(a.r.b, k < a.r.n ? k : a.r.n); s.append(a.s, k); break; }
      case 44: { size_t k = LEN(MAXN); char t[CAPR]; vf_bytes(t, k); r.app(t, k); s.append(t, k); break; }
      case 45: { size_t p = POS(r.n); must = p >= r.n; char c = s.at(p); VF_ASSERT(must || c == r.b[p], "at() returns the element"); VF_ASSERT(must || s.charAt(p) == c, "charAt() returns the element"); break; }
      case 46: { if (!r.n) return; size_t p = IDX(r.n), q = IDX(r.n); char c = r.b[q]; const String& cs = s; if (vf_flag()) { r.ins(p, &c, 1); s.insert(p, cs[q]); } else { r.over(p, &c, 1); s.replace(p, cs[q]); } break; }
      case 47: { size_t p = POS(r.n); must = p > r.n; Ref o = r; if (vf_flag()) { if (!must) r.ins(p, o.b, o.n); s.insert(p, s); } else { if (!must) r.over(p, o.b, o.n); s.replace(p, s); } break; }
      case 48: { Ref o = r; r.app(o.b, o.n); if (vf_flag()) s += s; else s.append(s); break; }
      case 49: { s = s; break; }
      case 50: { std::string t(r.b, r.n); s = t; std::string u = s; VF_ASSERT(u.size() == r.n && vf_eq(u.data(), r.b, r.n), "round trip through std::string"); break; }
      case 51: { if (!r.n) return; size_t p = IDX(r.n), q = IDX(r.n); char c = r.b[q]; r.b[p] = c; s[p] = s[q]; break; }
      case 52: { bool t = false; size_t big = (size_t)-1 - vf_pick(0, 1); try { unsigned w = vf_pick(0, 3); if (w == 0) s.reserve(big); else if (w == 1) s.resize(big, 'c'); else if (w == 2) s.resize(big); else { String x(big, 'c'); } } catch (const std::exception&) { t = true; } VF_ASSERT(t, "a size that cannot be allocated is refused"); break; }
      case 53: { Arg a; mkarg(a, s, r, ARGN); size_t p = POS(r.n), k = vf_pick(0, a.r.n + 1); must = k && p > r.n; if (!must && k) r.over(p, a.r.b, k < a.r.n ? k : a.r.n); s.replace(p, std::move(a.s), k); break; }
      case 54: { Arg a; mkarg(a, s, r, ARGN); long st = (long)vf_pick(0, r.n), ln = (long)vf_pick(0, MAXN + 1); if (ln == MAXN + 1) ln = -1; size_t k = ln < 0 || (size_t)ln > a.r.n ? a.r.n : ln; if (k) r.over(st, a.r.b, k); s(st, ln) = std::move(a.s); break; }
      case 55: { Arg a; mkarg(a, s, r, ARGN); long st = (long)vf_pick(0, r.n), ln = (long)vf_pick(0, 2); if (ln == 2) ln = -1; long s2 = (long)vf_pick(0, 1), l2 = (long)vf_pick(0, 2) - 1; size_t x, l; slice_rule(a.r.n, s2, l2, x, l); size_t k = ln < 0 || (size_t)ln > l ? l : ln; if (k) r.over(st, a.r.b + x, k); s(st, ln) = a.s(s2, l2); VF_ASSERT(same(a.s, a.r), "the slice assigned from is unchanged"); break; }
      case 56: { if (!r.n) return; size_t p = IDX(r.n); char c = (char)vf_u8(); r.b[p] = c; unsigned w = vf_pick(0, 3); if (w == 0) *(s.end() - (long)(r.n - p)) = c; else if (w == 1) *(s.rbegin() + (long)(r.n - 1 - p)) = c; else if (w == 2) *(s.rend() - (long)(p + 1)) = c; else s.read(p) = c; break; }
      case 57: { Arg a; mkarg(a, s, r, ARGN); size_t k = vf_pick(0, a.r.n + 1); r.app(a.r.b, k < a.r.n ? k : a.r.n); s.append(std::move(a.s), k); break; }
      case 58: { unsigned w = vf_pick(0, 4); if (w == 0) { String t(s.cbegin(), s.cend()); VF_ASSERT(same(t, r), "construction from a range"); s = t; } else if (w == 1) { String t(s.data(), r.n); VF_ASSERT(same(t, r), "construction from characters"); s = t; } else if (w == 2) { char c = (char)vf_u8(); size_t k = LEN(MAXN); String t(k, c); r.n = 0; for (size_t i = 0; i < k; ++i) r.app(&c, 1); s = t; } else if (w == 3) { std::string t(r.b, r.n); String u(t); VF_ASSERT(same(u, r), "construction from a std::string"); s = u; } else { char a = (char)vf_u8(), b = (char)vf_u8(); String t{a, b}; char u[2] = {a, b}; r.set(u, 2); s = t; } break; }
      case 59: { long st = SL, ln = SL; size_t a, l; slice_rule(r.n, st, ln, a, l); const String& cs = s; String t = cs(st, ln), u = s(st, ln), v = cs.substring(st, ln), w = s(st, ln).get(); VF_ASSERT(same(s, before), "substring leaves the String alone"); r.drop(a); r.n = l; VF_ASSERT(same(t, r) && same(u, r) && same(v, r) && same(w, r), "every substring form gives the same part"); s = t; break; }
      case 60: { if (!r.n) return; size_t p = IDX(r.n); char c = (char)vf_u8(); auto cr = s[p]; VF_ASSERT(cr.get() == r.b[p] && (char)cr == r.b[p], "get() returns the element"); cr.mget() = c; r.b[p] = c; break; }
      case 61: { if (!r.n) return; unsigned w = (unsigned)vf_pick(0, 5); size_t i = IDX(r.n), k = w < 3 ? LEN(MAXN) : 0; if (w < 3 && i + k > r.n) k = r.n - i; if (w >= 3) { if (r.n > 8) return; while (i + k < r.n && r.b[i + k] != 0) ++k; }   // C strings that are parts of the String itself
        Ref o(r.b + i, k); size_t p = w == 0 || w == 1 || w == 3 ? POS(r.n) : 0; must = p > r.n && (k || w == 3); switch (w) { case 0: if (!must) r.ins(p, o.b, k); s.insert(p, s.data() + i, k); break; case 1: if (!must && k) r.over(p, o.b, k); s.replace(p, s.data() + i, k); break; case 2: r.app(o.b, k); s.append(s.data() + i, k); break;
          case 3: if (!must) r.ins(p, o.b, k); s.insert(p, s.c_str() + i); break; case 4: r.app(o.b, k); s += s.c_str() + i; break; default: r.set(o.b, k); s = s.c_str() + i; } break; }
      default: return;
    }
  } catch (const std::out_of_range&) { threw = true; }
  VF_ASSERT(threw == must, "out_of_range exactly when the position is past the end");
  if (threw) { r = before; VF_ASSERT(same(s, before), "unchanged when out_of_range is thrown"); vf_reach("oor"); }
}
#define NOPS 62

