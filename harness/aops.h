// Array operations, each paired with its effect on a reference sequence of small integers.
#pragma once
#include "hs.h"
#include <initializer_list>
#include <new>
// An element with an observable lifetime: owns a heap block, knows whether it is alive, and is left empty (-1) when moved from.
struct Obj {
  uintptr_t m; unsigned char* p; unsigned char v;
  static long count;
  void live() const { if (m != ((uintptr_t)this ^ 0x5EEDF00Dull)) vf_fail("element used outside its lifetime"); }
  void birth() { m = (uintptr_t)this ^ 0x5EEDF00Dull; ++count; }
  Obj() : p(nullptr), v(0) { birth(); }
  explicit Obj(unsigned char x) : p(new unsigned char(x)), v(x) { birth(); }
  Obj(const Obj& o) : p(o.p ? new unsigned char(*o.p) : nullptr), v(o.v) { o.live(); birth(); }
  Obj(Obj&& o) noexcept : p(o.p), v(o.v) { o.live(); o.p = nullptr; o.v = 0; birth(); }
  Obj& operator=(const Obj& o) { live(); o.live(); if (this != &o) { unsigned char* q = o.p ? new unsigned char(*o.p) : nullptr; delete p; p = q; v = o.v; } return *this; }
  Obj& operator=(Obj&& o) noexcept { live(); o.live(); if (this != &o) { delete p; p = o.p; v = o.v; o.p = nullptr; o.v = 0; } return *this; }
  ~Obj() { live(); m = 0; delete p; p = nullptr; --count; }
  int get() const { live(); if (!p) return -1; return *p == v ? (int)v : -2; }
  bool operator==(const Obj& o) const { return get() == o.get(); }
  bool operator!=(const Obj& o) const { return !(*this == o); }
};
long Obj::count = 0;
template <class T> struct El;
template <> struct El<long> { static long mk(unsigned char v) { return ((long)v << 40) | ((long)v << 3); } static bool is(const long& x, unsigned char v) { return x == mk(v); } };
template <> struct El<String> { static String mk(unsigned char v) { return String((char)v); } static bool is(const String& x, unsigned char v) { return x.length() == 1 && x.data()[0] == (char)v; } };
template <> struct El<Obj> { static Obj mk(unsigned char v) { return Obj(v); } static bool is(const Obj& x, unsigned char v) { return x.get() == (int)v; } };
#ifndef ACAP
#define ACAP 48
#endif
struct ARef {
  size_t n = 0; unsigned char v[ACAP];
  ARef() {} ARef(const ARef& o) { set(o.v, o.n); } ARef& operator=(const ARef& o) { if (this != &o) set(o.v, o.n); return *this; }
  void set(const unsigned char* p, size_t k) { n = k; for (size_t i = 0; i < k; ++i) v[i] = p[i]; }
  void ins(size_t pos, const unsigned char* p, size_t k) { for (size_t i = n; i > pos; --i) v[i - 1 + k] = v[i - 1]; for (size_t i = 0; i < k; ++i) v[pos + i] = p[i]; n += k; }
  void over(size_t pos, const unsigned char* p, size_t k) { for (size_t i = 0; i < k; ++i) v[pos + i] = p[i]; if (pos + k > n) n = pos + k; }
  void drop(size_t k) { if (k > n) k = n; for (size_t i = k; i < n; ++i) v[i - k] = v[i]; n -= k; }
  void cut(size_t k) { n = k > n ? 0 : n - k; }
};
template <class T> static bool asame(const Array<T>& a, const ARef& r) { if (a.length() != r.n) return false; bool ok = true; for (size_t i = 0; i < r.n; ++i) ok &= El<T>::is(a.data()[i], r.v[i]); return ok; }
template <class T> static Array<T> from(const unsigned char* v, size_t n) { Array<T> a; for (size_t i = 0; i < n; ++i) a.push_back(El<T>::mk(v[i])); return a; }
enum AKind { A_FRESH, A_SIZED, A_SHIFTED, A_POPPED, A_SHARED, A_SUBSHARED, A_FILLED, A_COWED, A_NKINDS };
static const char* const akind_name[] = {"fresh", "sized", "shifted", "popped", "shared", "subshared", "filled", "cowed"};
template <class T> static void abuild(Array<T>& a, ARef& r, Array<T>& alias, ARef& ar, unsigned k, size_t n) {
  vf_note(akind_name[k]);
  unsigned char t[ACAP]; for (size_t i = 0; i < n; ++i) t[i] = vf_u8();
  r.set(t, n); ar.n = 0;
  switch (k) {
    case A_FRESH: a = from<T>(t, n); break;
    case A_SIZED: { Array<T> x(size_t(n + 3)); for (size_t i = 0; i < n; ++i) x.push_back(El<T>::mk(t[i])); a = x; break; }
    case A_SHIFTED: { a = Array<T>(size_t(n + 2)); a.push_back(El<T>::mk(201)); a.push_back(El<T>::mk(202)); for (size_t i = 0; i < n; ++i) a.push_back(El<T>::mk(t[i])); a.shift(); a.shift(); break; }
    case A_POPPED: { a = from<T>(t, n); a.push_back(El<T>::mk(203)); a.push_back(El<T>::mk(204)); a.pop(); a.pop(); break; }
    case A_SHARED: a = from<T>(t, n); alias = a; ar = r; break;
    case A_SUBSHARED: { unsigned char u[ACAP]; u[0] = 205; for (size_t i = 0; i < n; ++i) u[i + 1] = t[i]; u[n + 1] = 206; alias = from<T>(u, n + 2); ar.set(u, n + 2); a = alias.subarray(1, (long)n); break; }
    case A_FILLED: { a = Array<T>(n, El<T>::mk(9)); for (size_t i = 0; i < n; ++i) a[i] = El<T>::mk(t[i]); break; }
    case A_COWED: { Array<T> x = from<T>(t, n); Array<T> y(x); if (n) y[0] = El<T>::mk(t[0]); a = std::move(y); break; }
  }
}
#ifndef AMAXN
#define AMAXN TIER(3, 4)
#endif
#ifndef AARGN
#define AARGN 2
#endif
#ifndef APOS
static size_t aanypos(size_t n) { size_t p = vf_pick(0, n + 2); return p == n + 2 ? (size_t)-1 : p; }
#define APOS(n) aanypos(n)
#endif
#ifndef AIDX
#define AIDX(n) vf_pick(0, (n) - 1)
#endif
#ifndef ALEN
#define ALEN(m) vf_pick(0, m)
#endif
#ifndef ASL
#define ASL ((long)vf_pick(0, 2 * AMAXN + 4) - (AMAXN + 2))
#endif
#ifndef AKINDSARG
#define AKINDSARG 3
#endif
template <class T> struct AArg { Array<T> a; ARef r; };
template <class T> static void amkarg(AArg<T>& x, const Array<T>& s, const ARef& r, unsigned maxn) {
  unsigned k = vf_pick(0, AKINDSARG);
  if (k == 2) { x.a = s; x.r = r; return; }
  if (k == 3) { if (r.n < 2) vf_stop(); x.a = s.subarray(1, 1); x.r.set(r.v + 1, 1); return; }
  size_t n = ALEN(maxn); unsigned char t[ACAP]; for (size_t i = 0; i < n; ++i) t[i] = vf_u8(); x.r.set(t, n);
  if (k == 0) x.a = from<T>(t, n);
  else { x.a.push_back(El<T>::mk(207)); for (size_t i = 0; i < n; ++i) x.a.push_back(El<T>::mk(t[i])); x.a.push_back(El<T>::mk(208)); x.a.slice(1, (long)n); }
}
static const char* const aopn[] = {"push_back","push_back-move","push_front","push_front-move","<<","<<move",">>","insert","insert-move","insert-array","insert-array-n","insert-array-move","insert-array-move-n","replace","replace-array","replace-array-move","shift","pop","pre++","post++","pre--","post--","+=item","+=array","+=array-move","+=count","-=count","+","resize","resize-fill","slice","slice-assign","index-assign","write","front-back","begin-write","clear","reserve","insert-range","insert-it","assign-list","assign","assign-move","own-element","self","self-assign","pop_back","equality","find","at","subarray","iterate","mget","range-ctor","read","index-index","replace-move","rvalue-shift-pop","swap","slice-assign-move","slice-slice","append-n","construct","rvalue-post","assign-move-element","reserve-huge"};
#define ANOPS 66
template <class T> static void astep(Array<T>& s, ARef& r, unsigned op) {
  typedef El<T> E;
  vf_note(aopn[op]);
  bool threw = false, must = false; ARef before = r;
  try {
    switch (op) {
      case 0: { unsigned char c = vf_u8(); T x = E::mk(c); s.push_back(x); r.ins(r.n, &c, 1); VF_ASSERT(E::is(x, c), "pushed element unchanged"); break; }
      case 1: { unsigned char c = vf_u8(); s.push_back(E::mk(c)); r.ins(r.n, &c, 1); break; }
      case 2: { unsigned char c = vf_u8(); T x = E::mk(c); s.push_front(x); r.ins(0, &c, 1); break; }
      case 3: { unsigned char c = vf_u8(); s.push_front(E::mk(c)); r.ins(0, &c, 1); break; }
      case 4: { unsigned char c = vf_u8(); T x = E::mk(c); s << x << x; r.ins(r.n, &c, 1); r.ins(r.n, &c, 1); break; }
      case 5: { unsigned char c = vf_u8(); s << E::mk(c); r.ins(r.n, &c, 1); break; }
      case 6: { if (!r.n) return; T x = E::mk(0); s >> x; VF_ASSERT(E::is(x, r.v[r.n - 1]), ">> yields the last element"); r.cut(1); break; }
      case 7: { size_t p = APOS(r.n); unsigned char c = vf_u8(); T x = E::mk(c); must = p > r.n; if (!must) r.ins(p, &c, 1); s.insert(p, x); break; }
      case 8: { size_t p = APOS(r.n); unsigned char c = vf_u8(); must = p > r.n; if (!must) r.ins(p, &c, 1); s.insert(p, E::mk(c)); break; }
      case 9: { AArg<T> a; amkarg(a, s, r, AARGN); size_t p = APOS(r.n); must = p > r.n; if (!must) r.ins(p, a.r.v, a.r.n); s.insert(p, a.a); VF_ASSERT(asame(a.a, a.r), "argument of insert unchanged"); break; }
      case 10: { AArg<T> a; amkarg(a, s, r, AARGN); size_t p = APOS(r.n), k = vf_pick(0, a.r.n + 1); must = k && p > r.n; if (!must) r.ins(p, a.r.v, k < a.r.n ? k : a.r.n); s.insert(p, a.a, k); VF_ASSERT(asame(a.a, a.r), "argument of insert unchanged"); break; }
      case 11: { AArg<T> a; amkarg(a, s, r, AARGN); size_t p = APOS(r.n); must = p > r.n; if (!must) r.ins(p, a.r.v, a.r.n); s.insert(p, std::move(a.a)); break; }
      case 12: { AArg<T> a; amkarg(a, s, r, AARGN); size_t p = APOS(r.n), k = vf_pick(0, a.r.n + 1); must = k && p > r.n; if (!must) r.ins(p, a.r.v, k < a.r.n ? k : a.r.n); s.insert(p, std::move(a.a), k); break; }
      case 13: { size_t p = APOS(r.n); unsigned char c = vf_u8(); T x = E::mk(c); must = p > r.n; if (!must) r.over(p, &c, 1); s.replace(p, x); break; }
      case 14: { AArg<T> a; amkarg(a, s, r, AARGN); size_t p = APOS(r.n), k = vf_pick(0, a.r.n + 1); if (vf_flag()) k = (size_t)-1; must = k && p > r.n; if (!must && k) r.over(p, a.r.v, k < a.r.n ? k : a.r.n); s.replace(p, a.a, k); VF_ASSERT(asame(a.a, a.r), "argument of replace unchanged"); break; }
      case 15: { AArg<T> a; amkarg(a, s, r, AARGN); size_t p = APOS(r.n), k = vf_pick(0, a.r.n + 1); if (vf_flag()) k = (size_t)-1; must = k && p > r.n; if (!must && k) r.over(p, a.r.v, k < a.r.n ? k : a.r.n); s.replace(p, std::move(a.a), k); break; }
      case 16: { if (!r.n) return; T x = s.shift(); VF_ASSERT(E::is(x, r.v[0]), "shift returns the first element"); r.drop(1); break; }
      case 17: { if (!r.n) return; T x = s.pop(); VF_ASSERT(E::is(x, r.v[r.n - 1]), "pop returns the last element"); r.cut(1); break; }
      case 18: { if (!r.n) return; ++s; r.drop(1); break; }
      case 19: { if (!r.n) return; Array<T> o = s++; VF_ASSERT(o.length() == 1 && E::is(o.data()[0], r.v[0]), "postfix ++ returns the removed element"); r.drop(1); break; }
      case 20: { if (!r.n) return; --s; r.cut(1); break; }
      case 21: { if (!r.n) return; Array<T> o = s--; VF_ASSERT(o.length() == 1 && E::is(o.data()[0], r.v[r.n - 1]), "postfix -- returns the removed element"); r.cut(1); break; }
      case 22: { unsigned char c = vf_u8(); T x = E::mk(c); s += x; r.ins(r.n, &c, 1); break; }
      case 23: { AArg<T> a; amkarg(a, s, r, AARGN); s += a.a; r.ins(r.n, a.r.v, a.r.n); VF_ASSERT(asame(a.a, a.r), "argument of += unchanged"); break; }
      case 24: { AArg<T> a; amkarg(a, s, r, AARGN); s += std::move(a.a); r.ins(r.n, a.r.v, a.r.n); break; }
      case 25: { int k = (int)vf_pick(0, r.n + 2); s += k; r.drop((size_t)k); break; }
      case 26: { int k = (int)vf_pick(0, r.n + 2); s -= k; r.cut((size_t)k); break; }
      case 27: { AArg<T> a; amkarg(a, s, r, AARGN); Array<T> t = s + a.a; VF_ASSERT(asame(s, before) && asame(a.a, a.r), "operands of + unchanged"); r.ins(r.n, a.r.v, a.r.n); s = t; break; }
      case 28: { size_t k = vf_pick(0, r.n); s.resize(k); r.n = k; break; }
      case 29: { size_t k = vf_pick(0, r.n + 3); unsigned char c = vf_u8(); s.resize(k, E::mk(c)); while (r.n < k) r.ins(r.n, &c, 1); r.n = k; break; }
      case 30: { long st = ASL, ln = ASL; size_t a, l; slice_rule(r.n, st, ln, a, l); s.slice(st, ln); r.drop(a); r.n = l; break; }
      case 31: { AArg<T> a; amkarg(a, s, r, AARGN); long st = (long)vf_pick(0, r.n), ln = (long)vf_pick(0, 3); if (ln == 3) ln = -1; size_t k = ln < 0 || (size_t)ln > a.r.n ? a.r.n : ln; if (k) r.over(st, a.r.v, k); s(st, ln) = a.a; VF_ASSERT(asame(a.a, a.r), "assigned array unchanged"); break; }
      case 32: { if (!r.n) return; size_t p = AIDX(r.n); unsigned char c = vf_u8(); r.v[p] = c; if (vf_flag()) s[p] = E::mk(c); else { T x = E::mk(c); s[p] = x; } break; }
      case 33: { if (!r.n) return; size_t p = AIDX(r.n); unsigned char c = vf_u8(); r.v[p] = c; T x = E::mk(c); s.write(p, x); break; }
      case 34: { if (!r.n) return; unsigned char c = vf_u8(); if (vf_flag()) { s.front() = E::mk(c); r.v[0] = c; } else { s.back() = E::mk(c); r.v[r.n - 1] = c; } break; }
      case 35: { if (!r.n) return; size_t p = AIDX(r.n); unsigned char c = vf_u8(); r.v[p] = c; unsigned w = vf_pick(0, 3); if (w == 0) s.begin()[p] = E::mk(c); else if (w == 1) s.mdata()[p] = E::mk(c); else if (w == 2) *(s.end() - (long)(r.n - p)) = E::mk(c); else *(s.rbegin() + (long)(r.n - 1 - p)) = E::mk(c); break; }
      case 36: { s.clear(); r.n = 0; break; }
      case 37: { size_t k = vf_pick(0, r.n + 4); s.reserve(k); VF_ASSERT(s.capacity() >= k, "capacity after reserve"); break; }
      case 38: { AArg<T> a; amkarg(a, s, r, AARGN); size_t p = vf_pick(0, r.n); r.ins(p, a.r.v, a.r.n); auto it = s.insert(s.cbegin() + p, a.a.cbegin(), a.a.cend()); VF_ASSERT((size_t)(it - s.begin()) == p, "insert returns the first inserted"); break; }
      case 39: { size_t p = vf_pick(0, r.n); unsigned char c = vf_u8(); r.ins(p, &c, 1); T x = E::mk(c); if (vf_flag()) { auto it = s.insert(s.cbegin() + p, x); VF_ASSERT((size_t)(it - s.begin()) == p && E::is(*it, c), "insert returns the inserted"); } else { auto it = s.insert(s.cbegin() + p, std::move(x)); VF_ASSERT((size_t)(it - s.begin()) == p && E::is(*it, c), "insert returns the inserted"); } break; }
      case 40: { unsigned char t[2]; t[0] = vf_u8(); t[1] = vf_u8(); s = {E::mk(t[0]), E::mk(t[1])}; r.set(t, 2); break; }
      case 41: { AArg<T> a; amkarg(a, s, r, AARGN); s = a.a; r = a.r; VF_ASSERT(asame(a.a, a.r), "assigned-from unchanged"); break; }
      case 42: { AArg<T> a; amkarg(a, s, r, AARGN); s = std::move(a.a); r = a.r; break; }
      case 43: { if (!r.n) return; size_t p = AIDX(r.n), q = AIDX(r.n); unsigned char c = r.v[q]; const Array<T>& cs = s; unsigned w = vf_pick(0, 4); if (w == 0) { r.ins(p, &c, 1); s.insert(p, cs[q]); } else if (w == 1) { r.over(p, &c, 1); s.replace(p, cs[q]); } else if (w == 2) { r.ins(r.n, &c, 1); s.push_back(cs[q]); } else if (w == 3) { r.ins(0, &c, 1); s.push_front(cs[q]); } else { r.v[p] = c; s.write(p, cs[q]); } break; }
      case 44: { size_t p = APOS(r.n); must = p > r.n; ARef o = r; unsigned w = vf_pick(0, 2); if (w == 0) { if (!must) r.ins(p, o.v, o.n); s.insert(p, s); } else if (w == 1) { if (!must) r.over(p, o.v, o.n); s.replace(p, s); } else { must = false; r.ins(r.n, o.v, o.n); s += s; } break; }
      case 45: { s = s; break; }
      case 46: { if (!r.n) return; s.pop_back(); r.cut(1); break; }
      case 47: { AArg<T> a; amkarg(a, s, r, AMAXN); bool eq = a.r.n == r.n; if (eq) for (size_t i = 0; i < r.n; ++i) eq &= a.r.v[i] == r.v[i]; VF_ASSERT((s == a.a) == eq, "== is equality of values"); VF_ASSERT((s != a.a) == !eq, "!= is the negation of =="); VF_ASSERT((a.a == s) == eq, "== is symmetric"); VF_ASSERT(s.equals(a.a) == eq, "equals() is equality of values"); { size_t q = vf_pick(0, r.n); bool e2 = a.r.n == r.n; if (e2) for (size_t i = 0; i < q; ++i) e2 &= a.r.v[i] == r.v[i]; VF_ASSERT(s.equals(a.a, q) == e2, "equals(n) is equality of the first n elements of arrays of one length"); } break; }
      case 48: { unsigned char c = vf_u8(); T x = E::mk(c); size_t p = APOS(r.n); size_t f = (size_t)-1, b = (size_t)-1, g = (size_t)-1; for (size_t i = 0; i < r.n; ++i) if (r.v[i] == c) { if (f == (size_t)-1) f = i; if (i >= p && g == (size_t)-1) g = i - p; b = i; } VF_ASSERT(s.find(x) == f, "find returns the first"); VF_ASSERT(s.rfind(x) == b, "rfind returns the last"); must = p > r.n; size_t o = s.find(x, p); VF_ASSERT(must || o == g, "find from a position"); break; }
      case 49: { size_t p = APOS(r.n); must = p >= r.n; const T& x = s.at(p); VF_ASSERT(must || E::is(x, r.v[p]), "at() returns the element"); break; }
      case 50: { long st = ASL, ln = ASL; size_t a, l; slice_rule(r.n, st, ln, a, l); Array<T> t = s.subarray(st, ln); VF_ASSERT(asame(s, before), "subarray leaves the array alone"); r.drop(a); r.n = l; VF_ASSERT(asame(t, r), "subarray value"); Array<T> u = s(st, ln); s = u; break; }
      case 51: { const Array<T>& cs = s; size_t i = 0; bool ok = true; for (const auto& x : cs) { ok &= E::is(x, r.v[i]); ++i; } VF_ASSERT(ok && i == r.n, "iteration visits every element in order"); i = r.n; for (auto it = cs.rbegin(); it != cs.rend(); ++it) { ok &= E::is(*it, r.v[--i]); } VF_ASSERT(ok && i == 0, "reverse iteration visits every element"); i = 0; for (auto& x : s) { ok &= E::is(x, r.v[i]); ++i; } VF_ASSERT(ok && i == r.n, "mutable iteration"); break; }
      case 52: { if (!r.n) return; size_t p = AIDX(r.n); unsigned char c = vf_u8(); auto cr = s[p]; VF_ASSERT(E::is(cr.get(), r.v[p]), "get() returns the element"); cr.mget() = E::mk(c); r.v[p] = c; break; }
      case 53: { Array<T> t(s.cbegin(), s.cend()); VF_ASSERT(asame(t, r), "construction from a range"); Array<T> u(s.data(), r.n); VF_ASSERT(asame(u, r), "construction from a C array"); s = t; break; }
      case 54: { if (!r.n) return; size_t p = AIDX(r.n); unsigned char c = vf_u8(); s.read(p) = E::mk(c); r.v[p] = c; break; }
      case 55: { if (!r.n) return; size_t p = AIDX(r.n), q = AIDX(r.n); r.v[p] = r.v[q]; s[p] = s[q]; break; }
      case 56: { size_t p = APOS(r.n); unsigned char c = vf_u8(); must = p > r.n; if (!must) r.over(p, &c, 1); s.replace(p, E::mk(c)); break; }
      case 57: { if (!r.n) return; bool w = vf_flag(); T x = w ? Array<T>(s).shift() : Array<T>(s).pop(); VF_ASSERT(E::is(x, w ? r.v[0] : r.v[r.n - 1]), "shift/pop of a temporary"); break; }
      case 58: { AArg<T> a; amkarg(a, s, r, AARGN); swap(s, a.a); VF_ASSERT(asame(s, a.r) && asame(a.a, r), "swap exchanges the values"); r = a.r; break; }
      case 59: { AArg<T> a; amkarg(a, s, r, AARGN); long st = (long)vf_pick(0, r.n), ln = (long)vf_pick(0, 3); if (ln == 3) ln = -1; size_t k = ln < 0 || (size_t)ln > a.r.n ? a.r.n : ln; if (k) r.over(st, a.r.v, k); s(st, ln) = std::move(a.a); break; }
      case 60: { AArg<T> a; amkarg(a, s, r, AARGN); long st = (long)vf_pick(0, r.n), ln = (long)vf_pick(0, 2); if (ln == 2) ln = -1; long s2 = (long)vf_pick(0, 1), l2 = (long)vf_pick(0, 2) - 1; size_t x, l; slice_rule(a.r.n, s2, l2, x, l); size_t k = ln < 0 || (size_t)ln > l ? l : ln; if (k) r.over(st, a.r.v + x, k); s(st, ln) = a.a(s2, l2); VF_ASSERT(asame(a.a, a.r), "the slice assigned from is unchanged"); break; }
      case 61: { AArg<T> a; amkarg(a, s, r, AARGN); size_t k = vf_pick(0, a.r.n + 1); if (vf_flag()) k = (size_t)-1; r.ins(r.n, a.r.v, k < a.r.n ? k : a.r.n); if (vf_flag()) { s.append(a.a, k); VF_ASSERT(asame(a.a, a.r), "argument of append unchanged"); } else s.append(std::move(a.a), k); break; }
      case 62: { unsigned w = vf_pick(0, 2); unsigned char c = vf_u8(), d = vf_u8(); if (w == 0) { Array<T> t{E::mk(c), E::mk(d)}; unsigned char u[2] = {c, d}; r.set(u, 2); s = t; } else if (w == 1) { size_t k = ALEN(AMAXN); Array<T> t(k, E::mk(c)); r.n = 0; for (size_t i = 0; i < k; ++i) r.ins(0, &c, 1); s = t; } else { Array<T> t(s); VF_ASSERT(asame(t, r), "copy construction"); const Array<T>& cs = t; Array<T> u = cs(0, -1); VF_ASSERT(asame(u, r), "the whole as a slice"); s = u; } break; }
      case 63: { if (!r.n) return; bool w = vf_flag(); Array<T> t(s); Array<T> x = w ? std::move(t)++ : std::move(t)--; VF_ASSERT(x.length() == 1 && E::is(x.data()[0], w ? r.v[0] : r.v[r.n - 1]), "postfix ++/-- of a temporary returns the removed element"); break; }
      case 64: { if (!r.n) return; size_t p = AIDX(r.n); unsigned char c = vf_u8(); r.v[p] = c; if (vf_flag()) s.write(p, E::mk(c)); else { T x = E::mk(c); s[p] = std::move(x); } break; }
      case 65: { bool t = false; try { if (vf_flag()) s.reserve((size_t)-1); else s.resize((size_t)-1, E::mk(1)); } catch (const std::exception&) { t = true; } VF_ASSERT(t, "a size that cannot be allocated is refused"); break; }
      default: return;
    }
  } catch (const std::out_of_range&) { threw = true; }
  VF_ASSERT(threw == must, "out_of_range exactly when the position is past the end");
  if (threw) { r = before; VF_ASSERT(asame(s, before), "unchanged when out_of_range is thrown"); vf_reach("oor"); }
}
