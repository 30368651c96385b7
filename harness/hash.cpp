// C06: hashes agree with equality, before and after every operation, with the cache warm.
#define MAXN TIER(2, 3)
#define ARGN 2
#define POS(n) ({ size_t p_ = vf_pick(0, 2); p_ == 0 ? (size_t)0 : p_ == 1 ? (n) / 2 : (n); })
#define LEN(m) (m)
#include "ops.h"
#define AMAXN TIER(2, 3)
#define AARGN 2
#define APOS(n) ({ size_t p_ = vf_pick(0, 2); p_ == 0 ? (size_t)0 : p_ == 1 ? (n) / 2 : (n); })
#define ALEN(m) (m)
#include "aops.h"
static size_t fresh(const String& s) { String t(s.data(), s.length()); return t.hash(); }
template <class T> static size_t fresh(const Array<T>& a) { Array<T> t; for (size_t i = 0; i < a.length(); ++i) { T x(a.data()[i]); t.push_back(x); } return t.hash(); }
extern "C" void hash_string() {
  String s, alias; Ref r, ar; build(s, r, alias, ar, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, MAXN));
  size_t h = s.hash(); VF_ASSERT(h == fresh(s), "hash depends only on the value"); VF_ASSERT(std::hash<String>()(s) == h, "std::hash agrees"); VF_ASSERT(same(s, r), "hash() changes nothing");
  if (ar.n) alias.hash(); String keep(s);
  unsigned op = (unsigned)vf_pick(0, NOPS + 3);
  if (op < NOPS) { step(s, r, op); VF_ASSERT(same(s, r), "value"); }
  else if (op == NOPS) s.trim(); else if (op == NOPS + 1) s.chomp(); else if (op == NOPS + 2) { char d = (char)vf_u8(); String t = newsplit(s, d); VF_ASSERT(t.hash() == fresh(t), "hash of a token"); } else { String t("zz"); t.hash(); swap(s, t); VF_ASSERT(t.hash() == h, "hash after swap"); }
  VF_ASSERT(s.hash() == fresh(s), "hash after the operation is the hash of the value"); VF_ASSERT(s.hash() == fresh(s), "hash is stable");
  VF_ASSERT(keep.hash() == h, "hash of a copy is unaffected"); VF_ASSERT(alias.hash() == fresh(alias), "hash of a sharer is unaffected");
  String sub = s.substring(0, 1); VF_ASSERT(sub.hash() == fresh(sub), "hash of a substring"); String mv(std::move(s)); VF_ASSERT(mv.hash() == fresh(mv), "hash of a moved-to string"); VF_ASSERT(s.hash() == fresh(s), "hash of a moved-from string");
  vf_reach("done");
}
template <class T> static void ha() {
  Array<T> s, alias; ARef r, ar; abuild(s, r, alias, ar, (unsigned)vf_pick(0, A_NKINDS - 1), vf_pick(0, AMAXN));
  size_t h = s.hash(); VF_ASSERT(h == fresh(s), "hash depends only on the value"); VF_ASSERT(std::hash<Array<T>>()(s) == h, "std::hash agrees"); alias.hash(); Array<T> keep(s);
  astep(s, r, (unsigned)vf_pick(0, ANOPS - 2));
  VF_ASSERT(s.hash() == fresh(s), "hash after the operation is the hash of the value"); VF_ASSERT(keep.hash() == h, "hash of a copy is unaffected"); VF_ASSERT(alias.hash() == fresh(alias), "hash of a sharer is unaffected");
  Array<T> sub = s.subarray(0, 1); VF_ASSERT(sub.hash() == fresh(sub), "hash of a subarray"); Array<T> mv(std::move(s)); VF_ASSERT(mv.hash() == fresh(mv), "hash of a moved-to array"); VF_ASSERT(s.hash() == fresh(s), "hash of a moved-from array");
  vf_reach("done");
}
extern "C" void hash_array_long() { ha<long>(); }
// elements that are Strings: the outer cache must notice inner writes; contents from a small alphabet
extern "C" void hash_array_string() {
  Array<String> s, alias; size_t n = vf_pick(0, TIER(2, 3)); unsigned k = (unsigned)vf_pick(0, 2); for (size_t i = 0; i < n; ++i) s.push_back(String(i & 1 ? "bb" : "a"));
  if (k == 1) alias = s; if (k == 2) { alias = s; alias.push_back(String("zz")); s = alias.subarray(0, (long)n); }
  size_t h = s.hash(); VF_ASSERT(h == fresh(s), "hash depends only on the value"); size_t ah = alias.hash(); Array<String> keep(s); char c = (char)vf_u8();
  switch (vf_pick(0, 7)) {
    case 0: if (n) s.back() += c; break;
    case 1: if (n) s[0] = String(c); break;
    case 2: s.push_back(String(c)); break;
    case 3: if (n) s.shift(); break;
    case 4: if (n) s.pop(); break;
    case 5: s.insert(size_t(0), String(c)); break;
    case 6: { Array<String> t; t << String(c); s += t; break; }
    default: if (n) for (auto& e : s) e = String(c); break;
  }
  VF_ASSERT(s.hash() == fresh(s), "hash after the operation is the hash of the value"); VF_ASSERT(keep.hash() == h, "hash of a copy is unaffected"); VF_ASSERT(alias.hash() == ah, "hash of a sharer is unaffected");
  Array<String> mv(std::move(s)); VF_ASSERT(mv.hash() == fresh(mv), "hash of a moved-to array"); VF_ASSERT(s.hash() == fresh(s), "hash of a moved-from array");
  vf_reach("done");
}
extern "C" void hash_big() { String s, alias; Ref r, ar; static const unsigned b[] = {15, 16, 17, 32, 40}; size_t n = b[vf_pick(0, 4)]; build(s, r, alias, ar, (unsigned)vf_pick(0, K_NKINDS - 1), n); VF_ASSERT(s.hash() == fresh(s), "hash depends only on the value"); char c = (char)vf_u8(); size_t p = vf_pick(0, 3); p = p == 0 ? 0 : p == 1 ? n / 2 : n - 1; s[p] = c; VF_ASSERT(s.hash() == fresh(s), "hash after a write"); s += c; VF_ASSERT(s.hash() == fresh(s), "hash after an append"); ++s; VF_ASSERT(s.hash() == fresh(s), "hash after dropping the front"); --s; VF_ASSERT(s.hash() == fresh(s), "hash after dropping the end"); vf_reach("done"); }
