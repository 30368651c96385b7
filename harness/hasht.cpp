// C12: HashTable as a map.
#define CAPR 32
#include "hs.h"
#include "HashTable.h"
// a key whose hashes all collide, so that every key comparison is decided by equality; the key itself is symbolic
struct CK { unsigned char k; CK() : k(0) {} explicit CK(unsigned char x) : k(x) {} bool operator==(const CK& o) const { return k == o.k; } };
namespace std { template <> struct hash<CK> { size_t operator()(const CK&) const noexcept { return 7; } }; }
struct M { unsigned n = 0; unsigned char k[8]; unsigned char v[8];
  int idx(unsigned char x) const { for (unsigned i = 0; i < n; ++i) if (k[i] == x) return (int)i; return -1; }
  void put(unsigned char x, unsigned char y) { int i = idx(x); if (i < 0) { k[n] = x; v[n++] = y; } else v[i] = y; }
  bool del(unsigned char x) { int i = idx(x); if (i < 0) return false; --n; k[i] = k[n]; v[i] = v[n]; return true; } };
template <class K> struct KM;
template <> struct KM<CK> { static CK mk(unsigned char x) { return CK(x); } static unsigned char sym() { return vf_u8(); } static unsigned char of(const CK& k) { return k.k; } };
// longs that fall into the same bucket of the default table, and others
static const long LK[] = {5, 108, 211, -1, 0};
template <> struct KM<long> { static long mk(unsigned char x) { return LK[x]; } static unsigned char sym() { return (unsigned char)vf_pick(0, TIER(2, 4)); } static unsigned char of(long k) { unsigned char i = 0; while (i < 5 && LK[i] != k) ++i; return i; } };
// String keys, each time built in another internal state
static const char SK[4][4] = {"", "a", "b", "a\0"}; static const unsigned SL_[4] = {0, 1, 1, 2};
static unsigned tog;
template <> struct KM<String> { static String mk(unsigned char x) { if (tog++ & 1) { char u[8] = "L"; for (unsigned i = 0; i < SL_[x]; ++i) u[i + 1] = SK[x][i]; u[SL_[x] + 1] = 'R'; return String(u, SL_[x] + 2).substring(1, (long)SL_[x]); } return SL_[x] ? String(SK[x], SL_[x]) : String(); } static unsigned char sym() { return (unsigned char)vf_pick(0, TIER(2, 3)); } static unsigned char of(const String& k) { for (unsigned char i = 0; i < 4; ++i) if (same_const(k, SK[i], SL_[i])) return i; return 9; } };
template <class V> struct VM;
template <> struct VM<long> { static long mk(unsigned char v) { return (long)v; } static bool is(long x, unsigned char v) { return x == (long)v; } static bool zero(long x) { return x == 0; } };
template <> struct VM<String> { static String mk(unsigned char v) { if (!v) return String(); return String((char)v); } static bool is(const String& x, unsigned char v) { if (!v) return x.length() == 0; return x.length() == 1 && x.data()[0] == (char)v; } static bool zero(const String& x) { return x.length() == 0; } };
template <class K, class V> using HT = bd::HashTable<K, V>;
template <class K, class V> static void agree(HT<K, V>& h, const M& m) {
  const HT<K, V>& c = h; VF_ASSERT(h.size() == m.n, "size() is the number of pairs"); VF_ASSERT(h.isEmpty() == (m.n == 0) && (bool)h == (m.n != 0), "isEmpty()");
  bool seen[8] = {}; unsigned cnt = 0; for (auto it = c.begin(); it != c.end(); ++it) { VF_ASSERT(++cnt <= m.n, "iteration visits each pair once"); int i = m.idx(KM<K>::of(it->first)); VF_ASSERT(i >= 0, "iteration visits only stored pairs"); VF_ASSERT(!seen[i], "iteration visits each pair once"); seen[i] = true; VF_ASSERT(VM<V>::is(it->second, m.v[i]), "iteration gives the stored value"); }
  VF_ASSERT(cnt == m.n, "iteration visits every pair"); unsigned c2 = 0; for (auto& kv : h) { (void)kv; ++c2; } VF_ASSERT(c2 == m.n, "iteration visits every pair");
  for (unsigned i = 0; i < m.n; ++i) { K k = KM<K>::mk(m.k[i]); VF_ASSERT(c.contains(k), "contains() a stored key"); VF_ASSERT(VM<V>::is(c.getValue(k), m.v[i]), "getValue() is the last value stored"); VF_ASSERT(VM<V>::is(c[k], m.v[i]), "const [] is the last value stored"); auto f = h.find(k); VF_ASSERT(f != h.end() && VM<V>::is(f->second, m.v[i]), "find() finds a stored key"); auto g = c.find(k); VF_ASSERT(g != c.end() && VM<V>::is(g->second, m.v[i]), "const find() finds a stored key"); }
}
template <class K, class V> static void probe(HT<K, V>& h, const M& m) { unsigned char x = KM<K>::sym(); K k = KM<K>::mk(x); const HT<K, V>& c = h; int i = m.idx(x); VF_ASSERT(c.contains(k) == (i >= 0), "contains()"); V v = c.getValue(k); VF_ASSERT(i >= 0 ? VM<V>::is(v, m.v[i]) : VM<V>::zero(v), "a missing key gives a default value"); V w = c[k]; VF_ASSERT(i >= 0 ? VM<V>::is(w, m.v[i]) : VM<V>::zero(w), "a missing key gives a default value"); VF_ASSERT((h.find(k) == h.end()) == (i < 0), "find()"); VF_ASSERT(h.size() == m.n, "looking up adds nothing"); }
template <class K, class V> static void hstep(HT<K, V>& h, M& m, HT<K, V>& o, M& mo, unsigned op) {
  unsigned char x = 0, y = 0; if (op <= 9) { x = KM<K>::sym(); y = vf_u8(); } 
  switch (op) {
    case 0: { const K k = KM<K>::mk(x); const V v = VM<V>::mk(y); bool had = m.idx(x) >= 0; VF_ASSERT(h.insert(k, v) == !had, "insert() tells whether it stored"); if (!had) m.put(x, y); VF_ASSERT(KM<K>::of(k) == x && VM<V>::is(v, y), "insert() keeps its arguments"); break; }
    case 1: { const V v = VM<V>::mk(y); bool had = m.idx(x) >= 0; VF_ASSERT(h.insert(KM<K>::mk(x), v) == !had, "insert() tells whether it stored"); if (!had) m.put(x, y); break; }
    case 2: { const K k = KM<K>::mk(x); bool had = m.idx(x) >= 0; VF_ASSERT(h.insert(k, VM<V>::mk(y)) == !had, "insert() tells whether it stored"); if (!had) m.put(x, y); break; }
    case 3: { K k = KM<K>::mk(x); V v = VM<V>::mk(y); bool had = m.idx(x) >= 0; VF_ASSERT(h.insert(std::move(k), std::move(v)) == !had, "insert() tells whether it stored"); if (!had) m.put(x, y); else VF_ASSERT(VM<V>::is(v, y), "an insert() that does not store keeps its argument"); break; }
    case 4: { const K k = KM<K>::mk(x); h[k] = VM<V>::mk(y); m.put(x, y); break; }
    case 5: { h[KM<K>::mk(x)] = VM<V>::mk(y); m.put(x, y); break; }
    case 6: case 7: { K k = KM<K>::mk(x); VF_ASSERT(h.remove(k) == m.del(x), "remove() tells whether the key was there"); break; }
    case 8: { auto it = h.find(KM<K>::mk(x)); int i = m.idx(x); VF_ASSERT((it != h.end()) == (i >= 0), "find()"); if (i >= 0) { it->second = VM<V>::mk(y); m.v[i] = y; } break; }
    case 9: { HT<K, V> t(size_t(3)); t[KM<K>::mk(x)] = VM<V>::mk(y); h = std::move(t); m.n = 0; m.put(x, y); break; }
    case 10: h.clear(); m.n = 0; break;
    case 11: o = h; mo = m; break;
    case 12: { HT<K, V> t(h); agree(t, m); t.clear(); agree(h, m); break; }
    case 13: { HT<K, V> t(std::move(h)); agree(t, m); h = std::move(t); break; }
    case 14: { swap(h, o); M t = m; m = mo; mo = t; break; }
    case 15: { HT<K, V>& self = h; h = self; break; }
    case 16: { HT<K, V> t(std::move(h)); VF_ASSERT(t.size() == m.n, "moving keeps the pairs"); h.clear(); m.n = 0; break; }
    default: { h = {{KM<K>::mk(1), VM<V>::mk(3)}, {KM<K>::mk(2), VM<V>::mk(4)}}; m.n = 0; m.put(1, 3); m.put(2, 4); break; }
  } }
#define HOPS 18
template <class K, class V> static void run(unsigned steps, bool small) {
  size_t l0 = vf_live(); { HT<K, V> h, o; M m, mo; if (small) { HT<K, V> t(size_t(1)); h = t; }
  for (unsigned i = 0; i < steps; ++i) { hstep(h, m, o, mo, (unsigned)vf_pick(0, HOPS - 1)); VF_ASSERT(h.size() == m.n, "size() is the number of pairs"); }
  agree(h, m); agree(o, mo); probe(h, m); } VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void map_collide() { run<CK, long>(TIER(3, 4), false); }
extern "C" void map_long() { run<long, String>(TIER(2, 3), vf_flag()); }
extern "C" void map_string() { tog = 0; run<String, String>(TIER(2, 3), true); }
// rehashing while growing: one symbolic operation among many insertions into a small table
extern "C" void map_grow() { HT<long, long> h(size_t(1)); size_t n = vf_pick(1, TIER(20, 60)), at = vf_pick(0, 3); at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n + 1; unsigned char y = vf_u8(); for (size_t i = 0; i < n; ++i) VF_ASSERT(h.insert((long)(i * 103), i == at ? (long)y : (long)i), "insert()"); VF_ASSERT(h.size() == n, "size()"); size_t cnt = 0; for (auto& kv : h) { VF_ASSERT(kv.second == (kv.first == (long)(at * 103) ? (long)y : kv.first / 103), "value"); ++cnt; } VF_ASSERT(cnt == n, "iteration"); if (at < n) { VF_ASSERT(h.remove((long)(at * 103)), "remove()"); VF_ASSERT(!h.contains((long)(at * 103)), "removed"); VF_ASSERT(h.size() == n - 1, "size()"); for (size_t i = 0; i < n; ++i) VF_ASSERT(h.contains((long)(i * 103)) == (i != at), "other keys stay"); } vf_reach("done"); }
// the list constructor, and construction of a large table
extern "C" void map_list() { unsigned char a = vf_u8(), b = vf_u8(); bd::HashTable<String, long> h = {{"x", a}, {"y", b}}; VF_ASSERT(h.size() == 2 && h.getValue("x") == a && h["y"] == b, "list constructor"); bd::HashTable<String, long> g; g["q"] = 1; g = {{"z", b}}; VF_ASSERT(g.size() == 1 && g.getValue("z") == b && !g.contains("q"), "list assignment replaces the contents"); String k("x"); h[k] = 7; k += 'y'; VF_ASSERT(h.getValue("x") == 7 && !h.contains(k), "the stored key is independent"); String v; bd::HashTable<String, String> hv; hv["k"] = "v"; v = hv["k"]; v += (char)a; VF_ASSERT(hv.getValue("k") == "v", "the stored value is independent"); hv["k"] += (char)b; VF_ASSERT(hv.getValue("k").length() == 2, "[] gives access to the stored value"); vf_reach("done"); }
// longer histories of the basic operations on two tables
extern "C" void map_history() { size_t l0 = vf_live(); { HT<long, long> h, o; M m, mo; bool small = vf_flag(); if (small) { HT<long, long> t(size_t(1)); h = t; }
  static const unsigned core[] = {0, 5, 6, 8, 10, 11, 14, 16}; for (unsigned i = 0; i < TIER(4, 5); ++i) { hstep(h, m, o, mo, core[vf_pick(0, 7)]); VF_ASSERT(h.size() == m.n && o.size() == mo.n, "size() is the number of pairs"); }
  agree(h, m); agree(o, mo); } VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
