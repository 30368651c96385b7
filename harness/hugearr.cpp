// Long Arrays, tables and Streams (C01, C11, C12, C13).
#include "huge.h"
#include "HashTable.h"
#include "Stream.h"
static const unsigned AZ[] = {100, 127, 128, 129, 255, 256, 257, 300, 1024, 1025, 4097, 65537};
template <class T> struct V; template <> struct V<long> { static long mk(size_t i) { return (long)(i * 7 + 3); } static long sym() { return (long)vf_u64(); } }; template <> struct V<String> { static String mk(size_t i) { char t[3] = {(char)('a' + i % 23), (char)('a' + i / 23 % 23), (char)('a' + i / 529 % 23)}; return String(t, 3); } static String sym() { char t[2]; vf_bytes(t, 2); return String(t, 2); } };
template <class T> static bool eqv(const T& a, const T& b) { return a == b; }
template <> bool eqv(const String& a, const String& b) { return a.length() == b.length() && vf_eq(a.data(), b.data(), a.length()); }
// the reference: value i of the original sequence, three of them symbolic
template <class T> struct Seq { size_t n; T s0, s1, s2; T at(size_t i) const { return i == 0 ? s0 : i == n / 2 ? s1 : i == n - 1 ? s2 : V<T>::mk(i); } };
template <class T> static void arr(unsigned maxz, bool value) {
  size_t live0 = vf_live();
  { Seq<T> q; q.n = AZ[vf_pick(0, maxz)]; q.s0 = V<T>::sym(); q.s1 = V<T>::sym(); q.s2 = V<T>::sym(); size_t n = q.n; T x = V<T>::sym(); Array<T> a, keep; unsigned k = (unsigned)vf_pick(0, 3);
    { Array<T> t; if (k == 3) t.reserve(2 * n); if (k == 2) t << V<T>::mk(9); for (size_t i = 0; i < n; ++i) t.push_back(q.at(i)); if (k == 2) t.shift(); a = std::move(t); } if (k == 1) keep = a;
    // after the operation: the values pre, then q[from, to) with y put before index ins and [rep] replaced, then post
    size_t from = 0, to = n, ins = (size_t)-1, rep = (size_t)-1, twice = 0, fill = 0;
    switch (vf_pick(0, 13)) {
      case 0: a.push_back(x); ins = n; break;
      case 1: a.push_front(x); ins = 0; break;
      case 2: a.insert(n / 2, x); ins = n / 2; break;
      case 3: a[n - 1] = x; rep = n - 1; break;
      case 4: { T y = a.shift(); VF_ASSERT(!value || eqv(y, q.at(0)), "shift() returns the first element"); from = 1; break; }
      case 5: { T y = a.pop(); VF_ASSERT(!value || eqv(y, q.at(n - 1)), "pop() returns the last element"); to = n - 1; break; }
      case 6: a += a; twice = 1; break;
      case 7: a.resize(n + 3, x); fill = 3; break;
      case 8: a.resize(n - 3); to = n - 3; break;
      case 9: a = a.subarray(1, (long)n - 2); from = 1; to = n - 1; break;
      case 10: a = a.subarray(-2); from = n - 2; break;
      case 11: a.begin()[n / 2] = x; rep = n / 2; break;
      case 12: { Array<T> b(a); b += x; a = b + Array<T>(); ins = n; break; }
      default: a.reserve(3 * n); break;
    }
    if (value) { size_t m = (to - from) + (ins != (size_t)-1) + (twice ? n : 0) + fill; VF_ASSERT(a.length() == m, "length after the operation"); size_t j = 0; const Array<T>& c = a; bool ok = true;
      for (size_t i = from; i < to; ++i) { if (i == ins) ok &= eqv(c[j++], x); ok &= eqv(c[j++], i == rep ? x : q.at(i)); } if (ins == to) ok &= eqv(c[j++], x); if (twice) for (size_t i = 0; i < n; ++i) ok &= eqv(c[j++], q.at(i)); for (size_t i = 0; i < fill; ++i) ok &= eqv(c[j++], x); VF_ASSERT(ok, "value after the operation"); }
    if (k == 1) { VF_ASSERT(keep.length() == n, "arrays sharing the buffer keep their value"); const Array<T>& c = keep; bool ok = true; for (size_t i = 0; i < n; ++i) ok &= eqv(c[i], q.at(i)); VF_ASSERT(ok, "arrays sharing the buffer keep their value"); }
    vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "no leak");
}
extern "C" void huge_array_long() { arr<long>(TIER(10, 11), true); }
extern "C" void huge_array_string() { arr<String>(TIER(7, 9), true); }
extern "C" void huge_cow_array() { if (vf_flag()) arr<long>(9, false); else arr<String>(7, false); }
extern "C" void huge_array_find() { size_t live0 = vf_live(); { size_t n = AZ[vf_pick(0, TIER(10, 11))]; Array<long> a; for (size_t i = 0; i < n; ++i) a << (long)(i * 2); long x = (long)vf_range(0, 2 * n + 4); size_t at = vf_pick(0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; vf_assume(x & 1); a[at] = x; VF_ASSERT(a.find(x) == at && a.rfind(x) == at && a.find(-1) == Array<long>::npos && a.rfind(-1) == Array<long>::npos, "find() and rfind()"); Array<long> b(a), c; for (size_t i = 0; i < n; ++i) c << a.data()[i]; VF_ASSERT(a == b && a == c, "==" ); c[n - 1] = -5; VF_ASSERT(a != c && !(a == c), "!="); vf_reach("done"); } VF_ASSERT(vf_live() == live0, "no leak"); }
extern "C" void huge_map() { size_t live0 = vf_live(); { static const unsigned z[] = {90, 100, 101, 127, 128, 129, 210, 257, 300, 600}; size_t n = z[vf_pick(0, TIER(8, 9))]; bool dflt = vf_flag(); bd::HashTable<long, long> h(dflt ? 100 : 1); long y = (long)vf_u64(); size_t at = vf_pick(0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; for (size_t i = 0; i < n; ++i) { if (i & 1) VF_ASSERT(h.insert((long)(i * 103), i == at ? y : (long)i), "insert()"); else h[(long)(i * 103)] = i == at ? y : (long)i; } VF_ASSERT(h.size() == n, "size()"); VF_ASSERT(!h.insert((long)(at * 103), 5) && h.getValue((long)(at * 103)) == y, "a present key is not replaced"); bd::HashTable<long, long> g(h); size_t cnt = 0; bool ok = true; for (auto& kv : h) { ok &= kv.second == (kv.first == (long)(at * 103) ? y : kv.first / 103); ++cnt; } VF_ASSERT(ok && cnt == n, "iteration"); VF_ASSERT(h.remove((long)(at * 103)) && !h.contains((long)(at * 103)) && h.size() == n - 1, "remove()"); ok = true; for (size_t i = 0; i < n; ++i) ok &= h.contains((long)(i * 103)) == (i != at) && g.contains((long)(i * 103)); VF_ASSERT(ok, "other keys stay"); h.clear(); VF_ASSERT(h.size() == 0 && !h.contains(103) && g.size() == n && g.getValue((long)(at * 103)) == y, "a copy is independent"); vf_reach("done"); } VF_ASSERT(vf_live() == live0, "no leak"); }
extern "C" void huge_map_string() { size_t live0 = vf_live(); { size_t n = 120 + 60 * vf_pick(0, 2); bd::HashTable<String, String> h; char t[2]; vf_bytes(t, 2); size_t at = vf_flag() ? n - 1 : 50; for (size_t i = 0; i < n; ++i) h[V<String>::mk(i)] = i == at ? String(t, 2) : V<String>::mk(i + 1); VF_ASSERT(h.size() == n, "size()"); bool ok = true; for (size_t i = 0; i < n; ++i) ok &= eqv(h.getValue(V<String>::mk(i)), i == at ? String(t, 2) : V<String>::mk(i + 1)); VF_ASSERT(ok, "every key has its value"); VF_ASSERT(h.remove(V<String>::mk(at)) && !h.contains(V<String>::mk(at)) && h.size() == n - 1, "remove()"); vf_reach("done"); } VF_ASSERT(vf_live() == live0, "no leak"); }
extern "C" void huge_stream() { size_t live0 = vf_live(); { using bd::Stream; size_t n = HZ[vf_pick(0, NHZ - 1)]; hfill(hb, n); bool pieces = vf_flag(); Stream s(vf_flag() ? 100 : 0); if (pieces) { size_t at = 0, step = 1; while (at < n) { size_t l = step < n - at ? step : n - at; s << String(hb + at, l); at += l; step = step * 3 + 1; } } else s << String(hb, n); VF_ASSERT(s.length() == n && s.tell() == n, "length and position after writing"); String v = s; VF_ASSERT(hsame(v, hb, n), "the content is what was written"); size_t m = n;
  switch (vf_pick(0, 5)) {
    case 0: { s.seek(0, SEEK_SET); size_t at = 0, step = 1; while (at < n) { size_t l = step < n - at ? step : n - at; String r = s.read(step); VF_ASSERT(hsame(r, hb + at, l) && s.tell() == at + l, "reading in pieces"); at += l; step = step * 3 + 1; } VF_ASSERT(s.read(5).length() == 0, "at the end"); break; }
    case 1: { s.seek((int)n - 2, SEEK_SET); s << String("wxyz"); memcpy(hb + n - 2, "wxyz", 4); m = n + 2; VF_ASSERT(s.tell() == m, "position"); break; }
    case 2: { s.seek((int)(n / 2), SEEK_SET); String p = s.peek(); VF_ASSERT(hsame(p, hb + n / 2, n - n / 2) && s.tell() == n / 2, "peek()"); s.truncate(); m = n / 2; break; }
    case 3: { s.seek(1, SEEK_SET); s.seek((int)n - 3, SEEK_CUR); VF_ASSERT(s.tell() == n - 2, "seek()"); String r = s.read(100); VF_ASSERT(hsame(r, hb + n - 2, 2), "read()"); break; }
    case 4: { vf_assume(hb[0] != '\n' && hb[n / 2] != '\n' && hb[n - 1] != '\n'); s.seek(0, SEEK_SET); hb[n - 5] = '\n'; s.seek((int)n - 5, SEEK_SET); s << String("\n"); s.seek(0, SEEK_SET); String l = s.getline(); VF_ASSERT(hsame(l, hb, n - 4), "getline()"); l = s.getline(); VF_ASSERT(hsame(l, hb + n - 4, 4), "getline()"); break; }
    default: { s.seek(3, SEEK_SET); s << String(hb, n); memmove(hb2, hb, n); memcpy(hb + 3, hb2, n); m = n + 3; break; }
  } v = s; VF_ASSERT(hsame(v, hb, m), "content after the operation"); vf_reach("done"); } VF_ASSERT(vf_live() == live0, "no leak"); }
extern "C" void huge_lines() { size_t live0 = vf_live(); { using bd::Stream; static const unsigned cnt[] = {130, 257, 1025}; unsigned c = cnt[vf_pick(0, 2)]; size_t n = 0; static unsigned st[1100]; for (unsigned i = 0; i < c; ++i) { st[i] = (unsigned)n; for (unsigned j = 0; j < i % 5; ++j) hb[n++] = 'a' + (i + j) % 23; hb[n++] = '\n'; } st[c] = (unsigned)n; char x = (char)vf_u8(); vf_assume(x != '\n'); hb[st[c - 3]] = x; bool ok3 = true; if ((c - 3) % 5 == 0) { ok3 = false; hb[st[c - 3]] = '\n'; } Stream s; for (unsigned i = 0; i < c; ++i) s << String(hb + st[i], st[i + 1] - st[i]); VF_ASSERT(s.length() == n, "length"); s.seek(0, SEEK_SET); for (unsigned i = 0; i < c; ++i) { String l = s.getline(); VF_ASSERT(hsame(l, hb + st[i], st[i + 1] - st[i]), "every line comes back once, in order"); } VF_ASSERT(s.getline().length() == 0 && s.tell() == n, "at the end"); (void)ok3; vf_reach("done"); } VF_ASSERT(vf_live() == live0, "no leak"); }
