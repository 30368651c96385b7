// C24: an allocation fails somewhere inside an operation.
#define MAXN 2
#define ARGN 2
#define POS(n) ({ size_t p_ = vf_pick(0, 2); p_ == 0 ? (size_t)0 : p_ == 1 ? (n) / 2 : (n); })
#define IDX(n) ({ vf_flag() ? (n) - 1 : 0; })
#define LEN(m) (m)
#define SL ({ static const long l_[] = {-1, 1, -2, 0}; l_[vf_pick(0, 2)]; })
#include "ops.h"
#define AMAXN 2
#define APOS(n) POS(n)
#define AIDX(n) IDX(n)
#define ALEN(m) (m)
#define ASL SL
#include "aops.h"
#include "HashTable.h"
#include "Stream.h"
// The object can be read, edited, reassigned and destroyed.
static void usable(String& s) {
  VF_ASSERT(s.length() <= s.capacity(), "length within the capacity"); unsigned x = 0; for (size_t i = 0; i < s.length(); ++i) x += (unsigned char)s.data()[i];
  String c(s); VF_ASSERT(c == s, "a copy equals it"); size_t n = s.length(); s += 'x'; VF_ASSERT(s.length() == n + 1 && s[n] == 'x', "it can be appended to"); VF_ASSERT(c.length() == n, "the copy is independent"); s = String("ok"); VF_ASSERT(same_const(s, "ok", 2), "it can be assigned"); (void)x;
}
extern "C" void oom_string() {
  size_t live0 = vf_live();
  { String s, alias; Ref r, ar; build(s, r, alias, ar, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, 2)); String other("other"), copy(s); Ref rc(r); if (vf_flag()) copy = String();  else ar.n = ar.n; bool shared = copy.length() == rc.n;
    bool oom = false; unsigned op = (unsigned)vf_pick(0, NOPS - 1); vf_alloc_fail(1);
    try { step(s, r, op); } catch (const std::bad_alloc&) { oom = true; }
    vf_alloc_fail(0);
    VF_ASSERT(same_const(other, "other", 5) && (!ar.n || same(alias, ar)) && (!shared || same(copy, rc)), "other objects keep their value");
    if (oom) { vf_reach("oom"); 
      if (op != 40 && op != 50) VF_ASSERT(same(s, rc), "an edit that could not allocate leaves the value unchanged");
    usable(s); VF_ASSERT((!ar.n || same(alias, ar)) && (!shared || same(copy, rc)), "other objects keep their value afterwards"); }
    else VF_ASSERT(same(s, r), "no failure: the result is right");
    vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "no leak");
}
template <class T> struct Strong { static const bool v = true; }; template <> struct Strong<Obj> { static const bool v = false; };   // element copies can fail half way
template <class T> static void oom_array(size_t n) {
  size_t live0 = vf_live(); long c0 = Obj::count;
  { Array<T> s, alias; ARef r, ar; abuild(s, r, alias, ar, (unsigned)vf_pick(0, A_NKINDS - 1), n); Array<T> copy; ARef rc(r); bool shared = vf_flag(); if (shared) copy = s;
    bool oom = false; unsigned op = (unsigned)vf_pick(0, ANOPS - 1); vf_alloc_fail(1);
    try { astep(s, r, op); } catch (const std::bad_alloc&) { oom = true; }
    vf_alloc_fail(0);
    VF_ASSERT((!ar.n || asame(alias, ar)) && (!shared || asame(copy, rc)), "other objects keep their value");
    if (oom) { vf_reach("oom"); VF_ASSERT(s.length() <= s.capacity(), "length within the capacity");
      if (Strong<T>::v && op != 40 && op != 4) VF_ASSERT(asame(s, rc), "an edit that could not allocate leaves the value unchanged");
      Array<T> c(s); size_t k = s.length(); VF_ASSERT(c == s, "a copy equals it"); s.push_back(El<T>::mk(7)); VF_ASSERT(s.length() == k + 1 && El<T>::is(s.data()[k], 7) && c.length() == k, "it can be appended to"); s = from<T>((const unsigned char*)"\1\2", 2); VF_ASSERT(s.length() == 2 && El<T>::is(s.data()[1], 2), "it can be assigned");
      VF_ASSERT((!ar.n || asame(alias, ar)) && (!shared || asame(copy, rc)), "other objects keep their value afterwards"); }
    else VF_ASSERT(asame(s, r), "no failure: the result is right");
    vf_reach("done"); }
  VF_ASSERT(vf_live() == live0 && Obj::count == c0, "no leak");
}
extern "C" void oom_array_long() { oom_array<long>(vf_pick(0, 2)); }
extern "C" void oom_array_string() { oom_array<String>(vf_pick(0, 2)); }
extern "C" void oom_array_obj() { oom_array<Obj>(vf_pick(0, 2)); }

// Text operations, tables, streams: the receiver and every other object keep their value when the operation fails.
extern "C" void oom_text() {
  size_t live0 = vf_live();
  { String s, alias; Ref r, ar; build(s, r, alias, ar, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(1, 3), true); String d(","); bool oom = false; unsigned op = (unsigned)vf_pick(0, 15); bool edits = false;
    vf_alloc_fail(1);
    try {
      switch (op) {
        case 0: { Array<String> a = s.split(d); size_t n = 0; for (size_t i = 0; i < a.length(); ++i) n += a.data()[i].length(); VF_ASSERT(n <= r.n, "split pieces"); break; }
        case 1: { String t = s.sub(d, String("ab")); VF_ASSERT(t.length() >= r.n, "sub"); break; }
        case 2: { String t = s * 3; VF_ASSERT(t.length() == 3 * r.n, "repetition"); break; }
        case 3: { edits = true; s.trim(); break; }
        case 4: { edits = true; s.chomp(); break; }
        case 5: { edits = true; String t = newsplit(s); VF_ASSERT(t.length() <= r.n, "newsplit"); break; }
        case 6: { Array<String> a; a << s << d; String t = a.join(d, true); VF_ASSERT(t.length() == r.n + 6, "join"); break; }
        case 7: { const char* p = s.c_str(); VF_ASSERT(p[r.n] == 0 && vf_eq(p, r.b, r.n), "c_str"); break; }
        case 8: { const char* p = *s; VF_ASSERT(p[r.n] == 0 && vf_eq(p, r.b, r.n), "operator*"); break; }
        case 9: { char* p = s.dup(); VF_ASSERT(p[r.n] == 0 && vf_eq(p, r.b, r.n), "dup"); delete[] p; break; }
        case 10: { String t = s.substring(1) + s; VF_ASSERT(t.length() == 2 * r.n - 1, "+"); break; }
        case 11: { (void)s.find(d); (void)s.rfind(d); (void)s.ifind(d); (void)s.hash(); (void)s.compare(d); (void)(s == "x"); break; }
        case 12: { bd::Stream f(s); f << d; f.seek(0, SEEK_SET); String l = f.getline(); f.truncate(); VF_ASSERT(l.length() <= r.n + 1, "stream"); break; }
        case 13: { String t = String::printf("%d-%s", 5, "x"); VF_ASSERT(t.length() == 3, "printf"); break; }
        case 14: { String t; t = s; t[0] = 'q'; t.mdata()[0] = 'w'; break; }
        case 15: { std::string x(r.b, r.n); String t(x); String u(x.c_str()); String v('c'); String w(r.b, r.b + r.n); break; }
      }
    } catch (const std::bad_alloc&) { oom = true; }
    vf_alloc_fail(0);
    if (!edits) VF_ASSERT(same(s, r), "the receiver keeps its value");
    VF_ASSERT(same_const(d, ",", 1) && (!ar.n || same(alias, ar)), "other objects keep their value");
    if (oom) { vf_reach("oom"); usable(s); }
    vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "no leak");
}
extern "C" void oom_table() {
  size_t live0 = vf_live();
  { bd::HashTable<int, String> t; String v1("one"), v2("two"); t[1] = v1; t[2] = v2; bd::HashTable<int, String> c(t); int key = (int)vf_pick(1, 3); bool oom = false; unsigned op = (unsigned)vf_pick(0, 7); bool rm = false;
    vf_alloc_fail(1);
    try {
      switch (op) {
        case 0: t.insert(key, v1); break;
        case 1: t[key] = v2; break;
        case 2: rm = t.remove(key); break;
        case 3: { bd::HashTable<int, String> u(t); VF_ASSERT(u.size() == 2, "copy"); break; }
        case 4: { bd::HashTable<int, String> u; u = t; VF_ASSERT(u.size() == 2, "assignment"); break; }
        case 5: { String x = t.getValue(key); VF_ASSERT(key == 3 ? x.length() == 0 : x.length() == 3, "getValue"); break; }
        case 6: { String sum; for (auto& kv : t) sum += kv.second; VF_ASSERT(sum.length() == 6, "iteration"); break; }
        case 7: { const bd::HashTable<int, String>& ct = t; String x = ct[key]; VF_ASSERT(key == 3 ? x.length() == 0 : x.length() == 3, "const []"); break; }
      }
    } catch (const std::bad_alloc&) { oom = true; }
    vf_alloc_fail(0);
    VF_ASSERT(same_const(v1, "one", 3) && same_const(v2, "two", 3), "other objects keep their value");
    VF_ASSERT(c.size() == 2 && same(c.getValue(1), Ref("one", 3)) && same(c.getValue(2), Ref("two", 3)), "a copy keeps its contents");
    if (oom) { vf_reach("oom"); for (int k = 1; k <= 2; ++k) if (op != 1 || k != key) VF_ASSERT(t.contains(k) && same(t.getValue(k), Ref(k == 1 ? "one" : "two", 3)), "the other entries are still there"); VF_ASSERT(t.size() >= 2, "entries are kept"); }
    else VF_ASSERT(t.size() == (op == 2 ? (rm ? 1u : 2u) : op <= 1 && key == 3 ? 3u : 2u), "no failure: the result is right");
    t[1] = String("new"); VF_ASSERT(same(t.getValue(1), Ref("new", 3)), "it can be assigned to"); t.remove(1); VF_ASSERT(!t.contains(1), "it can be removed from");
    vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "no leak");
}
// Streams: an operation that could not allocate leaves content and position as they were.
extern "C" void oom_stream() {
  size_t live0 = vf_live();
  { String x, alias; Ref r, ar, w; build(x, r, alias, ar, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, 3), true); bd::Stream s(x), d; if (vf_flag()) x = String(); size_t p = vf_pick(0, r.n), p1 = p; s.seek((int)p, SEEK_SET); d << String("held"); String arg("wxyz"); Ref rd("held", 4); w = r; bool oom = false; unsigned op = (unsigned)vf_pick(0, 14);
    auto over = [&](const char* t, size_t n) { char b[CAPR]; size_t m = r.n; for (size_t i = 0; i < m; ++i) b[i] = r.b[i]; for (size_t i = 0; i < n; ++i) b[p + i] = t[i]; w.set(b, p + n > m ? p + n : m); p1 = p + n; };
    vf_alloc_fail(1);
    try {
      switch (op) {
        case 0: s.puts(arg); over("wxyz", 4); break;
        case 1: { String t(arg); s.puts(std::move(t)); over("wxyz", 4); break; }
        case 2: s << arg; over("wxyz", 4); break;
        case 3: { s.truncate(); char b[CAPR]; for (size_t i = 0; i < p; ++i) b[i] = r.b[i]; w.set(b, p); break; }
        case 4: { String t = s.peek(); VF_ASSERT(t.length() == r.n - p, "peek()"); break; }
        case 5: { String t = s.getline(); VF_ASSERT(t.length() <= r.n - p, "getline()"); p1 = p + t.length(); break; }
        case 6: { String t = s.read(2); VF_ASSERT(t.length() == (r.n - p < 2 ? r.n - p : 2), "read()"); p1 = p + t.length(); break; }
        case 7: { String t = s.read(2, ','); VF_ASSERT(t.length() <= 2, "read()"); p1 = p + t.length(); break; }
        case 8: s.reserve(64); break;
        case 9: { bd::Stream t(s); t.seek(0, SEEK_SET); t << arg; break; }
        case 10: d = s; rd = r; break;
        case 11: { bd::Stream t; t = s; t << arg; break; }
        case 12: { String t = s; t += 'x'; VF_ASSERT(t.length() == r.n + 1, "operator String"); break; }
        case 13: { bd::Stream t(5); t << arg; VF_ASSERT(t.length() == 4, "Stream(n)"); break; }
        case 14: s.clear(); w.set("", 0); p1 = 0; break;
      }
    } catch (const std::bad_alloc&) { oom = true; }
    vf_alloc_fail(0);
    if (oom) { w = r; p1 = p; vf_reach("oom"); }
    String v = s, u = d; VF_ASSERT(same(v, w), oom ? "a Stream operation that could not allocate leaves the content unchanged" : "no failure: the content is right"); VF_ASSERT(s.tell() == p1 && s.length() == w.n, oom ? "a Stream operation that could not allocate leaves the position unchanged" : "no failure: the position is right");
    VF_ASSERT(same(u, rd) && same_const(arg, "wxyz", 4) && (!ar.n || same(alias, ar)), "other objects keep their value");
    s.seek(0, SEEK_SET); String all = s.read(100); VF_ASSERT(same(all, w), "the Stream can be read"); s << String("q"); VF_ASSERT(s.length() == w.n + 1, "the Stream can be written"); vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "no leak");
}
