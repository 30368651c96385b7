// C22: moving.
#define CAPR 48
#include "aops.h"
#include "HashTable.h"
#include "Stream.h"
// the moved-from object can be read, assigned, appended to, copied, destroyed
static void use(String& s, unsigned w) { Ref r; r.set(s.data(), s.length()); VF_ASSERT(s.length() == 0 || s.data() != nullptr, "a moved-from String can be read"); for (size_t i = 0; i < r.n; ++i) r.b[i] = s.data()[i];
  switch (w) { case 0: s += 'x'; r.app("x", 1); break; case 1: s = String("new"); r.set("new", 3); break; case 2: { String c(s); c += 'q'; break; } case 3: s.insert(size_t(0), "ab", 2); r.ins(0, "ab", 2); break; case 4: s.clear(); r.n = 0; break; case 5: { String c("zz"); c = s; VF_ASSERT(same(c, r), "a moved-from String can be copied"); break; } case 6: s.resize(3, 'k'); { size_t o = r.n; r.n = 3; for (size_t i = o; i < 3; ++i) r.b[i] = 'k'; } break; case 7: s.c_str(); VF_ASSERT(s == s && s.find("a") + 1 <= r.n, "a moved-from String can be searched"); break; case 8: s.reserve(20); break; case 9: { String o("other"); swap(s, o); r.set("other", 5); break; } case 10: s.trim(); s.chomp(); { String v(s); r.set(v.data(), v.length()); } break; case 11: { for (char c : s) (void)c; s.begin(); s.end(); break; } default: { String o("moved"); s = std::move(o); r.set("moved", 5); } }
  VF_ASSERT(same(s, r), "the moved-from String behaves like any other"); { String f(r.b, r.n); VF_ASSERT(s.hash() == f.hash(), "the moved-from String has the hash of its value"); } }
extern "C" void move_string() {
  size_t l0 = vf_live(); { String s, al; Ref r, ra; build(s, r, al, ra, (unsigned)vf_pick(0, K_NKINDS - 1), vf_pick(0, TIER(3, 4))); if (vf_flag()) s.hash(); String d; Ref rd = r; unsigned w = (unsigned)vf_pick(0, 11); String keep; Ref rk;
  switch (w) {
    case 0: { String t(std::move(s)); d = t; break; }
    case 1: { String t("held"); t = std::move(s); d = std::move(t); break; }
    case 2: { String t("held"); String o(t); t = std::move(s); VF_ASSERT(o == "held", "assignment does not affect other owners"); d = t; break; }
    case 3: { d = String("held"); keep = d; rk.set("held", 4); swap(s, d); VF_ASSERT(s == "held", "swap() exchanges"); break; }
    case 4: { d = String("pre"); d += std::move(s); rd.n = 0; rd.app("pre", 3); rd.app(r.b, r.n); break; }
    case 5: { d = String(""); d += std::move(s); break; }
    case 6: { d = String("pre"); d.insert(size_t(1), std::move(s)); rd.n = 0; rd.app("p", 1); rd.app(r.b, r.n); rd.app("re", 2); break; }
    case 7: { d = String("pre"); d.replace(size_t(1), std::move(s)); rd.set("pre", 3); if (r.n) rd.over(1, r.b, r.n); break; }
    case 8: { String& self = s; s = std::move(self); VF_ASSERT(same(s, r), "moving an object onto itself keeps its value"); d = s; break; }
    case 9: { d = String("x"); d.append(std::move(s)); rd.n = 0; rd.app("x", 1); rd.app(r.b, r.n); break; }
    case 10: { swap(s, s); VF_ASSERT(same(s, r), "swapping an object with itself keeps its value"); d = std::move(s); break; }
    default: { Array<String> a; a.push_back(std::move(s)); d = a.pop(); } }
  VF_ASSERT(same(d, rd), "the destination has exactly the value of the source"); { String f(rd.b, rd.n); VF_ASSERT(d.hash() == f.hash(), "the destination has the hash of its value"); } use(s, (unsigned)vf_pick(0, 12)); VF_ASSERT(same(d, rd), "the moved-from object never affects the destination"); VF_ASSERT(same(al, ra) && same(keep, rk), "other objects keep their value");
  d += 'D'; rd.app("D", 1); VF_ASSERT(same(d, rd), "the destination can be used"); VF_ASSERT(same(al, ra), "other objects keep their value"); }
  VF_ASSERT(vf_live() == l0, "what the destination held is released"); vf_reach("done"); }
template <class T> static void move_array() {
  long c0 = Obj::count; size_t l0 = vf_live(); { Array<T> s, al, d; ARef r, ra, rd; abuild(s, r, al, ra, (unsigned)vf_pick(0, A_NKINDS - 1), vf_pick(0, 2)); rd = r; unsigned char h[2] = {71, 72};
  switch (vf_pick(0, 8)) {
    case 0: { Array<T> t(std::move(s)); d = t; break; }
    case 1: { Array<T> t = from<T>(h, 2); t = std::move(s); d = std::move(t); break; }
    case 2: { Array<T> t = from<T>(h, 2); Array<T> o(t); t = std::move(s); ARef ro; ro.set(h, 2); VF_ASSERT(asame(o, ro), "assignment does not affect other owners"); d = t; break; }
    case 3: { d = from<T>(h, 2); swap(s, d); ARef ro; ro.set(h, 2); VF_ASSERT(asame(s, ro), "swap() exchanges"); break; }
    case 4: { d = from<T>(h, 2); d += std::move(s); rd.set(h, 2); rd.ins(2, r.v, r.n); break; }
    case 5: { d = from<T>(h, 2); d.insert(size_t(1), std::move(s)); rd.set(h, 2); rd.ins(1, r.v, r.n); break; }
    case 6: { Array<T>& self = s; s = std::move(self); VF_ASSERT(asame(s, r), "moving an object onto itself keeps its value"); d = s; break; }
    case 7: { d = from<T>(h, 2); d.replace(size_t(1), std::move(s)); rd.set(h, 2); if (r.n) rd.over(1, r.v, r.n); break; }
    default: { swap(s, s); d = std::move(s); } }
  VF_ASSERT(asame(d, rd), "the destination has exactly the value of the source"); size_t n0 = s.length(); ARef e; unsigned w = (unsigned)vf_pick(0, 7); 
  // after an insert/replace/append from an unshared temporary the elements were moved out of s; it still has to be usable
  switch (w) { case 0: s.push_back(El<T>::mk(9)); VF_ASSERT(s.length() == n0 + 1 && El<T>::is(s.back(), 9), "a moved-from Array can be appended to"); break; case 1: s = from<T>(h, 2); e.set(h, 2); VF_ASSERT(asame(s, e), "a moved-from Array can be assigned"); break; case 2: { Array<T> c(s); c.push_back(El<T>::mk(9)); VF_ASSERT(s.length() == n0, "a moved-from Array can be copied"); break; } case 3: s.clear(); VF_ASSERT(s.length() == 0, "clear()"); break; case 4: { Array<T> o = from<T>(h, 2); s = std::move(o); e.set(h, 2); VF_ASSERT(asame(s, e), "a moved-from Array can be assigned"); break; } case 5: s.reserve(9); s.resize(n0 + 1); VF_ASSERT(s.length() == n0 + 1, "resize()"); break; case 6: s.insert(size_t(0), El<T>::mk(5)); VF_ASSERT(s.length() == n0 + 1 && El<T>::is(s[0], 5), "a moved-from Array can be inserted into"); break; default: { size_t k = 0; for (auto& x : s) { (void)x; ++k; } VF_ASSERT(k == n0, "a moved-from Array can be iterated"); } }
  VF_ASSERT(asame(d, rd), "the moved-from object never affects the destination"); VF_ASSERT(asame(al, ra), "other objects keep their value"); d.push_back(El<T>::mk(8)); unsigned char q = 8; rd.ins(rd.n, &q, 1); VF_ASSERT(asame(d, rd), "the destination can be used"); }
  VF_ASSERT(vf_live() == l0 && Obj::count == c0, "what the destination held is released"); vf_reach("done"); }
extern "C" void move_array_long() { move_array<long>(); }
extern "C" void move_array_string() { move_array<String>(); }
extern "C" void move_array_obj() { move_array<Obj>(); }
extern "C" void move_table() {
  typedef bd::HashTable<String, String> H; size_t l0 = vf_live(); { unsigned char v = vf_u8(); size_t n = vf_pick(0, 2); H s, d; if (n > 0) s["a"] = String((char)v); if (n > 1) s["b"] = String("B"); auto ok = [&](H& h) { VF_ASSERT(h.size() == n, "the destination has exactly the pairs of the source"); if (n > 0) { String x = h.getValue("a"); VF_ASSERT(x.length() == 1 && x.data()[0] == (char)v, "the destination has exactly the pairs of the source"); } if (n > 1) VF_ASSERT(h.getValue("b") == "B", "the destination has exactly the pairs of the source"); };
  switch (vf_pick(0, 4)) { case 0: { H t(std::move(s)); d = t; break; } case 1: d["old"] = "x"; d = std::move(s); VF_ASSERT(!d.contains("old"), "what the destination held is gone"); break; case 2: d["old"] = "x"; swap(s, d); VF_ASSERT(s.size() == 1 && s.contains("old"), "swap() exchanges"); break; case 3: { H t(s); d = std::move(t); break; } default: { H& self = s; s = std::move(self); ok(s); d = std::move(s); } }
  ok(d); size_t m = s.size(); switch (vf_pick(0, 6)) { case 0: s["k"] = "v"; VF_ASSERT(s.size() == m + 1 && s.getValue("k") == "v", "a moved-from HashTable can be added to"); break; case 1: VF_ASSERT(s.insert("k", "v") && s.contains("k"), "a moved-from HashTable can be added to"); break; case 2: s.clear(); VF_ASSERT(s.size() == 0, "clear()"); break; case 3: { H c(s); VF_ASSERT(c.size() == m, "a moved-from HashTable can be copied"); c["z"] = "z"; break; } case 4: { size_t k = 0; for (auto& e : s) { (void)e; ++k; } VF_ASSERT(k == m, "a moved-from HashTable can be iterated"); break; } case 5: s = d; ok(s); s["more"] = "x"; break; default: VF_ASSERT(!s.remove("nokey") && s.getValue("nokey").length() == 0 && !s.contains("nokey") && s.find("nokey") == s.end(), "a moved-from HashTable can be searched"); }
  ok(d); d["n"] = "m"; VF_ASSERT(d.size() == n + 1 && d.getValue("n") == "m", "the destination can be used"); } VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void move_stream() {
  using bd::Stream; size_t l0 = vf_live(); { Stream s, d; char t[3]; size_t n = vf_pick(0, 3); vf_bytes(t, n); s << String(t, n); size_t p = vf_pick(0, n); s.seek((int)p, SEEK_SET); unsigned w = (unsigned)vf_pick(0, 4); auto ok = [&](Stream& x) { VF_ASSERT(x.length() == n && x.tell() == p, "the destination has the content and position of the source"); String v = x; VF_ASSERT(same_const(v, t, n), "the destination has the content of the source"); };
  switch (w) { case 0: { Stream x(std::move(s)); d = x; break; } case 1: d << String("held"); d = std::move(s); break; case 2: d << String("held"); swap(s, d); break; case 3: { Stream& self = s; s = std::move(self); ok(s); d = std::move(s); break; } default: { String v = s; Stream x(std::move(v)); ok(s); VF_ASSERT(x.tell() == 0 && x.length() == n, "a Stream made from a temporary String"); d = std::move(s); } }
  ok(d); size_t m = s.length(); switch (vf_pick(0, 5)) { case 0: s << String("zz"); VF_ASSERT(w == 2 ? s.length() == 6 : s.length() == 2, "a moved-from Stream can be written"); break; case 1: VF_ASSERT(s.read(9).length() + (w == 2 ? 4 : 0) <= s.length() + 4, "a moved-from Stream can be read"); break; case 2: s = d; ok(s); s << String("q"); break; case 3: { Stream c(s); c << String("x"); VF_ASSERT(s.length() == m, "a moved-from Stream can be copied"); break; } case 4: s.clear(); s << String("x"); VF_ASSERT(s.length() == 1 && s.tell() == 1, "a moved-from Stream can be cleared"); break; default: s.getline(); s.peek(); s.seek(0, SEEK_SET); s.truncate(); VF_ASSERT(s.length() == 0, "truncate()"); }
  ok(d); } VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
