// C24: allocation failures on long values.
#include "huge.h"
#include "Array.h"
#include "HashTable.h"
#include "Stream.h"
static const unsigned OZ[] = {300, 1024, 1025, 4096, 65536};
extern "C" void oom_huge_string() { size_t live0 = vf_live();
  { size_t n = OZ[vf_pick(0, 4)]; unsigned k = (unsigned)vf_pick(0, 4); hfill(hb, n); String s, keep; hbuild(s, keep, k, hb, n); String arg("xyz"), big(hb, n); char c = (char)vf_u8(); bool oom = false; unsigned op = (unsigned)vf_pick(0, 13); vf_alloc_fail(1);
    try { switch (op) {
      case 0: s += c; break;
      case 1: s.insert(n / 2, "xyz", 3); break;
      case 2: s.insert(size_t(0), c); break;
      case 3: s += s; break;
      case 4: s += big; break;
      case 5: s.replace(n - 1, arg); break;
      case 6: s.resize(n + 3, c); break;
      case 7: s.reserve(4 * n); break;
      case 8: s[n - 1] = c; break;
      case 9: s.begin()[0] = c; break;
      case 10: s = String(hb, n); break;
      case 11: s.insert(size_t(1), std::move(big)); break;
      case 12: s = s + arg; break;
      default: s = s * 2; } } catch (const std::bad_alloc&) { oom = true; }
    vf_alloc_fail(0);
    if (oom) { vf_reach("oom"); VF_ASSERT(hsame(s, hb, n), "an edit that could not allocate leaves the value unchanged"); if (op != 11) VF_ASSERT(hsame(big, hb, n), "other objects keep their value"); }
    VF_ASSERT(hkept(keep, k, hb, n) && same_const(arg, "xyz", 3), "other objects keep their value"); size_t l = s.length(); s += 'x'; VF_ASSERT(s.length() == l + 1 && s[l] == 'x', "it can be appended to"); vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "nothing is leaked"); }
extern "C" void oom_huge_array() { size_t live0 = vf_live();
  { static const unsigned z[] = {100, 128, 257, 1025}; size_t n = z[vf_pick(0, 3)]; unsigned k = (unsigned)vf_pick(0, 2); Array<String> a, keep; String e1("e"), e2("ff"); { Array<String> t; if (k == 2) t << e1; for (size_t i = 0; i < n; ++i) t.push_back(i % 3 ? e1 : e2); if (k == 2) t.shift(); a = std::move(t); } if (k == 1) keep = a; char c = (char)vf_u8(); String x(&c, 1); bool oom = false; unsigned op = (unsigned)vf_pick(0, 7); vf_alloc_fail(1);
    try { switch (op) { case 0: a.push_back(x); break; case 1: a.push_front(x); break; case 2: a.insert(n / 2, x); break; case 3: a[n - 1] = x; break; case 4: a += a; break; case 5: a.resize(n + 3, x); break; case 6: a.reserve(4 * n); break; default: a = Array<String>(a) + a; } } catch (const std::bad_alloc&) { oom = true; }
    vf_alloc_fail(0); bool ok = true; const Array<String>& ca = a; const Array<String>& ck = keep;
    if (oom) { vf_reach("oom"); VF_ASSERT(a.length() == n, "an edit that could not allocate leaves the value unchanged"); for (size_t i = 0; i < n; ++i) { const String& y = ca[i]; ok &= i % 3 ? same_const(y, "e", 1) : same_const(y, "ff", 2); } VF_ASSERT(ok, "an edit that could not allocate leaves the value unchanged"); }
    if (k == 1) { VF_ASSERT(keep.length() == n, "other objects keep their value"); for (size_t i = 0; i < n; ++i) { const String& y = ck[i]; ok &= i % 3 ? same_const(y, "e", 1) : same_const(y, "ff", 2); } VF_ASSERT(ok, "other objects keep their value"); }
    VF_ASSERT(same_const(x, &c, 1) && same_const(e1, "e", 1) && same_const(e2, "ff", 2), "other objects keep their value"); a << x; VF_ASSERT(same_const(ca[a.length() - 1], &c, 1), "it can be appended to"); vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "nothing is leaked"); }
// growing a table and a stream past their sizes
extern "C" void oom_huge_table() { size_t live0 = vf_live();
  { unsigned n = 60 + 20 * (unsigned)vf_pick(0, 4); bd::HashTable<long, long> h; for (unsigned i = 0; i < n; ++i) h[(long)i * 3] = (long)i; long y = (long)vf_u64(); bool oom = false; unsigned w = (unsigned)vf_pick(0, 3); vf_alloc_fail(1);
    try { if (w == 0) h[-5] = y; else if (w == 1) h.insert(-5, y); else if (w == 2) { bd::HashTable<long, long> copy(h); copy[-7] = 1; } else h.remove(3); } catch (const std::bad_alloc&) { oom = true; }
    vf_alloc_fail(0); if (oom) vf_reach("oom"); bool ok = true; for (unsigned i = 0; i < n; ++i) if (i != 1) ok &= h.contains((long)i * 3) && h[(long)i * 3] == (long)i; VF_ASSERT(ok, "every other entry keeps its value"); VF_ASSERT(h.contains(3) == (w != 3 || oom), "an edit that could not allocate leaves the value unchanged"); if (w < 2 && !oom) VF_ASSERT(h[-5] == y, "the new entry"); h[-9] = 4; VF_ASSERT(h[-9] == 4, "it can be added to"); vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "nothing is leaked"); }
extern "C" void oom_huge_stream() { size_t live0 = vf_live();
  { size_t n = OZ[vf_pick(0, 4)]; hfill(hb, n); bd::Stream s; s << String(hb, n); String arg(hb, n); bool oom = false; unsigned w = (unsigned)vf_pick(0, 2); if (w == 1) s.seek(n / 2, SEEK_SET); vf_alloc_fail(1);
    try { if (w == 2) s << 'c'; else s << arg; } catch (const std::bad_alloc&) { oom = true; }
    vf_alloc_fail(0); if (oom) { vf_reach("oom"); VF_ASSERT(s.length() == n && s.tell() == (w == 1 ? n / 2 : n), "an edit that could not allocate leaves the value unchanged"); String g(s); VF_ASSERT(hsame(g, hb, n), "an edit that could not allocate leaves the value unchanged"); } VF_ASSERT(hsame(arg, hb, n), "other objects keep their value"); vf_reach("done"); }
  VF_ASSERT(vf_live() == live0, "nothing is leaked"); }
