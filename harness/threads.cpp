// C21: threads that use only their own objects, which share a buffer.  The schedule is symbolic: at every atomic operation the executor
// may switch to the other thread, and a happens-before analysis reports every access that is not ordered.
#include "vf.h"
extern "C" int vf_tid(void);
static unsigned long mode[4];   // which value a thread takes where an operation has a choice: the first, the last or the middle one
static inline unsigned long tp(unsigned long lo, unsigned long hi) { unsigned long m = mode[vf_tid() & 3]; return m == 0 ? lo : m == 1 ? hi : lo + (hi - lo) / 2; }
#define vf_pick tp
#define vf_flag() (tp(0, 1) != 0)
#define MAXN 2
#define ARGN 2
#define POS(n) (tp(0, n))
#define LEN(m) (m)
#define ARGKINDS 2
#define SL ({ static const long l_[] = {-1, 1, -2}; l_[tp(0, 2)]; })
#define AMAXN 2
#define AARGN 2
#define APOS(n) (tp(0, n))
#define ALEN(m) (m)
#define AKINDSARG 2
#define ASL SL
#include "ops.h"
#include "aops.h"
#include "HashTable.h"
#include "base64.h"
#undef vf_pick
#undef vf_flag
// ---- Strings
struct TS { String a, b; Ref ra, rb; unsigned op[2], nop; };
#define XOPS 15
static void sop(TS* t, unsigned op) {
  if (op < NOPS) { if (op != 52) step(t->a, t->ra, op); }
  else switch (op - NOPS) {
    case 0: { String c(t->a); VF_ASSERT(same(c, t->ra), "a copy has the value of its source"); break; }
    case 1: { String c(std::move(t->a)); VF_ASSERT(same(c, t->ra), "a moved value is unchanged"); t->ra.n = 0; break; }
    case 2: t->b = t->a; t->rb = t->ra; break;
    case 3: swap(t->a, t->b); { Ref x = t->ra; t->ra = t->rb; t->rb = x; } break;
    case 4: { String f(t->ra.b, t->ra.n); VF_ASSERT(t->a.hash() == f.hash(), "the hash is that of the value"); break; }
    case 5: t->a = std::move(t->b); t->ra = t->rb; t->b = String(); t->rb.n = 0; break;
    case 6: { String f(t->ra.b, t->ra.n); VF_ASSERT(t->a == f && t->a.compare(f) == 0, "compares equal to its value"); break; }
    case 7: { if (t->ra.n > 1) { t->b = t->a.substring(1); t->rb.set(t->ra.b + 1, t->ra.n - 1); } break; }
    case 8: t->a.clear(); t->b.clear(); t->ra.n = t->rb.n = 0; break;
    case 9: { String p = String::printf("<%d>", (int)t->ra.n); char want[4] = {'<', (char)('0' + t->ra.n), '>', 0}; VF_ASSERT(p == want, "printf yields the formatted text"); break; }
    case 10: { String x("a,b"); Array<String> l = x.split(','); VF_ASSERT(l.length() == 2 && l.join("-") == "a-b", "split and join"); t->b = l.at(0); t->rb.set("a", 1); break; }
    case 11: { String x("a.b.a"); VF_ASSERT(x.sub("a", "bb") == "bb.b.bb", "sub"); String y(" q "); y.trim(); VF_ASSERT(y == "q", "trim"); break; }
    case 12: { String e = bd::base64Encode("abc"); VF_ASSERT(e == "YWJj" && bd::base64Decode(e) == "abc", "base64"); break; }
    case 13: { String x("AbC"); VF_ASSERT(x.ifind("bc") == 1 && x.rfind("b") == 1 && x.find('C') == 2, "searching"); break; }
    default: { VF_ASSERT(same(t->a, t->ra) && same(t->b, t->rb), "the values are seen unchanged"); break; }
  }
  VF_ASSERT(same(t->a, t->ra) && same(t->b, t->rb), "a thread sees the values it would see alone");
}
static void srun(void* p) { TS* t = (TS*)p; for (unsigned i = 0; i < t->nop; ++i) sop(t, t->op[i]); }
static const unsigned core[] = {24, NOPS + 1, 13, NOPS, 22, 34, NOPS + 2, 37, 14, 33, 17, NOPS + 9, 39, 38, NOPS + 10, NOPS + 11, NOPS + 12, NOPS + 13};
#define NCORE (sizeof core / sizeof *core)
static void shareS(TS* t, unsigned k, String& m, Ref& rm, unsigned arr) {
  char u[4]; vf_bytes(u, 3); m = arr & 1 ? String(u, u + 3) : String(u, 3); if (arr & 4) { m.reserve(9); } rm.set(u, 3);
  for (unsigned i = 0; i < k; ++i) { if (i && (arr & 2)) { t[i].a = m.substring(1); t[i].ra.set(u + 1, 2); } else { t[i].a = m; t[i].ra = rm; } }
}
static void sgo(TS* t, unsigned k, bool keep, unsigned arr) {
  String m; Ref rm; shareS(t, k, m, rm, arr); if (!keep) { m = String(); rm.n = 0; }
  int id[3]; for (unsigned i = 0; i < k; ++i) id[i] = vf_spawn(srun, &t[i]);
  for (unsigned i = 0; i < k; ++i) vf_join(id[i]);
  for (unsigned i = 0; i < k; ++i) VF_ASSERT(same(t[i].a, t[i].ra) && same(t[i].b, t[i].rb), "the values survive the other thread");
  VF_ASSERT(same(m, rm), "the main thread's value survives");
}
#define CHECKED(...) { size_t l0 = vf_live(); { __VA_ARGS__ } VF_ASSERT(vf_live() == l0, "every buffer is released exactly once"); vf_reach("done"); }
extern "C" void thr_string() CHECKED(
  TS t[2]; t[0].nop = t[1].nop = 1; t[0].op[0] = (unsigned)vf_pick(0, NOPS + XOPS - 1); t[1].op[0] = core[vf_pick(0, TIER(7, NCORE - 1))]; mode[1] = vf_pick(0, 2); mode[2] = 1; sgo(t, 2, vf_flag(), (unsigned)vf_pick(0, TIER(1, 7)) * TIER(3, 1)); )
extern "C" void thr_string2() CHECKED(
  TS t[2]; t[0].nop = t[1].nop = 2; static const unsigned q[] = {24, NOPS + 1, 13, NOPS + 2, 34, NOPS + 5}; for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 2; ++j) t[i].op[j] = q[vf_pick(0, TIER(3, 5))]; mode[1] = mode[2] = 1; sgo(t, 2, false, 0); )
extern "C" void thr_string3() CHECKED(
  TS t[3]; static const unsigned q[] = {24, NOPS + 1, 13, NOPS, 34}; for (unsigned i = 0; i < 3; ++i) { t[i].nop = 1; t[i].op[0] = q[vf_pick(0, TIER(2, 4))]; } mode[1] = mode[2] = mode[3] = 1; sgo(t, 3, false, 0); )
// ---- Arrays
template <class T> struct TA { Array<T> a; ARef ra; unsigned op; };
template <class T> static void arun(void* p) { TA<T>* t = (TA<T>*)p; if (t->op < ANOPS) { if (t->op != 65) astep(t->a, t->ra, t->op); } else if (t->op == ANOPS) { Array<T> c(t->a); VF_ASSERT(asame(c, t->ra), "a copy has the value of its source"); } else if (t->op == ANOPS + 1) { Array<T> c(std::move(t->a)); VF_ASSERT(asame(c, t->ra), "a moved value is unchanged"); t->ra.n = 0; } VF_ASSERT(asame(t->a, t->ra), "a thread sees the values it would see alone"); }
template <class T> static void ago() {
  static const unsigned q[] = {36, ANOPS + 1, 0, ANOPS, 32, 16, 41, 37, 17}; TA<T> t[2]; mode[1] = vf_pick(0, 2); mode[2] = 1; t[0].op = (unsigned)vf_pick(0, ANOPS + 1); t[1].op = q[vf_pick(0, TIER(5, 8))];
  bool keep = vf_flag(), sub = TIER(false, vf_flag()); unsigned char u[3]; for (auto& x : u) x = vf_u8(); Array<T> m = from<T>(u, 3); ARef rm; rm.set(u, 3); t[0].a = m; t[0].ra = rm; if (sub) { t[1].a = m.subarray(1, 2); t[1].ra.set(u + 1, 2); } else { t[1].a = m; t[1].ra = rm; } if (!keep) { m = Array<T>(); rm.n = 0; }
  int x = vf_spawn(arun<T>, &t[0]), y = vf_spawn(arun<T>, &t[1]); vf_join(x); vf_join(y); VF_ASSERT(asame(t[0].a, t[0].ra) && asame(t[1].a, t[1].ra) && asame(m, rm), "the values survive the other thread"); }
extern "C" void thr_array_long() CHECKED(ago<long>();)
extern "C" void thr_array_string() CHECKED(ago<String>();)
// ---- a String shared with an element of an Array, a value of a HashTable and a Stream owned by other threads
#include "HashTable.h"
#include "Stream.h"
using bd::Stream; using bd::HashTable;
struct TM { String s; Ref r; Array<String> a; HashTable<int, String> h; Stream st; unsigned op; };
static void mrun(void* p) { TM& t = *(TM*)p; Ref& r = t.r; switch (t.op) {
  case 0: t.s += 'x'; r.app("x", 1); break;
  case 1: t.s = String(); r.n = 0; break;
  case 2: { t.a.push_back(t.s); String x = t.a.pop(); VF_ASSERT(same(x, r), "the element is the value pushed"); x += 'y'; break; }
  case 3: { t.a[0] = String("zz", 2); VF_ASSERT(t.a.length() == 1, "one element"); break; }
  case 4: { String x(t.a.at(0)); x[0] = 'q'; t.a.clear(); break; }
  case 5: { t.h.insert(1, t.s); VF_ASSERT(same(t.h.getValue(1), r), "the table returns the value"); t.h[1] += 'z'; VF_ASSERT(same(t.s, r), "the value in the table is not the thread's String"); break; }
  case 6: { t.h.remove(0); VF_ASSERT(t.h.size() == 0, "removed"); break; }
  case 7: { HashTable<int, String> c(t.h); c[0] = String("w", 1); VF_ASSERT(t.h.size() == 1, "unchanged"); break; }
  case 8: { t.st.seek(3, SEEK_SET); t.st.puts("k"); VF_ASSERT(t.st.length() == 4, "appended"); break; }
  case 9: { Stream c(t.st); c.seek(0, SEEK_SET); c.puts("m"); VF_ASSERT(c.length() == 3, "overwritten"); break; }
  case 10: { Array<String> c = t.a; String z(c.at(0)); z += 'x'; c[0] = z; VF_ASSERT(c.length() == 1 && String(t.a.at(0)).length() == 3, "a copied Array is independent"); break; }
  case 11: { String x = t.s.substring(1), y = t.s(0, 2); x += y; VF_ASSERT(x.length() == 4, "joined slices"); break; }
  default: { String x = t.s + t.s; VF_ASSERT(x.length() == 6, "doubled"); break; } }
  VF_ASSERT(same(t.s, r), "a thread sees the value it would see alone"); }
extern "C" void thr_mixed() CHECKED(
  char u[3]; vf_bytes(u, 3); TM t[2]; { String m(u, 3); for (auto& x : t) { x.s = m; x.r.set(u, 3); x.a.push_back(m); x.h.insert(0, m); x.st = Stream(m); } t[0].op = (unsigned)vf_pick(0, 12); t[1].op = (unsigned)vf_pick(0, 12); if (TIER(true, vf_flag())) m = String(); 
  int x = vf_spawn(mrun, &t[0]); int y = vf_spawn(mrun, &t[1]); vf_join(x); vf_join(y); } 
  for (auto& x : t) VF_ASSERT(same(x.s, x.r), "the values survive the other thread"); )
// ---- reading the elements of Arrays that share a buffer
static void erun(void* p) { TA<String>& t = *(TA<String>*)p; const Array<String>& a = t.a; switch (t.op) {
  case 0: { String x(a[0]); x += 'p'; break; }
  case 1: { VF_ASSERT(a[0] == a[0] && String(a[0]) != String(a[1] + a[0]), "comparing elements"); break; }
  case 2: { VF_ASSERT(a[0].length() == 1 && a[0].at(0) == (char)t.ra.v[0], "reading an element"); break; }
  case 3: { String x = a[0].substring(0, 1) + a[1]; VF_ASSERT(x.length() == 2, "joining elements"); break; }
  case 4: { VF_ASSERT(a.find(a[1]) < 2, "finding an element"); break; }
  case 5: { Array<String> c = t.a.subarray(1); c[0] = String(); break; }
  case 6: { Array<String> c = t.a; c += a; break; }
  case 7: { String j = a.join(","); VF_ASSERT(j.length() == 3, "joining an Array"); break; }
  case 8: { size_t x = a[0].hash(); VF_ASSERT(x == String(a[0]).hash(), "hash of an element"); break; }
  default: { const char* c = a[1].c_str(); VF_ASSERT(c[0] == (char)t.ra.v[1] && c[1] == 0, "c_str of an element"); break; } } }
static void erungo(unsigned o1, unsigned o2) { unsigned char u[2]; u[0] = vf_u8(); u[1] = vf_u8(); char w[3] = {(char)u[0], (char)u[1], 'n'}; TA<String> t[2]; { Array<String> m; String s(w, 3); m.push_back(s.substring(0, 1)); m.push_back(s.substring(1, 1)); t[0].a = t[1].a = m; } t[0].ra.set(u, 2); t[1].ra.set(u, 2); t[0].op = o1; t[1].op = o2; int x = vf_spawn(erun, &t[0]), y = vf_spawn(erun, &t[1]); vf_join(x); vf_join(y); for (auto& q : t) VF_ASSERT(asame(q.a, q.ra), "the Arrays survive"); }
extern "C" void thr_elem() CHECKED( unsigned a = (unsigned)vf_pick(0, 7); erungo(a, (unsigned)vf_pick(0, 7)); )
extern "C" void thr_elem_hash() CHECKED( erungo((unsigned)vf_pick(0, 8), 8); )
extern "C" void thr_elem_cstr() CHECKED( erungo((unsigned)vf_pick(0, 7), 9); )
// ---- Strings sharing a buffer and destroyed by different threads: whichever is last wipes it
static char secret[4];
static void on_free(void* p, size_t n) { if (n < 3) return; if (vf_is_engine()) VF_ASSERT(vf_const_bytes(p, n), "the last String to be destroyed wipes the buffer"); else { bool kept = true; for (size_t i = 0; i < 3; ++i) kept &= ((const char*)p)[i] == secret[i]; VF_ASSERT(!kept, "the last String to be destroyed wipes the buffer"); } }
struct TW { String* s; unsigned op; };
static void wrun(void* p) { TW& t = *(TW*)p; if (t.op == 1) { String c(*t.s); t.s->~String(); } else if (t.op == 2) { String c(std::move(*t.s)); t.s->~String(); } else if (t.op == 3) { String c = t.s->substring(1); t.s->~String(); } else t.s->~String(); }
extern "C" void thr_wipe() CHECKED(
  vf_bytes(secret, 3); struct Raw { alignas(String) char m[sizeof(String)]; }; static Raw b[3]; TW t[3]; unsigned k = (unsigned)vf_pick(2, 3), arr = (unsigned)vf_pick(0, 3); String* o = new (b[0].m) String(secret, 3); if (arr & 1) o->reserve(12); for (unsigned i = 1; i < k; ++i) { if (arr & 2) new (b[i].m) String(o->substring(1)); else new (b[i].m) String(*o); }
  int id[3]; vf_on_free = on_free; for (unsigned i = 0; i < k; ++i) { t[i].s = (String*)b[i].m; t[i].op = (unsigned)vf_pick(0, 3); } for (unsigned i = 0; i < k; ++i) id[i] = vf_spawn(wrun, &t[i]); for (unsigned i = 0; i < k; ++i) vf_join(id[i]); vf_on_free = nullptr; )
// ---- the functions without shared operands keep no state between threads either
extern "C" void thr_lib() CHECKED( TS t[2]; for (auto& x : t) { x.nop = 1; x.op[0] = NOPS + 9 + (unsigned)vf_pick(0, 4); } sgo(t, 2, true, 0); )
