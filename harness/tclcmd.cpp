// C19: Tcl commands implemented by C++ functions.
#define CAPR 64
#include "tclh.h"
static unsigned calls, last; static Ref ra[3]; static int64_t ri; static bool rb; static ScriptInterpTCL* SI; static Ref toThrow; static int act;
static Ref refof(const String& s) { return Ref(s.data(), s.length()); }
static void hit(unsigned f) { ++calls; last = f; }
static void f0() { hit(0); }
static String f1(String a) { hit(1); ra[0] = refof(a); return "1:" + a; }
static String f2(String a) { hit(2); ra[0] = refof(a); return "2:" + a; }
static int f3(String a, int b) { hit(3); ra[0] = refof(a); ri = b; return b; }
static String f4(const String a, bool b, String c) { hit(4); ra[0] = refof(a); rb = b; ra[1] = refof(c); return c + a; }
static Array<String> f5(Array<String> l, int64_t n) { hit(5); for (size_t i = 0; i < l.length() && i < 3; ++i) ra[i] = refof(static_cast<String>(l[i])); ri = n; rb = false; Array<String> r(l); r << String("z"); last = 5 + 16 * (unsigned)l.length(); return r; }
static uint64_t f6(uint64_t a, uint8_t b, int16_t c) { hit(6); ri = (int64_t)(a ^ ((uint64_t)b << 8) ^ (uint64_t)(int64_t)c); return a; }
static bool f7(const char* a, double d) { hit(7); ra[0].set(a ? a : "", a ? strlen(a) : 0); ri = (int64_t)bits(d); rb = a == nullptr; return d == 0; }
static String f8(String a) { hit(8); ra[0] = refof(a); if (act == 0) throw String(toThrow.b, toThrow.n); if (act == 1) throw std::exception(); if (act == 2) throw 7; if (act == 3) throw (const char*)"text"; if (act == 4) throw std::runtime_error("x"); return a; }
static const Ref& msg(Tcl_Interp* in) { static Ref m; int n = 0; char* s = Tcl_GetStringFromObj(Tcl_GetObjResult(in), &n); if (n > 63) n = 63; m.set(s, (size_t)n); return m; }
static bool has(Tcl_Interp* in, const char* w) { int n = 0; char* s = Tcl_GetStringFromObj(Tcl_GetObjResult(in), &n); size_t k = strlen(w); for (size_t i = 0; i + k <= (size_t)n; ++i) if (memcmp(s + i, w, k) == 0) return true; return false; }
static int invoke(Tcl_Interp* in, const char* name, Tcl_Obj** a, unsigned n) { Tcl_Obj* v[8]; v[0] = cstr_obj(name); for (unsigned i = 0; i < n; ++i) v[i + 1] = a[i]; int rc = Tcl_EvalObjv(in, (int)n + 1, v, TCL_EVAL_GLOBAL); Tcl_DecrRefCount(v[0]); return rc; }
static int invoke0(Tcl_Interp* in, const char* a, const char* b = nullptr, const char* c = nullptr) { Tcl_Obj* v[2]; unsigned n = 0; if (b) v[n++] = cstr_obj(b); if (c) v[n++] = cstr_obj(c); int rc = invoke(in, a, v, n); for (unsigned i = 0; i < n; ++i) Tcl_DecrRefCount(v[i]); return rc; }
// every signature with 0..4 arguments of any value, under the name it was created with, its qualified name or after a rename
extern "C" void cmd_args() {
  size_t l0 = vf_live(); calls = 0;
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); unsigned f = vf_pick(0, 7), n = vf_pick(0, 4), use = vf_pick(0, 1); const char* usage = use ? "a ?b?" : nullptr; unsigned mx = 0, mn = 0; bool opt = vf_flag();
    switch (f) { case 0: mx = 0; si.createCommand("x", f0, usage); break; case 1: mx = 1; si.createCommand("x", f1, usage, opt ? 0 : size_t(-1)); break; case 2: mx = 1; ScriptInterp::createCommand(si, "x", f2, usage, opt ? 0 : size_t(-1)); break; case 3: mx = 2; si.createCommand("x", f3, usage, opt ? 1 : size_t(-1)); break; case 4: mx = 3; si.createCommand("x", f4, usage, opt ? 1 : size_t(-1)); break; case 5: mx = 2; si.createCommand("x", f5, usage, opt ? 0 : size_t(-1)); break; case 6: mx = 3; si.createCommand("x", f6, usage, opt ? 1 : size_t(-1)); break; default: mx = 2; si.createCommand("x", f7, usage, opt ? 0 : size_t(-1)); }
    mn = !opt || f == 0 ? mx : f == 3 || f == 4 || f == 6 ? 1 : 0;
    const char* name = "x"; unsigned how = vf_pick(0, 2); bool wide = how == 0 && !usage && n >= mn && n <= mx; switch (how) { case 1: name = "::x"; break; case 2: name = "yy"; VF_ASSERT(invoke0(in, "rename", "x", "yy") == TCL_OK, "harness"); break; }
    // argument i: text of 0-2 bytes, or a number where the signature wants one
    unsigned big = f == 6 && wide ? (unsigned)vf_pick(0, 2) : 1; Tcl_Obj* a[4]; Ref r[4]; int64_t w[4]; double d[4]; Ref le[2]; unsigned ln = 0; for (unsigned i = 0; i < n; ++i) { w[i] = 0; d[i] = 0; bool numeric = (f == 3 && i == 1) || (f == 4 && i == 1) || (f == 5 && i == 1) || f == 6; if (f == 7 && i == 1) { d[i] = dbl(vf_u64()); vf_assume(d[i] == d[i]); a[i] = Tcl_NewDoubleObj(d[i]); } else if (f == 5 && i == 0) { ln = wide ? vf_pick(0, 2) : 1; a[i] = Tcl_NewListObj(0, nullptr); for (unsigned k = 0; k < ln; ++k) { char t[2]; size_t m = vf_pick(0, 1); vf_bytes(t, m); le[k].set(t, m); Tcl_ListObjAppendElement(nullptr, a[i], Tcl_NewStringObj(t, (int)m)); } } else if (numeric) { w[i] = i == big && wide ? (int64_t)vf_u64() : (int64_t)vf_range(0, 3) - 1; a[i] = Tcl_NewWideIntObj(w[i]); } else { char t[2]; size_t m = wide ? vf_pick(0, 1 + (f < 3)) : i == 0; if (f == 7) vf_nzbytes(t, m); else vf_bytes(t, m); r[i].set(t, m); a[i] = Tcl_NewStringObj(t, (int)m); } Tcl_IncrRefCount(a[i]); }
    int rc = invoke(in, name, a, n); Ref m; if (rc != TCL_OK || f < 3 || f == 4) m = msg(in);
    if (n < mn || n > mx) { VF_ASSERT(rc == TCL_ERROR, "a wrong number of arguments is an error"); VF_ASSERT(calls == 0, "and the function is not called"); VF_ASSERT(!usage || has(in, usage), "the error mentions the usage"); VF_ASSERT(m.n > 0, "with a message"); vf_reach("arity"); }
    else {
      VF_ASSERT(rc == TCL_OK, "the command succeeds"); VF_ASSERT(calls == 1 && (last & 15) == f, "exactly its function is called, once"); for (unsigned i = n; i < 4; ++i) { r[i].n = 0; w[i] = 0; d[i] = 0; } if (n == 0) ln = 0;
      auto clip = [](int64_t v, int64_t lo, int64_t hi) -> int64_t { return v < lo || v > hi ? 0 : v; };
      switch (f) {
        case 0: VF_ASSERT(m.n == 0, "no result"); break;
        case 1: case 2: VF_ASSERT(ra[0].n == r[0].n && vf_eq(ra[0].b, r[0].b, r[0].n), "the argument"); VF_ASSERT(m.n == 2 + r[0].n && m.b[0] == (char)('0' + f) && m.b[1] == ':' && vf_eq(m.b + 2, r[0].b, r[0].n), "the result"); break;
        case 3: { int64_t e = clip(w[1], INT32_MIN, INT32_MAX); VF_ASSERT(ra[0].n == r[0].n && vf_eq(ra[0].b, r[0].b, r[0].n) && ri == e, "the arguments in order"); bool neg = false; uint64_t mag = 0; VF_ASSERT(int_obj(Tcl_GetObjResult(in), neg, mag) && (int64_t)(neg ? 0 - mag : mag) == e, "the result"); break; }
        case 4: VF_ASSERT(ra[0].n == r[0].n && vf_eq(ra[0].b, r[0].b, r[0].n) && rb == (w[1] != 0) && ra[1].n == r[2].n && vf_eq(ra[1].b, r[2].b, r[2].n), "the arguments in order"); VF_ASSERT(m.n == r[0].n + r[2].n && vf_eq(m.b, r[2].b, r[2].n) && vf_eq(m.b + r[2].n, r[0].b, r[0].n), "the result"); break;
        case 5: { VF_ASSERT(last >> 4 == ln && ri == w[1], "the arguments in order"); for (unsigned k = 0; k < ln; ++k) VF_ASSERT(ra[k].n == le[k].n && vf_eq(ra[k].b, le[k].b, le[k].n), "the list elements"); int c = 0; Tcl_Obj** v = nullptr; VF_ASSERT(Tcl_ListObjGetElements(nullptr, Tcl_GetObjResult(in), &c, &v) == TCL_OK && c == (int)ln + 1, "the result list"); for (unsigned k = 0; k < ln; ++k) VF_ASSERT(obj_is(v[k], le[k].b, le[k].n), "the result list"); VF_ASSERT(obj_str(v[ln], "z"), "the result list"); break; }
        case 6: { uint64_t x = w[0] < 0 ? 0 : (uint64_t)w[0], y = (uint64_t)clip(w[1], 0, 255), z = (uint64_t)clip(w[2], -32768, 32767); VF_ASSERT(ri == (int64_t)(x ^ (y << 8) ^ z), "the arguments in order"); bool neg = false; uint64_t mag = 0; VF_ASSERT(int_obj(Tcl_GetObjResult(in), neg, mag) && !neg && mag == x, "the result"); break; }
        default: VF_ASSERT(ra[0].n == r[0].n && vf_eq(ra[0].b, r[0].b, r[0].n) && ri == (int64_t)bits(d[1]) && rb == (n == 0), "the arguments in order"); int b = -1; VF_ASSERT(Tcl_GetBooleanFromObj(nullptr, Tcl_GetObjResult(in), &b) == TCL_OK && (b != 0) == (d[1] == 0), "the result");
      }
      vf_reach("called");
    }
    for (unsigned i = 0; i < n; ++i) { VF_ASSERT(a[i]->refCount >= 1, "the arguments are not released"); Tcl_DecrRefCount(a[i]); } for (unsigned i = 0; i < 4; ++i) ra[i & 1].n = 0; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void cmd_throw() {
  size_t l0 = vf_live(); calls = 0;
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); si.createCommand("x", f8); act = (int)vf_pick(0, 5); size_t n = vf_pick(0, 5); char t[5]; vf_bytes(t, n); toThrow.set(t, n); for (unsigned k = 0; k < 2; ++k) { if (k) act = 5; int rc = invoke0(in, "x", "arg"); VF_ASSERT(calls == k + 1, "the function is called once"); const Ref& m = msg(in); if (act == 5) { VF_ASSERT(rc == TCL_OK && m.n == 3, "the command works"); } else { VF_ASSERT(rc == TCL_ERROR, "an exception becomes an error"); if (act == 0) VF_ASSERT(m.n == n && vf_eq(m.b, t, n), "with the text that was thrown"); else VF_ASSERT(m.n > 0, "with a message"); } } toThrow.n = 0; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// histories of creating, deleting, renaming and calling commands in two interpreters
struct M { int fn[3]; int by[3]; };   // per name x,y,z: function (0 none, -1 either), and the name it was created under
static const char* const NM[3] = {"x", "y", "z"}; static const char* const QN[3] = {"::x", "::y", "::z"};
static void probe(Tcl_Interp* in, const M& m, unsigned k, bool q) { if (m.fn[k] < 0) return; unsigned c = calls; int rc = invoke0(in, q ? QN[k] : NM[k], "v"); if (m.fn[k] == 0) VF_ASSERT(rc == TCL_ERROR && calls == c, "a command that does not exist calls nothing"); else { VF_ASSERT(rc == TCL_OK && calls == c + 1 && last == (unsigned)m.fn[k], "the command calls the function it was last created with"); VF_ASSERT(obj_str(Tcl_GetObjResult(in), m.fn[k] == 1 ? "1:v" : "2:v"), "and returns its result"); } }
static void m_create(M& m, unsigned k, int fn) { for (unsigned j = 0; j < 3; ++j) if (j != k && m.fn[j] && m.by[j] == (int)k) m.fn[j] = -1; m.fn[k] = fn; m.by[k] = (int)k; }
static void m_delete(M& m, unsigned k) { for (unsigned j = 0; j < 3; ++j) if (m.fn[j] && m.by[j] == (int)k) m.fn[j] = 0; }
extern "C" void cmd_history() {
  size_t l0 = vf_live(); calls = 0;
  { ScriptInterpTCL s0; Tcl_Interp* i0 = interp_of(0); M m = {{0, 0, 0}, {-1, -1, -1}};
    for (unsigned st = 0; st < TIER(5, 6); ++st) switch (vf_pick(0, 7)) {
      case 0: s0.createCommand("x", f1); m_create(m, 0, 1); break;
      case 1: s0.createCommand("x", f2); m_create(m, 0, 2); break;
      case 2: s0.createCommand("y", f2, "usage"); m_create(m, 1, 2); break;
      case 3: s0.deleteCommand("x"); m_delete(m, 0); break;
      case 4: s0.deleteCommand("y"); m_delete(m, 1); break;
      case 5: if (m.fn[0] > 0 && m.fn[2] == 0) { VF_ASSERT(invoke0(i0, "rename", "x", "z") == TCL_OK, "harness"); m.fn[2] = m.fn[0]; m.by[2] = m.by[0]; m.fn[0] = 0; } break;
      case 6: if (m.fn[1] > 0) { VF_ASSERT(invoke0(i0, "rename", "y", "") == TCL_OK, "harness"); m.fn[1] = 0; } break;
      default: probe(i0, m, 0, true);
    }
    for (unsigned k = 0; k < 3; ++k) { probe(i0, m, k, false); } probe(i0, m, 0, true); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void cmd_interps() {
  size_t l0 = vf_live(); calls = 0; g_nin = 0;
  { ScriptInterpTCL s0; Tcl_Interp* i0 = interp_of(0); M m = {{0, 0, 0}, {-1, -1, -1}}; int first = (int)vf_pick(0, 1); if (first) { s0.createCommand("x", f1); m_create(m, 0, 1); }
    { ScriptInterpTCL s1; Tcl_Interp* i1 = interp_of(1); M n = {{0, 0, 0}, {-1, -1, -1}};
      for (unsigned st = 0; st < TIER(3, 4); ++st) switch (vf_pick(0, 4)) { case 0: s1.createCommand("x", f2); m_create(n, 0, 2); break; case 1: s0.createCommand("y", f1); m_create(m, 1, 1); break; case 2: s1.deleteCommand("x"); m_delete(n, 0); break; case 3: s0.deleteCommand("x"); m_delete(m, 0); break; default: s1.createCommand("y", f2); m_create(n, 1, 2); }
      for (unsigned k = 0; k < 2; ++k) { probe(i0, m, k, false); probe(i1, n, k, true); } }
    for (unsigned k = 0; k < 2; ++k) probe(i0, m, k, false); s0.createCommand("x", f2); m_create(m, 0, 2); probe(i0, m, 0, false); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// a command that changes the commands, itself included, while it runs
static int nest, throwAfter; static int innerRc;
static String fn(String a) {
  ++calls; Ref before = refof(a); Tcl_Interp* in = interp_of();
  switch (nest) { case 0: SI->deleteCommand("x"); break; case 1: SI->createCommand("x", f1); break; case 2: invoke0(in, "rename", "x", "z"); break; case 3: SI->deleteCommand("x"); SI->createCommand("x", f2); break; case 4: SI->createCommand("x", f1); SI->deleteCommand("x"); break; case 5: invoke0(in, "rename", "x", ""); break; case 6: SI->createCommand("y", f2); break; case 7: invoke0(in, "rename", "x", "z"); SI->createCommand("x", f1); break; case 8: nest = 9; break; default: break; }
  int keep = nest; if (nest == 9) { nest = 10; innerRc = invoke0(in, "x", "n"); nest = keep; } else if (nest < 8) { unsigned c = calls; innerRc = nest == 6 || nest == 2 ? TCL_ERROR : invoke0(in, "x", "q"); if (nest == 1 || nest == 3 || nest == 7) VF_ASSERT(innerRc == TCL_OK && calls == c + 1 && last == (nest == 3 ? 2u : 1u), "the new command is in place at once"); if (nest == 0 || nest == 4 || nest == 5) VF_ASSERT(innerRc == TCL_ERROR && calls == c, "the deleted command is gone at once"); }
  VF_ASSERT(same(a, before), "the argument stays"); if (throwAfter && nest != 10) throw String("thrown"); return "n" + a; }
extern "C" void cmd_nested() {
  size_t l0 = vf_live(); calls = 0;
  { ScriptInterpTCL si; SI = &si; Tcl_Interp* in = interp_of(); nest = (int)vf_pick(0, 8); throwAfter = (int)vf_pick(0, 1); int k = nest; si.createCommand("x", fn); char t[2]; size_t n = vf_pick(0, 2); vf_bytes(t, n); Tcl_Obj* a = str_obj(t, n); int rc = invoke(in, "x", &a, 1);
    if (throwAfter) VF_ASSERT(rc == TCL_ERROR && obj_str(Tcl_GetObjResult(in), "thrown"), "the exception becomes an error"); else { const Ref& m = msg(in); VF_ASSERT(rc == TCL_OK && m.n == n + 1 && m.b[0] == 'n' && vf_eq(m.b + 1, t, n), "the result of the running command"); } Tcl_DecrRefCount(a);
    unsigned c = calls; rc = k == 8 || k == 6 ? TCL_OK : invoke0(in, "x", "v");
    if (k == 1 || k == 3 || k == 7) VF_ASSERT(rc == TCL_OK && calls == c + 1 && last == (k == 3 ? 2u : 1u), "afterwards the new command is called"); if (k == 0 || k == 2 || k == 4 || k == 5) VF_ASSERT(rc == TCL_ERROR && calls == c, "afterwards the command is gone"); if (k == 6) VF_ASSERT(invoke0(in, "y", "v") == TCL_OK && last == 2, "the created command exists"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// a name whose buffer is exactly full, or that is a part of a longer String
static void part(String& name, String& x, const char* nm, size_t n, unsigned k) { if (k == 0) name = String(nm, nm + n); else if (k == 1) { x = String("<"); x += String(nm, n); x.append("zz\0", 3); name = x(1, (long)n); } else { name = String(nm, n); name.append("qq\0", 3); name -= size_t(3); x = name; } }
// commands of any name: long ones, and names that are parts of longer Strings
extern "C" void cmd_names() {
  tcl_up(); g_nin = 0; size_t l0 = vf_live(); calls = 0;
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); char nm[300]; static const unsigned z[] = {1, 2, 15, 16, 64, 255}; size_t n = z[vf_pick(0, 5)]; for (size_t i = 0; i < n; ++i) nm[i] = (char)('a' + i % 25); nm[n] = 0;
    String name, x; unsigned k = (unsigned)vf_pick(0, 3); if (k == 3) { x = String("::"); x.append(nm, n); name = x; } else part(name, x, nm, n, k);
    const char* usage = vf_flag() ? "what ever" : nullptr; si.createCommand("other", f2); si.createCommand(name, f1, usage); if (k) x = String("gone");
    int rc = invoke0(in, nm, "v"); VF_ASSERT(rc == TCL_OK && calls == 1 && last == 1, "the command is called under its name"); VF_ASSERT(ra[0].n == 1 && ra[0].b[0] == 'v', "with its argument");
    rc = invoke0(in, nm); VF_ASSERT(rc == TCL_ERROR && calls == 1, "a wrong number of arguments is an error"); VF_ASSERT(!usage || has(in, usage), "the error mentions the usage");
    rc = invoke0(in, "other", "v"); VF_ASSERT(rc == TCL_OK && last == 2, "other commands are not affected"); { String y, un; if (k == 3) un = name; else part(un, y, nm, n, (unsigned)vf_pick(0, 2)); si.deleteCommand(un); } rc = invoke0(in, nm, "v"); VF_ASSERT(rc == TCL_ERROR && calls == 2, "a deleted command is gone"); rc = invoke0(in, "other", "v"); VF_ASSERT(rc == TCL_OK && calls == 3, "other commands are not affected"); for (auto& q : ra) q.n = 0; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
