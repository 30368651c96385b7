// C20: C++ variables linked to Tcl variables.
#define CAPR 64
#include "tclh.h"
static unsigned hooks; static uint64_t h_old, h_new; static Ref hs_old, hs_new; static const void *hp_old, *hp_new; static size_t hn; static ScriptInterpTCL* SI;
template <class T> static void hookI(const void* o, const void* n) { ++hooks; h_old = (uint64_t)(int64_t)*(const T*)o; h_new = (uint64_t)(int64_t)*(const T*)n; hp_new = n; }
static void hookD(const void* o, const void* n) { ++hooks; h_old = bits(*(const double*)o); h_new = bits(*(const double*)n); hp_new = n; }
static void hookS(const void* o, const void* n) { ++hooks; const String &a = *(const String*)o, &b = *(const String*)n; hs_old.set(a.data(), a.length()); hs_new.set(b.data(), b.length()); hp_new = n; }
static void hookC(const void* o, const void* n) { ++hooks; hp_old = o; hp_new = n; hs_old.set((const char*)o, hn); hs_new.set((const char*)n, hn); }
// the variable under its name, its qualified name or an alias
static const char* view(Tcl_Interp* in) { switch (vf_pick(0, 2)) { case 0: return "v"; case 1: return "::v"; default: Tcl_UpVar(in, "#0", "v", "al", TCL_GLOBAL_ONLY); return "al"; } }
static Tcl_Obj* rd(Tcl_Interp* in, const char* n) { return Tcl_GetVar2Ex(in, n, nullptr, TCL_GLOBAL_ONLY | TCL_LEAVE_ERR_MSG); }
static bool wr(Tcl_Interp* in, const char* n, Tcl_Obj* o) { Tcl_IncrRefCount(o); Tcl_Obj* r = Tcl_SetVar2Ex(in, n, nullptr, o, TCL_GLOBAL_ONLY | TCL_LEAVE_ERR_MSG); Tcl_DecrRefCount(o); return r != nullptr; }
template <class T> static bool is_int(Tcl_Obj* o, T v) { bool neg = false; uint64_t mag = 0; bool vn = v < 0; uint64_t vm = vn ? 0 - (uint64_t)(int64_t)v : (uint64_t)v; return o && int_obj(o, neg, mag) && neg == vn && mag == vm; }
template <class T> static void ints() {
  ScriptInterpTCL si; Tcl_Interp* in = interp_of(); T* v = new T((T)vf_u64()); T v0 = *v; bool hook = vf_flag(); unsigned how = vf_pick(0, 2);
  if (how == 2) si.linkVar("v", *(const T*)v, hook ? hookI<T> : nullptr); else if (hook) si.linkVar("v", *v, hookI<T>); else if (how) ScriptInterp::linkVar(si, "v", *v); else si.linkVar("v", *v);
  VF_ASSERT(*v == v0, "linking does not change the variable"); const char* nm = view(in);
  if (vf_flag()) { VF_ASSERT(is_int<T>(rd(in, nm), v0), "reading gives the C++ value"); VF_ASSERT(*v == v0, "reading does not change the variable"); *v = (T)vf_u64(); T v1 = *v; VF_ASSERT(is_int<T>(rd(in, "v"), v1), "reading follows the C++ variable"); VF_ASSERT(hooks == 0, "reading does not call the hook"); }
  else { int64_t w = (int64_t)vf_u64(); bool ok = wr(in, nm, Tcl_NewWideIntObj(w)); bool sg = T(-1) < T(0); unsigned bw = sizeof(T) * 8; int64_t lo = sg ? (int64_t)(~(uint64_t)0 << (bw - 1)) : 0; int64_t hi = sg ? (int64_t)((((uint64_t)1) << (bw - 1)) - 1) : bw == 64 ? INT64_MAX : (int64_t)(((uint64_t)1 << (bw & 63)) - 1); T want = w < lo || w > hi ? (T)0 : (T)w;
    if (how == 2) { VF_ASSERT(!ok, "writing a read-only variable is an error"); VF_ASSERT(*v == v0, "a read-only variable is never written"); VF_ASSERT(hooks == 0, "and its hook is not called"); }
    else { VF_ASSERT(ok, "writing succeeds"); VF_ASSERT(*v == want, "writing stores the converted value"); VF_ASSERT(hooks == (hook ? 1u : 0u), "the hook is called exactly once"); if (hook) VF_ASSERT(h_old == (uint64_t)(int64_t)v0 && h_new == (uint64_t)(int64_t)want && hp_new == (const void*)v, "the hook gets the old and the new value"); }
    if (vf_flag()) VF_ASSERT(is_int<T>(rd(in, nm), *v), "afterwards reading gives the C++ value"); }
  si.unlinkVar("v"); delete v; }
#define EACH(F) switch (vf_pick(0, 7)) { case 0: F<int8_t>(); break; case 1: F<uint8_t>(); break; case 2: F<int16_t>(); break; case 3: F<uint16_t>(); break; case 4: F<int32_t>(); break; case 5: F<uint32_t>(); break; case 6: F<int64_t>(); break; default: F<uint64_t>(); }
static void begin() { tcl_up(); g_nin = 0; hooks = 0; hs_old.n = hs_new.n = 0; }
extern "C" void link_int() { begin(); size_t l0 = vf_live(); EACH(ints) VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void link_string() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); String v, al; Ref r, ar; build(v, r, al, ar, vf_pick(0, K_NKINDS - 1), vf_pick(0, 2)); unsigned how = vf_pick(0, 2); const String& cv = v;
    if (how == 2) si.linkVar("v", cv, hookS); else if (how) si.linkVar("v", v, hookS); else si.linkVar("v", v); VF_ASSERT(same(v, r) && same(al, ar), "linking does not change the variable"); const char* nm = view(in);
    Tcl_Obj* o = rd(in, nm); VF_ASSERT(o && obj_is(o, r.b, r.n), "reading gives the C++ value"); VF_ASSERT(same(v, r) && same(al, ar), "reading does not change the variable"); VF_ASSERT(hooks == 0, "reading does not call the hook");
    size_t n = vf_pick(0, 3); char t[4]; vf_bytes(t, n); bool ok = wr(in, nm, Tcl_NewStringObj(t, (int)n));
    if (how == 2) VF_ASSERT(!ok && same(v, r) && hooks == 0, "a read-only variable is never written"); else { VF_ASSERT(ok && same_const(v, t, n), "writing stores the value"); VF_ASSERT(hooks == how, "the hook is called exactly once"); if (how) VF_ASSERT(hs_old.n == r.n && vf_eq(hs_old.b, r.b, r.n) && hs_new.n == n && vf_eq(hs_new.b, t, n) && hp_new == (const void*)&v, "the hook gets the old and the new value"); }
    VF_ASSERT(same(al, ar), "a String sharing the old buffer keeps its value"); o = rd(in, "v"); VF_ASSERT(o && obj_is(o, v.data(), v.length()), "afterwards reading gives the C++ value");
    v = String("later"); o = rd(in, nm); VF_ASSERT(o && obj_str(o, "later"), "reading follows the C++ variable"); if (vf_flag()) { si.unlinkVar("v"); VF_ASSERT(rd(in, "v") == nullptr, "an unlinked variable is gone"); wr(in, "v", Tcl_NewStringObj("zz", 2)); VF_ASSERT(same_const(v, "later", 5), "an unlinked variable is left alone"); } }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void link_real_bool() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); unsigned how = vf_pick(0, 2);
    if (vf_flag()) { double v = dbl(vf_u64()); vf_assume(v == v); double v0 = v; const double& cv = v; if (how == 2) si.linkVar("v", cv, hookD); else if (how) si.linkVar("v", v, hookD); else si.linkVar("v", v); double g = 0; Tcl_Obj* o = rd(in, "v"); VF_ASSERT(o && Tcl_GetDoubleFromObj(nullptr, o, &g) == TCL_OK && bits(g) == bits(v0), "reading gives the C++ value"); double w = dbl(vf_u64()); vf_assume(w == w); bool ok = wr(in, "v", Tcl_NewDoubleObj(w)); if (how == 2) VF_ASSERT(!ok && bits(v) == bits(v0) && hooks == 0, "a read-only variable is never written"); else { VF_ASSERT(ok && bits(v) == bits(w), "writing stores the value"); VF_ASSERT(hooks == how && (!how || (h_old == bits(v0) && h_new == bits(w))), "the hook is called exactly once with the old and the new value"); } o = rd(in, "v"); VF_ASSERT(o && Tcl_GetDoubleFromObj(nullptr, o, &g) == TCL_OK && bits(g) == bits(v), "afterwards reading gives the C++ value"); }
    else { bool v = vf_bool(), v0 = v; const bool& cv = v; if (how == 2) si.linkVar("v", cv, hookI<bool>); else if (how) si.linkVar("v", v, hookI<bool>); else si.linkVar("v", v); int g = -1; Tcl_Obj* o = rd(in, "v"); VF_ASSERT(o && Tcl_GetBooleanFromObj(nullptr, o, &g) == TCL_OK && (g != 0) == v0, "reading gives the C++ value"); size_t n = vf_pick(0, 3); char t[3]; static const char* const T[] = {"0", "1", "no", "yes", "xy", "", "2", "-1"}; const char* s = T[vf_pick(0, 7)]; (void)n; (void)t; bool want = s[0] == '1' || s[0] == 'y' || s[0] == '2' || s[0] == '-'; bool ok = wr(in, "v", Tcl_NewStringObj(s, -1)); if (how == 2) VF_ASSERT(!ok && v == v0 && hooks == 0, "a read-only variable is never written"); else { VF_ASSERT(ok && v == want, "writing stores the converted value"); VF_ASSERT(hooks == how && (!how || (h_old == v0 && h_new == want)), "the hook is called exactly once with the old and the new value"); } o = rd(in, "v"); VF_ASSERT(o && Tcl_GetBooleanFromObj(nullptr, o, &g) == TCL_OK && (g != 0) == v, "afterwards reading gives the C++ value"); } }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// a char buffer of any size, set to values shorter, as long as and longer than it
extern "C" void link_buffer() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); size_t sz = vf_pick(1, TIER(6, 7)), k = vf_pick(0, sz - 1); char* b = new char[sz]; Ref r; vf_nzbytes(b, k); for (size_t i = k; i < sz; ++i) b[i] = 0; r.set(b, sz); hn = sz; bool hook = vf_flag(); if (hook) si.linkVar("v", b, sz, hookC); else si.linkVar("v", b, sz); VF_ASSERT(vf_eq(b, r.b, sz), "linking does not change the buffer"); const char* nm = view(in);
    Tcl_Obj* o = rd(in, nm); VF_ASSERT(o && obj_is(o, r.b, k), "reading gives the C++ value"); VF_ASSERT(vf_eq(b, r.b, sz), "reading does not change the buffer");
    for (unsigned round = 0; round < 2; ++round) { Ref old(b, sz); hooks = 0; size_t n = vf_pick(0, TIER(7, 8)); char t[8]; vf_nzbytes(t, n); VF_ASSERT(wr(in, nm, Tcl_NewStringObj(t, (int)n)), "writing succeeds"); size_t m = n < sz ? n : sz - 1; VF_ASSERT(vf_eq(b, t, m) && b[m] == 0, "the longest prefix that fits, terminated"); VF_ASSERT(hooks == (hook ? 1u : 0u), "the hook is called exactly once"); if (hook) VF_ASSERT(vf_eq(hs_old.b, old.b, strlen(old.b) + 1) && vf_eq(hs_new.b, t, m) && hs_new.b[m] == 0 && hp_new == (const void*)b && hp_old != (const void*)b, "the hook gets the old and the new value"); o = rd(in, "v"); VF_ASSERT(o && obj_is(o, t, m), "afterwards reading gives the C++ value"); if (TIER(1, 0)) break; }
    b[0] = 0; o = rd(in, nm); VF_ASSERT(o && obj_is(o, "", 0), "reading follows the buffer"); si.unlinkVar("v"); delete[] b; VF_ASSERT(rd(in, "v") == nullptr, "an unlinked variable is gone"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void link_cstr() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); size_t n = vf_pick(0, 3); char* b = new char[n + 1]; vf_nzbytes(b, n); b[n] = 0; Ref r(b, n + 1); const char* c = b; bool hook = vf_flag(); if (hook) si.linkVar("v", c, hookC); else si.linkVar("v", c); const char* nm = view(in); Tcl_Obj* o = rd(in, nm); VF_ASSERT(o && obj_is(o, r.b, n), "reading gives the C++ value"); size_t k = vf_pick(0, 3); char t[3]; vf_bytes(t, k); VF_ASSERT(!wr(in, nm, Tcl_NewStringObj(t, (int)k)), "writing a read-only variable is an error"); VF_ASSERT(c == b && vf_eq(b, r.b, n + 1) && hooks == 0, "a read-only variable is never written"); o = rd(in, "v"); VF_ASSERT(o && obj_is(o, r.b, n), "afterwards reading gives the C++ value"); si.unlinkVar("v"); delete[] b; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// histories: linking, relinking under the same name, unlinking, writing from both sides
static unsigned hk[3]; static void hkA(const void*, const void*) { ++hk[1]; } static void hkB(const void*, const void*) { ++hk[2]; }
struct L { int target, hook; bool ro; };   // target 0 none, 1 a, 2 b, 3 buffer
extern "C" void link_history() {
  begin(); size_t l0 = vf_live(); hk[1] = hk[2] = 0;
  { ScriptInterpTCL s0; Tcl_Interp* i0 = interp_of(0); int a = 11, b = 22; const int& cb = b; char* buf = new char[3]; buf[0] = '7'; buf[1] = 0; buf[2] = 0; int ra = 11, rb = 22, rbuf = 7; L l = {0, 0, false}; unsigned eh[3] = {0, 0, 0}; bool plain = false; int pv = 0;
    for (unsigned st = 0; st < 5; ++st) switch (vf_pick(0, 7)) {
      case 0: s0.linkVar("v", a, hkA); l = {1, 1, false}; break;
      case 1: s0.linkVar("v", b); l = {2, 0, false}; break;
      case 2: s0.linkVar("v", cb, hkB); l = {2, 0, true}; break;
      case 3: s0.linkVar("v", buf, 3, hkB); l = {3, 2, false}; break;
      case 4: s0.unlinkVar("v"); l = {0, 0, false}; plain = false; break;
      case 5: { char t[2] = {(char)('1' + st), 0}; bool ok = wr(i0, "v", Tcl_NewStringObj(t, 1)); VF_ASSERT(ok == !l.ro, "only a read-only variable refuses to be written"); if (l.target == 0) { plain = true; pv = 1 + (int)st; } else if (ok) { (l.target == 1 ? ra : l.target == 2 ? rb : rbuf) = 1 + (int)st; ++eh[l.hook]; } break; }
      case 6: a = ra = 40 + (int)st; b = rb = 50 + (int)st; break;
      default: s0.linkVar("w", a, hkB); break;
    }
    VF_ASSERT(a == ra && b == rb && buf[0] == '0' + rbuf && buf[1] == 0, "only the variable linked now is written"); VF_ASSERT(hk[1] == eh[1] && hk[2] == eh[2], "only its hook is called");
    Tcl_Obj* o = rd(i0, "v"); long g = -1; if (l.target == 0) { VF_ASSERT((o != nullptr) == plain, "an unlinked variable is gone"); if (plain) VF_ASSERT(Tcl_GetLongFromObj(nullptr, o, &g) == TCL_OK && g == pv, "a plain variable keeps its value"); } else VF_ASSERT(o && Tcl_GetLongFromObj(nullptr, o, &g) == TCL_OK && g == (l.target == 1 ? ra : l.target == 2 ? rb : rbuf), "reading gives the value of the variable linked now");
    if (l.target == 3) s0.unlinkVar("v"); delete[] buf; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// two interpreters linking the same name
extern "C" void link_interps() {
  begin(); size_t l0 = vf_live(); hk[1] = hk[2] = 0;
  { int a = 1, b = 2; String c("s"); ScriptInterpTCL s0; Tcl_Interp* i0 = interp_of(0); unsigned e1 = 0, e2 = 0; bool h0 = vf_flag(); if (h0) s0.linkVar("v", a, hkA); else s0.linkVar("v", a);
    { ScriptInterpTCL s1; Tcl_Interp* i1 = interp_of(1); bool h1 = vf_flag(); unsigned k = vf_pick(0, 1); if (k) { if (h1) s1.linkVar("v", c, hkB); else s1.linkVar("v", c); } else if (h1) s1.linkVar("v", b, hkB); else s1.linkVar("v", b);
      if (vf_flag()) { wr(i1, "v", Tcl_NewStringObj("5", 1)); if (h1) ++e2; VF_ASSERT(k ? same_const(c, "5", 1) && b == 2 : b == 5 && same_const(c, "s", 1), "the variable of the interpreter is written"); } if (vf_flag()) s1.unlinkVar("v"); VF_ASSERT(a == 1, "and no other"); VF_ASSERT(hk[1] == e1 && hk[2] == e2, "the hook of the interpreter is called, and no other"); }
    wr(i0, "v", Tcl_NewStringObj("9", 1)); if (h0) ++e1; VF_ASSERT(a == 9, "the link survives another interpreter"); VF_ASSERT(hk[1] == e1 && hk[2] == e2, "and so does its hook"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// a hook that unlinks or links variables
static int hact; static int ga, gb; static void hkX(const void* o, const void* n) { ++hooks; h_old = (uint64_t)(int64_t)*(const int*)o; h_new = (uint64_t)(int64_t)*(const int*)n; switch (hact) { case 0: SI->unlinkVar("v"); break; case 1: SI->unlinkVar("w"); break; case 2: SI->linkVar("w", gb); break; case 3: SI->linkVar("v", gb); break; default: break; } }
extern "C" void link_hooks() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; SI = &si; Tcl_Interp* in = interp_of(); ga = 1; gb = 2; si.linkVar("v", ga, hkX); si.linkVar("w", gb); hact = (int)vf_pick(0, 4); wr(in, "v", Tcl_NewStringObj("5", 1)); VF_ASSERT(hooks == 1 && h_old == 1 && h_new == 5 && ga == 5 && gb == 2, "the hook is called exactly once with the old and the new value"); wr(in, "v", Tcl_NewStringObj("6", 1)); if (hact == 0) VF_ASSERT(ga == 5 && hooks == 1, "an unlinked variable is left alone"); else if (hact == 3) VF_ASSERT(ga == 5 && gb == 6 && hooks == 1, "only the variable linked now is written"); else VF_ASSERT(ga == 6 && hooks == 2, "the link works as before"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// a name whose buffer is exactly full, or that is a part of a longer String
static void part(String& name, String& x, const char* nm, size_t n, unsigned k) { if (k == 0) name = String(nm, nm + n); else if (k == 1) { x = String("<"); x += String(nm, n); x.append("zz\0", 3); name = x(1, (long)n); } else { name = String(nm, n); name.append("qq\0", 3); name -= size_t(3); x = name; } }
// variables of any name: long ones, names that are parts of longer Strings, and elements of arrays
extern "C" void link_names() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); char nm[300]; size_t n = 0; unsigned w = (unsigned)vf_pick(0, 7); static const unsigned z[] = {1, 2, 15, 16, 64, 255}; bool elem = w == 7;
    if (w < 6) { n = z[w]; for (size_t i = 0; i < n; ++i) nm[i] = (char)('a' + i % 26); } else { const char* p = w == 6 ? "::va" : "ar(k 1)"; for (; p[n]; ++n) nm[n] = p[n]; } nm[n] = 0;
    String x, name; unsigned k = (unsigned)vf_pick(0, 2); part(name, x, nm, n, k);
    int iv = (int)vf_pick(0, 1) * 7; String sv("s0"); char* buf = new char[4]; buf[0] = 'b'; buf[1] = buf[2] = buf[3] = 0; int other = 5; const int& civ = iv; int iv0 = iv; unsigned ty = (unsigned)vf_pick(0, 3); hn = 4;
    si.linkVar("other", other); switch (ty) { case 0: si.linkVar(name, iv, hookI<int>); break; case 1: si.linkVar(name, sv, hookS); break; case 2: si.linkVar(name, buf, 4, hookC); break; default: si.linkVar(name, civ, hookI<int>); }
    VF_ASSERT(same_const(name, nm, n), "the name is unchanged"); const char* use = nm; bool alias = vf_flag(); if (alias) { if (elem) Tcl_UpVar2(in, "#0", "ar", "k 1", "al", TCL_GLOBAL_ONLY); else Tcl_UpVar(in, "#0", nm, "al", TCL_GLOBAL_ONLY); use = "al"; }
    Tcl_Obj* o = rd(in, use); VF_ASSERT(o != nullptr, "the variable can be read under its name"); if (ty == 0 || ty == 3) VF_ASSERT(is_int<int>(o, iv0), "reading gives the C++ value"); else VF_ASSERT(obj_str(o, ty == 1 ? "s0" : "b"), "reading gives the C++ value");
    bool ok; if (vf_flag() || !elem || alias) ok = wr(in, use, Tcl_NewStringObj("12", 2)); else { Tcl_Obj* q = Tcl_NewStringObj("12", 2); Tcl_IncrRefCount(q); ok = Tcl_SetVar2Ex(in, "ar", "k 1", q, TCL_GLOBAL_ONLY | TCL_LEAVE_ERR_MSG) != nullptr; Tcl_DecrRefCount(q); }
    if (ty == 3) VF_ASSERT(!ok && iv == iv0 && hooks == 0, "a read-only variable cannot be written"); else { VF_ASSERT(ok, "writing succeeds"); VF_ASSERT(hooks == 1, "the hook is called exactly once"); VF_ASSERT(ty == 0 ? iv == 12 && h_old == (uint64_t)iv0 && h_new == 12 : ty == 1 ? same_const(sv, "12", 2) : buf[0] == '1' && buf[1] == '2' && buf[2] == 0, "writing stores the converted value"); }
    VF_ASSERT(other == 5, "no other variable is written"); Tcl_Obj* p = rd(in, use); if (ty != 3) { VF_ASSERT(p != nullptr, "and can be read again"); if (ty == 0) VF_ASSERT(is_int<int>(p, 12), "reading gives the C++ value"); else VF_ASSERT(obj_str(p, "12"), "reading gives the C++ value"); }
    unsigned h = hooks; { String y, un; part(un, y, nm, n, (unsigned)vf_pick(0, 2)); si.unlinkVar(un); } VF_ASSERT(rd(in, nm) == nullptr, "an unlinked variable is gone"); wr(in, nm, Tcl_NewStringObj("99", 2)); VF_ASSERT(hooks == h && iv != 99 && sv.length() == 2 && buf[0] != '9', "an unlinked variable is not stored"); VF_ASSERT(is_int<int>(rd(in, "other"), 5), "other links stay"); delete[] buf; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// arrays of Strings, and arrays of those, as linked variables
static Ref la_old[3], la_new[3]; static size_t lo_n, ln_n; static bool nest;
static void flatten(const void* p, Ref* r, size_t& n) { n = 0; if (nest) { const auto& a = *(const Array<Array<String>>*)p; for (size_t i = 0; i < a.length(); ++i) for (size_t j = 0; j < a.data()[i].length(); ++j) if (n < 3) { const String& s = a.data()[i].data()[j]; r[n++].set(s.data(), s.length()); } } else { const auto& a = *(const Array<String>*)p; for (size_t i = 0; i < a.length(); ++i) if (n < 3) { const String& s = a.data()[i]; r[n++].set(s.data(), s.length()); } } }
static void hookL(const void* o, const void* n) { ++hooks; hp_new = n; flatten(o, la_old, lo_n); flatten(n, la_new, ln_n); }
static bool refs(const Ref* a, size_t n, const Ref* b, size_t m) { if (n != m) return false; for (size_t i = 0; i < n; ++i) if (!same_const(String(a[i].b, a[i].n), b[i].b, b[i].n)) return false; return true; }
static bool tlist(Tcl_Obj* o, const Ref* r, size_t n) { if (!o) return false; int c = -1; Tcl_Obj** v = nullptr; if (Tcl_ListObjGetElements(nullptr, o, &c, &v) != TCL_OK) return false; if (nest) { if (c != (n ? 1 : 0)) return false; if (!n) return true; Tcl_Obj* in = v[0]; if (Tcl_ListObjGetElements(nullptr, in, &c, &v) != TCL_OK) return false; } if (c != (int)n) return false; for (size_t i = 0; i < n; ++i) if (!obj_is(v[i], r[i].b, r[i].n)) return false; return true; }
static size_t words(Ref* r) { size_t n = vf_pick(0, 2); for (size_t i = 0; i < n; ++i) { char t[2]; size_t k = vf_pick(0, 1) + i; vf_bytes(t, k); r[i].set(t, k); } return n; }
static void fillL(Array<String>& a, Array<Array<String>>& b, const Ref* r, size_t n) { Array<String> t; for (size_t i = 0; i < n; ++i) t << String(r[i].b, r[i].n); a = t; b = Array<Array<String>>(); if (n) b << t; }
extern "C" void link_list() {
  begin(); size_t l0 = vf_live(); lo_n = ln_n = 0;
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); nest = vf_flag(); Array<String> a; Array<Array<String>> b; Ref r[2], w[2]; size_t n = words(r), m = 0; fillL(a, b, r, n); Array<String> sh(a); unsigned how = (unsigned)vf_pick(0, 2); const Array<String>& ca = a; const Array<Array<String>>& cb = b;
    if (nest) { if (how == 0) si.linkVar("v", b); else if (how == 1) si.linkVar("v", b, hookL); else si.linkVar("v", cb, hookL); } else { if (how == 0) si.linkVar("v", a); else if (how == 1) si.linkVar("v", a, hookL); else si.linkVar("v", ca, hookL); }
    VF_ASSERT(tlist(rd(in, "v"), r, n), "reading gives the elements of the C++ array");
    Tcl_Obj* o; bool bad = vf_flag(); if (bad) o = Tcl_NewStringObj("{x", 2); else { m = words(w); Tcl_Obj* e[2]; for (size_t i = 0; i < m; ++i) e[i] = Tcl_NewStringObj(w[i].b, (int)w[i].n); o = Tcl_NewListObj((int)m, e); if (nest && m) { Tcl_Obj* q[1] = {o}; o = Tcl_NewListObj(1, q); } }
    bool ok = wr(in, "v", o); Ref g[3]; size_t gn = 0; flatten(nest ? (const void*)&b : (const void*)&a, g, gn);
    if (how == 2) { VF_ASSERT(!ok && hooks == 0 && refs(g, gn, r, n), "a read-only variable cannot be written"); } else { VF_ASSERT(ok, "writing succeeds"); VF_ASSERT(refs(g, gn, w, m), "writing stores the elements of the list, or nothing when it is no list"); VF_ASSERT(hooks == (how ? 1u : 0u), "the hook is called exactly once"); if (how) VF_ASSERT(refs(la_old, lo_n, r, n) && refs(la_new, ln_n, w, m) && hp_new == (nest ? (const void*)&b : (const void*)&a), "the hook gets the old and the new value"); VF_ASSERT(tlist(rd(in, "v"), w, m), "afterwards reading gives the C++ value"); }
    for (size_t i = 0; i < n; ++i) VF_ASSERT(same(sh.data()[i], r[i]), "a copy made before keeps its value"); fillL(a, b, r, n); VF_ASSERT(tlist(rd(in, "v"), r, n), "reading follows the C++ variable"); si.unlinkVar("v"); for (auto& q : la_old) q.n = 0; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
