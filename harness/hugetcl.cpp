// C18, C19, C20, C25: long values across the Tcl boundary (past 8, 12 and 16 bits of length).
#define OWN_EVALFILE
#include "huge.h"
#include "tclh.h"
static bool hobj(Tcl_Obj* o, const char* p, size_t n) { int len = -1; char* s = o ? Tcl_GetStringFromObj(o, &len) : nullptr; return s && len == (int)n && !memcmp(s, p, n); }
static char lname[300]; static size_t lnl; static unsigned loads; static int lrc; static size_t resn;
extern "C" int vft_EvalFile(Tcl_Interp* in, const char* f) { ++loads; lnl = strlen(f); if (lnl < 300) memcpy(lname, f, lnl); Tcl_SetObjResult(in, Tcl_NewStringObj(hb, (int)resn)); return lrc; }
static unsigned calls, argcs; static char ga[HCAP]; static size_t gn; static int resrc; static unsigned which;
static void begin() { tcl_up(); g_nin = 0; calls = argcs = 0; gn = 0; resrc = TCL_OK; loads = 0; }
extern "C" void huge_tcl_string() { begin(); size_t l0 = vf_live();
  { size_t n = HZ[vf_pick(0, NHZ - 1)]; unsigned k = vf_pick(0, 3); hfill(hb, n); String s, keep; hbuild(s, keep, k, hb, n); Tcl_Obj* o = c_to_tcl_cast<const String&>::from(s, nullptr); Tcl_IncrRefCount(o); VF_ASSERT(hobj(o, hb, n), "a String becomes exactly its bytes"); String b(tcl_to_c_cast<String>::from(o, nullptr)); VF_ASSERT(hsame(b, hb, n), "to Tcl and back is the identity"); VF_ASSERT(hsame(s, hb, n) && hkept(keep, k, hb, n), "the String is unchanged");
    const char* c = tcl_to_c_cast<const char*>::from(o, nullptr); VF_ASSERT(c && !memcmp(c, hb, n) && c[n] == 0, "as a C string it is terminated"); Tcl_DecrRefCount(o); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void huge_tcl_list() { begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; static const unsigned z[] = {31, 32, 33, 255, 256, 257, 300, 1025}; size_t n = z[vf_pick(0, 7)]; Array<String> a; for (size_t i = 0; i < n; ++i) { char t[3] = {(char)('a' + i % 26), (char)('a' + i / 26 % 26), 'x'}; a << String(t, 2 + i % 2); } char c = (char)vf_u8(); a[n - 1] = String(&c, 1); a[n / 2] = String(&c, 1);
    Tcl_Obj* o = c_to_tcl_cast<const Array<String>&>::from(a, interp_of()); Tcl_IncrRefCount(o); int m = -1; Tcl_Obj** v = nullptr; VF_ASSERT(Tcl_ListObjGetElements(nullptr, o, &m, &v) == TCL_OK && m == (int)n, "as many elements"); Array<String> b(tcl_to_c_cast<Array<String>>::from(o, &si)); VF_ASSERT(b.length() == n && a.length() == n, "as many elements come back");
    for (size_t i = 0; i < n; ++i) { char t[3] = {(char)('a' + i % 26), (char)('a' + i / 26 % 26), 'x'}; size_t k = 2 + i % 2; if (i + 1 == n || i == n / 2) { t[0] = c; k = 1; } VF_ASSERT(obj_is(v[i], t, k), "the list of its elements"); VF_ASSERT(same_const(static_cast<String>(b[i]), t, k), "to Tcl and back is the identity"); } Tcl_DecrRefCount(o); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// commands: long argument, long result, long exception text
static String echo(String a) { ++calls; gn = a.length(); memcpy(ga, a.data(), gn); if (which == 1) throw String(a); if (which == 2) return String("r"); return a; }
extern "C" void huge_cmd() { begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); si.createCommand("x", echo); which = vf_pick(0, 2); size_t n = HZ[vf_pick(0, NHZ - 1)]; hfill(hb, n); Tcl_Obj* v[2] = {cstr_obj("x"), str_obj(hb, n)};
    for (unsigned r = 0; r < 2; ++r) { int rc = Tcl_EvalObjv(in, 2, v, TCL_EVAL_GLOBAL); VF_ASSERT(calls == r + 1 && gn == n && !memcmp(ga, hb, n), "the argument"); VF_ASSERT(rc == (which == 1 ? TCL_ERROR : TCL_OK), "the outcome"); if (which == 2) VF_ASSERT(hobj(Tcl_GetObjResult(in), "r", 1), "the result"); else VF_ASSERT(hobj(Tcl_GetObjResult(in), hb, n), "the result or the message of the exception"); }
    VF_ASSERT(v[1]->refCount >= 1 && hobj(v[1], hb, n), "the argument object is kept"); Tcl_DecrRefCount(v[0]); Tcl_DecrRefCount(v[1]); si.deleteCommand("x"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// many commands at once: each calls its own function, until it is deleted
template <int N> static int num(int a) { ++calls; return a + 1000 * N; }
extern "C" void huge_cmds() { begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); const unsigned n = TIER(40, 140); unsigned gone = vf_pick(0, 3) * 9; char nm[4] = "c  "; for (unsigned i = 0; i < n; ++i) { nm[1] = (char)('a' + i / 26); nm[2] = (char)('a' + i % 26); switch (i % 3) { case 0: si.createCommand(nm, num<0>); break; case 1: si.createCommand(nm, num<1>, "us", 0); break; default: si.createCommand(nm, num<2>); } }
    for (unsigned i = 0; i < gone; ++i) { nm[1] = (char)('a' + i / 26); nm[2] = (char)('a' + i % 26); si.deleteCommand(nm); } int x = (int)vf_range(0, 999);
    for (unsigned i = 0; i < n; ++i) { nm[1] = (char)('a' + i / 26); nm[2] = (char)('a' + i % 26); unsigned c = calls; Tcl_Obj* v[2] = {cstr_obj(nm), Tcl_NewIntObj(x)}; Tcl_IncrRefCount(v[1]); int rc = Tcl_EvalObjv(in, 2, v, TCL_EVAL_GLOBAL); if (i < gone) VF_ASSERT(rc == TCL_ERROR && calls == c, "a deleted command is gone"); else { long g = -1; VF_ASSERT(rc == TCL_OK && calls == c + 1 && Tcl_GetLongFromObj(nullptr, Tcl_GetObjResult(in), &g) == TCL_OK && g == x + 1000 * (int)(i % 3), "exactly its function is called, once"); } Tcl_DecrRefCount(v[0]); Tcl_DecrRefCount(v[1]); } }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// a function of eight parameters, of which the last ones may be optional
static char ms[4][4]; static size_t mn[4]; static int64_t mi[4];
static String eight(String a, int b, String c, bool d, uint32_t e, String f, int64_t g, String h) { ++calls; const String* v[] = {&a, &c, &f, &h}; for (int i = 0; i < 4; ++i) { mn[i] = v[i]->length(); for (size_t j = 0; j < mn[i] && j < 4; ++j) ms[i][j] = v[i]->data()[j]; } mi[0] = b; mi[1] = d; mi[2] = e; mi[3] = g; return h + a; }
extern "C" void cmd_many() { begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); unsigned n = (unsigned)vf_pick(0, 10); static const size_t mz[] = {size_t(-1), 0, 3, 5, 8}; size_t mn0 = mz[vf_pick(0, 4)]; unsigned lo = mn0 == size_t(-1) ? 8 : (unsigned)mn0; si.createCommand("x", eight, "a ?b?", mn0);
    Tcl_Obj* v[12]; v[0] = cstr_obj("x"); char t[11][2]; int64_t w[11]; static const int kind[8] = {0, 1, 0, 1, 1, 0, 1, 0}; for (unsigned i = 0; i < n; ++i) { w[i] = 0; if (i < 8 && kind[i]) { w[i] = i == 3 ? (int64_t)vf_bool() : i == 6 ? (int64_t)vf_u64() : i == 4 ? (int64_t)vf_u32() : (int64_t)(int32_t)vf_u32(); v[i + 1] = Tcl_NewWideIntObj(w[i]); Tcl_IncrRefCount(v[i + 1]); } else { vf_bytes(t[i], 2); v[i + 1] = str_obj(t[i], 2); } }
    int rc = Tcl_EvalObjv(in, (int)n + 1, v, TCL_EVAL_GLOBAL);
    if (n < lo || n > 8) { VF_ASSERT(rc == TCL_ERROR && calls == 0, "a wrong number of arguments is an error and the function is not called"); vf_reach("arity"); }
    else { VF_ASSERT(rc == TCL_OK && calls == 1, "exactly its function is called, once"); static const int si_[4] = {0, 2, 5, 7}, ii[4] = {1, 3, 4, 6}; for (int k = 0; k < 4; ++k) { if ((unsigned)si_[k] < n) VF_ASSERT(mn[k] == 2 && vf_eq(ms[k], t[si_[k]], 2), "the arguments in order"); else VF_ASSERT(mn[k] == 0, "a missing argument is empty"); VF_ASSERT(mi[k] == ((unsigned)ii[k] < n ? w[ii[k]] : 0), "the arguments in order"); }
      char e[4]; size_t l = 0; if (n == 8) { e[l++] = t[7][0]; e[l++] = t[7][1]; } if (n) { e[l++] = t[0][0]; e[l++] = t[0][1]; } VF_ASSERT(hobj(Tcl_GetObjResult(in), e, l), "the result"); vf_reach("called"); }
    for (unsigned i = 0; i <= n; ++i) Tcl_DecrRefCount(v[i]); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// linked variables
static unsigned hooks; static size_t on, nn; static char hold[HCAP], hnew[HCAP]; static size_t bsz;
static void hookS(const void* o, const void* n) { ++hooks; const String &a = *(const String*)o, &b = *(const String*)n; on = a.length(); memcpy(hold, a.data(), on); nn = b.length(); memcpy(hnew, b.data(), nn); }
static void hookC(const void* o, const void* n) { ++hooks; memcpy(hold, o, bsz); memcpy(hnew, n, bsz); }
static bool wr(Tcl_Interp* in, Tcl_Obj* o) { Tcl_IncrRefCount(o); Tcl_Obj* r = Tcl_SetVar2Ex(in, "v", nullptr, o, TCL_GLOBAL_ONLY | TCL_LEAVE_ERR_MSG); Tcl_DecrRefCount(o); return r != nullptr; }
static Tcl_Obj* rd(Tcl_Interp* in) { return Tcl_GetVar2Ex(in, "v", nullptr, TCL_GLOBAL_ONLY | TCL_LEAVE_ERR_MSG); }
extern "C" void huge_link() { begin(); hooks = 0; size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); size_t n = HZ[vf_pick(0, NHZ - 1)], m = vf_flag() ? 5 : HZ[vf_pick(0, NHZ - 1)]; unsigned k = vf_pick(0, 2); hfill(hb, n); hfill(hb2, m, false, 'A'); String s, keep; hbuild(s, keep, k, hb, n); si.linkVar("v", s, hookS); VF_ASSERT(hobj(rd(in), hb, n), "reading gives the C++ value"); VF_ASSERT(wr(in, Tcl_NewStringObj(hb2, (int)m)), "writing succeeds"); VF_ASSERT(hsame(s, hb2, m), "writing stores the value"); VF_ASSERT(hooks == 1 && on == n && nn == m && !memcmp(hold, hb, n) && !memcmp(hnew, hb2, m), "the hook sees the old and the new value"); VF_ASSERT(hobj(rd(in), hb2, m) && hkept(keep, k, hb, n), "afterwards reading gives the C++ value"); s = String(hb, n); VF_ASSERT(hobj(rd(in), hb, n), "reading follows the C++ variable"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void huge_link_buffer() { begin(); hooks = 0; size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); size_t n = HZ[vf_pick(0, NHZ - 1)]; bsz = n; hfill(hb, n, true); hb[n - 1] = 0; char* b = new char[n]; memcpy(b, hb, n); bool hook = vf_flag(); if (hook) si.linkVar("v", b, n, hookC); else si.linkVar("v", b, n); VF_ASSERT(hobj(rd(in), hb, n - 1), "reading gives the C++ value");
    size_t m = n + vf_pick(0, 3) - 2; if (vf_flag()) m = n / 2; hfill(hb2, m, true, 'A'); VF_ASSERT(wr(in, Tcl_NewStringObj(hb2, (int)m)), "writing succeeds"); size_t k = m < n ? m : n - 1; VF_ASSERT(!memcmp(b, hb2, k) && b[k] == 0, "the longest prefix that fits"); if (hook) VF_ASSERT(hooks == 1 && !memcmp(hold, hb, n) && !memcmp(hnew, hb2, k), "the hook sees the old and the new value"); VF_ASSERT(hobj(rd(in), hb2, k), "afterwards reading gives the C++ value"); si.unlinkVar("v"); delete[] b; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// many linked variables at once
extern "C" void huge_links() { begin(); size_t l0 = vf_live(); hooks = 0;
  { static int v[140]; ScriptInterpTCL si; Tcl_Interp* in = interp_of(); const unsigned n = TIER(40, 140); char nm[4] = "v  "; for (unsigned i = 0; i < n; ++i) { v[i] = (int)i; nm[1] = (char)('a' + i / 26); nm[2] = (char)('a' + i % 26); si.linkVar(nm, v[i]); } unsigned gone = vf_pick(0, 3) * 9; for (unsigned i = 0; i < gone; ++i) { nm[1] = (char)('a' + i / 26); nm[2] = (char)('a' + i % 26); si.unlinkVar(nm); } int x = (int)vf_range(0, 99999);
    for (unsigned i = 0; i < n; ++i) { nm[1] = (char)('a' + i / 26); nm[2] = (char)('a' + i % 26); Tcl_Obj* o = Tcl_GetVar2Ex(in, nm, nullptr, TCL_GLOBAL_ONLY); long g = -1; if (i < gone) VF_ASSERT(o == nullptr, "an unlinked variable is gone"); else VF_ASSERT(o && Tcl_GetLongFromObj(nullptr, o, &g) == TCL_OK && g == (long)i, "reading gives the C++ value"); Tcl_Obj* w = Tcl_NewIntObj(x + (int)i); Tcl_IncrRefCount(w); VF_ASSERT(Tcl_SetVar2Ex(in, nm, nullptr, w, TCL_GLOBAL_ONLY) != nullptr, "writing succeeds"); Tcl_DecrRefCount(w); }
    for (unsigned i = 0; i < n; ++i) VF_ASSERT(v[i] == (i < gone ? (int)i : x + (int)i), "each variable is written through its own name"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// scripts: long text, long result, long error message
static int raw(ClientData, Tcl_Interp* in, int n, Tcl_Obj* const v[]) { ++calls; argcs = (unsigned)n; int k = 0; char* s = Tcl_GetStringFromObj(v[n - 1], &k); gn = (size_t)k; memcpy(ga, s, gn); if (n > 1) Tcl_SetObjResult(in, Tcl_NewStringObj(hb, (int)resn)); return resrc; }
extern "C" void huge_eval() { begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); Tcl_CreateObjCommand(in, "cb", raw, nullptr, nullptr); size_t n = HZ[vf_pick(0, NHZ - 1)], m = vf_pick(0, 1) ? 4 : HZ[vf_pick(0, 5)]; resn = n; bool err = vf_flag(); resrc = err ? TCL_ERROR : TCL_OK; hfill(hb, n, true); for (size_t i = 0; i < m; ++i) hb2[i] = (char)('a' + i % 23); String s("cb x "); s.append(hb2, m); String al(s); String got = si.eval(s); VF_ASSERT(calls == 1 && argcs == 3 && gn == m && !memcmp(ga, hb2, m), "the whole script is run once"); if (!err) VF_ASSERT(hsame(got, hb, n), "the result of the script"); else VF_ASSERT(got.length() >= n && !memcmp(got.data(), hb, n), "the error starts with the message"); VF_ASSERT(s == al && s.length() == m + 5, "the script text is unchanged"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void huge_load() { begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; (void)interp_of(); size_t n = HZ[vf_pick(0, NHZ - 1)]; resn = n; hfill(hb, n); lrc = vf_flag() ? TCL_OK : TCL_ERROR; bool tcl = vf_flag(); size_t m = vf_flag() ? 200 : 250; for (size_t i = 0; i < m; ++i) hb2[i] = (char)('a' + i % 23); memcpy(hb2 + m, tcl ? ".tcl" : ".tcx", 4); m += 4; String name(hb2, m), res("before"); ScriptInterp::LoadError e = si.loadScript(name, res); if (!tcl) VF_ASSERT(e == ScriptInterp::SCRIPT_LOAD_WRONG_INTERP && loads == 0 && same_const(res, "before", 6), "any other name is for another interpreter"); else { VF_ASSERT(loads == 1 && lnl == m && !memcmp(lname, hb2, m), "a .tcl name is loaded once, in full"); if (lrc == TCL_OK) VF_ASSERT(e == ScriptInterp::SCRIPT_LOAD_OK && same_const(res, "before", 6), "success is reported"); else VF_ASSERT(e == ScriptInterp::SCRIPT_LOAD_ERROR && hsame(res, hb, n), "the error is reported with its message"); } VF_ASSERT(hsame(name, hb2, m), "the name is unchanged"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
static ScriptCallbackerPtr held; static void reg(ScriptCallbackerPtr p) { held = p; }
extern "C" void huge_callback() { begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); Tcl_CreateObjCommand(in, "cb", raw, nullptr, nullptr); si.createCommand("reg", reg); Tcl_Obj* w[2] = {cstr_obj("reg"), cstr_obj("cb")}; VF_ASSERT(Tcl_EvalObjv(in, 2, w, TCL_EVAL_GLOBAL) == TCL_OK, "harness"); Tcl_DecrRefCount(w[0]); Tcl_DecrRefCount(w[1]);
    static const unsigned z[] = {1, 9, 300}; unsigned np = z[vf_pick(0, 2)]; size_t n = np > 1 ? 300 : HZ[vf_pick(0, NHZ - 1)]; resn = n; hfill(hb, n); hfill(hb2, n, false, 'A', 23, true); Array<String> p; for (unsigned i = 0; i + 1 < np; ++i) p << String("q r"); p << String(hb2, n); String got = held->call(p); VF_ASSERT(calls == 1 && argcs == np + 1, "the command is called once with its parameters"); VF_ASSERT(gn == n && !memcmp(ga, hb2, n), "every parameter arrives with exactly its bytes"); VF_ASSERT(hsame(got, hb, n), "the result of the command"); held = nullptr; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
