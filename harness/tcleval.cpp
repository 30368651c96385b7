// C25: evaluating scripts, loading script files and calling script callbacks.
#define CAPR 64
#define OWN_EVALFILE
#include "tclh.h"
static unsigned calls; static int argcs; static Ref args[5]; static Ref resv; static int resrc;
static int raw(ClientData, Tcl_Interp* in, int n, Tcl_Obj* const v[]) { ++calls; argcs = n; for (int i = 0; i < n && i < 5; ++i) { int k = 0; char* s = Tcl_GetStringFromObj(v[i], &k); args[i].set(s, (size_t)(k > 63 ? 63 : k)); } Tcl_SetObjResult(in, Tcl_NewStringObj(resv.b, (int)resv.n)); return resrc; }
static bool is(const Ref& a, const char* p, size_t n) { return a.n == n && vf_eq(a.b, p, n); }
static void begin() { tcl_up(); g_nin = 0; calls = 0; argcs = 0; resv.n = 0; resrc = TCL_OK; }
// what a file evaluation does is the environment's business: record the name, set a result
static unsigned loads; static Ref lname; static Tcl_Interp* lin; static int lrc; static Ref lres;
extern "C" int vft_EvalFile(Tcl_Interp* in, const char* f) { ++loads; lin = in; lname.set(f, strlen(f)); Tcl_SetObjResult(in, Tcl_NewStringObj(lres.b, (int)lres.n)); return lrc; }
// a script that calls a command with two words: its result, or the error
extern "C" void eval_result() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); Tcl_CreateObjCommand(in, "cb", raw, nullptr, nullptr); size_t n = vf_pick(0, TIER(5, 8)); vf_bytes(resv.b, n); resv.n = n; bool err = vf_flag(); resrc = err ? TCL_ERROR : TCL_OK; if (err) for (size_t i = 0; i < n; ++i) vf_assume(resv.b[i] != 0);
    String s, al; Ref r, ar; unsigned kind = (unsigned)vf_pick(0, 3); if (kind == 0) s = String("cb a b"); else if (kind == 1) { String x("zz cb a b yy"); s = x.substring(3, 6); } else if (kind == 2) { s = String("set q 1; cb a b"); } else { s = String("# c\ncb a b\n"); } al = s; Ref rs(s.data(), s.length());
    unsigned rep = (unsigned)vf_pick(1, 2); for (unsigned k = 0; k < rep; ++k) { String got = si.eval(s); VF_ASSERT(calls == k + 1 && argcs == 3 && is(args[1], "a", 1) && is(args[2], "b", 1), "the script is run once"); if (!err) VF_ASSERT(same_const(got, resv.b, n), "the result of the script"); else { VF_ASSERT(got.length() >= n && vf_eq(got.data(), resv.b, n), "the error starts with the message"); } }
    VF_ASSERT(same_const(s, rs.b, rs.n) && same_const(al, rs.b, rs.n), "the script text is unchanged"); resrc = TCL_OK; resv.set("ok", 2); String later = si.eval("cb"); VF_ASSERT(same_const(later, "ok", 2), "a later script is not affected by an earlier error"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// any short script text has the effect and the result that the interpreter gives it
extern "C" void eval_text() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); Tcl_CreateObjCommand(in, "c", raw, nullptr, nullptr); resv.set("r", 1); char t[8]; size_t n = vf_pick(0, TIER(3, 4)); bool pre = vf_flag(); size_t k = 0; if (pre) { t[k++] = 'c'; t[k++] = ' '; } vf_bytes(t + k, n); for (size_t i = 0; i < n; ++i) vf_assume(t[k + i] != '\\' && t[k + i] != '(' && (unsigned char)t[k + i] < 0x80); n += k;
    String s(t, n); String got = si.eval(s); unsigned c1 = calls; int a1 = argcs; Ref b1 = args[1], b2 = args[2]; calls = 0; argcs = 0; args[1].n = args[2].n = 0;
    int rc = Tcl_EvalEx(in, t, (int)n, TCL_EVAL_GLOBAL); int len = 0; char* p = Tcl_GetStringFromObj(Tcl_GetObjResult(in), &len); VF_ASSERT(c1 == calls && (calls == 0 || (a1 == argcs && (a1 < 2 || is(b1, args[1].b, args[1].n)) && (a1 < 3 || is(b2, args[2].b, args[2].n)))), "the whole text is evaluated"); if (rc == TCL_OK) { VF_ASSERT(same_const(got, p, (size_t)len), "the result of the script"); vf_reach("ok"); } else { VF_ASSERT(got.length() >= (size_t)len && vf_eq(got.data(), p, (size_t)len), "the error starts with the message"); vf_reach("error"); } }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// file names of any short text, before and instead of .tcl
extern "C" void load_names() {
  begin(); size_t l0 = vf_live(); loads = 0;
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); char t[20]; size_t n = vf_pick(0, TIER(7, 9)); unsigned shape = (unsigned)vf_pick(0, 2); size_t k = 0; if (shape == 0) { vf_nzbytes(t, n); k = n; } else { n = n > 3 ? 3 : n; vf_nzbytes(t, n); k = n; memcpy(t + k, ".tcl", 4); k += 4; if (shape == 2) { size_t m = vf_pick(1, 4); vf_nzbytes(t + k, m); k += m; } }
    bool tcl = k >= 4; if (tcl) tcl = vf_eq(t + k - 4, ".tcl", 4); String x, s; if (vf_flag()) { x = String("/") + String(t, k) + String("zz"); s = x.substring(1, k); } else { s = String(t, k); x = s; } Ref xr(x.data(), x.length());
    lrc = vf_flag() ? TCL_OK : TCL_ERROR; size_t m = vf_pick(0, 2); vf_bytes(lres.b, m); lres.n = m; String res("before"), keep(res); ScriptInterp::LoadError e = si.loadScript(s, res);
    if (!tcl) { VF_ASSERT(e == ScriptInterp::SCRIPT_LOAD_WRONG_INTERP, "any other name is for another interpreter"); VF_ASSERT(loads == 0, "and is not loaded"); VF_ASSERT(same_const(res, "before", 6), "the result text is left alone"); vf_reach("other"); }
    else { VF_ASSERT(loads == 1 && lin == in && is(lname, t, k), "a .tcl name is loaded once, in full"); if (lrc == TCL_OK) VF_ASSERT(e == ScriptInterp::SCRIPT_LOAD_OK && same_const(res, "before", 6), "success is reported"); else VF_ASSERT(e == ScriptInterp::SCRIPT_LOAD_ERROR && same_const(res, lres.b, m), "failure is reported with the error text"); vf_reach("tcl"); }
    VF_ASSERT(same_const(s, t, k) && same_const(x, xr.b, xr.n) && same_const(keep, "before", 6), "the names are unchanged"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// callbacks: every parameter arrives as one word with exactly its bytes
static ScriptCallbackerPtr held; static void reg(ScriptCallbackerPtr p) { held = p; }
extern "C" void callback_params() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); Tcl_CreateObjCommand(in, "cb", raw, nullptr, nullptr); Tcl_SetVar(in, "v", "VAL", TCL_GLOBAL_ONLY); si.createCommand("reg", reg); bool pfx = vf_flag(); Tcl_Obj* w[2] = {cstr_obj("reg"), cstr_obj(pfx ? "cb {a b}" : "cb")}; VF_ASSERT(Tcl_EvalObjv(in, 2, w, TCL_EVAL_GLOBAL) == TCL_OK, "harness"); Tcl_DecrRefCount(w[0]); Tcl_DecrRefCount(w[1]); VF_ASSERT(held.get() != nullptr, "the callback is handed over");
    size_t rn = vf_pick(0, 1); vf_bytes(resv.b, rn); resv.n = rn; unsigned np = (unsigned)vf_pick(0, 3); char t[4][4]; size_t tn[4]; Array<String> p; for (unsigned i = 0; i < np; ++i) { tn[i] = vf_pick(0, np == 1 ? 3 : 1); vf_bytes(t[i], tn[i]); p << String(t[i], tn[i]); }
    String got = np == 0 && vf_flag() ? held->call() : held->call(p); unsigned o = pfx ? 2 : 1; VF_ASSERT(calls == 1 && argcs == (int)(o + np), "the command is called once with its parameters"); VF_ASSERT(!pfx || is(args[1], "a b", 3), "the words of the prefix"); for (unsigned i = 0; i < np; ++i) VF_ASSERT(is(args[o + i], t[i], tn[i]), "each parameter is one word with its bytes"); VF_ASSERT(same_const(got, resv.b, rn), "the result of the command"); VF_ASSERT(p.length() == np, "the parameters are unchanged"); for (unsigned i = 0; i < np; ++i) { const Array<String>& c = p; VF_ASSERT(same_const(c[i], t[i], tn[i]), "the parameters are unchanged"); } if (vf_flag()) { String again = held->call(p); VF_ASSERT(calls == 2 && argcs == (int)(o + np), "it can be called again"); } held = nullptr; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// the callback fails, is deleted, or outlives the call
extern "C" void callback_life() {
  begin(); size_t l0 = vf_live();
  { ScriptInterpTCL si; Tcl_Interp* in = interp_of(); Tcl_CreateObjCommand(in, "cb", raw, nullptr, nullptr); si.createCommand("reg", reg); Tcl_Obj* w[2] = {cstr_obj("reg"), cstr_obj("cb")}; Tcl_EvalObjv(in, 2, w, TCL_EVAL_GLOBAL); Tcl_DecrRefCount(w[0]); Tcl_DecrRefCount(w[1]); ScriptCallbackerPtr c = held; held = nullptr; unsigned ex = 0; bool gone = false; for (unsigned st = 0; st < 3; ++st) switch (vf_pick(0, 3)) {
      case 0: { resrc = TCL_OK; resv.set("fine", 4); Array<String> p; p << String("x"); String g = c->call(p); if (!gone) { ++ex; VF_ASSERT(same_const(g, "fine", 4), "the result of the command"); } else VF_ASSERT(g.length() > 0, "a missing command is an error"); break; }
      case 1: { resrc = TCL_ERROR; resv.set("oops", 4); String g = c->call(); if (!gone) { ++ex; VF_ASSERT(g.length() >= 4 && vf_eq(g.data(), "oops", 4), "the error starts with the message"); } else VF_ASSERT(g.length() > 0, "a missing command is an error"); break; }
      case 2: Tcl_DeleteCommand(in, "cb"); gone = true; break;
      default: Tcl_CreateObjCommand(in, "cb", raw, nullptr, nullptr); gone = false; si.deleteCommand("reg"); break; }
    VF_ASSERT(calls == ex, "the command is called exactly when it is asked for"); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
