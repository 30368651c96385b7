// Shared by the Tcl harnesses.  Only the public Tcl API is used, so that the same harness runs on the Tcl model (symbolically and natively) and on the real libtcl (replay).
#pragma once
#include "hs.h"
#include "ScriptInterpTCL.h"
using namespace bd;
static Tcl_Interp* g_in[4]; static unsigned g_nin;
extern "C" void vft_interp(Tcl_Interp* i) { if (g_nin && g_in[g_nin - 1] == i) return; if (g_nin < 4) g_in[g_nin++] = i; }
extern "C" Tcl_Interp* vft_CreateInterp() { Tcl_Interp* i = Tcl_CreateInterp(); vft_interp(i); return i; }
#ifndef OWN_EVALFILE
extern "C" int vft_EvalFile(Tcl_Interp*, const char*) { return TCL_ERROR; }
#endif
static inline Tcl_Interp* interp_of(unsigned k = 0) { if (k >= g_nin) vf_giveup("the interpreter was not created through Tcl_CreateInterp()"); return g_in[k]; }
static inline void tcl_up() { Tcl_FindExecutable(nullptr); }   // as main() of a Tcl application
static inline Tcl_Obj* str_obj(const char* p, size_t n) { Tcl_Obj* o = Tcl_NewStringObj(p, (int)n); Tcl_IncrRefCount(o); return o; }
static inline Tcl_Obj* cstr_obj(const char* p) { Tcl_Obj* o = Tcl_NewStringObj(p, -1); Tcl_IncrRefCount(o); return o; }
static inline bool obj_is(Tcl_Obj* o, const char* p, size_t n) { int len = -1; char* s = Tcl_GetStringFromObj(o, &len); return len == (int)n && vf_eq(s, p, n); }
static inline bool obj_str(Tcl_Obj* o, const char* p) { size_t n = 0; while (p[n]) ++n; return obj_is(o, p, n); }
static inline uint64_t bits(double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); return v; }
static inline double dbl(uint64_t v) { double d; __builtin_memcpy(&d, &v, 8); return d; }
// sign and magnitude of an integer object below 2^64; false when it is not one
static inline bool int_obj(Tcl_Obj* o, bool& neg, uint64_t& mag) { Tcl_WideInt w = 0; double d = 0; if (Tcl_GetWideIntFromObj(nullptr, o, &w) != TCL_OK) return false; Tcl_GetDoubleFromObj(nullptr, o, &d); neg = d < 0; mag = neg ? 0 - (uint64_t)w : (uint64_t)w; return true; }
