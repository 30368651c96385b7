// Model of the part of the Tcl 8.6 C API that bdlib reaches, over the real Tcl_Obj layout of tcl.h.  Linked as bitcode for symbolic execution
// (and natively for replay, next to a second replay binary that uses the real libtcl8.6, against which sampled paths are validated).
#include <tcl.h>
#include <stdint.h>
#undef TclFreeObj
#undef Tcl_CreateInterp
#undef Tcl_CreateObjCommand
#undef Tcl_DeleteCommand
#undef Tcl_DeleteCommandFromToken
#undef Tcl_DeleteInterp
#undef Tcl_DuplicateObj
#undef Tcl_Eval
#undef Tcl_EvalEx
#undef Tcl_EvalObjEx
#undef Tcl_EvalObjv
#undef Tcl_GetBooleanFromObj
#undef Tcl_GetCommandInfo
#undef Tcl_GetDoubleFromObj
#undef Tcl_GetIntFromObj
#undef Tcl_GetLongFromObj
#undef Tcl_GetObjResult
#undef Tcl_GetString
#undef Tcl_GetStringFromObj
#undef Tcl_GetStringResult
#undef Tcl_GetVar
#undef Tcl_GetVar2
#undef Tcl_GetVar2Ex
#undef Tcl_GetWideIntFromObj
#undef Tcl_Init
#undef Tcl_FindExecutable
#undef Tcl_InterpDeleted
#undef Tcl_ListObjAppendElement
#undef Tcl_ListObjGetElements
#undef Tcl_ListObjIndex
#undef Tcl_ListObjLength
#undef Tcl_NewBooleanObj
#undef Tcl_NewDoubleObj
#undef Tcl_NewIntObj
#undef Tcl_NewListObj
#undef Tcl_NewLongObj
#undef Tcl_NewObj
#undef Tcl_NewStringObj
#undef Tcl_NewWideIntObj
#undef Tcl_ObjGetVar2
#undef Tcl_ObjPrintf
#undef Tcl_ObjSetVar2
#undef Tcl_ResetResult
#undef Tcl_SetObjResult
#undef Tcl_SetVar
#undef Tcl_SetVar2
#undef Tcl_SetVar2Ex
#undef Tcl_TraceVar
#undef Tcl_TraceVar2
#undef Tcl_UnsetVar
#undef Tcl_UnsetVar2
#undef Tcl_UntraceVar
#undef Tcl_UntraceVar2
#undef Tcl_UpVar
#undef Tcl_UpVar2
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
extern "C" { void* malloc(size_t); void free(void*); void vf_giveup(const char*); int vf_is_engine(void); bool vf_const_bytes(void*, size_t); uint64_t vf_conc(uint64_t); void vft_interp(Tcl_Interp*); }
typedef uint64_t u64;
static const Tcl_ObjType T_int = {"int"}, T_big = {"bignum"}, T_dbl = {"double"}, T_list = {"list"};
struct L { int n, cap; Tcl_Obj* e[1]; };
static size_t slen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
static char* dupn(const char* s, size_t n) { char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; return p; }
static bool seq(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
static const char* strip(const char* n) { return n[0] == ':' && n[1] == ':' ? n + 2 : n; }
static Tcl_Obj* mk() { Tcl_Obj* o = (Tcl_Obj*)malloc(sizeof(Tcl_Obj)); o->refCount = 0; o->bytes = nullptr; o->length = 0; o->typePtr = nullptr; o->internalRep.twoPtrValue.ptr1 = o->internalRep.twoPtrValue.ptr2 = nullptr; return o; }
static L* lst(Tcl_Obj* o) { return (L*)o->internalRep.twoPtrValue.ptr1; }
static L* lnew(int cap) { L* l = (L*)malloc(sizeof(L) + sizeof(Tcl_Obj*) * (cap > 0 ? cap : 1)); l->n = 0; l->cap = cap > 0 ? cap : 1; return l; }
static void dropl(L* l) { for (int i = 0; i < l->n; ++i) Tcl_DecrRefCount(l->e[i]); free(l); }
static L* ladd(L* l, Tcl_Obj* e) { if (l->n == l->cap) { L* m = lnew(l->cap * 2); for (int i = 0; i < l->n; ++i) m->e[i] = l->e[i]; m->n = l->n; free(l); l = m; } Tcl_IncrRefCount(e); l->e[l->n++] = e; return l; }
struct Buf { char loc[1024]; char* b = loc; int n = 0, cap = 1024; Buf() {} Buf(const Buf&) = delete; ~Buf() { if (b != loc) free(b); }
  void c(char x) { if (n + 1 >= cap) { char* m = (char*)malloc((size_t)cap * 4); for (int i = 0; i < n; ++i) m[i] = b[i]; if (b != loc) free(b); b = m; cap *= 4; } b[n++] = x; } void s(const char* x) { while (*x) c(*x++); } };
static void setResult(Tcl_Interp* i, const char* m);
static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }

extern "C" {
void TclFreeObj(Tcl_Obj* o) { if (o->typePtr == &T_list) dropl(lst(o)); if (o->bytes) free(o->bytes); free(o); }
Tcl_Obj* Tcl_NewObj(void) { Tcl_Obj* o = mk(); o->bytes = dupn("", 0); return o; }
Tcl_Obj* Tcl_NewStringObj(const char* s, int n) { Tcl_Obj* o = mk(); size_t k = n < 0 ? slen(s) : (size_t)n; o->bytes = dupn(s, k); o->length = (int)k; return o; }
Tcl_Obj* Tcl_NewWideIntObj(Tcl_WideInt v) { Tcl_Obj* o = mk(); o->typePtr = &T_int; o->internalRep.wideValue = v; return o; }
Tcl_Obj* Tcl_NewLongObj(long v) { return Tcl_NewWideIntObj(v); }
Tcl_Obj* Tcl_NewIntObj(int v) { return Tcl_NewWideIntObj(v); }
Tcl_Obj* Tcl_NewBooleanObj(int v) { return Tcl_NewWideIntObj(v != 0); }
Tcl_Obj* Tcl_NewDoubleObj(double v) { Tcl_Obj* o = mk(); o->typePtr = &T_dbl; o->internalRep.doubleValue = v; return o; }
Tcl_Obj* Tcl_NewListObj(int n, Tcl_Obj* const v[]) { Tcl_Obj* o = mk(); o->typePtr = &T_list; L* l = lnew(n); if (v) for (int i = 0; i < n; ++i) l = ladd(l, v[i]); o->internalRep.twoPtrValue.ptr1 = l; if (n <= 0) o->bytes = dupn("", 0); return o; }
}
static Tcl_Obj* newMag(bool neg, u64 mag, bool huge) { if (!huge && (neg ? mag <= (1ull << 63) : mag < (1ull << 63))) return Tcl_NewWideIntObj((Tcl_WideInt)(neg ? 0 - mag : mag)); Tcl_Obj* o = mk(); o->typePtr = &T_big; o->internalRep.ptrAndLongRep.ptr = (void*)(u64)((neg ? 1 : 0) | (huge ? 2 : 0)); o->internalRep.ptrAndLongRep.value = mag; return o; }
static void putNum(Buf& b, bool neg, u64 mag) {
  if (neg) b.c('-');
  if (vf_is_engine() && !vf_const_bytes(&mag, 8)) { b.s("0x"); for (int i = 60; i >= 0; i -= 4) { unsigned d = (mag >> i) & 15; b.c((char)(d < 10 ? '0' + d : 'a' + d - 10)); } return; }   // an equal literal that needs no division
  char t[24]; int k = 0; do { t[k++] = (char)('0' + mag % 10); mag /= 10; } while (mag); while (k) b.c(t[--k]);
}
static bool special(char c) { return space(c) || c == '{' || c == '}' || c == '[' || c == ']' || c == '$' || c == '"' || c == '\\' || c == ';'; }
static void quote(Buf& b, const char* s, int n, bool first) {
  if (n == 0) { b.s("{}"); return; }
  for (int i = 0; i < n; ++i) { char c = s[i]; if (c == '\n') { b.s("\\n"); continue; } if (c == '\t') { b.s("\\t"); continue; } if (c == '\r') { b.s("\\r"); continue; } if (c == '\v') { b.s("\\v"); continue; } if (c == '\f') { b.s("\\f"); continue; } if (special(c) || (first && i == 0 && c == '#')) b.c('\\'); b.c(c); }
}
static void upd(Tcl_Obj* o) {
  if (o->bytes) return;
  Buf b;
  if (o->typePtr == &T_int) { long v = (long)o->internalRep.wideValue; bool neg = vf_conc(v < 0) != 0; putNum(b, neg, neg ? 0 - (u64)v : (u64)v); }
  else if (o->typePtr == &T_big) { u64 f = (u64)o->internalRep.ptrAndLongRep.ptr; if (f & 2) vf_giveup("text of an integer beyond 2^64"); putNum(b, f & 1, o->internalRep.ptrAndLongRep.value); }
  else if (o->typePtr == &T_dbl) { b.s("\1D"); u64 v; __builtin_memcpy(&v, &o->internalRep.doubleValue, 8); for (int i = 60; i >= 0; i -= 4) { unsigned d = (v >> i) & 15; b.c((char)(d < 10 ? '0' + d : 'a' + d - 10)); } }   // stands for the shortest text that reads back as the same double
  else if (o->typePtr == &T_list) { L* l = lst(o); for (int i = 0; i < l->n; ++i) { if (i) b.c(' '); upd(l->e[i]); quote(b, l->e[i]->bytes, l->e[i]->length, i == 0); } }
  o->bytes = dupn(b.b, b.n); o->length = b.n;
}
struct Num { int kind; bool neg, huge; u64 mag; double d; };   // kind 0 none, 1 integer, 2 double
static int hexd(char c) { unsigned d = (unsigned char)(c - '0'), l = (unsigned char)((c | 32) - 'a'); unsigned r = 99; r = l < 6 ? l + 10 : r; r = d < 10 ? d : r; return (int)r; }
static Num parseNum(const char* s, int n) {
  Num r = {0, false, false, 0, 0};
  if (n == 18 && s[0] == 1 && s[1] == 'D') { u64 v = 0; for (int i = 2; i < 18; ++i) v = v << 4 | (u64)hexd(s[i]); r.kind = 2; __builtin_memcpy(&r.d, &v, 8); return r; }
  int i = 0; while (i < n && space(s[i])) ++i; while (n > i && space(s[n - 1])) --n;
  if (i < n && (s[i] == '-' || s[i] == '+')) { r.neg = s[i] == '-'; ++i; }
  unsigned base = 10; if (i + 1 < n && s[i] == '0') { char c = s[i + 1]; if (c == 'x' || c == 'X') { base = 16; i += 2; } else if (c == 'b' || c == 'B') { base = 2; i += 2; } else if (c == 'o' || c == 'O') { base = 8; i += 2; } else if (c >= '0' && c <= '9') { base = 8; ++i; } }
  if (i >= n) return r;
  for (; i < n; ++i) { int d = hexd(s[i]); if ((unsigned)d >= base) { if (base == 10 && (s[i] == '.' || s[i] == 'e' || s[i] == 'E')) vf_giveup("decimal fraction in the Tcl model"); if (base == 10 && (s[i] == 'i' || s[i] == 'I' || s[i] == 'n' || s[i] == 'N') && n - i >= 3) vf_giveup("inf or nan in the Tcl model"); return r; }
    if (base == 16) { if (r.mag >> 60) r.huge = true; r.mag = r.mag << 4 | (u64)d; } else { if (r.mag > 0x1000000000000000ull) vf_giveup("long decimal literal in the Tcl model"); r.mag = r.mag * base + (u64)d; } }
  r.kind = 1; return r;
}
static Num num(Tcl_Obj* o) {
  Num r = {0, false, false, 0, 0};
  if (o->typePtr == &T_int) { long v = (long)o->internalRep.wideValue; r.kind = 1; r.neg = vf_conc(v < 0) != 0; r.mag = r.neg ? 0 - (u64)v : (u64)v; return r; }
  if (o->typePtr == &T_big) { u64 f = (u64)o->internalRep.ptrAndLongRep.ptr; r.kind = 1; r.neg = f & 1; r.huge = (f & 2) != 0; r.mag = o->internalRep.ptrAndLongRep.value; return r; }
  if (o->typePtr == &T_dbl) { r.kind = 2; r.d = o->internalRep.doubleValue; return r; }
  upd(o); return parseNum(o->bytes, o->length);
}
static double todbl(const Num& v) {
  u64 b = 0;
  if (v.huge) b = (u64)(1023 + 64) << 52;
  else if (v.mag) { u64 m = v.mag, e = 63; for (unsigned k = 32; k; k >>= 1) { u64 z = 0 - (u64)((m >> (64 - k)) == 0); m = (m & ~z) | ((m << k) & z); e -= k & z; } b = (1023 + e) << 52 | (m << 1) >> 12; }   // exact up to 2^53, otherwise rounded towards zero
  if (v.neg && b) b |= 1ull << 63;
  double d; __builtin_memcpy(&d, &b, 8); return d;
}
static int noInt(Tcl_Interp* i) { if (i) setResult(i, "expected integer"); return TCL_ERROR; }
static bool word(const char* s, int n, const char* w, int min) { if (n < min) return false; for (int i = 0; i < n; ++i) { char c = s[i]; if (c >= 'A' && c <= 'Z') c = (char)(c + 32); if (!w[i] || c != w[i]) return false; } return true; }
// Tcl list / word syntax.  Backslash sequences other than the single characters below are not modelled.
static char bs(char c) { switch (c) { case 'n': return '\n'; case 't': return '\t'; case 'r': return '\r'; case 'v': return '\v'; case 'f': return '\f'; case 'a': return 7; case 'b': return 8; } if (c == '\n' || c == 'x' || c == 'u' || c == 'U' || (c >= '0' && c <= '7') || (unsigned char)c >= 0x80) vf_giveup("backslash sequence in the Tcl model"); return c; }
static L* parseList(const char* s, int n) {
  L* l = lnew(2); int i = 0;
  for (;;) {
    while (i < n && space(s[i])) ++i;
    if (i >= n) return l;
    Buf b; bool bad = false;
    if (s[i] == '{') { int d = 1; ++i; for (; i < n; ++i) { if (s[i] == '\\' && i + 1 < n) { b.c(s[i]); ++i; b.c(s[i]); continue; } if (s[i] == '{') ++d; if (s[i] == '}' && --d == 0) break; b.c(s[i]); } if (i >= n) bad = true; else { ++i; if (i < n && !space(s[i])) bad = true; } }
    else if (s[i] == '"') { ++i; for (; i < n && s[i] != '"'; ++i) { if (s[i] == '\\' && i + 1 < n) { ++i; b.c(bs(s[i])); } else b.c(s[i]); } if (i >= n) bad = true; else { ++i; if (i < n && !space(s[i])) bad = true; } }
    else for (; i < n && !space(s[i]); ++i) { if (s[i] == '\\' && i + 1 < n) { ++i; b.c(bs(s[i])); } else b.c(s[i]); }
    if (bad) { dropl(l); return nullptr; }
    l = ladd(l, Tcl_NewStringObj(b.b, b.n));
  }
}
static bool toList(Tcl_Interp* in, Tcl_Obj* o) { if (o->typePtr == &T_list) return true; upd(o); L* l = parseList(o->bytes, o->length); if (!l) { if (in) setResult(in, "unmatched open brace in list"); return false; } o->typePtr = &T_list; o->internalRep.twoPtrValue.ptr1 = l; return true; }

extern "C" {
char* Tcl_GetStringFromObj(Tcl_Obj* o, int* len) { upd(o); if (len) *len = o->length; return o->bytes; }
char* Tcl_GetString(Tcl_Obj* o) { upd(o); return o->bytes; }
int Tcl_GetLongFromObj(Tcl_Interp* i, Tcl_Obj* o, long* p) { Num v = num(o); if (v.kind != 1 || v.huge) return noInt(i); *p = (long)(v.neg ? 0 - v.mag : v.mag); return TCL_OK; }
int Tcl_GetWideIntFromObj(Tcl_Interp* i, Tcl_Obj* o, Tcl_WideInt* p) { long v; if (Tcl_GetLongFromObj(i, o, &v) != TCL_OK) return TCL_ERROR; *p = v; return TCL_OK; }
int Tcl_GetIntFromObj(Tcl_Interp* i, Tcl_Obj* o, int* p) { Num v = num(o); if (v.kind != 1 || v.huge || v.mag > 0xffffffffull) return noInt(i); *p = (int)(long)(v.neg ? 0 - v.mag : v.mag); return TCL_OK; }
int Tcl_GetDoubleFromObj(Tcl_Interp* i, Tcl_Obj* o, double* p) { Num v = num(o); if (v.kind == 0) { if (i) setResult(i, "expected floating-point number"); return TCL_ERROR; } *p = v.kind == 2 ? v.d : todbl(v); return TCL_OK; }
int Tcl_GetBooleanFromObj(Tcl_Interp* i, Tcl_Obj* o, int* p) {
  Num v = num(o);
  if (v.kind == 1) { *p = v.huge || v.mag != 0; return TCL_OK; }
  if (v.kind == 2) { *p = v.d != 0.0; return TCL_OK; }
  upd(o); const char* s = o->bytes; int n = o->length;
  if (word(s, n, "yes", 1) || word(s, n, "true", 1) || word(s, n, "on", 2)) { *p = 1; return TCL_OK; }
  if (word(s, n, "no", 1) || word(s, n, "false", 1) || word(s, n, "off", 2)) { *p = 0; return TCL_OK; }
  if (i) setResult(i, "expected boolean value"); return TCL_ERROR;
}
Tcl_Obj* Tcl_DuplicateObj(Tcl_Obj* o) { Tcl_Obj* d; if (o->typePtr == &T_list) d = Tcl_NewListObj(lst(o)->n, lst(o)->e); else if (o->typePtr) { d = mk(); d->typePtr = o->typePtr; d->internalRep = o->internalRep; } else d = mk(); if (o->bytes) { if (d->bytes) free(d->bytes); d->bytes = dupn(o->bytes, o->length); d->length = o->length; } return d; }
int Tcl_ListObjAppendElement(Tcl_Interp* i, Tcl_Obj* o, Tcl_Obj* e) { if (o->refCount > 1) vf_giveup("Tcl panics: appending to a shared list"); if (!toList(i, o)) return TCL_ERROR; o->internalRep.twoPtrValue.ptr1 = ladd(lst(o), e); if (o->bytes) { free(o->bytes); o->bytes = nullptr; } return TCL_OK; }
int Tcl_ListObjGetElements(Tcl_Interp* i, Tcl_Obj* o, int* n, Tcl_Obj*** v) { if (!toList(i, o)) return TCL_ERROR; *n = lst(o)->n; *v = lst(o)->e; return TCL_OK; }
int Tcl_ListObjLength(Tcl_Interp* i, Tcl_Obj* o, int* n) { if (!toList(i, o)) return TCL_ERROR; *n = lst(o)->n; return TCL_OK; }
int Tcl_ListObjIndex(Tcl_Interp* i, Tcl_Obj* o, int k, Tcl_Obj** e) { if (!toList(i, o)) return TCL_ERROR; *e = k >= 0 && k < lst(o)->n ? lst(o)->e[k] : nullptr; return TCL_OK; }
Tcl_Obj* Tcl_ObjPrintf(const char* f, ...) {
  va_list ap; va_start(ap, f); Tcl_Obj* o;
  if (seq(f, "%lu") || seq(f, "%llu") || seq(f, "%" "zu")) { u64 v = va_arg(ap, unsigned long); o = newMag(false, v, false); }
  else if (seq(f, "%ld") || seq(f, "%lld")) { long v = va_arg(ap, long); o = Tcl_NewWideIntObj(v); }
  else if (seq(f, "%u")) { unsigned v = va_arg(ap, unsigned); o = Tcl_NewWideIntObj(v); }
  else if (seq(f, "%d")) { int v = va_arg(ap, int); o = Tcl_NewWideIntObj(v); }
  else { vf_giveup("format in the Tcl model"); o = nullptr; }
  va_end(ap); return o;
}
}

// ---- interpreter: result, commands, variables
struct Cmd { char* name; Tcl_ObjCmdProc* proc; ClientData cd; Tcl_CmdDeleteProc* del; int refs; bool gone; Cmd* next; };
struct Trace { int flags; Tcl_VarTraceProc* proc; ClientData cd; bool dead; Trace* next; };
struct Var { char* name; Tcl_Obj* value; Trace* traces; Var* link; bool active; Var* next; };
struct In { Tcl_Obj* result; Cmd* cmds; Var* vars; bool deleted; };
static In* I(Tcl_Interp* i) { return (In*)i; }
static void setObjResult(In* i, Tcl_Obj* o) { Tcl_IncrRefCount(o); Tcl_Obj* old = i->result; i->result = o; if (old) Tcl_DecrRefCount(old); }
static void setResult(Tcl_Interp* i, const char* m) { setObjResult(I(i), Tcl_NewStringObj(m, -1)); }
static Var* var(In* i, const char* n, bool make) { n = strip(n); for (Var* v = i->vars; v; v = v->next) if (seq(v->name, n)) { while (v->link) v = v->link; return v; } if (!make) return nullptr; Var* v = (Var*)malloc(sizeof(Var)); v->name = dupn(n, slen(n)); v->value = nullptr; v->traces = nullptr; v->link = nullptr; v->active = false; v->next = i->vars; i->vars = v; return v; }
// an element of an array is kept under its whole name, "a(i)"
struct Flat { char* p; Flat(const char* a, const char* b) { if (!b) { p = dupn(a, slen(a)); return; } size_t n = slen(a), m = slen(b); p = (char*)malloc(n + m + 3); for (size_t i = 0; i < n; ++i) p[i] = a[i]; p[n] = '('; for (size_t i = 0; i < m; ++i) p[n + 1 + i] = b[i]; p[n + m + 1] = ')'; p[n + m + 2] = 0; } ~Flat() { free(p); } };
static size_t paren(const char* n) { size_t k = slen(n); if (!k || n[k - 1] != ')') return 0; for (size_t i = 0; i < k; ++i) if (n[i] == '(') return i; return 0; }
static bool prefix(const char* a, const char* n, size_t k) { for (size_t i = 0; i < k; ++i) if (a[i] != n[i]) return false; return true; }
// a name cannot be both an array and a scalar
static bool clash(In* i, const char* n) { n = strip(n); size_t q = paren(n), k = q ? q : slen(n); for (Var* v = i->vars; v; v = v->next) { size_t m = slen(v->name); if (q ? m == k && v->value && prefix(v->name, n, k) : m > k && v->name[k] == '(' && paren(v->name) == k && (v->value || v->traces) && prefix(v->name, n, k)) return true; } return false; }
static void sweep(Var* v) { Trace** p = &v->traces; while (*p) { Trace* t = *p; if (t->dead) { *p = t->next; free(t); } else p = &t->next; } }
static const char* fire(In* i, Var* v, const char* n1, int op, int flags) {
  if (v->active) return nullptr;
  v->active = true; const char* err = nullptr; char* name = dupn(n1, slen(n1)); char* idx = nullptr; if (size_t q = paren(name)) { size_t k = slen(name); idx = name + q + 1; name[q] = 0; name[k - 1] = 0; }
  for (Trace* t = v->traces; t && !err; t = t->next) if (!t->dead && (t->flags & op)) err = t->proc(t->cd, (Tcl_Interp*)i, name, idx, op | (flags & (TCL_GLOBAL_ONLY | TCL_NAMESPACE_ONLY)));
  v->active = false; sweep(v);
  const char* r = nullptr; if (err) { Buf b; b.s(op == TCL_TRACE_READS ? "can't read \"" : "can't set \""); b.s(n1); b.s("\": "); b.s(err); b.c(0); setResult((Tcl_Interp*)i, b.b); r = "error"; }
  free(name); return r;
}
static void unset(In* i, Var* v) { if (v->value) { Tcl_Obj* o = v->value; v->value = nullptr; Tcl_DecrRefCount(o); } for (Trace* t = v->traces; t; t = t->next) t->dead = true; if (!v->active) sweep(v); }
static void decCmd(Cmd* c) { if (--c->refs == 0) { free(c->name); free(c); } }
static void delCmd(In* i, Cmd* c) { if (c->gone) return; c->gone = true; for (Cmd** p = &i->cmds; *p; p = &(*p)->next) if (*p == c) { *p = c->next; break; } if (c->del) c->del(c->cd); decCmd(c); }
static Cmd* find(In* i, const char* n) { n = strip(n); for (Cmd* c = i->cmds; c; c = c->next) if (seq(c->name, n)) return c; return nullptr; }
static int evalText(In* i, const char* s, int n, int& pos, bool nested, int depth);
extern "C" {
Tcl_Interp* Tcl_CreateInterp(void) { In* i = (In*)malloc(sizeof(In)); i->result = nullptr; i->cmds = nullptr; i->vars = nullptr; i->deleted = false; setResult((Tcl_Interp*)i, ""); vft_interp((Tcl_Interp*)i); return (Tcl_Interp*)i; }
void Tcl_FindExecutable(const char*) {}
int Tcl_Init(Tcl_Interp*) { return TCL_OK; }
int Tcl_InterpDeleted(Tcl_Interp* i) { return I(i)->deleted; }
void Tcl_DeleteInterp(Tcl_Interp* ip) { In* i = I(ip); i->deleted = true; while (i->cmds) delCmd(i, i->cmds); while (i->vars) { Var* v = i->vars; unset(i, v); i->vars = v->next; free(v->name); free(v); } Tcl_DecrRefCount(i->result); free(i); }
void Tcl_SetObjResult(Tcl_Interp* i, Tcl_Obj* o) { setObjResult(I(i), o); }
Tcl_Obj* Tcl_GetObjResult(Tcl_Interp* i) { return I(i)->result; }
const char* Tcl_GetStringResult(Tcl_Interp* i) { return Tcl_GetString(I(i)->result); }
void Tcl_ResetResult(Tcl_Interp* i) { setResult(i, ""); }
Tcl_Command Tcl_CreateObjCommand(Tcl_Interp* ip, const char* name, Tcl_ObjCmdProc* proc, ClientData cd, Tcl_CmdDeleteProc* del) { In* i = I(ip); if (i->deleted) return nullptr; if (Cmd* o = find(i, name)) delCmd(i, o); name = strip(name); Cmd* c = (Cmd*)malloc(sizeof(Cmd)); c->name = dupn(name, slen(name)); c->proc = proc; c->cd = cd; c->del = del; c->refs = 1; c->gone = false; c->next = i->cmds; i->cmds = c; return (Tcl_Command)c; }
int Tcl_DeleteCommandFromToken(Tcl_Interp* i, Tcl_Command t) { delCmd(I(i), (Cmd*)t); return 0; }
int Tcl_DeleteCommand(Tcl_Interp* i, const char* n) { Cmd* c = find(I(i), n); if (!c) return -1; delCmd(I(i), c); return 0; }
int Tcl_GetCommandInfo(Tcl_Interp* i, const char* n, Tcl_CmdInfo* inf) { Cmd* c = find(I(i), n); if (!c) return 0; inf->isNativeObjectProc = 1; inf->objProc = c->proc; inf->objClientData = c->cd; inf->deleteProc = c->del; inf->deleteData = c->cd; inf->proc = nullptr; inf->clientData = nullptr; inf->namespacePtr = nullptr; return 1; }
Tcl_Obj* Tcl_SetVar2Ex(Tcl_Interp* ip, const char* n1, const char* n2, Tcl_Obj* o, int flags) {
  if (flags & (TCL_APPEND_VALUE | TCL_LIST_ELEMENT)) vf_giveup("appending in the Tcl model");
  if (n2) { Flat f(n1, n2); return Tcl_SetVar2Ex(ip, f.p, nullptr, o, flags); }
  In* i = I(ip); if (clash(i, n1)) { if (flags & TCL_LEAVE_ERR_MSG) setResult(ip, "can't set: array and scalar"); if (o->refCount < 1) { Tcl_IncrRefCount(o); Tcl_DecrRefCount(o); } return nullptr; }
  Var* v = var(i, n1, true); Tcl_IncrRefCount(o); Tcl_Obj* old = v->value; v->value = o; if (old) Tcl_DecrRefCount(old);
  if (fire(i, v, n1, TCL_TRACE_WRITES, flags)) { if (!(flags & TCL_LEAVE_ERR_MSG)) setResult(ip, ""); return nullptr; }
  if (!v->value) v->value = Tcl_NewObj(), Tcl_IncrRefCount(v->value);
  return v->value;
}
Tcl_Obj* Tcl_ObjSetVar2(Tcl_Interp* i, Tcl_Obj* a, Tcl_Obj* b, Tcl_Obj* o, int flags) { return Tcl_SetVar2Ex(i, Tcl_GetString(a), b ? Tcl_GetString(b) : nullptr, o, flags); }
const char* Tcl_SetVar2(Tcl_Interp* i, const char* n1, const char* n2, const char* s, int flags) { Tcl_Obj* o = Tcl_NewStringObj(s, -1); Tcl_Obj* r = Tcl_SetVar2Ex(i, n1, n2, o, flags); return r ? Tcl_GetString(r) : nullptr; }
const char* Tcl_SetVar(Tcl_Interp* i, const char* n1, const char* s, int flags) { return Tcl_SetVar2(i, n1, nullptr, s, flags); }
Tcl_Obj* Tcl_GetVar2Ex(Tcl_Interp* ip, const char* n1, const char* n2, int flags) {
  if (n2) { Flat f(n1, n2); return Tcl_GetVar2Ex(ip, f.p, nullptr, flags); }
  In* i = I(ip); Var* v = var(i, n1, false); if (v && fire(i, v, n1, TCL_TRACE_READS, flags)) return nullptr;
  if (!v || !v->value) { if (flags & TCL_LEAVE_ERR_MSG) { Buf b; b.s("can't read \""); b.s(n1); b.s("\": no such variable"); b.c(0); setResult(ip, b.b); } return nullptr; }
  return v->value;
}
Tcl_Obj* Tcl_ObjGetVar2(Tcl_Interp* i, Tcl_Obj* a, Tcl_Obj* b, int flags) { return Tcl_GetVar2Ex(i, Tcl_GetString(a), b ? Tcl_GetString(b) : nullptr, flags); }
const char* Tcl_GetVar2(Tcl_Interp* i, const char* n1, const char* n2, int flags) { Tcl_Obj* o = Tcl_GetVar2Ex(i, n1, n2, flags); return o ? Tcl_GetString(o) : nullptr; }
const char* Tcl_GetVar(Tcl_Interp* i, const char* n1, int flags) { return Tcl_GetVar2(i, n1, nullptr, flags); }
int Tcl_UnsetVar2(Tcl_Interp* ip, const char* n1, const char* n2, int fl) { if (n2) { Flat f(n1, n2); return Tcl_UnsetVar2(ip, f.p, nullptr, fl); } if (clash(I(ip), n1)) { if (paren(n1)) return TCL_ERROR; vf_giveup("unsetting a whole array in the Tcl model"); } Var* v = var(I(ip), n1, false); if (!v) return TCL_ERROR; bool had = v->value != nullptr; unset(I(ip), v); return had ? TCL_OK : TCL_ERROR; }
int Tcl_UnsetVar(Tcl_Interp* i, const char* n1, int flags) { return Tcl_UnsetVar2(i, n1, nullptr, flags); }
int Tcl_TraceVar2(Tcl_Interp* i, const char* n1, const char* n2, int flags, Tcl_VarTraceProc* p, ClientData cd) { if (n2) { Flat f(n1, n2); return Tcl_TraceVar2(i, f.p, nullptr, flags, p, cd); } if (clash(I(i), n1)) { if (paren(n1)) return TCL_ERROR; vf_giveup("tracing a whole array in the Tcl model"); } Var* v = var(I(i), n1, true); Trace* t = (Trace*)malloc(sizeof(Trace)); t->flags = flags; t->proc = p; t->cd = cd; t->dead = false; t->next = v->traces; v->traces = t; return TCL_OK; }
int Tcl_TraceVar(Tcl_Interp* i, const char* n1, int flags, Tcl_VarTraceProc* p, ClientData cd) { return Tcl_TraceVar2(i, n1, nullptr, flags, p, cd); }
void Tcl_UntraceVar2(Tcl_Interp* i, const char* n1, const char* n2, int flags, Tcl_VarTraceProc* p, ClientData cd) { if (n2) { Flat f(n1, n2); Tcl_UntraceVar2(i, f.p, nullptr, flags, p, cd); return; } Var* v = var(I(i), n1, false); if (!v) return; int m = TCL_TRACE_READS | TCL_TRACE_WRITES | TCL_TRACE_UNSETS | TCL_TRACE_ARRAY; for (Trace* t = v->traces; t; t = t->next) if (!t->dead && t->proc == p && t->cd == cd && (t->flags & m) == (flags & m)) { t->dead = true; break; } if (!v->active) sweep(v); }
void Tcl_UntraceVar(Tcl_Interp* i, const char* n1, int flags, Tcl_VarTraceProc* p, ClientData cd) { Tcl_UntraceVar2(i, n1, nullptr, flags, p, cd); }
int Tcl_UpVar2(Tcl_Interp* ip, const char*, const char* n, const char* n2, const char* local, int) { Flat fl(n, n2); n = fl.p; In* i = I(ip); Var* v = var(i, n, true); Var* w = (Var*)malloc(sizeof(Var)); w->name = dupn(local, slen(local)); w->value = nullptr; w->traces = nullptr; w->link = v; w->active = false; w->next = i->vars; i->vars = w; return TCL_OK; }
int Tcl_UpVar(Tcl_Interp* ip, const char* f, const char* n, const char* local, int fl) { return Tcl_UpVar2(ip, f, n, nullptr, local, fl); }
int Tcl_EvalObjv(Tcl_Interp* ip, int n, Tcl_Obj* const ov[], int) {
  In* i = I(ip); if (n == 0) return TCL_OK;
  setResult(ip, ""); const char* c = Tcl_GetString(ov[0]);
  if (Cmd* cmd = find(i, c)) { ++cmd->refs; for (int k = 0; k < n; ++k) Tcl_IncrRefCount(ov[k]); int rc = cmd->proc(cmd->cd, ip, n, ov); for (int k = 0; k < n; ++k) Tcl_DecrRefCount(ov[k]); decCmd(cmd); return rc; }
  c = strip(c);
  if (seq(c, "set") && (n == 2 || n == 3)) { Tcl_Obj* r = n == 3 ? Tcl_SetVar2Ex(ip, Tcl_GetString(ov[1]), nullptr, ov[2], TCL_LEAVE_ERR_MSG) : Tcl_GetVar2Ex(ip, Tcl_GetString(ov[1]), nullptr, TCL_LEAVE_ERR_MSG); if (!r) return TCL_ERROR; setObjResult(i, r); return TCL_OK; }
  if (seq(c, "unset") && n == 2) { if (Tcl_UnsetVar(ip, Tcl_GetString(ov[1]), 0) != TCL_OK) { setResult(ip, "can't unset: no such variable"); return TCL_ERROR; } return TCL_OK; }
  if (seq(c, "rename") && n == 3) { Cmd* o = find(i, Tcl_GetString(ov[1])); if (!o) { setResult(ip, "can't rename: command doesn't exist"); return TCL_ERROR; } const char* to = strip(Tcl_GetString(ov[2])); if (!*to) { delCmd(i, o); return TCL_OK; } if (find(i, to)) { setResult(ip, "can't rename: command already exists"); return TCL_ERROR; } free(o->name); o->name = dupn(to, slen(to)); return TCL_OK; }
  if (seq(c, "error") && n == 2) { setObjResult(i, ov[1]); return TCL_ERROR; }
  Buf b; b.s("invalid command name \""); b.s(c); b.c('"'); b.c(0); setResult(ip, b.b); return TCL_ERROR;
}
int Tcl_EvalEx(Tcl_Interp* ip, const char* s, int n, int) {
  In* i = I(ip); int pos = 0; setResult(ip, ""); int rc = evalText(i, s, n < 0 ? (int)slen(s) : n, pos, false, 0);
  if (rc == TCL_ERROR) { upd(i->result); Buf b; for (int k = 0; k < i->result->length; ++k) b.c(i->result->bytes[k]); b.s("\n    while executing\n"); Tcl_Obj* o = Tcl_NewStringObj(b.b, b.n); Var* v = var(i, "errorInfo", true); Tcl_IncrRefCount(o); if (v->value) Tcl_DecrRefCount(v->value); v->value = o; }
  return rc;
}
int Tcl_Eval(Tcl_Interp* i, const char* s) { return Tcl_EvalEx(i, s, -1, 0); }
int Tcl_EvalObjEx(Tcl_Interp* i, Tcl_Obj* o, int f) { upd(o); return Tcl_EvalEx(i, o->bytes, o->length, f); }
}
static bool sub(In* i, const char* s, int n, int& p, Buf& b, int depth, int& rc) {   // one $ [ or \ at s[p]; false when it is an ordinary character
  if (s[p] == '\\') { if (p + 1 >= n) { b.c('\\'); ++p; return true; } b.c(bs(s[p + 1])); p += 2; return true; }
  if (s[p] == '[') { ++p; rc = evalText(i, s, n, p, true, depth + 1); if (rc == TCL_OK) { upd(i->result); for (int k = 0; k < i->result->length; ++k) b.c(i->result->bytes[k]); } return true; }
  if (s[p] == '$') {
    int q = p + 1; Buf nm; if (q < n && s[q] == '{') { ++q; while (q < n && s[q] != '}') nm.c(s[q++]); if (q >= n) { setResult((Tcl_Interp*)i, "missing close-brace for variable name"); rc = TCL_ERROR; return true; } ++q; }
    else while (q < n && ((s[q] >= 'a' && s[q] <= 'z') || (s[q] >= 'A' && s[q] <= 'Z') || (s[q] >= '0' && s[q] <= '9') || s[q] == '_' || s[q] == ':')) nm.c(s[q++]);
    if (nm.n == 0 && q == p + 1) { if (q < n && s[q] == '(') vf_giveup("array elements in the Tcl model"); b.c('$'); ++p; return true; }
    nm.c(0); Tcl_Obj* o = Tcl_GetVar2Ex((Tcl_Interp*)i, nm.b, nullptr, TCL_LEAVE_ERR_MSG); if (!o) { rc = TCL_ERROR; return true; } upd(o); for (int k = 0; k < o->length; ++k) b.c(o->bytes[k]); p = q; return true; }
  return false;
}
static int evalText(In* i, const char* s, int n, int& p, bool nested, int depth) {
  if (depth > 4) vf_giveup("nesting in the Tcl model");
  int rc = TCL_OK;
  for (;;) {
    while (p < n && (space(s[p]) || s[p] == ';')) ++p;
    if (p >= n) { if (nested) { setResult((Tcl_Interp*)i, "missing close-bracket"); return TCL_ERROR; } return rc; }
    if (nested && s[p] == ']') { ++p; return rc; }
    if (s[p] == '#') { while (p < n && s[p] != '\n') { if (s[p] == '\\') ++p; ++p; } continue; }
    Tcl_Obj* w[400]; int k = 0; bool end = false;
    while (!end && rc == TCL_OK) {
      while (p < n && (s[p] == ' ' || s[p] == '\t' || s[p] == '\v' || s[p] == '\f' || s[p] == '\r')) ++p;
      if (p >= n || s[p] == ';' || s[p] == '\n' || (nested && s[p] == ']')) { end = true; break; }
      Buf b;
      if (s[p] == '{') { int d = 1; ++p; for (; p < n; ++p) { if (s[p] == '\\' && p + 1 < n) { if (s[p + 1] == '\n') vf_giveup("line continuation in the Tcl model"); b.c(s[p]); ++p; b.c(s[p]); continue; } if (s[p] == '{') ++d; if (s[p] == '}' && --d == 0) break; b.c(s[p]); } if (p >= n) { setResult((Tcl_Interp*)i, "missing close-brace"); rc = TCL_ERROR; break; } ++p; if (b.n == 1 && b.b[0] == '*' && p < n && !space(s[p])) vf_giveup("argument expansion in the Tcl model"); if (p < n && !space(s[p]) && s[p] != ';' && !(nested && s[p] == ']')) { setResult((Tcl_Interp*)i, "extra characters after close-brace"); rc = TCL_ERROR; break; } }
      else if (s[p] == '"') { ++p; while (p < n && s[p] != '"' && rc == TCL_OK) if (!sub(i, s, n, p, b, depth, rc)) b.c(s[p++]); if (rc != TCL_OK) break; if (p >= n) { setResult((Tcl_Interp*)i, "missing \""); rc = TCL_ERROR; break; } ++p; if (p < n && !space(s[p]) && s[p] != ';' && !(nested && s[p] == ']')) { setResult((Tcl_Interp*)i, "extra characters after close-quote"); rc = TCL_ERROR; break; } }
      else { while (p < n && !space(s[p]) && s[p] != ';' && !(nested && s[p] == ']') && rc == TCL_OK) if (!sub(i, s, n, p, b, depth, rc)) b.c(s[p++]); if (rc != TCL_OK) break; }
      if (k == 400) vf_giveup("too many words in the Tcl model");
      w[k] = Tcl_NewStringObj(b.b, b.n); Tcl_IncrRefCount(w[k]); ++k;
    }
    if (rc == TCL_OK && k) rc = Tcl_EvalObjv((Tcl_Interp*)i, k, w, 0);
    while (k) Tcl_DecrRefCount(w[--k]);
    if (rc != TCL_OK) return rc;
  }
}

// ---- further calls that an equivalent implementation may use
#undef Tcl_AddErrorInfo
#undef Tcl_Alloc
#undef Tcl_AppendObjToObj
#undef Tcl_AppendResult
#undef Tcl_AppendStringsToObj
#undef Tcl_AppendToObj
#undef Tcl_Free
#undef Tcl_GetCharLength
#undef Tcl_GlobalEval
#undef Tcl_Preserve
#undef Tcl_Release
#undef Tcl_SetBooleanObj
#undef Tcl_SetDoubleObj
#undef Tcl_SetErrorCode
#undef Tcl_SetIntObj
#undef Tcl_SetListObj
#undef Tcl_SetLongObj
#undef Tcl_SetObjErrorCode
#undef Tcl_SetResult
#undef Tcl_SetStringObj
#undef Tcl_SetWideIntObj
#undef Tcl_WrongNumArgs
static void reset(Tcl_Obj* o) { if (o->refCount > 1) vf_giveup("Tcl panics: changing a shared object"); if (o->typePtr == &T_list) dropl(lst(o)); if (o->bytes) free(o->bytes); o->typePtr = nullptr; o->bytes = nullptr; o->length = 0; }
static void flat(Tcl_Obj* o) { upd(o); if (o->refCount > 1) vf_giveup("Tcl panics: changing a shared object"); if (o->typePtr == &T_list) dropl(lst(o)); o->typePtr = nullptr; }
static Tcl_Obj* ownResult(Tcl_Interp* i) { In* n = I(i); if (n->result->refCount > 1) setObjResult(n, Tcl_DuplicateObj(n->result)); return n->result; }
extern "C" {
char* Tcl_Alloc(unsigned n) { return (char*)malloc(n); }
void Tcl_Free(char* p) { free(p); }
void Tcl_Preserve(ClientData) {}
void Tcl_Release(ClientData) {}
int Tcl_GetCharLength(Tcl_Obj* o) { upd(o); int k = 0; for (int i = 0; i < o->length; ++i) { if (o->bytes[i] & 0x80) vf_giveup("character length of non-ASCII text in the Tcl model"); ++k; } return k; }
void Tcl_SetStringObj(Tcl_Obj* o, const char* s, int n) { size_t k = n < 0 ? slen(s) : (size_t)n; char* d = dupn(s, k); reset(o); o->bytes = d; o->length = (int)k; }
void Tcl_SetWideIntObj(Tcl_Obj* o, Tcl_WideInt v) { reset(o); o->typePtr = &T_int; o->internalRep.wideValue = v; }
void Tcl_SetLongObj(Tcl_Obj* o, long v) { Tcl_SetWideIntObj(o, v); }
void Tcl_SetIntObj(Tcl_Obj* o, int v) { Tcl_SetWideIntObj(o, v); }
void Tcl_SetBooleanObj(Tcl_Obj* o, int v) { Tcl_SetWideIntObj(o, v != 0); }
void Tcl_SetDoubleObj(Tcl_Obj* o, double v) { reset(o); o->typePtr = &T_dbl; o->internalRep.doubleValue = v; }
void Tcl_SetListObj(Tcl_Obj* o, int n, Tcl_Obj* const v[]) { L* l = lnew(n); for (int i = 0; i < n; ++i) l = ladd(l, v[i]); reset(o); o->typePtr = &T_list; o->internalRep.twoPtrValue.ptr1 = l; if (n <= 0) o->bytes = dupn("", 0); }
void Tcl_AppendToObj(Tcl_Obj* o, const char* s, int n) { size_t k = n < 0 ? slen(s) : (size_t)n; flat(o); char* d = (char*)malloc(o->length + k + 1); for (int i = 0; i < o->length; ++i) d[i] = o->bytes[i]; for (size_t i = 0; i < k; ++i) d[o->length + i] = s[i]; d[o->length + k] = 0; free(o->bytes); o->bytes = d; o->length += (int)k; }
void Tcl_AppendObjToObj(Tcl_Obj* o, Tcl_Obj* a) { upd(a); Tcl_AppendToObj(o, a->bytes, a->length); }
void Tcl_AppendStringsToObj(Tcl_Obj* o, ...) { va_list ap; va_start(ap, o); while (const char* s = va_arg(ap, const char*)) Tcl_AppendToObj(o, s, -1); va_end(ap); }
void Tcl_AppendResult(Tcl_Interp* i, ...) { Tcl_Obj* o = ownResult(i); va_list ap; va_start(ap, i); while (const char* s = va_arg(ap, const char*)) Tcl_AppendToObj(o, s, -1); va_end(ap); }
void Tcl_SetResult(Tcl_Interp* i, char* s, Tcl_FreeProc* f) { setResult(i, s ? s : ""); if (f == TCL_DYNAMIC) free(s); else if (f && f != TCL_VOLATILE) f(s); }
void Tcl_WrongNumArgs(Tcl_Interp* i, int n, Tcl_Obj* const v[], const char* m) { Buf b; b.s("wrong # args: should be \""); for (int k = 0; k < n; ++k) { if (k) b.c(' '); b.s(Tcl_GetString(v[k])); } if (m) { if (n) b.c(' '); b.s(m); } b.c('"'); b.c(0); setResult(i, b.b); }
void Tcl_AddErrorInfo(Tcl_Interp*, const char*) {}
void Tcl_SetErrorCode(Tcl_Interp*, ...) {}
void Tcl_SetObjErrorCode(Tcl_Interp*, Tcl_Obj* o) { if (o->refCount == 0) { Tcl_IncrRefCount(o); Tcl_DecrRefCount(o); } }
int Tcl_GlobalEval(Tcl_Interp* i, const char* s) { return Tcl_EvalEx(i, s, -1, TCL_EVAL_GLOBAL); }
}
