// C18: conversions across the Tcl boundary.
#define CAPR 64
#include "tclh.h"
template <class T> static void to_int() {
  size_t l0 = vf_live(); T v = (T)vf_u64(); Tcl_Obj* o = c_to_tcl_cast<const T&>::from(v, nullptr); VF_ASSERT(o != nullptr, "an object is made"); Tcl_IncrRefCount(o); VF_ASSERT(o->refCount == 1, "the object is not shared");
  bool neg = false; uint64_t mag = 0; bool is = int_obj(o, neg, mag); VF_ASSERT(is, "an integer becomes a Tcl integer");
  bool vn = v < 0; uint64_t vm = vn ? 0 - (uint64_t)(int64_t)v : (uint64_t)v; VF_ASSERT(neg == vn && mag == vm, "the Tcl integer has the same value");
  VF_ASSERT(tcl_to_c_cast<T>::from(o, nullptr) == v, "to Tcl and back is the identity"); Tcl_DecrRefCount(o); VF_ASSERT(vf_live() == l0, "nothing is leaked"); }
// the Tcl integer -hex or hex (up to 68 bits), or the same as a wide integer object
template <class T> static void from_int(bool text) {
  size_t l0 = vf_live(); bool neg; uint64_t mag; bool huge = false; Tcl_Obj* o;
  if (text) { char t[24]; size_t k = 0; neg = vf_flag(); if (neg) t[k++] = '-'; t[k++] = '0'; t[k++] = 'x'; unsigned top = (unsigned)vf_range(0, 15); mag = vf_u64(); huge = top != 0; t[k++] = (char)(top < 10 ? '0' + top : 'a' + top - 10); for (int i = 60; i >= 0; i -= 4) { unsigned d = (mag >> i) & 15; t[k++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); } o = str_obj(t, k); if (!huge && mag == 0) neg = false; }
  else { Tcl_WideInt w = (Tcl_WideInt)vf_u64(); neg = w < 0; mag = neg ? 0 - (uint64_t)w : (uint64_t)w; o = Tcl_NewWideIntObj(w); Tcl_IncrRefCount(o); }
  bool sg = T(-1) < T(0); unsigned bw = sizeof(T) * 8; uint64_t pmax = sg ? ((uint64_t)1 << (bw - 1)) - 1 : (~(uint64_t)0) >> (64 - bw); bool fits = !huge && (neg ? sg && mag <= pmax + 1 : mag <= pmax);
  T want = fits ? (T)(neg ? 0 - mag : mag) : (T)0; T got = tcl_to_c_cast<T>::from(o, nullptr); VF_ASSERT(got == want, "a value that fits is taken over, any other gives zero");
  VF_ASSERT(o->refCount == 1, "the source is not released"); Tcl_DecrRefCount(o); VF_ASSERT(vf_live() == l0, "nothing is leaked"); }
// any short text: whatever Tcl itself does not read as an integer gives zero
template <class T> static void from_text() {
  size_t l0 = vf_live(); size_t n = vf_pick(0, TIER(3, 4)); char t[4]; vf_bytes(t, n); for (size_t i = 0; i < n; ++i) vf_assume(t[i] != 0 && t[i] != '.' && t[i] != 'e' && t[i] != 'E' && (n < 3 || ((t[i] | 32) != 'i' && (t[i] | 32) != 'n'))); Tcl_Obj* o = str_obj(t, n); bool neg = false; uint64_t mag = 0; bool is = int_obj(o, neg, mag);
  bool sg = T(-1) < T(0); unsigned bw = sizeof(T) * 8; uint64_t pmax = sg ? ((uint64_t)1 << (bw - 1)) - 1 : (~(uint64_t)0) >> (64 - bw); T want = is && (neg ? sg && mag <= pmax + 1 : mag <= pmax) ? (T)(neg ? 0 - mag : mag) : (T)0; if (is) vf_reach("int"); VF_ASSERT(tcl_to_c_cast<T>::from(o, nullptr) == want, "text that is no integer of the type gives zero"); VF_ASSERT(obj_is(o, t, n), "the source is unchanged"); Tcl_DecrRefCount(o); VF_ASSERT(vf_live() == l0, "nothing is leaked"); }
#define EACH(F, ...) switch (vf_pick(0, 7)) { case 0: F<int8_t>(__VA_ARGS__); break; case 1: F<uint8_t>(__VA_ARGS__); break; case 2: F<int16_t>(__VA_ARGS__); break; case 3: F<uint16_t>(__VA_ARGS__); break; case 4: F<int32_t>(__VA_ARGS__); break; case 5: F<uint32_t>(__VA_ARGS__); break; case 6: F<int64_t>(__VA_ARGS__); break; default: F<uint64_t>(__VA_ARGS__); }
extern "C" void tcl_to_int() { tcl_up(); EACH(to_int) vf_reach("done"); }
extern "C" void tcl_from_int() { tcl_up(); EACH(from_int, vf_flag()) vf_reach("done"); }
extern "C" void tcl_from_text() { tcl_up(); EACH(from_text) vf_reach("done"); }
extern "C" void tcl_real_bool() { tcl_up();
  size_t l0 = vf_live();
  switch (vf_pick(0, 4)) {
    case 0: { double d = dbl(vf_u64()); vf_assume(d == d); Tcl_Obj* o = c_to_tcl_cast<const double&>::from(d, nullptr); Tcl_IncrRefCount(o); double e = 0; VF_ASSERT(Tcl_GetDoubleFromObj(nullptr, o, &e) == TCL_OK && bits(e) == bits(d), "a double becomes the same Tcl double"); VF_ASSERT(bits(tcl_to_c_cast<double>::from(o, nullptr)) == bits(d), "to Tcl and back is the identity"); Tcl_DecrRefCount(o); break; }
    case 1: { bool b = vf_bool(); Tcl_Obj* o = c_to_tcl_cast<const bool&>::from(b, nullptr); Tcl_IncrRefCount(o); int i = -1; VF_ASSERT(Tcl_GetBooleanFromObj(nullptr, o, &i) == TCL_OK && (i != 0) == b, "a bool becomes the same Tcl boolean"); long l = -1; VF_ASSERT(Tcl_GetLongFromObj(nullptr, o, &l) == TCL_OK && l == (b ? 1 : 0), "a bool is 0 or 1"); VF_ASSERT(tcl_to_c_cast<bool>::from(o, nullptr) == b, "to Tcl and back is the identity"); Tcl_DecrRefCount(o); break; }
    case 2: { Tcl_WideInt w = (Tcl_WideInt)vf_u64(); Tcl_Obj* o = Tcl_NewWideIntObj(w); Tcl_IncrRefCount(o); VF_ASSERT(tcl_to_c_cast<bool>::from(o, nullptr) == (w != 0), "an integer is true unless it is zero"); double d = 0; Tcl_GetDoubleFromObj(nullptr, o, &d); VF_ASSERT(bits(tcl_to_c_cast<double>::from(o, nullptr)) == bits(d), "an integer converts to its double"); Tcl_DecrRefCount(o); break; }
    case 3: { double d = dbl(vf_u64()); vf_assume(d == d); Tcl_Obj* o = Tcl_NewDoubleObj(d); Tcl_IncrRefCount(o); VF_ASSERT(bits(tcl_to_c_cast<double>::from(o, nullptr)) == bits(d), "a double converts to itself"); VF_ASSERT(tcl_to_c_cast<bool>::from(o, nullptr) == (d != 0), "a double is true unless it is zero"); VF_ASSERT(tcl_to_c_cast<int32_t>::from(o, nullptr) == 0 && tcl_to_c_cast<uint64_t>::from(o, nullptr) == 0 && tcl_to_c_cast<int64_t>::from(o, nullptr) == 0 && tcl_to_c_cast<uint8_t>::from(o, nullptr) == 0, "a double is no integer"); Tcl_DecrRefCount(o); break; }
    default: { size_t n = vf_pick(0, 3); char t[4]; vf_bytes(t, n); for (size_t i = 0; i < n; ++i) vf_assume(t[i] != 0 && t[i] != '.' && t[i] != 'e' && t[i] != 'E' && t[i] != 'I' && t[i] != 'i' && t[i] != 'N'); if (n == 3) vf_assume(t[0] != 'n'); Tcl_Obj* o = str_obj(t, n); int i = 0; double d = 0; bool okb = Tcl_GetBooleanFromObj(nullptr, o, &i) == TCL_OK, okd = Tcl_GetDoubleFromObj(nullptr, o, &d) == TCL_OK; VF_ASSERT(tcl_to_c_cast<bool>::from(o, nullptr) == (okb && i != 0), "what is no boolean gives false"); VF_ASSERT(bits(tcl_to_c_cast<double>::from(o, nullptr)) == (okd ? bits(d) : 0), "what is no number gives zero"); Tcl_DecrRefCount(o); }
  }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void tcl_string() { tcl_up();
  size_t l0 = vf_live();
  { String s, al; Ref r, ar; build(s, r, al, ar, vf_pick(0, K_NKINDS - 1), vf_pick(0, TIER(5, 7))); size_t l1 = vf_live();
    Tcl_Obj* o = c_to_tcl_cast<const String&>::from(s, nullptr); VF_ASSERT(o != nullptr, "an object is made"); Tcl_IncrRefCount(o); VF_ASSERT(obj_is(o, r.b, r.n), "a String becomes exactly its bytes"); VF_ASSERT(same(s, r) && same(al, ar), "the String is unchanged");
    { String b(tcl_to_c_cast<String>::from(o, nullptr)); VF_ASSERT(same(b, r), "to Tcl and back is the identity"); if (r.n) { b[0] = 'Z'; VF_ASSERT(obj_is(o, r.b, r.n), "the Tcl object is independent of the result"); } }
    const char* c = tcl_to_c_cast<const char*>::from(o, nullptr); char* m = tcl_to_c_cast<char*>::from(o, nullptr); VF_ASSERT(c && vf_eq(c, r.b, r.n) && c[r.n] == 0, "as a C string it is terminated"); VF_ASSERT(m && vf_eq(m, r.b, r.n) && m[r.n] == 0, "as a C string it is terminated");
    VF_ASSERT(o->refCount == 1, "the source is not released"); Tcl_DecrRefCount(o); VF_ASSERT(vf_live() <= l1 + 1, "nothing is leaked"); }
  { size_t n = vf_pick(0, 2); char* t = new char[n + 1]; vf_nzbytes(t, n); t[n] = 0; Tcl_Obj* o = c_to_tcl_cast<const char*>::from(t, nullptr); Tcl_IncrRefCount(o); VF_ASSERT(obj_is(o, t, n), "a C string becomes exactly its characters"); Tcl_DecrRefCount(o); delete[] t; }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
static void mkarr(Array<String>& a, Ref* r, size_t n, size_t mx) { for (size_t i = 0; i < n; ++i) { char t[4]; size_t k = vf_pick(0, mx); vf_bytes(t, k); r[i].set(t, k); a << String(t, k); } }
static bool listis(Tcl_Obj* o, const Ref* r, size_t n) { int c = -1; Tcl_Obj** v = nullptr; if (Tcl_ListObjGetElements(nullptr, o, &c, &v) != TCL_OK || c != (int)n) return false; for (size_t i = 0; i < n; ++i) if (!obj_is(v[i], r[i].b, r[i].n)) return false; return true; }
extern "C" void tcl_list() { tcl_up();
  size_t l0 = vf_live();
  { ScriptInterpTCL si; size_t n = vf_pick(0, 4); Ref r[4]; Array<String> a; mkarr(a, r, n, 2); if (vf_flag()) { a << String("x"); a -= size_t(1); } Array<String> sh; if (vf_flag()) sh = a;
    Tcl_Obj* o = c_to_tcl_cast<const Array<String>&>::from(a, interp_of()); Tcl_IncrRefCount(o); VF_ASSERT(listis(o, r, n), "an array becomes the list of its elements"); VF_ASSERT(a.length() == n, "the array is unchanged");
    Array<String> b(tcl_to_c_cast<Array<String>>::from(o, &si)); VF_ASSERT(b.length() == n, "as many elements come back"); for (size_t i = 0; i < n; ++i) VF_ASSERT(same(static_cast<String>(b[i]), r[i]) && same(static_cast<String>(a[i]), r[i]), "to Tcl and back is the identity"); VF_ASSERT(listis(o, r, n), "the source is unchanged"); VF_ASSERT(o->refCount == 1, "the source is not released"); Tcl_DecrRefCount(o); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
extern "C" void tcl_nested() { tcl_up();
  size_t l0 = vf_live();
  { ScriptInterpTCL si; size_t n = vf_pick(0, 2), c[2] = {0, 0}; Ref r[2][2]; Array<Array<String>> a; for (size_t i = 0; i < n; ++i) { Array<String> x; c[i] = vf_pick(0, 2); mkarr(x, r[i], c[i], 1); a << x; }
    Tcl_Obj* o = c_to_tcl_cast<const Array<Array<String>>&>::from(a, interp_of()); Tcl_IncrRefCount(o); int k = -1; Tcl_Obj** v = nullptr; VF_ASSERT(Tcl_ListObjGetElements(nullptr, o, &k, &v) == TCL_OK && k == (int)n, "an array becomes a list of as many elements"); for (size_t i = 0; i < n; ++i) VF_ASSERT(listis(v[i], r[i], c[i]), "each a list of its elements");
    Array<Array<String>> b(tcl_to_c_cast<Array<Array<String>>>::from(o, &si)); VF_ASSERT(b.length() == n, "as many elements come back"); for (size_t i = 0; i < n; ++i) { Array<String> x(static_cast<Array<String>>(b[i])); VF_ASSERT(x.length() == c[i], "to Tcl and back is the identity"); for (size_t j = 0; j < c[i]; ++j) VF_ASSERT(same(static_cast<String>(x[j]), r[i][j]), "to Tcl and back is the identity"); } Tcl_DecrRefCount(o); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
// any text as a list: the words Tcl finds in it, or nothing
extern "C" void tcl_list_text() { tcl_up();
  size_t l0 = vf_live();
  { ScriptInterpTCL si; size_t n = vf_pick(0, TIER(4, 5)); char t[8]; vf_bytes(t, n); for (size_t i = 0; i < n; ++i) vf_assume(t[i] != '\\'); Tcl_Obj *o = str_obj(t, n), *p = str_obj(t, n); int k = 0; Tcl_Obj** v = nullptr; bool ok = Tcl_ListObjGetElements(nullptr, p, &k, &v) == TCL_OK; if (!ok) { k = 0; vf_reach("bad"); }
    Array<String> b(tcl_to_c_cast<Array<String>>::from(o, &si)); VF_ASSERT(b.length() == (size_t)k, "one element for each word, none when it is no list"); for (int i = 0; i < k; ++i) { int len; char* s = Tcl_GetStringFromObj(v[i], &len); VF_ASSERT(same_const(static_cast<String>(b[i]), s, len), "the words"); } VF_ASSERT(obj_is(o, t, n), "the source is unchanged"); VF_ASSERT(o->refCount == 1, "the source is not released"); Tcl_DecrRefCount(o); Tcl_DecrRefCount(p); }
  VF_ASSERT(vf_live() == l0, "nothing is leaked"); vf_reach("done"); }
