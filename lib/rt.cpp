// Model of the libc / libstdc++ externals that bdlib and the harnesses reach; compiled to bitcode and linked for symbolic execution only.
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <exception>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <unordered_map>
#include <string>
template class std::__cxx11::basic_string<char>;
extern "C" {
void* vf_new(size_t); void* vf_newa(size_t); void vf_delete(void*); void vf_deletea(void*);
void* vf_exalloc(size_t); void vf_exfree(void*); [[noreturn]] void vf_unwind(void* obj, void* ti);
bool vf_bool(void); [[noreturn]] void vf_fail(const char*); [[noreturn]] void vf_giveup(const char*);
void* malloc(size_t); void free(void*);
int vf_allocfail_on = 0; char __libc_single_threaded = 0; 
void vf_alloc_fail(int on) { vf_allocfail_on = on; }
}
void (*vf_on_free)(void*, size_t) = nullptr; extern "C" size_t vf_objsize(void*);
static void fr(void* p) { if (p && vf_on_free) vf_on_free(p, vf_objsize(p)); }
static bool af() { return vf_allocfail_on && vf_bool(); }
void* operator new(size_t n) { if (af()) throw std::bad_alloc(); void* p = vf_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { if (af()) throw std::bad_alloc(); void* p = vf_newa(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (af()) return nullptr; return vf_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (af()) return nullptr; return vf_newa(n); }
void operator delete(void* p) noexcept { fr(p); vf_delete(p); }
void operator delete(void* p, size_t) noexcept { fr(p); vf_delete(p); }
void operator delete[](void* p) noexcept { fr(p); vf_deletea(p); }
void operator delete[](void* p, size_t) noexcept { fr(p); vf_deletea(p); }

// ---- exceptions: header of 32 bytes before the object
struct ExH { ExH* next; int handlers; int pad; void* ti; void (*dtor)(void*); };
static ExH* caught = nullptr;
static ExH* hdr(void* o) { return reinterpret_cast<ExH*>(o) - 1; }
extern "C" {
void* __cxa_allocate_exception(size_t n) { char* p = (char*)vf_exalloc(n + sizeof(ExH)); return p + sizeof(ExH); }
void __cxa_free_exception(void* o) { vf_exfree(hdr(o)); }
[[noreturn]] void __cxa_throw(void* o, void* ti, void (*d)(void*)) { ExH* h = hdr(o); h->ti = ti; h->dtor = d; h->handlers = 0; vf_unwind(o, ti); }
void* __cxa_begin_catch(void* o) { ExH* h = hdr(o); if (h->handlers < 0) h->handlers = -h->handlers + 1; else h->handlers++; if (caught != h) { h->next = caught; caught = h; } return o; }
void* __cxa_get_exception_ptr(void* o) { return o; }
void __cxa_end_catch(void) { ExH* h = caught; if (!h) return; if (h->handlers < 0) { if (++h->handlers == 0) caught = h->next; } else if (--h->handlers == 0) { caught = h->next; void* o = h + 1; if (h->dtor) h->dtor(o); vf_exfree(h); } }
[[noreturn]] void __cxa_rethrow(void) { ExH* h = caught; if (!h) std::terminate(); h->handlers = -h->handlers; vf_unwind(h + 1, h->ti); }
int __cxa_guard_acquire(uint64_t* g) { return *(char*)g ? 0 : 1; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
void __cxa_guard_abort(uint64_t*) {}
[[noreturn]] void __cxa_throw_bad_array_new_length(void) { throw std::bad_array_new_length(); }
void* __dso_handle = nullptr;
}
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string&) { _M_p = nullptr; }
__cow_string::__cow_string(const char* s, size_t) { _M_p = s; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define LE(C, B) C::C(const char* s) : B(s) {} C::C(const std::string& s) : B(s) {} C::~C() noexcept {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const std::string&) : _M_msg() {}
logic_error::logic_error(const logic_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const std::string&) : _M_msg() {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
LE(length_error, logic_error) LE(out_of_range, logic_error) LE(invalid_argument, logic_error) LE(domain_error, logic_error)
LE(range_error, runtime_error) LE(overflow_error, runtime_error) LE(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
namespace __detail {
static const size_t primes[] = {2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273,11113,12011,12983,14033,15173,16411};
static size_t fl(double d) { size_t n = (size_t)d; return n; }
static size_t ce(double d) { size_t n = (size_t)d; return (double)n < d ? n + 1 : n; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  if (n == 0) return 1;
  size_t r = primes[sizeof(primes) / sizeof(primes[0]) - 1];
  for (size_t p : primes) if (p >= n) { r = p; break; }
  _M_next_resize = fl((double)r * (double)_M_max_load_factor);
  return r; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    double mb = (double)((ne + ni) > (_M_next_resize ? 0 : 11) ? (ne + ni) : (_M_next_resize ? 0 : 11)) / (double)_M_max_load_factor;
    if (mb >= (double)nb) { size_t a = fl(mb) + 1, b = nb * _S_growth_factor; return std::make_pair(true, _M_next_bkt(a > b ? a : b)); }
    _M_next_resize = fl((double)nb * (double)_M_max_load_factor);
    return std::make_pair(false, (size_t)0); }
  return std::make_pair(false, (size_t)0); }
}
// hash of bytes (std::hash<std::string> and friends)
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 131 + c[i]; return h; }
}
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return nullptr; }
void* rawmemchr(const void* s, int c) { const unsigned char* p = (const unsigned char*)s; while (*p != (unsigned char)c) ++p; return (void*)p; }
int bcmp(const void*, const void*, size_t); int memcmp(const void*, const void*, size_t); void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); void* memset(void*, int, size_t);
void* memmem(const void* h, size_t hl, const void* n, size_t nl) { const char* p = (const char*)h; if (nl == 0) return (void*)p; if (hl < nl) return nullptr; for (size_t i = 0; i + nl <= hl; ++i) if (bcmp(p + i, n, nl) == 0) return (void*)(p + i); return nullptr; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strchrnul(const char* s, int c) { for (;; ++s) if (*s == (char)c || !*s) return (char*)s; }
char* index(const char* s, int c) { return strchr(s, c); }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* rindex(const char* s, int c) { return strrchr(s, c); }
int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { ++d; ++s; } return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* r = d; d += strlen(d); while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char* strstr(const char* h, const char* n) { return (char*)memmem(h, strlen(h), n, strlen(n)); }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : nullptr; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void bzero(void* d, size_t n) { memset(d, 0, n); }
static void ct(int c) { if (c < -128 || c > 255) vf_fail("ctype function called with a value outside the character range"); }
int isspace(int c) { ct(c); return (int)((c == ' ') | ((c >= 9) & (c <= 13))); }
int isblank(int c) { ct(c); return (int)((c == ' ') | (c == 9)); }
int isdigit(int c) { ct(c); return (int)((c >= '0') & (c <= '9')); }
int isupper(int c) { ct(c); return (int)((c >= 'A') & (c <= 'Z')); }
int islower(int c) { ct(c); return (int)((c >= 'a') & (c <= 'z')); }
int isalpha(int c) { ct(c); return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | (int)((c >= 'a') & (c <= 'f')) | (int)((c >= 'A') & (c <= 'F')); }
int iscntrl(int c) { ct(c); return (int)(((c >= 0) & (c < 32)) | (c == 127)); }
int isprint(int c) { ct(c); return (int)((c >= 32) & (c < 127)); }
int isgraph(int c) { ct(c); return (int)((c > 32) & (c < 127)); }
int ispunct(int c) { return isgraph(c) & (isalnum(c) ^ 1); }
int toupper(int c) { ct(c); unsigned m = ((c >= 'a') & (c <= 'z')); return c - (int)(m << 5); }
int tolower(int c) { ct(c); unsigned m = ((c >= 'A') & (c <= 'Z')); return c + (int)(m << 5); }
int strcasecmp(const char* a, const char* b) { for (;; ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!*a) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!*a) return 0; } return 0; }
unsigned long strtoul(const char* s, char** e, int base) { const char* p = s; while (isspace(*p)) ++p; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-'; if (base == 0) base = 10; unsigned long v = 0; const char* st = p; for (;; ++p) { int d; if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10; else break; if (d >= base) break; v = v * base + d; } if (e) *e = (char*)(p == st ? s : p); return neg ? -v : v; }
long strtol(const char* s, char** e, int b) { return (long)strtoul(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return (long long)strtoul(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
  size_t n = 0;
#define PUT(c) do { char c_ = (c); if (n + 1 < cap) out[n] = c_; ++n; } while (0)
  for (; *f; ++f) {
    if (*f != '%') { PUT(*f); continue; }
    ++f; bool zero = false, left = false, plus = false, alt = false;
    for (;; ++f) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') ; else break; }
    int width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } ++f; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lng = 0; for (;; ++f) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') --lng; else break; }
    char buf[72]; const char* s = buf; size_t len = 0; 
    switch (*f) {
      case '%': buf[0] = '%'; len = 1; break;
      case 'c': buf[0] = (char)va_arg(ap, int); len = 1; break;
      case 's': { s = va_arg(ap, const char*); if (!s) s = "(null)"; len = prec >= 0 ? strnlen(s, prec) : strlen(s); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long v; bool neg = false; if (*f == 'p') { v = (unsigned long)va_arg(ap, void*); lng = 2; alt = true; }
        else if (lng == 2) v = va_arg(ap, unsigned long); else if (*f == 'd' || *f == 'i') v = (unsigned long)(long)va_arg(ap, int); else v = va_arg(ap, unsigned int);
        if (lng == -1) v = (*f == 'd' || *f == 'i') ? (unsigned long)(long)(short)v : (unsigned short)v; else if (lng == -2) v = (*f == 'd' || *f == 'i') ? (unsigned long)(long)(signed char)v : (unsigned char)v;
        if ((*f == 'd' || *f == 'i') && (long)v < 0) { neg = true; v = -v; }
        unsigned b = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; char* e = buf + 71; char* p = e; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
        while (v) { *--p = dg[v % b]; v /= b; } int minl = prec >= 0 ? prec : 1; while (e - p < minl && e - p < 60) *--p = '0';
        if (alt && b == 16) { *--p = 'x'; *--p = '0'; }
        if (zero && prec < 0 && !left) while ((e - p) + (neg || plus) < width && e - p < 60) *--p = '0';
        if (neg) *--p = '-'; else if (plus && (*f == 'd' || *f == 'i')) *--p = '+';
        s = p; len = e - p; break; }
      default: vf_giveup("printf conversion outside the model"); }
    if (!left) for (size_t i = len; i < (size_t)width; ++i) PUT(' ');
    for (size_t i = 0; i < len; ++i) PUT(s[i]);
    if (left) for (size_t i = len; i < (size_t)width; ++i) PUT(' ');
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n; }
int snprintf(char* o, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(o, n, f, a); va_end(a); return r; }
int sprintf(char* o, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(o, 1 << 20, f, a); va_end(a); return r; }
int vsprintf(char* o, const char* f, va_list a) { return vsnprintf(o, 1 << 20, f, a); }
int vasprintf(char** o, const char* f, va_list a) { va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, b); va_end(b); *o = (char*)malloc(n + 1); return vsnprintf(*o, n + 1, f, a); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
static int errno_store; int* __errno_location(void) { return &errno_store; }
}
