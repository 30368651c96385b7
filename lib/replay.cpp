// Native runtime for the harness API: replays one recorded input against the real, natively compiled code (ASan build).
// usage: <prog> <entry> <input file> [fill byte] [schedule]
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <unistd.h>
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t); }
static unsigned char* in; static size_t in_n, in_p; static int fillb = 0xA5; static const size_t MAXA = 1 << 20;
static int afail; static size_t live;
void (*vf_on_free)(void*, size_t) = nullptr;
struct Ent { void* p; size_t n; int kind; };
static const size_t TN = 1 << 18; static Ent tab[TN];
static size_t hsh(void* p) { return (((size_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> 46; }
static void tput(void* p, size_t n, int k) { if (!p) return; size_t h = hsh(p); for (size_t i = 0; i < TN; ++i) { Ent& e = tab[(h + i) & (TN - 1)]; if (!e.p || e.p == (void*)1) { e.p = p; e.n = n; e.kind = k; ++live; return; } } }
static Ent* tget(void* p) { size_t h = hsh(p); for (size_t i = 0; i < TN; ++i) { Ent& e = tab[(h + i) & (TN - 1)]; if (e.p == p) return &e; if (!e.p) return nullptr; } return nullptr; }
static void die(const char* k, const char* m) { printf("VF-%s: %s\n", k, m); fflush(stdout); _exit(70); }
static uint64_t rd(size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) { uint64_t b = in_p < in_n ? in[in_p] : 0; ++in_p; v |= b << (8 * i); } return v; }
static void* get(size_t n, int kind, bool zero) { if (n > MAXA) return nullptr; void* p = __real_malloc(n); if (!p) return p; memset(p, zero ? 0 : fillb, n); tput(p, n, kind); return p; }
static void put(void* p, int kind) { if (!p) return; Ent* e = tget(p); if (e) { if (e->kind != kind) die("MEMORY", "mismatched deallocation"); if (vf_on_free) vf_on_free(p, e->n); e->p = (void*)1; --live; __real_free(p); } else __real_free(p); }
extern "C" {
uint8_t vf_u8(void) { return rd(1); } uint16_t vf_u16(void) { return rd(2); } uint32_t vf_u32(void) { return rd(4); } uint64_t vf_u64(void) { return rd(8); }
bool vf_bool(void) { return rd(1) & 1; }
uint64_t vf_range(uint64_t lo, uint64_t hi) { if (hi <= lo) return lo; uint64_t v = rd(8); if (v > hi - lo) { printf("VF-RANGE\n"); fflush(stdout); _exit(77); } return lo + v; }
uint64_t vf_pick(uint64_t lo, uint64_t hi) { return vf_range(lo, hi); }
uint64_t vf_conc(uint64_t v) { return v; }
void vf_assume(bool c) { if (!c) { printf("VF-ASSUME\n"); fflush(stdout); _exit(77); } }
void vf_assert_(bool c, const char* m) { if (!c) die("ASSERT", m); }
void vf_reach(const char* t) { printf("VF-REACH: %s\n", t); fflush(stdout); }
void vf_note(const char* t) { printf("VF-NOTE: %s\n", t); fflush(stdout); }
size_t vf_live(void) { return live; }
void vf_stop(void) { printf("VF-DONE\n"); fflush(stdout); _exit(0); }
void vf_fail(const char* m) { die("ASSERT", m); abort(); }
void vf_giveup(const char*) { printf("VF-GIVEUP\n"); fflush(stdout); _exit(77); }
bool vf_const_bytes(void*, size_t) { return true; }
int vf_is_engine(void) { return 0; }
void vf_alloc_fail(int on) { afail = on; }
size_t vf_objsize(void* p) { Ent* e = tget(p); return e ? e->n : 0; }
int vf_freed(void* p) { return tget(p) == nullptr; }
void* __wrap_malloc(size_t n) { return get(n, 2, false); }
void* __wrap_calloc(size_t a, size_t b) { return get(a * b, 2, true); }
void __wrap_free(void* p) { put(p, 2); }
void* __wrap_realloc(void* p, size_t n) { if (!p) return get(n, 2, false); Ent* e = tget(p); if (!e) return __real_realloc(p, n); if (n == 0) { put(p, 2); return nullptr; } void* q = get(n, 2, false); if (!q) return q; memcpy(q, p, n < e->n ? n : e->n); put(p, 2); return q; }
void* vf_rawmalloc(size_t n) { return __wrap_malloc(n); }
void* vf_rawcalloc(size_t a, size_t b) { return __wrap_calloc(a, b); }
void* vf_rawrealloc(void* p, size_t n) { return __wrap_realloc(p, n); }
}
static bool af() { return afail && vf_bool(); }
void* operator new(size_t n) { if (af()) throw std::bad_alloc(); void* p = get(n, 3, false); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { if (af()) throw std::bad_alloc(); void* p = get(n, 4, false); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (af()) return nullptr; return get(n, 3, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (af()) return nullptr; return get(n, 4, false); }
void operator delete(void* p) noexcept { put(p, 3); }
void operator delete(void* p, size_t) noexcept { put(p, 3); }
void operator delete[](void* p) noexcept { put(p, 4); }
void operator delete[](void* p, size_t) noexcept { put(p, 4); }
extern "C" void vf_sched_init(const char*) __attribute__((weak));
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  if (argc > 3) fillb = atoi(argv[3]);
  FILE* f = fopen(argv[2], "rb"); if (!f) return 2;
  in = (unsigned char*)__real_malloc(1 << 20); in_n = fread(in, 1, 1 << 20, f); fclose(f);
  if (argc > 4 && vf_sched_init) vf_sched_init(argv[4]);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { printf("no entry\n"); return 2; }
  alarm(25);
  fn();
  printf("VF-DONE\n"); fflush(stdout); _exit(0);
}
