// Harness API, implemented by the symbolic executor (engine/bdsym.cpp) and by the native replay runtime (lib/replay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t vf_u8(void); uint16_t vf_u16(void); uint32_t vf_u32(void); uint64_t vf_u64(void);
bool vf_bool(void);
uint64_t vf_range(uint64_t lo, uint64_t hi);   // symbolic, lo..hi inclusive
uint64_t vf_conc(uint64_t v);                  // fork over every feasible value of v
uint64_t vf_pick(uint64_t lo, uint64_t hi);    // symbolic choice lo..hi inclusive, split into one path per value
void vf_assume(bool c);
void vf_assert_(bool c, const char* msg);
void vf_reach(const char* tag);
void vf_note(const char* tag);
size_t vf_live(void);                          // live heap allocations
[[noreturn]] void vf_stop(void);
[[noreturn]] void vf_fail(const char* msg);
[[noreturn]] void vf_giveup(const char* msg);      // the harness meets something outside its model: incomplete, never a violation
int vf_is_engine(void);
int vf_spawn(void (*fn)(void*), void* arg);
void vf_join(int t);
void vf_sp(void);
void* vf_rawmalloc(size_t); void* vf_rawcalloc(size_t, size_t); void* vf_rawrealloc(void*, size_t);   // malloc and friends, for harnesses that redirect them
void vf_alloc_fail(int on);                    // when on, every allocation may fail (symbolic)
}
extern void (*vf_on_free)(void*, size_t);          // called with each block handed to operator delete
extern "C" size_t vf_objsize(void*);
extern "C" bool vf_const_bytes(void*, size_t);     // engine only: no byte of the block depends on an input
#define VF_ASSERT(c, m) vf_assert_((c), m)
static inline bool vf_flag() { return vf_pick(0, 1) != 0; }
static inline void vf_bytes(char* p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = (char)vf_u8(); }
static inline void vf_nzbytes(char* p, size_t n) { for (size_t i = 0; i < n; ++i) { uint8_t c = vf_u8(); vf_assume(c != 0); p[i] = (char)c; } }
// branch-free equality of two byte ranges
static inline bool vf_eq(const char* a, const char* b, size_t n) { unsigned d = 0; for (size_t i = 0; i < n; ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
