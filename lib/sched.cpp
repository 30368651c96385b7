// Native threads for replay: only the thread holding the baton runs, and the baton moves exactly where the recorded schedule says.
// Not instrumented by any sanitizer, so that ThreadSanitizer sees only the synchronisation of the code under test.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
struct Sw { unsigned from; unsigned long vis; unsigned to; };
static Sw sw[4096]; static unsigned nsw; static volatile unsigned pos, cur; static volatile bool done_[8]; static unsigned long vis_[8]; static pthread_t th[8]; static unsigned nth = 1; static __thread unsigned me;
static void hold() { while (__atomic_load_n(&cur, __ATOMIC_RELAXED) != me) sched_yield(); __asm__ volatile("" ::: "memory"); }
static bool due() { return pos < nsw && sw[pos].from == me && sw[pos].vis == vis_[me]; }
static void give() { unsigned to = sw[pos].to; pos = pos + 1; __asm__ volatile("" ::: "memory"); __atomic_store_n(&cur, to, __ATOMIC_RELAXED); }
static void lost(const char* w) { printf("VF-SCHEDULE: the recorded schedule does not fit (%s)\n", w); fflush(stdout); _exit(77); }
extern "C" void vf_sched_init(const char* s) { while (*s && nsw < 4096) { char* e; sw[nsw].from = (unsigned)strtoul(s, &e, 10); s = e + 1; sw[nsw].vis = strtoul(s, &e, 10); s = e + 1; sw[nsw].to = (unsigned)strtoul(s, &e, 10); ++nsw; s = e; if (*s == ';') ++s; } }
extern "C" void vf_sp(void) { if (nth > 1) { while (due()) { give(); hold(); } ++vis_[me]; } }
struct Arg { void (*fn)(void*); void* a; unsigned id; }; static Arg args[8];
static void* body(void* p) { Arg* a = (Arg*)p; me = a->id; hold(); a->fn(a->a); done_[me] = true; if (!due()) lost("end of thread"); give(); return nullptr; }
extern "C" int vf_spawn(void (*fn)(void*), void* a) { unsigned id = nth++; args[id] = {fn, a, id}; if (pthread_create(&th[id], nullptr, body, &args[id])) { printf("no thread\n"); _exit(2); } return (int)id; }
extern "C" void vf_join(int t) { while (!done_[t]) { if (!due()) lost("join"); give(); hold(); } pthread_join(th[t], nullptr); }
extern "C" int vf_tid(void) { return (int)me; }
