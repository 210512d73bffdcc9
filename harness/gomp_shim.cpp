// A small OpenMP runtime for the thread-sanitizer harness: it implements the entry points that gcc emits on top of
// pthreads, so that the sanitizer sees exactly the synchronisation that OpenMP guarantees and nothing more (libgomp itself is
// not instrumented). This file is compiled without instrumentation: its own bookkeeping creates no happens-before edges,
// only thread creation/joining, barriers and critical sections (pthread calls, intercepted by the sanitizer) do.
// Team sizes may shrink and threads are delayed at random (seeded), as a real runtime may do.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <atomic>
namespace {
struct WorkShare { std::atomic<int> state{0}; std::atomic<long> next{0}; std::atomic<uint64_t> unext{0}; long start = 0, end = 0, incr = 1, chunk = 1; std::atomic<int> single{0}; };
constexpr int kShares = 512;
struct Team { unsigned size; pthread_barrier_t barrier; WorkShare ws[kShares]; void (*fn)(void*); void* data; };
struct Tls { Team* team = nullptr; unsigned id = 0; int share = 0; WorkShare* cur = nullptr; uint64_t rng = 1; long lo = 0; bool staticLoop = false; };
thread_local Tls tls;
int gMax = 1; bool gShrink = false; uint64_t gSeed = 1; std::atomic<long> gRegions{0};
pthread_mutex_t gCritical = PTHREAD_MUTEX_INITIALIZER, gAtomic = PTHREAD_MUTEX_INITIALIZER, gNames = PTHREAD_MUTEX_INITIALIZER;
uint64_t Rnd() { tls.rng += 0x9E3779B97F4A7C15ull; uint64_t x = tls.rng; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
void Jitter() { if (!tls.team || tls.team->size < 2) return; uint64_t r = Rnd() % 16; if (r < 4) sched_yield(); else if (r == 4) usleep(useconds_t(Rnd() % 200)); }
struct Start { Team* team; unsigned id; uint64_t seed; };
void Enter(Team* t, unsigned id, uint64_t seed) { tls.team = t; tls.id = id; tls.share = 0; tls.cur = nullptr; tls.rng = seed; }
void* Body(void* p) { Start* s = static_cast<Start*>(p); Enter(s->team, s->id, s->seed); Jitter(); s->team->fn(s->team->data); return nullptr; }
WorkShare* NextShare() { static WorkShare serial[kShares]; if (!tls.team) { WorkShare* w = &serial[tls.share++ % kShares]; w->state = 0; w->single = 0; return w; } return &tls.team->ws[tls.share++ % kShares]; }
WorkShare* InitLoop(long start, long end, long incr, long chunk) {
    WorkShare* w = NextShare(); int zero = 0;
    if (w->state.compare_exchange_strong(zero, 1)) { w->start = start; w->end = end; w->incr = incr; w->chunk = chunk > 0 ? chunk : 1; w->next = start; w->state = 2; }
    while (w->state != 2) sched_yield();
    tls.cur = w; return w;
}
bool LoopNext(long* istart, long* iend) {
    WorkShare* w = tls.cur; Jitter(); long step = w->incr*w->chunk; long s = w->next.fetch_add(step, std::memory_order_relaxed);
    if (w->incr > 0 ? s >= w->end : s <= w->end) return false;
    long e = s+step; if (w->incr > 0 ? e > w->end : e < w->end) e = w->end; *istart = s; *iend = e; return true;
}
void RunTeam(void (*fn)(void*), void* data, unsigned n) {
    if (n == 0) n = unsigned(gMax);
    if (tls.team) n = 1; // nested regions are serial
    long region = ++gRegions; Tls saved = tls; tls.rng = gSeed ^ (uint64_t(region) << 20); for (int i = 0; i < 3; ++i) Rnd();
    if (gShrink && n > 1) n = 1+unsigned(Rnd() % n);
    Team* t = new Team; t->size = n; t->fn = fn; t->data = data; pthread_barrier_init(&t->barrier, nullptr, n); uint64_t base = Rnd();
    pthread_t th[64]; Start st[64]; if (n > 64) n = t->size = 64;
    for (unsigned i = 1; i < n; ++i) { st[i] = {t, i, base+i*7919}; if (pthread_create(&th[i], nullptr, Body, &st[i]) != 0) abort(); }
    Enter(t, 0, base); Jitter(); fn(data); for (unsigned i = 1; i < n; ++i) pthread_join(th[i], nullptr);
    pthread_barrier_destroy(&t->barrier); delete t; tls = saved;
}
pthread_mutex_t* Named(void** p) { static std::map<void**, pthread_mutex_t*>* m = new std::map<void**, pthread_mutex_t*>; static std::atomic_flag f; while (f.test_and_set()) sched_yield(); auto& r = (*m)[p]; if (!r) { r = new pthread_mutex_t; pthread_mutex_init(r, nullptr); } auto q = r; f.clear(); return q; }
} // namespace
extern "C" {
// Control by the harness.
void pbt_omp_control(int threads, int shrink, uint64_t seed) { gMax = threads; gShrink = shrink; gSeed = seed; gRegions = 0; }
long pbt_omp_regions() { return gRegions; }
// Query functions.
int omp_get_max_threads() { return gMax; }
void omp_set_num_threads(int n) { gMax = n > 0 ? n : 1; }
int omp_get_num_threads() { return tls.team ? int(tls.team->size) : 1; }
int omp_get_thread_num() { return tls.team ? int(tls.id) : 0; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return tls.team && tls.team->size > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
int omp_get_thread_limit() { return 64; }
int omp_get_level() { return tls.team ? 1 : 0; }
void omp_set_nested(int) {}
// Regions and loops.
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { RunTeam(fn, data, n); }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* a, long* b) { InitLoop(s, e, i, c); return LoopNext(a, b); }
bool GOMP_loop_dynamic_next(long* a, long* b) { return LoopNext(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* a, long* b) { InitLoop(s, e, i, c); return LoopNext(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { return LoopNext(a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long* a, long* b) { InitLoop(s, e, i, c); return LoopNext(a, b); }
bool GOMP_loop_guided_next(long* a, long* b) { return LoopNext(a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long* a, long* b) { InitLoop(s, e, i, c); return LoopNext(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long* a, long* b) { return LoopNext(a, b); }
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { InitLoop(s, e, i, 1); return LoopNext(a, b); }
bool GOMP_loop_runtime_next(long* a, long* b) { return LoopNext(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { InitLoop(s, e, i, 1); return LoopNext(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* a, long* b) { return LoopNext(a, b); }
bool GOMP_loop_static_start(long s, long e, long i, long c, long* a, long* b) { InitLoop(s, e, i, c); return LoopNext(a, b); }
bool GOMP_loop_static_next(long* a, long* b) { return LoopNext(a, b); }
bool GOMP_loop_ull_dynamic_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { InitLoop(long(s), long(e), long(i), long(c)); return LoopNext((long*)a, (long*)b); }
bool GOMP_loop_ull_dynamic_next(unsigned long long* a, unsigned long long* b) { return LoopNext((long*)a, (long*)b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { InitLoop(long(s), long(e), long(i), long(c)); return LoopNext((long*)a, (long*)b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(unsigned long long* a, unsigned long long* b) { return LoopNext((long*)a, (long*)b); }
bool GOMP_loop_ull_nonmonotonic_guided_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { InitLoop(long(s), long(e), long(i), long(c)); return LoopNext((long*)a, (long*)b); }
bool GOMP_loop_ull_nonmonotonic_guided_next(unsigned long long* a, unsigned long long* b) { return LoopNext((long*)a, (long*)b); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned);
void GOMP_barrier() { if (tls.team && tls.team->size > 1) { Jitter(); pthread_barrier_wait(&tls.team->barrier); } }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_single_start() { WorkShare* w = NextShare(); if (!tls.team) return true; int zero = 0; return w->single.compare_exchange_strong(zero, 1); }
unsigned GOMP_sections_start(unsigned n) { long a, b; InitLoop(1, long(n)+1, 1, 1); return LoopNext(&a, &b) ? unsigned(a) : 0; }
unsigned GOMP_sections_next() { long a, b; return LoopNext(&a, &b) ? unsigned(a) : 0; }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
// Synchronisation.
void GOMP_critical_start() { Jitter(); pthread_mutex_lock(&gCritical); }
void GOMP_critical_end() { pthread_mutex_unlock(&gCritical); }
void GOMP_critical_name_start(void** p) { Jitter(); pthread_mutex_lock(Named(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(Named(p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&gAtomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&gAtomic); }
void omp_init_lock(void** l) { auto m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *l = m; }
void omp_destroy_lock(void** l) { pthread_mutex_destroy((pthread_mutex_t*)*l); delete (pthread_mutex_t*)*l; }
void omp_set_lock(void** l) { Jitter(); pthread_mutex_lock((pthread_mutex_t*)*l); }
void omp_unset_lock(void** l) { pthread_mutex_unlock((pthread_mutex_t*)*l); }
// Tasks are executed at once by the thread that creates them.
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (!cpy) { fn(data); return; } char* buf = new char[size_t(size+align)]; char* p = (char*)((uintptr_t(buf)+uintptr_t(align)-1) & ~(uintptr_t(align)-1)); cpy(p, data); fn(p); delete[] buf;
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskyield() {}
}
