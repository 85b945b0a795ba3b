// A minimal OpenMP runtime for the native replay: one thread per iteration (as far as there are
// threads), or, with QKV_SEQUENTIAL, the iterations one after the other.
#include <pthread.h>
#include <cstdarg>
#include <cstdlib>
#include <vector>
typedef int kmp_int32;
typedef void (*micro)(kmp_int32 *, kmp_int32 *, ...);
#ifdef QKV_SEQUENTIAL
enum { TEAM = 1 };
#else
enum { TEAM = 192 };
#endif
static thread_local int tid = 0;
static thread_local bool inside = false;
struct job { micro fn; std::vector<void *> a; int id; pthread_barrier_t * bar; };
static thread_local pthread_barrier_t * bar = 0;
static void run(job & j)
{
    void * a[20] = {0};
    for (size_t k = 0; k < j.a.size() && k < 20; ++k) a[k] = j.a[k];
    int g = j.id, b = j.id;
    j.fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19]);
}
static void * entry(void * p)
{
    job & j = *(job *)p;
    tid = j.id;
    inside = true;
    bar = j.bar;
    run(j);
    return 0;
}
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static thread_local long dlo, dup;
static thread_local bool dtodo;
static void share(long lo, long up, long & l, long & u, bool & last)
{
    long n = up - lo + 1;
    if (n < 0) n = 0;
    if (!inside) { l = lo; u = up; last = true; return; }
    if (n <= TEAM) { l = lo + tid; u = tid < n ? l : l - 1; last = tid == n - 1; if (tid >= n) { l = up + 1; u = up; } return; }
    l = lo + n * tid / TEAM;
    u = lo + n * (tid + 1) / TEAM - 1;
    last = tid == TEAM - 1;
}
extern "C" {
void __kmpc_fork_call(void *, kmp_int32 n, micro fn, ...)
{
    job base;
    base.fn = fn;
    va_list ap;
    va_start(ap, fn);
    for (int i = 0; i < n; ++i) base.a.push_back(va_arg(ap, void *));
    va_end(ap);
    base.id = 0;
    base.bar = 0;
    if (TEAM == 1 || inside) { run(base); return; }
    pthread_barrier_t b;
    pthread_barrier_init(&b, 0, TEAM);
    base.bar = &b;
    std::vector<job> js(TEAM, base);
    std::vector<pthread_t> ts(TEAM);
    for (int i = 0; i < TEAM; ++i) { js[i].id = i; if (pthread_create(&ts[i], 0, entry, &js[i])) abort(); }
    for (int i = 0; i < TEAM; ++i) pthread_join(ts[i], 0);
    pthread_barrier_destroy(&b);
}
#define STATIC(NAME, T) \
void __kmpc_for_static_init_##NAME(void *, kmp_int32, kmp_int32, kmp_int32 * last, T * lb, T * ub, T * st, T, T) \
{ long l, u; bool la; share((long)*lb, (long)*ub, l, u, la); long n = (long)*ub - (long)*lb + 1; *st = (T)(n > 0 ? n : 1); *lb = (T)l; *ub = (T)u; *last = la; } \
void __kmpc_dispatch_init_##NAME(void *, kmp_int32, kmp_int32, T lb, T ub, T, T) { dlo = (long)lb; dup = (long)ub; dtodo = true; } \
int __kmpc_dispatch_next_##NAME(void *, kmp_int32, kmp_int32 * last, T * lb, T * ub, T * st) \
{ if (!dtodo) return 0; dtodo = false; long l, u; bool la; share(dlo, dup, l, u, la); if (l > u) return 0; *lb = (T)l; *ub = (T)u; *st = 1; *last = la; return 1; } \
void __kmpc_dispatch_fini_##NAME(void *, kmp_int32) {}
STATIC(4, int)
STATIC(4u, unsigned)
STATIC(8, long)
STATIC(8u, unsigned long)
void __kmpc_for_static_fini(void *, kmp_int32) {}
void __kmpc_push_num_threads(void *, kmp_int32, kmp_int32) {}
kmp_int32 __kmpc_global_thread_num(void *) { return tid; }
void __kmpc_barrier(void *, kmp_int32) { if (inside && bar) pthread_barrier_wait(bar); }
void __kmpc_critical(void *, kmp_int32, void *) { pthread_mutex_lock(&mtx); }
void __kmpc_critical_with_hint(void *, kmp_int32, void *, unsigned) { pthread_mutex_lock(&mtx); }
void __kmpc_end_critical(void *, kmp_int32, void *) { pthread_mutex_unlock(&mtx); }
kmp_int32 __kmpc_reduce(void *, kmp_int32, kmp_int32, size_t, void *, void *, void *) { pthread_mutex_lock(&mtx); return 1; }
kmp_int32 __kmpc_reduce_nowait(void *, kmp_int32, kmp_int32, size_t, void *, void *, void *) { pthread_mutex_lock(&mtx); return 1; }
void __kmpc_end_reduce(void *, kmp_int32, void *) { pthread_mutex_unlock(&mtx); if (inside && bar) pthread_barrier_wait(bar); }
void __kmpc_end_reduce_nowait(void *, kmp_int32, void *) { pthread_mutex_unlock(&mtx); }
void __kmpc_serialized_parallel(void *, kmp_int32) {}
void __kmpc_end_serialized_parallel(void *, kmp_int32) {}
kmp_int32 __kmpc_master(void *, kmp_int32) { return tid == 0; }
kmp_int32 __kmpc_masked(void *, kmp_int32, kmp_int32) { return tid == 0; }
void __kmpc_end_master(void *, kmp_int32) {}
void __kmpc_end_masked(void *, kmp_int32) {}
kmp_int32 __kmpc_single(void *, kmp_int32) { return tid == 0; }
void __kmpc_end_single(void *, kmp_int32) {}
void __kmpc_flush(void *) {}
int qkv_thread_num() { return tid; }
}
