/* A small OpenMP runtime on pthreads, replacing libgomp in the executables under ThreadSanitizer: every
   synchronisation is then visible to the race detector, the number of threads can be chosen per case, and
   delays and yields are injected at thread starts, locks, unlocks and barriers. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <string.h>
int shim_threads = 1;            /* team size of the outermost parallel regions */
unsigned long long shim_seed = 1; /* delays: 0 = none */
unsigned long long shim_regions, shim_locks, shim_contended, shim_delays, shim_max_team;
unsigned long long shim_trace; /* hash of the order in which threads got the locks */
static pthread_mutex_t stat_m = PTHREAD_MUTEX_INITIALIZER;
typedef struct { int size; pthread_barrier_t bar; void (*fn)(void*); void* data; } team;
static __thread team* my_team;
static __thread int my_num;
static __thread uint64_t my_rng;
static __thread int my_id;
static int ids;

__attribute__((no_sanitize("thread"))) static uint64_t rnd(void)
{
    if (!my_rng) { my_id = __atomic_add_fetch(&ids, 1, __ATOMIC_RELAXED); my_rng = (shim_seed + 1) * 0x9E3779B97F4A7C15ull + my_id * 0xBF58476D1CE4E5B9ull; }
    my_rng ^= my_rng << 13; my_rng ^= my_rng >> 7; my_rng ^= my_rng << 17;
    return my_rng;
}
__attribute__((no_sanitize("thread"))) void shim_delay(void)
{
    if (!shim_seed) return;
    const uint64_t x = rnd() >> 20;
    if (x % 8 == 0) { __atomic_add_fetch(&shim_delays, 1, __ATOMIC_RELAXED); struct timespec t = {0, (long)(x / 8 % 60) * 1000}; nanosleep(&t, 0); }
    else if (x % 8 < 3) sched_yield();
}
static void tr(void* p) { (void)p; const uint64_t me = my_id; __atomic_store_n(&shim_trace, (__atomic_load_n(&shim_trace, __ATOMIC_RELAXED) * 1099511628211ull) ^ (me + 1), __ATOMIC_RELAXED); }

typedef struct { team* t; int num; uint64_t seed; } arg;
static void* run(void* a_)
{
    arg* a = (arg*)a_;
    my_team = a->t; my_num = a->num; my_rng = 0;
    shim_delay();
    a->t->fn(a->t->data);
    return 0;
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned flags)
{
    (void)flags;
    int n = num_threads ? (int)num_threads : shim_threads;
    if (my_team || n < 1) n = 1; /* no nesting */
    team t = {n, {{0}}, fn, data};
    if (n > 1) pthread_barrier_init(&t.bar, 0, n);
    team* old = my_team; int oldn = my_num;
    pthread_t th[64]; arg a[64];
    if (n > 64) n = t.size = 64;
    if (n > 1) { __atomic_add_fetch(&shim_regions, 1, __ATOMIC_RELAXED); if ((unsigned)n > __atomic_load_n(&shim_max_team, __ATOMIC_RELAXED)) __atomic_store_n(&shim_max_team, n, __ATOMIC_RELAXED); }
    for (int i = 1; i < n; ++i) { a[i].t = &t; a[i].num = i; pthread_create(&th[i], 0, run, &a[i]); }
    if (n > 1 || !old) { my_team = &t; my_num = 0; } else { my_team = &t; my_num = 0; }
    if (n > 1) shim_delay();
    fn(data);
    my_team = old; my_num = oldn;
    for (int i = 1; i < n; ++i) pthread_join(th[i], 0);
    if (n > 1) pthread_barrier_destroy(&t.bar);
}
void GOMP_barrier(void) { if (my_team && my_team->size > 1) { shim_delay(); pthread_barrier_wait(&my_team->bar); shim_delay(); } }
int omp_get_num_threads(void) { return my_team ? my_team->size : 1; }
int omp_get_thread_num(void) { return my_num; }
int omp_get_max_threads(void) { return shim_threads; }
void omp_set_num_threads(int n) { shim_threads = n; }
int omp_in_parallel(void) { return my_team && my_team->size > 1; }

/* locks: one pthread mutex per lock, found through the 4 bytes of omp_lock_t */
static void take(pthread_mutex_t* m)
{
    shim_delay();
    __atomic_add_fetch(&shim_locks, 1, __ATOMIC_RELAXED);
    if (pthread_mutex_trylock(m)) { __atomic_add_fetch(&shim_contended, 1, __ATOMIC_RELAXED); pthread_mutex_lock(m); }
    tr(m);
}
static void give(pthread_mutex_t* m) { pthread_mutex_unlock(m); shim_delay(); }
static pthread_mutex_t* table[65536];
static int tableN;
void omp_init_lock(int* l)
{
    pthread_mutex_lock(&stat_m);
    const int k = ++tableN;
    if (k >= 65536) abort();
    pthread_mutex_t* m = (pthread_mutex_t*)malloc(sizeof *m);
    pthread_mutex_init(m, 0);
    table[k] = m;
    *l = k;
    pthread_mutex_unlock(&stat_m);
}
void omp_destroy_lock(int* l) { (void)l; } /* as with libgomp a lock stays usable: static loggers are destroyed after their mutex */
__attribute__((no_sanitize("thread"))) static pthread_mutex_t* mutexOf(int* l) { return table[*l]; }
void omp_set_lock(int* l) { take(mutexOf(l)); }
void omp_unset_lock(int* l) { give(mutexOf(l)); }
int omp_test_lock(int* l) { return pthread_mutex_trylock(mutexOf(l)) == 0; }
/* critical sections; a static table: looking one up must not order threads */
#define M4 PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER
#define M16 M4, M4, M4, M4
static pthread_mutex_t crit[64] = {M16, M16, M16, M16};
static pthread_mutex_t* critOf(void* p) { return &crit[((uintptr_t)p / 8 * 2654435761u >> 8) % 64]; }
void GOMP_critical_name_start(void** p) { take(critOf(p)); }
void GOMP_critical_name_end(void** p) { give(critOf(p)); }
static void* unnamed;
void GOMP_critical_start(void) { GOMP_critical_name_start(&unnamed); }
void GOMP_critical_end(void) { GOMP_critical_name_end(&unnamed); }
static void* atomicName;
void GOMP_atomic_start(void) { GOMP_critical_name_start(&atomicName); }
void GOMP_atomic_end(void) { GOMP_critical_name_end(&atomicName); }
/* dynamic schedules: handed out one by one */
static __thread long dynNext, dynEnd, dynIncr, dynChunk; /* static distribution of chunks over the team */
int GOMP_loop_nonmonotonic_dynamic_next(long* s, long* e)
{
    if (dynIncr > 0 ? dynNext >= dynEnd : dynNext <= dynEnd) return 0;
    *s = dynNext; *e = dynNext + dynChunk * dynIncr;
    if (dynIncr > 0 ? *e > dynEnd : *e < dynEnd) *e = dynEnd;
    dynNext += dynChunk * dynIncr * omp_get_num_threads();
    shim_delay();
    return 1;
}
int GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long incr, long chunk, long* is, long* ie)
{
    dynChunk = chunk; dynIncr = incr; dynEnd = e; dynNext = s + chunk * incr * omp_get_thread_num();
    return GOMP_loop_nonmonotonic_dynamic_next(is, ie);
}
int GOMP_loop_dynamic_start(long s, long e, long i, long c, long* is, long* ie) { return GOMP_loop_nonmonotonic_dynamic_start(s, e, i, c, is, ie); }
int GOMP_loop_dynamic_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
int GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long* is, long* ie) { return GOMP_loop_nonmonotonic_dynamic_start(s, e, i, c, is, ie); }
int GOMP_loop_nonmonotonic_guided_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
int GOMP_single_start(void) { return omp_get_thread_num() == 0; }
