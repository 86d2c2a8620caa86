/* Single-threaded stand-in for libgomp: every parallel region runs with a team of one. */
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned long ul; typedef unsigned long long ull;
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void) n; (void) flags; fn(data); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void) n; (void) flags; fn(data); return 1; }
void GOMP_barrier(void) {}
bool GOMP_barrier_cancel(void) { return false; }
bool GOMP_cancel(int w, bool d) { (void) w; (void) d; return false; }
bool GOMP_cancellation_point(int w) { (void) w; return false; }
void GOMP_critical_start(void) {}
void GOMP_critical_end(void) {}
void GOMP_critical_name_start(void **p) { (void) p; }
void GOMP_critical_name_end(void **p) { (void) p; }
void GOMP_atomic_start(void) {}
void GOMP_atomic_end(void) {}
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
bool GOMP_single_start(void) { return true; }
void *GOMP_single_copy_start(void) { return 0; }
void GOMP_single_copy_end(void *d) { (void) d; }
/* the whole iteration space is the first chunk */
static long pa, pb; static int pending;
static bool first(long a, long b, long i, long *s, long *e) { pending = 0; if (i > 0 ? a >= b : a <= b) return false; *s = a; *e = b; return true; }
static bool next(long *s, long *e) { if (!pending) return false; pending = 0; if (pa == pb) return false; *s = pa; *e = pb; return true; }
#define LOOP(K) \
bool GOMP_loop_##K##_start(long a, long b, long i, long c, long *s, long *e) { (void) c; return first(a, b, i, s, e); } \
bool GOMP_loop_##K##_next(long *s, long *e) { return next(s, e); } \
bool GOMP_loop_ordered_##K##_start(long a, long b, long i, long c, long *s, long *e) { (void) c; return first(a, b, i, s, e); } \
bool GOMP_loop_ordered_##K##_next(long *s, long *e) { return next(s, e); } \
bool GOMP_loop_ull_##K##_start(bool up, ull a, ull b, ull i, ull c, ull *s, ull *e) { (void) i; (void) c; if (up ? a >= b : a <= b) return false; *s = a; *e = b; return true; } \
bool GOMP_loop_ull_##K##_next(ull *s, ull *e) { (void) s; (void) e; return false; }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(K) \
bool GOMP_loop_##K##_start(long a, long b, long i, long *s, long *e) { return first(a, b, i, s, e); } \
bool GOMP_loop_##K##_next(long *s, long *e) { return next(s, e); } \
bool GOMP_loop_ull_##K##_start(bool up, ull a, ull b, ull i, ull *s, ull *e) { (void) i; if (up ? a >= b : a <= b) return false; *s = a; *e = b; return true; } \
bool GOMP_loop_ull_##K##_next(ull *s, ull *e) { (void) s; (void) e; return false; }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
static void ploop(void (*fn)(void *), void *d, long a, long b, long i) { pa = a; pb = (i > 0 ? a < b : a > b) ? b : a; pending = 1; fn(d); pending = 0; }
#define PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned f) { (void) n; (void) c; (void) f; ploop(fn, d, a, b, i); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define RPLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned f) { (void) n; (void) f; ploop(fn, d, a, b, i); }
RPLOOP(runtime) RPLOOP(nonmonotonic_runtime) RPLOOP(maybe_nonmonotonic_runtime)
/* reductions whose memory the runtime owns, scan and task reductions are not used by the library */
void GOMP_loop_end(void) {}
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { return false; }
static unsigned secn, seck;
unsigned GOMP_sections_next(void) { return seck < secn ? ++seck : 0; }
unsigned GOMP_sections_start(unsigned n) { secn = n; seck = 0; return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned k, unsigned f) { (void) n; (void) f; secn = k; seck = 0; fn(d); }
void GOMP_sections_end(void) {}
void GOMP_sections_end_nowait(void) {}
bool GOMP_sections_end_cancel(void) { return false; }
void GOMP_task(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long sz, long al, bool c, unsigned f, void **dep, int pr, void *det)
{
    (void) c; (void) f; (void) dep; (void) pr; (void) det;
    if (!cpy) { fn(d); return; }
    char *b = (char *) malloc(sz + al);
    char *a = (char *) (((uintptr_t) b + al - 1) & ~(uintptr_t) (al - 1));
    cpy(a, d); fn(a); free(b);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_thread_num(void) { return 0; }
int omp_get_num_threads(void) { return 1; }
int omp_get_max_threads(void) { return 1; }
int omp_get_num_procs(void) { return 1; }
int omp_get_thread_limit(void) { return 1; }
int omp_get_level(void) { return 0; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_in_parallel(void) { return 0; }
void omp_set_num_threads(int n) { (void) n; }
void omp_set_dynamic(int n) { (void) n; }
void omp_set_nested(int n) { (void) n; }
void omp_set_schedule(int k, int c) { (void) k; (void) c; }
int omp_get_num_devices(void) { return 0; }
int omp_get_default_device(void) { return 0; }
int omp_is_initial_device(void) { return 1; }
double omp_get_wtime(void) { return 0; }
double omp_get_wtick(void) { return 1; }
typedef struct { int x; } olock;
void omp_init_lock(olock *l) { l->x = 0; }
void omp_destroy_lock(olock *l) { l->x = -1; }
void omp_set_lock(olock *l) { l->x = 1; }
void omp_unset_lock(olock *l) { l->x = 0; }
int omp_test_lock(olock *l) { if (l->x) return 0; l->x = 1; return 1; }
typedef struct { int lock, count; void *owner; } nlock;
void omp_init_nest_lock(nlock *l) { l->count = 0; }
void omp_destroy_nest_lock(nlock *l) { l->count = -1; }
void omp_set_nest_lock(nlock *l) { l->count++; }
void omp_unset_nest_lock(nlock *l) { l->count--; }
int omp_test_nest_lock(nlock *l) { return ++l->count; }
