#include "omp_explore.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include <malloc.h>
#include <dlfcn.h>
#include <link.h>
#include <cerrno>
#include <sys/mman.h>
using std::string; using std::vector;
enum { MAXT = 8, STK = 1 << 20 };
string omp_problem;
static int g_team = 1;

// ---------------------------------------------------------------- choice tree
struct Ch { int n, cur, reg; };
static vector<Ch> path; static size_t pos; static int bound, used; static bool exploring; static OmpStats *S; static int g_region;
static int choose(int n) {
  if (n <= 1) return 0;
  if (!exploring) return 0;
  S->choices++;
  if (pos < path.size()) { if (path[pos].n > n) path[pos].n = n; return path[pos++].cur; }
  path.push_back({n, 0, g_region}); pos++; return 0;
}
// ---------------------------------------------------------------- coroutines
struct Ctxt { void *sp; };
extern "C" void omp_switch(Ctxt *from, Ctxt *to);
asm(".text\n.globl omp_switch\nomp_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov (%rsi),%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
typedef uint32_t clk;
struct VC { clk c[MAXT]; };
static void vjoin(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
enum St { READY, BLOCKED, BARRIER, DONE };
struct Th { Ctxt cx; char *stk; St st; void *on; VC vc; int single, loop, sect; };
static Th th[MAXT]; static Ctxt mainc; static int cur = -1, nteam; static bool in_region; static void (*rfn)(void *); static void *rdata;
static long rsync; static VC barvc; static int barcnt;
struct LockS { void *a; int owner; VC vc; };
static vector<LockS> locks; static LockS glob, crit; static vector<std::pair<void *, VC>> atoms;
// work sharing of the current region
struct Loop { long a, b, i, c, next; bool init; int left; unsigned long ua, ub, ui, uc, unext; bool up; VC vc; };
static vector<Loop> loops; struct Sing { int taken; }; static vector<int> singles; static vector<std::pair<int, int>> sects; static void *copypriv;

// ---------------------------------------------------------------- thread-local storage: every thread of the team has its own copy
struct Tls { char *a; size_t n; const char *init; size_t ninit; };
static vector<Tls> tls; static vector<char> tlsimg[MAXT]; static bool tlsok;
static int tls_cb(struct dl_phdr_info *i, size_t, void *first) {
  if (*(int *)first) { *(int *)first = 0; // the program itself, with the library linked into it
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data)
      tls.push_back({(char *)i->dlpi_tls_data, (size_t)i->dlpi_phdr[k].p_memsz, (const char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), (size_t)i->dlpi_phdr[k].p_filesz}); }
  return 0;
}
static void tls_init() {
  if (tlsok) return; tlsok = true; int first = 1; dl_iterate_phdr(tls_cb, &first); tls.push_back({(char *)&errno, sizeof(int), 0, 0});
  for (int t = 0; t < MAXT; t++) for (auto &x : tls) { size_t o = tlsimg[t].size(); tlsimg[t].resize(o + x.n, 0); if (x.ninit) memcpy(&tlsimg[t][o], x.init, x.ninit); }
}
extern "C" void *__real_memcpy(void *, const void *, size_t);
static void tls_move(int t, bool save) { size_t o = 0; for (auto &x : tls) { if (save) __real_memcpy(&tlsimg[t][o], x.a, x.n); else __real_memcpy(x.a, &tlsimg[t][o], x.n); o += x.n; } }
static bool in_tls(uintptr_t a) { for (auto &x : tls) if (a - (uintptr_t)x.a < x.n) return true; return false; }

// ---------------------------------------------------------------- shadow memory
struct Cell { uintptr_t g; uint32_t gen; struct B { clk w; clk r[4]; uint8_t wt, watom; uint8_t ratom; } b[8]; };
static Cell *cells; static const size_t NC = 1 << 18; static uint32_t gen; static size_t fill_;
static Cell &cell(uintptr_t g) {
  size_t h = (g * 0x9E3779B97F4A7C15ull) >> 46;
  for (;;) { Cell &c = cells[h]; if (c.gen != gen) { if (++fill_ > NC * 3 / 4) { fprintf(stderr, "shadow full\n"); abort(); } c.gen = gen; c.g = g; memset(c.b, 0, sizeof c.b); return c; } if (c.g == g) return c; h = (h + 1) & (NC - 1); }
}
static void race(uintptr_t a, int other, const char *k1, const char *k2, void *pc) {
  if (!omp_problem.empty()) return;
  Dl_info di; char w[300] = "?";
  if (dladdr(pc, &di)) snprintf(w, sizeof w, "%s+0x%lx", di.dli_sname ? di.dli_sname : "?", (long)((char *)pc - (char *)(di.dli_saddr ? di.dli_saddr : di.dli_fbase)));
  char m[600]; snprintf(m, sizeof m, "data race: thread %d %s, thread %d %s of the same memory without synchronization, in %s", other, k2, cur, k1, w);
  omp_problem = m;
}
static void access1(uintptr_t a, bool wr, bool atom, void *pc) {
  Cell &c = cell(a >> 3); auto &b = c.b[a & 7]; VC &v = th[cur].vc;
  if (b.w && b.wt != cur && b.w > v.c[b.wt] && !(atom && b.watom)) race(a, b.wt, wr ? "writes" : "reads", "writes", pc);
  if (wr) {
    for (int t = 0; t < 4; t++) if (t != cur && b.r[t] > v.c[t] && !(atom && (b.ratom >> t & 1))) race(a, t, "writes", "reads", pc);
    b.w = v.c[cur]; b.wt = cur; b.watom = atom;
  } else { b.r[cur] = v.c[cur]; if (atom) b.ratom |= 1 << cur; else b.ratom &= ~(1 << cur); }
}
static inline void acc(const void *p, size_t n, bool wr, void *pc, bool atom = false) {
  if (!in_region || cur < 0) return;
  uintptr_t a = (uintptr_t)p; if (in_tls(a)) return;
  if (S) S->accesses++;
  for (size_t k = 0; k < n; k++) access1(a + k, wr, atom, pc);
}
static void fresh(void *p, size_t n) { // newly allocated memory has no history
  if (!in_region || cur < 0) return;
  for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n) >> 3; g++) { Cell &c = cell(g); memset(c.b, 0, sizeof c.b); }
}
// ---------------------------------------------------------------- scheduler
static void finish_all() { if (cur) { tls_move(cur, true); tls_move(0, false); } omp_switch(&th[cur].cx, &mainc); }
static void deadlock() { if (omp_problem.empty()) omp_problem = "deadlock: every thread of the team waits"; }
static int pick(bool can_go_on) { // next thread to run
  int opt[MAXT], n = 0;
  if (can_go_on) opt[n++] = cur;
  if (!can_go_on || bound < 0 || used < bound) for (int t = 0; t < nteam; t++) if (t != cur && th[t].st == READY) opt[n++] = t;
  if (!n) return -1;
  int k = choose(n); if (can_go_on && k) used++;
  return opt[k];
}
static void go(int t) { if (t == cur) return; int f = cur; cur = t; tls_move(f, true); tls_move(t, false); omp_switch(&th[f].cx, &th[t].cx); }
static void sched(bool can_go_on) { int t = pick(can_go_on); if (t < 0) { deadlock(); finish_all(); } go(t); }
static void point() { if (!in_region || cur < 0) return; rsync++; if (S) S->syncs++; sched(true); }
static void tick() { th[cur].vc.c[cur]++; }
static void thread_main() {
  rfn(rdata);
  th[cur].st = DONE;
  // an implicit barrier at the end: threads waiting in an explicit barrier can never be released by us
  int t = pick(false);
  if (t < 0) { for (int k = 0; k < nteam; k++) if (th[k].st != DONE) { if (omp_problem.empty()) omp_problem = "deadlock: a thread waits for a team member that has left the region"; } finish_all(); }
  go(t); abort();
}
static vector<char *> stacks; static std::set<void *> reached;
static bool symok = false;
static void run_region(void (*fn)(void *), void *data, int n) {
  if (n > MAXT) n = MAXT; if (n > 4) n = 4;
  if (in_region || n <= 1) { // nested or plain
    if (in_region && cur >= 0) { int sv = nteam; fn(data); (void)sv; return; }
    reached.insert((void *)fn); fn(data); return;
  }
  reached.insert((void *)fn);
  while ((int)stacks.size() < n) { char *s = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); stacks.push_back(s); }
  if (!cells) cells = (Cell *)mmap(0, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  gen++; fill_ = 0; g_region++; rsync = 0; rfn = fn; rdata = data; nteam = n; locks.clear(); memset(&glob, 0, sizeof glob); glob.owner = -1; crit = glob; atoms.clear(); loops.clear(); singles.clear(); sects.clear(); barcnt = 0;
  if (S) S->regions++;
  for (int t = 0; t < n; t++) {
    Th &h = th[t]; h.stk = stacks[t]; h.st = READY; h.on = 0; memset(&h.vc, 0, sizeof h.vc); h.vc.c[t] = 1; h.single = h.loop = h.sect = 0;
    void **sp = (void **)(h.stk + STK - 64); *--sp = 0; *--sp = (void *)thread_main; for (int k = 0; k < 6; k++) *--sp = 0; h.cx.sp = sp;
  }
  tls_init(); in_region = true; int opt = choose(n); cur = opt; if (opt) { tls_move(0, true); tls_move(opt, false); } omp_switch(&mainc, &th[opt].cx);
  in_region = false; cur = -1;
  if (S && rsync > S->maxsync) S->maxsync = rsync;
  // without any synchronization and without a race the order of the threads cannot matter
  if (!rsync && exploring) for (auto &c : path) if (c.reg == g_region) c.n = c.cur + 1;
}
static LockS &lk(void *a) { for (auto &l : locks) if (l.a == a) return l; LockS l; memset(&l, 0, sizeof l); l.a = a; l.owner = -1; locks.push_back(l); return locks.back(); }
static void acquire(void *key, LockS *fixed) {
  if (!in_region || cur < 0) { return; }
  point();
  for (;;) {
    LockS &l = fixed ? *fixed : lk(key);
    if (l.owner < 0) { l.owner = cur; vjoin(th[cur].vc, l.vc); return; }
    th[cur].st = BLOCKED; th[cur].on = fixed ? (void *)fixed : key; sched(false);
  }
}
static void release(void *key, LockS *fixed) {
  if (!in_region || cur < 0) return;
  LockS &l = fixed ? *fixed : lk(key);
  if (l.owner != cur && omp_problem.empty()) omp_problem = "a lock is released by a thread that does not hold it";
  l.owner = -1; l.vc = th[cur].vc; tick();
  void *o = fixed ? (void *)fixed : key; for (int t = 0; t < nteam; t++) if (th[t].st == BLOCKED && th[t].on == o) th[t].st = READY;
  point();
}
static void barrier() {
  if (!in_region || cur < 0) return;
  rsync++; if (S) S->syncs++;
  th[cur].st = BARRIER; barcnt++;
  if (barcnt == nteam) { VC j; memset(&j, 0, sizeof j); for (int t = 0; t < nteam; t++) vjoin(j, th[t].vc); for (int t = 0; t < nteam; t++) { th[t].vc = j; th[t].vc.c[t] = j.c[t] + 1; th[t].st = READY; } barcnt = 0; sched(true); }
  else sched(false);
}
static void atomic_point(const volatile void *p, size_t n, bool wr, int mo, void *pc) {
  if (!in_region || cur < 0) return;
  point(); acc((const void *)p, n, false, pc, true); if (wr) acc((const void *)p, n, true, pc, true);
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { int k = n ? (int)n : g_team; if (k > g_team && g_team > 1) k = g_team; if (g_team == 1) k = 1; run_region(fn, d, k); }
void GOMP_barrier(void) { barrier(); }
void GOMP_critical_start(void) { acquire(0, &crit); }
void GOMP_critical_end(void) { release(0, &crit); }
void GOMP_critical_name_start(void **p) { acquire(p, 0); }
void GOMP_critical_name_end(void **p) { release(p, 0); }
void GOMP_atomic_start(void) { acquire(0, &glob); }
void GOMP_atomic_end(void) { release(0, &glob); }
bool GOMP_single_start(void) { if (!in_region) return true; point(); int k = th[cur].single++; while ((int)singles.size() <= k) singles.push_back(0); return !singles[k]++; }
void *GOMP_single_copy_start(void) { if (GOMP_single_start()) return 0; barrier(); return copypriv; }
void GOMP_single_copy_end(void *d) { copypriv = d; barrier(); }
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {}
void GOMP_task(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int) {
  if (cpy) { char *b = (char *)malloc(sz + al); char *a = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(a, d); fn(a); free(b); } else fn(d); }
void GOMP_taskwait(void) {} void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {} void GOMP_taskyield(void) {}
// work-sharing loops: every chunk is handed to whichever thread asks next
static bool lnext(Loop &l, long *s, long *e) { if (l.i > 0 ? l.next >= l.b : l.next <= l.b) return false; *s = l.next; long st = l.i * (l.c > 0 ? l.c : 1); l.next += st; if (l.i > 0 ? l.next > l.b : l.next < l.b) l.next = l.b; *e = l.next; return true; }
static Loop solo; static bool nxt(long *s, long *e) { if (!in_region) return lnext(solo, s, e); point(); return lnext(loops[th[cur].loop - 1], s, e); }
static bool start(long a, long b, long i, long c, long *s, long *e) {
  if (!in_region) { memset(&solo, 0, sizeof solo); solo.a = solo.next = a; solo.b = b; solo.i = i; solo.c = c; return lnext(solo, s, e); }
  int k = th[cur].loop++; while ((int)loops.size() <= k) { Loop l; memset(&l, 0, sizeof l); loops.push_back(l); }
  if (!loops[k].init) { loops[k].init = true; loops[k].a = loops[k].next = a; loops[k].b = b; loops[k].i = i; loops[k].c = c; }
  return nxt(s, e);
}
#define LP(K) bool GOMP_loop_##K##_start(long a, long b, long i, long c, long *s, long *e) { return start(a, b, i, c, s, e); } bool GOMP_loop_##K##_next(long *s, long *e) { return nxt(s, e); }
LP(static) LP(dynamic) LP(guided) LP(nonmonotonic_dynamic) LP(nonmonotonic_guided)
#define LR(K) bool GOMP_loop_##K##_start(long a, long b, long i, long *s, long *e) { return start(a, b, i, 1, s, e); } bool GOMP_loop_##K##_next(long *s, long *e) { return nxt(s, e); }
LR(runtime) LR(nonmonotonic_runtime) LR(maybe_nonmonotonic_runtime)
#define LU(K) bool GOMP_loop_ull_##K##_start(bool up, unsigned long a, unsigned long b, unsigned long i, unsigned long c, unsigned long *s, unsigned long *e) { (void)up; return start(a, b, i, c, (long *)s, (long *)e); } bool GOMP_loop_ull_##K##_next(unsigned long *s, unsigned long *e) { return nxt((long *)s, (long *)e); }
LU(static) LU(dynamic) LU(guided) LU(nonmonotonic_dynamic) LU(nonmonotonic_guided)
void GOMP_loop_end(void) { barrier(); } void GOMP_loop_end_nowait(void) {}
struct PL { void (*fn)(void *); void *d; long a, b, i, c; };
static PL *plp; static void pl_body(void *) { plp->fn(plp->d); }
static void ploop(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c) {
  // the team enters with the loop already started
  PL p = {fn, d, a, b, i, c}; PL *o = plp; plp = &p;
  if (g_team == 1 || in_region) { Loop sv = solo; memset(&solo, 0, sizeof solo); solo.a = solo.next = a; solo.b = b; solo.i = i; solo.c = c; fn(d); solo = sv; plp = o; return; }
  struct W { static void f(void *q) { PL *p = (PL *)q; int k = th[cur].loop++; while ((int)loops.size() <= k) { Loop l; memset(&l, 0, sizeof l); loops.push_back(l); } if (!loops[k].init) { loops[k].init = true; loops[k].a = loops[k].next = p->a; loops[k].b = p->b; loops[k].i = p->i; loops[k].c = p->c; } p->fn(p->d); } };
  reached.insert((void *)fn); run_region(W::f, &p, n ? (int)n : g_team); plp = o;
}
#define PLP(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned) { ploop(fn, d, n, a, b, i, c); }
PLP(static) PLP(dynamic) PLP(guided) PLP(nonmonotonic_dynamic) PLP(nonmonotonic_guided)
#define PLR(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned) { ploop(fn, d, n, a, b, i, 1); }
PLR(runtime) PLR(nonmonotonic_runtime) PLR(maybe_nonmonotonic_runtime)
static int ssn, ssk; // a sections construct outside of any team
unsigned GOMP_sections_next(void) { if (!in_region) return ssk < ssn ? ++ssk : 0; point(); auto &s = sects[th[cur].sect - 1]; return s.first < s.second ? ++s.first : 0; }
unsigned GOMP_sections_start(unsigned n) { if (!in_region) { ssn = n; ssk = 0; return GOMP_sections_next(); } int k = th[cur].sect++; while ((int)sects.size() <= k) sects.push_back({0, (int)n}); return GOMP_sections_next(); }
struct PS { void (*fn)(void *); void *d; int n; };
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) {
  if (g_team == 1 || in_region) { int a = ssn, b = ssk; ssn = count; ssk = 0; fn(d); ssn = a; ssk = b; return; }
  PS p = {fn, d, (int)count};
  struct W { static void f(void *q) { PS *p = (PS *)q; int k = th[cur].sect++; while ((int)sects.size() <= k) sects.push_back({0, p->n}); p->fn(p->d); } };
  reached.insert((void *)fn); run_region(W::f, &p, n ? (int)n : g_team);
}
void GOMP_sections_end(void) { barrier(); } void GOMP_sections_end_nowait(void) {}
int omp_get_thread_num(void) { return in_region && cur >= 0 ? cur : 0; }
int omp_get_num_threads(void) { return in_region && cur >= 0 ? nteam : 1; }
int omp_get_max_threads(void) { return g_team; }
int omp_get_num_procs(void) { return g_team; }
int omp_get_thread_limit(void) { return g_team; }
int omp_get_dynamic(void) { return 0; } int omp_get_nested(void) { return 0; } void omp_set_schedule(int, int) {} int omp_get_num_devices(void) { return 0; } int omp_get_default_device(void) { return 0; } int omp_is_initial_device(void) { return 1; }
bool GOMP_barrier_cancel(void) { barrier(); return false; } bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
int omp_in_parallel(void) { return in_region; }
void omp_set_num_threads(int) {} void omp_set_dynamic(int) {} void omp_set_nested(int) {} int omp_get_level(void) { return in_region; }
double omp_get_wtime(void) { return 0; }
void omp_init_lock(void *l) { memset(l, 0, 4); } void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { acquire(l, 0); } void omp_unset_lock(void *l) { release(l, 0); }
int omp_test_lock(void *l) { if (!in_region) return 1; point(); LockS &k = lk(l); if (k.owner >= 0) return 0; k.owner = cur; vjoin(th[cur].vc, k.vc); return 1; }
void omp_init_nest_lock(void *) {} void omp_destroy_nest_lock(void *) {} void omp_set_nest_lock(void *l) { acquire(l, 0); } void omp_unset_nest_lock(void *l) { release(l, 0); }
// ---- instrumentation
#define PC __builtin_return_address(0)
void __tsan_init(void) {} void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
#define RW(N) void __tsan_read##N(void *p) { acc(p, N, false, PC); } void __tsan_write##N(void *p) { acc(p, N, true, PC); } \
  void __tsan_unaligned_read##N(void *p) { acc(p, N, false, PC); } void __tsan_unaligned_write##N(void *p) { acc(p, N, true, PC); } \
  void __tsan_volatile_read##N(void *p) { acc(p, N, false, PC); } void __tsan_volatile_write##N(void *p) { acc(p, N, true, PC); } \
  void __tsan_unaligned_volatile_read##N(void *p) { acc(p, N, false, PC); } void __tsan_unaligned_volatile_write##N(void *p) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false, PC); } void __tsan_write_range(void *p, size_t n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void *, void *) {} void __tsan_vptr_read(void *) {}
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T *p, int mo) { atomic_point(p, N / 8, true, mo, PC); return *p; } \
  void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { atomic_point(p, N / 8, true, mo, PC); *p = v; } \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { atomic_point(p, N / 8, true, mo, PC); T o = *p; *p = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { atomic_point(p, N / 8, true, mo, PC); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { atomic_point(p, N / 8, true, mo, PC); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { atomic_point(p, N / 8, true, mo, PC); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { atomic_point(p, N / 8, true, mo, PC); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { atomic_point(p, N / 8, true, mo, PC); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int) { atomic_point(p, N / 8, true, mo, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int) { atomic_point(p, N / 8, true, mo, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int mo, int) { atomic_point(p, N / 8, true, mo, PC); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// ---- library calls that move memory
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (in_region && cur >= 0) { acc(s, n, false, PC); acc(d, n, true, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (in_region && cur >= 0) { acc(s, n, false, PC); acc(d, n, true, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (in_region && cur >= 0) acc(d, n, true, PC); return __real_memset(d, c, n); }
void omp_hook_alloc(void *p, size_t n) { if (p) fresh(p, n); }
void omp_hook_free(void *p) { if (p && in_region && cur >= 0) { size_t n = malloc_usable_size(p); acc(p, n, true, PC); fresh(p, n); } }
void omp_hook_rand(void) { static int state; acc(&state, 4, false, PC, true); acc(&state, 4, true, PC, true); }
void omp_hook_abandon(void) { in_region = false; cur = -1; plp = 0; } // an error exit inside a region left the team behind
#define MATR(A, ld, r, c, sz, w) do { for (long j_ = 0; j_ < (c); j_++) acc((char *)(A) + j_ * (long)(ld) * (sz), (size_t)(r) * (sz), w, PC); } while (0)
#define GEMM(P, SZ) void __real_##P##gemm_(const char *, const char *, const int *, const int *, const int *, const void *, const void *, const int *, const void *, const int *, const void *, void *, const int *); \
  void __wrap_##P##gemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const void *al, const void *A, const int *lda, const void *B, const int *ldb, const void *be, void *C, const int *ldc) { \
    if (in_region && cur >= 0) { bool na = *ta == 'n' || *ta == 'N', nb = *tb == 'n' || *tb == 'N'; MATR(A, *lda, na ? *m : *k, na ? *k : *m, SZ, false); MATR(B, *ldb, nb ? *k : *n, nb ? *n : *k, SZ, false); MATR(C, *ldc, *m, *n, SZ, true); } \
    __real_##P##gemm_(ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc); }
GEMM(s, 4) GEMM(d, 8) GEMM(c, 8) GEMM(z, 16)
#define VEC(x, n, inc, sz, w) do { for (long k_ = 0; k_ < (n); k_++) acc((char *)(x) + k_ * (long)(inc) * (sz), sz, w, PC); } while (0)
#define L1(P, SZ) void __real_##P##axpy_(const int *, const void *, const void *, const int *, void *, const int *); void __real_##P##scal_(const int *, const void *, void *, const int *); \
  void __wrap_##P##axpy_(const int *n, const void *a, const void *x, const int *ix, void *y, const int *iy) { if (in_region && cur >= 0) { VEC(x, *n, *ix, SZ, false); VEC(y, *n, *iy, SZ, true); } __real_##P##axpy_(n, a, x, ix, y, iy); } \
  void __wrap_##P##scal_(const int *n, const void *a, void *x, const int *ix) { if (in_region && cur >= 0) VEC(x, *n, *ix, SZ, true); __real_##P##scal_(n, a, x, ix); }
L1(s, 4) L1(d, 8) L1(c, 8) L1(z, 16)
}
// ---------------------------------------------------------------- exploration
bool omp_explorer_present() { return true; }
void omp_team(int n) { g_team = n; }
void omp_run_begin(int team) { g_team = team; }
void omp_run_end() { g_team = 1; in_region = false; cur = -1; }
string omp_schedule() { string s; for (size_t k = 0; k < pos && k < path.size(); k++) { s += (k ? "," : "") + std::to_string(path[k].cur); } return s; }
OmpStats omp_explore_all(int team, int preempt, long cap, const std::function<bool()> &body) {
  OmpStats st; S = &st; path.clear(); bound = preempt; exploring = true;
  for (;;) {
    pos = 0; used = 0; g_region = 0; omp_problem.clear(); st.schedules++;
    bool cont = body();
    path.resize(pos < path.size() ? pos : path.size());
    while (!path.empty() && path.back().cur + 1 >= path.back().n) path.pop_back();
    if (path.empty() || !cont) break;
    if (st.schedules >= cap) { st.cut = true; break; }
    path.back().cur++;
  }
  exploring = false; S = 0; g_team = 1; in_region = false; cur = -1; return st;
}
void omp_regions(int &r, int &total) { r = reached.size(); total = 0; }
extern "C" const void *omp_reached(int k) { for (auto p : reached) if (k-- == 0) return p; return 0; }
