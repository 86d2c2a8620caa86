// Exhaustive sequential explorer: enumeration runtime, guarded calls, reference matrices.
#include "seq_core.h"
#include <stdarg.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <algorithm>
#include <fcntl.h>

const char *FMTN[] = {"uninit", "dense", "ellpack", "ellblock", "csr", "dist2d"};
const char *PRECN[] = {"uninit", "single_real", "double_real", "single_complex", "double_complex"};
const char *RECN[] = {"set_fwd", "set_rev", "import_row", "set_new", "overwrite", "clear_refill", "set_row", "transpose", "threshold"};
const char *FAMN[] = {"zero", "identity", "full", "tridiag", "upper", "lower", "antidiag", "first_elem", "last_elem", "dense_row", "dense_col", "checker", "corner", "arrow"};

string strf(const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

// ------------------------------------------------------------------ wraps
jmp_buf g_jb; volatile int g_incall = 0; long g_live = 0; int g_dirty = 0; string g_errtext; string *g_capture = 0; bool g_print_through = false;
long g_alloc_fail_at = -1, g_alloc_count = 0, g_alloc_failed = 0;
extern "C" { // hooks of the OpenMP schedule explorer, absent in the sequential flavour
__attribute__((weak)) void omp_hook_alloc(void *, size_t) {}
__attribute__((weak)) void omp_hook_free(void *) {}
__attribute__((weak)) void omp_hook_rand(void) {}
__attribute__((weak)) void omp_hook_abandon(void) {}
}
static void *al(void *p, size_t n) { omp_hook_alloc(p, n); return p; }
static void away(int k) { omp_hook_abandon(); longjmp(g_jb, k); }
extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void __wrap_exit(int c) { if (g_incall) away(1); __real_exit(c); }
void __wrap_abort() { if (g_incall) away(2); __real_abort(); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  if (g_incall) { g_errtext = strf("assert(%s)", e); away(2); }
  fprintf(stderr, "assert %s %s:%u\n", e, f, l); _exit(98);
}
static inline int fa() { if (g_alloc_fail_at >= 0 && g_incall && g_alloc_count++ == g_alloc_fail_at) { g_alloc_failed = 1; errno = ENOMEM; return 1; } return 0; }
void *__wrap_malloc(size_t s) { if (fa()) return 0; g_live++; return al(__real_malloc(s), s); }
void *__wrap_calloc(size_t a, size_t b) { if (fa()) return 0; g_live++; return al(__real_calloc(a, b), a * b); }
void *__wrap_realloc(void *p, size_t s) { if (fa()) return 0; if (!p) g_live++; else omp_hook_free(p); return al(__real_realloc(p, s), s); }
void __wrap_free(void *p) { if (p) { g_live--; omp_hook_free(p); } __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t s) { if (fa()) return ENOMEM; g_live++; int r = __real_posix_memalign(p, a, s); if (!r) omp_hook_alloc(*p, s); return r; }
int __wrap_backtrace(void **, int) { return 0; }
char **__wrap_backtrace_symbols(void *const *, int) { return 0; }
static void out(const char *s) { if (g_capture) *g_capture += s; else if (g_errtext.size() < 400) g_errtext += s; }
int __wrap_vprintf(const char *f, va_list ap) { if (g_print_through) return vfprintf(stdout, f, ap); char b[2048]; int n = vsnprintf(b, sizeof b, f, ap); out(b); return n; }
int __wrap_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = __wrap_vprintf(f, ap); va_end(ap); return n; }
int __wrap_puts(const char *s) { if (g_print_through) { fputs(s, stdout); return fputc(10, stdout); } out(s); out("\n"); return 0; }
int __wrap_putchar(int c) { if (g_print_through) return fputc(c, stdout); char b[2] = {(char)c, 0}; out(b); return c; }
static unsigned long g_rand = 12345;
void hrand_seed(unsigned long s) { g_rand = s; }
int __wrap_rand() { omp_hook_rand(); g_rand = g_rand * 6364136223846793005UL + 1442695040888963407UL; return (int)(g_rand >> 33); }
const char *__asan_default_options() {
  return "detect_leaks=0:malloc_fill_byte=127:max_malloc_fill_size=1048576:free_fill_byte=126:max_free_fill_size=1048576:allocator_may_return_null=1:"
         "exitcode=99:detect_stack_use_after_return=0:quarantine_size_mb=8:detect_odr_violation=0:handle_abort=0:print_summary=1:symbolize=0:log_path=/dev/null";
}
}

// ------------------------------------------------------------------ reference algebra
Ref r_mul(const Ref &A, const Ref &B) { Ref C(A.n); for (int i = 0; i < A.n; i++) for (int k = 0; k < A.n; k++) { cd x = A(i, k); if (x != cd(0)) for (int j = 0; j < A.n; j++) C(i, j) += x * B(k, j); } return C; }
Ref r_lin(const Ref &A, const Ref &B, cd al, cd be) { Ref C(A.n); for (size_t k = 0; k < C.a.size(); k++) C.a[k] = al * A.a[k] + be * B.a[k]; return C; }
Ref r_scale(const Ref &A, cd al) { Ref C = A; for (auto &x : C.a) x *= al; return C; }
Ref r_id(int n) { Ref C(n); for (int i = 0; i < n; i++) C(i, i) = 1; return C; }
Ref r_tr(const Ref &A) { Ref C(A.n); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) C(j, i) = A(i, j); return C; }
Ref r_had(const Ref &A, const Ref &B) { Ref C(A.n); for (size_t k = 0; k < C.a.size(); k++) C.a[k] = A.a[k] * B.a[k]; return C; }
cd r_trace(const Ref &A) { cd t = 0; for (int i = 0; i < A.n; i++) t += A(i, i); return t; }
string r_str(const Ref &A) {
  string s = "[";
  for (int i = 0; i < A.n; i++) { if (i) s += "; "; for (int j = 0; j < A.n; j++) { if (j) s += " "; cd v = A(i, j); s += v.imag() != 0 ? strf("%.9g%+.9gi", v.real(), v.imag()) : strf("%.9g", v.real()); } if (s.size() > 1500) { s += "..."; break; } }
  return s + "]";
}
string Cfg::str() const {
  string s = strf("fmt=%s prec=%s N=%d M=%d", FMTN[fmt], PRECN[prec], N, M);
  if (fmt == F_ELLBLOCK) { s += " bs="; if (bs.empty()) s += "default"; for (size_t k = 0; k < bs.size(); k++) s += strf("%s%d", k ? "," : "", bs[k]); if (MB) s += strf(" MB=%d", MB); }
  if (sc) s += strf(" values*2^%d", sc);
  return s;
}
cd elem_get(const void *p, int prec, size_t k) {
  switch (prec) {
    case P_SR: return ((const float *)p)[k];
    case P_DR: return ((const double *)p)[k];
    case P_SC: return cd(((const float *)p)[2 * k], ((const float *)p)[2 * k + 1]);
    default: return cd(((const double *)p)[2 * k], ((const double *)p)[2 * k + 1]);
  }
}
void elem_set(void *p, int prec, size_t k, cd v) {
  switch (prec) {
    case P_SR: ((float *)p)[k] = v.real(); break;
    case P_DR: ((double *)p)[k] = v.real(); break;
    case P_SC: ((float *)p)[2 * k] = v.real(); ((float *)p)[2 * k + 1] = v.imag(); break;
    default: ((double *)p)[2 * k] = v.real(); ((double *)p)[2 * k + 1] = v.imag();
  }
}
void Buf::set(size_t k, cd v) { elem_set(b.data(), prec, k, v); }
cd Buf::get(size_t k) const { return elem_get(b.data(), prec, k); }
cd rnd(int prec, cd v) { switch (prec) { case P_SR: return (float)v.real(); case P_DR: return v.real(); case P_SC: return cd((float)v.real(), (float)v.imag()); } return v; }
bool near(cd a, cd b, double tol) {
  if (a == b) return true;
  if (!(std::isfinite(a.real()) && std::isfinite(a.imag()))) return false;
  return std::abs(a - b) <= tol * (1 + std::abs(b));
}

// ------------------------------------------------------------------ context
struct Shared { volatile long idx; volatile long cases, trans, states, nontriv, outcomes, capped, done; };
static Shared *g_sh; static FILE *g_rec; static int g_replay = 0; static double g_deadline = 0; static int g_verbose = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static string jesc(const string &s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += '?'; else o += c; } return o; }
static std::map<string, int> g_sigcount;
static int g_casefail = 0;

bool Ctx::next(std::function<string()> d) {
  if (capped) return false;
  end();
  idx++;
  if (only >= 0) { if (idx != only) return false; }
  else { if (idx < start || (stop >= 0 && idx > stop) || idx % nshard != shard) return false; }
  if ((cases & 63) == 0 && g_deadline && now() > g_deadline) { capped = true; if (g_sh) g_sh->capped = 1; return false; }
  if (g_sh) { g_sh->idx = idx; g_sh->cases = cases + 1; g_sh->trans = transitions; g_sh->states = states; g_sh->nontriv = nontrivial; g_sh->outcomes = outcomes.size(); }
  descf = d; cases++; g_dirty = 0; g_casefail = 0; g_incall = 0; g_capture = 0; g_alloc_fail_at = -1; leakcheck = true;
  alarm(20);
  if (g_replay) { fprintf(stdout, "CASE group=%s idx=%ld : %s\n", group.c_str(), idx, d().c_str()); fflush(stdout); }
  if (cases <= 1 && g_rec) { fprintf(g_rec, "S\t%s\n", jesc(d()).c_str()); fflush(g_rec); }
  extern void hrand_seed_c(unsigned long); 
  live0 = g_live;
  return true;
}
// breadth-first groups: every case runs (later cases depend on earlier ones); a replay stops after its target
bool Ctx::nextbfs(std::function<string()> d) {
  if (capped) return false;
  end();
  idx++;
  long target = only >= 0 ? only : stop;
  if (target >= 0 && idx > target) { capped = true; return false; }
  if ((cases & 63) == 0 && g_deadline && now() > g_deadline) { capped = true; if (g_sh) g_sh->capped = 1; return false; }
  if (g_sh) { g_sh->idx = idx; g_sh->cases = cases + 1; g_sh->trans = transitions; g_sh->states = states; g_sh->nontriv = nontrivial; }
  descf = d; cases++; g_dirty = 0; g_casefail = 0; g_incall = 0; g_capture = 0; g_alloc_fail_at = -1; leakcheck = true; mute = target >= 0 && idx != target;
  alarm(20);
  if (g_replay && !mute) { fprintf(stdout, "CASE group=%s idx=%ld : %s\n", group.c_str(), idx, d().c_str()); fflush(stdout); }
  if (cases <= 1 && g_rec) { fprintf(g_rec, "S\t%s\n", jesc(d()).c_str()); fflush(g_rec); }
  live0 = g_live;
  return true;
}
std::function<void(const string &, const string &)> g_fail_hook; // ranks of the MPI explorer report through their own copy
void Ctx::fail(const string &sig, const string &msg) {
  g_dirty = 1; failed++;
  if (g_fail_hook) { g_fail_hook(sig, msg); return; }
  if (mute) return;
  string full = sig;
  if (g_replay) { fprintf(stdout, "FAIL sig=%s : %s\n", full.c_str(), msg.c_str()); fflush(stdout); }
  if (g_casefail++ > 3) return;
  int &n = g_sigcount[full];
  if (g_rec && n < 2) {
    fprintf(g_rec, "V\t%s\t%ld\t%s\t%s\t%s\t%ld\n", jesc(group).c_str(), idx, jesc(full).c_str(), jesc(descf ? descf() : "").c_str(), jesc(msg).c_str(), start);
    fflush(g_rec);
  }
  n++;
}
static int g_childfail = 0;
void Ctx::childfailed() { failed++; g_dirty = 1; if (!mute) g_childfail = 1; } // a forked case has reported its failure itself
bool Ctx::ok(Outcome o, const string &sig) {
  if (o == OK) return true;
  fail(sig + (o == ERR ? "|refused" : "|assert"), "call that must succeed ended in " + string(o == ERR ? "error exit: " : "assertion: ") + g_errtext);
  return false;
}
void Ctx::end() {
  if (!descf) return;
  if (leakcheck && !g_dirty && g_live != live0) fail(cursig + "|leak", strf("%ld allocations not released after every matrix and buffer was freed", g_live - live0));
  descf = nullptr;
}

// ------------------------------------------------------------------ matrices
static int sumv(const vector<int> &v) { int s = 0; for (int x : v) s += x; return s; }
void prewarm(const Cfg &c) {
  if (c.fmt != F_ELLBLOCK) return;
  void *A = 0;
  if (c.bs.empty()) A = bml_zero_matrix(F_ELLBLOCK, P_DR, c.N, c.M, D_SEQ);
  else { vector<int> bs = c.bs; A = bml_block_matrix(F_ELLBLOCK, P_DR, bs.size(), c.MB ? c.MB : (int)bs.size(), c.M, bs.data(), D_SEQ); }
  bml_deallocate(&A);
}
void *mk_zero(const Cfg &c) {
  if (c.fmt == F_ELLBLOCK && !c.bs.empty() && c.MB) { vector<int> bs = c.bs; return bml_block_matrix(F_ELLBLOCK, c.prec, bs.size(), c.MB, c.M, bs.data(), D_SEQ); }
  return bml_zero_matrix(c.fmt, c.prec, c.N, c.M, D_SEQ);
}
void freem(void *&A) { if (A) bml_deallocate(&A); A = 0; }
vector<char> pat_of(const Ref &r) { vector<char> p(r.a.size()); for (size_t k = 0; k < p.size(); k++) p[k] = r.a[k] != cd(0); return p; }
bool fits(const Cfg &c, const vector<char> &st) {
  int N = c.N;
  if (c.fmt == F_DENSE || c.fmt == F_CSR) return true;
  if (c.fmt == F_ELLPACK) { for (int i = 0; i < N; i++) { int n = 0; for (int j = 0; j < N; j++) n += st[(size_t)i * N + j]; if (n > c.M) return false; } return true; }
  vector<int> bs = c.bs;
  if (bs.empty()) { int left = N; while (left > 0) { bs.push_back(std::min(4, left)); left -= 4; } }
  Cfg d = c; d.bs = bs; int nb = bs.size(), mb = c.MB ? c.MB : c.bs.empty() ? std::min(nb, std::max(4, (c.M + 3) / 4)) : nb;
  for (int ib = 0; ib < nb; ib++) {
    vector<char> u(nb, 0);
    for (int i = 0; i < N; i++) if (d.block_of(i) == ib) for (int j = 0; j < N; j++) if (st[(size_t)i * N + j]) u[d.block_of(j)] = 1;
    int n = 0; for (char x : u) n += x;
    if (n > mb) return false;
  }
  return true;
}
static bool fullcap(const Cfg &c) { vector<char> all((size_t)c.N * c.N, 1); return fits(c, all); }
bool recipe_ok(const Cfg &c, int rec, const Ref &r) {
  if (c.fmt == F_ELLBLOCK && c.MB && c.MB < (int)c.bs.size() && (rec == 2 || rec == 7)) return false; // imports take the process-wide capacity
  if (rec == 8) for (auto &x : r.a) if (x != cd(0) && std::abs(x) < 0.5) return false; // would be taken for filler
  if (rec == 4 || rec == 5 || rec == 8) return fullcap(c);
  if (rec == 7) return fits(c, pat_of(r_tr(r)));
  return true;
}
// Build a matrix holding r through a given history, which fixes its internal layout.
void *mk(Ctx &cx, const Cfg &c, const Ref &r, int rec) {
  int N = c.N; void *A = 0; Buf v(c.prec, 1), row(c.prec, (size_t)N * N + 1);
  Outcome o = call([&] {
    if (!recipe_ok(c, rec, r)) rec = 0;
    if (rec == 2) { for (int k = 0; k < N * N; k++) row.set(k, r.a[k]); A = bml_import_from_dense(c.fmt, c.prec, ROWMAJ, N, c.M, row.p(), 0.0, D_SEQ); return; }
    if (rec == 7) {
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) row.set((size_t)i * N + j, r(j, i));
      void *T = bml_import_from_dense(c.fmt, c.prec, ROWMAJ, N, c.M, row.p(), 0.0, D_SEQ); A = bml_transpose_new(T); bml_deallocate(&T); return;
    }
    if (rec == 8) {
      for (int k = 0; k < N * N; k++) row.set(k, r.a[k] == cd(0) ? cd(0.25) : r.a[k]);
      A = bml_import_from_dense(c.fmt, c.prec, ROWMAJ, N, c.M, row.p(), 0.0, D_SEQ); bml_threshold(A, 0.3); return;
    }
    A = mk_zero(c);
    auto set = [&](int i, int j, cd x) { v.set(0, x); bml_set_element(A, i, j, v.p()); };
    auto fwd = [&] { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (r(i, j) != cd(0)) set(i, j, r(i, j)); };
    switch (rec) {
      case 0: fwd(); break;
      case 1: for (int i = N - 1; i >= 0; i--) for (int j = N - 1; j >= 0; j--) if (r(i, j) != cd(0)) set(i, j, r(i, j)); break;
      case 3: for (int i = 0; i < N; i++) for (int q = 0; q < N; q++) { int j = (q + i + 1) % N; if (r(i, j) != cd(0)) { v.set(0, r(i, j)); bml_set_element_new(A, i, j, v.p()); } } break;
      case 4: for (int i = 0; i < N; i++) for (int q = 0; q < N; q++) { int j = (2 * N - q - i) % N; set(i, j, cd(7)); } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) set(i, j, r(i, j)); break;
      case 5: for (int i = 0; i < N; i++) for (int j = N - 1; j >= 0; j--) set(i, j, cd(99)); bml_clear(A); fwd(); break;
      case 6: for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) row.set(j, r(i, j)); bml_set_row(A, i, row.p(), 0.0); } break;
    }
  });
  if (o == OK && cx.seen.size() < 2000000) { if (cx.seen.insert(std::hash<string>()(mat_dump(A))).second) cx.states++; }
  if (o != OK) { cx.fail(strf("build|%s|%s|%s", FMTN[c.fmt], PRECN[c.prec], o == ERR ? "refused" : "assert"), strf("building the operand by %s failed: %s", RECN[rec], g_errtext.c_str())); return 0; }
  return A;
}
bool obs(Ctx &cx, void *A, const Cfg &c, Ref &out, const string &sig) {
  int N = c.N; out = Ref(N); void *d = 0;
  Outcome o = call([&] { d = bml_export_to_dense(A, ROWMAJ); });
  if (o != OK) { cx.fail(sig + "|observe", "exporting the result failed: " + g_errtext); return false; }
  for (size_t k = 0; k < out.a.size(); k++) out.a[k] = elem_get(d, c.prec, k);
  bml_free_memory(d);
  return true;
}
static bool cmp(Ctx &cx, const Ref &got, const Ref &want, const string &sig, double tol, const char *how) {
  for (size_t k = 0; k < want.a.size(); k++)
    if (!near(got.a[k], want.a[k], tol)) {
      cx.fail(sig, strf("(%s) element (%d,%d): got %.17g%+.17gi want %.17g%+.17gi", how, (int)(k / want.n), (int)(k % want.n), got.a[k].real(), got.a[k].imag(), want.a[k].real(), want.a[k].imag()) + " got " + r_str(got) + " want " + r_str(want));
      return false;
    }
  return true;
}
bool expect_struct(Ctx &cx, void *A, const string &sig) {
  char m[256];
  if (layout_check(A, m, sizeof m)) { cx.fail(sig + "|struct", string("stored structure is ill-formed: ") + m); return false; }
  return true;
}
bool expect_eq(Ctx &cx, void *A, const Cfg &c, const Ref &want, const string &sig, double tol) {
  if (!A) { cx.fail(sig + "|null", "no matrix returned"); return false; }
  if (!expect_struct(cx, A, sig)) return false;
  Ref got; if (!obs(cx, A, c, got, sig)) return false;
  return cmp(cx, got, want, sig + "|value", tol, "export");
}
// the whole observation interface: row, element, diagonal, both export orders
bool full_check(Ctx &cx, void *A, const Cfg &c, const Ref &want, const string &sig, double tol) {
  if (!expect_eq(cx, A, c, want, sig, tol)) return false;
  int N = c.N; Ref g(N);
  void *d = 0; Outcome o = call([&] { d = bml_export_to_dense(A, COLMAJ); });
  if (!cx.ok(o, sig + "|export_col")) return false;
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) g(i, j) = elem_get(d, c.prec, (size_t)j * N + i);
  bml_free_memory(d);
  if (!cmp(cx, g, want, sig + "|value", tol, "export column-major")) return false;
  for (int i = 0; i < N; i++) {
    void *r = 0; o = call([&] { r = bml_get_row(A, i); });
    if (!cx.ok(o, sig + "|get_row")) return false;
    for (int j = 0; j < N; j++) g(i, j) = elem_get(r, c.prec, j);
    bml_free_memory(r);
  }
  if (!cmp(cx, g, want, sig + "|value", tol, "get_row")) return false;
  void *dg = 0; o = call([&] { dg = bml_get_diagonal(A); });
  if (!cx.ok(o, sig + "|get_diagonal")) return false;
  for (int i = 0; i < N; i++) g(i, i) = elem_get(dg, c.prec, i);
  bml_free_memory(dg);
  if (!cmp(cx, g, want, sig + "|value", tol, "get_diagonal")) return false;
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
    void *e = 0; o = call([&] { e = bml_get_element(A, i, j); });
    if (!cx.ok(o, sig + "|get_element")) return false;
    g(i, j) = e ? elem_get(e, c.prec, 0) : cd(0);
    // the getter hands out either the stored cell or a static/allocated zero; never freed by callers
  }
  return cmp(cx, g, want, sig + "|value", tol, "get_element");
}
bool expect_num(Ctx &cx, double got, double want, double tol, const string &sig) {
  if (got == want || (std::isfinite(got) && fabs(got - want) <= tol * (1 + fabs(want)))) return true;
  cx.fail(sig + "|value", strf("returned %.17g, expected %.17g", got, want));
  return false;
}
string mat_dump(void *A) { static char b[1 << 16]; layout_dump(A, b, sizeof b); return b; }

cd val(int i, int j, int seed, bool cplx) {
  static const int pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23};
  int re = pr[(i * 3 + j * 5 + seed) % 9] * (((i + 2 * j + seed) % 3) ? 1 : -1) + i - (j & 3);
  if (re == 0) re = 29;
  if (!cplx) return cd(re);
  int im = ((i * 5 + j * 2 + seed * 3) % 7) - 3;
  return cd(re, im);
}
Ref pattern(int n, unsigned long mask, const Cfg &c, int seed) {
  Ref r(n); for (int k = 0; k < n * n; k++) if (mask >> k & 1) r.a[k] = val(k / n, k % n, seed, c.cplx()) * ldexp(1, c.sc); return r;
}
Ref family(int n, int k, const Cfg &c, int seed) {
  Ref r(n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    bool s = false;
    switch (k) {
      case 0: break; case 1: s = i == j; break; case 2: s = true; break; case 3: s = abs(i - j) <= 1; break;
      case 4: s = j >= i; break; case 5: s = j <= i; break; case 6: s = i + j == n - 1; break; case 7: s = i + j == 0; break;
      case 8: s = i + j == 2 * n - 2; break; case 9: s = i == n / 2; break; case 10: s = j == n / 2; break; case 11: s = ((i + j) & 1) == 0; break;
      case 12: s = (i == 0 && j == n - 1) || (i == n - 1 && j == 0); break; case 13: s = i == j || i == 0 || j == 0; break;
    }
    if (s) r(i, j) = (k == 1 ? cd(1) : val(i, j, seed, c.cplx())) * ldexp(1, c.sc);
  }
  return r;
}
static vector<vector<int>> blockings(int n) {
  vector<vector<int>> o;
  if (n == 1) return {{1}};
  if (n == 2) return {{2}, {1, 1}};
  if (n == 3) return {{3}, {1, 2}, {2, 1}, {1, 1, 1}};
  if (n == 4) return {{2, 2}, {1, 3}, {3, 1}, {}};
  return {{}};
}
vector<Cfg> cfgs(int nmin, int nmax, bool tails) {
  vector<Cfg> o;
  for (int n = nmin; n <= nmax; n++) for (int f = F_DENSE; f <= F_CSR; f++) ALLPREC {
    Cfg c; c.fmt = f; c.prec = prec; c.N = n; c.M = n;
    if (f == F_ELLBLOCK) { for (auto &b : blockings(n)) { c.bs = b; o.push_back(c); } } else o.push_back(c);
  }
  return o;
}
vector<int> fams(const Cfg &c) { if (c.N > LARGE_N) return {2, 3, 4, 13}; vector<int> o; for (int k = 0; k < NFAM; k++) o.push_back(k); return o; }
vector<Cfg> bigcfgs(const string &tier) {
  vector<Cfg> o; vector<int> ns = {5, 8, 13, 17, 33, 66}; if (tier == "thorough") ns = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 21, 32, 33, 65, 66, 130};
  for (int n : ns) for (int f = F_DENSE; f <= F_CSR; f++) ALLPREC {
    Cfg c; c.fmt = f; c.prec = prec; c.N = n; c.M = n;
    if (f == F_ELLBLOCK) {
      o.push_back(c);
      if (n == 5) { c.bs = {2, 3}; o.push_back(c); c.bs = {3, 1, 1}; o.push_back(c); }
      if (n == 8) { c.bs = {2, 2, 2, 2}; o.push_back(c); c.bs = {5, 3}; o.push_back(c); }
      if (n == 13) { c.bs = {6, 1, 6}; o.push_back(c); c.bs = {1, 2, 3, 3, 4}; o.push_back(c); }
      if (n == 17) { c.bs = {1, 9, 7}; o.push_back(c); }
      if (n == 33) { c.bs = {16, 17}; o.push_back(c); }
    } else o.push_back(c);
    if (f == F_CSR && n >= 13) { c.M = 1; o.push_back(c); } // rows that outgrow their first allocation
    if (n == 5 && prec % 2 == 0) { c.sc = -40; o.push_back(c); } // tiny elements are elements
  }
  return o;
}
vector<double> scalars(const string &tier) { return tier == "thorough" ? vector<double>{0, 1, -1, 2, 0.5} : vector<double>{0, 1, -2}; }

void Ctx::flush() { for (auto &k : stats) fprintf(g_rec, "A\t%s\t%ld\n", k.first.c_str(), k.second); for (auto &n : notes) fprintf(g_rec, "N\t%s\n", jesc(n).c_str()); }
// ------------------------------------------------------------------ driver
static vector<std::pair<string, PropFn>> &regs() { static vector<std::pair<string, PropFn>> r; return r; }
PropReg::PropReg(const char *id, PropFn f) { regs().push_back({id, f}); }
static void onalarm(int) { _exit(97); }

struct Slot { pid_t pid = 0; int g = -1, shard = 0; long start = 0; Shared *sh = 0; int crashes = 0; string rec; };
int main(int argc, char **argv) {
  string prop, tier = "quick", outp, rg; long ri = -1, pfx = -1; int jobs = 8; double budget = 600; int list = 0;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    if (a == "--prop") prop = argv[++i]; else if (a == "--tier") tier = argv[++i]; else if (a == "--out") outp = argv[++i];
    else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--replay") { rg = argv[++i]; ri = atol(argv[++i]); } else if (a == "--prefix") pfx = atol(argv[++i]); else if (a == "--list") list = 1; else if (a == "-v") g_verbose = 1;
  }
  signal(SIGALRM, onalarm); signal(SIGPIPE, SIG_IGN);
  Groups gs; for (auto &p : regs()) if (p.first == prop) p.second(gs, tier);
  if (gs.empty()) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  if (list) { for (auto &g : gs) fprintf(stdout, "%s\n", g.name.c_str()); return 0; }
  if (!rg.empty()) { // replay one case in this process
    for (auto &g : gs) if (g.name == rg) { Ctx cx; if (pfx >= 0) { cx.start = pfx; cx.stop = ri; cx.nshard = g.nshard; cx.shard = ri % g.nshard; } else cx.only = ri; cx.tier = tier; cx.thorough = tier == "thorough"; cx.group = g.name; g_replay = 1; 
        const char *ao = getenv("ASAN_OPTIONS"); (void)ao; g.run(cx); cx.end(); return g_sigcount.empty() && !g_childfail ? 0 : 1; }
    fprintf(stderr, "no such group\n"); return 2;
  }
  double t0 = now(); g_deadline = t0 + budget;
  string tmpd = outp + ".d"; 
  FILE *fo = fopen(outp.c_str(), "w"); if (!fo) { perror("out"); return 2; }
  Shared *shm = (Shared *)mmap(0, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct Task { int g, shard; long start; int crashes; };
  vector<Task> q; for (int g = (int)gs.size() - 1; g >= 0; g--) for (int s = 0; s < gs[g].nshard; s++) q.push_back({g, s, 0, 0});
  // run the widest groups first (they were pushed with many shards)
  std::stable_sort(q.begin(), q.end(), [&](const Task &a, const Task &b) { return gs[a.g].nshard < gs[b.g].nshard; });
  vector<Slot> sl(jobs); long cases = 0, trans = 0, states = 0, nontriv = 0, outcomes = 0, capped = 0, ngroups = 0; 
  std::set<int> seen; int running = 0; std::map<int, int> gcrash; int tcrash = 0;
  auto spawn = [&](int k, Task t) {
    Slot &s = sl[k]; s.g = t.g; s.shard = t.shard; s.start = t.start; s.crashes = t.crashes; s.sh = &shm[k]; memset((void *)s.sh, 0, sizeof(Shared)); s.sh->idx = -1;
    fflush(fo);
    pid_t p = fork();
    if (p == 0) {
      g_sh = s.sh; string rp = strf("%s.%d", outp.c_str(), k); g_rec = fopen(rp.c_str(), "a");
      int fd = open("/dev/null", O_WRONLY); if (!g_verbose) { dup2(fd, 1); dup2(fd, 2); }
      Ctx cx; cx.start = t.start; cx.shard = t.shard; cx.nshard = gs[t.g].nshard; cx.tier = tier; cx.thorough = tier == "thorough"; cx.group = gs[t.g].name;
      gs[t.g].run(cx); cx.end();
      s.sh->cases = cx.cases; s.sh->trans = cx.transitions; s.sh->states = cx.states; s.sh->nontriv = cx.nontrivial; s.sh->outcomes = cx.outcomes.size(); s.sh->capped = cx.capped; s.sh->done = 1;
      for (auto &kv : g_sigcount) fprintf(g_rec, "C\t%s\t%d\n", jesc(kv.first).c_str(), kv.second);
      cx.flush(); fclose(g_rec); _exit(0);
    }
    s.pid = p; running++;
  };
  while (running || !q.empty()) {
    for (int k = 0; k < jobs && !q.empty(); k++) if (!sl[k].pid) { Task t = q.back(); q.pop_back(); spawn(k, t); }
    int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break;
    for (int k = 0; k < jobs; k++) if (sl[k].pid == p) {
      Slot &s = sl[k]; s.pid = 0; running--;
      cases += s.sh->cases; trans += s.sh->trans; states += s.sh->states; nontriv += s.sh->nontriv; outcomes += s.sh->outcomes; capped += s.sh->capped; seen.insert(s.g);
      if (!s.sh->done) { // crashed or hung: attribute to the case it was running
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        const char *why = code == 99 ? "memory-error" : code == 97 ? "hang" : "crash";
        // description comes from the replay
        fprintf(fo, "X\t%s\t%ld\t%s\t%d\t%ld\n", jesc(gs[s.g].name).c_str(), (long)s.sh->idx, why, code, s.start); fflush(fo);
        if (s.sh->idx >= 0 && ++gcrash[s.g] < 24 && s.crashes < 12 && ++tcrash < 300) q.push_back({s.g, s.shard, s.sh->idx + 1, s.crashes + 1});
        else fprintf(fo, "G\t%s\tabandoned after repeated crashes\n", jesc(gs[s.g].name).c_str());
      }
    }
  }
  for (int k = 0; k < jobs; k++) { string rp = strf("%s.%d", outp.c_str(), k); if (FILE *f = fopen(rp.c_str(), "r")) { char b[65536]; while (fgets(b, sizeof b, f)) fputs(b, fo); fclose(f); unlink(rp.c_str()); } }
  fprintf(fo, "T\tcases=%ld\ttransitions=%ld\tstates=%ld\tnontrivial=%ld\toutcomes=%ld\tcapped=%ld\tgroups=%zu\twall=%.1f\n", cases, trans, states, nontriv, outcomes, capped, seen.size(), now() - t0);
  fclose(fo);
  return 0;
}
