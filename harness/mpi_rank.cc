// Runs inside a rank's own copy of the library.
#include "mpi_ops.h"
extern std::function<void(const string &, const string &)> g_fail_hook;
extern "C" void mc_leave(void); extern "C" void mc_res(int *, int *, int *);
void Rk::die() { out.allocs = g_alloc_count; out.faulted = g_alloc_failed; g_alloc_fail_at = -1; out.err = g_errtext; mc_leave(); abort(); }
void Rk::must(Outcome o, const string &what) { if (mc.lenient && o == ERR) return may(o); if (!cx.ok(o, what)) die(); }
void Rk::may(Outcome o) { if (o == OK) return; if (o == ASSERTED) { cx.ok(o, "operation"); die(); } out.refused = true; die(); }
void *Rk::make(const Ref &r, int rec) { long f = g_alloc_fail_at; g_alloc_fail_at = -1; void *A = mk(cx, c, r, rec); g_alloc_fail_at = f; if (!A) die(); return A; }
void *Rk::dist(const Ref &r, int order, int fmt) {
  int N = r.n; Buf b(c.prec, (size_t)N * N); void *A = 0;
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) b.set(order == ROWMAJ ? (size_t)i * N + j : (size_t)j * N + i, rank ? cd(77 + i) : r(i, j)); // only rank 0's data counts
  must(call([&] { A = bml_import_from_dense(fmt ? fmt : c.fmt, c.prec, order, N, c.M, b.p(), 0.0, D_DIST); }), "import");
  return A;
}
void Rk::see(void *A, bool rows) {
  if (!A) { cx.fail("observe|null", "no matrix returned"); die(); }
  void *L = 0; must(call([&] { L = bml_get_local_matrix(A); }), "get_local_matrix");
  char m[256]; if (layout_check(L, m, sizeof m)) cx.fail("struct", strf("local block is ill-formed: %s", m));
  int N = 0, prec = 0; must(call([&] { N = bml_get_N(A); prec = bml_get_precision(A); }), "introspection");
  if (N < 0 || N > 1000 || prec < P_SR || prec > P_DC) { cx.fail("introspection|value", strf("N=%d precision=%d", N, prec)); die(); }
  void *d = 0; must(call([&] { d = bml_export_to_dense(A, ROWMAJ); }), "export");
  if (!d && !rank) { cx.fail("export|null", "rank 0 receives no array"); die(); }
  Ref r(N); if (!rank) { for (size_t k = 0; k < r.a.size(); k++) r.a[k] = elem_get(d, prec, k); out.mats.push_back(r); }
  if (d) bml_free_memory(d);
  if (rows) {
    for (int q = 0; q < N; q++) { void *w = 0; must(call([&] { w = bml_get_row(A, q); }), "get_row"); for (int j = 0; j < N; j++) r(q, j) = elem_get(w, prec, j); bml_free_memory(w); }
    out.mats.push_back(r);
  }
}
void Rk::seq(void *A) {
  if (!A) { cx.fail("observe|null", "no matrix returned"); die(); }
  char m[256]; if (layout_check(A, m, sizeof m)) { cx.fail("struct", m); die(); }
  Ref r(bml_get_N(A)); void *d = 0; must(call([&] { d = bml_export_to_dense(A, ROWMAJ); }), "export");
  for (size_t k = 0; k < r.a.size(); k++) r.a[k] = elem_get(d, bml_get_precision(A), k);
  bml_free_memory(d); out.mats.push_back(r);
}
extern "C" void bml_initParallel(MPI_Comm); extern "C" void bml_shutdownParallel(void); extern "C" void omp_set_num_threads(int);
extern "C" void rank_entry(const MCase *mc, int rank, RankOut *out) {
  g_incall = 0; g_dirty = 0; g_errtext.clear(); g_alloc_fail_at = -1;
  Ctx cx; cx.leakcheck = false;
  g_fail_hook = [out](const string &s, const string &m) { if (out->fails.size() < 4) out->fails.push_back({s, m}); };
  Rk k{*mc, rank, mc->nr, mc->c, local_cfg(mc->c, mc->nr), cx, *out};
  static std::set<string> warm; // one-time ellblock defaults
  int c0, t0, r0; mc_res(&c0, &t0, &r0);
  const MOp &op = mops()[mc->op]; bool local = op.name.compare(0, 2, "d:") == 0; Cfg w = local ? k.lc : k.c;
  if (warm.insert(w.str()).second) prewarm(w);
  if (op.name == "d:convert" && mc->iv[0] == F_ELLBLOCK) { w.fmt = F_ELLBLOCK; if (warm.insert(w.str()).second) prewarm(w); }
  long live = g_live;
  k.must(call([&] { bml_initParallel(MPI_COMM_WORLD); }), "bml_initParallel");
  g_alloc_count = g_alloc_failed = 0; if (rank == mc->frank) g_alloc_fail_at = mc->fault;
  op.run(k);
  g_alloc_fail_at = -1; out->allocs = g_alloc_count; out->faulted = g_alloc_failed;
  k.must(call([&] { bml_shutdownParallel(); }), "bml_shutdownParallel");
  int c1, t1, r1; mc_res(&c1, &t1, &r1);
  if (!g_dirty) {
    if (g_live != live) cx.fail("leak|memory", strf("%ld allocations not released after every matrix and buffer was freed", g_live - live));
    if (c1 != c0) cx.fail("leak|communicator", strf("%d communicators not released after every matrix was freed and the library shut down", c1 - c0));
    if (t1 != t0) cx.fail("leak|datatype", strf("%d MPI datatypes not released", t1 - t0));
    if (r1 != r0) cx.fail("leak|request", strf("%d MPI requests never completed", r1 - r0));
  }
  out->fin = true;
}
