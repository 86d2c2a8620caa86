// What each rank does, and what it must observe.
#include "mpi_ops.h"
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>
extern "C" { void bml_mpi_send(void *, int, MPI_Comm); void bml_mpi_recv(void *, int, MPI_Comm); void bml_mpi_irecv(void *, int, MPI_Comm); void bml_mpi_irecv_complete(void *);
void *bml_mpi_recv_matrix(int, int, int, int, int, MPI_Comm); void bml_mpi_bcast_matrix(void *, int, MPI_Comm); }
extern "C" { int layout_domain(void *A, bml_domain_t **d); }
static void wsee(Exp &e, int rank, const Ref &r, double thr = 0, double tol = 0, double slack = 0) { int n = rank ? 1 : 2; while (n--) { e.mat(r, thr, tol); e.slack.back() = slack; } }
static double eps(const MCase &m) { return 200 * m.c.eps() * m.c.N; }
static string iofile() { return strf("%s/bml-mc-%d.mtx", getenv("BML_MC_TMP") ? getenv("BML_MC_TMP") : "/tmp", (int)getpid()); }
// ---------------------------------------------------------------- distributed operations with a reference interpreter
static Ref thr_(const Ref &a, double t) { Ref r = a; for (auto &x : r.a) if (std::abs(x) <= t) x = 0; return r; }
static cd sval(const MCase &m, double v) { return m.c.cplx() ? cd(v, v / 2) : cd(v); }
static Ref rowref(const Ref &a, int i, const Ref &src, int s) { Ref r = a; for (int j = 0; j < a.n; j++) r(i, j) = src(s, j); return r; }
// one step of a history on the matrix A with the helper B; codes shared with the enumeration
enum { S_ADD, S_ADDID, S_SCALE, S_SCALEID, S_TRANSPOSE, S_MULT, S_SETROW, S_SETDIAG, S_COPYNEW, S_COPY, S_CLEAR, S_THRESH, S_SCALENEW, S_TRNEW, S_CONVERT, S_IO, S_NSTEP };
static const char *STEPN[] = {"add", "add_identity", "scale_inplace", "scale_add_identity", "transpose", "multiply_AB", "set_row", "set_diagonal", "copy_new", "copy", "clear", "threshold", "scale_new", "transpose_new", "convert", "write_read"};
const char *step_name(int k) { return STEPN[k]; }
static void do_step(Rk &k, int s, void *&A, void *B) {
  Buf v(k.c.prec, k.c.N); void *C = 0;
  auto mv = [&](const char *w) { if (!C) { k.cx.fail(string(w) + "|null", "no matrix returned"); k.die(); } k.must(call([&] { bml_deallocate(&A); }), "deallocate"); A = C; };
  switch (s) {
    case S_ADD: k.must(call([&] { bml_add(A, B, 2, -1, 0); }), "add"); break;
    case S_ADDID: k.must(call([&] { bml_add_identity(A, 3, 0); }), "add_identity"); break;
    case S_SCALE: v.set(0, sval(k.mc, -2)); k.must(call([&] { bml_scale_inplace(v.p(), A); }), "scale_inplace"); break;
    case S_SCALEID: k.must(call([&] { bml_scale_add_identity(A, 2, -1, 0); }), "scale_add_identity"); break;
    case S_TRANSPOSE: k.must(call([&] { bml_transpose(A); }), "transpose"); break;
    case S_MULT: k.must(call([&] { C = bml_zero_matrix(k.c.fmt, k.c.prec, k.c.N, k.c.M, D_DIST); bml_multiply_AB(A, B, C, 0); }), "multiply_AB"); mv("multiply_AB"); break;
    case S_SETROW: for (int j = 0; j < k.c.N; j++) v.set(j, k.mc.ms[1](0, j)); k.must(call([&] { bml_set_row(A, k.c.N - 1, v.p(), 0); }), "set_row"); break;
    case S_SETDIAG: for (int j = 0; j < k.c.N; j++) v.set(j, sval(k.mc, j + 2)); k.must(call([&] { bml_set_diagonal(A, v.p(), 0); }), "set_diagonal"); break;
    case S_COPYNEW: k.must(call([&] { C = bml_copy_new(A); }), "copy_new"); mv("copy_new"); break;
    case S_COPY: k.must(call([&] { bml_copy(B, A); }), "copy"); break;
    case S_CLEAR: k.must(call([&] { bml_clear(A); }), "clear"); break;
    case S_THRESH: k.must(call([&] { bml_threshold(A, 6); }), "threshold"); break;
    case S_SCALENEW: v.set(0, sval(k.mc, 2)); k.must(call([&] { C = bml_scale_new(v.p(), A); }), "scale_new"); mv("scale_new"); break;
    case S_TRNEW: k.must(call([&] { C = bml_transpose_new(A); }), "transpose_new"); mv("transpose_new"); break;
    case S_CONVERT: k.must(call([&] { C = bml_convert(A, k.c.fmt, k.c.prec, k.c.M, D_DIST); }), "convert"); mv("convert"); break;
    case S_IO: { string f = iofile(); k.must(call([&] { bml_write_bml_matrix(A, (char *)f.c_str()); bml_barrierParallel(); bml_clear(A); bml_read_bml_matrix(A, (char *)f.c_str()); bml_barrierParallel(); }), "write_read"); if (!k.rank) unlink(f.c_str()); } break;
  }
}
static void ref_step(const MCase &m, int s, Ref &A, const Ref &B) {
  int N = A.n;
  switch (s) {
    case S_ADD: A = r_lin(A, B, 2, -1); break; case S_ADDID: A = r_lin(A, r_id(N), 1, 3); break; case S_SCALE: A = r_scale(A, sval(m, -2)); break;
    case S_SCALEID: A = r_lin(A, r_id(N), 2, -1); break; case S_TRANSPOSE: case S_TRNEW: A = r_tr(A); break; case S_MULT: A = r_mul(A, B); break;
    case S_SETROW: A = rowref(A, N - 1, B, 0); break; case S_SETDIAG: for (int j = 0; j < N; j++) A(j, j) = sval(m, j + 2); break;
    case S_COPYNEW: case S_CONVERT: case S_IO: break; case S_COPY: A = B; break; case S_CLEAR: A = Ref(N); break; case S_THRESH: A = thr_(A, 6); break; case S_SCALENEW: A = r_scale(A, sval(m, 2)); break;
  }
}
static double ssq(const Ref &a) { double s = 0; for (auto &x : a.a) s += std::norm(x); return s; }
// a named communicator for point-to-point programs: 0 world, 1 reversed duplicate of the world, 2 the odd/even halves
static MPI_Comm subcomm(int kind, int rank, int nr) { MPI_Comm c = MPI_COMM_WORLD; if (kind == 1) MPI_Comm_split(MPI_COMM_WORLD, 0, nr - rank, &c); if (kind == 2) MPI_Comm_split(MPI_COMM_WORLD, rank % 2, rank, &c); return c; }
static void dropcomm(MPI_Comm c) { if (c != MPI_COMM_WORLD) MPI_Comm_free(&c); }
static vector<MOp> build() {
  vector<MOp> o;
#define RUN [](Rk & k)
#define WANT [](const MCase &m, int rank, Exp &e)
  // ---- C22
  o.push_back({"d:history", RUN {
    void *A = k.dist(k.mc.ms[0], k.i(0)), *B = k.mc.ms.size() > 1 ? k.dist(k.mc.ms[1], 1 - k.i(0)) : 0;
    for (size_t s = 1; s < k.mc.iv.size(); s++) { do_step(k, k.mc.iv[s], A, B); if (s + 1 == k.mc.iv.size() || k.d(0)) k.see(A); }
    if (k.mc.iv.size() == 1) k.see(A);
    if (B) k.see(B, false);
    k.must(call([&] { bml_deallocate(&A); if (B) bml_deallocate(&B); }), "deallocate");
  }, WANT {
    Ref A = m.ms[0]; for (size_t s = 1; s < m.iv.size(); s++) { ref_step(m, m.iv[s], A, m.ms[1]); if (s + 1 == m.iv.size() || (m.dv.size() && m.dv[0])) wsee(e, rank, A, 0, eps(m)); }
    if (m.iv.size() == 1) wsee(e, rank, A); if (m.ms.size() > 1 && !rank) e.mat(m.ms[1]);
  }});
  o.push_back({"d:create", RUN {
    void *Z = 0, *I = 0, *X = 0;
    k.must(call([&] { Z = bml_zero_matrix(k.c.fmt, k.c.prec, k.c.N, k.c.M, D_DIST); I = bml_identity_matrix(k.c.fmt, k.c.prec, k.c.N, k.c.M, D_DIST); }), "create");
    k.see(Z); k.see(I);
    k.must(call([&] { k.num(bml_get_N(I)); k.num(bml_get_M(I)); k.num(bml_get_type(I)); k.num(bml_get_deep_type(I)); k.num(bml_get_precision(I)); k.num(bml_get_distribution_mode(I)); }), "introspection");
    k.must(call([&] { X = bml_random_matrix(k.c.fmt, k.c.prec, k.c.N, k.c.M, D_DIST); }), "random");
    { RankOut keep = k.out; k.see(X); k.out.mats = keep.mats; }
    k.must(call([&] { bml_deallocate(&Z); bml_deallocate(&I); bml_deallocate(&X); }), "deallocate");
  }, WANT { wsee(e, rank, Ref(m.c.N)); wsee(e, rank, r_id(m.c.N)); e.num(m.c.N); e.num(m.c.M); e.num(F_DIST); e.num(m.c.fmt); e.num(m.c.prec); e.num(D_DIST); }});
  o.push_back({"d:export_order", RUN {
    void *A = k.dist(k.mc.ms[0], k.i(0)), *d = 0; k.must(call([&] { d = bml_export_to_dense(A, COLMAJ); }), "export");
    if (!k.rank) { if (!d) { k.cx.fail("export|null", "rank 0 receives no array"); k.die(); } Ref r(k.c.N); for (int i = 0; i < r.n; i++) for (int j = 0; j < r.n; j++) r(i, j) = elem_get(d, k.c.prec, (size_t)j * r.n + i); k.out.mats.push_back(r); }
    if (d) bml_free_memory(d);
    k.must(call([&] { bml_deallocate(&A); }), "deallocate");
  }, WANT { if (!rank) e.mat(m.ms[0]); }});
  o.push_back({"d:import_threshold", RUN {
    int N = k.c.N; Buf b(k.c.prec, N * N); for (int q = 0; q < N * N; q++) b.set(q, k.mc.ms[0].a[q]); void *A = 0;
    k.must(call([&] { A = bml_import_from_dense(k.c.fmt, k.c.prec, ROWMAJ, N, k.c.M, b.p(), k.d(0), D_DIST); }), "import"); k.see(A); k.must(call([&] { bml_deallocate(&A); }), "deallocate");
  }, WANT { wsee(e, rank, m.ms[0], m.dv[0]); }});
  // numbers
  o.push_back({"d:numbers", RUN {
    void *A = k.dist(k.mc.ms[0]), *B = k.dist(k.mc.ms[1]); double v = 0; void *g = 0;
#define NUM(W, X) k.must(call([&] { v = X; }), W); k.num(v)
    NUM("trace", bml_trace(A)); NUM("sum_squares", bml_sum_squares(A)); NUM("fnorm", bml_fnorm(A));
    NUM("sum_squares2", bml_sum_squares2(A, B, 2, -1, 0)); NUM("fnorm2", k.c.fmt == F_ELLBLOCK || k.c.fmt == F_CSR ? -1 : bml_fnorm2(A, B));
    NUM("sparsity", bml_get_sparsity(A, 0.5));
    NUM("trace_mult", bml_trace_mult(A, B)); NUM("sum_AB", bml_sum_AB(A, B, 2, 0)); NUM("sum_AB", bml_sum_AB(A, B, -1, 40.5)); NUM("sum_squares2", bml_sum_squares2(A, B, 1, 2, 0));
    if (k.c.fmt != F_ELLBLOCK) { NUM("sum_squares2", bml_sum_squares2(A, B, 1, -1, 10.5)); }
    NUM("sparsity", bml_get_sparsity(A, 6.5));
    k.must(call([&] { g = bml_gershgorin(A); }), "gershgorin"); if (!g) { k.cx.fail("gershgorin|null", "nothing returned"); k.die(); } k.num(((double *)g)[0]); k.num(((double *)g)[1]); bml_free_memory(g);
    k.see(A, false); k.see(B, false); k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT {
    const Ref &A = m.ms[0], &B = m.ms[1]; int N = A.n; double t = eps(m);
    e.num(r_trace(A).real(), t); e.num(ssq(A), t); e.num(sqrt(ssq(A)), t); e.num(ssq(r_lin(A, B, 2, -1)), t); e.num(m.c.fmt == F_ELLBLOCK || m.c.fmt == F_CSR ? -1 : sqrt(ssq(r_lin(A, B, 1, -1))), t);
    int z = 0; for (auto &x : A.a) z += std::abs(x) <= 0.5; e.num((double)z / (N * N), t);
    double a = 0, b = 0, b2 = 0, s2 = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { cd x = A(i, j) * B(i, j), y = A(i, j) - B(i, j); a += (A(i, j) * B(j, i)).real(); b += 2 * x.real(); if (std::abs(x) > 40.5) b2 -= x.real(); if (std::abs(y) > 10.5) s2 += std::norm(y); }
    e.num(a, t); e.num(b, t); e.num(b2, t); e.num(ssq(r_lin(A, B, 1, 2)), t); if (m.c.fmt != F_ELLBLOCK) e.num(s2, t);
    z = 0; for (auto &x : A.a) z += std::abs(x) <= 6.5; e.num((double)z / (N * N), t);
    double lo = 1e300, hi = -1e300; for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) if (j != i) r += std::abs(A(i, j)); lo = std::min(lo, A(i, i).real() - r); hi = std::max(hi, A(i, i).real() + r); }
    e.num(lo, t); e.num(hi, t); if (!rank) { e.mat(A); e.mat(B); }
  }});
  o.push_back({"d:add_norm", RUN {
    void *A = k.dist(k.mc.ms[0]), *B = k.dist(k.mc.ms[1]); double v = 0; { Outcome o = call([&] { v = bml_add_norm(A, B, k.d(0), k.d(1), k.d(2)); }); if (k.c.fmt == F_CSR) k.may(o); else k.must(o, "add_norm"); } k.see(A); k.see(B, false); k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { wsee(e, rank, r_lin(m.ms[0], m.ms[1], m.dv[0], m.dv[1]), m.dv[2], eps(m)); if (!rank) e.mat(m.ms[1]); e.refuse = m.c.fmt == F_CSR; }});
  o.push_back({"d:add", RUN {
    void *A = k.dist(k.mc.ms[0]), *B = k.dist(k.mc.ms[1]); k.must(call([&] { bml_add(A, B, k.d(0), k.d(1), k.d(2)); }), "add"); k.see(A); k.see(B, false); k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { wsee(e, rank, r_lin(m.ms[0], m.ms[1], m.dv[0], m.dv[1]), m.dv[2], eps(m)); if (!rank) e.mat(m.ms[1]); }});
  o.push_back({"d:identities", RUN { // A + beta I and alpha A + beta I with thresholds
    void *A = k.dist(k.mc.ms[0]), *B = k.dist(k.mc.ms[0]); k.must(call([&] { bml_add_identity(A, k.d(1), k.d(2)); bml_scale_add_identity(B, k.d(0), k.d(1), k.d(2)); }), "add_identity"); k.see(A); k.see(B); k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { Ref I = r_id(m.c.N); wsee(e, rank, r_lin(m.ms[0], I, 1, m.dv[1]), m.dv[2], eps(m)); wsee(e, rank, r_lin(m.ms[0], I, m.dv[0], m.dv[1]), m.dv[2], eps(m)); }});
  o.push_back({"d:multiply", RUN {
    void *A = k.dist(k.mc.ms[0]), *B = k.dist(k.mc.ms[1]), *C = k.dist(k.mc.ms[2]); k.must(call([&] { bml_multiply(A, B, C, k.d(0), k.d(1), k.d(2)); }), "multiply"); k.see(C); k.see(A, false); k.see(B, false);
    k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); bml_deallocate(&C); }), "deallocate");
  }, WANT { double t = m.dv[2]; wsee(e, rank, r_lin(r_mul(m.ms[0], m.ms[1]), m.ms[2], m.dv[0], m.dv[1]), t, eps(m), t > 0 ? t * (1 + std::abs(m.dv[0])) * sqrti(m.nr) : 0); if (!rank) { e.mat(m.ms[0]); e.mat(m.ms[1]); } }});
  o.push_back({"d:multiply_x2", RUN {
    void *A = k.dist(k.mc.ms[0]), *C = 0, *t = 0; k.must(call([&] { C = k.mc.ms.size() > 1 ? k.dist(k.mc.ms[1]) : bml_zero_matrix(k.c.fmt, k.c.prec, k.c.N, k.c.M, D_DIST); t = bml_multiply_x2(A, C, k.d(0)); }), "multiply_x2"); k.see(C); k.see(A, false);
    if (t) { k.num(((double *)t)[0]); k.num(((double *)t)[1]); bml_free_memory(t); } else { k.num(r_trace(k.mc.ms[0]).real()); k.num(r_trace(r_mul(k.mc.ms[0], k.mc.ms[0])).real()); }
    k.must(call([&] { bml_deallocate(&A); bml_deallocate(&C); }), "deallocate");
  }, WANT { Ref S = r_mul(m.ms[0], m.ms[0]); double th = m.dv.size() ? m.dv[0] : 0; wsee(e, rank, S, th, eps(m), th > 0 ? th * 2 * sqrti(m.nr) : 0); if (!rank) e.mat(m.ms[0]); e.num(r_trace(m.ms[0]).real(), eps(m)); e.num(r_trace(S).real(), eps(m) + th * 3 * m.c.N * m.nr); }});
  o.push_back({"d:scale", RUN {
    void *A = k.dist(k.mc.ms[0]), *B = k.dist(k.mc.ms[1]); Buf v(k.c.prec, 1); v.set(0, sval(k.mc, k.d(0))); k.must(call([&] { bml_scale(v.p(), A, B); }), "scale"); k.see(B); k.see(A, false); k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { wsee(e, rank, r_scale(m.ms[0], sval(m, m.dv[0])), 0, eps(m)); if (!rank) e.mat(m.ms[0]); }});
  o.push_back({"d:threshold", RUN {
    void *A = k.dist(k.mc.ms[0]), *B = 0; k.must(call([&] { B = bml_threshold_new(A, k.d(0)); }), "threshold_new"); k.see(B); k.see(A, false); k.must(call([&] { bml_threshold(A, k.d(0)); }), "threshold"); k.see(A);
    k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { wsee(e, rank, m.ms[0], m.dv[0]); if (!rank) e.mat(m.ms[0]); wsee(e, rank, m.ms[0], m.dv[0]); }});
  o.push_back({"d:set_rows", RUN { // every row replaced in turn, then the diagonal
    void *A = k.dist(k.mc.ms[0]); Buf v(k.c.prec, k.c.N); int N = k.c.N;
    for (int i = 0; i < N; i++) { int r = (i * 2 + k.i(0)) % N; for (int j = 0; j < N; j++) v.set(j, k.mc.ms[1](r, j)); k.must(call([&] { bml_set_row(A, r, v.p(), k.d(0)); }), "set_row"); if (i == N / 2) k.see(A); }
    k.see(A); for (int j = 0; j < N; j++) v.set(j, sval(k.mc, j + 2)); k.must(call([&] { bml_set_diagonal(A, v.p(), 0); }), "set_diagonal"); k.see(A);
    k.must(call([&] { bml_deallocate(&A); }), "deallocate");
  }, WANT {
    int N = m.c.N; Ref A = m.ms[0]; for (int i = 0; i < N; i++) { int r = (i * 2 + m.iv[0]) % N; A = rowref(A, r, m.ms[1], r); if (i == N / 2) wsee(e, rank, A, m.dv[0]); }
    wsee(e, rank, A, m.dv[0]); for (int j = 0; j < N; j++) A(j, j) = sval(m, j + 2); wsee(e, rank, A, m.dv[0]);
  }});
  o.push_back({"d:normalize", RUN {
    void *A = k.dist(k.mc.ms[0]); k.must(call([&] { bml_normalize(A, k.d(0), k.d(1)); }), "normalize"); k.see(A); k.must(call([&] { bml_deallocate(&A); }), "deallocate");
  }, WANT { double lo = m.dv[0], hi = m.dv[1]; wsee(e, rank, r_lin(m.ms[0], r_id(m.c.N), -1 / (hi - lo), hi / (hi - lo)), 0, eps(m)); }});
  o.push_back({"d:convert", RUN {
    int pr = k.i(1) ? k.i(1) : k.c.prec, md = k.i(2); void *A = 0, *B = 0; // md: 0 stays distributed, 1 becomes an ordinary matrix, 2 an ordinary one becomes distributed
    if (md == 2) { A = k.make(k.mc.ms[0], 0); if (!A) k.die(); } else A = k.dist(k.mc.ms[0]);
    k.must(call([&] { B = bml_convert(A, k.i(0), pr, k.c.M, md == 1 ? D_SEQ : D_DIST); }), "convert"); // a matrix of the other distribution may be refused
    if (md == 1) k.seq(B); else { k.see(B); k.must(call([&] { k.num(bml_get_deep_type(B)); k.num(bml_get_N(B)); k.num(bml_get_precision(B)); }), "introspection"); }
    if (md == 2) { RankOut t = k.out; k.seq(A); if (k.rank) k.out.mats = t.mats; } else k.see(A, false);
    k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { Ref w = m.ms[0]; int pr = m.iv[1] ? m.iv[1] : m.c.prec; if (pr == P_SR || pr == P_DR) for (auto &x : w.a) x = x.real(); if (m.iv[2] == 1) e.mat(w); else { wsee(e, rank, w); e.num(m.iv[0]); e.num(m.c.N); e.num(pr); } if (!rank) e.mat(m.ms[0]); }});
  o.push_back({"d:io", RUN { // written by all, read back into a matrix with other contents, and read as an ordinary matrix by rank 0
    void *A = k.dist(k.mc.ms[0]), *B = k.dist(k.mc.ms[1]); string f = iofile();
    k.must(call([&] { bml_write_bml_matrix(A, (char *)f.c_str()); bml_barrierParallel(); bml_read_bml_matrix(B, (char *)f.c_str()); bml_barrierParallel(); }), "write_read"); k.see(B); k.see(A, false);
    if (!k.rank) { void *S = 0; k.must(call([&] { S = bml_zero_matrix(F_DENSE, k.c.prec, k.c.N, k.c.N, D_SEQ); bml_read_bml_matrix(S, (char *)f.c_str()); }), "read"); k.seq(S); bml_deallocate(&S); unlink(f.c_str()); }
    k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { wsee(e, rank, m.ms[0], 0, eps(m)); if (!rank) { e.mat(m.ms[0]); e.mat(m.ms[0], 0, eps(m)); } }});
  o.push_back({"d:print", RUN { // iv = {i_l, i_u, j_l, j_u}: rank 0 prints the window, nobody prints anything else
    void *A = k.dist(k.mc.ms[0]); static int saved = -1; int fd = -1; k.must(call([&] { bml_barrierParallel(); }), "barrier"); g_print_through = true; fflush(stdout);
    if (!k.rank) { fd = memfd_create("out", 0); saved = dup(1); dup2(fd, 1); }
    k.must(call([&] { bml_barrierParallel(); bml_print_bml_matrix(A, k.i(0), k.i(1), k.i(2), k.i(3)); }), "print"); fflush(stdout); k.must(call([&] { bml_barrierParallel(); }), "barrier"); g_print_through = false;
    if (!k.rank) {
      dup2(saved, 1); close(saved); saved = -1; off_t n = lseek(fd, 0, SEEK_END); string t(n, 0); if (n && pread(fd, &t[0], n, 0) != n) t.clear(); close(fd);
      for (size_t q; (q = t.find("[DEBUG]")) != string::npos;) { size_t z = t.find('\n', q); t.erase(q, z == string::npos ? z : z + 1 - q); }
      long lines = 0; for (char &ch : t) { lines += ch == '\n'; if (ch == 'i') ch = ' '; } k.num(lines);
      const char *p = t.c_str(); char *q; for (;;) { double v = strtod(p, &q); if (q == p) break; k.num(v); p = q; } while (*p == ' ' || *p == '\n') p++; k.num(*p);
    }
    k.see(A, false); k.must(call([&] { bml_deallocate(&A); }), "deallocate");
  }, WANT { const Ref &A = m.ms[0]; if (!rank) { e.num(m.iv[1] - m.iv[0]); for (int i = m.iv[0]; i < m.iv[1]; i++) for (int j = m.iv[2]; j < m.iv[3]; j++) { e.num(A(i, j).real(), 0.00051); if (m.c.cplx()) e.num(A(i, j).imag(), 0.00051); } e.num(0); e.mat(A); } }});
  // operations with no distributed version: refused, or carried out; never a crash, a hang or a changed operand
  o.push_back({"d:other", RUN {
    int N = k.c.N; void *A = k.dist(k.mc.ms[0]), *B = k.dist(k.mc.ms[1]), *r = 0, *lst = 0; bool isnum = false, vec = false; Buf v(k.c.prec, N); int idx[16] = {0, 1}; double x = 0; v.set(0, 5); cd el = 0;
    #define OTHER(K, X) case K: k.may(call([&] { X; })); break;
    switch (k.i(0)) {
      OTHER(0, r = bml_get_element(A, N - 1, 0); vec = true) OTHER(1, r = bml_get_diagonal(A); vec = true) OTHER(2, bml_set_element(A, 0, 1 % N, v.p())) OTHER(3, bml_set_element_new(A, 0, 0, v.p()))
      OTHER(4, bml_element_multiply_AB(A, B, B, 0)) OTHER(5, r = bml_inverse(A)) OTHER(6, x = bml_get_bandwidth(A)) OTHER(7, x = bml_get_row_bandwidth(A, 0)) OTHER(8, x = bml_sum_squares_submatrix(A, 1))
      OTHER(9, r = bml_gershgorin_partial(A, 1); vec = true) OTHER(10, bml_multiply_adjust_AB(A, B, B, 0)) OTHER(11, bml_adjungate_triangle(A, (char *)"u")) OTHER(12, r = bml_extract_submatrix(A, 0, 0, 1, 1))
      OTHER(13, r = bml_group_matrix(A, idx, 1, 0.0)) OTHER(14, bml_matrix2submatrix(A, B, idx, 1)) OTHER(15, bml_submatrix2matrix(A, B, idx, 1, 1, 0.0)) OTHER(16, bml_adjacency(A, idx, idx + 8, 1))
      OTHER(17, x = bml_get_NB(A)) OTHER(18, r = bml_get_data_ptr(A); vec = r != 0; r = 0) OTHER(19, bml_assign_submatrix(A, B, 0, 0)) OTHER(20, bml_update_domain(A, idx, idx, idx)) OTHER(21, bml_reorder(A, idx)) OTHER(22, bml_save_domain(A)) OTHER(23, bml_restore_domain(A)) OTHER(24, bml_allGatherVParallel(A))
    }
    if (r) { if (vec) bml_free_memory(r); else call([&] { bml_deallocate(&r); }); }
    (void)x; (void)el; (void)isnum; (void)lst; k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { e.refuse = true; }});
  // ---- C21: iv = {source, destination, receive kind (0 recv, 1 irecv, 2 recv_matrix), communicator}; ms = {sent, held before}
  o.push_back({"s:send", RUN {
    MPI_Comm cm = subcomm(k.i(3), k.rank, k.nr); int me; MPI_Comm_rank(cm, &me); int half = k.i(3) != 2 || k.rank % 2 == 0; void *A = 0;
    if (half && me == k.i(0)) { A = k.make(k.mc.ms[0], k.mc.rec); if (!A) k.die(); k.must(call([&] { bml_mpi_send(A, k.i(1), cm); }), "send"); k.seq(A); }
    if (half && me == k.i(1)) {
      if (k.i(2) == 2) k.must(call([&] { A = bml_mpi_recv_matrix(k.c.fmt, k.c.prec, k.c.N, k.c.M, k.i(0), cm); }), "recv_matrix");
      else { A = k.make(k.mc.ms[1], (k.mc.rec + 3) % 6); if (!A) k.die(); if (k.i(2) == 0) k.must(call([&] { bml_mpi_recv(A, k.i(0), cm); }), "recv"); else k.must(call([&] { bml_mpi_irecv(A, k.i(0), cm); bml_mpi_irecv_complete(A); }), "irecv"); }
      k.seq(A);
      if (k.i(4)) { Buf v(k.c.prec, 1); v.set(0, 4); k.must(call([&] { bml_set_element(A, k.c.N - 1, 0, v.p()); bml_add_identity(A, 2, 0); }), "use"); k.seq(A); } // the received matrix is an ordinary one
    }
    if (A) k.must(call([&] { bml_deallocate(&A); }), "deallocate"); dropcomm(cm);
  }, WANT {
    int c = m.iv[3], me = c == 1 ? m.nr - 1 - rank : c == 2 ? rank / 2 : rank; bool half = c != 2 || rank % 2 == 0;
    if (half && me == m.iv[0]) e.mat(m.ms[0]);
    if (half && me == m.iv[1]) { e.mat(m.ms[0]); if (m.iv.size() > 4 && m.iv[4]) { Ref r = m.ms[0]; r(r.n - 1, 0) = 4; e.mat(r_lin(r, r_id(r.n), 1, 2)); } }
  }});
  // pairwise exchange (rank r with r^1): both post, send, complete; iv[0]: 1 crosses with the other half instead
  o.push_back({"s:exchange", RUN {
    int peer = k.i(0) ? (k.rank + k.nr / 2) % k.nr : k.rank ^ 1; void *A = k.make(k.mc.ms[k.rank % 2], k.mc.rec), *B = k.make(k.mc.ms[2], 0); if (!A || !B) k.die();
    k.must(call([&] { bml_mpi_irecv(B, peer, MPI_COMM_WORLD); bml_mpi_send(A, peer, MPI_COMM_WORLD); bml_mpi_irecv_complete(B); }), "exchange");
    k.seq(B); k.seq(A); k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { int peer = m.iv[0] ? (rank + m.nr / 2) % m.nr : rank ^ 1; e.mat(m.ms[peer % 2]); e.mat(m.ms[rank % 2]); }});
  // ring: everyone passes on to the right, twice, swapping buffers as the distributed product does
  o.push_back({"s:ring", RUN {
    int n = k.nr, l = (k.rank + n - 1) % n, r = (k.rank + 1) % n; void *A = k.make(k.mc.ms[k.rank % 3], k.mc.rec), *B = k.make(k.mc.ms[2], 1); if (!A || !B) k.die();
    for (int s = 0; s < 2; s++) { k.must(call([&] { bml_mpi_irecv(B, l, MPI_COMM_WORLD); bml_mpi_send(A, r, MPI_COMM_WORLD); bml_mpi_irecv_complete(B); }), "ring"); std::swap(A, B); k.seq(A); }
    k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate");
  }, WANT { for (int s = 1; s <= 2; s++) e.mat(m.ms[(rank + 2 * m.nr - s) % m.nr % 3]); }});
  // two matrices in a row from the same source, both receives posted first; iv[0]: completed in reverse
  o.push_back({"s:twice", RUN {
    if (k.rank == 1) { void *A = k.make(k.mc.ms[0], k.mc.rec), *B = k.make(k.mc.ms[1], 0); if (!A || !B) k.die(); k.must(call([&] { bml_mpi_send(A, 2, MPI_COMM_WORLD); bml_mpi_send(B, 2, MPI_COMM_WORLD); bml_deallocate(&A); bml_deallocate(&B); }), "send"); }
    if (k.rank == 2) { void *A = k.make(k.mc.ms[2], 0), *B = k.make(k.mc.ms[2], 1); if (!A || !B) k.die();
      k.must(call([&] { if (k.i(0) == 2) { bml_mpi_recv(A, 1, MPI_COMM_WORLD); bml_mpi_recv(B, 1, MPI_COMM_WORLD); } else { bml_mpi_irecv(A, 1, MPI_COMM_WORLD); bml_mpi_irecv(B, 1, MPI_COMM_WORLD); bml_mpi_irecv_complete(k.i(0) ? B : A); bml_mpi_irecv_complete(k.i(0) ? A : B); } }), "receive");
      k.seq(A); k.seq(B); k.must(call([&] { bml_deallocate(&A); bml_deallocate(&B); }), "deallocate"); }
  }, WANT { if (rank == 2) { e.mat(m.ms[0]); e.mat(m.ms[1]); } }});
  // all others send to rank 0, which posts all receives and completes them in the order given by iv[0]
  o.push_back({"s:gather", RUN {
    if (k.rank) { void *A = k.make(k.mc.ms[k.rank % 3], k.mc.rec); if (!A) k.die(); k.must(call([&] { bml_mpi_send(A, 0, MPI_COMM_WORLD); bml_deallocate(&A); }), "send"); return; }
    vector<void *> B(k.nr); for (int r = 1; r < k.nr; r++) { B[r] = k.make(k.mc.ms[(r + 1) % 3], 1); if (!B[r]) k.die(); k.must(call([&] { bml_mpi_irecv(B[r], r, MPI_COMM_WORLD); }), "irecv"); }
    for (int q = 1; q < k.nr; q++) { int r = k.i(0) ? k.nr - q : q; k.must(call([&] { bml_mpi_irecv_complete(B[r]); }), "complete"); k.seq(B[r]); }
    for (int r = 1; r < k.nr; r++) k.must(call([&] { bml_deallocate(&B[r]); }), "deallocate");
  }, WANT { if (!rank) for (int q = 1; q < m.nr; q++) { int r = m.iv[0] ? m.nr - q : q; e.mat(m.ms[r % 3]); } }});
  // broadcast: iv = {root (in the communicator), communicator}
  o.push_back({"s:bcast", RUN {
    MPI_Comm cm = subcomm(k.i(1), k.rank, k.nr); int me; MPI_Comm_rank(cm, &me); bool root = me == k.i(0); void *A = k.make(root ? k.mc.ms[0] : k.mc.ms[1 + k.rank % 2], root ? k.mc.rec : 0); if (!A) k.die();
    k.must(call([&] { bml_mpi_bcast_matrix(A, k.i(0), cm); }), "bcast"); k.seq(A);
    if (k.c.M >= k.c.N && !k.c.MB) { Buf v(k.c.prec, 1); v.set(0, 4); k.must(call([&] { bml_set_element(A, k.c.N - 1, 0, v.p()); }), "use"); k.seq(A); }
    k.must(call([&] { bml_deallocate(&A); }), "deallocate"); dropcomm(cm);
  }, WANT { e.mat(m.ms[0]); if (m.c.M >= m.c.N && !m.c.MB) { Ref r = m.ms[0]; r(r.n - 1, 0) = 4; e.mat(r); } }});
  // ---- C23
  o.push_back({"r:default_domain", RUN { // iv = {N, M}
    for (int mode = 0; mode < 2; mode++) { bml_domain_t *d = 0; k.must(call([&] { d = bml_default_domain(k.i(0), k.i(1), mode ? D_DIST : D_SEQ); }), "default_domain"); if (!d) { k.cx.fail("null", "no domain"); k.die(); }
      k.num(d->totalProcs); k.num(d->totalRows); k.num(d->totalCols); k.num(d->globalRowMin); k.num(d->globalRowMax); k.num(d->globalRowExtent); if (mode) { k.num(d->maxLocalExtent); k.num(d->minLocalExtent); }
      for (int r = 0; r < k.nr; r++) { k.num(d->localRowMin[r]); k.num(d->localRowMax[r]); k.num(d->localRowExtent[r]); k.num(d->localElements[r]); k.num(d->localDispl[r]); }
      if (mode == 1) { // copied, the copy is equal and independent
        bml_domain_t *f = 0; k.must(call([&] { f = bml_default_domain(k.i(0), k.i(1), D_SEQ); bml_copy_domain(d, f); }), "copy_domain"); d->localRowMin[0] += 5; d->localDispl[k.nr - 1] -= 3;
        for (int r = 0; r < k.nr; r++) { k.num(f->localRowMin[r]); k.num(f->localRowMax[r]); k.num(f->localRowExtent[r]); k.num(f->localElements[r]); k.num(f->localDispl[r]); }
        k.must(call([&] { bml_deallocate_domain(f); }), "deallocate_domain");
      }
      k.must(call([&] { bml_deallocate_domain(d); }), "deallocate_domain"); }
  }, WANT {
    int N = m.iv[0], M = m.iv[1], p = m.nr;
    for (int mode = 0; mode < 2; mode++) { e.num(p); e.num(N); e.num(M); e.num(0); e.num(N); e.num(N); if (mode) { e.num((N + p - 1) / p); e.num(N / p); }
      for (int rep = 0; rep < (mode ? 2 : 1); rep++) { int at = 0; for (int r = 0; r < p; r++) { int ext = mode ? N / p + (r < N % p) : N; e.num(mode ? at : 0); e.num(mode ? at + ext : N); e.num(ext); e.num((double)ext * M); e.num(mode ? (double)at * M : 0); at += ext; } } }
  }});
  // a matrix whose partition is set by parts: iv = {operation, parts per rank..}; each rank works on its own rows, then all gather
  o.push_back({"r:gather", RUN {
    int n = k.nr, op = k.i(0), N = k.c.N; vector<int> lo, hi, nodes; for (int r = 0, at = 1; r < n; r++) { int parts = k.i(1 + r) / 100, each = k.i(1 + r) % 100; lo.push_back(at); for (int q = 0; q < parts; q++) nodes.push_back(q ? 0 : each), at++; hi.push_back(at - 1); }
    void *A = k.make(k.mc.ms[0], k.mc.rec), *B = k.make(k.mc.ms[1], 0); if (!A || !B) k.die(); vector<void *> V = {A, B};
    for (void *x : V) k.must(call([&] { bml_update_domain(x, lo.data(), hi.data(), nodes.data()); }), "update_domain");
    int at = 0; for (int r = 0; r < k.rank; r++) at += k.i(1 + r) % 100; int ext = k.i(1 + k.rank) % 100;
    bml_domain_t *d = 0; if (layout_domain(A, &d)) for (int r = 0; r < n; r++) { k.num(d->localRowMin[r]); k.num(d->localRowMax[r]); k.num(d->localRowExtent[r]); k.num(d->localElements[r]); k.num(d->localDispl[r]); }
    else for (int r = 0, a = 0; r < n; r++) { int x = k.i(1 + r) % 100; k.num(a); k.num(a + x); k.num(x); k.num(x * k.c.M); k.num(a * k.c.M); a += x; }
    Buf v(k.c.prec, N); void *C = A; double s = 0;
    switch (op) {
      case 0: for (int i = at; i < at + ext; i++) { for (int j = 0; j < N; j++) v.set(j, k.mc.ms[1](i, j)); k.must(call([&] { bml_set_row(A, i, v.p(), 0); }), "set_row"); } break;
      case 1: k.must(call([&] { bml_add(A, B, 2, -1, 0); }), "add"); break;
      case 2: k.must(call([&] { bml_scale_add_identity(A, 2, -1, 0); }), "scale_add_identity"); break;
      case 3: { C = 0; k.must(call([&] { C = bml_copy_new(A); bml_clear(C); void *t = bml_multiply_x2(A, C, 0); if (t) bml_free_memory(t); }), "multiply_x2"); V.push_back(C); } break;
      case 4: { C = 0; k.must(call([&] { C = bml_copy_new(A); bml_clear(C); bml_multiply(A, B, C, 1, 0, 0); }), "multiply"); V.push_back(C); } break;
      case 5: k.must(call([&] { s = bml_trace(A); bml_sumRealReduce(&s); }), "trace"); k.num(s); k.must(call([&] { s = bml_sum_squares(A); bml_sumRealReduce(&s); }), "sum_squares"); k.num(s); break;
      case 6: k.must(call([&] { bml_save_domain(A); vector<int> l1, h1, n1; for (int r = 0; r < n; r++) { l1.push_back(r + 1); h1.push_back(r + 1); n1.push_back(r ? 0 : N); } bml_update_domain(A, l1.data(), h1.data(), n1.data()); bml_restore_domain(A); }), "save_restore");
        for (int i = at; i < at + ext; i++) { for (int j = 0; j < N; j++) v.set(j, k.mc.ms[1](i, j)); k.must(call([&] { bml_set_row(A, i, v.p(), 0); }), "set_row"); } break;
      case 7: { C = 0; k.must(call([&] { C = bml_copy_new(A); }), "copy_new"); V.push_back(C); for (int i = at; i < at + ext; i++) { for (int j = 0; j < N; j++) v.set(j, k.mc.ms[1](i, j)); k.must(call([&] { bml_set_row(C, i, v.p(), 0); }), "set_row"); } } break;
      case 8: { C = 0; k.must(call([&] { C = bml_copy_new(A); bml_clear(C); bml_element_multiply_AB(A, B, C, 0); }), "element_multiply"); V.push_back(C); } break;
      case 9: { C = 0; k.must(call([&] { C = bml_threshold_new(A, 6); }), "threshold_new"); V.push_back(C); for (void *x : {C}) k.must(call([&] { bml_update_domain(x, lo.data(), hi.data(), nodes.data()); }), "update_domain"); } break;
      case 10: { // what each rank computes from its rows, reduced
        auto sum = [&](const char *what, std::function<double()> f) { double x = 0; k.must(call([&] { x = f(); bml_sumRealReduce(&x); }), what); k.num(x); };
        sum("trace_mult", [&] { return bml_trace_mult(A, B); }); sum("sum_AB", [&] { return bml_sum_AB(A, B, 2, 0); }); sum("sum_squares2", [&] { return bml_sum_squares2(A, B, 2, -1, 0); }); sum("fnorm", [&] { double f = bml_fnorm(A); return f * f; }); sum("fnorm2", [&] { double f = bml_fnorm2(A, B); return f * f; });
        double g[2] = {0, 0}; k.must(call([&] { double *q = (double *)bml_gershgorin(A); g[0] = q[0]; g[1] = q[1]; bml_free_memory(q); bml_minRealReduce(&g[0]); bml_maxRealReduce(&g[1]); }), "gershgorin"); k.num(g[0]); k.num(g[1]); } break;
      case 11: k.must(call([&] { bml_add_identity(A, 3, 0); }), "add_identity"); break;
      case 12: k.must(call([&] { bml_threshold(A, 6); }), "threshold"); break;
      case 13: { C = 0; k.must(call([&] { C = bml_copy_new(B); bml_multiply(A, B, C, 2, -1, 0); }), "multiply"); V.push_back(C); } break;
      case 14: { C = 0; k.must(call([&] { C = bml_copy_new(A); bml_clear(C); bml_element_multiply_AB(A, A, C, 0.5); }), "element_multiply"); V.push_back(C); } break;
      case 15: k.must(call([&] { double x = bml_add_norm(A, B, 2, -1, 0); (void)x; }), "add_norm"); break;
      case 16: k.must(call([&] { bml_normalize(A, -2, 6); }), "normalize"); break;
      case 17: { C = 0; v.set(0, cd(-2)); k.must(call([&] { C = bml_scale_new(v.p(), A); bml_scale_inplace(v.p(), C); }), "scale"); V.push_back(C); } break;
      case 18: k.must(call([&] { bml_clear(B); bml_copy(A, B); }), "copy"); C = B; break;
      case 19: k.must(call([&] { bml_add(A, B, 1, 1, 0.5); }), "add"); break;
      case 20: { C = 0; k.must(call([&] { C = bml_transpose_new(A); bml_update_domain(C, lo.data(), hi.data(), nodes.data()); }), "transpose_new"); V.push_back(C); } break;
      case 21: k.must(call([&] { bml_transpose(A); }), "transpose"); break;
    }
    if (op != 5 && op != 10) { k.must(call([&] { bml_allGatherVParallel(C); }), "allGatherV"); k.seq(C); }
    for (void *x : V) { void *y = x; k.must(call([&] { bml_deallocate(&y); }), "deallocate"); }
  }, WANT {
    int n = m.nr, op = m.iv[0]; for (int r = 0, a = 0; r < n; r++) { int x = m.iv[1 + r] % 100; e.num(a); e.num(a + x); e.num(x); e.num(x * m.c.M); e.num(a * m.c.M); a += x; }
    const Ref &A = m.ms[0], &B = m.ms[1]; Ref r; double t = eps(m);
    switch (op) { case 0: case 6: case 7: r = B; break; case 1: r = r_lin(A, B, 2, -1); break; case 2: r = r_lin(A, r_id(A.n), 2, -1); break; case 3: r = r_mul(A, A); break; case 4: r = r_mul(A, B); break; case 5: e.num(r_trace(A).real(), t); e.num(ssq(A), t); break; case 8: r = r_had(A, B); break; case 9: case 12: r = thr_(A, 6); break;
      case 10: { cd tm = 0, sab = 0; double s2 = 0, d2 = 0, mn = 1e300, mx = -1e300; for (int i = 0; i < A.n; i++) { double w = 0; for (int j = 0; j < A.n; j++) { tm += A(i, j) * B(j, i); sab += 2. * A(i, j) * B(i, j); s2 += std::norm(2. * A(i, j) - B(i, j)); d2 += std::norm(A(i, j) - B(i, j)); if (i != j) w += std::abs(A(i, j)); } mn = std::min(mn, A(i, i).real() - w); mx = std::max(mx, A(i, i).real() + w); }
        e.num(tm.real(), t); e.num(sab.real(), t); e.num(s2, t); e.num(ssq(A), t); e.num(d2, t); e.num(mn, t); e.num(mx, t); } break;
      case 11: r = r_lin(A, r_id(A.n), 1, 3); break; case 13: r = r_lin(r_mul(A, B), B, 2, -1); break; case 14: r = r_had(A, A); break; case 15: r = r_lin(A, B, 2, -1); break;
      case 16: { double f = 1.0 / (6 - -2), gg = 6 * f; r = r_lin(A, r_id(A.n), -f, gg); } break;
      case 17: r = r_scale(A, 4); break; case 18: r = A; break; case 19: r = r_lin(A, B, 1, 1); break; case 20: case 21: r = r_tr(A); break; }
    if (op != 5 && op != 10) e.mat(r, 0, t);
  }});
  o.push_back({"r:reduce", RUN { // dv: one value per rank
    for (int w = 0; w < 3; w++) { double v = k.d(k.rank); k.must(call([&] { w == 0 ? bml_sumRealReduce(&v) : w == 1 ? bml_minRealReduce(&v) : bml_maxRealReduce(&v); }), "reduce"); k.num(v); }
    k.must(call([&] { bml_barrierParallel(); }), "barrier"); k.num(bml_getNRanks()); k.num(bml_getMyRank()); k.num(bml_printRank());
  }, WANT { double s = 0, lo = 1e300, hi = -1e300; for (double v : m.dv) { s += v; lo = std::min(lo, v); hi = std::max(hi, v); } e.num(s, 1e-14); e.num(lo); e.num(hi); e.num(m.nr); e.num(rank); e.num(rank == 0); }});
  return o;
}
const vector<MOp> &mops() { static vector<MOp> o = build(); return o; }
int mop(const string &n) { for (size_t k = 0; k < mops().size(); k++) if (mops()[k].name == n) return k; fprintf(stderr, "no program %s\n", n.c_str()); abort(); }
