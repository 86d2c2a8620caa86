// Alphabet of library operations with fixed arguments, for the explorers that vary something else (threads, faults).
#pragma once
#include "seq_gen.h"
#include <algorithm>
#include <unistd.h>
extern "C" void hrand_seed(unsigned long);
struct Ob { vector<void *> out; vector<double> num; vector<int> ints; void *keepA = 0; };
struct OOp { string name; std::function<void(const Cfg &, void *&, void *&, Ob &)> run; std::function<bool(const Cfg &)> pre; int opnds = 3; bool anyvalue = false; };
typedef vector<OOp> OOps;
static void *sc(const Cfg &c, double f) { static Buf *b; delete b; b = new Buf(c.prec, 1); b->set(0, f); return b->p(); }
static void two(void *p, Ob &o) { double *d = (double *)p; o.num.push_back(d[0]); o.num.push_back(d[1]); bml_free_memory(p); }
static void vec(void *p, const Cfg &c, int n, Ob &o) { for (int i = 0; i < n; i++) { cd v = elem_get(p, c.prec, i); o.num.push_back(v.real()); o.num.push_back(v.imag()); } }
static OOps all_ops() {
  OOps o;
#define OP(NAME, ...) o.push_back({NAME, [](const Cfg &c, void *&A, void *&B, Ob &ob) { int N = c.N; (void)N; __VA_ARGS__ }, nullptr, 3})
#define OP1(NAME, ...) do { OP(NAME, __VA_ARGS__); o.back().opnds = 1; } while (0)
#define OP0(NAME, ...) do { OP(NAME, __VA_ARGS__); o.back().opnds = 0; } while (0)
#define NOT(COND) o.back().pre = [](const Cfg &c) { return !(COND); }
  OP0("zero_matrix", ob.out.push_back(bml_zero_matrix(c.fmt, c.prec, N, c.M, D_SEQ)););
  OP0("noinit_matrix", void *m = bml_noinit_matrix(c.fmt, c.prec, N, c.M, D_SEQ); bml_deallocate(&m););
  OP0("identity_matrix", ob.out.push_back(bml_identity_matrix(c.fmt, c.prec, N, c.M, D_SEQ)););
  OP0("banded_matrix", hrand_seed(7); ob.out.push_back(bml_banded_matrix(c.fmt, c.prec, N, std::min(3, c.M), D_SEQ)););  o.back().anyvalue = true;
  OP0("random_matrix", hrand_seed(7); void *m = bml_random_matrix(c.fmt, c.prec, N, c.M, D_SEQ); bml_deallocate(&m););
  OP1("deallocate", bml_deallocate(&A); A = 0;);
  OP1("clear", bml_clear(A););
  OP1("copy_new", ob.out.push_back(bml_copy_new(A)););
  OP("copy", bml_copy(A, B););
  for (int ord = 0; ord < 2; ord++) for (int t = 0; t < 2; t++) {
    o.push_back({strf("import(%s,thr=%g)", ord ? "col" : "row", t * 3.0), [=](const Cfg &c, void *&, void *&, Ob &ob) { Buf b(c.prec, c.N * c.N); for (int k = 0; k < c.N * c.N; k++) b.set(k, (k * 7 + c.N) % 3 ? val(k / c.N, k % c.N, 1, c.cplx()) : cd(0)); ob.out.push_back(bml_import_from_dense(c.fmt, c.prec, ord, c.N, c.M, b.p(), t * 3.0, D_SEQ)); }, nullptr, 0});
    if (!t) o.push_back({strf("export(%s)", ord ? "col" : "row"), [=](const Cfg &c, void *&A, void *&, Ob &ob) { void *d = bml_export_to_dense(A, ord); vec(d, c, c.N * c.N, ob); bml_free_memory(d); }, nullptr, 1});
  }
  for (int g = F_DENSE; g <= F_CSR; g++) for (int pr = P_SR; pr <= P_DC; pr++)
    o.push_back({strf("convert(%s,%s)", FMTN[g], PRECN[pr]), [=](const Cfg &c, void *&A, void *&, Ob &ob) { ob.out.push_back(bml_convert(A, g, pr, c.N, D_SEQ)); }, [=](const Cfg &c) { return pr == c.prec || (g == c.fmt && (pr & 1) == (c.prec & 1)); }, 1});
  OP1("set_element", bml_set_element(A, 0, N - 1, sc(c, 5)); bml_set_element(A, N - 1, 0, sc(c, 0)););
  OP1("set_row", Buf b(c.prec, N); for (int j = 0; j < N; j++) b.set(j, j % 2 ? 4 : 0); bml_set_row(A, N / 2, b.p(), 0););
  OP1("set_diagonal", Buf b(c.prec, N); for (int j = 0; j < N; j++) b.set(j, j + 2); bml_set_diagonal(A, b.p(), 0););
  OP1("set_diagonal(thr)", Buf b(c.prec, N); for (int j = 0; j < N; j++) b.set(j, j % 2 ? 9 : 1); bml_set_diagonal(A, b.p(), 2););
  OP1("get_row", for (int i = 0; i < N; i++) { void *r = bml_get_row(A, i); vec(r, c, N, ob); bml_free_memory(r); });
  OP1("get_diagonal", void *r = bml_get_diagonal(A); vec(r, c, N, ob); bml_free_memory(r););
  OP("add", bml_add(A, B, 2, -1, 0););
  OP("add(thr)", bml_add(A, B, 1, 1, 2.5););
  OP("add_norm", double n = bml_add_norm(A, B, 2, -1, 0); (void)n;);
  OP1("add_identity", bml_add_identity(A, 3, 0););
  OP1("add_identity(thr)", bml_add_identity(A, 3, 2.5););
  OP1("scale_add_identity", bml_scale_add_identity(A, 2, -1, 0););
  OP1("scale_new", ob.out.push_back(bml_scale_new(sc(c, 2), A)););
  OP("scale", bml_scale(sc(c, 3), A, B););
  OP1("scale_inplace", bml_scale_inplace(sc(c, -2), A););
  OP1("threshold", bml_threshold(A, 6););
  OP1("threshold_new", ob.out.push_back(bml_threshold_new(A, 6)););
  OP1("transpose", bml_transpose(A););
  OP1("transpose_new", ob.out.push_back(bml_transpose_new(A)););
  OP1("transpose_triangle(u)", bml_transpose_triangle(A, 'u'););
  OP1("transpose_triangle(l)", bml_transpose_triangle(A, 'l'););
  OP1("adjungate_triangle(u)", char t[] = "u"; bml_adjungate_triangle(A, t););
  OP1("adjungate_triangle(l)", char t[] = "l"; bml_adjungate_triangle(A, t););
  OP("multiply", void *C = mk_zero(c); bml_multiply(A, B, C, 1, 0, 0); ob.out.push_back(C););
  OP("multiply(beta,thr)", void *C = bml_copy_new(B); bml_multiply(A, B, C, 2, -1, 3); ob.out.push_back(C););
  OP1("multiply(square)", void *C = mk_zero(c); bml_multiply(A, A, C, 1, 0, 0); ob.out.push_back(C););
  OP1("multiply_x2", void *C = mk_zero(c); void *t = bml_multiply_x2(A, C, 0); ob.out.push_back(C); if (t) two(t, ob););
  OP("multiply_AB", void *C = mk_zero(c); bml_multiply_AB(A, B, C, 0); ob.out.push_back(C););
  OP("multiply_adjust_AB", void *C = mk_zero(c); bml_multiply_adjust_AB(A, B, C, 0); ob.out.push_back(C););
  OP("element_multiply", void *C = mk_zero(c); bml_element_multiply_AB(A, B, C, 0); ob.out.push_back(C););
  OP1("trace", ob.num.push_back(bml_trace(A)););
  OP("trace_mult", ob.num.push_back(bml_trace_mult(A, B)););
  OP1("sum_squares", ob.num.push_back(bml_sum_squares(A)););
  OP("sum_squares2", ob.num.push_back(bml_sum_squares2(A, B, 1, -2, 0)););
  OP("sum_squares2(thr)", ob.num.push_back(bml_sum_squares2(A, B, 1, -2, 4)););
  OP("sum_AB", ob.num.push_back(bml_sum_AB(A, B, 1, 0)););
  OP("sum_AB(thr)", ob.num.push_back(bml_sum_AB(A, B, 1, 20)););
  OP1("sum_squares_submatrix", ob.num.push_back(bml_sum_squares_submatrix(A, N - 1)););
  OP1("fnorm", ob.num.push_back(bml_fnorm(A)););
  OP("fnorm2", ob.num.push_back(bml_fnorm2(A, B)););
  OP1("gershgorin", two(bml_gershgorin(A), ob););
  OP1("gershgorin_partial", two(bml_gershgorin_partial(A, N - 1), ob););
  OP1("accumulate_offdiag", void *p = bml_accumulate_offdiag(A, 1); for (int i = 0; i < N; i++) ob.num.push_back(c.sgl() ? ((float *)p)[i] : ((double *)p)[i]); bml_free_memory(p);); NOT(true);
  OP1("normalize", bml_normalize(A, -2, 7););
  OP1("get_sparsity", ob.num.push_back(bml_get_sparsity(A, 2.5)););
  OP1("get_bandwidth", ob.ints.push_back(bml_get_bandwidth(A)); for (int i = 0; i < N; i++) ob.ints.push_back(bml_get_row_bandwidth(A, i)););
  OP1("matrix2submatrix", Cfg d; d.fmt = F_DENSE; d.prec = c.prec; d.N = d.M = N - 1; void *S = mk_zero(d); vector<int> ix; for (int i = 1; i < N; i++) ix.push_back(i); bml_matrix2submatrix(A, S, ix.data(), N - 1); ob.out.push_back(S););
  OP1("submatrix2matrix", Cfg d; d.fmt = F_DENSE; d.prec = c.prec; d.N = d.M = N; Ref r = family(N, 2, d, 3); void *S = mk_zero(d); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { Buf b(c.prec, 1); b.set(0, r(i, j)); bml_set_element(S, i, j, b.p()); } vector<int> ix; for (int i = 0; i < N; i++) ix.push_back((i + 1) % N); bml_submatrix2matrix(S, A, ix.data(), N, N - 1, 0); bml_deallocate(&S););
  for (int d = 0; d < 2; d++) {
    o.push_back({strf("matrix2submatrix_index(%d)", d), [=](const Cfg &c, void *&A, void *&B, Ob &ob) { int nl[2] = {0, c.N - 1}, vs[2] = {0, 0}; vector<int> ix(c.N, -1); bml_matrix2submatrix_index(A, B, nl, c.N > 1 ? 2 : 1, ix.data(), vs, d); std::sort(ix.begin() + vs[1], ix.end()); ob.ints.push_back(vs[0]); ob.ints.push_back(vs[1]); for (int x : ix) ob.ints.push_back(x); }, nullptr, 3});
    o.push_back({strf("matrix2submatrix_index_graph(%d)", d), [=](const Cfg &c, void *&A, void *&, Ob &ob) { int nl[2] = {0, c.N - 1}, vs[2] = {0, 0}; vector<int> ix(c.N, -1); bml_matrix2submatrix_index_graph(A, nl, c.N > 1 ? 2 : 1, ix.data(), vs, d); std::sort(ix.begin() + vs[1], ix.end()); ob.ints.push_back(vs[0]); ob.ints.push_back(vs[1]); for (int x : ix) ob.ints.push_back(x); }, nullptr, 1});
    o.push_back({strf("adjacency(%d)", d), [=](const Cfg &c, void *&A, void *&, Ob &ob) { vector<int> xa(c.N + 1, 0), ad(c.N * c.N + 1, -1); bml_adjacency(A, xa.data(), ad.data(), d); for (int i = 0; i < c.N; i++) if (xa[i] - d >= 0 && xa[i + 1] - d <= c.N * c.N && xa[i] <= xa[i + 1]) std::sort(ad.begin() + xa[i] - d, ad.begin() + xa[i + 1] - d); for (int x : xa) ob.ints.push_back(x); for (int x : ad) ob.ints.push_back(x); }, nullptr, 1});
    o.push_back({strf("adjacency_group(%d)", d), [=](const Cfg &c, void *&A, void *&, Ob &ob) { vector<int> h; for (int i = 0; i < c.N; i += 2) h.push_back(i + 1); int n = h.size(); vector<int> xa(n + 1, 0), ad(n * n + 1, -1); bml_adjacency_group(A, h.data(), n, xa.data(), ad.data(), d); for (int x : xa) ob.ints.push_back(x); for (int i = 0; i < n; i++) if (xa[i] - d >= 0 && xa[i + 1] - d <= n * n && xa[i] <= xa[i + 1]) std::sort(ad.begin() + xa[i] - d, ad.begin() + xa[i + 1] - d); for (int x : ad) ob.ints.push_back(x); }, nullptr, 1});
  }
  OP1("group_matrix", vector<int> h; for (int i = 0; i < N; i += 2) h.push_back(i + 1); ob.out.push_back(bml_group_matrix(A, h.data(), h.size(), 2.5)););
  OP1("extract_submatrix", ob.out.push_back(bml_extract_submatrix(A, 0, 1, N - 1, N - 1)););
  OP1("assign_submatrix", void *S = bml_extract_submatrix(A, 0, 1, N - 1, N - 1); bml_assign_submatrix(A, S, 1, 0); bml_deallocate(&S););
  OP1("reorder", vector<int> p(N); for (int i = 0; i < N; i++) p[i] = (i * 2 + 1) % N; if (N % 2 == 0) for (int i = 0; i < N; i++) p[i] = N - 1 - i; if (c.fmt == F_ELLBLOCK) { int nb = c.bs.size(); bool pal = true; for (int k = 0; k < nb; k++) pal &= c.bs[k] == c.bs[nb - 1 - k]; for (int k = 0; k < nb; k++) p[k] = pal ? nb - 1 - k : k; } bml_reorder(A, p.data());); NOT(c.fmt == F_ELLBLOCK && c.bs.empty());
  OP1("inverse", void *I = 0; bml_scale_add_identity(A, 1, 40, 0); I = bml_inverse(A); ob.out.push_back(I););
  OP1("diagonalize", void *T = bml_transpose_new(A); bml_add(A, T, 0.5, 0.5, 0); bml_deallocate(&T); Buf ev(P_DR, N); Cfg d = c; void *V = mk_zero(d); bml_diagonalize(A, ev.p(), V); for (int i = 0; i < N; i++) ob.num.push_back(c.sgl() ? ((float *)ev.p())[i] : ((double *)ev.p())[i]); bml_deallocate(&V);); NOT(c.cplx());
  return o;
}
static int g_worker; static inline string fault_file() { const char *d = getenv("BMLCHECK_TMP"); return strf("%s/fault-%d.mtx", d ? d : "/tmp", g_worker); }
static OOps extra_ops() {
  OOps o;
  OP0("default_domain", bml_domain_t *d = bml_default_domain(N, c.M, D_SEQ); bml_deallocate_domain(d););
  OP1("threshold(all)", bml_threshold(A, 1e6););
  OP1("import(narrow)", void *e = bml_export_to_dense(A, ROWMAJ); void *m = bml_import_from_dense(c.fmt, c.prec, ROWMAJ, N, N, e, 0, D_SEQ); bml_free_memory(e); ob.out.push_back(m););
  OP("submatrix_group", vector<int> ix; for (int i = 0; i < N; i++) ix.push_back(i); vector<int> nl{0}, core(N, -1); int vs[2] = {0, 0}; bml_matrix2submatrix_index(A, B, nl.data(), 1, core.data(), vs, 1); ob.ints.push_back(vs[0]););
  OP1("write+read", string fn = fault_file(); bml_write_bml_matrix(A, fn.data()); void *m = mk_zero(c); bml_read_bml_matrix(m, fn.data()); ob.out.push_back(m););
  OP1("print", bml_print_bml_matrix(A, 0, N, 0, N); void *r = bml_get_row(A, 0); bml_print_bml_vector(r, 0, N); bml_free_memory(r););
  for (double al : {1.0, 2.0}) for (double be : {0.0, -1.0, 1.0}) o.push_back({strf("multiply(square,%g,%g)", al, be), [=](const Cfg &c, void *&A, void *&, Ob &ob) { void *C = bml_copy_new(A); bml_multiply(A, A, C, al, be, 0); ob.out.push_back(C); }, nullptr, 1});
  OP("multiply(1,1)", void *C = bml_copy_new(A); bml_multiply(A, B, C, 1, 1, 0); ob.out.push_back(C););
  OP("add_norm(thr)", double n = bml_add_norm(A, B, 2, -1, 2.5); (void)n;);
  OP("element_multiply(thr)", void *C = mk_zero(c); bml_element_multiply_AB(A, B, C, 3); ob.out.push_back(C););
  OP1("set_new_element", void *Z = mk_zero(c); bml_set_element_new(Z, 0, N - 1, sc(c, 5)); ob.out.push_back(Z););
  OP1("getters", for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vec(bml_get_element(A, i, j), c, 1, ob););
  return o;
}
