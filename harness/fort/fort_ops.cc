// C27: every procedure of the Fortran interface against the C operation it stands for, on identical operands
#include "../seq_gen.h"
#include <algorithm>
#include <unistd.h>
extern "C" {
void f_add(int, void *, void *, double, double, double); double f_add_norm(int, void *, void *, double, double, double);
void f_add_identity(void *, double, double); void f_scale_add_identity(void *, double, double, double);
void f_triangle(int, void *, char); void f_clear(void *); int f_allocated(void *); void f_deallocate(void **);
void f_create(int, int, int, int, int, int, void **); void f_block(int, int, int, int, int, int *, int, void **);
void f_domain(int, void *, int *, int *, int *); void f_new(int, void *, void **); void f_copy(void *, void *); void f_reorder(void *, int *);
void f_diagonalize(void *, double *, void *); void f_multiply(int, void *, void *, void *, double, double, double);
void f_element_multiply(int, void *, void *, void *, double); void f_x2(int, void *, void *, double, double *, int *);
double f_number(int, void *, void *, double, double, double, int); void f_text(int, void *, char *, int);
void f_normalize(void *, double, double); void f_gershgorin(int, void *, int, double *, int *); void f_threshold(void *, double);
void f_sub_index(int, void *, void *, int *, int, int *, int *, int); void f_sub(void *, void *, int *, int); void f_unsub(int, void *, void *, int *, int, int, double);
void f_adjacency(void *, int *, int *, int); void f_adjacency_group(void *, int *, int, int *, int *, int); void f_group_matrix(void *, void **, int *, int, double);
void f_io(int, void *, const char *, int); void f_print(void *, int, int, int, int); void f_unit(const char *, int);
#define TYPED(S) \
  void f_import_##S(int, int, int, int, void *, int, double, int, void **); void f_export_##S(int, void *, int, void *, int *, int *); \
  void f_get_row_##S(int, void *, int, int, void *, int *); void f_get_element_##S(void *, int, int, void *); \
  void f_set_row_##S(int, int, void *, int, int, void *, double); void f_set_element_##S(int, void *, int, int, void *); \
  void f_scale_##S(int, void *, void *, void *); void f_print_dense_##S(int, void *, int, int, int, int, int);
TYPED(sr) TYPED(dr) TYPED(sc) TYPED(dc)
// Fortran's way of stopping a program is an error exit
void __wrap__gfortran_stop_string(const char *, size_t, bool) { exit(1); }
void __wrap__gfortran_error_stop_string(const char *, size_t, bool) { exit(1); }
void __wrap__gfortran_stop_numeric(int, bool) { exit(1); }
void __wrap__gfortran_error_stop_numeric(int, bool) { exit(1); }
// packed copies of array sections come from the Fortran runtime but are released by the compiled code
void *__real__gfortran_internal_pack(void **); void *__wrap__gfortran_internal_pack(void **d) { void *p = __real__gfortran_internal_pack(d); if (p != *d) g_live++; return p; }
void __real__gfortran_string_trim(size_t *, void **, size_t, const char *); void __wrap__gfortran_string_trim(size_t *l, void **d, size_t n, const char *s) { __real__gfortran_string_trim(l, d, n, s); if (*l > 0) g_live++; } // as above
void hrand_seed(unsigned long);
}
extern void hrand_seed(unsigned long);
#define SEL(f) (c.prec == P_SR ? f_##f##_sr : c.prec == P_DR ? f_##f##_dr : c.prec == P_SC ? f_##f##_sc : f_##f##_dc)
struct Side { vector<void *> m; vector<double> num; string txt; };
typedef std::function<void(Side &)> Op;
static string g_unit;
static string unit_text() { string s; FILE *p = fopen(g_unit.c_str(), "r"); if (!p) return s; char b[512]; size_t n; while ((n = fread(b, 1, sizeof b, p))) s.append(b, n); fclose(p); return s; }
static void units() {
  if (g_unit.empty()) { const char *d = getenv("BMLCHECK_TMP"); g_unit = strf("%s/fort-%d.txt", d ? d : "/tmp", (int)getpid()); f_unit(g_unit.c_str(), g_unit.size()); unlink(g_unit.c_str()); }
}
struct In { Cfg c; Ref r; int rec; };
static void put(Side &s, const Cfg &c, const void *p, size_t n) { for (size_t k = 0; k < n; k++) { cd v = elem_get(p, c.prec, k); s.num.push_back(v.real()); s.num.push_back(v.imag()); } }
// runs the C operation and the Fortran procedure on equal operands and compares everything observable afterwards
static void both(Ctx &cx, const Cfg &c, const char *op, const string &d, const vector<In> &in, Op C, Op F, int empty = 0) {
  string sig = SIG(op); cx.cursig = sig;
  if (!cx.next([&] { string s = c.str() + " op=" + op + " " + d; for (auto &i : in) s += " " + r_str(i.r); return s; })) return;
  units();
  Side s[2]; Outcome o[2];
  for (int k = 0; k < 2; k++) {
    for (auto &i : in) { void *m = mk(cx, i.c, i.r, i.rec); if (!m) return; s[k].m.push_back(m); }
    for (int e = 0; e < empty; e++) s[k].m.push_back(0);
    hrand_seed(7);
    o[k] = call([&] { (k ? F : C)(s[k]); }); cx.trans();
  }
  if (o[0] != o[1]) { static const char *on[] = {"succeeds", "reports an error", "fails an assertion"}; cx.fail(sig + "|outcome", strf("the C operation %s, the Fortran one %s %s", on[o[0]], on[o[1]], g_errtext.c_str())); return; }
  if (o[0] != OK) return; 
  cx.nontrivial++;
  if (s[0].num.size() != s[1].num.size()) { cx.fail(sig + "|size", strf("the Fortran result has %zu numbers, the C one %zu", s[1].num.size(), s[0].num.size())); return; }
  for (size_t k = 0; k < s[0].num.size(); k++) if (!(s[0].num[k] == s[1].num[k] || (s[0].num[k] != s[0].num[k] && s[1].num[k] != s[1].num[k]))) { cx.fail(sig + "|number", strf("number %zu: Fortran %.17g, C %.17g", k, s[1].num[k], s[0].num[k])); return; }
  if (s[0].txt != s[1].txt) { cx.fail(sig + "|text", "Fortran gives '" + s[1].txt.substr(0, 300) + "', C '" + s[0].txt.substr(0, 300) + "'"); return; }
  for (size_t k = 0; k < s[0].m.size(); k++) {
    void *a = s[0].m[k], *b = s[1].m[k];
    if (!a != !b) { cx.fail(sig + "|null", strf("matrix %zu: %s only from Fortran", k, a ? "missing" : "present")); return; }
    if (!a) continue;
    int qa[4] = {bml_get_type(a), bml_get_precision(a), bml_get_N(a), bml_get_M(a)}, qb[4] = {bml_get_type(b), bml_get_precision(b), bml_get_N(b), bml_get_M(b)};
    for (int q = 0; q < 4; q++) if (qa[q] != qb[q]) { static const char *w[] = {"format", "precision", "size", "row capacity"}; cx.fail(sig + "|shape", strf("matrix %zu: %s %d from Fortran, %d from C", k, w[q], qb[q], qa[q])); return; }
    int ma = bml_get_distribution_mode(a), mb = bml_get_distribution_mode(b); if (ma != mb) { cx.fail(sig + "|mode", strf("matrix %zu: distribution mode %d from Fortran, %d from C", k, mb, ma)); return; }
    Cfg cc; cc.fmt = qa[0]; cc.prec = qa[1]; cc.N = qa[2]; cc.M = qa[3]; Ref ra, rb;
    if (!obs(cx, a, cc, ra, sig) || !obs(cx, b, cc, rb, sig)) return;
    for (size_t e = 0; e < ra.a.size(); e++) if (!(ra.a[e] == rb.a[e] || (ra.a[e] != ra.a[e] && rb.a[e] != rb.a[e]))) { cx.fail(sig + "|value", strf("matrix %zu element (%d,%d): Fortran %.17g%+.17gi, C %.17g%+.17gi; Fortran ", k, (int)e / ra.n, (int)e % ra.n, rb.a[e].real(), rb.a[e].imag(), ra.a[e].real(), ra.a[e].imag()) + r_str(rb) + " C " + r_str(ra)); return; }
  }
  for (auto &x : s) for (auto &m : x.m) if (m) freem(m);
  cx.end();
}
// a procedure with a result stated by the documentation instead of a C operation
static void fixed(Ctx &cx, const Cfg &c, const char *op, const string &d, const vector<In> &in, Op F, std::function<void(Side &)> want, int empty = 0) {
  both(cx, c, op, d, in, want, F, empty);
}
static Ref sym(const Ref &A, const Cfg &c) { Ref S(A.n); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) S(i, j) = (A(i, j) + std::conj(A(j, i))); for (int i = 0; i < A.n; i++) S(i, i) += (double)(3 * i); return S; }
static Ref dom(const Ref &A) { Ref S = A; for (int i = 0; i < A.n; i++) S(i, i) = S(i, i) + 4000.0 * (i + 1); return S; }

static void group_ctor(Ctx &cx, const Cfg &c) {
  static const char *kn[] = {"zero", "identity", "banded", "random", "noinit"};
  auto cr = [&](int k, int f, int p, int n, int m, int dm) -> void * { switch (k) { case 0: return bml_zero_matrix(f, p, n, m, dm); case 1: return bml_identity_matrix(f, p, n, m, dm); case 2: return bml_banded_matrix(f, p, n, m, dm); case 3: return bml_random_matrix(f, p, n, m, dm); default: return bml_noinit_matrix(f, p, n, m, dm); } };
  for (int k = 0; k < 5; k++) for (int dm = -1; dm < 2; dm++) for (int prev = 0; prev < 2; prev++) for (int m = 1; m <= c.N; m += std::max(1, c.N - 2)) {
    if (dm == 1 && c.fmt == F_ELLBLOCK) continue;
    if (c.fmt == F_ELLBLOCK && m < c.N) continue; // the default blocking is fixed once
    if (k == 4) { // contents unspecified: make them defined
      both(cx, c, "noinit", strf("mode=%d m=%d", dm, m), {}, [&](Side &s) { s.m[0] = cr(k, c.fmt, c.prec, c.N, m, dm < 0 ? 0 : dm); bml_clear(s.m[0]); }, [&](Side &s) { f_create(k, c.fmt, c.prec, c.N, m, dm, &s.m[0]); bml_clear(s.m[0]); }, 1);
      continue;
    }
    both(cx, c, kn[k], strf("mode=%d m=%d previous=%d", dm, m, prev), {}, [&](Side &s) { s.m[0] = cr(k, c.fmt, c.prec, c.N, m, dm < 0 ? 0 : dm); },
         [&](Side &s) { if (prev) s.m[0] = bml_identity_matrix(F_DENSE, P_SC, 3, 3, 0); f_create(k, c.fmt, c.prec, c.N, m, dm, &s.m[0]); }, 1);
  }
  if (c.fmt == F_ELLBLOCK) {
    vector<int> bs = c.bs.empty() ? vector<int>{c.N} : c.bs; int nb = bs.size();
    for (int mb = 1; mb <= nb; mb++) for (int dm = -1; dm < 1; dm++) both(cx, c, "block", strf("mb=%d mode=%d", mb, dm), {}, [&](Side &s) { s.m[0] = bml_block_matrix(c.fmt, c.prec, nb, mb, c.N, bs.data(), 0); }, [&](Side &s) { if (dm < 0) s.m[0] = bml_identity_matrix(F_DENSE, P_SC, 3, 3, 0); f_block(c.fmt, c.prec, nb, mb, c.N, bs.data(), dm, &s.m[0]); }, 1);
  }
  // names the library does not know
  both(cx, c, "unknown format", "", {}, [&](Side &s) { exit(1); }, [&](Side &s) { f_create(0, 9, c.prec, c.N, c.N, -1, &s.m[0]); }, 1);
  both(cx, c, "unknown element type", "", {}, [&](Side &s) { exit(1); }, [&](Side &s) { f_create(0, c.fmt, 5, c.N, c.N, -1, &s.m[0]); }, 1);
  both(cx, c, "unknown element kind", "", {}, [&](Side &s) { exit(1); }, [&](Side &s) { f_create(0, c.fmt, 6, c.N, c.N, -1, &s.m[0]); }, 1);
  both(cx, c, "unknown mode", "", {}, [&](Side &s) { exit(1); }, [&](Side &s) { f_create(0, c.fmt, c.prec, c.N, c.N, 7, &s.m[0]); }, 1);
}
static void unary(Ctx &cx, const Cfg &c, const Ref &A, int rec, const string &d, bool rich) {
  int N = c.N; vector<In> a = {{c, A, rec}}; Ref Z(N); bool th = cx.thorough;
  auto tst = [&](const char *op, const string &d2, Op C, Op F, int e = 0) { both(cx, c, op, d + " " + d2, a, C, F, e); };
  static const double T[] = {0.0, 6.5};
  for (double t : T) tst("threshold", strf("t=%g", t), [=](Side &s) { bml_threshold(s.m[0], t); }, [=](Side &s) { f_threshold(s.m[0], t); });
  for (double t : T) tst("add_identity", strf("t=%g", t), [=](Side &s) { bml_add_identity(s.m[0], -2.5, t); }, [=](Side &s) { f_add_identity(s.m[0], -2.5, t); });
  for (double t : T) tst("scale_add_identity", strf("t=%g", t), [=](Side &s) { bml_scale_add_identity(s.m[0], 0.5, -3, t); }, [=](Side &s) { f_scale_add_identity(s.m[0], 0.5, -3, t); });
  for (char t : {'u', 'l'}) for (int w = 0; w < 2; w++) tst(w ? "transpose_triangle" : "adjungate_triangle", string(1, t), [=](Side &s) { char x[2] = {t, 0}; if (w) bml_transpose_triangle(s.m[0], t); else bml_adjungate_triangle(s.m[0], x); }, [=](Side &s) { f_triangle(w, s.m[0], t); });
  tst("clear", "", [](Side &s) { bml_clear(s.m[0]); }, [](Side &s) { f_clear(s.m[0]); });
  tst("allocated", "", [](Side &s) { s.num = {1}; }, [](Side &s) { s.num = {(double)f_allocated(s.m[0])}; });
  tst("deallocate", "", [](Side &s) { bml_deallocate(&s.m[0]); s.m[0] = 0; s.num = {0}; }, [](Side &s) { f_deallocate(&s.m[0]); s.num = {(double)f_allocated(s.m[0])}; f_deallocate(&s.m[0]); });
  for (int p = 0; p < 2; p++) {
    tst("copy_new", strf("previous=%d", p), [](Side &s) { s.m[1] = bml_copy_new(s.m[0]); }, [=](Side &s) { if (p) s.m[1] = bml_identity_matrix(F_DENSE, P_SC, 3, 3, 0); f_new(0, s.m[0], &s.m[1]); }, 1);
    tst("transpose", strf("previous=%d", p), [](Side &s) { s.m[1] = bml_transpose_new(s.m[0]); }, [=](Side &s) { if (p) s.m[1] = bml_identity_matrix(F_DENSE, P_SC, 3, 3, 0); f_new(1, s.m[0], &s.m[1]); }, 1);
  }
  both(cx, c, "copy", d, {{c, A, rec}, {c, c.fmt == F_ELLBLOCK ? Z : r_id(N), 0}}, [](Side &s) { bml_copy(s.m[0], s.m[1]); }, [](Side &s) { f_copy(s.m[0], s.m[1]); });
  if (c.fmt != F_ELLBLOCK) { vector<int> p(N); for (int i = 0; i < N; i++) p[i] = (i * (N % 2 ? 2 : 1) + N / 2) % N; tst("reorder", "", [=](Side &s) { vector<int> q = p; bml_reorder(s.m[0], q.data()); }, [=](Side &s) { vector<int> q = p; f_reorder(s.m[0], q.data()); }); }
  // numbers
  struct { const char *n; int w; std::function<double(void *)> f; } nums[] = {
    {"sum_squares", 0, [](void *m) { return bml_sum_squares(m); }}, {"fnorm", 4, [](void *m) { return bml_fnorm(m); }}, {"trace", 6, [](void *m) { return bml_trace(m); }},
    {"get_N", 9, [](void *m) { return bml_get_N(m); }}, {"get_M", 10, [](void *m) { return bml_get_M(m); }}, {"get_bandwidth", 12, [](void *m) { return bml_get_bandwidth(m); }}, {"get_precision", 13, [](void *m) { return bml_get_precision(m); }},
    {"get_element_precision", 14, [&](void *) { return c.sgl() ? 4 : 8; }}, {"nranks", 15, [](void *) { return 1; }}, {"myrank", 16, [](void *) { return 0; }}};
  for (auto &q : nums) tst(q.n, "", [&](Side &s) { s.num = {q.f(s.m[0])}; }, [&](Side &s) { s.num = {f_number(q.w, s.m[0], s.m[0], 1, 1, 0, 1)}; });
  for (double t : T) tst("sparsity", strf("t=%g", t), [=](Side &s) { s.num = {bml_get_sparsity(s.m[0], t)}; }, [=](Side &s) { s.num = {f_number(8, s.m[0], s.m[0], 1, 1, t, 1)}; });
  for (int k = 1; k <= N; k++) tst("row_bandwidth", strf("row=%d", k), [=](Side &s) { s.num = {(double)bml_get_row_bandwidth(s.m[0], k - 1)}; }, [=](Side &s) { s.num = {f_number(11, s.m[0], s.m[0], 1, 1, 0, k)}; });
  for (int k = 1; k <= N; k++) tst("sum_squares_submatrix", strf("core=%d", k), [=](Side &s) { s.num = {bml_sum_squares_submatrix(s.m[0], k)}; }, [=](Side &s) { s.num = {f_number(1, s.m[0], s.m[0], 1, 1, 0, k)}; });
  static const char *tx[] = {"get_type", "get_deep_type", "get_element_type", "get_distribution_mode"};
  for (int w = 0; w < 4; w++) tst(tx[w], "", [=](Side &s) { s.txt = w < 2 ? FMTN[c.fmt] : w == 2 ? (c.cplx() ? "complex" : "real") : "sequential"; }, [=](Side &s) { char b[40]; f_text(w, s.m[0], b, sizeof b); s.txt = b; });
  for (int pre = 0; pre < 2; pre++) {
    tst("gershgorin", strf("preallocated=%d", pre), [](Side &s) { double *g = (double *)bml_gershgorin(s.m[0]); s.num = {2, g[0], g[1]}; bml_free_memory(g); }, [=](Side &s) { double g[2] = {}; int n = 0; f_gershgorin(2 * pre, s.m[0], 1, g, &n); s.num = {(double)n, g[0], g[1]}; });
    for (int k = 1; k <= N; k++) tst("gershgorin_partial", strf("rows=%d preallocated=%d", k, pre), [=](Side &s) { double *g = (double *)bml_gershgorin_partial(s.m[0], k); s.num = {2, g[0], g[1]}; bml_free_memory(g); }, [=](Side &s) { double g[2] = {}; int n = 0; f_gershgorin(2 * pre + 1, s.m[0], k, g, &n); s.num = {(double)n, g[0], g[1]}; });
  }
  tst("normalize", "", [](Side &s) { bml_normalize(s.m[0], -4, 12); }, [](Side &s) { f_normalize(s.m[0], -4, 12); });
  // elements, rows, diagonals
  for (int i = 1; i <= N; i++) for (int j = 1; j <= N; j++) {
    if (N > 3 && (i * 5 + j * 3) % 4) continue;
    fixed(cx, c, "get_element", d + strf(" i=%d j=%d", i, j), a, [=](Side &s) { Buf v(c.prec, 1); v.set(0, cd(-7)); SEL(get_element)(s.m[0], i, j, v.p()); put(s, c, v.p(), 1); },
          [=](Side &s) { Buf v(c.prec, 1); switch (c.prec) { case P_SR: v.set(0, bml_get_element_single_real(s.m[0], i - 1, j - 1)); break; case P_DR: v.set(0, bml_get_element_double_real(s.m[0], i - 1, j - 1)); break; case P_SC: { float _Complex z = bml_get_element_single_complex(s.m[0], i - 1, j - 1); memcpy(v.p(), &z, sizeof z); } break; default: { double _Complex z = bml_get_element_double_complex(s.m[0], i - 1, j - 1); memcpy(v.p(), &z, sizeof z); } } put(s, c, v.p(), 1); });
    for (int w = 0; w < 2; w++) { if (w && A(i - 1, j - 1) != cd(0)) continue; cd x(31, c.cplx() ? -5 : 0); tst(w ? "set_element_new" : "set_element", strf("i=%d j=%d", i, j), [=](Side &s) { Buf v(c.prec, 1); v.set(0, x); if (w) bml_set_element_new(s.m[0], i - 1, j - 1, v.p()); else bml_set_element(s.m[0], i - 1, j - 1, v.p()); }, [=](Side &s) { Buf v(c.prec, 1); v.set(0, x); SEL(set_element)(w, s.m[0], i, j, v.p()); }); }
  }
  for (int i = 0; i <= N; i++) {
    for (int pre = 0; pre < 2; pre++) tst(i ? "get_row" : "get_diagonal", strf("i=%d preallocated=%d", i, pre), [=](Side &s) { void *r = i ? bml_get_row(s.m[0], i - 1) : bml_get_diagonal(s.m[0]); s.num = {(double)N}; put(s, c, r, N); bml_free_memory(r); }, [=](Side &s) { Buf v(c.prec, N); int n = 0; SEL(get_row)(pre, s.m[0], i, N, v.p(), &n); s.num = {(double)n}; put(s, c, v.p(), N); });
    for (int has = 0; has < 2; has++) for (int form = 0; form < 2; form++) for (int t = 0; t < 2; t++) { if (!has && t) continue;
      auto row = [=] { Buf v(c.prec, N); for (int j = 0; j < N; j++) v.set(j, (i + j) % 3 == 1 ? cd(0) : val(i, j, 6, c.cplx()) * ldexp(1, c.sc)); return v; };
      tst(i ? "set_row" : "set_diagonal", strf("i=%d optional=%d form=%d t=%g", i, has, form, T[t]), [=](Side &s) { Buf v = row(); if (i) bml_set_row(s.m[0], i - 1, v.p(), T[t]); else bml_set_diagonal(s.m[0], v.p(), T[t]); }, [=](Side &s) { Buf v = row(); SEL(set_row)(has, form, s.m[0], i, N, v.p(), T[t]); }); }
  }
  for (int two = 0; two < 2; two++) { cd x(-1.5, c.cplx() ? 2 : 0); both(cx, c, two ? "scale_two" : "scale_one", d, {{c, A, rec}, {c, c.fmt == F_ELLBLOCK ? Z : r_id(N), 0}}, [=](Side &s) { Buf v(c.prec, 1); v.set(0, x); if (two) bml_scale(v.p(), s.m[0], s.m[1]); else bml_scale_inplace(v.p(), s.m[0]); }, [=](Side &s) { Buf v(c.prec, 1); v.set(0, x); SEL(scale)(two, v.p(), s.m[0], s.m[1]); }); }
  for (int pre = 0; pre < 2; pre++) tst("export", strf("preallocated=%d", pre), [=](Side &s) { void *e = bml_export_to_dense(s.m[0], COLMAJ); s.num = {(double)N, (double)N}; put(s, c, e, (size_t)N * N); bml_free_memory(e); }, [=](Side &s) { Buf v(c.prec, (size_t)N * N); int n1 = 0, n2 = 0; SEL(export)(pre, s.m[0], N, v.p(), &n1, &n2); s.num = {(double)n1, (double)n2}; put(s, c, v.p(), (size_t)N * N); });
  // import: array forms, optional arguments
  Buf dense(c.prec, (size_t)N * N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) dense.set((size_t)j * N + i, A(i, j));
  for (int has = 0; has < 6; has++) for (int form = 0; form < 5; form++) for (int prev = 0; prev < 2; prev++) {
    bool givesm = has == 2 || has == 3 || has == 5; double t = has == 1 || has == 3 || has == 5 ? 6.5 : 0; int m = givesm ? c.M : N, dm = has >= 4 && c.fmt != F_ELLBLOCK ? 1 : 0;
    if (prev && (form || has % 2)) continue;
    both(cx, c, "import", d + strf(" optional=%d form=%d previous=%d", has, form, prev), {}, [=](Side &s) { if (c.fmt != F_DENSE && !givesm) exit(1); Buf b = dense; s.m[0] = bml_import_from_dense(c.fmt, c.prec, COLMAJ, N, m, b.p(), t, dm); },
         [=](Side &s) { if (prev) s.m[0] = bml_identity_matrix(F_DENSE, P_SC, 3, 3, 0); Buf b = dense; SEL(import)(has, form, c.fmt, N, b.p(), m, t, dm, &s.m[0]); }, 1);
  }
  // graphs
  if (c.fmt != F_DENSE || true) {
    for (int base = 0; base < 2; base++) tst("adjacency", strf("base=%d", base), [=](Side &s) { vector<int> x(N + 2, -77), y(N * N + 2, -77); bml_adjacency(s.m[0], x.data(), y.data(), base); for (int v : x) s.num.push_back(v); for (int v : y) s.num.push_back(v); }, [=](Side &s) { vector<int> x(N + 2, -77), y(N * N + 2, -77); f_adjacency(s.m[0], x.data(), y.data(), base); for (int v : x) s.num.push_back(v); for (int v : y) s.num.push_back(v); });
    vector<int> h; for (int i = 1; i <= N; i += 2) h.push_back(i); int ng = h.size();
    for (int base = 0; base < 2; base++) tst("adjacency_group", strf("base=%d", base), [=](Side &s) { vector<int> g = h, x(N + 2, -77), y(N * N + 2, -77); bml_adjacency_group(s.m[0], g.data(), ng, x.data(), y.data(), base); for (int v : x) s.num.push_back(v); for (int v : y) s.num.push_back(v); }, [=](Side &s) { vector<int> g = h, x(N + 2, -77), y(N * N + 2, -77); f_adjacency_group(s.m[0], g.data(), ng, x.data(), y.data(), base); for (int v : x) s.num.push_back(v); for (int v : y) s.num.push_back(v); });
    for (double t : T) for (int prev = 0; prev < 2; prev++) tst("group_matrix", strf("t=%g previous=%d", t, prev), [=](Side &s) { vector<int> g = h; g.push_back(N + 1); s.m[1] = bml_group_matrix(s.m[0], g.data(), ng, t); }, [=](Side &s) { if (prev) s.m[1] = bml_identity_matrix(F_DENSE, P_SC, 3, 3, 0); vector<int> g = h; g.push_back(N + 1); f_group_matrix(s.m[0], &s.m[1], g.data(), ng, t); }, 1);
    for (int dj = 0; dj < 2; dj++) for (int has = 0; has < 2; has++) for (int k = 0; k < N; k += std::max(1, N - 1)) {
      vector<int> nodes = {k}; if (N > 2) nodes.push_back((k + 2) % N);
      auto go = [=](Side &s, bool f) {
        vector<int> nd = nodes, idx(N + 2, -77); int vs[2] = {-5, -5}; int n = nd.size();
        if (f) f_sub_index(has, s.m[0], s.m[1], nd.data(), n, idx.data(), vs, dj); else if (has) bml_matrix2submatrix_index(s.m[0], s.m[1], nd.data(), n, idx.data(), vs, dj); else bml_matrix2submatrix_index_graph(s.m[1], nd.data(), n, idx.data(), vs, dj);
        s.num = {(double)vs[0], (double)vs[1]}; for (int v : idx) s.num.push_back(v);
        int L = vs[0]; s.m.push_back(0); s.m.push_back(0); s.m[2] = bml_zero_matrix(F_DENSE, c.prec, L, L, 0); s.m[3] = bml_zero_matrix(c.fmt, c.prec, N, N, 0);
        if (f) f_sub(s.m[0], s.m[2], idx.data(), L); else bml_matrix2submatrix(s.m[0], s.m[2], idx.data(), L);
        if (f) f_unsub(dj, s.m[2], s.m[3], idx.data(), L, vs[1], 6.5); else bml_submatrix2matrix(s.m[2], s.m[3], idx.data(), L, vs[1], dj ? 6.5 : 0.0);
      };
      both(cx, c, "submatrix", d + strf(" dj=%d graph=%d core=%d", dj, has, k), {{c, A, rec}, {c, r_tr(A), 0}}, [=](Side &s) { go(s, false); }, [=](Side &s) { go(s, true); });
    }
  }
  // text
  const char *tmp = getenv("BMLCHECK_TMP"); string fn = strf("%s/fort-%d.mtx", tmp ? tmp : "/tmp", (int)getpid());
  auto slurp = [](const string &f) { string s; FILE *p = fopen(f.c_str(), "r"); if (!p) return s; char b[512]; size_t n; while ((n = fread(b, 1, sizeof b, p))) s.append(b, n); fclose(p); return s; };
  if (c.fmt != F_ELLBLOCK || true) both(cx, c, "write read", d, {{c, A, rec}, {c, c.fmt == F_ELLBLOCK ? Z : r_id(N), 0}}, [=](Side &s) { vector<char> f(fn.begin(), fn.end()); f.push_back(0); bml_write_bml_matrix(s.m[0], f.data()); s.txt = slurp(fn); bml_read_bml_matrix(s.m[1], f.data()); unlink(fn.c_str()); }, [=](Side &s) { f_io(0, s.m[0], fn.c_str(), fn.size()); s.txt = slurp(fn); f_io(1, s.m[1], fn.c_str(), fn.size()); unlink(fn.c_str()); });
  for (int lo = 0; lo < N; lo += 2) tst("print", strf("from %d", lo), [=](Side &s) { g_capture = &s.txt; bml_print_bml_matrix(s.m[0], lo, N, 0, N - lo); g_capture = 0; }, [=](Side &s) { g_capture = &s.txt; f_print(s.m[0], lo, N, 0, N - lo); g_capture = 0; });
  if (c.fmt == F_DENSE) for (int form = 0; form < 2; form++) for (int lo = 1; lo <= N; lo++) fixed(cx, c, "print dense", d + strf(" form=%d rows %d..%d columns 1..%d", form, lo, N, N - lo + 1), a, [=](Side &s) { g_capture = &s.txt; Buf b = dense; SEL(print_dense)(N, b.p(), lo, N, 1, N - lo + 1, form); g_capture = 0; }, [=](Side &s) { g_capture = &s.txt; Buf b = dense; bml_print_dense_matrix(N, c.prec, COLMAJ, b.p(), lo - 1, N, 0, N - lo + 1); g_capture = 0; });
  // domains
  if (c.fmt == F_DENSE || c.fmt == F_ELLPACK) for (int w = 0; w < 4; w++) { static const char *dn[] = {"update_domain", "save_domain", "restore_domain", "gather"}; if (c.fmt == F_DENSE && w < 3) continue;
    tst(dn[w], "", [=](Side &s) { int lo = 1, hi = 2, nn[2] = {N - 1, 1}; if (w == 0 || w == 2) bml_update_domain(s.m[0], &lo, &hi, nn); if (w == 1) bml_save_domain(s.m[0]); if (w == 2) bml_restore_domain(s.m[0]); if (w == 3) bml_allGatherVParallel(s.m[0]); }, [=](Side &s) { int lo = 1, hi = 2, nn[2] = {N - 1, 1}; if (w == 0 || w == 2) f_domain(0, s.m[0], &lo, &hi, nn); if (w == 1) f_domain(1, s.m[0], &lo, &hi, nn); if (w == 2) f_domain(2, s.m[0], &lo, &hi, nn); if (w == 3) f_domain(3, s.m[0], &lo, &hi, nn); }); }
  if (!rich) return;
  // spectra
  Ref H = sym(A, c), I = dom(A);
  if (fits(c, pat_of(H))) both(cx, c, "diagonalize", d, {{c, H, 0}, {c, Z, 0}}, [=](Side &s) { Buf e(c.prec, N); for (int i = 0; i < N; i++) e.set(i, -7); bml_diagonalize(s.m[0], e.p(), s.m[1]); for (int i = 0; i < N; i++) s.num.push_back(e.get(i).real()); }, [=](Side &s) { vector<double> e(N, -7); f_diagonalize(s.m[0], e.data(), s.m[1]); s.num = e; });
  if (fits(c, pat_of(I))) for (int p = 0; p < 2; p++) both(cx, c, "inverse", d + strf(" previous=%d", p), {{c, I, 0}}, [=](Side &s) { s.m[1] = bml_inverse(s.m[0]); }, [=](Side &s) { if (p) s.m[1] = bml_identity_matrix(F_DENSE, P_SC, 3, 3, 0); f_new(2, s.m[0], &s.m[1]); }, 1);
}
static void binary(Ctx &cx, const Cfg &c, const Ref &A, int ra, const Ref &B, int rb, const string &d) {
  int N = c.N; vector<In> ab = {{c, A, ra}, {c, B, rb}}, abc = ab; Ref Z(N); abc.push_back({c, r_id(N), 0});
  auto tst = [&](const char *op, const string &d2, const vector<In> &in, Op C, Op F) { both(cx, c, op, d + " " + d2, in, C, F); };
  for (int has = 0; has < 4; has++) tst(has < 2 ? "add" : "add_deprecated", strf("optional=%d", has & 1), ab, [=](Side &s) { bml_add(s.m[0], s.m[1], 2, -0.5, has & 1 ? 6.5 : 0); }, [=](Side &s) { f_add(has, s.m[0], s.m[1], 2, -0.5, 6.5); });
  for (int has = 0; has < 2; has++) tst("add_norm", strf("optional=%d", has), ab, [=](Side &s) { s.num = {bml_add_norm(s.m[0], s.m[1], 2, -0.5, has ? 6.5 : 0)}; }, [=](Side &s) { s.num = {f_add_norm(has, s.m[0], s.m[1], 2, -0.5, 6.5)}; });
  for (int has = 0; has < 8; has++) { double al = has == 1 || has == 3 || has == 5 || has == 7 ? -2 : 1, be = has == 2 || has == 3 || has >= 6 ? 0.5 : 0, t = has >= 4 ? 6.5 : 0; tst("multiply", strf("optional=%d", has), abc, [=](Side &s) { bml_multiply(s.m[0], s.m[1], s.m[2], al, be, t); }, [=](Side &s) { f_multiply(has, s.m[0], s.m[1], s.m[2], -2, 0.5, 6.5); }); }
  for (int has = 0; has < 2; has++) tst("element_multiply", strf("optional=%d", has), abc, [=](Side &s) { bml_element_multiply_AB(s.m[0], s.m[1], s.m[2], has ? 6.5 : 0); }, [=](Side &s) { f_element_multiply(has, s.m[0], s.m[1], s.m[2], 6.5); });
  for (int has = 0; has < 4; has++) tst("multiply_x2", strf("optional=%d", has), ab, [=](Side &s) { double *t = (double *)bml_multiply_x2(s.m[0], s.m[1], has & 1 ? 6.5 : 0); s.num = {2, t[0], t[1]}; bml_free_memory(t); }, [=](Side &s) { double t[2] = {}; int n = 0; f_x2(has, s.m[0], s.m[1], 6.5, t, &n); s.num = {(double)n, t[0], t[1]}; });
  struct { const char *n; int w; std::function<double(void *, void *)> f; } nums[] = {{"sum_AB", 2, [](void *a, void *b) { return bml_sum_AB(a, b, -1.5, 6.5); }}, {"sum_squares2", 3, [](void *a, void *b) { return bml_sum_squares2(a, b, -1.5, 0.5, 6.5); }}, {"fnorm2", 5, [](void *a, void *b) { return bml_fnorm2(a, b); }}, {"trace_mult", 7, [](void *a, void *b) { return bml_trace_mult(a, b); }}};
  for (auto &q : nums) tst(q.n, "", ab, [&](Side &s) { s.num = {q.f(s.m[0], s.m[1])}; }, [&](Side &s) { s.num = {f_number(q.w, s.m[0], s.m[1], -1.5, 0.5, 6.5, 1)}; });
}
static void c27(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  vector<Cfg> cs = cfgs(1, th ? 5 : 4), sm = cfgs(1, 2);
  add_groups(gs, tier, "constructors", cfgs(1, 5), [](Ctx &cx, const Cfg &c) { group_ctor(cx, c); });
  add_groups(gs, tier, "one matrix", cs, [=](Ctx &cx, const Cfg &c) {
    if (c.N <= 2) for (unsigned long m : masks(c.N, true)) { Ref A = pattern(c.N, m, c, 0); for (int rec : th ? vector<int>{0, 1, 5} : vector<int>{(int)(m % 2)}) if (recipe_ok(c, rec, A)) unary(cx, c, A, rec, strf("mask=%lx rec=%s", m, RECN[rec]), true); }
    else for (int k = 0; k < NFAM; k++) { if (!th && c.fmt != F_DENSE && (k + c.prec + c.bs.size()) % 2 == 0) continue; Ref A = family(c.N, k, c, 0); int rec = k % 3 == 1 ? 1 : 0; unary(cx, c, A, rec, strf("family=%s rec=%s", FAMN[k], RECN[rec]), true); }
  });
  add_groups(gs, tier, "two matrices", cs, [=](Ctx &cx, const Cfg &c) {
    if (c.N <= 2) for (unsigned long a : masks(c.N, true)) for (unsigned long b : masks(c.N, true)) { if (!th && (a * 3 + b + c.prec) % 2) continue; binary(cx, c, pattern(c.N, a, c, 0), 0, pattern(c.N, b, c, 4), 1, strf("A=%lx B=%lx", a, b)); }
    else for (int a = 0; a < NFAM; a++) for (int b = 0; b < NFAM; b++) { if (!th && (a * 5 + b + c.prec) % 4) continue; binary(cx, c, family(c.N, a, c, 0), 0, family(c.N, b, c, 4), 1, strf("A=%s B=%s", FAMN[a], FAMN[b])); }
  });
  vector<Cfg> tiny; for (auto c : cfgs(2, th ? 4 : 3)) { if (!th && c.N == 3 && c.bs.size() == 3) continue; c.sc = -40; tiny.push_back(c); } // tiny elements are elements: omitted thresholds are zero
  add_groups(gs, tier, "tiny elements", tiny, [=](Ctx &cx, const Cfg &c) {
    for (int k = 0; k < NFAM; k++) { if (!th && k != 1 && k != 3 && k != 7) continue; Ref A = family(c.N, k, c, 0); unary(cx, c, A, 0, strf("family=%s", FAMN[k]), true); for (int b = 0; b < NFAM; b++) if (th || b == 1 || b == 5) binary(cx, c, A, 0, family(c.N, b, c, 4), 1, strf("A=%s B=%s", FAMN[k], FAMN[b])); }
  });
}
static PropReg reg27("C27", c27);
