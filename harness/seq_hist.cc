// Breadth-first exploration of operation histories on real matrices, deduplicated on the concrete storage layout.
// C01 (write/read histories of one matrix), C19 (all operations on a pair of matrices), C18 (the same with tight capacities).
#include "seq_gen.h"
#include <algorithm>
#include <cstdint>

struct W { Cfg c; void *m[2] = {0, 0}; Ref r[2]; vector<char> tch; };
struct Op {
  string name;
  std::function<void(W &)> run;                                   // on the real library
  std::function<void(const W &, Ref *, double &)> model;          // exact result of both matrices; threshold below which entries may be dropped
  std::function<bool(const W &)> pre;                             // applicable
  std::function<void(W &)> touch;                                 // bookkeeping for set_element_new
  int need = 0;                                                   // capacity the operation may need: 1 transpose, 2 A*B, 4 A*A, 8 diagonal
  vector<std::pair<int, int>> cells;                              // cells it stores, zero or not
  bool refuse = false;                                            // documented as unsupported for this format: may refuse
  bool strict = false;                                            // entries below thr must be dropped
};
typedef vector<Op> Ops;

static void put(void *A, const Cfg &c, int i, int j, cd v) { Buf b(c.prec, 1); b.set(0, v); bml_set_element(A, i, j, b.p()); }
static Op op_set(int i, int j, cd v) {
  Op o; o.name = strf("set_element(%d,%d,%g%+gi)", i, j, v.real(), v.imag());
  o.cells = {{i, j}};
  o.run = [=](W &w) { put(w.m[0], w.c, i, j, v); };
  o.model = [=](const W &, Ref *r, double &) { r[0](i, j) = v; };
  o.touch = [=](W &w) { w.tch[i * w.c.N + j] = 1; };
  return o;
}
static Op op_setnew(int i, int j, cd v) {
  Op o = op_set(i, j, v); o.name = strf("set_element_new(%d,%d,%g%+gi)", i, j, v.real(), v.imag());
  o.run = [=](W &w) { Buf b(w.c.prec, 1); b.set(0, v); bml_set_element_new(w.m[0], i, j, b.p()); };
  o.pre = [=](const W &w) { return !w.tch[i * w.c.N + j]; };
  return o;
}
static Op op_row(int i, vector<cd> row, double thr) {
  string s; for (auto &x : row) s += strf("%s%g%+gi", s.empty() ? "" : " ", x.real(), x.imag());
  Op o; o.name = strf("set_row(%d,[%s],thr=%g)", i, s.c_str(), thr);
  o.run = [=](W &w) { Buf b(w.c.prec, row.size()); for (size_t k = 0; k < row.size(); k++) b.set(k, row[k]); bml_set_row(w.m[0], i, b.p(), thr); };
  o.model = [=](const W &w, Ref *r, double &t) { for (int j = 0; j < w.c.N; j++) r[0](i, j) = row[j]; t = thr; };
  o.touch = [=](W &w) { for (int j = 0; j < w.c.N; j++) w.tch[i * w.c.N + j] = 1; };
  return o;
}
static Op op_diag(vector<cd> d, double thr) {
  string s; for (auto &x : d) s += strf("%s%g%+gi", s.empty() ? "" : " ", x.real(), x.imag());
  Op o; o.name = strf("set_diagonal([%s],thr=%g)", s.c_str(), thr); o.need = 8;
  o.run = [=](W &w) { Buf b(w.c.prec, d.size()); for (size_t k = 0; k < d.size(); k++) b.set(k, d[k]); bml_set_diagonal(w.m[0], b.p(), thr); };
  o.model = [=](const W &w, Ref *r, double &t) { for (int j = 0; j < w.c.N; j++) r[0](j, j) = d[j]; t = thr; };
  o.touch = [=](W &w) { for (int j = 0; j < w.c.N; j++) w.tch[j * w.c.N + j] = 1; };
  return o;
}
static Op simple(const char *n, std::function<void(W &)> run, std::function<void(const W &, Ref *, double &)> model, int need = 0) {
  Op o; o.name = n; o.run = run; o.model = model; o.need = need;
  o.touch = [](W &w) { std::fill(w.tch.begin(), w.tch.end(), 1); };
  return o;
}
static Op op_clear() { Op o = simple("clear", [](W &w) { bml_clear(w.m[0]); }, [](const W &w, Ref *r, double &) { r[0] = Ref(w.c.N); }); o.touch = [](W &w) { std::fill(w.tch.begin(), w.tch.end(), 0); }; return o; }
static Op op_thr(double t) { Op o = simple("", [=](W &w) { bml_threshold(w.m[0], t); }, [=](const W &, Ref *r, double &) { for (auto &x : r[0].a) if (!(std::abs(x) > t)) x = 0; }); o.name = strf("threshold(%g)", t); o.touch = nullptr; return o; }
static Op op_tr() {
  Op o = simple("transpose", [](W &w) { bml_transpose(w.m[0]); }, [](const W &, Ref *r, double &) { r[0] = r_tr(r[0]); }, 1);
  o.touch = [](W &w) { int N = w.c.N; auto t = w.tch; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w.tch[j * N + i] = t[i * N + j]; };
  return o;
}
static Op op_scale(double f) { Op o = simple("", [=](W &w) { Buf b(w.c.prec, 1); b.set(0, f); bml_scale_inplace(b.p(), w.m[0]); }, [=](const W &, Ref *r, double &) { r[0] = r_scale(r[0], f); }); o.name = strf("scale_inplace(%g)", f); o.touch = nullptr; return o; }

static Ops c01_ops(const Cfg &c, bool th) {
  int N = c.N; Ops o; cd v1 = c.cplx() ? cd(3, -2) : cd(3), v2 = c.cplx() ? cd(0, 5) : cd(-5);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { o.push_back(op_set(i, j, v1)); if (N <= 2 || th || i != j) o.push_back(op_set(i, j, 0)); if (N <= 2 || (th && i != j)) o.push_back(op_set(i, j, v2)); }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (N <= 2 || (i + j) % 2 == 0) o.push_back(op_setnew(i, j, v2));
  for (int i = 0; i < N; i++) {
    vector<cd> a(N, 0), b(N, 0), z(N, 0); for (int j = 0; j < N; j++) { a[j] = cd(j + 2); b[j] = j % 2 ? v2 : cd(1); }
    o.push_back(op_row(i, a, 0)); if (N <= 2 || th || i == 1) { o.push_back(op_row(i, z, 0)); o.push_back(op_row(i, b, 1.0)); }
  }
  vector<cd> d(N), e(N); for (int j = 0; j < N; j++) { d[j] = j % 2 ? v1 : cd(-1); e[j] = j ? 0 : 7; }
  o.push_back(op_diag(d, 0)); o.push_back(op_diag(e, 0)); o.push_back(op_diag(d, 1.0));
  o.push_back(op_clear()); o.push_back(op_thr(2.5)); o.push_back(op_tr()); o.push_back(op_scale(-1));
  return o;
}
static void replace(W &w, int k, void *n) { void *old = w.m[k]; w.m[k] = n; bml_deallocate(&old); }
static Ops pair_ops(const Cfg &c, bool th) {
  int N = c.N, f = c.fmt; Ops o;
  o.push_back(op_set(0, N - 1, 2)); o.push_back(op_set(N - 1, 0, 0)); o.push_back(op_set(N - 1, N - 1, c.cplx() ? cd(-1, 1) : cd(-1))); o.push_back(op_set(N - 1, 0, 1));
  { vector<cd> a(N, 0); a[N - 1] = 1; if (N > 2) a[0] = -2; o.push_back(op_row(0, a, 0)); vector<cd> d(N, 1); d[0] = 0; o.push_back(op_diag(d, 0)); }
  o.push_back(op_clear()); o.push_back(op_thr(1.5)); o.push_back(op_tr()); o.push_back(op_scale(-1)); o.push_back(op_scale(0));
  o.push_back(simple("A=transpose_new(A)", [](W &w) { replace(w, 0, bml_transpose_new(w.m[0])); }, [](const W &, Ref *r, double &) { r[0] = r_tr(r[0]); }, 1));
  o.push_back(simple("A=scale_new(0.5,A)", [](W &w) { Buf b(w.c.prec, 1); b.set(0, 0.5); replace(w, 0, bml_scale_new(b.p(), w.m[0])); }, [](const W &, Ref *r, double &) { r[0] = r_scale(r[0], 0.5); }));
  o.push_back(simple("scale(2,A,B)", [](W &w) { Buf b(w.c.prec, 1); b.set(0, 2); bml_scale(b.p(), w.m[0], w.m[1]); }, [](const W &, Ref *r, double &) { r[1] = r_scale(r[0], 2); }));
  o.push_back(simple("add(A,B,1,1)", [](W &w) { bml_add(w.m[0], w.m[1], 1, 1, 0); }, [](const W &, Ref *r, double &) { r[0] = r_lin(r[0], r[1], 1, 1); }));
  o.push_back(simple("add(A,B,1,-1)", [](W &w) { bml_add(w.m[0], w.m[1], 1, -1, 0); }, [](const W &, Ref *r, double &) { r[0] = r_lin(r[0], r[1], 1, -1); }));
  o.push_back(simple("add(A,B,2,-1,thr=1.5)", [](W &w) { bml_add(w.m[0], w.m[1], 2, -1, 1.5); }, [](const W &, Ref *r, double &t) { r[0] = r_lin(r[0], r[1], 2, -1); t = 1.5; }));
  o.push_back(simple("add_identity(A,1)", [](W &w) { bml_add_identity(w.m[0], 1, 0); }, [](const W &w, Ref *r, double &) { r[0] = r_lin(r[0], r_id(w.c.N), 1, 1); }, 8));
  o.push_back(simple("scale_add_identity(A,2,-1)", [](W &w) { bml_scale_add_identity(w.m[0], 2, -1, 0); }, [](const W &w, Ref *r, double &) { r[0] = r_lin(r[0], r_id(w.c.N), 2, -1); }, 8));
  o.push_back(simple("copy(A,B)", [](W &w) { bml_copy(w.m[0], w.m[1]); }, [](const W &, Ref *r, double &) { r[1] = r[0]; }));
  o.push_back(simple("B=copy_new(A)", [](W &w) { replace(w, 1, bml_copy_new(w.m[0])); }, [](const W &, Ref *r, double &) { r[1] = r[0]; }));
  o.push_back(simple("swap", [](W &w) { std::swap(w.m[0], w.m[1]); }, [](const W &, Ref *r, double &) { std::swap(r[0], r[1]); }));
  o.push_back(simple("A=A*B", [](W &w) { void *C = mk_zero(w.c); bml_multiply(w.m[0], w.m[1], C, 1, 0, 0); replace(w, 0, C); }, [](const W &, Ref *r, double &) { r[0] = r_mul(r[0], r[1]); }, 2));
  o.push_back(simple("B=A*A+B", [](W &w) { bml_multiply(w.m[0], w.m[0], w.m[1], 1, 1, 0); }, [](const W &, Ref *r, double &) { r[1] = r_lin(r_mul(r[0], r[0]), r[1], 1, 1); }, 4));
  o.push_back(simple("x2(A,B)", [](W &w) { void *t = bml_multiply_x2(w.m[0], w.m[1], 0); bml_free_memory(t); }, [](const W &, Ref *r, double &) { r[1] = r_mul(r[0], r[0]); }, 4));
  if (f != F_ELLBLOCK) { o.push_back(simple("A=A.*B", [](W &w) { void *C = mk_zero(w.c); bml_element_multiply_AB(w.m[0], w.m[1], C, 0); replace(w, 0, C); }, [](const W &, Ref *r, double &) { r[0] = r_had(r[0], r[1]); })); }
  for (int g = F_DENSE; g <= F_CSR; g++) if (g != f && (c.M == c.N) && !c.MB) {
    Op q = simple("", [=](W &w) { void *X = bml_convert(w.m[0], g, w.c.prec, w.c.N, D_SEQ); void *Y = bml_convert(X, w.c.fmt, w.c.prec, w.c.M, D_SEQ); bml_deallocate(&X); replace(w, 0, Y); }, [](const W &, Ref *, double &) {});
    q.name = strf("A=via_%s(A)", FMTN[g]); o.push_back(q);
  }
  if (!c.MB) o.push_back(simple("A=import(export(A))", [](W &w) { void *d = bml_export_to_dense(w.m[0], COLMAJ); void *Y = bml_import_from_dense(w.c.fmt, w.c.prec, COLMAJ, w.c.N, w.c.M, d, 0, D_SEQ); bml_free_memory(d); replace(w, 0, Y); }, [](const W &, Ref *, double &) {}));
  o.push_back(simple("normalize(A,0,2)", [](W &w) { bml_normalize(w.m[0], 0, 2); }, [](const W &w, Ref *r, double &) { r[0] = r_lin(r_id(w.c.N), r[0], 1, -0.5); }, 8));
  o.push_back(simple("A=threshold_new(A,1)", [](W &w) { replace(w, 0, bml_threshold_new(w.m[0], 1)); }, [](const W &, Ref *r, double &) { for (auto &x : r[0].a) if (!(std::abs(x) > 1)) x = 0; }));
  if (f == F_DENSE || f == F_ELLPACK) o.push_back(simple("adjungate_upper(A)", [](W &w) { char t[] = "u"; bml_adjungate_triangle(w.m[0], t); }, [](const W &w, Ref *r, double &) { for (int i = 0; i < w.c.N; i++) for (int j = i + 1; j < w.c.N; j++) r[0](j, i) = std::conj(r[0](i, j)); }, 1));
  if (f != F_ELLBLOCK) {
    o.push_back(simple("move_block(A)", [](W &w) { void *S = bml_extract_submatrix(w.m[0], 0, 1, w.c.N - 1, w.c.N - 1); bml_assign_submatrix(w.m[0], S, 1, 0); bml_deallocate(&S); },
                       [](const W &w, Ref *r, double &) { Ref t = r[0]; for (int i = 0; i + 1 < w.c.N; i++) for (int j = 0; j + 1 < w.c.N; j++) r[0](i + 1, j) = t(i, j + 1); }, 16));
  }
  return o;
}
static string hist_str(const vector<uint8_t> &p, const Ops &ops, int n = 1 << 30) { string s; for (size_t k = 0; k < p.size() && (int)k < n; k++) s += (s.empty() ? "" : "; ") + ops[p[k]].name; return s; }

static bool scalars_ok(Ctx &cx, W &w, const string &sig) {
  const Cfg &c = w.c; double tol = 64 * c.eps(); const Ref &A = w.r[0], &B = w.r[1]; double v = 0; Outcome o;
  auto get = [&](const char *n, std::function<double()> f, double want, bool refuse = false) {
    o = call([&] { v = f(); });
    if (refuse && o == ERR) return true;
    if (!cx.ok(o, sig + "|" + n)) return false;
    return expect_num(cx, v, want, tol, sig + "|" + n);
  };
  double s2 = 0, s22 = 0; cd sab = 0, tm = 0; for (size_t k = 0; k < A.a.size(); k++) { s2 += std::norm(A.a[k]); s22 += std::norm(A.a[k] - B.a[k]); sab += A.a[k] * B.a[k]; }
  for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) tm += A(i, j) * B(j, i);
  if (!get("trace", [&] { return bml_trace(w.m[0]); }, r_trace(A).real())) return false;
  if (!get("sum_squares", [&] { return bml_sum_squares(w.m[0]); }, s2)) return false;
  if (!get("fnorm", [&] { return bml_fnorm(w.m[0]); }, sqrt(s2))) return false;
  if (!get("sum_squares2", [&] { return bml_sum_squares2(w.m[0], w.m[1], 1, -1, 0); }, s22)) return false;
  if (!get("trace_mult", [&] { return bml_trace_mult(w.m[0], w.m[1]); }, tm.real())) return false;
  if (!get("sum_AB", [&] { return bml_sum_AB(w.m[0], w.m[1], 1, 0); }, sab.real())) return false;
  double mx = -1e300, mn = 1e300; for (int i = 0; i < A.n; i++) { double r = 0; for (int j = 0; j < A.n; j++) if (i != j) r += std::abs(A(i, j)); mx = std::max(mx, A(i, i).real() + r); mn = std::min(mn, A(i, i).real() - r); }
  void *g = 0; o = call([&] { g = bml_gershgorin(w.m[0]); }); if (!cx.ok(o, sig + "|gershgorin")) return false;
  double g0 = ((double *)g)[0], g1 = ((double *)g)[1]; bml_free_memory(g);
  return expect_num(cx, g0, mn, tol, sig + "|gershgorin") && expect_num(cx, g1, mx, tol, sig + "|gershgorin");
}
static bool typed_ok(Ctx &cx, W &w, const string &sig) {
  const Cfg &c = w.c;
  for (int i = 0; i < c.N; i++) for (int j = 0; j < c.N; j++) {
    cd g = 0; Outcome o = call([&] { switch (c.prec) { case P_SR: g = bml_get_element_single_real(w.m[0], i, j); break; case P_DR: g = bml_get_element_double_real(w.m[0], i, j); break;
      case P_SC: { auto z = bml_get_element_single_complex(w.m[0], i, j); g = cd(__real__ z, __imag__ z); break; } default: { auto z = bml_get_element_double_complex(w.m[0], i, j); g = cd(__real__ z, __imag__ z); } } });
    if (o == ERR && (c.fmt == F_CSR || c.fmt == F_ELLBLOCK)) return true; // only provided for dense and ellpack
    if (!cx.ok(o, sig + "|typed_get")) return false;
    if (g != w.r[0](i, j)) { cx.fail(sig + "|value", strf("(typed getter) element (%d,%d): got %g%+gi want %g%+gi", i, j, g.real(), g.imag(), w.r[0](i, j).real(), w.r[0](i, j).imag())); return false; }
  }
  return true;
}
static vector<char> stored_of(void *A, int N) { vector<char> s((size_t)N * N, 1); layout_stored(A, s.data()); return s; }
static void pattern_union(vector<char> &u, const vector<char> &v) { for (size_t k = 0; k < u.size(); k++) u[k] |= v[k]; }
static vector<char> pmul(const vector<char> &a, const vector<char> &b, int N) { vector<char> c((size_t)N * N, 0); for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) if (a[i * N + k]) for (int j = 0; j < N; j++) if (b[k * N + j]) c[i * N + j] = 1; return c; }
static vector<char> ptr(const vector<char> &a, int N) { vector<char> c(a.size()); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) c[j * N + i] = a[i * N + j]; return c; }
// must the operation succeed: everything stored before or after it, under any order of steps, fits the capacity
static bool must_fit(const W &w, const Op &op, const Ref *out) {
  const Cfg &c = w.c; int N = c.N;
  if (c.fmt == F_DENSE || c.fmt == F_CSR) return true;
  vector<char> a = stored_of(w.m[0], N), u = a, p;
  if (w.m[1]) { p = stored_of(w.m[1], N); pattern_union(u, p); }
  if (op.need & 1) pattern_union(u, ptr(a, N));
  if (op.need & 2) pattern_union(u, pmul(a, p, N));
  if (op.need & 4) pattern_union(u, pmul(a, a, N));
  if (op.need & 8) for (int i = 0; i < N; i++) u[i * N + i] = 1;
  for (auto &q : op.cells) u[q.first * N + q.second] = 1;
  if (op.need & 16) std::fill(u.begin(), u.end(), 1);
  pattern_union(u, pat_of(out[0])); if (w.m[1]) pattern_union(u, pat_of(out[1]));
  return fits(c, u);
}
// applies op to w (real and model) and checks the complete result. 1: checked fine, 0: refused where that is allowed, -1: violation
static int step(Ctx &cx, W &w, const Op &op, const string &sig0, bool pair, bool caps) {
  const Cfg &c = w.c; string opn = op.name.substr(0, op.name.find('(')); if (op.name[1] == '=') opn = op.name; string sig = sig0 + "|" + opn;
  Ref out[2] = {w.r[0], w.r[1]}; double thr = 0; op.model(w, out, thr);
  bool must = !op.refuse && (!caps || must_fit(w, op, out));
  W before = w;
  Outcome o = call([&] { op.run(w); });
  cx.trans();
  if (o == ERR && !must) return 0;
  if (o == ASSERTED && !must) { cx.fail(sig + "|assert", "the operation that does not fit ended in a debug assertion, not in a reported error: " + g_errtext); return -1; }
  if (!cx.ok(o, sig)) return -1;
  long f0 = cx.failed;
  if (thr > 0) { expect_thr(cx, w.m[0], c, out[0], thr, sig, op.strict); if (cx.failed != f0) return -1; Ref g; if (!obs(cx, w.m[0], c, g, sig)) return -1; out[0] = g; }
  w.r[0] = out[0]; w.r[1] = out[1];
  if (op.touch && !w.tch.empty()) op.touch(w);
  if (pair) { if (!expect_eq(cx, w.m[0], c, w.r[0], sig + "|A") || !expect_eq(cx, w.m[1], c, w.r[1], sig + "|B")) return -1; if (!scalars_ok(cx, w, sig)) return -1; }
  else { if (!full_check(cx, w.m[0], c, w.r[0], sig) || !typed_ok(cx, w, sig)) return -1; }
  return cx.failed == f0 ? 1 : -1;
}
struct Node { vector<uint8_t> path; Ref r[2]; vector<char> tch; };
static void bfs(Ctx &cx, const Cfg &c, const Ops &ops, const Ref *start, int depth, bool pair, bool caps, const string &sig) {
  { Cfg e = c; e.fmt = F_ELLBLOCK; if (c.fmt != F_ELLBLOCK) { e.bs.clear(); e.MB = 0; e.M = e.N; } prewarm(e); }
  if (cx.start > 0 && cx.stop < 0) return; // resumed after a crash: the crash itself is the report
  int np = pair ? 2 : 1; double lim = c.sgl() ? 600 : 1e5;
  auto key = [&](W &w) { string k; if (layout_available()) { k = mat_dump(w.m[0]); if (pair) k += "#" + mat_dump(w.m[1]); } else { k = r_str(w.r[0]); if (pair) k += r_str(w.r[1]); } for (char t : w.tch) k += '0' + t; return std::hash<string>()(k); };
  auto init = [&](W &w) { w.c = c; for (int k = 0; k < np; k++) { w.m[k] = mk(cx, c, start[k], k); if (!w.m[k]) return false; } return true; };
  std::unordered_set<size_t> seen; vector<Node> cur, nxt; Node n0; n0.r[0] = start[0]; n0.r[1] = pair ? start[1] : Ref(c.N); if (!pair) { n0.tch = pat_of(start[0]); }
  cur.push_back(n0);
  { W w; if (!init(w)) return; w.r[0] = n0.r[0]; w.r[1] = n0.r[1]; w.tch = n0.tch; seen.insert(key(w)); cx.states++; for (int k = 0; k < np; k++) freem(w.m[k]); }
  for (int d = 0; d < depth && !cur.empty(); d++) {
    nxt.clear();
    for (auto &nd : cur) for (size_t q = 0; q < ops.size(); q++) {
      W w; w.c = c; w.r[0] = nd.r[0]; w.r[1] = nd.r[1]; w.tch = nd.tch;
      if (ops[q].pre && !ops[q].pre(w)) continue;
      string s2 = sig; cx.cursig = sig;
      if (!cx.nextbfs([&] { return c.str() + " start A=" + r_str(start[0]) + (pair ? " B=" + r_str(start[1]) : "") + " history: " + hist_str(nd.path, ops) + " -> " + ops[q].name; })) { if (cx.capped) return; continue; }
      if (!init(w)) continue;
      bool bad = false;
      for (uint8_t p : nd.path) if (call([&] { ops[p].run(w); }) != OK) { bad = true; break; }
      if (bad) continue; // cannot happen for deterministic code: the path succeeded before
      int r = step(cx, w, ops[q], sig, pair, caps);
      if (r > 0) {
        cx.nontrivial++;
        double mx = 0; for (int k = 0; k < np; k++) for (auto &x : w.r[k].a) mx = std::max(mx, std::abs(x));
        if (seen.insert(key(w)).second) { cx.states++; if (d + 1 < depth && mx < lim) { Node n; n.path = nd.path; n.path.push_back(q); n.r[0] = w.r[0]; n.r[1] = w.r[1]; n.tch = w.tch; nxt.push_back(n); } }
        for (int k = 0; k < np; k++) freem(w.m[k]);
      }
      cx.end();
    }
    cur.swap(nxt);
  }
}
static Ref small(const Cfg &c, unsigned long mask, int seed) { // entries of magnitude 1 or 2
  Ref r(c.N); for (int k = 0; k < c.N * c.N; k++) if (mask >> k & 1) { int s = (k * 5 + seed * 3) % 7; r.a[k] = s < 2 ? cd(1) : s < 4 ? cd(-1) : s == 4 && c.cplx() ? cd(0, 1) : s == 5 && c.cplx() ? cd(-1, 1) : cd(2); } return r;
}
static vector<Cfg> hist_cfgs(bool th) { auto v = cfgs(2, 3); vector<Cfg> o; for (auto &c : v) { if (!th && c.N == 3 && c.fmt == F_ELLBLOCK && c.bs.size() == 3) continue; o.push_back(c); } return o; }
static void c01(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  for (auto &c : hist_cfgs(th)) {
    vector<unsigned long> st = c.N == 2 ? vector<unsigned long>{0, 0xf} : vector<unsigned long>{0, 0x1ff, 0x0a5};
    for (auto m : st) gs.push_back({strf("history|%s start=%lx", c.str().c_str(), m), [=](Ctx &cx) { prewarm(c); Ref s[2] = {pattern(c.N, m, c, 0), Ref(c.N)}; bfs(cx, c, c01_ops(c, th), s, c.N == 2 ? (th ? 4 : 3) : (th ? 3 : 2), false, false, SIG("history")); }, 1});
  }
  // all small matrices through every construction history, and structured ones beyond, read through every reader
  auto one = [=](Ctx &cx, const Cfg &c, const Ref &A, int rec, const string &d) {
    string sig = SIG("read"); cx.cursig = sig;
    if (!cx.next([&] { return c.str() + " read back " + d + " A=" + r_str(A); })) return;
    W w; w.c = c; w.m[0] = mk(cx, c, A, rec); if (!w.m[0]) return; w.r[0] = A; cx.trans(); cx.nontrivial++;
    if (full_check(cx, w.m[0], c, A, sig)) typed_ok(cx, w, sig);
    freem(w.m[0]); cx.end();
  };
  add_groups(gs, tier, "read", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { each_unary(cx, c, true, [&](const Ref &A, int rec, const string &d) { one(cx, c, A, rec, d); }); });
  add_groups(gs, tier, "read", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) {
    each_big_unary(cx, c, [&](const Ref &A, int rec, const string &d) { one(cx, c, A, rec, d); });
    // single writes into structured matrices: every position for small N, the last rows, columns and diagonals beyond
    auto skip = [&](int i) { return c.N > LARGE_N && i > 1 && i < c.N - 2 && i % 31; };
    for (int k : {0, 2, 3, 9, 10}) { if (c.N > LARGE_N && k % 3) continue; Ref A = family(c.N, k, c, 0); if (!fits(c, pat_of(A))) continue;
      for (int i = 0; i < c.N; i++) for (int j = 0; j < c.N; j++) { if (skip(i)) continue; if (c.N > 5 && !(i == j || i == c.N - 1 || j == c.N - 1 || i + j == c.N - 1)) continue;
        string sig = SIG("write_one"); cx.cursig = sig;
        if (!cx.next([&] { return c.str() + strf(" set_element(%d,%d,77) in %s", i, j, FAMN[k]); })) continue;
        void *a = mk(cx, c, A, k & 1); if (!a) continue; cx.trans(); cx.nontrivial++;
        Outcome o = call([&] { put(a, c, i, j, 77); });
        if (cx.ok(o, sig)) { Ref w = A; w(i, j) = 77; full_check(cx, a, c, w, sig); }
        freem(a); cx.end();
      }
      for (int i = 0; i < c.N; i++) for (int k2 : {0, 2, 3, 11}) { if (skip(i)) continue;
        string sig = SIG("write_row"); cx.cursig = sig; Ref B = family(c.N, k2, c, 3);
        if (!cx.next([&] { return c.str() + strf(" set_row(%d, row of %s) in %s", i, FAMN[k2], FAMN[k]); })) continue;
        void *a = mk(cx, c, A, k & 1); if (!a) continue; cx.trans(); cx.nontrivial++;
        Buf b(c.prec, c.N); for (int j = 0; j < c.N; j++) b.set(j, B(i, j));
        Outcome o = call([&] { bml_set_row(a, i, b.p(), 0.0); });
        if (cx.ok(o, sig)) { Ref w = A; for (int j = 0; j < c.N; j++) w(i, j) = B(i, j); full_check(cx, a, c, w, sig); }
        freem(a); cx.end();
      }
      { string sig = SIG("write_diag"); cx.cursig = sig;
        if (!cx.next([&] { return c.str() + strf(" set_diagonal in %s", FAMN[k]); })) continue;
        void *a = mk(cx, c, A, k & 1); if (!a) continue; cx.trans(); cx.nontrivial++;
        Buf b(c.prec, c.N); Ref w = A; for (int j = 0; j < c.N; j++) { cd v = val(j, j, 5, c.cplx()); b.set(j, v); w(j, j) = v; }
        Outcome o = call([&] { bml_set_diagonal(a, b.p(), 0.0); });
        if (cx.ok(o, sig)) full_check(cx, a, c, w, sig);
        freem(a); cx.end(); }
    }
  });
}
static PropReg r01("C01", c01);

static void c19(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  for (auto &c : hist_cfgs(th)) {
    vector<std::pair<unsigned long, unsigned long>> st = c.N == 2 ? vector<std::pair<unsigned long, unsigned long>>{{0x6, 0x9}, {0xf, 0xb}} : vector<std::pair<unsigned long, unsigned long>>{{0x00a, 0x111}, {0x1ef, 0x0f3}};
    for (auto &m : st) gs.push_back({strf("history|%s start=%lx,%lx", c.str().c_str(), m.first, m.second), [=](Ctx &cx) { prewarm(c); Ref s[2] = {small(c, m.first, 0), small(c, m.second, 1)}; bfs(cx, c, pair_ops(c, th), s, c.N == 2 ? (th ? 4 : 3) : (th ? 3 : 2), true, false, SIG("history")); }, 1});
  }
  // larger matrices: all histories of two operations
  vector<Cfg> big; for (auto &c : bigcfgs("quick")) if (c.N == 5 || (th && c.N == 8) || (c.N == 13 && c.M == 1)) big.push_back(c);
  for (auto &c : big) gs.push_back({strf("history|%s", c.str().c_str()), [=](Ctx &cx) {
    prewarm(c); Ref a(c.N), b(c.N); for (int i = 0; i < c.N; i++) for (int j = 0; j < c.N; j++) { if (abs(i - j) <= 1) a(i, j) = (i + j) % 3 ? 1 : -1; if ((i * 2 + j) % 4 == 1 || c.N > 8) b(i, j) = c.cplx() && i > j ? cd(0, 1) : cd(j % 2 ? 2 : -1); }
    Ref s[2] = {a, b}; bfs(cx, c, pair_ops(c, th), s, 2, true, false, SIG("history")); }, 1});
}
static PropReg r19("C19", c19);

// C18: tight capacities.  Every operation once from every pair of patterns, and short histories.
static vector<Cfg> cap_cfgs(int tier) {
  vector<Cfg> o;
  ALLPREC {
    for (int M = 1; M <= 2; M++) { Cfg c; c.fmt = F_ELLPACK; c.prec = prec; c.N = 3; c.M = M; o.push_back(c); }
    { Cfg c; c.fmt = F_ELLPACK; c.prec = prec; c.N = 2; c.M = 1; o.push_back(c); }
    for (int MB = 1; MB <= 2; MB++) { Cfg c; c.fmt = F_ELLBLOCK; c.prec = prec; c.N = 4; c.M = 2; c.bs = {1, 2, 1}; c.MB = MB; o.push_back(c); if (tier) { c.N = 3; c.bs = {1, 1, 1}; c.M = MB; o.push_back(c); } }
  }
  return o;
}
// operands and destination of different row capacity: refused or exact, and exact means the right elements
static void mixed_caps(Ctx &cx, int prec, int N, int Ma, int Mb, int Mc, bool th) {
  Cfg ca, cb, cc; ca.fmt = cb.fmt = cc.fmt = F_ELLPACK; ca.prec = cb.prec = cc.prec = prec; ca.N = cb.N = cc.N = N; ca.M = Ma; cb.M = Mb; cc.M = Mc;
  vector<Ref> as, bs, cs;
  auto fill = [&](vector<Ref> &v, const Cfg &c, int seed, size_t cap) { vector<Ref> t; for (unsigned long m = 0; m < (1ul << (N * N)); m++) { Ref r = pattern(N, m, c, seed); if (fits(c, pat_of(r))) t.push_back(r); } size_t st = std::max<size_t>(1, t.size() / cap); for (size_t k = 0; k < t.size(); k += st) v.push_back(t[k]); if (!t.empty()) v.push_back(t.back()); };
  fill(as, ca, 0, th ? 512 : 60); fill(bs, cb, 1, th ? 40 : 12); fill(cs, cc, 2, th ? 8 : 4);
  static const char *opn[] = {"multiply", "element_multiply", "multiply_x2", "copy", "scale", "add", "add_into"};
  for (auto &A : as) for (size_t kb = 0; kb < bs.size(); kb++) for (size_t kc = 0; kc < cs.size(); kc++) for (int op = 0; op < 6; op++) {
    if ((op == 2 || op == 3 || op == 4) && kb) continue; if (op == 5 && kc) continue;
    const Ref &B = bs[kb], &C = cs[kc]; string sig = strf("mixed|%s|ellpack|%s", opn[op], PRECN[prec]); cx.cursig = sig;
    if (!cx.next([&] { return strf("ellpack %s N=%d capacities A=%d B=%d C=%d %s A=", PRECN[prec], N, Ma, Mb, Mc, opn[op]) + r_str(A) + " B=" + r_str(B) + " C=" + r_str(C); })) continue;
    void *a = mk(cx, ca, A, 0), *b = mk(cx, cb, B, 0), *c = mk(cx, cc, C, 0); if (!a || !b || !c) continue;
    double two[2] = {2, 0}; float twof[2] = {2, 0}; void *f = ca.sgl() ? (void *)twof : (void *)two; void *tr = 0;
    Outcome o = call([&] { switch (op) { case 0: bml_multiply(a, b, c, 1, 0, 0); break; case 1: bml_element_multiply_AB(a, b, c, 0); break; case 2: tr = bml_multiply_x2(a, c, 0); break; case 3: bml_copy(a, c); break; case 4: bml_scale(f, a, c); break; case 5: bml_add(a, b, 1, 1, 0); break; } });
    cx.trans(); cx.nontrivial++;
    Ref w(N); if (op == 0) w = r_mul(A, B); else if (op == 1) { for (int k = 0; k < N * N; k++) w.a[k] = A.a[k] * B.a[k]; } else if (op == 2) w = r_mul(A, A); else if (op == 3) w = A; else if (op == 4) w = r_scale(A, 2); else { w = A; for (int k = 0; k < N * N; k++) w.a[k] += B.a[k]; }
    if (o == OK) { if (op == 5) expect_eq(cx, a, ca, w, sig); else { expect_eq(cx, c, cc, w, sig); expect_eq(cx, a, ca, A, sig + "|operand"); } expect_eq(cx, b, cb, B, sig + "|operand"); bml_free_memory(tr); freem(a); freem(b); freem(c); }
    else if (o == ASSERTED) cx.fail(sig + "|assert", "ended in a failed assertion instead of a reported error: " + g_errtext);
    cx.end();
  }
}
static void c18(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  ALLPREC for (int N = 2; N <= 3; N++) for (int Ma = 1; Ma <= N; Ma++) for (int Mc = 1; Mc <= N; Mc++) gs.push_back({strf("mixed|prec=%s N=%d Ma=%d Mc=%d", PRECN[prec], N, Ma, Mc), [=](Ctx &cx) { for (int Mb = 1; Mb <= N; Mb++) mixed_caps(cx, prec, N, Ma, Mb, Mc, th); }, 1});
  for (auto &c : cap_cfgs(th)) {
    gs.push_back({strf("once|%s", c.str().c_str()), [=](Ctx &cx) {
      prewarm(c); Ops ops = pair_ops(c, th); int N = c.N; vector<Ref> all;
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { ops.push_back(op_set(i, j, 3)); ops.push_back(op_setnew(i, j, 3)); }
      { vector<cd> f(N, 1), z(N, 0); for (int i = 0; i < N; i++) { ops.push_back(op_row(i, f, 0)); ops.push_back(op_row(i, z, 0)); } ops.push_back(op_diag(f, 0)); }
      if (N <= 3) { for (unsigned long m = 0; m < (1ul << (N * N)); m++) { Ref r = small(c, m, 0); if (fits(c, pat_of(r))) all.push_back(r); } }
      else for (int k = 0; k < NFAM; k++) { Ref r = family(N, k, c, 0); if (fits(c, pat_of(r))) all.push_back(r); Ref t = r_tr(r); if (fits(c, pat_of(t))) all.push_back(t); }
      vector<Ref> second = all; if (N == 3) { second.clear(); for (size_t k = 0; k < all.size(); k += th ? 3 : (all.size() > 100 ? 23 : 7)) second.push_back(all[k]); }
      string sig = SIG("once");
      for (auto &A : all) for (auto &B : second) for (auto &op : ops) {
        bool isnew = op.name.find("set_element_new") == 0; W w; w.c = c; w.tch = pat_of(A);
        if (isnew && op.pre && !op.pre(w)) continue;
        cx.cursig = sig;
        if (!cx.next([&] { return c.str() + " " + op.name + " A=" + r_str(A) + " B=" + r_str(B); })) continue;
        Ref rb = r_scale(B, -1); w.r[0] = A; w.r[1] = rb; w.m[0] = mk(cx, c, A, 0); w.m[1] = mk(cx, c, rb, 1); if (!w.m[0] || !w.m[1]) continue;
        int r = step(cx, w, op, sig, true, true); cx.nontrivial++;
        if (r > 0) { freem(w.m[0]); freem(w.m[1]); }
        cx.end();
      }
      // constructors and conversions into this capacity, from every pattern
      for (unsigned long m = 0; m < (1ul << std::min(N * N, 9)); m++) {
        Ref A = small(c, m, 0); if (N == 4) { A = Ref(4); for (int k = 0; k < 9; k++) if (m >> k & 1) A((k / 3) + (k / 3 == 2), (k % 3) + (k % 3 > 0)) = 1 + k; }
        for (int how = 0; how < (c.fmt == F_ELLPACK ? 4 : 1); how++) {
          cx.cursig = SIG("convert");
          if (!cx.next([&] { return c.str() + strf(" how=%d (0 set all, 1 convert from dense, 2 import, 3 convert from csr) A=", how) + r_str(A); })) continue;
          Cfg d = c; d.fmt = how == 3 ? F_CSR : F_DENSE; d.M = c.N; d.bs.clear(); d.MB = 0; void *X = 0, *Y = 0; bool f = fits(c, pat_of(A)); cx.trans(); cx.nontrivial++;
          if (how == 1 || how == 3) { X = mk(cx, d, A, 0); if (!X) continue; }
          Outcome o = call([&] {
            if (how == 0) { Y = mk_zero(c); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (A(i, j) != cd(0)) put(Y, c, i, j, A(i, j)); }
            else if (how == 2) { Buf b(c.prec, N * N); for (int k = 0; k < N * N; k++) b.set(k, A.a[k]); Y = bml_import_from_dense(c.fmt, c.prec, ROWMAJ, N, c.M, b.p(), 0, D_SEQ); }
            else Y = bml_convert(X, c.fmt, c.prec, c.M, D_SEQ); });
          if (o == OK) expect_eq(cx, Y, c, A, cx.cursig); else if (o == ASSERTED || f) cx.ok(o, cx.cursig);
          if (o == OK) { freem(X); freem(Y); }
          cx.end();
        }
      }
    }, c.N == 3 ? 2 : 1});
    gs.push_back({strf("history|%s", c.str().c_str()), [=](Ctx &cx) { prewarm(c); Ref s[2] = {Ref(c.N), Ref(c.N)}; for (int i = 0; i < c.N; i++) s[1](i, (i + 1) % c.N) = 1; if (!fits(c, pat_of(s[1]))) s[1] = r_id(c.N); bfs(cx, c, pair_ops(c, th), s, th ? 3 : 2, true, true, SIG("history")); }, 1});
  }
}
static PropReg r18("C18", c18);
