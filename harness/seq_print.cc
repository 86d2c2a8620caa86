// C30: printing shows exactly the requested part of a matrix, array or vector
#include "seq_core.h"
#include "seq_gen.h"
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#define SIG(op) strf("%s|%s|%s", op, FMTN[c.fmt], PRECN[c.prec])
// everything the call writes to standard output, by whatever means
static Outcome printed(string &txt, std::function<void()> f) {
  fflush(stdout);
  static int fd = -1; static pid_t owner; if (fd < 0 || owner != getpid()) { fd = memfd_create("out", 0); owner = getpid(); }
  if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET)) {}
  int old = dup(1); dup2(fd, 1); g_print_through = true;
  Outcome o = call(f);
  g_print_through = false; fflush(stdout); dup2(old, 1); close(old);
  off_t n = lseek(fd, 0, SEEK_END); txt.resize(n); if (n && pread(fd, &txt[0], n, 0) != n) txt.clear();
  return o;
}
// one line per row: numbers separated by blanks; complex numbers as re+imi
static bool row_ok(const string &l, const vector<cd> &w, bool cplx, bool sgl, string &why) {
  const char *p = l.c_str(); char *e;
  auto eat = [&](double v, const char *what, size_t k) {
    double x = strtod(p, &e); if (e == p) { why = strf("element %zu is missing in '%s'", k, l.substr(0, 200).c_str()); return false; }
    const char *dot = (const char *)memchr(p, '.', e - p); if (!dot || e - dot != 4) { why = strf("element %zu is not printed with three decimals in '%s'", k, l.substr(0, 200).c_str()); return false; }
    if (!(fabs(x - v) <= 0.000501 + (sgl ? 1e-6 : 1e-12) * fabs(v))) { why = strf("%s element %zu is printed as %.17g, it is %.17g", what, k, x, v); return false; }
    p = e; return true;
  };
  for (size_t k = 0; k < w.size(); k++) {
    if (*p != ' ') { why = strf("no separator before element %zu in '%s'", k, l.substr(0, 200).c_str()); return false; }
    if (!eat(w[k].real(), cplx ? "real part of" : "", k)) return false;
    if (cplx) { if (*p != '+' && *p != '-') { why = "no sign before an imaginary part in '" + l.substr(0, 200) + "'"; return false; } if (!eat(w[k].imag(), "imaginary part of", k)) return false; if (*p != 'i') { why = "no i after an imaginary part"; return false; } p++; }
  }
  while (*p == ' ') p++;
  if (*p) { why = "something after the last element: '" + string(p).substr(0, 100) + "'"; return false; }
  return true;
}
static void judge(Ctx &cx, const string &sig, const string &txt, const vector<vector<cd>> &rows, const Cfg &c) {
  vector<string> ls; string cur; for (char ch : txt) { if (ch == '\n') { ls.push_back(cur); cur.clear(); } else cur += ch; }
  if (!cur.empty()) { cx.fail(sig + "|line", "the last line is not ended: '" + cur.substr(0, 100) + "'"); return; }
  if (ls.size() != rows.size()) { cx.fail(sig + "|lines", strf("%zu lines printed for %zu rows", ls.size(), rows.size())); return; }
  string why; for (size_t i = 0; i < rows.size(); i++) if (!row_ok(ls[i], rows[i], c.cplx(), c.sgl(), why)) { cx.fail(sig + "|value", strf("row %zu: ", i) + why); return; }
  cx.nontrivial++;
}
static void mat_case(Ctx &cx, const Cfg &c, const Ref &A, int rec, int il, int iu, int jl, int ju, const string &d) {
  string sig = SIG("print_bml_matrix"); cx.cursig = sig;
  if (!cx.next([=] { return c.str() + strf(" op=print_bml_matrix rows %d..%d columns %d..%d ", il, iu, jl, ju) + d + " A=" + r_str(A); })) return;
  void *a = mk(cx, c, A, rec); if (!a) return; string txt;
  Outcome o = printed(txt, [&] { bml_print_bml_matrix(a, il, iu, jl, ju); }); cx.trans();
  if (cx.ok(o, sig)) {
    vector<vector<cd>> rows; for (int i = il; i < iu; i++) { rows.push_back({}); for (int j = jl; j < ju; j++) rows.back().push_back(A(i, j)); }
    judge(cx, sig, txt, rows, c); expect_eq(cx, a, c, A, sig + "|operand");
  }
  freem(a); cx.end();
}
static void arr_case(Ctx &cx, const Cfg &c, const Ref &A, int order, int il, int iu, int jl, int ju, const string &d) {
  static const char *on[] = {"print_dense_matrix(row-major)", "print_dense_matrix(column-major)", "print_dense_vector"};
  string sig = SIG(on[order]); cx.cursig = sig; int N = c.N;
  if (!cx.next([=] { return c.str() + strf(" op=%s rows %d..%d columns %d..%d ", on[order], il, iu, jl, ju) + d + " A=" + r_str(A); })) return;
  Buf b(c.prec, (size_t)N * N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) b.set(order == 1 ? j * N + i : i * N + j, A(i, j));
  string txt; Outcome o = printed(txt, [&] { if (order < 2) bml_print_dense_matrix(N, c.prec, order ? COLMAJ : ROWMAJ, b.p(), il, iu, jl, ju); else bml_print_dense_vector(N, c.prec, b.p(), jl, ju); }); cx.trans();
  if (cx.ok(o, sig)) {
    vector<vector<cd>> rows; for (int i = order == 2 ? 0 : il; i < (order == 2 ? 1 : iu); i++) { rows.push_back({}); for (int j = jl; j < ju; j++) rows.back().push_back(A(i, j)); }
    judge(cx, sig, txt, rows, c);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (b.get(order == 1 ? j * N + i : i * N + j) != A(i, j)) { cx.fail(sig + "|operand", "the printed array was changed"); i = N; break; }
  }
  cx.end();
}
static void c30(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &A, int rec, const string &d, int sel) {
    int N = c.N, k = 0;
    for (int il = 0; il <= N; il++) for (int iu = il; iu <= N; iu++) for (int jl = 0; jl <= N; jl++) for (int ju = jl; ju <= N; ju++) {
      if (N > 3 && !(il == 0 && iu == N && jl == 0 && ju == N) && (k++ * 7 + sel) % (N > 5 ? 1009 : 31)) continue;
      mat_case(cx, c, A, rec, il, iu, jl, ju, d);
      if (c.fmt == F_DENSE) for (int q = 0; q < 3; q++) if (q < 2 || il == 0) arr_case(cx, c, A, q, il, iu, jl, ju, d);
    }
  };
  // values that need rounding, large ones, tiny ones
  auto vary = [](Ref A, int sel, const Cfg &c) { static const double f[] = {1, 0.37109375, 1024.0009765625, -0.0001220703125}; for (auto &x : A.a) { x *= f[sel % 4]; if (c.sgl()) x = cd((float)x.real(), (float)x.imag()); } return A; };
  add_groups(gs, tier, "print", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) {
    int s = 0; if (c.N <= 2) for (unsigned long m : masks(c.N, true)) for (int v = 0; v < (th ? 4 : 2); v++) { body(cx, c, vary(pattern(c.N, m, c, 0), s + v, c), 0, strf("mask=%lx", m), s); s++; }
    else for (int k = 0; k < NFAM; k++) { if (!th && k % 3) continue; Ref A = vary(family(c.N, k, c, 0), k, c); body(cx, c, A, k % 2 && recipe_ok(c, 5, A) ? 5 : 0, FAMN[k], k); } });
  add_groups(gs, tier, "print", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { if (c.N > 17) return; for (int k : fams(c)) if (th || k % 2 == 0) { Ref A = vary(family(c.N, k, c, 0), k, c); if (fits(c, pat_of(A))) body(cx, c, A, 0, FAMN[k], k); } });
}
static PropReg r30("C30", c30);
