// C16 diagonalization, C17 inversion
#include "seq_gen.h"
#include <algorithm>

static double amax(const Ref &A) { double m = 0; for (auto &x : A.a) m = std::max(m, std::abs(x)); return m; }
static Ref herm(const Ref &U, bool cplx) { Ref A = U; for (int i = 0; i < A.n; i++) { A(i, i) = A(i, i).real(); for (int j = 0; j < i; j++) A(i, j) = cplx ? std::conj(A(j, i)) : A(j, i); } return A; }

static void diag_case(Ctx &cx, const Cfg &c, const Ref &A, int rec, int prev, const string &d, bool narrow = false) {
  string sig = SIG("diagonalize"); cx.cursig = sig; int N = c.N;
  if (!cx.next([&] { return c.str() + " diagonalize " + d + strf(" previous content of eigenvectors=%s A=", FAMN[prev]) + r_str(A); })) return;
  Ref P = family(N, prev, c, 3);
  void *a = mk(cx, c, A, rec), *v = mk(cx, c, P, 0); if (!a || !v) return;
  size_t bytes = N * c.esz(); void *ev = malloc(bytes); memset(ev, 0x7f, bytes);
  Outcome o = call([&] { bml_diagonalize(a, ev, v); });
  cx.trans();
  if (o == ERR && narrow) return;
  if (cx.ok(o, sig)) {
    cx.nontrivial++; Ref V; double tol = 60 * N * c.eps() * (1 + amax(A) * N);
    expect_eq(cx, a, c, A, sig + "|source");
    vector<double> w; bool bad = false;
    for (int k = 0; k < N; k++) { cd e = elem_get(ev, c.prec, k); if (!(std::isfinite(e.real()) && e.imag() == 0)) { cx.fail(sig + "|evals", strf("eigenvalue %d is %g%+gi", k, e.real(), e.imag())); bad = true; } w.push_back(e.real()); }
    for (int k = 1; k < N && !bad; k++) if (w[k] < w[k - 1] - tol) { cx.fail(sig + "|order", strf("eigenvalues not ascending: %g after %g", w[k], w[k - 1])); bad = true; }
    if (!bad && expect_struct(cx, v, sig) && obs(cx, v, c, V, sig)) {
      for (int k = 0; k < N && !bad; k++) {
        for (int l = 0; l <= k && !bad; l++) { cd s = 0; for (int i = 0; i < N; i++) s += std::conj(V(i, k)) * V(i, l); if (!(std::abs(s - cd(k == l)) <= 60 * N * c.eps())) { cx.fail(sig + "|orthonormal", strf("eigenvectors %d and %d: inner product %g%+gi; V=", k, l, s.real(), s.imag()) + r_str(V)); bad = true; } }
        for (int i = 0; i < N && !bad; i++) { cd s = 0; for (int j = 0; j < N; j++) s += A(i, j) * V(j, k); if (!(std::abs(s - w[k] * V(i, k)) <= tol)) { cx.fail(sig + "|residual", strf("(A v - lambda v)(%d) = %g for eigenvalue %d = %.9g; V=", i, std::abs(s - w[k] * V(i, k)), k, w[k]) + r_str(V)); bad = true; } }
      }
      if (!bad) full_check(cx, v, c, V, sig);
    }
  }
  free(ev); freem(a); freem(v); cx.end();
}
static void c16(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  add_groups(gs, tier, "diag", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) {
    int N = c.N, s = 0;
    for (unsigned long m = 0; m < (1ul << (N * N)); m++) { // every symmetric pattern: bits of the upper triangle
      bool low = false; for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) if (m >> (i * N + j) & 1) low = true; if (low) continue;
      for (int sd = 0; sd < (th ? 6 : 2); sd++) {
        Ref A = herm(pattern(N, m, c, sd), c.cplx());
        for (int rec = 0; rec < NRECIPE; rec++) if (recipe_ok(c, rec, A)) for (int prev : {0, 2}) { if (!th && c.N == 3 && (s++ + rec + prev / 2) % 3) continue; diag_case(cx, c, A, rec, prev, strf("hermitian mask=%lx seed=%d rec=%s", m, sd, RECN[rec])); }
        if (c.cplx()) { Ref B = herm(pattern(N, m, c, sd), true); for (auto &x : B.a) x = x.real(); diag_case(cx, c, B, 0, 0, "complex storage, real symmetric"); }
      }
    }
    for (double x : {0.0, 1.0, -2.5}) for (int prev : {0, 2, 4}) diag_case(cx, c, r_scale(r_id(N), x), 0, prev, "multiple of the identity");
    if (N == 3) for (int k = 0; k < 3; k++) { Ref A = r_scale(r_id(3), 2); A(k, k) = -5; diag_case(cx, c, A, 0, 0, "degenerate"); Ref B(3); for (auto &x : B.a) x = 1; B(k, k) += 3; diag_case(cx, c, B, 0, 0, "rank deficient"); }
  });
  add_groups(gs, tier, "diag", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { for (int k : fams(c)) for (int sd = 0; sd < 3; sd++) for (int rec : {0, 1, 5}) for (int prev : {0, 2}) diag_case(cx, c, herm(family(c.N, k, c, sd), c.cplx()), rec, prev, strf("family=%s seed=%d rec=%s", FAMN[k], sd, RECN[rec])); });
  add_groups(gs, tier, "diag_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { for (int k = 0; k < NFAM; k++) { Ref A = herm(family(c.N, k, c, 0), c.cplx()); if (fits(c, pat_of(A))) diag_case(cx, c, A, 0, 0, FAMN[k], true); } });
}
static PropReg r16("C16", c16);

static bool inv(const Ref &A, Ref &R) { // Gauss-Jordan with partial pivoting in long double
  typedef std::complex<long double> cl; int n = A.n; vector<cl> a(n * n), b(n * n, cl(0)); for (int k = 0; k < n * n; k++) a[k] = cl(A.a[k].real(), A.a[k].imag()); for (int i = 0; i < n; i++) b[i * n + i] = 1;
  for (int c = 0; c < n; c++) {
    int p = c; for (int i = c; i < n; i++) if (std::abs(a[i * n + c]) > std::abs(a[p * n + c])) p = i;
    if (std::abs(a[p * n + c]) < 1e-9L) return false;
    for (int j = 0; j < n; j++) { std::swap(a[c * n + j], a[p * n + j]); std::swap(b[c * n + j], b[p * n + j]); }
    cl q = cl(1) / a[c * n + c]; for (int j = 0; j < n; j++) { a[c * n + j] *= q; b[c * n + j] *= q; }
    for (int i = 0; i < n; i++) if (i != c) { cl f = a[i * n + c]; if (f != cl(0)) for (int j = 0; j < n; j++) { a[i * n + j] -= f * a[c * n + j]; b[i * n + j] -= f * b[c * n + j]; } }
  }
  R = Ref(n); for (int k = 0; k < n * n; k++) R.a[k] = cd((double)b[k].real(), (double)b[k].imag());
  return true;
}
static void inv_case(Ctx &cx, const Cfg &c, const Ref &A, int rec, const string &d, bool narrow = false) {
  string sig = SIG("inverse"); cx.cursig = sig; Ref R; int N = c.N;
  bool ok = inv(A, R); double k = ok ? N * N * amax(A) * amax(R) : 0; bool sing = false;
  if (!ok) { for (int i = 0; i < N; i++) { bool z = true, zc = true; for (int j = 0; j < N; j++) { z &= A(i, j) == cd(0); zc &= A(j, i) == cd(0); } sing |= z | zc; } if (!sing) return; } // judged only when a whole row or column is zero
  if (ok && k > 5000) return; // well-conditioned only
  if (!cx.next([&] { return c.str() + " inverse " + d + " A=" + r_str(A); })) return;
  void *a = mk(cx, c, A, rec), *b = 0; if (!a) return;
  Outcome o = call([&] { b = bml_inverse(a); });
  cx.trans(); cx.nontrivial++;
  if (sing) {
    if (o == OK) cx.fail(sig + "|singular", "inverting a singular matrix was not reported as an error");
    else if (o == ASSERTED) cx.fail(sig + "|assert", "inverting a singular matrix ended in a failed assertion");
  } else if (o == ERR && narrow) return;
  else if (cx.ok(o, sig)) {
    expect_eq(cx, a, c, A, sig + "|source");
    if (!b) cx.fail(sig + "|null", "no matrix returned");
    else {
      Cfg cb = c; if (bml_get_type(b) != c.fmt || bml_get_precision(b) != c.prec || bml_get_N(b) != N) cx.fail(sig + "|type", "type, precision or size of the inverse differ");
      else if (expect_eq(cx, b, c, R, sig, 20 * N * c.eps() * std::max(10.0, k))) { Ref g; obs(cx, b, c, g, sig); full_check(cx, b, c, g, sig); call([&] { bml_clear(a); }); expect_eq(cx, b, c, g, sig + "|afterclear"); }
    }
  }
  freem(a); freem(b); cx.end();
}
static void c17(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  add_groups(gs, tier, "inverse", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) {
    int N = c.N;
    each_unary(cx, c, true, [&](const Ref &P, int rec, const string &d) { inv_case(cx, c, P, rec, d); });
    // every off-diagonal pattern, made dominant along every permutation (pivoting)
    vector<int> p(N); for (int i = 0; i < N; i++) p[i] = i;
    do for (unsigned long m : masks(N, true)) for (int rec : {0, 1, 4}) { Ref A = pattern(N, m, c, rec); for (int i = 0; i < N; i++) A(i, p[i]) = A(i, p[i]) + cd(64 * (i % 2 ? 1 : -1), c.cplx() ? 8 : 0); if (recipe_ok(c, rec, A)) inv_case(cx, c, A, rec, strf("dominant permutation mask=%lx", m)); } while (std::next_permutation(p.begin(), p.end()));
  });
  add_groups(gs, tier, "inverse", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { for (int k : fams(c)) for (int sh = 0; sh < c.N; sh += (th ? 1 : 3)) for (int rec : {0, 1}) { Ref A = family(c.N, k, c, 0); for (int i = 0; i < c.N; i++) A(i, (i + sh) % c.N) += cd(60 * c.N, c.cplx() ? 5 : 0); if (fits(c, pat_of(A))) inv_case(cx, c, A, rec, strf("family=%s shift=%d", FAMN[k], sh)); } });
  add_groups(gs, tier, "inverse_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { for (int k = 0; k < NFAM; k++) for (int sh = 0; sh < c.N; sh++) { Ref A = family(c.N, k, c, 0); for (int i = 0; i < c.N; i++) A(i, (i + sh) % c.N) += 60 * c.N; if (fits(c, pat_of(A))) inv_case(cx, c, A, 0, strf("family=%s shift=%d", FAMN[k], sh), true); } });
}
static PropReg r17("C17", c17);
