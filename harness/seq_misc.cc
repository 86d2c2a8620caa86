// C24 the library's own GEMM, C25 constructors and introspection, C26 reordering, C28 misuse
#include "seq_gen.h"
#include <algorithm>

// ---------------------------------------------------------------- C24
typedef void (*gemm_t)(const char *, const char *, const int *, const int *, const int *, const void *, const void *, const int *, const void *, const int *, const void *, void *, const int *);
extern "C" {
#define G(n) void n(const char *, const char *, const int *, const int *, const int *, const void *, const void *, const int *, const void *, const int *, const void *, void *, const int *);
#define G4(n) G(n##_single_real) G(n##_double_real) G(n##_single_complex) G(n##_double_complex)
G4(bml_gemm_internal) G4(bml_gemm) G4(bml_xsmm_gemm)
}
#define T4(n) {0, n##_single_real, n##_double_real, n##_single_complex, n##_double_complex}
static const gemm_t GEMM[3][5] = {T4(bml_gemm_internal), T4(bml_gemm), T4(bml_xsmm_gemm)};
static const char *GN[] = {"bml_gemm_internal", "bml_gemm", "bml_xsmm_gemm"};
static const double QN = NAN;
struct GArg { int fn, prec; char ta, tb; int m, n, k, pa, pb, pc; cd al, be; bool nanc; };
static void gemm_case(Ctx &cx, const GArg &g) {
  bool cp = g.prec >= P_SC; double eps = (g.prec == P_SR || g.prec == P_SC) ? 1.2e-7 : 2.3e-16;
  string sig = strf("%s|%s|%c%c", GN[g.fn], PRECN[g.prec], g.ta, g.tb); cx.cursig = sig;
  int ra = g.ta == 'N' ? g.m : g.k, ca = g.ta == 'N' ? g.k : g.m, rb = g.tb == 'N' ? g.k : g.n, cb = g.tb == 'N' ? g.n : g.k;
  int lda = std::max(1, ra) + g.pa, ldb = std::max(1, rb) + g.pb, ldc = std::max(1, g.m) + g.pc;
  if (!cx.next([&] { return strf("%s %s transa=%c transb=%c m=%d n=%d k=%d lda=%d ldb=%d ldc=%d alpha=%g%+gi beta=%g%+gi%s", GN[g.fn], PRECN[g.prec], g.ta, g.tb, g.m, g.n, g.k, lda, ldb, ldc, g.al.real(), g.al.imag(), g.be.real(), g.be.imag(), g.nanc ? " C initially NaN" : ""); })) return;
  auto av = [&](int i, int j) { return val(i, j, 0, cp); };
  auto bv = [&](int i, int j) { return val(i + 1, j + 2, 4, cp); };
  auto cv = [&](int i, int j) { return val(j, i + 3, 2, cp); };
  size_t es = g.prec == P_SR ? 4 : g.prec == P_DC ? 16 : 8;
  // exact-size heap blocks: any access outside is a memory error
  auto heap = [&](int ld, int c) { return malloc(std::max<size_t>(1, (size_t)ld * c) * es); };
  void *A = heap(lda, ca), *B = heap(ldb, cb), *C = heap(ldc, g.n), *al = malloc(es), *be = malloc(es);
  for (int j = 0; j < ca; j++) for (int i = 0; i < lda; i++) elem_set(A, g.prec, (size_t)j * lda + i, i < ra ? av(i, j) : cd(QN, QN));
  for (int j = 0; j < cb; j++) for (int i = 0; i < ldb; i++) elem_set(B, g.prec, (size_t)j * ldb + i, i < rb ? bv(i, j) : cd(QN, QN));
  for (int j = 0; j < g.n; j++) for (int i = 0; i < ldc; i++) elem_set(C, g.prec, (size_t)j * ldc + i, i >= g.m ? cd(-77 - j, 5) : g.nanc ? cd(QN, QN) : cv(i, j));
  vector<char> A0((char *)A, (char *)A + (size_t)lda * ca * es), B0((char *)B, (char *)B + (size_t)ldb * cb * es);
  elem_set(al, g.prec, 0, g.al); elem_set(be, g.prec, 0, g.be);
  char ta[2] = {g.ta, 0}, tb[2] = {g.tb, 0};
  Outcome o = call([&] { GEMM[g.fn][g.prec](ta, tb, &g.m, &g.n, &g.k, al, A, &lda, B, &ldb, be, C, &ldc); });
  cx.trans();
  if (cx.ok(o, sig)) {
    if (g.m && g.n && g.k && g.al != cd(0)) cx.nontrivial++;
    if (A0.size() && memcmp(A, A0.data(), A0.size())) cx.fail(sig + "|A", "A was modified");
    if (B0.size() && memcmp(B, B0.data(), B0.size())) cx.fail(sig + "|B", "B was modified");
    bool bad = false;
    for (int j = 0; j < g.n && !bad; j++) for (int i = 0; i < ldc && !bad; i++) {
      cd got = elem_get(C, g.prec, (size_t)j * ldc + i), want;
      if (i >= g.m) want = rnd(g.prec, cd(-77 - j, cp ? 5 : 0));
      else {
        cd s = 0; double mag = 0;
        for (int l = 0; l < g.k; l++) {
          cd x = g.ta == 'N' ? av(i, l) : g.ta == 'T' ? av(l, i) : std::conj(av(l, i)), y = g.tb == 'N' ? bv(l, j) : g.tb == 'T' ? bv(j, l) : std::conj(bv(j, l));
          s += x * y; mag += std::abs(x * y);
        }
        want = g.al * s + (g.be == cd(0) ? cd(0) : g.be * cv(i, j));
        if (g.al == cd(0) && g.be == cd(0)) want = 0;
        double tol = 16 * eps * (1 + std::abs(g.al) * mag + std::abs(g.be) * std::abs(cv(i, j)));
        if (!(std::abs(got - want) <= tol)) { cx.fail(sig + "|value", strf("C(%d,%d) = %.9g%+.9gi, expected %.9g%+.9gi", i, j, got.real(), got.imag(), want.real(), want.imag())); bad = true; }
        continue;
      }
      if (got != want) { cx.fail(sig + "|outside", strf("padding cell C(%d,%d) outside the described matrix was written", i, j)); bad = true; }
    }
  }
  free(A); free(B); free(C); free(al); free(be); cx.end();
}
static void gemm_bad(Ctx &cx, int prec) { // invalid arguments are refused and nothing is written
  struct { const char *n; char ta, tb; int m, n_, k, lda, ldb, ldc; } bad[] = {
    {"transa", 'X', 'N', 2, 2, 2, 2, 2, 2}, {"transb", 'N', 'Q', 2, 2, 2, 2, 2, 2}, {"m", 'N', 'N', -1, 2, 2, 2, 2, 2}, {"n", 'N', 'N', 2, -1, 2, 2, 2, 2}, {"k", 'N', 'N', 2, 2, -1, 2, 2, 2},
    {"lda", 'N', 'N', 3, 2, 2, 2, 2, 3}, {"lda", 'T', 'N', 2, 2, 3, 2, 3, 2}, {"ldb", 'N', 'N', 2, 2, 3, 2, 2, 2}, {"ldb", 'N', 'T', 2, 3, 2, 2, 2, 2}, {"ldc", 'N', 'N', 3, 2, 2, 3, 2, 2}, {"ldc", 'T', 'C', 3, 2, 2, 2, 2, 2}, {"lda0", 'N', 'N', 0, 2, 2, 0, 2, 1}};
  for (auto &b : bad) {
    string sig = strf("bml_gemm_internal|%s|invalid", PRECN[prec]); cx.cursig = sig;
    if (!cx.next([&] { return strf("bml_gemm_internal %s invalid argument %s: transa=%c transb=%c m=%d n=%d k=%d lda=%d ldb=%d ldc=%d", PRECN[prec], b.n, b.ta, b.tb, b.m, b.n_, b.k, b.lda, b.ldb, b.ldc); })) continue;
    Buf A(prec, 32), B(prec, 32), C(prec, 32), al(prec, 1), be(prec, 1); for (int i = 0; i < 32; i++) { A.set(i, i); B.set(i, 2 * i); C.set(i, 3 * i); } al.set(0, 2); be.set(0, 3);
    auto C0 = C.b; char ta[2] = {b.ta, 0}, tb[2] = {b.tb, 0};
    Outcome o = call([&] { GEMM[0][prec](ta, tb, &b.m, &b.n_, &b.k, al.p(), A.p(), &b.lda, B.p(), &b.ldb, be.p(), C.p(), &b.ldc); });
    cx.trans(); cx.nontrivial++;
    if (o != ERR) cx.fail(sig + "|accepted", strf("invalid argument %s was not reported as an error", b.n));
    else if (C.b != C0) cx.fail(sig + "|written", "C was modified although the call was refused");
    cx.end();
  }
}
static void c24(Groups &gs, const string &tier) {
  bool th = tier == "thorough"; int mx = th ? 5 : 3;
  ALLPREC gs.push_back({strf("gemm invalid %s", PRECN[prec]), [=](Ctx &cx) { gemm_bad(cx, prec); }, 1});
  for (int fn = 0; fn < 3; fn++) ALLPREC for (char ta : {'N', 'T', 'C'}) for (char tb : {'N', 'T', 'C'}) {
    // bml_gemm and bml_xsmm_gemm forward to the BLAS; the built-in code is bml_gemm_internal
    gs.push_back({strf("%s %s %c%c", GN[fn], PRECN[prec], ta, tb), [=](Ctx &cx) {
      bool cp = prec >= P_SC; int top = fn == 0 ? mx : 2;
      vector<cd> al = {0, 1, 2}, be = {0, 1, -3}; if (cp) { al.push_back(cd(1, -2)); be.push_back(cd(0, 1)); al.push_back(cd(0, 1)); } else { al.push_back(-1); al.push_back(0.5); be.push_back(-1); }
      for (int m = 0; m <= top; m++) for (int n = 0; n <= top; n++) for (int k = 0; k <= top; k++) for (cd a : al) for (cd b : be) {
        vector<int> pads = {0, 1, 2, 3, 4, 5, 6, 7};
        for (int p : pads) { if (fn && p != 0 && p != 7) continue; gemm_case(cx, {fn, prec, ta, tb, m, n, k, (p & 1) * (1 + (p == 7)), (p >> 1 & 1) * 2, (p >> 2 & 1) * 1, a, b, false}); if (b == cd(0) && (p == 0 || p == 7)) gemm_case(cx, {fn, prec, ta, tb, m, n, k, p & 1, p & 1, p & 1, a, b, true}); }
      }
      for (int d : {8, 9, 17}) { if (th || ta == tb) gemm_case(cx, {fn, prec, ta, tb, d, d - 1, d + 2, 1, 2, 3, 2, -3, false}); }
    }, th && fn == 0 ? 2 : 1});
  }
}
static PropReg r24("C24", c24);

// ---------------------------------------------------------------- C25
enum { K_ZERO, K_ID, K_BAND, K_RAND, K_NOINIT, K_NOINIT_RECT, NK };
static const char *KN[] = {"zero", "identity", "banded", "random", "noinit", "noinit_rectangular"};
extern "C" void hrand_seed(unsigned long);
static bool meta(Ctx &cx, void *A, const Cfg &c, int mode, const string &sig) {
  int t = 0, p = 0, n = 0, m = 0, dm = mode, dt = 0;
  Outcome o = call([&] { t = bml_get_type(A); p = bml_get_precision(A); n = bml_get_N(A); m = bml_get_M(A); dt = bml_get_deep_type(A); if (c.fmt != F_ELLBLOCK) dm = bml_get_distribution_mode(A); });
  if (!cx.ok(o, sig + "|introspection")) return false;
  if (t != c.fmt || dt != c.fmt) { cx.fail(sig + "|type", strf("type %d, requested %d", t, c.fmt)); return false; }
  if (p != c.prec) { cx.fail(sig + "|precision", strf("precision %d, requested %d", p, c.prec)); return false; }
  if (n != c.N) { cx.fail(sig + "|N", strf("N %d, requested %d", n, c.N)); return false; }
  int wm = c.fmt == F_DENSE ? c.N : c.M;
  if (c.fmt == F_CSR ? m < wm : m != wm) { cx.fail(sig + "|M", strf("M %d, requested %d", m, wm)); return false; }
  if (dm != mode) { cx.fail(sig + "|mode", strf("distribution mode %d, requested %d", dm, mode)); return false; }
  if (!bml_allocated(A)) { cx.fail(sig + "|allocated", "bml_allocated reports an existing matrix as unallocated"); return false; }
  return true;
}
static void ctor_case(Ctx &cx, const Cfg &c, int kind, int mode, unsigned long seed) {
  string sig = SIG(KN[kind]); cx.cursig = sig; int N = c.N;
  if (!cx.next([&] { return c.str() + strf(" construct %s mode=%d seed=%lu", KN[kind], mode, seed); })) return;
  hrand_seed(seed); void *A = 0;
  Outcome o = call([&] {
    switch (kind) {
      case K_ZERO: A = bml_zero_matrix(c.fmt, c.prec, N, c.M, mode); break; case K_ID: A = bml_identity_matrix(c.fmt, c.prec, N, c.M, mode); break;
      case K_BAND: A = bml_banded_matrix(c.fmt, c.prec, N, c.M, mode); break; case K_RAND: A = bml_random_matrix(c.fmt, c.prec, N, c.M, mode); break;
      case K_NOINIT: A = bml_noinit_matrix(c.fmt, c.prec, N, c.M, mode); bml_clear(A); break;
      case K_NOINIT_RECT: { bml_matrix_dimension_t d = {N, N, c.M, 0, 0}; A = bml_noinit_rectangular_matrix(c.fmt, c.prec, d, mode); bml_clear(A); }
    }
  });
  cx.trans();
  if (cx.ok(o, sig)) {
    if (!A) cx.fail(sig + "|null", "no matrix returned");
    else if (meta(cx, A, c, mode, sig) && expect_struct(cx, A, sig)) {
      cx.nontrivial++; Ref g;
      if (obs(cx, A, c, g, sig)) {
        if (kind == K_ZERO || kind >= K_NOINIT) full_check(cx, A, c, Ref(N), sig);
        else if (kind == K_ID) full_check(cx, A, c, r_id(N), sig);
        else {
          int lo0 = c.M / 2; bool bad = false;
          for (int i = 0; i < N && !bad; i++) {
            int nz = 0;
            for (int j = 0; j < N && !bad; j++) {
              cd v = g(i, j); bool in = j >= i - lo0 && j < i - lo0 + c.M; nz += v != cd(0);
              if (v.imag() != 0 || !(v.real() >= 0 && v.real() <= 1)) { cx.fail(sig + "|range", strf("element (%d,%d) = %g%+gi is not a random number in [0,1]", i, j, v.real(), v.imag())); bad = true; }
              else if (kind == K_BAND && in != (v != cd(0))) { cx.fail(sig + "|band", strf("element (%d,%d) = %g but the band of width %d %s it", i, j, v.real(), c.M, in ? "includes" : "excludes")); bad = true; }
            }
            if (bad) break;
            if (kind == K_RAND && c.fmt == F_DENSE && nz != N) { cx.fail(sig + "|full", strf("row %d of a random dense matrix has %d non-zeros of %d", i, nz, N)); bad = true; }
            else if (kind == K_RAND && (c.fmt == F_ELLPACK || c.fmt == F_CSR) && nz > c.M) { cx.fail(sig + "|capacity", strf("row %d has %d non-zeros, capacity %d", i, nz, c.M)); bad = true; }
            else if (kind == K_RAND && g(i, i) == cd(0)) { cx.fail(sig + "|diag", strf("diagonal element %d of a random matrix is zero", i)); bad = true; }
          }
          if (!bad) full_check(cx, A, c, g, sig);
        }
        // the new matrix is usable: every element can be overwritten in place of what the constructor stored, within capacity
        Ref w = kind == K_ZERO || kind >= K_NOINIT ? r_id(N) : g; Buf b(c.prec, 1);
        for (int i = 0; i < N; i++) w(i, i) = cd(i + 2);
        Outcome o2 = call([&] { for (int i = 0; i < N; i++) { b.set(0, i + 2); bml_set_element(A, i, i, b.p()); } });
        if (cx.ok(o2, sig + "|set")) expect_eq(cx, A, c, w, sig + "|set");
      }
    }
  }
  freem(A); cx.end();
}
static int cnt(const Ref &r, int i, double t) { int n = 0; for (int j = 0; j < r.n; j++) n += std::abs(r(i, j)) > t; return n; }
extern "C" { int layout_domain(void *A, bml_domain_t **d); }
static void intro_case(Ctx &cx, const Cfg &c, const Ref &A, int rec, const string &d) {
  string sig = SIG("introspect"); cx.cursig = sig; int N = c.N;
  if (!cx.next([&] { return c.str() + " introspect " + d + " A=" + r_str(A); })) return;
  void *a = mk(cx, c, A, rec); if (!a) return;
  cx.trans(); cx.nontrivial++;
  // stored zeros may count as stored entries of a sparse row
  bool exact = c.fmt == F_DENSE || (rec != 4); vector<char> st(N * N, 0); bool known = c.fmt != F_DENSE && layout_stored(a, st.data());
  meta(cx, a, c, D_SEQ, sig);
  if (c.fmt != F_ELLBLOCK) {
    int mx = 0, lomx = 0;
    for (int i = 0; i < N; i++) {
      int v = -9; Outcome o = call([&] { v = bml_get_row_bandwidth(a, i); }); if (!cx.ok(o, sig + "|row_bandwidth")) break;
      int nz = cnt(A, i, 0), hi = nz; if (!exact) { hi = N; if (known) { hi = 0; for (int j = 0; j < N; j++) hi += st[i * N + j]; } }
      if (v < nz || v > hi) { cx.fail(sig + "|row_bandwidth", strf("row %d: bandwidth %d, the row has %d non-zeros", i, v, nz)); break; }
      mx = std::max(mx, v);
    }
    int v = -9; Outcome o = call([&] { v = bml_get_bandwidth(a); });
    if (cx.ok(o, sig + "|bandwidth") && v != mx) cx.fail(sig + "|bandwidth", strf("bandwidth %d, largest row bandwidth %d", v, mx));
  }
  for (double t : {0.0, 1e-8, 2.5, 5.0, 1e3}) {
    int n = 0; for (int i = 0; i < N; i++) n += cnt(A, i, t);
    bool edge = false; for (auto &x : A.a) if (x != cd(0) && x.imag() != 0 && fabs(std::abs(x) - t) < 1e-5 * t) edge = true;
    if (edge) continue;
    double s = -9; Outcome o = call([&] { s = bml_get_sparsity(a, t); });
    if (!cx.ok(o, sig + "|sparsity")) break;
    expect_num(cx, s, 1.0 - (double)n / ((double)N * N), 4e-16, sig + strf("|sparsity"));
  }
  // the saved row partition comes back
  bml_domain_t *dm = 0; vector<long> before; auto fields = [&] { vector<long> v; if (layout_domain(a, &dm) && dm) for (int x : {dm->totalProcs, dm->totalRows, dm->totalCols, dm->globalRowMin, dm->globalRowMax, dm->globalRowExtent, dm->localRowMin[0], dm->localRowMax[0], dm->localRowExtent[0], dm->localElements[0], dm->localDispl[0]}) v.push_back(x); return v; };
  before = fields(); Outcome ds = call([&] { bml_save_domain(a); });
  if (ds != ERR || c.fmt == F_DENSE || c.fmt == F_ELLPACK) if (cx.ok(ds, sig + "|save_domain")) {
    if (before.size() && N > 1) { int lo = 1, hi = 1, nodes = N - 1; call([&] { bml_update_domain(a, &lo, &hi, &nodes); }); }
    if (cx.ok(call([&] { bml_restore_domain(a); }), sig + "|restore_domain") && before != fields()) cx.fail(sig + "|restore_domain", "the restored row partition is not the one that was saved");
  }
  expect_eq(cx, a, c, A, sig + "|unchanged");
  freem(a); cx.end();
}
static void c25(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  vector<Cfg> cs;
  for (int f = F_DENSE; f <= F_CSR; f++) ALLPREC for (int N = 1; N <= (th ? 24 : 13); N++) for (int M = 1; M <= N + 2; M++) {
    if (!th && N > 5 && M > 3 && M < N - 1 && M % 4 != N % 4) continue;
    if (f == F_ELLBLOCK && M > N) continue; // the block format requires M <= N
    Cfg c; c.fmt = f; c.prec = prec; c.N = N; c.M = M; cs.push_back(c);
  }
  for (auto &c : cs) gs.push_back({"construct|" + c.str(), [=](Ctx &cx) {
    if (c.fmt == F_ELLBLOCK) call([&] { void *x = bml_zero_matrix(c.fmt, c.prec, c.N, c.M, D_SEQ); bml_deallocate(&x); });
    for (int k = 0; k < NK; k++) for (int mode : {(int)D_SEQ, (int)D_DIST}) for (unsigned long s : {1ul, 7ul, 20ul}) { if (k != K_RAND && k != K_BAND && s != 1) continue; if (mode == D_DIST && (s != 1 || c.fmt == F_ELLBLOCK)) continue; ctor_case(cx, c, k, mode, s); }
  }, 1});
  add_groups(gs, tier, "introspect", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { each_unary(cx, c, true, [&](const Ref &A, int ra, const string &d) { intro_case(cx, c, A, ra, d); }); });
  add_groups(gs, tier, "introspect", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { intro_case(cx, c, A, ra, d); }); });
  add_groups(gs, tier, "introspect_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { for (int k = 0; k < NFAM; k++) { Ref A = family(c.N, k, c, 0); if (fits(c, pat_of(A))) for (int r = 0; r < 2; r++) intro_case(cx, c, A, r, FAMN[k]); } });
  // block construction with explicit blocks
  ALLPREC gs.push_back({strf("block|%s", PRECN[prec]), [=](Ctx &cx) {
    for (auto bs : vector<vector<int>>{{1}, {2}, {1, 1}, {2, 3}, {3, 1, 2}, {1, 4, 1, 2}, {5, 5}, {11, 2}}) for (int MB = 1; MB <= (int)bs.size(); MB++) {
      Cfg c; c.fmt = F_ELLBLOCK; c.prec = prec; c.bs = bs; c.MB = MB; c.N = 0; for (int b : bs) c.N += b;
      for (int M : {1, c.N}) {
        c.M = M; string sig = SIG("block"); cx.cursig = sig;
        if (!cx.next([&] { return c.str() + " bml_block_matrix"; })) continue;
        prewarm(c); void *A = 0; vector<int> b2 = bs; cx.live0 = g_live;
        Outcome o = call([&] { A = bml_block_matrix(F_ELLBLOCK, c.prec, bs.size(), MB, M, b2.data(), D_SEQ); });
        cx.trans(); cx.nontrivial++;
        if (cx.ok(o, sig) && A) {
          std::fill(b2.begin(), b2.end(), 999); // the caller's array is not referenced afterwards
          if (meta(cx, A, c, D_SEQ, sig)) { if (bml_get_NB(A) != (int)bs.size()) cx.fail(sig + "|NB", strf("NB %d, requested %zu", bml_get_NB(A), bs.size())); full_check(cx, A, c, Ref(c.N), sig);
            Ref w(c.N); Buf b(c.prec, 1); for (int i = 0; i < c.N; i++) w(i, i) = cd(i + 2);
            Outcome o2 = call([&] { for (int i = 0; i < c.N; i++) { b.set(0, i + 2); bml_set_element(A, i, i, b.p()); } });
            if (cx.ok(o2, sig + "|set")) expect_eq(cx, A, c, w, sig + "|set"); }
        }
        freem(A); cx.end();
      }
    }
  }, 1});
}
static PropReg r25("C25", c25);

// ---------------------------------------------------------------- C26
static void reo_case(Ctx &cx, const Cfg &c, const Ref &A, int rec, const vector<int> &perm, const string &d) {
  string sig = SIG("reorder"); cx.cursig = sig; int N = c.N;
  string ps; for (int p : perm) ps += strf("%d ", p);
  if (!cx.next([&] { return c.str() + " reorder perm=[" + ps + "] " + d + " A=" + r_str(A); })) return;
  void *a = mk(cx, c, A, rec); if (!a) return;
  vector<int> p = perm;
  Outcome o = call([&] { bml_reorder(a, p.data()); });
  cx.trans();
  if (o == ERR && c.fmt == F_CSR) return; // not implemented for csr: must refuse
  if (cx.ok(o, sig)) {
    vector<int> map(N); Cfg cc = c;
    if (c.fmt == F_ELLBLOCK) { // the permutation is over blocks
      int nb = c.bs.size(); cc.bs.assign(nb, 0); for (int b = 0; b < nb; b++) cc.bs[perm[b]] = c.bs[b];
      vector<int> off(nb + 1, 0); for (int b = 0; b < nb; b++) off[b + 1] = off[b] + cc.bs[b];
      int s = 0; for (int b = 0; b < nb; b++) { for (int k = 0; k < c.bs[b]; k++) map[s + k] = off[perm[b]] + k; s += c.bs[b]; }
    } else map = perm;
    Ref w(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w(map[i], map[j]) = A(i, j);
    if (!(w == A)) cx.nontrivial++;
    if (p != perm) cx.fail(sig + "|perm", "the caller's permutation was modified");
    if (full_check(cx, a, cc, w, sig)) {
      // reordering by the inverse restores the matrix
      vector<int> inv(perm.size()); for (size_t k = 0; k < perm.size(); k++) inv[perm[k]] = k;
      o = call([&] { bml_reorder(a, inv.data()); });
      if (cx.ok(o, sig + "|inverse")) expect_eq(cx, a, c, A, sig + "|inverse");
    }
  }
  freem(a); cx.end();
}
static void c26(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto perms = [](int n) { vector<vector<int>> o; vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; do o.push_back(p); while (std::next_permutation(p.begin(), p.end())); return o; };
  auto dim = [](const Cfg &c) { return c.fmt == F_ELLBLOCK ? (int)c.bs.size() : c.N; };
  vector<Cfg> sm, big; for (auto &c : cfgs(1, 3)) if (c.fmt != F_ELLBLOCK || c.bs.size()) sm.push_back(c);
  for (auto &c : bigcfgs(tier)) if (c.fmt != F_ELLBLOCK || c.bs.size()) big.push_back(c);
  for (auto &c : cfgs(4, 4)) if (c.fmt != F_ELLBLOCK || c.bs.size()) big.push_back(c);
  add_groups(gs, tier, "reorder", sm, [=](Ctx &cx, const Cfg &c) { each_unary(cx, c, true, [&](const Ref &A, int ra, const string &d) { int q = 0; for (auto &p : perms(dim(c))) { if (!th && c.N == 3 && c.fmt != F_ELLBLOCK && (q++ + ra) % 3) continue; reo_case(cx, c, A, ra, p, d); } }); });
  add_groups(gs, tier, "reorder", big, [=](Ctx &cx, const Cfg &c) {
    int n = dim(c); vector<vector<int>> ps;
    if (n <= 5) ps = perms(n);
    else { vector<int> id(n), rv(n), sh(n), tr(n), st(n); for (int i = 0; i < n; i++) { id[i] = tr[i] = i; rv[i] = n - 1 - i; sh[i] = (i + 1) % n; st[i] = (i * 5) % n; } std::swap(tr[0], tr[n - 1]); ps = {id, rv, sh, tr}; if (n % 5) ps.push_back(st); }
    for (auto &p : ps) each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { reo_case(cx, c, A, ra, p, d); });
  });
  add_groups(gs, tier, "reorder_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { for (auto &p : perms(dim(c))) for (int k = 0; k < NFAM; k++) { Ref A = family(c.N, k, c, 0); if (fits(c, pat_of(A))) reo_case(cx, c, A, k & 1, p, FAMN[k]); } });
}
static PropReg r26("C26", c26);

// ---------------------------------------------------------------- C28
static void refused(Ctx &cx, Outcome o, const string &sig, const string &what, bool assert_ok = false) {
  cx.trans(); cx.nontrivial++;
  if (o == OK) cx.fail(sig + "|accepted", what + " was not reported as an error");
  else if (o == ASSERTED && !assert_ok) cx.fail(sig + "|assert", what + " ended in a failed assertion instead of a reported error: " + g_errtext);
}
static void idx_misuse(Ctx &cx, const Cfg &c, const Ref &A, int rec) {
  int N = c.N; vector<int> ids; for (int i = -2; i <= N + 1; i++) ids.push_back(i); ids.push_back(1000000); ids.push_back(-1000000);
  auto in = [&](int i) { return i >= 0 && i < N; };
  auto one = [&](const string &op, const string &args, std::function<void(void *)> f) {
    string sig = SIG(op.c_str()); cx.cursig = sig;
    if (!cx.next([&] { return c.str() + " " + op + args + strf(" rec=%s A=", RECN[rec]) + r_str(A); })) return;
    void *a = mk(cx, c, A, rec); if (!a) return;
    Outcome o = call([&] { f(a); });
    refused(cx, o, sig, op + args); expect_eq(cx, a, c, A, sig + "|changed");
    freem(a); cx.end();
  };
  Buf v(c.prec, N + 2); for (int k = 0; k < N + 2; k++) v.set(k, k + 3);
  for (int i : ids) {
    for (int j : ids) if (!in(i) || !in(j)) {
      string a = strf("(%d,%d)", i, j);
      one("set_element", a, [&](void *m) { bml_set_element(m, i, j, v.p()); });
      one("set_element_new", a, [&](void *m) { bml_set_element_new(m, i, j, v.p()); });
      one("get_element", a, [&](void *m) { bml_get_element(m, i, j); });
      if (c.prec == P_SR) one("get_element_single_real", a, [&](void *m) { bml_get_element_single_real(m, i, j); });
      if (c.prec == P_DR) one("get_element_double_real", a, [&](void *m) { bml_get_element_double_real(m, i, j); });
      if (c.prec == P_SC) one("get_element_single_complex", a, [&](void *m) { bml_get_element_single_complex(m, i, j); });
      if (c.prec == P_DC) one("get_element_double_complex", a, [&](void *m) { bml_get_element_double_complex(m, i, j); });
    }
    if (!in(i)) {
      string a = strf("(%d)", i);
      one("set_row", a, [&](void *m) { bml_set_row(m, i, v.p(), 0.0); });
      one("get_row", a, [&](void *m) { bml_get_row(m, i); });
      one("get_row_bandwidth", a, [&](void *m) { bml_get_row_bandwidth(m, i); });
    }
  }
  string bad = "xyz01";
  for (char t : bad) { one("transpose_triangle", strf("('%c')", t), [&](void *m) { bml_transpose_triangle(m, t); }); char s[2] = {t, 0}; one("adjungate_triangle", strf("(\"%c\")", t), [&](void *m) { bml_adjungate_triangle(m, s); }); }
}
// uninitialized / NULL / unknown-type matrices
static void null_misuse(Ctx &cx) {
  struct N1 { const char *n; std::function<void(void *, void *)> f; };
  static int dummy[64]; static int idx[8]; static double dbl[8];
  vector<N1> ops = {
    {"add", [](void *x, void *g) { bml_add(x, g, 1, 1, 0); }}, {"add_norm", [](void *x, void *g) { bml_add_norm(x, g, 1, 1, 0); }}, {"add_identity", [](void *x, void *) { bml_add_identity(x, 1, 0); }},
    {"scale_add_identity", [](void *x, void *) { bml_scale_add_identity(x, 1, 1, 0); }}, {"adjungate", [](void *x, void *) { char t[] = "u"; bml_adjungate_triangle(x, t); }}, {"transpose_triangle", [](void *x, void *) { bml_transpose_triangle(x, 'u'); }},
    {"clear", [](void *x, void *) { bml_clear(x); }}, {"copy_new", [](void *x, void *) { bml_copy_new(x); }}, {"copy", [](void *x, void *g) { bml_copy(x, g); }}, {"reorder", [](void *x, void *) { bml_reorder(x, idx); }},
    {"diagonalize", [](void *x, void *g) { bml_diagonalize(x, dbl, g); }}, {"element_multiply", [](void *x, void *g) { bml_element_multiply_AB(x, g, g, 0); }}, {"export", [](void *x, void *) { bml_export_to_dense(x, ROWMAJ); }},
    {"get_element", [](void *x, void *) { bml_get_element(x, 0, 0); }}, {"get_row", [](void *x, void *) { bml_get_row(x, 0); }}, {"get_diagonal", [](void *x, void *) { bml_get_diagonal(x); }},
    {"row_bandwidth", [](void *x, void *) { bml_get_row_bandwidth(x, 0); }}, {"bandwidth", [](void *x, void *) { bml_get_bandwidth(x); }}, {"sparsity", [](void *x, void *) { bml_get_sparsity(x, 0); }}, {"distribution_mode", [](void *x, void *) { bml_get_distribution_mode(x); }},
    {"inverse", [](void *x, void *) { bml_inverse(x); }}, {"multiply", [](void *x, void *g) { bml_multiply(x, g, g, 1, 1, 0); }}, {"multiply_x2", [](void *x, void *g) { bml_multiply_x2(x, g, 0); }}, {"multiply_AB", [](void *x, void *g) { bml_multiply_AB(x, g, g, 0); }}, {"multiply_adjust_AB", [](void *x, void *g) { bml_multiply_adjust_AB(x, g, g, 0); }},
    {"sum_squares", [](void *x, void *) { bml_sum_squares(x); }}, {"sum_squares2", [](void *x, void *g) { bml_sum_squares2(x, g, 1, 1, 0); }}, {"sum_AB", [](void *x, void *g) { bml_sum_AB(x, g, 1, 0); }}, {"sum_squares_submatrix", [](void *x, void *) { bml_sum_squares_submatrix(x, 1); }},
    {"fnorm", [](void *x, void *) { bml_fnorm(x); }}, {"fnorm2", [](void *x, void *g) { bml_fnorm2(x, g); }}, {"normalize", [](void *x, void *) { bml_normalize(x, 0, 1); }}, {"gershgorin", [](void *x, void *) { bml_gershgorin(x); }}, {"gershgorin_partial", [](void *x, void *) { bml_gershgorin_partial(x, 1); }},
    {"scale_new", [](void *x, void *) { bml_scale_new(dbl, x); }}, {"scale", [](void *x, void *g) { bml_scale(dbl, x, g); }}, {"scale_inplace", [](void *x, void *) { bml_scale_inplace(dbl, x); }},
    {"set_element", [](void *x, void *) { bml_set_element(x, 0, 0, dbl); }}, {"set_element_new", [](void *x, void *) { bml_set_element_new(x, 0, 0, dbl); }}, {"set_row", [](void *x, void *) { bml_set_row(x, 0, dbl, 0); }}, {"set_diagonal", [](void *x, void *) { bml_set_diagonal(x, dbl, 0); }},
    {"threshold_new", [](void *x, void *) { bml_threshold_new(x, 0); }}, {"threshold", [](void *x, void *) { bml_threshold(x, 0); }}, {"trace", [](void *x, void *) { bml_trace(x); }}, {"trace_mult", [](void *x, void *g) { bml_trace_mult(x, g); }},
    {"transpose_new", [](void *x, void *) { bml_transpose_new(x); }}, {"transpose", [](void *x, void *) { bml_transpose(x); }}, {"print", [](void *x, void *) { bml_print_bml_matrix(x, 0, 1, 0, 1); }},
    {"convert", [](void *x, void *) { bml_convert(x, F_DENSE, P_DR, 2, D_SEQ); }}, {"extract_submatrix", [](void *x, void *) { bml_extract_submatrix(x, 0, 0, 1, 1); }}};
  for (auto &op : ops) for (int kind = 0; kind < 3; kind++) {
    const char *kn[] = {"NULL matrix", "uninitialized matrix", "unknown matrix type"};
    if (!strcmp(op.n, "export") && kind < 2) continue; // exporting no matrix returns no array
    string sig = strf("misuse|%s|%s", op.n, kn[kind]); cx.cursig = sig;
    if (!cx.next([&] { return strf("%s on a %s", op.n, kn[kind]); })) continue;
    Cfg c; c.N = c.M = 2; Ref A = pattern(2, 15, c, 0); void *g = mk(cx, c, A, 0); if (!g) continue;
    memset(dummy, 0, sizeof dummy); dummy[0] = kind == 1 ? F_UNINIT : 77; int keep[64]; memcpy(keep, dummy, sizeof dummy);
    Outcome o = call([&] { op.f(kind == 0 ? 0 : dummy, g); });
    refused(cx, o, sig, strf("%s on a %s", op.n, kn[kind]), kind == 0);
    if (memcmp(keep, dummy, sizeof dummy)) cx.fail(sig + "|changed", "the object was modified");
    expect_eq(cx, g, c, A, sig + "|changed");
    freem(g); cx.end();
  }
  // constructors with unknown formats or precisions
  for (int k = 0; k < 6; k++) for (int bad = 0; bad < 4; bad++) {
    int t = bad == 0 ? F_UNINIT : bad == 1 ? 9 : F_DENSE, p = bad == 2 ? P_UNINIT : bad == 3 ? 9 : P_DR;
    static const char *n[] = {"zero", "identity", "banded", "random", "noinit", "import"};
    for (int f = F_DENSE; f <= F_CSR; f++) {
      if (bad < 2 && f != F_DENSE) continue; if (bad >= 2) t = f;
      string sig = strf("misuse|construct_%s|%s", n[k], FMTN[t <= 5 ? t : 0]); cx.cursig = sig;
      if (!cx.next([&] { return strf("bml_%s with type %d precision %d", n[k], t, p); })) continue;
      void *x = 0; double dd[4] = {1, 2, 3, 4};
      Outcome o = call([&] { switch (k) { case 0: x = bml_zero_matrix(t, p, 2, 2, D_SEQ); break; case 1: x = bml_identity_matrix(t, p, 2, 2, D_SEQ); break; case 2: x = bml_banded_matrix(t, p, 2, 2, D_SEQ); break; case 3: x = bml_random_matrix(t, p, 2, 2, D_SEQ); break; case 4: x = bml_noinit_matrix(t, p, 2, 2, D_SEQ); break; case 5: x = bml_import_from_dense(t, p, ROWMAJ, 2, 2, dd, 0, D_SEQ); } });
      refused(cx, o, sig, strf("constructing %s with type %d precision %d", n[k], t, p)); cx.end();
    }
  }
}
// operations a format does not implement, and copies between different kinds of matrices
static void unsup(Ctx &cx, const Cfg &c) {
  auto one = [&](const char *op, std::function<void(void *)> f) {
    string sig = SIG(op); cx.cursig = sig; Ref A = family(c.N, 3, c, 0);
    if (!cx.next([&] { return c.str() + " unsupported operation " + op; })) return;
    void *a = mk(cx, c, A, 0); if (!a) return;
    Outcome o = call([&] { f(a); });
    cx.trans(); cx.nontrivial++;
    if (o == ASSERTED) cx.fail(sig + "|assert", string(op) + " ended in a failed assertion: " + g_errtext);
    if (o != OK) expect_eq(cx, a, c, A, sig + "|changed"); // refusing must not change the matrix; succeeding is judged elsewhere
    freem(a); cx.end();
  };
  vector<int> p; for (int i = 0; i < c.N; i++) p.push_back(i);
  one("get_data_ptr", [&](void *a) { bml_get_data_ptr(a); });
  one("row_bandwidth", [&](void *a) { bml_get_row_bandwidth(a, 0); });
  one("bandwidth", [&](void *a) { bml_get_bandwidth(a); });
  one("distribution_mode", [&](void *a) { bml_get_distribution_mode(a); });
  one("fnorm2", [&](void *a) { bml_fnorm2(a, a); });
  one("sum_squares_submatrix", [&](void *a) { bml_sum_squares_submatrix(a, 1); });
  one("reorder", [&](void *a) { bml_reorder(a, p.data()); });
}
static void copy_misuse(Ctx &cx) {
  vector<Cfg> kinds;
  for (int f = F_DENSE; f <= F_CSR; f++) ALLPREC for (int n = 2; n <= 3; n++) { Cfg c; c.fmt = f; c.prec = prec; c.N = c.M = n; if (f == F_ELLBLOCK) { c.bs = {1, n - 1}; } kinds.push_back(c); if (f == F_ELLBLOCK) { c.bs = {n}; kinds.push_back(c); } }
  for (auto &a : kinds) for (auto &b : kinds) {
    if (a.fmt == b.fmt && a.prec == b.prec && a.N == b.N) continue; // capacities and blockings: C10
    string sig = strf("copy|%s|%s", FMTN[a.fmt], FMTN[b.fmt]); cx.cursig = sig;
    if (!cx.next([&] { return "bml_copy from " + a.str() + " to " + b.str(); })) continue;
    prewarm(a); Ref A = family(a.N, 2, a, 0), B = family(b.N, 3, b, 4); void *x = mk(cx, a, A, 0), *y = mk(cx, b, B, 0); if (!x || !y) continue;
    cx.leakcheck = false;
    Outcome o = call([&] { bml_copy(x, y); });
    refused(cx, o, sig, "copy from " + a.str() + " to " + b.str(), true);
    expect_eq(cx, x, a, A, sig + "|source"); expect_eq(cx, y, b, B, sig + "|destination");
    freem(x); freem(y); cx.end(); cx.leakcheck = true;
  }
}
static void c28(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  add_groups(gs, tier, "index", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) {
    if (c.N < 3 || th) for (int r = 0; r < NRECIPE; r++) { Ref A = family(c.N, 2, c, 0), D = family(c.N, 1, c, 0), Z = Ref(c.N); for (auto &x : {A, D, Z}) if (recipe_ok(c, r, x)) { if (c.N == 3 && !th) continue; idx_misuse(cx, c, x, r); } }
    else for (int k : {0, 2, 3}) idx_misuse(cx, c, family(c.N, k, c, 0), k);
  });
  add_groups(gs, tier, "index_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { for (int k : {0, 1}) { Ref A = family(c.N, k, c, 0); if (fits(c, pat_of(A))) idx_misuse(cx, c, A, 0); } });
  add_groups(gs, tier, "index", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { if (c.N <= (th ? 13 : 8)) for (int k : {2, 3}) idx_misuse(cx, c, family(c.N, k, c, 0), 0); });
  add_groups(gs, tier, "unsupported", cfgs(2, 3), [=](Ctx &cx, const Cfg &c) { unsup(cx, c); });
  gs.push_back({"null", [](Ctx &cx) { null_misuse(cx); }, 1});
  gs.push_back({"copy", [](Ctx &cx) { copy_misuse(cx); }, 1});
}
static PropReg r28("C28", c28);
