// C06 thresholding, C07 transposition and triangle completion
#include "seq_gen.h"
#include <algorithm>

// values whose modulus is exact in both precisions
static cd tval(int i, int j, int seed, bool cplx) {
  static const double m[] = {1, 2, 3, 0.5, 4, 6, 5, 10, 13};
  static const cd z[] = {cd(3, 4), cd(0, 2), cd(-3, 0), cd(5, -12), cd(0.75, 1), cd(-6, -8), cd(0, -0.5), cd(1, 0), cd(4, 3)};
  int k = (i * 3 + j * 5 + seed) % 9;
  return cplx ? z[k] : cd(m[k] * ((i + j + seed) % 2 ? 1 : -1));
}
static Ref revalue(const Ref &r, int seed, bool cplx) { Ref o(r.n); for (int i = 0; i < r.n; i++) for (int j = 0; j < r.n; j++) if (r(i, j) != cd(0)) o(i, j) = tval(i, j, seed, cplx); return o; }

static void thr_case(Ctx &cx, const Cfg &c, const Ref &A, int rec, double thr, bool fresh, const string &d) {
  string sig = SIG(fresh ? "threshold_new" : "threshold"); cx.cursig = sig;
  if (!cx.next([&] { return c.str() + " op=" + (fresh ? "threshold_new " : "threshold ") + d + strf(" thr=%.17g A=", thr) + r_str(A); })) return;
  void *a = mk(cx, c, A, rec), *b = 0; if (!a) return;
  Outcome o = call([&] { if (fresh) b = bml_threshold_new(a, thr); else bml_threshold(a, thr); });
  cx.trans();
  if (cx.ok(o, sig)) {
    Ref want = A; bool nt = false;
    for (auto &x : want.a) if (x != cd(0)) { if (!(std::abs(x) > thr)) { x = cd(0); } nt = true; }
    if (nt) cx.nontrivial++;
    if (fresh) {
      expect_eq(cx, a, c, A, sig + "|source");
      if (!b) cx.fail(sig + "|null", "no matrix returned");
      else {
        if (bml_get_type(b) != c.fmt || bml_get_precision(b) != c.prec || bml_get_N(b) != c.N) cx.fail(sig + "|type", "type, precision or size of the new matrix differ from the source");
        full_check(cx, b, c, want, sig);
        // independence of the source
        call([&] { bml_clear(a); }); expect_eq(cx, b, c, want, sig + "|afterclear");
      }
    } else {
      full_check(cx, a, c, want, sig);
      call([&] { bml_threshold(a, thr); }); expect_eq(cx, a, c, want, sig + "|again");
    }
  }
  freem(a); freem(b); cx.end();
}
static void c06(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &P, int rec, const string &d, int sel) {
    Ref A = revalue(P, sel % 4, c.cplx());
    vector<double> ts = {0, 1e-3, 0.375, 0.5, 1, 2, 3, 5, 5.5, 10, 13, 1e3};
    if (!th) { vector<double> t2 = {0, ts[1 + sel % 11], ts[1 + (sel * 5 + 3) % 11], 5}; ts = t2; }
    for (double t : ts) for (int f = 0; f < 2; f++) thr_case(cx, c, A, rec, t, f, d);
  };
  add_groups(gs, tier, "threshold", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, true, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d, s++); }); }, th ? 2 : 1);
  add_groups(gs, tier, "threshold", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { for (int q = 0; q < 4; q++) body(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "threshold_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { int s = 0; for (int k = 0; k < NFAM; k++) { Ref A = family(c.N, k, c, 0); if (fits(c, pat_of(A))) for (int q = 0; q < 4; q++) body(cx, c, A, q & 1, FAMN[k], s++); } });
}
static PropReg r06("C06", c06);

enum { T_NEW, T_IN, T_TWICE, ADJ_U, ADJ_L, TT_U, TT_L };
static const char *TN[] = {"transpose_new", "transpose", "transpose_twice", "adjungate_upper", "adjungate_lower", "transpose_triangle_upper", "transpose_triangle_lower"};
static bool may_refuse(const Cfg &c, int op) { return (op >= TT_U && c.fmt != F_DENSE) || (op >= ADJ_U && (c.fmt == F_ELLBLOCK || c.fmt == F_CSR)); }
static void tr_case(Ctx &cx, const Cfg &c, const Ref &A, int rec, int op, const string &d) {
  string sig = SIG(TN[op]); cx.cursig = sig;
  Ref want = A;
  if (op == T_NEW || op == T_IN) want = r_tr(A);
  if (op >= ADJ_U) {
    bool up = op == ADJ_U || op == TT_U, cj = op <= ADJ_L;
    for (int i = 0; i < c.N; i++) for (int j = i + 1; j < c.N; j++) { if (up) want(j, i) = cj ? std::conj(A(i, j)) : A(i, j); else want(i, j) = cj ? std::conj(A(j, i)) : A(j, i); }
    if (!fits(c, pat_of(want))) return; // C18
    // the stored pattern may keep the entries of the triangle that is replaced
    Ref u = want; for (int k = 0; k < c.N * c.N; k++) if (A.a[k] != cd(0)) u.a[k] = cd(1);
    if (!fits(c, pat_of(u))) return;
  } else if (!fits(c, pat_of(r_tr(A)))) return;
  if (!cx.next([&] { return c.str() + " op=" + TN[op] + " " + d + " A=" + r_str(A); })) return;
  void *a = mk(cx, c, A, rec), *b = 0; if (!a) return;
  char t[2] = {0, 0}; t[0] = (op == ADJ_U || op == TT_U) ? 'u' : 'l';
  Outcome o = call([&] {
    switch (op) {
      case T_NEW: b = bml_transpose_new(a); break; case T_IN: bml_transpose(a); break; case T_TWICE: bml_transpose(a); bml_transpose(a); break;
      case ADJ_U: case ADJ_L: bml_adjungate_triangle(a, t); break; case TT_U: case TT_L: bml_transpose_triangle(a, t[0]); break;
    }
  });
  cx.trans();
  if (o == ERR && may_refuse(c, op)) return;
  if (cx.ok(o, sig)) {
    if (!(want == A)) cx.nontrivial++;
    if (op == T_NEW) {
      expect_eq(cx, a, c, A, sig + "|source");
      if (!b) cx.fail(sig + "|null", "no matrix returned");
      else {
        if (bml_get_type(b) != c.fmt || bml_get_precision(b) != c.prec || bml_get_N(b) != c.N) cx.fail(sig + "|type", "type, precision or size of the new matrix differ from the source");
        full_check(cx, b, c, want, sig); call([&] { bml_clear(a); }); expect_eq(cx, b, c, want, sig + "|afterclear");
      }
    } else full_check(cx, a, c, want, sig);
  }
  freem(a); freem(b); cx.end();
}
static void c07(Groups &gs, const string &tier) {
  bool th = tier == "thorough"; (void)th;
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &A, int rec, const string &d) { for (int op = T_NEW; op <= TT_L; op++) { if (op >= ADJ_U && may_refuse(c, op)) continue; tr_case(cx, c, A, rec, op, d); } };
  add_groups(gs, tier, "transpose", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) {
    each_unary(cx, c, true, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d); });
    // Hermitian, symmetric and structurally symmetric matrices: the completed triangle equals the old one
    for (unsigned long m : masks(c.N, true)) { Ref A = pattern(c.N, m, c, 2); for (int i = 0; i < c.N; i++) for (int j = 0; j < i; j++) A(i, j) = std::conj(A(j, i)); for (int rec = 0; rec < NRECIPE; rec++) if (recipe_ok(c, rec, A)) body(cx, c, A, rec, strf("hermitian mask=%lx rec=%s", m, RECN[rec])); }
  });
  if (th) {
    vector<Cfg> four; for (auto &c : cfgs(4, 4)) four.push_back(c);
    add_groups(gs, tier, "transpose4", four, [=](Ctx &cx, const Cfg &c) { // every 4x4 pattern, in-place transposition
      for (unsigned long m = 0; m < 65536; m++) { Ref A = pattern(4, m, c, 0); int rec = m % NRECIPE; if (!recipe_ok(c, rec, A)) rec = 0; tr_case(cx, c, A, rec, T_IN, strf("mask=%lx rec=%s", m, RECN[rec])); }
    }, 4);
  }
  add_groups(gs, tier, "transpose", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d); }); });
  add_groups(gs, tier, "transpose_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) {
    for (int k = 0; k < NFAM; k++) { Ref A = family(c.N, k, c, 0); if (fits(c, pat_of(A))) for (int rec : {0, 1, 2}) body(cx, c, A, rec, FAMN[k]); }
    // every placement of one entry per row (a permutation keeps the result within any capacity)
    if (c.fmt == F_ELLPACK || c.M == 2) { vector<int> p; for (int i = 0; i < c.N; i++) p.push_back(i); do { Ref A(c.N); for (int i = 0; i < c.N; i++) A(i, p[i]) = val(i, p[i], 0, c.cplx()); if (fits(c, pat_of(A))) body(cx, c, A, 0, "permutation"); } while (std::next_permutation(p.begin(), p.end())); }
    if (c.fmt == F_ELLBLOCK) for (unsigned long m = 0; m < 512; m++) for (int full = 0; full < 2; full++) { // every block pattern
      Ref A(c.N); for (int i = 0; i < c.N; i++) for (int j = 0; j < c.N; j++) { int bi = c.block_of(i), bj = c.block_of(j); if ((m >> (bi * 3 + bj) & 1) && (full || i == 0 || c.block_of(i - 1) != bi)) A(i, j) = val(i, j, 0, c.cplx()); }
      if (fits(c, pat_of(A)) && fits(c, pat_of(r_tr(A)))) for (int op = T_NEW; op <= T_TWICE; op++) tr_case(cx, c, A, full, op, strf("block mask=%lx full=%d", m, full));
    }
    if (c.fmt == F_ELLPACK) for (unsigned long m = 0; m < (1ul << 16); m += (th ? 1 : 7)) { Ref A = pattern(4, m, c, 0); if (fits(c, pat_of(A)) && fits(c, pat_of(r_tr(A)))) { tr_case(cx, c, A, 1, T_IN, strf("mask=%lx", m)); } }
  });
}
static PropReg r07("C07", c07);
