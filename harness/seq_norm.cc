// C08 norms, inner products, traces; C12 Gershgorin bounds and normalization
#include "seq_gen.h"
#include <algorithm>
#include <map>
using std::map; using std::pair;
#include <float.h>

enum { SS, FN, TR, SUBM, SS2, SAB, FN2, TRM, NOPS };
static const char *ON[] = {"sum_squares", "fnorm", "trace", "sum_squares_submatrix", "sum_squares2", "sum_AB", "fnorm2", "trace_mult"};
static void norm_case(Ctx &cx, const Cfg &c, int op, const Ref &A, int ra, const Ref *B, int rb, double al, double be, double thr, int core, int capsel, const string &d) {
  string sig = SIG(ON[op]); cx.cursig = sig;
  Cfg ca = c, cb = c;
  if (capsel == 1 && B) cb = shrink(c, *B); if (capsel == 2) ca = shrink(c, A);
  if (!cx.next([&] { return c.str() + " op=" + ON[op] + " " + d + strf(" alpha=%g beta=%g thr=%g core=%d capA=%d/%d capB=%d/%d A=", al, be, thr, core, ca.M, ca.MB, cb.M, cb.MB) + r_str(A) + (B ? " B=" + r_str(*B) : op >= SS2 ? string(" B=A itself") : string()); })) return;
  void *a = mk(cx, ca, A, recipe_ok(ca, ra, A) ? ra : 0), *b = 0; if (!a) return;
  if (B) { b = mk(cx, cb, *B, recipe_ok(cb, rb, *B) ? rb : 0); if (!b) return; }
  double got = 0; void *bb = b ? b : a; const Ref &RB = B ? *B : A;
  Outcome o = call([&] {
    switch (op) {
      case SS: got = bml_sum_squares(a); break;
      case FN: got = bml_fnorm(a); break;
      case TR: got = bml_trace(a); break;
      case SUBM: got = bml_sum_squares_submatrix(a, core); break;
      case SS2: got = bml_sum_squares2(a, bb, al, be, thr); break;
      case SAB: got = bml_sum_AB(a, bb, al, thr); break;
      case FN2: got = bml_fnorm2(a, bb); break;
      case TRM: got = bml_trace_mult(a, bb); break;
    }
  });
  cx.trans();
  if (o == ERR && ((op == SUBM && c.fmt == F_ELLBLOCK) || (op == FN2 && (c.fmt == F_ELLBLOCK || c.fmt == F_CSR)) || (op >= SS2 && capsel))) { return; }
  if (cx.ok(o, sig)) {
    double want = 0, slack = 0; int n = c.N; bool nt = false, blk = true; // blk: it is known what is left out below the threshold
    auto add = [&](cd key, double v) { if (v != 0) nt = true; if (std::abs(key) > thr) want += v; else slack += blk ? 0 : fabs(v); };
    switch (op) {
      case SS: case FN: for (auto &x : A.a) add(1e300, std::norm(x)); if (op == FN) want = sqrt(want); break;
      case TR: for (int i = 0; i < n; i++) add(1e300, A(i, i).real()); break;
      case SUBM: for (int i = 0; i < core; i++) for (int j = 0; j < core; j++) add(1e300, std::norm(A(i, j))); break;
      case SS2: if (c.fmt == F_ELLBLOCK && thr > 0) { // a block is left out as a whole
          vector<int> at; if (c.bs.empty()) { blk = false; } else { for (size_t b = 0; b < c.bs.size(); b++) for (int q = 0; q < c.bs[b]; q++) at.push_back(b); map<pair<int, int>, double> m;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[{at[i], at[j]}] += std::norm(al * A(i, j) + be * RB(i, j)); for (auto &q : m) add(sqrt(q.second), q.second); break; } }
        for (size_t k = 0; k < A.a.size(); k++) { cd x = al * A.a[k] + be * RB.a[k]; add(thr > 0 ? x : cd(1e300), std::norm(x)); } break;
      case SAB: for (size_t k = 0; k < A.a.size(); k++) { cd x = al * A.a[k] * RB.a[k]; add(thr > 0 ? x : cd(1e300), x.real()); } break;
      case FN2: for (size_t k = 0; k < A.a.size(); k++) add(1e300, std::norm(A.a[k] - RB.a[k])); want = sqrt(want); break;
      case TRM: for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) add(1e300, (A(i, k) * RB(k, i)).real()); break;
    }
    if (nt) cx.nontrivial++;
    double tol = (c.N > LARGE_N ? c.N * c.N : 64) * c.eps(); // sums of N*N terms in single precision
    if (slack > 0) { if (!(std::isfinite(got) && fabs(got - want) <= slack + 1e-6 * (1 + fabs(want)))) cx.fail(sig + "|value", strf("returned %.17g, expected %.17g (elements at or below the threshold contribute at most %g)", got, want, slack)); }
    else expect_num(cx, got, want, tol, sig);
    expect_eq(cx, a, ca, A, sig + "|operandA"); if (b) expect_eq(cx, b, cb, *B, sig + "|operandB");
  }
  freem(a); freem(b); cx.end();
}
static void c08(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto un = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, int sel) {
    for (int cap = 0; cap <= 2; cap += 2) {
      if (cap && c.fmt != F_ELLPACK && c.fmt != F_ELLBLOCK) break;
      for (int op = SS; op <= TR; op++) norm_case(cx, c, op, A, ra, 0, 0, 1, 0, 0, 0, cap, d);
      if (c.fmt != F_ELLBLOCK) for (int k = 0; k <= c.N; k++) if (c.N <= 3 || k % 3 == sel % 3 || k == c.N) norm_case(cx, c, SUBM, A, ra, 0, 0, 1, 0, 0, k, cap, d);
    }
    for (int op : {SS2, SAB, FN2, TRM}) { if (op == FN2 && c.fmt != F_DENSE && c.fmt != F_ELLPACK) continue; norm_case(cx, c, op, A, ra, 0, 0, 2, -1, 0, 0, 0, d); }
  };
  auto bi = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const Ref &B, int rb, const string &d, int sel) {
    static const double ab[][2] = {{1, -1}, {2, 1}, {-1, 0.5}, {0, 1}, {1, 0}};
    int nab = th ? 5 : 2; 
    for (int q = 0; q < nab; q++) { int k = (sel + q) % 5; norm_case(cx, c, SS2, A, ra, &B, rb, ab[k][0], ab[k][1], 0, 0, 0, d); norm_case(cx, c, SAB, A, ra, &B, rb, ab[k][0] == 0 ? 3 : ab[k][0], 0, 0, 0, 0, d); }
    norm_case(cx, c, SS2, A, ra, &B, rb, sel % 2 ? 1 : 2, -1, 10.5, 0, 0, d); norm_case(cx, c, SAB, A, ra, &B, rb, sel % 2 ? -1 : 1, 0, 40.5, 0, 0, d);
    if (c.fmt == F_DENSE || c.fmt == F_ELLPACK) norm_case(cx, c, FN2, A, ra, &B, rb, 1, 0, 0, 0, 0, d);
    norm_case(cx, c, TRM, A, ra, &B, rb, 1, 0, 0, 0, 0, d);
    if (c.fmt == F_ELLPACK || c.fmt == F_ELLBLOCK) { int cap = 1 + sel % 2; for (int op : {SS2, SAB, FN2, TRM}) { if (op == FN2 && c.fmt == F_ELLBLOCK) continue; norm_case(cx, c, op, A, ra, &B, rb, 1, -1, 0, 0, cap, d); } }
  };
  add_groups(gs, tier, "norm1", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, true, [&](const Ref &A, int ra, const string &d) { un(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "norm2", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_binary(cx, c, [&](const Ref &A, int ra, const Ref &B, int rb, const string &d) { bi(cx, c, A, ra, B, rb, d, s++); }); }, th ? 4 : 1);
  add_groups(gs, tier, "norm1", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { un(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "norm2", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_binary(cx, c, [&](const Ref &A, int ra, const Ref &B, int rb, const string &d) { bi(cx, c, A, ra, B, rb, d, s++); }); });
}
static PropReg r08("C08", c08);

// ------------------------------------------------------------------ C12
static void ger_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, int op, int k, const string &d) {
  static const char *GN[] = {"gershgorin", "gershgorin_partial", "accumulate_offdiag"};
  string sig = SIG(GN[op]); cx.cursig = sig;
  if (!cx.next([&] { return c.str() + " op=" + GN[op] + " " + d + strf(" arg=%d A=", k) + r_str(A); })) return;
  void *a = mk(cx, c, A, ra); if (!a) return;
  void *r = 0;
  Outcome o = call([&] { r = op == 0 ? bml_gershgorin(a) : op == 1 ? bml_gershgorin_partial(a, k) : bml_accumulate_offdiag(a, k); });
  cx.trans();
  if (o == ERR && op == 1 && c.fmt == F_ELLBLOCK) return;
  if (cx.ok(o, sig)) {
    int n = c.N; double tol = c.cplx() ? 8 * c.eps() * (1 + n) : 0;
    if (!r) cx.fail(sig + "|null", "nothing returned");
    else {
      double mn = DBL_MAX, mx = -DBL_MAX, mag = 0; vector<double> off(n, 0), all(n, 0);
      for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { all[i] += std::abs(A(i, j)); if (i != j) off[i] += std::abs(A(i, j)); } mag = std::max(mag, all[i]); }
      for (int i = 0; i < (op == 1 ? k : n); i++) { mn = std::min(mn, A(i, i).real() - off[i]); mx = std::max(mx, A(i, i).real() + off[i]); }
      cx.nontrivial++;
      if (op == 2) { for (int i = 0; i < n; i++) { cd g = elem_get(r, c.prec, i); double w = k ? all[i] : off[i]; if (!(fabs(g.real() - w) <= tol * (1 + mag)) || g.imag() != 0) { cx.fail(sig + "|value", strf("row %d: got %.17g, expected %.17g", i, g.real(), w)); break; } } }
      else { const double *e = (double *)r; if (!(fabs(e[0] - mn) <= tol * (1 + mag)) || !(fabs(e[1] - mx) <= tol * (1 + mag))) cx.fail(sig + "|value", strf("bounds [%.17g, %.17g], expected [%.17g, %.17g]", e[0], e[1], mn, mx)); }
      if (op == 2) free(r); else bml_free_memory(r);
    }
    expect_eq(cx, a, c, A, sig + "|operand");
  }
  freem(a); cx.end();
}
static void nrm_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, double mn, double mx, const string &d) {
  string sig = SIG("normalize"); cx.cursig = sig;
  if (!cx.next([&] { return c.str() + " op=normalize " + d + strf(" min=%g max=%g A=", mn, mx) + r_str(A); })) return;
  void *a = mk(cx, c, A, ra); if (!a) return;
  bool g = mn > mx; // use the routine's own bounds
  Outcome o = call([&] { if (g) { double *e = (double *)bml_gershgorin(a); mn = e[0]; mx = e[1]; bml_free_memory(e); } if (mx > mn) bml_normalize(a, mn, mx); });
  cx.trans();
  if (cx.ok(o, sig) && mx > mn) {
    Ref w = A; for (auto &x : w.a) x = -x / (mx - mn); for (int i = 0; i < c.N; i++) w(i, i) += mx / (mx - mn);
    double tol = 8 * c.eps() * (1 + (fabs(mx) + fabs(mn)) / (mx - mn));
    full_check(cx, a, c, w, sig, tol); cx.nontrivial++;
  }
  freem(a); cx.end();
}
static void c12(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &A0, int ra, const string &d, int sel) {
    // every sign class: as is, all diagonal shifted below / above the radii
    for (int sh = 0; sh < 3; sh++) {
      Ref A = A0; if (sh) { for (int i = 0; i < c.N; i++) A(i, i) += sh == 1 ? -600.0 : 600.0; if (!fits(c, pat_of(A))) continue; }
      int rec = recipe_ok(c, ra, A) ? ra : 0; string dd = d + strf(" shift=%d", sh);
      ger_case(cx, c, A, rec, 0, 0, dd);
      if (c.fmt != F_ELLBLOCK) for (int k = 1; k <= c.N; k++) if (c.N <= 3 || k % 3 == sel % 3 || k == c.N) ger_case(cx, c, A, rec, 1, k, dd);
      for (int f = 0; f < 2; f++) ger_case(cx, c, A, rec, 2, f, dd);
      vector<char> p = pat_of(A); for (int i = 0; i < c.N; i++) p[i * c.N + i] = 1;
      if (!fits(c, p)) continue;
      static const double mm[][2] = {{-4, 4}, {0, 16}, {-6, -4}, {3, 5}, {-1, 0}};
      for (int q = 0; q < (th ? 5 : 2); q++) { auto &m = mm[(sel + q) % 5]; nrm_case(cx, c, A, rec, m[0], m[1], dd); }
      nrm_case(cx, c, A, rec, 1, 0, dd);
    }
  };
  add_groups(gs, tier, "gershgorin", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, true, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d, s++); }); }, th ? 2 : 1);
  add_groups(gs, tier, "gershgorin", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "gershgorin_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { int s = 0; for (int k = 0; k < NFAM; k++) { Ref A = family(c.N, k, c, 0); if (fits(c, pat_of(A))) body(cx, c, A, k & 1, FAMN[k], s++); } });
}
static PropReg r12("C12", c12);
