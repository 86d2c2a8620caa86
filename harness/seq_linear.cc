// C02 linear combinations, C03 scaling
#include "seq_gen.h"

static void lin_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const Ref &B, int rb, const string &d, bool norm, double al, double be, double thr, int caps = 0) {
  const char *op = norm ? "add_norm" : "add"; string sig = SIG(op); cx.cursig = sig;
  Cfg ca = c, cb = capvar(c, B, caps); if (caps == 3) { ca = capvar(c, r_lin(A, B, 1e3, 1), 1); cb = c; } // 3: A just holds the result
  if (caps) { ra = recipe_ok(ca, ra, A) ? ra : 0; rb = recipe_ok(cb, rb, B) ? rb : 0; if (!fits(ca, pat_of(A))) return; vector<char> u = pat_of(A), v = pat_of(B); for (size_t k = 0; k < u.size(); k++) u[k] |= v[k]; if (!fits(ca, u)) return; }
  if (!cx.next([&] { return c.str() + " op=" + op + " " + d + strf(" alpha=%g beta=%g thr=%g capA=%d/%d capB=%d/%d A=", al, be, thr, ca.M, ca.MB, cb.M, cb.MB) + r_str(A) + " B=" + r_str(B); })) return;
  void *a = mk(cx, ca, A, ra); if (!a) return; void *b = mk(cx, cb, B, rb); if (!b) return;
  
  Outcome o = call([&] { if (norm) bml_add_norm(a, b, al, be, thr); else bml_add(a, b, al, be, thr); });
  cx.trans();
  if (cx.ok(o, sig)) {
    expect_thr(cx, a, ca, r_lin(A, B, al, be), thr, sig, c.fmt == F_ELLPACK || c.fmt == F_CSR);
    expect_eq(cx, b, cb, B, sig + "|operand");
    if (r_lin(A, B, al, be).a != Ref(c.N).a) cx.nontrivial++;
  }
  freem(a); freem(b); cx.end();
}
static void ident_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, bool scaled, double al, double be, double thr) {
  const char *op = scaled ? "scale_add_identity" : "add_identity"; string sig = SIG(op); cx.cursig = sig;
  if (!cx.next([&] { return c.str() + " op=" + op + " " + d + strf(" alpha=%g beta=%g thr=%g A=", al, be, thr) + r_str(A); })) return;
  void *a = mk(cx, c, A, ra); if (!a) return;
  Outcome o = call([&] { if (scaled) bml_scale_add_identity(a, al, be, thr); else bml_add_identity(a, be, thr); });
  cx.trans();
  if (cx.ok(o, sig)) { expect_thr(cx, a, c, r_lin(A, r_id(c.N), scaled ? al : 1.0, be), thr, sig, false); cx.nontrivial++; }
  freem(a); cx.end();
}
// entries at most the threshold may be dropped from either the matrix being updated or the result
static void c02(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto ab = th ? vector<std::pair<double, double>>{{1, 1}, {1, -1}, {0, 1}, {2, 0.5}, {-2, 0}, {0.5, 3}, {1, 0}} : vector<std::pair<double, double>>{{1, 1}, {2, -0.5}, {0, 3}};
  for (int norm = 0; norm < 2; norm++) {
    add_groups(gs, tier, norm ? "add_norm" : "add", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) {
      if (norm && c.fmt == F_CSR) { // documented as not implemented: must refuse
        if (!cx.next([&] { return c.str() + " op=add_norm"; })) return;
        void *a = mk_zero(c), *b = mk_zero(c); Outcome o = call([&] { bml_add_norm(a, b, 1, 1, 0); });
        cx.trans(); if (o == OK) { Ref A(c.N); expect_eq(cx, a, c, A, SIG("add_norm")); }
        return;
      }
      each_binary(cx, c, [&](const Ref &A, int ra, const Ref &B, int rb, const string &d) {
        for (auto &p : ab) { lin_case(cx, c, A, ra, B, rb, d, norm, p.first, p.second, 0.0); if (th || p.first == 1) lin_case(cx, c, A, ra, B, rb, d, norm, p.first, p.second, 9.5); }
        if (cx.thorough) lin_case(cx, c, A, ra, B, rb, d, norm, 1, 1, 13.0);
        if (has_caps(c)) for (int cp = 1; cp <= 3; cp++) lin_case(cx, c, A, ra, B, rb, d, norm, 2, -1, 0.0, cp);
      });
    }, th ? 4 : 1);
    add_groups(gs, tier, norm ? "add_norm" : "add", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) {
      if (norm && c.fmt == F_CSR) return;
      each_big_binary(cx, c, [&](const Ref &A, int ra, const Ref &B, int rb, const string &d) { lin_case(cx, c, A, ra, B, rb, d, norm, 2, -1, 0.0); });
    });
  }
  for (int sc = 0; sc < 2; sc++) {
    auto body = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d) {
      for (double be : th ? vector<double>{0, 1, -3, 0.5} : vector<double>{1, -3}) for (double al : sc ? (th ? vector<double>{0, 1, 2, -0.5} : vector<double>{2, -0.5}) : vector<double>{1}) {
        ident_case(cx, c, A, ra, d, sc, al, be, 0.0); if (th) ident_case(cx, c, A, ra, d, sc, al, be, 2.5);
      }
      // beta cancels the first diagonal entry
      if (A(0, 0) != cd(0)) ident_case(cx, c, A, ra, d, sc, 1, -A(0, 0).real(), 0.0);
    };
    add_groups(gs, tier, sc ? "scale_add_identity" : "add_identity", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { each_unary(cx, c, th, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d); }); });
    add_groups(gs, tier, sc ? "scale_add_identity" : "add_identity", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d); }); });
  }
  // rows narrower than N (M<N) whose result still fits
  vector<Cfg> narrow; for (int f : {F_ELLPACK, F_ELLBLOCK}) ALLPREC { Cfg c; c.fmt = f; c.prec = prec; c.N = f == F_ELLPACK ? 3 : 6; c.M = f == F_ELLPACK ? 2 : 4; if (f == F_ELLBLOCK) { c.bs = {2, 2, 2}; c.MB = 2; } narrow.push_back(c); }
  add_groups(gs, tier, "add_narrow", narrow, [=](Ctx &cx, const Cfg &c) {
    for (int a = 0; a < NFAM; a++) for (int b = 0; b < NFAM; b++) {
      Ref A = family(c.N, a, c, 0), B = family(c.N, b, c, 4); vector<char> pa = pat_of(A), pb = pat_of(B), u(pa.size()), v(pa.size());
      for (size_t k = 0; k < u.size(); k++) { u[k] = pa[k] | pb[k]; v[k] = pa[k]; } for (int i = 0; i < c.N; i++) v[i * c.N + i] = 1;
      if (fits(c, pa) && fits(c, pb) && fits(c, u)) for (int ra : {0, 1, 2}) for (int norm = 0; norm < 2; norm++) lin_case(cx, c, A, ra, B, 0, strf("A=%s B=%s", FAMN[a], FAMN[b]), norm, 2, -1, 0.0);
      if (b == 0 && fits(c, pa) && fits(c, v)) for (int ra : {0, 1, 2}) { ident_case(cx, c, A, ra, FAMN[a], 0, 1, 2, 0.0); ident_case(cx, c, A, ra, FAMN[a], 1, -2, 3, 0.0); }
    }
  });
}
static PropReg r02("C02", c02);

static void scale_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, cd s, int how, const Ref *B, int rb, int caps = 0) {
  const char *ops[] = {"scale_inplace", "scale_new", "scale", "scale_self"}; const char *op = ops[how]; string sig = SIG(op); cx.cursig = sig;
  Cfg ca = capvar(c, A, caps % 3), cb = c; if (B && caps >= 3) { cb = capvar(c, A, 1); if (!fits(cb, pat_of(*B))) return; rb = recipe_ok(cb, rb, *B) ? rb : 0; }
  if (caps) ra = recipe_ok(ca, ra, A) ? ra : 0;
  if (!cx.next([&] { return c.str() + strf(" capA=%d/%d capB=%d/%d", ca.M, ca.MB, cb.M, cb.MB) + " op=" + op + " " + d + strf(" factor=%g%+gi A=", s.real(), s.imag()) + r_str(A) + (B ? " B(before)=" + r_str(*B) : ""); })) return;
  void *a = mk(cx, ca, A, ra), *b = 0; if (!a) return;
  if (how == 2) { b = mk(cx, cb, *B, rb); if (!b) return; }
  Buf f(c.prec, 1); f.set(0, s); 
  Outcome o = call([&] { if (how == 0) bml_scale_inplace(f.p(), a); else if (how == 1) b = bml_scale_new(f.p(), a); else if (how == 2) bml_scale(f.p(), a, b); else bml_scale(f.p(), a, a); });
  cx.trans();
  if (o == ERR && caps && how == 2) return;
  if (cx.ok(o, sig)) {
    void *res = (how == 0 || how == 3) ? a : b;
    expect_eq(cx, res, how == 2 ? cb : ca, r_scale(A, s), sig);
    if (how == 1 || how == 2) expect_eq(cx, a, ca, A, sig + "|operand");
    cx.nontrivial++;
  }
  freem(a); freem(b); cx.end();
}
static void c03(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d) {
    vector<cd> fs = {2, -0.5, 1, 0}; if (th) fs.push_back(-1); if (c.cplx()) { fs.push_back(cd(1, -2)); fs.push_back(cd(0, 1)); }
    for (cd s : fs) {
      scale_case(cx, c, A, ra, d, s, 0, 0, 0); scale_case(cx, c, A, ra, d, s, 1, 0, 0); scale_case(cx, c, A, ra, d, s, 3, 0, 0);
      int k = 0; for (int fam : {0, 2, 6, 1}) { Ref B = family(c.N, fam, c, 5); int rb = (ra + k++) % NRECIPE; if (recipe_ok(c, rb, B) && fits(c, pat_of(B))) { scale_case(cx, c, A, ra, d, s, 2, &B, rb); if (has_caps(c)) for (int cp : {1, 2, 3, 5}) scale_case(cx, c, A, ra, d, s, 2, &B, rb, cp); } }
      if (has_caps(c)) for (int h : {0, 1, 3}) scale_case(cx, c, A, ra, d, s, h, 0, 0, 1);
    }
  };
  add_groups(gs, tier, "scale", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { each_unary(cx, c, th, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d); }); });
  add_groups(gs, tier, "scale", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d); }); });
}
static PropReg r03("C03", c03);
