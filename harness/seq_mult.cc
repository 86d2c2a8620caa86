// C04 products, C05 element-wise product
#include "seq_gen.h"
#include <algorithm>

enum { MUL, AB, ADJ, X2 };
static const char *MN[] = {"multiply", "multiply_AB", "multiply_adjust_AB", "multiply_x2"};

// each entry of the result may be: exact; with the product entry dropped (|AB| <= thr); zero (|result| <= thr)
static bool mul_ok(Ctx &cx, void *C, const Cfg &c, const Ref &P, double al, double be, const Ref &C0, double thr, const string &sig, bool free_drop) {
  if (!expect_struct(cx, C, sig)) return false;
  Ref g; if (!obs(cx, C, c, g, sig)) return false;
  for (size_t k = 0; k < g.a.size(); k++) {
    cd full = al * P.a[k] + be * C0.a[k], part = be * C0.a[k], x = g.a[k];
    bool good = near(x, full, 0);
    if (!good && (thr > 0 || free_drop)) {
      if (free_drop) good = x == cd(0);
      else {
        if (std::abs(P.a[k]) <= thr && near(x, part, 0)) good = true;
        if (std::abs(full) <= thr && x == cd(0)) good = true;
        if (std::abs(P.a[k]) <= thr && std::abs(part) <= thr && x == cd(0)) good = true;
      }
    }
    if (!good) {
      cx.fail(sig + "|value", strf("element (%d,%d): got %.17g%+.17gi, exact %.17g%+.17gi, threshold %g; ", (int)(k / g.n), (int)(k % g.n), x.real(), x.imag(), full.real(), full.imag(), thr) + "got " + r_str(g) + " exact " + r_str(r_lin(P, C0, al, be)));
      return false;
    }
  }
  return true;
}

// the adaptive product: what is kept is exact, what is dropped is smaller than everything kept, and no more than needed is dropped.
// The unit is an element (ellpack) or a block (ellblock); units on the diagonal may always be kept.
static bool adaptive_ok(Ctx &cx, void *C, const Cfg &c, const Ref &P, double thr, const string &sig) {
  if (!expect_struct(cx, C, sig)) return false;
  Ref g; if (!obs(cx, C, c, g, sig)) return false;
  vector<int> bs = c.fmt == F_ELLBLOCK ? c.bs : vector<int>(c.N, 1); int nb = bs.size(), cap = c.fmt == F_ELLBLOCK ? c.MB ? c.MB : nb : c.M; vector<int> at(nb + 1, 0); for (int b = 0; b < nb; b++) at[b + 1] = at[b] + bs[b];
  vector<double> mag(nb * nb, 0); double maxdrop = -1, minkept = 1e300; int di = 0, dj = 0;
  for (int I = 0; I < nb; I++) for (int J = 0; J < nb; J++) {
    bool same = true, zero = true; for (int i = at[I]; i < at[I + 1]; i++) for (int j = at[J]; j < at[J + 1]; j++) { mag[I * nb + J] = std::max(mag[I * nb + J], std::abs(P(i, j))); same &= near(g(i, j), P(i, j), 0); zero &= g(i, j) == cd(0); }
    double m = mag[I * nb + J];
    if (!same && !zero) { cx.fail(sig + "|value", strf("part (%d,%d) of the product is neither exact nor dropped: got ", I, J) + r_str(g) + " exact " + r_str(P)); return false; }
    if (I == J || m == 0) continue;
    if (zero) { if (m > maxdrop) { maxdrop = m; di = I; dj = J; } } else minkept = std::min(minkept, m);
  }
  double best = thr; vector<double> cand = mag; cand.push_back(thr); std::sort(cand.begin(), cand.end());
  for (double T : cand) { if (T < thr) continue; best = T; bool ok = true; for (int I = 0; I < nb; I++) { int n = 1; for (int J = 0; J < nb; J++) if (I != J && mag[I * nb + J] > T) n++; ok &= n <= cap; } if (ok) break; }
  if (maxdrop > minkept) { cx.fail(sig + "|order", strf("part (%d,%d) of magnitude %g was dropped while one of magnitude %g was kept: got ", di, dj, maxdrop, minkept) + r_str(g) + " exact " + r_str(P)); return false; }
  if (maxdrop > 2 * best * 1.0001) { cx.fail(sig + "|overdrop", strf("part (%d,%d) of magnitude %g was dropped, a threshold of %g makes the rows fit: got ", di, dj, maxdrop, best) + r_str(g) + " exact " + r_str(P)); return false; }
  return true;
}

static void mul_case(Ctx &cx, const Cfg &c, int kind, const Ref &A, int ra, const Ref *B, int rb, const Ref &C0, int rc, double al, double be, double thr, const string &d, int caps = 0) {
  string sig = SIG(MN[kind]); cx.cursig = sig;
  Cfg ca = capvar(c, A, caps % 3), cb = B ? capvar(c, *B, caps / 3 % 3) : c, cc = c;
  if (caps >= 9) cc = capvar(c, Ref(c.N), 2);
  if (caps) { ra = recipe_ok(ca, ra, A) ? ra : 0; if (B) rb = recipe_ok(cb, rb, *B) ? rb : 0; }
  if (!cx.next([&] { return c.str() + (caps ? strf(" capA=%d/%d capB=%d/%d capC=%d/%d", ca.M, ca.MB, cb.M, cb.MB, cc.M, cc.MB) : string()) + " op=" + MN[kind] + " " + d + strf(" alpha=%g beta=%g thr=%g A=", al, be, thr) + r_str(A) + " B=" + (B ? r_str(*B) : string("A itself")) + " C(before)=" + r_str(C0) + "/" + RECN[rc]; })) return;
  void *a = mk(cx, ca, A, ra), *b = 0; if (!a) return;
  if (B) { b = mk(cx, cb, *B, rb); if (!b) return; }
  void *m = mk(cx, cc, C0, rc); if (!m) return;
  double *tr = 0;
  Outcome o = call([&] {
    switch (kind) {
      case MUL: bml_multiply(a, B ? b : a, m, al, be, thr); break;
      case AB: bml_multiply_AB(a, B ? b : a, m, thr); break;
      case ADJ: bml_multiply_adjust_AB(a, B ? b : a, m, thr); break;
      case X2: tr = (double *)bml_multiply_x2(a, m, thr); break;
    }
  });
  cx.trans();
  if (o == ERR && caps) return;
  if (cx.ok(o, sig)) {
    const Ref &BB = B ? *B : A; Ref P = r_mul(A, BB);
    bool drop = kind == ADJ && !fits(c, pat_of(P));
    if (kind != MUL) { al = 1; be = 0; }
    bool good = drop ? adaptive_ok(cx, m, cc, P, thr, sig) : mul_ok(cx, m, cc, P, al, be, C0, thr, sig, drop);
    if (kind == X2 && good && thr == 0) {
      if (!tr) cx.fail(sig + "|trace", "no traces returned");
      else { expect_num(cx, tr[0], r_trace(A).real(), 0, sig + "|traceX"); expect_num(cx, tr[1], r_trace(P).real(), 0, sig + "|traceX2"); }
    }
    if (tr) bml_free_memory(tr);
    expect_eq(cx, a, ca, A, sig + "|operandA"); if (b) expect_eq(cx, b, cb, *B, sig + "|operandB");
    for (auto &x : P.a) if (x != cd(0)) { cx.nontrivial++; break; }
  }
  freem(a); freem(b); freem(m); cx.end();
}

static void c04(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const Ref &B, int rb, const string &d, int sel, bool big) {
    // previous contents of C rotate through families and histories
    static const int fams[] = {0, 2, 6, 4, 1, 9};
    auto C0 = [&](int k, int &rc) { Ref r = family(c.N, fams[(sel + k) % 6], c, 7); if (!fits(c, pat_of(r))) r = Ref(c.N); rc = (sel * 3 + k) % NRECIPE; if (!recipe_ok(c, rc, r)) rc = 0; return r; };
    int rc, k = 0;
    static const double ab[][2] = {{1, 0}, {2, 1}, {-1, 0.5}, {1, 1}, {0, 2}, {0.5, 0}};
    int nab = th ? 6 : 3;
    for (int q = 0; q < nab; q++) { Ref r = C0(k++, rc); mul_case(cx, c, MUL, A, ra, &B, rb, r, rc, ab[q][0], ab[q][1], 0.0, d); }
    { Ref r = C0(k++, rc); mul_case(cx, c, MUL, A, ra, &B, rb, r, rc, 1, 1, 35.0, d); }
    { Ref r = C0(k++, rc); mul_case(cx, c, AB, A, ra, &B, rb, r, rc, 1, 0, 0.0, d); }
    { Ref r = C0(k++, rc); mul_case(cx, c, ADJ, A, ra, &B, rb, r, rc, 1, 0, 0.0, d); }
    if (has_caps(c)) for (int q = 0; q < (th ? 4 : 1); q++) { Ref r = C0(k++, rc); int cp = 1 + (sel + q * 7) % 17; mul_case(cx, c, sel % 3 ? MUL : sel % 2 ? AB : ADJ, A, ra, &B, rb, r, rc, 2, sel % 3 ? 1 : 0, 0.0, d, cp); }
    if (th || big) { Ref r = C0(k++, rc); mul_case(cx, c, AB, A, ra, &B, rb, r, rc, 1, 0, 35.0, d); }
    if (th || big) { Ref r = C0(k++, rc); mul_case(cx, c, ADJ, A, ra, &B, rb, r, rc, 1, 0, 35.0, d); }
  };
  auto sq = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, int sel) {
    int fams[] = {0, 2, 6, 1}; 
    for (int q = 0; q < (th ? 4 : 2); q++) {
      Ref r = family(c.N, fams[(sel + q) % 4], c, 7); int rc = (sel + q * 5) % NRECIPE; if (!recipe_ok(c, rc, r)) rc = 0;
      mul_case(cx, c, X2, A, ra, 0, 0, r, rc, 1, 0, 0.0, d); if (q == 0) mul_case(cx, c, X2, A, ra, 0, 0, r, rc, 1, 0, 35.0, d);
      mul_case(cx, c, MUL, A, ra, 0, 0, r, rc, 1, 0, 0.0, d); mul_case(cx, c, MUL, A, ra, 0, 0, r, rc, 2, -1, 0.0, d);
      for (auto &q2 : vector<std::pair<double, double>>{{-2, 0}, {1, 1}, {0, 1}, {0, 0}, {1, 0.5}}) mul_case(cx, c, MUL, A, ra, 0, 0, r, rc, q2.first, q2.second, 0.0, d);
      if (has_caps(c)) for (int cp : {1, 2, 9, 10}) { mul_case(cx, c, X2, A, ra, 0, 0, r, rc, 1, 0, 0.0, d, cp); mul_case(cx, c, MUL, A, ra, 0, 0, r, rc, 2, 0, 0.0, d, cp); }
      mul_case(cx, c, AB, A, ra, 0, 0, r, rc, 1, 0, 0.0, d);
    }
  };
  add_groups(gs, tier, "multiply", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_binary(cx, c, [&](const Ref &A, int ra, const Ref &B, int rb, const string &d) { body(cx, c, A, ra, B, rb, d, s++, false); }); }, th ? 4 : 1);
  add_groups(gs, tier, "multiply", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_binary(cx, c, [&](const Ref &A, int ra, const Ref &B, int rb, const string &d) { body(cx, c, A, ra, B, rb, d, s++, true); }); });
  add_groups(gs, tier, "square", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, th, [&](const Ref &A, int ra, const string &d) { sq(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "square", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { sq(cx, c, A, ra, d, s++); }); });
  // rows narrower than N whose product fits; and the adaptive product where it does not
  vector<Cfg> narrow = narrow_cfgs();
  add_groups(gs, tier, "multiply_narrow", narrow, [=](Ctx &cx, const Cfg &c) {
    for (int a = 0; a < NFAM; a++) for (int b = 0; b < NFAM; b++) {
      Ref A = family(c.N, a, c, 0), B = family(c.N, b, c, 4), P = r_mul(A, B); string d = strf("A=%s B=%s", FAMN[a], FAMN[b]);
      if (!fits(c, pat_of(A)) || !fits(c, pat_of(B))) continue;
      vector<char> st(P.a.size(), 0); for (int i = 0; i < c.N; i++) for (int k = 0; k < c.N; k++) if (A(i, k) != cd(0)) for (int j = 0; j < c.N; j++) if (B(k, j) != cd(0)) st[i * c.N + j] = 1;
      int fam = (a + b) % 2 ? 1 : 7; Ref C0 = family(c.N, fam, c, 7); if (!fits(c, pat_of(C0))) C0 = Ref(c.N);
      if (fits(c, st)) { mul_case(cx, c, AB, A, 0, &B, 1, C0, 0, 1, 0, 0.0, d); mul_case(cx, c, MUL, A, 1, &B, 0, Ref(c.N), 0, 2, 0, 0.0, d); mul_case(cx, c, MUL, A, 1, &B, 0, C0, 0, 1, 0, 0.0, d); if (a == b) { Ref AA = A; mul_case(cx, c, X2, A, 0, 0, 0, C0, 0, 1, 0, 0.0, d); } }
      mul_case(cx, c, ADJ, A, 0, &B, 1, C0, 0, 1, 0, 0.0, d);
    }
    // rows (of blocks) with every choice of at most as many columns as fit, so that products overflow in every way
    vector<int> bs = c.fmt == F_ELLBLOCK ? c.bs : vector<int>(c.N, 1); int nb = bs.size(), cap = c.fmt == F_ELLBLOCK ? c.MB : c.M; if (c.fmt == F_ELLBLOCK && bs.size() < 3) return;
    vector<int> at(1, 0), subs; for (int b : bs) at.push_back(at.back() + b); for (int m = 0; m < 1 << nb; m++) if (__builtin_popcount(m) <= cap) subs.push_back(m);
    long tot = 1; for (int b = 0; b < nb; b++) tot *= subs.size();
    auto make = [&](long code, int seed) { Ref r(c.N); for (int I = 0; I < nb; I++, code /= subs.size()) for (int J = 0; J < nb; J++) if (subs[code % subs.size()] >> J & 1) for (int i = at[I]; i < at[I + 1]; i++) for (int j = at[J]; j < at[J + 1]; j++) if (c.fmt != F_ELLBLOCK || (i + j + seed) % 3) r(i, j) = val(i, j, seed, c.cplx()); return r; };
    long na = th ? 2000 : 300, nbq = th ? 40 : 12; int sel = 0;
    for (long a = 0; a < std::min(tot, na); a++) for (long b = 0; b < nbq; b++) {
      long ca = tot <= na ? a : (long)((a * 2654435761ul + 97) % tot), cb = (long)((b * 40503ul * 65537ul + a * 7 + 13) % tot); Ref A = make(ca, 0), B = make(cb, 4); Ref C0 = make((ca * 3 + cb) % tot, 7); sel++;
      if (!fits(c, pat_of(A)) || !fits(c, pat_of(B)) || !fits(c, pat_of(C0))) continue;
      mul_case(cx, c, ADJ, A, 0, &B, 1, C0, 0, 1, 0, sel % 4 == 3 ? 35.0 : 0.0, strf("A=rows%ld B=rows%ld", ca, cb));
    }
  });
}
static PropReg r04("C04", c04);

static void em_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const Ref *B, int rb, const Ref &C0, int rc, double thr, const string &d, int caps = 0) {
  string sig = SIG("element_multiply"); cx.cursig = sig;
  Cfg ca = capvar(c, A, caps % 3), cb = B ? capvar(c, *B, caps / 3 % 3) : c, cc = c;
  if (caps >= 9) cc = capvar(c, Ref(c.N), 2);
  if (caps) { ra = recipe_ok(ca, ra, A) ? ra : 0; if (B) rb = recipe_ok(cb, rb, *B) ? rb : 0; }
  if (!cx.next([&] { return c.str() + (caps ? strf(" capA=%d/%d capB=%d/%d capC=%d/%d", ca.M, ca.MB, cb.M, cb.MB, cc.M, cc.MB) : string()) + " op=element_multiply_AB " + d + strf(" thr=%g A=", thr) + r_str(A) + " B=" + (B ? r_str(*B) : string("A itself")) + " C(before)=" + r_str(C0) + "/" + RECN[rc]; })) return;
  void *a = mk(cx, ca, A, ra), *b = 0; if (!a) return;
  if (B) { b = mk(cx, cb, *B, rb); if (!b) return; }
  void *m = mk(cx, cc, C0, rc); if (!m) return;
  Outcome o = call([&] { bml_element_multiply_AB(a, B ? b : a, m, thr); });
  cx.trans();
  if (o == ERR && (c.fmt == F_ELLBLOCK || caps)) return; // the block format refuses the operation
  if (cx.ok(o, sig)) {
    Ref P = r_had(A, B ? *B : A);
    expect_thr(cx, m, cc, P, thr, sig, false);
    expect_eq(cx, a, ca, A, sig + "|operandA"); if (b) expect_eq(cx, b, cb, *B, sig + "|operandB");
    for (auto &x : P.a) if (x != cd(0)) { cx.nontrivial++; break; }
  }
  freem(a); freem(b); freem(m); cx.end();
}
static void c05(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const Ref &B, int rb, const string &d, int sel) {
    static const int fams[] = {0, 2, 6, 4, 1, 9};
    for (int q = 0; q < (th ? 4 : 2); q++) {
      Ref r = family(c.N, fams[(sel + q) % 6], c, 7); int rc = (sel * 3 + q) % NRECIPE; if (!fits(c, pat_of(r)) || !recipe_ok(c, rc, r)) { r = Ref(c.N); rc = 0; }
      em_case(cx, c, A, ra, &B, rb, r, rc, 0.0, d); if (q == 0) { em_case(cx, c, A, ra, &B, rb, r, rc, 40.0, d); em_case(cx, c, A, ra, 0, 0, r, rc, 0.0, d); if (has_caps(c)) em_case(cx, c, A, ra, &B, rb, r, rc, 0.0, d, 1 + sel % 17); }
    }
  };
  add_groups(gs, tier, "element_multiply", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_binary(cx, c, [&](const Ref &A, int ra, const Ref &B, int rb, const string &d) { body(cx, c, A, ra, B, rb, d, s++); }); }, th ? 4 : 1);
  add_groups(gs, tier, "element_multiply", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_binary(cx, c, [&](const Ref &A, int ra, const Ref &B, int rb, const string &d) { body(cx, c, A, ra, B, rb, d, s++); }); });
  add_groups(gs, tier, "element_multiply_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) {
    for (int a = 0; a < NFAM; a++) for (int b = 0; b < NFAM; b++) {
      Ref A = family(c.N, a, c, 0), B = family(c.N, b, c, 4); if (!fits(c, pat_of(A)) || !fits(c, pat_of(B))) continue;
      Ref C0 = family(c.N, (a + b) % 2 ? 1 : 7, c, 7); if (!fits(c, pat_of(C0))) C0 = Ref(c.N);
      em_case(cx, c, A, 0, &B, 1, C0, 0, 0.0, strf("A=%s B=%s", FAMN[a], FAMN[b]));
    }
  });
}
static PropReg r05("C05", c05);
