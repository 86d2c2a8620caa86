// C09 import/export/convert, C10 copies and resource release, C14 block extraction and assignment
#include "seq_gen.h"
#include <algorithm>

static Ref cast(const Ref &r, int prec) { Ref o = r; for (auto &x : o.a) { x = rnd(prec, x); if (prec < P_SC) x = x.real(); } return o; }
static void imp_case(Ctx &cx, const Cfg &c, const Ref &A, int order, double thr, const string &d) {
  string sig = SIG("import"); cx.cursig = sig; int N = c.N;
  if (!cx.next([&] { return c.str() + strf(" op=import order=%s thr=%g ", order ? "column-major" : "row-major", thr) + d + " A=" + r_str(A); })) return;
  Buf b(c.prec, (size_t)N * N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) b.set(order ? (size_t)j * N + i : (size_t)i * N + j, A(i, j));
  vector<char> keep = b.b;
  void *a = 0; Outcome o = call([&] { a = bml_import_from_dense(c.fmt, c.prec, order, N, c.M, b.p(), thr, D_SEQ); });
  cx.trans();
  if (cx.ok(o, sig)) {
    if (!a) cx.fail(sig + "|null", "no matrix returned");
    else {
      if (bml_get_type(a) != c.fmt || bml_get_precision(a) != c.prec || bml_get_N(a) != N) cx.fail(sig + "|kind", strf("type %d precision %d N %d", bml_get_type(a), bml_get_precision(a), bml_get_N(a)));
      if (thr == 0) full_check(cx, a, c, A, sig); else expect_thr(cx, a, c, A, thr, sig, c.fmt == F_ELLPACK || c.fmt == F_CSR);
      if (b.b != keep) cx.fail(sig + "|operand", "the imported array was changed");
    }
    cx.nontrivial++;
  }
  freem(a); cx.end();
}
// convert a matrix built by any history to (fmt2, prec2, M2)
static void cvt_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, int f2, int p2, int M2, const string &d, bool cold = false) {
  string sig = strf("convert|%s->%s|%s->%s", FMTN[c.fmt], FMTN[f2], PRECN[c.prec], PRECN[p2]); cx.cursig = sig;
  if (!cx.next([&] { return c.str() + strf(" op=convert to %s %s M=%d ", FMTN[f2], PRECN[p2], M2) + d + " A=" + r_str(A); })) return;
  if (f2 == F_ELLBLOCK && cold) cx.leakcheck = false; // the first block matrix of a process leaves the default block sizes allocated
  void *a = mk(cx, c, A, ra), *b = 0; if (!a) return;
  Outcome o = call([&] { b = bml_convert(a, f2, p2, M2, D_SEQ); });
  cx.trans();
  if (cx.ok(o, sig)) {
    Cfg e = c; e.fmt = f2; e.prec = p2; e.M = M2;
    if (!b) cx.fail(sig + "|null", "no matrix returned");
    else if (bml_get_type(b) != f2 || bml_get_precision(b) != p2 || bml_get_N(b) != c.N) cx.fail(sig + "|kind", strf("type %d precision %d N %d", bml_get_type(b), bml_get_precision(b), bml_get_N(b)));
    else full_check(cx, b, e, cast(A, p2), sig);
    expect_eq(cx, a, c, A, sig + "|operand"); cx.nontrivial++;
  }
  freem(a); freem(b); cx.end();
}
static void c09(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto imp = [=](Ctx &cx, const Cfg &c, const Ref &A, const string &d) {
    // fractional values as well: element sizes and roundings
    vector<double> mags; for (auto &x : A.a) if (x != cd(0)) mags.push_back(std::abs(x));
    std::sort(mags.begin(), mags.end()); mags.erase(std::unique(mags.begin(), mags.end()), mags.end());
    vector<double> thr = {0.0}; if (!mags.empty()) { thr.push_back(mags[mags.size() / 2]); thr.push_back(mags[0] * 0.5); thr.push_back(mags.back() + 1); if (th) for (double m : mags) { thr.push_back(m); thr.push_back(m * 1.01); } }
    for (double &t : thr) if (t != floor(t)) t = floor(t * 64 + 1) / 64; // clear of rounding, or exactly on an integer magnitude
    for (int order = 0; order < 2; order++) for (double t : thr) imp_case(cx, c, A, order, t, d);
    Ref F = r_scale(A, 0.1); F = cast(F, c.prec); for (int order = 0; order < 2; order++) imp_case(cx, c, F, order, 0.0, d + " x0.1");
  };
  auto cvt = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, int sel) {
    Ref F = cast(r_scale(A, 0.1), c.prec); // not representable: rounding to the target precision is visible
    for (int f2 = F_DENSE; f2 <= F_CSR; f2++) for (int p2 = P_SR; p2 <= P_DC; p2++) {
      Cfg e = c; e.fmt = f2; e.prec = p2;
      cvt_case(cx, c, (sel + p2) % 2 ? A : F, ra, f2, p2, c.N, d, f2 == F_ELLBLOCK && sel == 0);
      if (f2 == F_ELLPACK) { e.MB = 0; e.bs.clear(); e.M = c.N; Cfg s = shrink(e, A); if (s.M < c.N) cvt_case(cx, c, A, ra, f2, p2, s.M, d); cvt_case(cx, c, A, ra, f2, p2, c.N + 2, d); }
    }
  };
  add_groups(gs, tier, "import", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { for (unsigned long m : masks(c.N, true)) { Ref A = pattern(c.N, m, c, 0); imp(cx, c, A, strf("mask=%lx", m)); } });
  add_groups(gs, tier, "import", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { for (int k : fams(c)) { Ref A = family(c.N, k, c, 0); if (fits(c, pat_of(A))) imp(cx, c, A, FAMN[k]); } });
  add_groups(gs, tier, "import_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { for (int k = 0; k < NFAM; k++) { Ref A = family(c.N, k, c, 0); if (fits(c, pat_of(A))) imp(cx, c, A, FAMN[k]); } });
  add_groups(gs, tier, "convert", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, th, [&](const Ref &A, int ra, const string &d) { cvt(cx, c, A, ra, d, s++); }); }, th ? 4 : 1);
  add_groups(gs, tier, "convert", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { cvt(cx, c, A, ra, d, s++); }); });
  // every format as the first block matrix of the process (nothing preset), each starting matrix in its own group
  for (int f = F_DENSE; f <= F_CSR; f++) for (int n : {1, 3, 4, 5, 9, 14}) { Cfg c; c.fmt = f; c.prec = P_DR; c.N = c.M = n; gs.push_back({strf("convert_cold|fmt=%s N=%d", FMTN[f], n), [=](Ctx &cx) {
    for (int k = 0; k < NFAM; k++) for (int m2 : {n, (n + 1) / 2}) { Ref A = family(n, k, c, 0); Cfg e = c; e.fmt = F_ELLBLOCK; e.M = m2; if (!fits(e, pat_of(A)) || !fits(c, pat_of(A))) continue; cvt_case(cx, c, A, 0, F_ELLBLOCK, P_DR, m2, FAMN[k], true); cvt_case(cx, c, A, 0, F_ELLBLOCK, P_SC, m2, FAMN[k], true); } }}); }
}
static PropReg r09("C09", c09);

// ------------------------------------------------------------------ C10
enum { MU_NONE, MU_SETALL, MU_CLEAR, MU_SCALE, MU_THR, MU_TRANSP, MU_ADDI, MU_DEALLOC, NMU };
static const char *MUN[] = {"none", "set_element", "clear", "scale", "threshold", "transpose", "add_identity", "deallocate"};
static void mutate(const Cfg &c, void *&X, Ref &r, int mu, const Ref &orig) {
  Buf v(c.prec, 1);
  switch (mu) {
    case MU_SETALL: for (int i = 0; i < c.N; i++) for (int j = 0; j < c.N; j++) if (orig(i, j) != cd(0) || (i + j) % 2 == 0) { Ref t = r; t(i, j) = 77 + i; if (!fits(c, pat_of(t))) continue; v.set(0, cd(77 + i)); bml_set_element(X, i, j, v.p()); r(i, j) = 77 + i; } break;
    case MU_CLEAR: bml_clear(X); r = Ref(c.N); break;
    case MU_SCALE: v.set(0, cd(2)); bml_scale_inplace(v.p(), X); r = r_scale(r, 2); break;
    case MU_THR: bml_threshold(X, 1e6); r = Ref(c.N); break;
    case MU_TRANSP: if (fits(c, pat_of(r_tr(r)))) { bml_transpose(X); r = r_tr(r); } break;
    case MU_ADDI: { Ref t = r_lin(r, r_id(c.N), 1, 3), u = r; for (int i = 0; i < c.N; i++) u(i, i) = 1; if (fits(c, pat_of(u))) { bml_add_identity(X, 3, 0); r = t; } break; }
    case MU_DEALLOC: bml_deallocate(&X); break;
  }
}
static void copy_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const Ref *B, int rb, int cap, int mu, int who, int ord, const string &d) {
  const char *op = B ? "copy" : "copy_new"; string sig = SIG(op); cx.cursig = sig;
  Cfg ca = c, cb = c; if (cap == 1) { ca = shrink(c, A); } if (cap == 2 && B) { cb = capvar(c, A, 2); } if (cap == 3 && B) { cb = capvar(c, A, 1); ca = c; if (!fits(cb, pat_of(*B))) return; }
  if (!B) cb = ca;
  ra = recipe_ok(ca, ra, A) ? ra : 0; if (B) rb = recipe_ok(cb, rb, *B) ? rb : 0;
  if (!cx.next([&] { return c.str() + strf(" op=%s ", op) + d + strf(" capA=%d/%d capB=%d/%d then %s the %s, release %s first A=", ca.M, ca.MB, cb.M, cb.MB, MUN[mu], who ? "copy" : "source", ord ? "copy" : "source") + r_str(A) + (B ? " B(before)=" + r_str(*B) + "/" + RECN[rb] : ""); })) return;
  void *a = mk(cx, ca, A, ra), *b = 0; if (!a) return;
  if (B) { b = mk(cx, cb, *B, rb); if (!b) return; }
  Outcome o = call([&] { if (B) bml_copy(a, b); else b = bml_copy_new(a); });
  cx.trans();
  if (o == ERR && cap == 3) return; // a destination whose capacity is smaller than the source's stored rows may be refused
  if (cx.ok(o, sig)) {
    cx.nontrivial++;
    if (mu == MU_NONE ? full_check(cx, b, cb, A, sig) : expect_eq(cx, b, cb, A, sig)) {
      Ref rx = A; o = call([&] { mutate(who ? cb : ca, who ? b : a, rx, mu, A); }); cx.trans();
      if (cx.ok(o, sig + "|after-" + MUN[mu])) {
        if (mu != MU_DEALLOC) expect_eq(cx, who ? b : a, who ? cb : ca, rx, sig + "|mutated");
        else if (who ? b : a) cx.fail(sig + "|handle", "bml_deallocate left the caller's handle set");
        expect_eq(cx, who ? a : b, who ? ca : cb, A, sig + "|independence");
        void *&y = who ? a : b; Ref ry = A; Cfg &cy = who ? ca : cb; o = call([&] { mutate(cy, y, ry, MU_SETALL, A); });
        if (cx.ok(o, sig + "|other-side-write")) { expect_eq(cx, y, cy, ry, sig + "|other-side"); if (mu != MU_DEALLOC) expect_eq(cx, who ? b : a, who ? cb : ca, rx, sig + "|independence2"); }
      }
    }
  }
  o = call([&] { if (ord) { bml_deallocate(&b); bml_deallocate(&a); } else { bml_deallocate(&a); bml_deallocate(&b); } bml_deallocate(&a); bml_deallocate(&b); });
  cx.ok(o, sig + "|deallocate"); cx.end();
}
static void c10(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, int sel, bool all) {
    for (int mu = 0; mu < NMU; mu++) for (int who = 0; who < 2; who++) {
      if (mu == MU_NONE && who) continue;
      copy_case(cx, c, A, ra, 0, 0, 0, mu, who, (sel + mu) % 2, d);
      if (has_caps(c) && (all || (sel + mu) % 3 == 0)) copy_case(cx, c, A, ra, 0, 0, 1, mu, who, (sel + mu) % 2, d);
    }
    static const int fams[] = {0, 2, 6, 1, 4, 9}; int k = 0;
    for (int f = 0; f < (all ? 6 : 3); f++) {
      Ref B = family(c.N, fams[(f + (all ? 0 : sel)) % 6], c, 5); if (!fits(c, pat_of(B))) continue;
      for (int mu : {MU_NONE, MU_SETALL, MU_CLEAR, MU_DEALLOC, MU_TRANSP}) {
        int who = (sel + mu + f) % 2, rb = (sel + 2 * mu + f) % NRECIPE; if (mu == MU_NONE) who = 0;
        copy_case(cx, c, A, ra, &B, rb, 0, mu, who, (sel + f) % 2, d);
        if (has_caps(c)) copy_case(cx, c, A, ra, &B, rb, 1 + (k++) % 3, mu, who, (sel + f) % 2, d);
      }
    }
  };
  add_groups(gs, tier, "copy", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, th, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d, s++, th || c.N < 3); }); });
  add_groups(gs, tier, "copy", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d, s++, th); }); });
  // wide blocks
  vector<Cfg> wide; for (auto bs : {vector<int>{10, 3}, vector<int>{12}, vector<int>{1, 11, 2}}) ALLPREC { Cfg c; c.fmt = F_ELLBLOCK; c.prec = prec; c.bs = bs; c.N = 0; for (int b : bs) c.N += b; c.M = c.N; wide.push_back(c); }
  add_groups(gs, tier, "copy_wide_blocks", wide, [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d, s++, false); }); });
  // every constructor and every domain releases what it took
  add_groups(gs, tier, "release", cfgs(1, 4), [=](Ctx &cx, const Cfg &c) {
    for (int ctor = 0; ctor < 6; ctor++) for (int M = 1; M <= c.N + (c.fmt == F_ELLPACK); M++) {
      static const char *CN[] = {"zero", "identity", "banded", "random", "noinit", "domain"};
      string sig = SIG(strf("release_%s", CN[ctor]).c_str()); cx.cursig = sig;
      if (!cx.next([&] { return c.str() + strf(" construct %s with M=%d and release", CN[ctor], M); })) continue;
      void *a = 0; bml_domain_t *dm = 0;
      Outcome o = call([&] { switch (ctor) { case 0: a = bml_zero_matrix(c.fmt, c.prec, c.N, M, D_SEQ); break; case 1: a = bml_identity_matrix(c.fmt, c.prec, c.N, M, D_SEQ); break; case 2: a = bml_banded_matrix(c.fmt, c.prec, c.N, std::min(M, c.N), D_SEQ); break; case 3: a = bml_random_matrix(c.fmt, c.prec, c.N, std::min(M, c.N), D_SEQ); break; case 4: a = bml_noinit_matrix(c.fmt, c.prec, c.N, M, D_SEQ); break; case 5: dm = bml_default_domain(c.N, M, D_SEQ); bml_deallocate_domain(dm); break; } });
      cx.trans(); if (o == ERR) continue;
      if (cx.ok(o, sig) && ctor < 5) { cx.nontrivial++; o = call([&] { bml_deallocate(&a); bml_deallocate(&a); }); cx.ok(o, sig); if (a) cx.fail(sig + "|handle", "handle not reset"); }
      cx.end();
    }
  });
}
static PropReg r10("C10", c10);

// ------------------------------------------------------------------ C14
static bool rstored(int rec) { return rec == 4; } // histories that leave explicitly stored zeros
static Cfg subcfg(const Cfg &c, int row, int n, bool &aligned) {
  Cfg e = c; e.N = n; e.M = n; aligned = true;
  if (c.fmt != F_ELLBLOCK) return e;
  vector<int> bs = c.bs; if (bs.empty()) for (int l = c.N; l > 0; l -= 4) bs.push_back(std::min(4, l));
  e.bs.clear(); int s = 0; size_t b = 0; while (b < bs.size() && s < row) s += bs[b++];
  if (s != row) aligned = false; int t = 0; while (b < bs.size() && t < n) { e.bs.push_back(bs[b]); t += bs[b++]; }
  if (t != n) aligned = false; if (!aligned) { e.bs = {n}; } e.MB = e.bs.size(); return e;
}
static void ext_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, int row, int col, int n, int BM, const string &d) {
  string sig = SIG("extract_submatrix"); cx.cursig = sig;
  if (!cx.next([&] { return c.str() + strf(" op=extract_submatrix row=%d col=%d size=%d M=%d ", row, col, n, BM) + d + " A=" + r_str(A); })) return;
  bool al1, al2; Cfg e = subcfg(c, row, n, al1), e2 = subcfg(c, col, n, al2); bool may = c.fmt == F_ELLBLOCK && !(al1 && al2 && e.bs == e2.bs);
  Ref W(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W(i, j) = A(row + i, col + j);
  Cfg f = e; f.M = BM; if (!fits(f, pat_of(W)) || (rstored(ra) && BM < n)) may = true;
  void *a = mk(cx, c, A, ra), *b = 0; if (!a) return;
  Outcome o = call([&] { b = bml_extract_submatrix(a, row, col, n, BM); });
  cx.trans();
  if (may && o == ERR) return;
  if (cx.ok(o, sig)) {
    if (!b) cx.fail(sig + "|null", "no matrix returned");
    else if (bml_get_N(b) != n || bml_get_type(b) != c.fmt || bml_get_precision(b) != c.prec) cx.fail(sig + "|kind", strf("type %d precision %d N %d", bml_get_type(b), bml_get_precision(b), bml_get_N(b)));
    else full_check(cx, b, e, W, sig);
    expect_eq(cx, a, c, A, sig + "|operand"); cx.nontrivial++;
  }
  freem(a); freem(b); cx.end();
}
static void asg_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const Ref &B, int rb, int row, int col, const string &d) {
  string sig = SIG("assign_submatrix"); cx.cursig = sig; int n = B.n;
  bool al1, al2; Cfg e = subcfg(c, row, n, al1), e2 = subcfg(c, col, n, al2); bool may = c.fmt == F_ELLBLOCK && !(al1 && al2 && e.bs == e2.bs);
  if (!recipe_ok(e, rb, B) || (c.fmt == F_ELLBLOCK && (rb == 2 || rb == 7 || rb == 8))) rb = 0;
  Ref W = A; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W(row + i, col + j) = B(i, j);
  if (!fits(c, pat_of(W)) || ((rstored(rb) || rstored(ra)) && !fits(c, vector<char>((size_t)c.N * c.N, 1)))) may = true;
  if (!cx.next([&] { return c.str() + strf(" op=assign_submatrix row=%d col=%d size=%d ", row, col, n) + d + " A=" + r_str(A) + " B=" + r_str(B) + "/" + RECN[rb]; })) return;
  void *a = mk(cx, c, A, ra); if (!a) return; void *b = mk(cx, e, B, rb); if (!b) return;
  Outcome o = call([&] { bml_assign_submatrix(a, b, row, col); });
  cx.trans();
  if (may && o == ERR) return;
  if (cx.ok(o, sig)) { full_check(cx, a, c, W, sig); expect_eq(cx, b, e, B, sig + "|operand"); cx.nontrivial++; }
  freem(a); freem(b); cx.end();
}
static void c14(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto keep = [=](const Cfg &c, int n, int r, int q, int sel) { // windows considered: all up to 5, every 11th up to 13, corner positions beyond
    if (c.N <= 5) return true;
    if (c.N <= 13) return (r * 3 + q * 5 + n + sel) % (th ? 5 : 11) == 0;
    auto pos = [&](int x) { return x == 0 || x == 1 || x == (c.N - n) / 2 || x == c.N - n; };
    return (n == 1 || n == 2 || n == c.N / 2 || n == c.N - 1 || n == c.N) && pos(r) && pos(q) && (r + q + n + sel) % (th ? 2 : 4) == 0;
  };
  auto ext = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, int sel) {
    for (int n = 1; n <= c.N; n++) for (int r = 0; r + n <= c.N; r++) for (int q = 0; q + n <= c.N; q++) {
      if (!keep(c, n, r, q, sel)) continue;
      ext_case(cx, c, A, ra, r, q, n, n, d); if (c.fmt == F_ELLPACK && c.N <= 3) for (int m = 1; m < n; m++) ext_case(cx, c, A, ra, r, q, n, m, d);
    }
  };
  auto asg = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, int sel) {
    for (int n = 1; n <= c.N; n++) for (int r = 0; r + n <= c.N; r++) for (int q = 0; q + n <= c.N; q++) {
      if (!keep(c, n, r, q, sel)) continue;
      vector<Ref> Bs; if (n <= 2) for (unsigned long m = 0; m < (1ul << (n * n)); m++) { if (n == 2 && c.N >= 3 && !th && (m + sel + r + q) % 3) continue; Bs.push_back(pattern(n, m, c, 4)); } else for (int k : {0, 2, 3, 6, 9}) Bs.push_back(family(n, k, c, 4));
      int t = 0; for (auto &B : Bs) asg_case(cx, c, A, ra, B, (sel + t++) % NRECIPE, r, q, d);
    }
  };
  add_groups(gs, tier, "extract", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, th, [&](const Ref &A, int ra, const string &d) { ext(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "extract", cfgs(4, 4), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { ext(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "extract", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { ext(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "assign", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, th && c.N < 3, [&](const Ref &A, int ra, const string &d) { asg(cx, c, A, ra, d, s++); }); }, th ? 2 : 1);
  add_groups(gs, tier, "assign", cfgs(4, 4), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { asg(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "assign", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { asg(cx, c, A, ra, d, s++); }); });
  add_groups(gs, tier, "extract_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { ext(cx, c, A, ra, d, s); asg(cx, c, A, ra, d, s++); }); });
  vector<Cfg> wide; for (auto bs : {vector<int>{10, 3}, vector<int>{4, 12, 4}}) ALLPREC { Cfg c; c.fmt = F_ELLBLOCK; c.prec = prec; c.bs = bs; c.N = 0; for (int b : bs) c.N += b; c.M = c.N; wide.push_back(c); }
  add_groups(gs, tier, "extract_wide", wide, [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) {
    int o = 0; for (size_t b = 0; b < c.bs.size(); o += c.bs[b++]) { int o2 = 0; for (size_t b2 = 0; b2 < c.bs.size(); o2 += c.bs[b2++]) if (c.bs[b] == c.bs[b2]) { ext_case(cx, c, A, ra, o, o2, c.bs[b], c.bs[b], d); asg_case(cx, c, A, ra, family(c.bs[b], s++ % NFAM, c, 4), 0, o, o2, d); } } }); });
}
static PropReg r14("C14", c14);
