#pragma once
#include "seq_core.h"
// generators shared by the property drivers
typedef std::function<string()> DescF;
static inline vector<unsigned long> masks(int n, bool all) {
  vector<unsigned long> o;
  if (n <= 2 || all) { for (unsigned long m = 0; m < (1ul << (n * n)); m++) o.push_back(m); return o; }
  // N=3 selection: every pattern whose rows come from a fixed list of triples, covering each row pattern in each row
  static const int t[][3] = {{0,0,0},{1,2,4},{4,2,1},{7,7,7},{7,0,0},{0,0,7},{0,7,0},{1,1,1},{4,4,4},{2,5,2},{3,6,5},{6,3,1},{5,1,6},{2,0,4},{0,4,0},{1,0,0},{0,0,1},{4,6,7},{7,3,1},{5,7,0},{2,4,1},{3,0,3}};
  for (auto &r : t) o.push_back(r[0] | r[1] << 3 | r[2] << 6);
  return o;
}
static inline vector<std::pair<int, int>> recpairs(bool thorough) {
  vector<std::pair<int, int>> o;
  if (thorough) { for (int a = 0; a < NRECIPE; a++) for (int b = 0; b < NRECIPE; b++) o.push_back({a, b}); return o; }
  return {{0, 0}, {1, 2}, {4, 5}, {5, 4}, {7, 1}, {8, 3}, {6, 8}};
}
// every small matrix (all patterns) under every construction history
template <class F> void each_unary(Ctx &cx, const Cfg &c, bool all, F f) {
  for (unsigned long m : masks(c.N, all)) {
    Ref r = pattern(c.N, m, c, 0);
    if (!fits(c, pat_of(r))) continue;
    for (int rec = 0; rec < NRECIPE; rec++) if (recipe_ok(c, rec, r)) f(r, rec, strf("mask=%lx rec=%s", m, RECN[rec]));
  }
}
template <class F> void each_big_unary(Ctx &cx, const Cfg &c, F f) {
  for (int k : fams(c)) { Ref r = family(c.N, k, c, 0); if (!fits(c, pat_of(r))) continue; for (int rec : {0, 1, 5, 7}) if ((c.N <= LARGE_N || rec == (k & 1)) && recipe_ok(c, rec, r)) f(r, rec, strf("family=%s rec=%s", FAMN[k], RECN[rec])); }
}
template <class F> void each_binary(Ctx &cx, const Cfg &c, F f) {
  auto rp = recpairs(cx.thorough && c.N <= 2);
  auto ms = masks(c.N, false), ms2 = cx.thorough && c.N == 3 ? masks(3, true) : ms;
  for (unsigned long ma : ms2) for (unsigned long mb : ms) {
    Ref A = pattern(c.N, ma, c, 0), B = pattern(c.N, mb, c, 4);
    size_t k = 0;
    for (auto &p : rp) {
      if (c.N == 3 && (ma * 7 + mb * 3 + k++) % rp.size() > (cx.thorough ? 1 : 0)) continue; // N=3: rotate through the histories
      if (recipe_ok(c, p.first, A) && recipe_ok(c, p.second, B)) f(A, p.first, B, p.second, strf("A=%lx/%s B=%lx/%s", ma, RECN[p.first], mb, RECN[p.second]));
    }
  }
  // cancellation: B = -A and B = A
  for (unsigned long ma : ms) for (int sgn = -1; sgn <= 1; sgn += 2) { Ref A = pattern(c.N, ma, c, 0), B = r_scale(A, sgn); f(A, 0, B, 1, strf("A=%lx/set_fwd B=%sA/set_rev", ma, sgn < 0 ? "-" : "")); }
}
template <class F> void each_big_binary(Ctx &cx, const Cfg &c, F f) {
  for (int a : fams(c)) for (int b : fams(c)) {
    if (c.N > LARGE_N && (a * 5 + b) % 2) continue; // half of the pairs
    Ref A = family(c.N, a, c, 0), B = family(c.N, b, c, 4); int ra = (a + b) % 2 ? 1 : 0, rb = (a * 3 + b) % 3 == 0 ? 5 : 0;
    if (recipe_ok(c, ra, A) && recipe_ok(c, rb, B)) f(A, ra, B, rb, strf("A=%s/%s B=%s/%s", FAMN[a], RECN[ra], FAMN[b], RECN[rb]));
  }
}
template <class F> void add_groups(Groups &gs, const string &tier, const char *op, const vector<Cfg> &cs, F body, int nsh = 1) {
  for (auto &c : cs) gs.push_back({strf("%s|%s", op, c.str().c_str()), [c, body](Ctx &cx) { prewarm(c); body(cx, c); }, nsh});
}
// result of an operation that takes a threshold: exact value, or zero where the exact magnitude does not exceed it
static inline bool expect_thr(Ctx &cx, void *A, const Cfg &c, const Ref &exact, double thr, const string &sig, bool strict, double tol = 0) {
  if (!A) { cx.fail(sig + "|null", "no matrix returned"); return false; }
  if (!expect_struct(cx, A, sig)) return false;
  Ref g; if (!obs(cx, A, c, g, sig)) return false;
  for (size_t k = 0; k < g.a.size(); k++) {
    double m = std::abs(exact.a[k]);
    bool good;
    if (m > thr * (1 + tol) || thr == 0) good = near(g.a[k], exact.a[k], tol);
    else if (strict && m < thr * (1 - tol)) good = g.a[k] == cd(0);
    else good = g.a[k] == cd(0) || near(g.a[k], exact.a[k], tol);
    if (!good) {
      cx.fail(sig + "|value", strf("element (%d,%d): got %.17g%+.17gi, exact result %.17g%+.17gi, threshold %g; ", (int)(k / g.n), (int)(k % g.n), g.a[k].real(), g.a[k].imag(), exact.a[k].real(), exact.a[k].imag(), thr) + "got " + r_str(g) + " exact " + r_str(exact));
      return false;
    }
  }
  return true;
}
#define SIG(op) strf("%s|%s|%s", op, FMTN[c.fmt], PRECN[c.prec])
// fixed-width formats with rows narrower than N
static inline vector<Cfg> narrow_cfgs() {
  vector<Cfg> narrow;
  for (int f : {F_ELLPACK, F_ELLBLOCK}) ALLPREC for (int M : {1, 2, 3}) {
    Cfg c; c.fmt = f; c.prec = prec; c.N = f == F_ELLPACK ? 4 : 6; c.M = f == F_ELLPACK ? M : 2 * M;
    if (f == F_ELLBLOCK) { c.bs = {2, 2, 2}; c.MB = M; if (M == 1) c.bs = {1, 3, 2}; }
    narrow.push_back(c);
  }
  return narrow;
}
// smallest capacity of a fixed-width format that holds the pattern
static inline Cfg shrink(const Cfg &c, const Ref &r) {
  Cfg d = c;
  if (c.fmt == F_ELLPACK) { for (d.M = 1; d.M < c.N && !fits(d, pat_of(r)); d.M++); }
  else if (c.fmt == F_ELLBLOCK && !c.bs.empty()) { for (d.MB = 1; d.MB < (int)c.bs.size() && !fits(d, pat_of(r)); d.MB++); }
  return d;
}
// capacity variants of an operand: 0 full, 1 the smallest that holds it, 2 (ellpack) wider than the matrix
static inline Cfg capvar(const Cfg &c, const Ref &r, int v) {
  Cfg d = v == 1 ? shrink(c, r) : c;
  if (v == 2) { if (c.fmt == F_ELLPACK || c.fmt == F_CSR) d.M = c.M + 2; }
  return d;
}
static inline bool has_caps(const Cfg &c) { return c.fmt == F_ELLPACK || (c.fmt == F_ELLBLOCK && !c.bs.empty()); }
