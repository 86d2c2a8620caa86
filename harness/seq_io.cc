// C11 text files: round trips, truncation at every byte, damaged and foreign files
#include "seq_gen.h"
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>

static string scratch(const char *n) { const char *d = getenv("BMLCHECK_TMP"); return strf("%s/io-%d-%s", d ? d : "/tmp", (int)getpid(), n); }
static bool slurp(const string &f, string &s) { FILE *p = fopen(f.c_str(), "r"); if (!p) return false; s.clear(); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p))) s.append(b, n); fclose(p); return true; }
static void spew(const string &f, const string &s) { FILE *p = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), p); fclose(p); }
// values whose decimal expansion is long, of both signs and many magnitudes
static Ref hard(const Ref &P, const Cfg &c, int seed) {
  static const double v[] = {1.0 / 3, -2.0 / 7, 1e-30, -3.14159265358979312, 1e20 / 3, 12345678.9, -1e-5 / 7, 0.1, 1.0000000000000002, -99999.999999999985};
  Ref o(P.n); for (int k = 0; k < P.n * P.n; k++) if (P.a[k] != cd(0)) { double re = v[(k * 3 + seed) % 10], im = v[(k * 7 + seed + 4) % 10]; if (k % 3 == 2) im = 0; if (k % 5 == 3 && c.cplx()) re = 0; o.a[k] = c.cplx() ? (re == 0 && im == 0 ? cd(0, 1.0 / 3) : cd(re, im)) : cd(re); o.a[k] = rnd(c.prec, o.a[k]); }
  return o;
}
static bool close15(cd a, cd b, bool sgl) {
  auto one = [&](double x, double y) { return x == y || (!sgl && fabs(x - y) <= 1e-14 * fabs(y)); };
  return one(a.real(), b.real()) && one(a.imag(), b.imag());
}
static bool expect15(Ctx &cx, void *A, const Cfg &c, const Ref &want, const string &sig) {
  if (!expect_struct(cx, A, sig)) return false;
  Ref g; if (!obs(cx, A, c, g, sig)) return false;
  for (size_t k = 0; k < g.a.size(); k++) if (!close15(g.a[k], want.a[k], c.sgl())) { cx.fail(sig + "|value", strf("element (%d,%d): got %.17g%+.17gi want %.17g%+.17gi; got ", (int)k / g.n, (int)k % g.n, g.a[k].real(), g.a[k].imag(), want.a[k].real(), want.a[k].imag()) + r_str(g) + " want " + r_str(want)); return false; }
  return true;
}
static void rt_case(Ctx &cx, const Cfg &c, const Ref &A, int rec, const Cfg &cd_, const Ref &prev, const string &d) {
  string sig = strf("roundtrip|%s|%s|%s", FMTN[c.fmt], FMTN[cd_.fmt], PRECN[c.prec]); cx.cursig = sig;
  if (!cx.next([&] { return "write " + c.str() + " read " + cd_.str() + " " + d + " A=" + r_str(A) + " previous=" + r_str(prev); })) return;
  string f = scratch("rt.mtx"); vector<char> fn(f.begin(), f.end()); fn.push_back(0);
  if (cd_.fmt == F_ELLBLOCK) { prewarm(cd_); cx.live0 = g_live; }
  void *a = mk(cx, c, A, rec), *b = mk(cx, cd_, prev, 0); if (!a || !b) return;
  Outcome o = call([&] { bml_write_bml_matrix(a, fn.data()); });
  cx.trans();
  if (cx.ok(o, sig + "|write")) {
    expect_eq(cx, a, c, A, sig + "|source");
    o = call([&] { bml_read_bml_matrix(b, fn.data()); }); cx.trans();
    if (cx.ok(o, sig + "|read")) {
      cx.nontrivial++;
      if (expect15(cx, b, cd_, A, sig)) { Ref g; obs(cx, b, cd_, g, sig); full_check(cx, b, cd_, g, sig); }
      // a second generation reproduces the first exactly
      string s1, s2; slurp(f, s1); Ref g1, g2; obs(cx, b, cd_, g1, sig);
      o = call([&] { bml_write_bml_matrix(b, fn.data()); bml_read_bml_matrix(a, fn.data()); }); cx.trans(2);
      if (cx.ok(o, sig + "|again")) expect15(cx, a, c, g1, sig + "|again");
    }
  }
  unlink(f.c_str()); freem(a); freem(b); cx.end();
}
// ---- reading a given text
enum Want { X_ERR, X_OK2, X_ANY };
static void text_case(Ctx &cx, const Cfg &c, const string &text, Want w, const Ref &want, const string &d, const Ref &prev) {
  string sig = strf("read|%s|%s|%s", FMTN[c.fmt], PRECN[c.prec], d.substr(0, d.find(' ')).c_str()); cx.cursig = sig;
  if (!cx.next([&] { string t = text.size() > 300 ? text.substr(0, 300) + "..." : text; for (auto &ch : t) if (ch == '\n') ch = '/'; return c.str() + " read " + d + " text=\"" + t + "\""; })) return;
  string f = scratch("tx.mtx"); vector<char> fn(f.begin(), f.end()); fn.push_back(0); spew(f, text);
  void *b = mk(cx, c, prev, 0); if (!b) return;
  Outcome o = call([&] { bml_read_bml_matrix(b, fn.data()); });
  cx.trans(); cx.nontrivial++; unlink(f.c_str());
  if (o == ASSERTED) cx.fail(sig + "|assert", "ended in a failed assertion instead of a reported error: " + g_errtext);
  else if (o == ERR && w == X_OK2) cx.fail(sig + "|refused", "a complete file was refused: " + g_errtext);
  else if (o == OK && w == X_ERR) { Ref g; obs(cx, b, c, g, sig); cx.fail(sig + "|accepted", "a damaged file was accepted; matrix read: " + r_str(g)); }
  else if (o == OK) expect15(cx, b, c, want, sig);
  if (o == OK) freem(b); else { g_dirty = 1; freem(b); }
  cx.end();
}
static vector<string> toks(const string &s, vector<size_t> *pos = 0) { vector<string> o; size_t i = 0; while (i < s.size()) { while (i < s.size() && isspace((unsigned char)s[i])) i++; size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) j++; if (j > i) { o.push_back(s.substr(i, j - i)); if (pos) pos->push_back(j); } i = j; } return o; }
static void trunc_case(Ctx &cx, const Cfg &c, const Ref &A, int rec, const Ref &prev, const string &d) {
  // produce the text with the library itself
  string f = scratch("tr.mtx"), full; vector<char> fn(f.begin(), f.end()); fn.push_back(0);
  void *a = mk(cx, c, A, rec); if (!a) return;
  Outcome o = call([&] { bml_write_bml_matrix(a, fn.data()); }); freem(a);
  if (o != OK || !slurp(f, full)) { unlink(f.c_str()); cx.cursig = "write"; if (cx.next([&] { return c.str() + " write " + d; })) cx.fail(SIG("write"), "writing the file failed"); return; }
  unlink(f.c_str());
  vector<size_t> ends; auto tk = toks(full, &ends); int per = c.cplx() ? 4 : 3;
  for (size_t len = 0; len <= full.size(); len++) {
    string t = full.substr(0, len); auto tt = toks(t); Want w = X_ERR; Ref want = A;
    if (tt.size() == tk.size()) {
      if (tt.back() == tk.back()) w = X_OK2;
      else { // the last number is cut inside: nothing in the format can tell; either an error or the number as it stands
        w = X_ANY; size_t k = tk.size() - per; int i = atoi(tk[k].c_str()) - 1, j = atoi(tk[k + 1].c_str()) - 1; if (tk.size() == 8) { w = X_ERR; if (atoi(tt[7].c_str()) == 0 && isdigit(tt[7][0])) { w = X_ANY; want = Ref(c.N); } }
        else { double x = strtod(tt.back().c_str(), 0); want(i, j) = rnd(c.prec, c.cplx() ? cd(strtod(tk[k + 2].c_str(), 0), x) : cd(x)); if (!isdigit(tt.back().back()) && tt.back().back() != '.') w = X_ERR; if (w == X_ERR && (tt.back().back() == 'e' || tt.back().back() == '+' || tt.back().back() == '-') && tt.back().size() > 1) w = X_ANY; }
      }
    }
    text_case(cx, c, t, w, want, strf("truncated at byte %zu of %zu, %s", len, full.size(), d.c_str()), prev);
  }
}
// every point at which the device can refuse further bytes of a file being written
static void short_case(Ctx &cx, const Cfg &c, const Ref &A, const string &d) {
  string f = scratch("wl.mtx"), full; vector<char> fn(f.begin(), f.end()); fn.push_back(0);
  void *a = mk(cx, c, A, 0); if (!a) return;
  Outcome o = call([&] { bml_write_bml_matrix(a, fn.data()); });
  if (o != OK || !slurp(f, full)) { freem(a); unlink(f.c_str()); return; }
  freem(a); signal(SIGXFSZ, SIG_IGN);
  for (size_t len = 0; len <= full.size(); len++) {
    string sig = SIG("write_short"); cx.cursig = sig;
    if (!cx.next([&] { return c.str() + strf(" write %s with room for %zu of %zu bytes", d.c_str(), len, full.size()); })) continue;
    a = mk(cx, c, A, 0); if (!a) continue;
    struct rlimit r, r0; getrlimit(RLIMIT_FSIZE, &r0); r = r0; r.rlim_cur = len; setrlimit(RLIMIT_FSIZE, &r);
    o = call([&] { bml_write_bml_matrix(a, fn.data()); });
    setrlimit(RLIMIT_FSIZE, &r0); cx.trans(); cx.nontrivial++; unlink(f.c_str());
    if (o == ASSERTED) cx.fail(sig + "|assert", "failed assertion: " + g_errtext);
    else if (o == OK && len < full.size()) cx.fail(sig + "|lost", strf("only %zu of %zu bytes could be stored and no error was reported", len, full.size()));
    else if (o == ERR && len == full.size()) cx.fail(sig + "|refused", "the file could be stored completely but an error was reported: " + g_errtext);
    if (o != OK) g_dirty = 1; freem(a); cx.end();
  }
}
static void c11(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  add_groups(gs, tier, "roundtrip", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) {
    int s = 0;
    each_unary(cx, c, true, [&](const Ref &A, int rec, const string &d) {
      s++; if (!th && c.N == 3 && (s % (c.fmt == F_ELLBLOCK ? 7 : 3))) return;
      for (int k = 0; k < 3; k++) { Ref prev = k == 0 ? Ref(c.N) : k == 1 ? family(c.N, 2, c, 5) : A; if (!th && c.N == 3 && s % 2 && k == 2) continue; rt_case(cx, c, hard(A, c, s), rec, c, prev, d); }
    });
    // every pair of formats
    for (int f = F_DENSE; f <= F_CSR; f++) if (f != c.fmt) for (unsigned long m : masks(c.N, false)) { Cfg e = c; e.fmt = f; e.bs.clear(); if (f == F_ELLBLOCK) { if (c.fmt == F_ELLBLOCK) continue; e.bs = {c.N}; if (c.N > 1 && m % 2) e.bs = {1, c.N - 1}; } Ref A = pattern(c.N, m, c, 0); for (int k : {0, 2}) rt_case(cx, c, hard(A, c, m), 0, e, family(c.N, k, e, 5), strf("mask=%lx", m)); }
  }, 1);
  add_groups(gs, tier, "roundtrip", bigcfgs(tier), [=](Ctx &cx, const Cfg &c) { for (int k : fams(c)) for (int p : {0, 3, 2}) { Ref A = family(c.N, k, c, 0); rt_case(cx, c, k % 2 ? A : hard(A, c, k), 0, c, family(c.N, p, c, 5), FAMN[k]); } });
  add_groups(gs, tier, "roundtrip_narrow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { for (int k = 0; k < NFAM; k++) { Ref A = family(c.N, k, c, 0); if (!fits(c, pat_of(A))) continue; for (int p = 0; p < NFAM; p++) { Ref P = family(c.N, p, c, 5); if (fits(c, pat_of(P))) rt_case(cx, c, A, 0, c, P, FAMN[k]); } } });
  add_groups(gs, tier, "truncate", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) {
    vector<unsigned long> ms = c.N == 1 ? vector<unsigned long>{0, 1} : c.N == 2 ? vector<unsigned long>{0, 1, 6, 9, 15} : vector<unsigned long>{0, 0x54, 0x111, 0x1ff}; if (th && c.N == 2) ms = masks(2, true); if (th && c.N == 3) ms = masks(3, false);
    for (auto m : ms) for (int prev : {0, 2}) { if (c.N == 3 && prev && !th) continue; trunc_case(cx, c, hard(pattern(c.N, m, c, 0), c, m), 0, family(c.N, prev, c, 5), strf("mask=%lx", m)); }
  }, th ? 2 : 1);
  add_groups(gs, tier, "damaged", cfgs(1, 3), [=](Ctx &cx, const Cfg &c) {
    int N = c.N; bool z = c.cplx(); const char *ty = z ? "complex" : "real"; string v = z ? "2.5 -1.5" : "2.5"; cd vv = z ? cd(2.5, -1.5) : cd(2.5);
    auto head = [&](const char *sym) { return strf("%%%%MatrixMarket matrix coordinate %s %s\n", ty, sym); };
    for (int pv : {0, 2}) {
      Ref prev = family(N, pv, c, 5), Z(N), one(N); one(N - 1, 0) = vv;
      string e = strf("%d 1 %s\n", N, v.c_str());
      text_case(cx, c, head("general") + strf("%d %d 1\n", N, N) + e, X_OK2, one, "foreign well-formed file", prev);
      text_case(cx, c, head("general") + strf("%d %d 1\n", N, N) + strf("  %d\t1   %s   \n\n", N, v.c_str()), X_OK2, one, "spaces file with other white space", prev);
      text_case(cx, c, head("general") + strf("%d %d 0\n", N, N), X_OK2, Z, "empty no entries", prev);
      for (int dn : {-1, 1, 2, -N, -N - 1, 1000000}) { text_case(cx, c, head("general") + strf("%d %d 1\n", N + dn, N + dn) + "1 1 " + v + "\n", X_ERR, Z, strf("dimension header says %d", N + dn), prev); text_case(cx, c, head("general") + strf("%d %d 0\n", N + dn, N + dn), X_ERR, Z, strf("dimension header says %d, no entries", N + dn), prev); }
      text_case(cx, c, head("general") + strf("%d %d 1\n", N, N + 1) + e, X_ERR, Z, "dimension not square", prev); text_case(cx, c, head("general") + strf("%d %d 1\n", N + 1, N) + e, X_ERR, Z, "dimension not square", prev);
      for (int nz : {2, 5, 1000000, -1}) text_case(cx, c, head("general") + strf("%d %d %d\n", N, N, nz) + e, X_ERR, Z, strf("count says %d entries, file has 1", nz), prev);
      for (int i : {0, -1, N + 1, N + 2, -1000000, 1000000, 2147483647}) { text_case(cx, c, head("general") + strf("%d %d 1\n%d 1 ", N, N, i) + v + "\n", X_ERR, Z, strf("index row %d", i), prev); text_case(cx, c, head("general") + strf("%d %d 1\n1 %d ", N, N, i) + v + "\n", X_ERR, Z, strf("index column %d", i), prev); text_case(cx, c, head("symmetric") + strf("%d %d 1\n%d 1 ", N, N, i) + v + "\n", X_ERR, Z, strf("index row %d (symmetric)", i), prev); }
      text_case(cx, c, head("general") + strf("%d %d 1\n1 1 abc\n", N, N), X_ERR, Z, "nonsense value", prev); text_case(cx, c, head("general") + strf("x %d 1\n", N), X_ERR, Z, "nonsense dimension", prev); text_case(cx, c, "", X_ERR, Z, "empty file", prev); text_case(cx, c, "\n\n \n", X_ERR, Z, "blank file", prev);
      text_case(cx, c, strf("%%%%MatrixMarket matrix coordinate %s general\n%d %d 2\n1 1 2.5%s\n%d 1 3.5%s\n", z ? "real" : "complex", N, N, z ? "" : " 7", N, z ? "" : " 1"), X_ERR, Z, "kind the file holds the other kind of numbers", prev);
      for (int len : {19, 20, 21, 40, 1000}) for (int w = 0; w < 5; w++) { string h; for (int k = 0; k < 5; k++) h += (k ? " " : "") + (k == w ? string(len, 'q') : string(k == 0 ? "%%MatrixMarket" : k == 1 ? "matrix" : k == 2 ? "coordinate" : k == 3 ? ty : "general")); text_case(cx, c, h + strf("\n%d %d 1\n", N, N) + e, X_ANY, one, strf("header word %d of %d characters", w, len), prev); }
      // symmetric storage: each entry stands for both positions
      int np = N * (N + 1) / 2;
      for (int m = 0; m < (1 << np); m++) for (int up = 0; up < 2; up++) { Ref S(N); string t; int n = 0, k = 0; for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++, k++) if (m >> k & 1) { double x = 1.25 + k, y = z ? 0.5 * k - 1 : 0; S(i, j) = S(j, i) = cd(x, y); n++; t += up ? strf("%d %d %g", j + 1, i + 1, x) : strf("%d %d %g", i + 1, j + 1, x); if (z) t += strf(" %g", y); t += "\n"; } if (fits(c, pat_of(S))) text_case(cx, c, head("symmetric") + strf("%d %d %d\n", N, N, n) + t, X_OK2, S, strf("symmetric mask=%x", m), prev); }
    }
  });
  add_groups(gs, tier, "overflow", narrow_cfgs(), [=](Ctx &cx, const Cfg &c) { // more entries than the capacity of a row
    for (int k = 0; k < NFAM; k++) for (int sym = 0; sym < 2; sym++) for (int pv : {0, 1}) { Ref A = family(c.N, k, c, 0); if (sym) for (int i = 0; i < c.N; i++) for (int j = 0; j < i; j++) A(j, i) = A(i, j); if (!fits(c, pat_of(family(c.N, pv, c, 5)))) continue; string t; int n = 0;
      for (int i = 0; i < c.N; i++) for (int j = 0; j < c.N; j++) if (A(i, j) != cd(0) && (!sym || j <= i)) { n++; t += strf("%d %d %g", i + 1, j + 1, A(i, j).real()); if (c.cplx()) t += strf(" %g", A(i, j).imag()); t += "\n"; }
      text_case(cx, c, strf("%%%%MatrixMarket matrix coordinate %s %s\n%d %d %d\n", c.cplx() ? "complex" : "real", sym ? "symmetric" : "general", c.N, c.N, n) + t, fits(c, pat_of(A)) ? X_OK2 : X_ERR, A, strf("capacity family %s", FAMN[k]), family(c.N, pv, c, 5)); }
  });
  add_groups(gs, tier, "shortwrite", cfgs(1, th ? 3 : 2), [=](Ctx &cx, const Cfg &c) { for (unsigned long m : masks(c.N, false)) { if (c.N == 3 && m % 11 != 3) continue; short_case(cx, c, hard(pattern(c.N, m, c, 0), c, m), strf("mask=%lx", m)); } });
  add_groups(gs, tier, "nofile", cfgs(1, 2), [=](Ctx &cx, const Cfg &c) {
    const char *dir = getenv("BMLCHECK_TMP"); string paths[] = {scratch("missing.mtx"), scratch("nodir") + "/x.mtx", dir ? string(dir) : string("/tmp")};
    for (int k = 0; k < 3; k++) for (int wr = 0; wr < 2; wr++) {
      if (wr && k == 0) continue; string sig = SIG(wr ? "write_nofile" : "read_nofile"); cx.cursig = sig; const char *kn[] = {"missing file", "missing directory", "directory"};
      if (!cx.next([&] { return c.str() + (wr ? " write to a " : " read from a ") + kn[k]; })) continue;
      Ref A = family(c.N, 2, c, 0); void *a = mk(cx, c, A, 0); if (!a) continue; vector<char> fn(paths[k].begin(), paths[k].end()); fn.push_back(0);
      Outcome o = call([&] { if (wr) bml_write_bml_matrix(a, fn.data()); else bml_read_bml_matrix(a, fn.data()); });
      cx.trans(); cx.nontrivial++;
      if (o == OK) cx.fail(sig + "|accepted", string(kn[k]) + " was not reported as an error"); else if (o == ASSERTED) cx.fail(sig + "|assert", "failed assertion");
      freem(a); cx.end();
    }
  });
}
static PropReg r11("C11", c11);
