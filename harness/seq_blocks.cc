// C25: the process-wide choice of block sizes never shows in what the constructors return, in any order of constructions
#include "seq_core.h"
#include "seq_gen.h"
static const struct { const char *n; int N; vector<int> bs; } BC[] = {
  {"block{1,2,1}", 4, {1, 2, 1}}, {"block{2,3}", 5, {2, 3}}, {"block{4}", 4, {4}}, {"zero(4)", 4, {}}, {"zero(5)", 5, {}}, {"identity(9)", 9, {}}, {"banded(4)", 4, {}}, {"import(4)", 4, {}}, {"convert(5)", 5, {}}, {"noinit+clear(9)", 9, {}}};
enum { NBC = 10 };
static void hist(Ctx &cx, const vector<int> &seq) {
  string d; for (int s : seq) d += string(d.empty() ? "" : "; ") + BC[s].n;
  string sig = "block_history"; cx.cursig = sig;
  if (!cx.next([=] { return "ellblock constructions in one process: " + d; })) return;
  cx.leakcheck = false; // the process keeps its default block sizes
  vector<void *> ms; vector<Ref> rs; vector<Cfg> cs;
  for (size_t k = 0; k < seq.size(); k++) {
    int s = seq[k]; Cfg c; c.fmt = F_ELLBLOCK; c.prec = P_SR + (k * 2 + s) % 4; c.N = c.M = BC[s].N; c.bs = BC[s].bs; Ref w(c.N); void *m = 0; vector<int> bs = c.bs; bool free_values = false;
    Outcome o = call([&] {
      if (s < 3) m = bml_block_matrix(F_ELLBLOCK, c.prec, bs.size(), bs.size(), c.M, bs.data(), D_SEQ);
      else if (s < 5) m = bml_zero_matrix(F_ELLBLOCK, c.prec, c.N, c.M, D_SEQ);
      else if (s == 5) m = bml_identity_matrix(F_ELLBLOCK, c.prec, c.N, c.M, D_SEQ);
      else if (s == 6) { m = bml_banded_matrix(F_ELLBLOCK, c.prec, c.N, 3, D_SEQ); free_values = true; }
      else if (s == 7) { Ref f = family(c.N, 6, c, 0); Buf b(c.prec, c.N * c.N); for (int q = 0; q < c.N * c.N; q++) b.set(q, f.a[q]); m = bml_import_from_dense(F_ELLBLOCK, c.prec, ROWMAJ, c.N, c.M, b.p(), 0, D_SEQ); w = f; }
      else if (s == 8) { Cfg e = c; e.fmt = F_DENSE; Ref f = family(c.N, 3, c, 0); void *x = mk(cx, e, f, 0); m = bml_convert(x, F_ELLBLOCK, c.prec, c.M, D_SEQ); freem(x); w = f; }
      else { m = bml_noinit_matrix(F_ELLBLOCK, c.prec, c.N, c.M, D_SEQ); bml_clear(m); }
    });
    cx.trans(); if (!cx.ok(o, sig)) return;
    if (!m) { cx.fail(sig + "|null", "no matrix returned"); return; }
    if (s == 5) w = r_id(c.N);
    if (free_values) { Ref g; if (!obs(cx, m, c, g, sig)) return; w = g; for (int i = 0; i < c.N; i++) for (int j = 0; j < c.N; j++) if (abs(i - j) > 3 && g(i, j) != cd(0)) cx.fail(sig + "|band", "an element outside the band"); }
    if (s < 3) { for (int i = 0; i < c.N; i++) for (int j = 0; j < c.N; j++) if ((i + j) % 2 == 0) { Buf b(c.prec, 1); b.set(0, 3 + i); bml_set_element(m, i, j, b.p()); w(i, j) = 3 + i; } }
    ms.push_back(m); rs.push_back(w); cs.push_back(c);
    for (size_t q = 0; q < ms.size(); q++) if (!full_check(cx, ms[q], cs[q], rs[q], sig)) return;
  }
  cx.nontrivial++;
  for (size_t q = 0; q < ms.size(); q++) { Outcome o = call([&] { Buf b(cs[q].prec, 1); b.set(0, 7); int n = cs[q].N; bml_set_element(ms[q], n - 1, 0, b.p()); void *t = bml_transpose_new(ms[q]); bml_deallocate(&ms[q]); ms[q] = t; }); rs[q](cs[q].N - 1, 0) = 7; rs[q] = r_tr(rs[q]); if (!cx.ok(o, sig)) return; if (!full_check(cx, ms[q], cs[q], rs[q], sig + "|after")) return; }
  for (auto &m : ms) freem(m);
  cx.end();
}
static void reg(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  // one process per history: the block sizes are chosen once
  for (int a = 0; a < NBC; a++) for (int b = 0; b < NBC; b++) for (int c = 0; c < NBC; c++) { if (!th && (a * 7 + b * 3 + c) % 2) continue; vector<int> s = {a, b, c}; if (th) s.push_back((a + b + 2 * c) % NBC);
    gs.push_back({strf("block_history|%d %d %d", a, b, c), [=](Ctx &cx) { hist(cx, s); }}); }
}
static PropReg r25b("C25", reg);
