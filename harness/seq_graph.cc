// C13 core-halo submatrices, C15 adjacency lists and group graphs
#include "seq_gen.h"
#include <algorithm>
static string ivs(const vector<int> &v) { string s; for (int x : v) s += strf("%s%d", s.empty() ? "" : ",", x); return "{" + s + "}"; }
static vector<vector<int>> cores(int n, bool all) {
  vector<vector<int>> o;
  for (int m = 1; m < (1 << n); m++) { if (!all && n > 4 && m % 5 != 1) continue; vector<int> v; for (int i = 0; i < n; i++) if (m >> i & 1) v.push_back(i); o.push_back(v); if (v.size() > 1) { vector<int> r(v.rbegin(), v.rend()); o.push_back(r); } if (v.size() > 1 && n <= 3) { v.push_back(v[0]); o.push_back(v); } } // ascending, descending, with a repeated node
  return o;
}
// bound: each index at most once, core first in the given order, then exactly the reachable set
static bool chk_index(Ctx &cx, const string &sig, int N, const vector<int> &nodes, const vector<int> &got, const int *vs, const std::function<bool(int, int)> &edge1, const std::function<bool(int, int)> &edge2, bool dbl, bool slack) {
  vector<int> core; for (int x : nodes) if (std::find(core.begin(), core.end(), x) == core.end()) core.push_back(x);
  if (vs[1] != (int)core.size()) { cx.fail(sig + "|ncore", strf("reports %d core rows, expected %zu", vs[1], core.size())); return false; }
  if (vs[0] < vs[1] || vs[0] > N) { cx.fail(sig + "|size", strf("reports %d indices", vs[0])); return false; }
  vector<char> in(N, 0);
  for (int k = 0; k < vs[0]; k++) { if (got[k] < 0 || got[k] >= N || in[got[k]]) { cx.fail(sig + "|index", "index list " + ivs(got) + strf(" has a repeated or invalid entry at %d", k)); return false; } in[got[k]] = 1; if (k < vs[1] && got[k] != core[k]) { cx.fail(sig + "|core", "core rows are not listed first: " + ivs(got)); return false; } }
  vector<char> w(N, 0); for (int x : core) w[x] = 1;
  vector<char> h = w; for (int x : core) for (int k = 0; k < N; k++) if (edge1(x, k)) h[k] = 1;
  vector<char> hh = h; if (dbl) for (int x = 0; x < N; x++) if (h[x]) for (int k = 0; k < N; k++) if (edge2(x, k)) hh[k] = 1;
  for (int k = 0; k < N; k++) if (hh[k] && !in[k]) { cx.fail(sig + "|missing", strf("row %d is connected but missing in ", k) + ivs(got)); return false; } else if (!hh[k] && in[k] && !slack) { cx.fail(sig + "|extra", strf("row %d is not connected but listed in ", k) + ivs(got)); return false; }
  return true;
}
// A and graph B; core list; whole pipeline index -> extract -> write back
static void ch_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const Ref *G, int rg, const vector<int> &core, int dbl, int capv, const string &d) {
  string sig = SIG(G ? "matrix2submatrix_index" : "matrix2submatrix_index_graph"); cx.cursig = sig; int N = c.N;
  Cfg ca = capvar(c, A, capv % 3), cg = G ? capvar(c, *G, capv / 3) : c; ra = recipe_ok(ca, ra, A) ? ra : 0; if (G) rg = recipe_ok(cg, rg, *G) ? rg : 0;
  if (!cx.next([&] { return c.str() + " op=core-halo " + d + " core=" + ivs(core) + strf(" double_jump=%d capA=%d capG=%d A=", dbl, ca.M, cg.M) + r_str(A) + (G ? " G=" + r_str(*G) : string()); })) return;
  void *a = mk(cx, ca, A, ra), *g = 0; if (!a) return; if (G) { g = mk(cx, cg, *G, rg); if (!g) return; }
  vector<int> nodes = core, idx(N + 1, -77); int vs[2] = {-5, -5};
  Outcome o = call([&] { if (G) bml_matrix2submatrix_index(a, g, nodes.data(), nodes.size(), idx.data(), vs, dbl); else bml_matrix2submatrix_index_graph(a, nodes.data(), nodes.size(), idx.data(), vs, dbl); });
  cx.trans();
  if (!cx.ok(o, sig)) return;
  const Ref &J = G ? *G : A; bool slack = ra == 4 || (G && rg == 4);
  auto e1 = [&](int i, int j) { return J(i, j) != cd(0) || A(i, j) != cd(0); }; auto e2 = [&](int i, int j) { return J(i, j) != cd(0); };
  if (nodes != core) cx.fail(sig + "|operand", "the node list was changed");
  if (idx[N] != -77) cx.fail(sig + "|bounds", "index written past the matrix size");
  if (chk_index(cx, sig, N, core, idx, vs, e1, e2, dbl == 1, slack)) {
    int L = vs[0]; sig = SIG("matrix2submatrix"); cx.cursig = sig; Cfg cs; cs.fmt = F_DENSE; cs.prec = c.prec; cs.N = cs.M = L;
    Ref S0 = family(L, 2, cs, 3); void *s = mk(cx, cs, S0, 0); vector<int> ix2(idx.begin(), idx.begin() + L);
    o = call([&] { bml_matrix2submatrix(a, s, ix2.data(), L); }); cx.trans();
    Ref W(L); for (int i = 0; i < L; i++) for (int j = 0; j < L; j++) W(i, j) = A(idx[i], idx[j]);
    if (cx.ok(o, sig) && expect_eq(cx, s, cs, W, sig)) {
      expect_eq(cx, a, ca, A, sig + "|operand"); cx.nontrivial++;
      // write the (changed) submatrix back into a matrix with other contents: exactly the core rows are replaced
      for (int q = 0; q < 2; q++) {
        sig = SIG("submatrix2matrix"); Ref S = q ? r_scale(W, 2) : W; double thr = q ? 30.0 : 0.0;
        void *s2 = mk(cx, cs, S, 0); Ref T = family(N, q ? 2 : 6, c, 5); if (!fits(c, pat_of(T))) T = Ref(N); void *t = mk(cx, c, T, q ? 0 : 5); if (!s2 || !t) return;
        o = call([&] { bml_submatrix2matrix(s2, t, ix2.data(), L, vs[1], thr); }); cx.trans();
        Ref E = T; bool may = false; for (int i = 0; i < vs[1]; i++) { for (int j = 0; j < N; j++) E(idx[i], j) = 0; for (int j = 0; j < L; j++) { cd v = S(i, j); E(idx[i], idx[j]) = std::abs(v) > thr ? v : cd(0); } }
        if (!fits(c, pat_of(E))) may = true;
        if (may && o == ERR) return;
        if (cx.ok(o, sig)) { full_check(cx, t, c, E, sig); expect_eq(cx, s2, cs, S, sig + "|operand"); }
        freem(s2); freem(t);
      }
    }
    freem(s);
  }
  freem(a); freem(g); cx.end();
}
// whole-matrix partition: extract every part with its halo, write all cores back into an empty matrix
static void part_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const vector<vector<int>> &parts, int dbl, const string &d) {
  string sig = SIG("partition"); cx.cursig = sig; int N = c.N;
  if (!cx.next([&] { string s; for (auto &p : parts) s += ivs(p); return c.str() + " op=partition " + d + " parts=" + s + strf(" double_jump=%d A=", dbl) + r_str(A); })) return;
  void *a = mk(cx, c, A, ra), *t = mk_zero(c); if (!a) return; bool okk = true;
  for (auto &p : parts) {
    vector<int> nodes = p, idx(N + 1, -77); int vs[2]; void *s = 0;
    Outcome o = call([&] { bml_matrix2submatrix_index(a, a, nodes.data(), nodes.size(), idx.data(), vs, dbl); s = bml_zero_matrix(F_DENSE, c.prec, vs[0], vs[0], D_SEQ); bml_matrix2submatrix(a, s, idx.data(), vs[0]); bml_submatrix2matrix(s, t, idx.data(), vs[0], vs[1], 0.0); bml_deallocate(&s); });
    cx.trans(3); if (!cx.ok(o, sig)) { okk = false; break; }
  }
  if (okk) { full_check(cx, t, c, A, sig); cx.nontrivial++; }
  freem(a); freem(t); cx.end();
}
static vector<Cfg> ellcfgs(std::initializer_list<int> ns) { vector<Cfg> o; for (int n : ns) ALLPREC { Cfg c; c.fmt = F_ELLPACK; c.prec = prec; c.N = c.M = n; o.push_back(c); } return o; }
static vector<vector<vector<int>>> partitions(int n) { // all set partitions (n<=4), a few beyond
  vector<vector<vector<int>>> o; vector<vector<int>> cur;
  std::function<void(int)> rec = [&](int i) { if (i == n) { o.push_back(cur); return; } for (size_t k = 0; k < cur.size(); k++) { cur[k].push_back(i); rec(i + 1); cur[k].pop_back(); } cur.push_back({i}); rec(i + 1); cur.pop_back(); };
  if (n <= 4) rec(0);
  else { vector<vector<int>> odd(2), two(2), one; for (int i = 0; i < n; i++) { odd[i % 2].push_back(i); two[i >= n / 2].push_back(i); one.push_back({i}); } o = {odd, two, one}; }
  return o;
}
static void c13(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, int sel) {
    int k = sel;
    for (auto &core : cores(c.N, th)) for (int dbl = 0; dbl < 2; dbl++) {
      ch_case(cx, c, A, ra, 0, 0, core, dbl, k % 3, d);
      if (c.N <= 2) { for (unsigned long m = 0; m < (1ul << (c.N * c.N)); m++) { Ref G = pattern(c.N, m, c, 4); ch_case(cx, c, A, ra, &G, (k++) % NRECIPE, core, dbl, k % 9, d); } }
      else { auto ms = masks(3, false); int rep = th ? 6 : 2; for (int q = 0; q < rep; q++) { Ref G = c.N == 3 ? pattern(3, ms[(k * 5 + q * 7) % ms.size()], c, 4) : family(c.N, (k + q * 3) % NFAM, c, 4); ch_case(cx, c, A, ra, &G, (k + q) % NRECIPE, core, dbl, (k + q) % 9, d); } k++; }
    }
    for (auto &p : partitions(c.N)) for (int dbl = 0; dbl < 2; dbl++) part_case(cx, c, A, ra, p, dbl, d);
  };
  add_groups(gs, tier, "corehalo", ellcfgs({1, 2, 3}), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, true, [&](const Ref &A, int ra, const string &d) { if (c.N == 3 && !th && (s++ * 7) % 9 > 1) return; body(cx, c, A, ra, d, s++); }); }, 2);
  add_groups(gs, tier, "corehalo", th ? ellcfgs({4, 5, 7, 9}) : ellcfgs({4, 6}), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d, s++); }); });
  // rows narrower than the matrix; write-backs that do not fit are refused
  vector<Cfg> nar; for (auto &c : narrow_cfgs()) if (c.fmt == F_ELLPACK) nar.push_back(c);
  add_groups(gs, tier, "corehalo_narrow", nar, [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { for (auto &core : cores(c.N, true)) for (int dbl = 0; dbl < 2; dbl++) ch_case(cx, c, A, ra, 0, 0, core, dbl, 0, d); for (auto &p : partitions(c.N)) part_case(cx, c, A, ra, p, s++ % 2, d); }); });
}
static PropReg r13("C13", c13);

// ------------------------------------------------------------------ C15
static void adj_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const vector<int> *hidx, int base, int capv, const string &d) {
  string sig = SIG(hidx ? "adjacency_group" : "adjacency"); cx.cursig = sig; int N = c.N;
  Cfg ca = capvar(c, A, capv); ra = recipe_ok(ca, ra, A) ? ra : 0; if (ra == 4) ra = 1; // stored zeros are structure: left out here
  if (!cx.next([&] { return c.str() + strf(" op=%s base=%d capA=%d ", hidx ? "adjacency_group" : "adjacency", base, ca.M) + d + (hidx ? " rows=" + ivs(*hidx) : string()) + " A=" + r_str(A); })) return;
  void *a = mk(cx, ca, A, ra); if (!a) return;
  int n = hidx ? hidx->size() : N; vector<vector<int>> want(n); int tot = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int ri = hidx ? (*hidx)[i] - 1 : i, rj = hidx ? (*hidx)[j] - 1 : j; if (A(ri, rj) != cd(0) && (hidx || ri != rj)) { want[i].push_back(j + base); tot++; } }
  int *xadj = (int *)malloc((n + 1) * sizeof(int)), *adj = (int *)malloc((tot ? tot : 1) * sizeof(int)); vector<int> h = hidx ? *hidx : vector<int>();
  if (!tot) { free(adj); adj = (int *)malloc(1); }
  Outcome o = call([&] { if (hidx) bml_adjacency_group(a, h.data(), n, xadj, adj, base); else bml_adjacency(a, xadj, adj, base); });
  cx.trans();
  if (cx.ok(o, sig)) {
    cx.nontrivial++; int p = base; bool bad = false;
    for (int i = 0; i <= n && !bad; i++) { if (xadj[i] != p) { cx.fail(sig + "|offset", strf("offset of row %d is %d, expected %d", i, xadj[i], p)); bad = true; } if (i < n) p += want[i].size(); }
    if (!bad) { int q = 0; for (int i = 0; i < n && !bad; i++) for (int w : want[i]) { if (adj[q] != w) { cx.fail(sig + "|list", strf("neighbour entry %d of row %d is %d, expected %d", q, i, adj[q], w)); bad = true; break; } q++; } }
    expect_eq(cx, a, ca, A, sig + "|operand");
  }
  free(xadj); free(adj); freem(a); cx.end();
}
static void grp_case(Ctx &cx, const Cfg &c, const Ref &A, int ra, const vector<int> &hidx, double thr, int capv, const string &d) {
  string sig = SIG("group_matrix"); cx.cursig = sig; int N = c.N, n = hidx.size();
  Cfg ca = capvar(c, A, capv); ra = recipe_ok(ca, ra, A) ? ra : 0;
  if (!cx.next([&] { return c.str() + strf(" op=group_matrix thr=%g capA=%d ", thr, ca.M) + d + " groups start at=" + ivs(hidx) + " A=" + r_str(A); })) return;
  void *a = mk(cx, ca, A, ra), *b = 0; if (!a) return; vector<int> h = hidx;
  Outcome o = call([&] { b = bml_group_matrix(a, h.data(), n, thr); });
  cx.trans();
  if (cx.ok(o, sig)) {
    if (!b) { cx.fail(sig + "|null", "no matrix"); return; }
    auto grp = [&](int i) { int g = 0; while (g + 1 < n && hidx[g + 1] - 1 <= i) g++; return g; };
    vector<char> dir(n * n, 0); bool sym = true;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { if (std::abs(A(i, j)) > thr) dir[grp(i) * n + grp(j)] = 1; if ((A(i, j) != cd(0)) != (A(j, i) != cd(0))) sym = false; }
    Cfg cb = c; cb.N = cb.M = n; Ref g;
    if (bml_get_N(b) != n) cx.fail(sig + "|size", strf("group matrix of size %d for %d groups", bml_get_N(b), n));
    else if (expect_struct(cx, b, sig) && obs(cx, b, cb, g, sig)) {
      cx.nontrivial++;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        bool must = i == j || dir[i * n + j] || (sym && dir[j * n + i]), may = must || dir[j * n + i]; cd x = g(i, j);
        if ((must && x != cd(1)) || (!may && x != cd(0)) || (x != cd(0) && x != cd(1))) { cx.fail(sig + "|value", strf("groups (%d,%d): entry %g%+gi, some element above the threshold: %d, mirrored: %d; got ", i, j, x.real(), x.imag(), dir[i * n + j], dir[j * n + i]) + r_str(g)); i = n; break; }
      }
    }
    expect_eq(cx, a, ca, A, sig + "|operand");
  }
  freem(a); freem(b); cx.end();
}
static vector<vector<int>> groupings(int n) { vector<vector<int>> o; for (int m = 0; m < (1 << (n - 1)); m++) { vector<int> v = {1}; for (int i = 1; i < n; i++) if (m >> (i - 1) & 1) v.push_back(i + 1); o.push_back(v); } return o; }
static void c15(Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  auto body = [=](Ctx &cx, const Cfg &c, const Ref &A, int ra, const string &d, int sel) {
    for (int base = 0; base < 2; base++) for (int cap = 0; cap < 3; cap++) adj_case(cx, c, A, ra, 0, base, cap, d);
    int k = sel; auto gr = groupings(c.N); size_t step = gr.size() > 16 ? (th ? 3 : 9) : 1;
    for (size_t q = sel % step; q < gr.size(); q += step) {
      auto &h = gr[q]; for (int base = 0; base < 2; base++) adj_case(cx, c, A, ra, &h, base, k++ % 3, d);
      for (double thr : {0.0, 8.5, 13.0}) grp_case(cx, c, A, ra, h, thr, k++ % 3, d);
      // symmetric pattern with different magnitudes on the two sides
      Ref S = A; for (int i = 0; i < c.N; i++) for (int j = 0; j < c.N; j++) if (A(i, j) != cd(0) && A(j, i) == cd(0)) S(j, i) = (i + j) % 2 ? 3 : 21;
      for (double thr : {0.0, 8.5}) grp_case(cx, c, S, ra, h, thr, k++ % 3, d + " symmetrized");
    }
    if (c.N <= 4) for (int m = 1; m < (1 << c.N); m++) { vector<int> h; for (int i = 0; i < c.N; i++) if (m >> i & 1) h.push_back(i + 1); if (h[0] != 1) adj_case(cx, c, A, ra, &h, m % 2, 0, d); }
  };
  add_groups(gs, tier, "graph", ellcfgs({1, 2, 3}), [=](Ctx &cx, const Cfg &c) { int s = 0; each_unary(cx, c, true, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d, s++); }); }, 2);
  add_groups(gs, tier, "graph", ellcfgs({4, 5, 6, 8}), [=](Ctx &cx, const Cfg &c) { int s = 0; each_big_unary(cx, c, [&](const Ref &A, int ra, const string &d) { body(cx, c, A, ra, d, s++); }); });
  // covering set of graphs on 4..6 nodes: every pair of edges and its complement
  add_groups(gs, tier, "graph_pairs", th ? ellcfgs({4, 5, 6}) : ellcfgs({4, 5}), [=](Ctx &cx, const Cfg &c) {
    int n = c.N, s = 0; for (int e = 0; e < n * n; e++) for (int f = e; f < n * n; f++) for (int inv = 0; inv < 2; inv++) { if (!th && inv && (e + f) % 3) continue;
      Ref A(n); for (int k = 0; k < n * n; k++) if ((k == e || k == f) != (inv == 1)) A.a[k] = val(k / n, k % n, 0, c.cplx()); int rec = s % NRECIPE; body(cx, c, A, rec, strf("edges %d,%d%s", e, f, inv ? " removed" : ""), s++); }
  });
}
static PropReg r15("C15", c15);
