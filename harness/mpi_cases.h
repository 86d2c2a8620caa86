// Enumeration of the programs of C21 (sending matrices), C22 (distributed matrices), C23 (row partitions and reductions).
extern const char *step_name(int);
enum { NSTEP = 16 };
static string mstr(const MCase &m) {
  string s = strf("%d ranks, %s", m.nr, mops()[m.op].name.c_str());
  if (!m.iv.empty()) { s += " iv="; for (size_t k = 0; k < m.iv.size(); k++) s += strf("%s%ld", k ? "," : "", m.iv[k]); }
  if (mops()[m.op].name == "d:history") { s += " ("; for (size_t k = 1; k < m.iv.size(); k++) s += strf("%s%s", k > 1 ? ", " : "", step_name(m.iv[k])); s += ")"; }
  if (m.frank >= 0) s += strf(" allocation %ld of rank %d fails", m.fault + 1, m.frank);
  if (!m.dv.empty()) { s += " dv="; for (size_t k = 0; k < m.dv.size(); k++) s += strf("%s%g", k ? "," : "", m.dv[k]); }
  s += strf(" %s rec=%s", m.c.str().c_str(), RECN[m.rec]); for (auto &r : m.ms) s += " " + r_str(r);
  return s;
}
struct Emit { // one case per call
  Ctx &cx; Cfg c; int nr; int dev0, dev1; unsigned modes; long cap;
  void operator()(const char *op, const vector<long> &iv, const vector<double> &dv, const vector<Ref> &ms, int rec = 0, int dev = -1, unsigned md = 0, bool lenient = false) {
    MCase m; m.lenient = lenient; m.c = c; m.nr = nr; m.op = mop(op); m.rec = rec; m.iv = iv; m.dv = dv; m.ms = ms;
    if (!cx.next([m] { return mstr(m); })) return;
    cx.leakcheck = false; run(cx, m, md ? md : modes, dev < 0 ? dev0 : dev, cap);
  }
  // every allocation of every chosen rank fails in turn
  void faults(const char *op, const vector<long> &iv, const vector<double> &dv, const vector<Ref> &ms, int rec = 0) {
    MCase m; m.c = c; m.nr = nr; m.op = mop(op); m.rec = rec; m.iv = iv; m.dv = dv; m.ms = ms; m.lenient = true;
    for (int r : {0, 1, nr - 1}) { cx.end(); long n = count_allocs(m, r); m.frank = r;
      for (m.fault = 0; m.fault < n; m.fault++) { if (!cx.next([m] { return mstr(m); })) continue; cx.leakcheck = false; cx.stat("faults", 1); cx.trans(); cx.nontrivial++;
        // a reported error ends the job, so whatever it left behind does not matter: one process per fault
        pid_t pid = fork(); if (!pid) { long f0 = cx.failed; g_reported = false; run(cx, m, m.fault & 1 ? 1u << (MODE_SYNC | MODE_LATE_RECV | MODE_LATE_SEND | MODE_DESC) : 1u, 0, cap); _exit(cx.failed != f0 ? 42 : g_reported ? 40 : 41); }
        int st = 0; waitpid(pid, &st, 0); int code = WIFEXITED(st) ? WEXITSTATUS(st) : 98; if (code == 40 || code == 41) { cx.stat(code == 40 ? "reported" : "survived", 1); cx.stat("schedules", 1); } else if (code == 42) cx.childfailed(); else _exit(code); }
      m.frank = -1; m.fault = -1; }
  }
};
static void mgroup(Groups &gs, const char *prop, const Cfg &c, int nr, int nsh, unsigned modes, int dev, long cap, std::function<void(Emit &)> f) {
  gs.push_back({strf("%s|%d ranks|%s", prop, nr, c.str().c_str()), [=](Ctx &cx) { load(nr); Emit e{cx, c, nr, dev, dev + 1, modes, cap}; f(e); }, nsh});
}
static Cfg mcfg(int fmt, int prec, int N, int M) { Cfg c; c.fmt = fmt; c.prec = prec; c.N = N; c.M = M; return c; }
static Ref hermit(const Ref &a) { Ref r = a; for (int i = 0; i < a.n; i++) for (int j = 0; j <= i; j++) { if (i == j) r(i, i) = r(i, i).real(); else r(j, i) = std::conj(r(i, j)); } return r; }
// ---------------------------------------------------------------- C22
// do the rows of every local block fit the local capacity?
static bool lfits(const Cfg &c, int nr, const Ref &a) { if (c.fmt == F_DENSE || c.fmt == F_CSR) return true; int p = sqrti(nr), n = c.N / p, m = c.M / p; for (int i = 0; i < c.N; i++) for (int q = 0; q < p; q++) { int z = 0; for (int j = 0; j < n; j++) z += a(i, q * n + j) != cd(0); if (z > m) return false; } return true; }
static Ref bpat(const Ref &a) { Ref r = a; for (auto &x : r.a) x = x != cd(0) ? 1 : 0; return r; }
// positions a step may store
static Ref pstep(int s, const Ref &A, const Ref &B) {
  int N = A.n; Ref I = r_id(N), r = A;
  switch (s) { case 0: r = r_lin(A, B, 1, 1); break; case 1: case 3: r = r_lin(A, I, 1, 1); break; case 4: case 13: r = r_tr(A); break; case 5: r = r_mul(A, B); break; case 6: for (int j = 0; j < N; j++) r(N - 1, j) = B(0, j); break; case 7: r = r_lin(A, I, 1, 1); break; case 9: r = B; break; case 10: r = Ref(N); break; }
  return bpat(r);
}
static PropReg rC22("C22", [](Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  for (int nr : {4, 1, 9}) for (int f : {F_DENSE, F_ELLPACK, F_ELLBLOCK, F_CSR}) ALLPREC {
    if (nr == 9 && !th && prec != (f == F_DENSE || f == F_CSR ? P_DR : P_SC)) continue;
    int p = sqrti(nr);
    for (int N : nr == 4 ? vector<int>{2, 4, 6} : nr == 1 ? vector<int>{2, 3} : th ? vector<int>{3, 6} : vector<int>{3}) {
      Cfg c = mcfg(f, prec, N, N);
      // histories: every sequence of steps up to the depth
      mgroup(gs, "history", c, nr, nr == 4 ? 4 : 2, FEW, 0, 20000, [=](Emit &e) {
        vector<std::pair<int, int>> fams = N == 2 ? vector<std::pair<int, int>>{{2, 3}} : N == 6 ? vector<std::pair<int, int>>{{3, 13}} : vector<std::pair<int, int>>{{2, 13}, {6, 4}};
        for (auto &fm : fams) {
          Ref A = family(N, fm.first, c, 0), B = family(N, fm.second, c, 4);
          for (int s = 0; s < NSTEP; s++) for (int ord = 0; ord < 2; ord++) e("d:history", {ord, s}, {1}, {A, B}, 0, -1, ALLM);
          if (nr < 9 && N <= 4 || th) for (int s = 0; s < NSTEP; s++) for (int t = 0; t < NSTEP; t++) e("d:history", {(s + t) & 1, s, t}, {0}, {A, B});
          if (th && prec == P_DC && nr == 4 && N == 4) for (int s = 0; s < NSTEP; s++) for (int t = 0; t < NSTEP; t++) for (int u = 0; u < NSTEP; u++) e("d:history", {u & 1, s, t, u}, {0}, {A, B}, 0, -1, 1u | 1u << (MODE_SYNC | MODE_DESC | MODE_LATE_RECV | MODE_LATE_SEND));
        }
      });
      // single operations on every pattern family / every small pattern
      mgroup(gs, "operations", c, nr, 4, FEW, 0, 20000, [=](Emit &e) {
        e("d:create", {}, {}, {}, 0, -1, ALLM);
        if (nr > 1) for (int k = 0; k < 25; k++) e("d:other", {k}, {}, {family(N, 2, c, 0), family(N, 13, c, 4)});
        if (nr == 9 && !th) { Ref A = family(N, 13, c, 0), B = family(N, 2, c, 4); for (int i = 0; i < 2; i++) { e("d:history", {i}, {0}, {A}); e("d:export_order", {i}, {}, {B}); e("d:set_rows", {i}, {0}, {A, B}); } e("d:numbers", {}, {}, {A, B}); e("d:io", {}, {}, {A, B}); e("d:multiply", {}, {2, -1, 0}, {A, B, A}); e("d:normalize", {}, {-4, 12}, {A}); return; }
        vector<Ref> ms; if (N == 2) for (unsigned long m = 0; m < 16; m++) ms.push_back(pattern(2, m, c, 0)); else for (int k = 0; k < NFAM; k++) ms.push_back(family(N, k, c, 0));
        vector<Ref> ns; if (N == 2) for (unsigned long m : {0ul, 6ul, 9ul, 15ul, 4ul}) ns.push_back(pattern(2, m, c, 4)); else for (int k : {2, 13, 6, 0, 8}) ns.push_back(family(N, k, c, 4));
        for (size_t a = 0; a < ms.size(); a++) {
          const Ref &A = ms[a];
          for (int i = 0; i < 2; i++) { e("d:history", {i}, {0}, {A}); e("d:export_order", {i}, {}, {A}); }
          for (double t : {0.0, 3.5, 1e6}) { e("d:import_threshold", {}, {t}, {A}); e("d:threshold", {}, {t}, {A}); }
          for (double s : {0.0, 1.0, -2.0}) e("d:scale", {}, {s}, {A, ns[a % 5]});
          for (double al : {1.0, -2.0, 0.0}) for (double th : {0.0, 2.5}) e("d:identities", {}, {al, 3, th}, {A});
          e("d:normalize", {}, {-4, 12}, {A}); e("d:normalize", {}, {-6, 2}, {A}); e("d:multiply_x2", {}, {}, {A}); e("d:multiply_x2", {}, {2.5}, {A}); e("d:multiply_x2", {}, {0}, {A, ns[a % 5]});
          for (int g : {F_DENSE, F_ELLPACK, F_ELLBLOCK, F_CSR}) { e("d:convert", {g, 0, 0}, {}, {A}); for (int pr : {P_SR, P_DR, P_SC, P_DC}) if (pr != prec && (th || (a + pr + g) % 3 == 0)) e("d:convert", {g, pr, 0}, {}, {A}); if (th || a % 4 == 1) for (int md : {1, 2}) for (int pr : {0, (int)(prec == P_DR ? P_SC : P_DR)}) e("d:convert", {g, pr, md}, {}, {A}, 0, -1, 0, true); }
          if (th || a % 3 == 1 || N == 2) for (int il = 0; il < N; il += N > 2 ? 2 : 1) for (int iu = N; iu > il; iu -= 3) for (int jl = 0; jl < N; jl += 3) e("d:print", {il, iu, jl, N - (il & 1)}, {}, {A});
          e("d:io", {}, {}, {A, ns[a % 5]});
          for (int r = 0; r < 2; r++) e("d:set_rows", {r}, {r * 2.5}, {A, ns[(a + 1) % 5]});
          for (size_t b = 0; b < ns.size(); b++) {
            const Ref &B = ns[b];
            if (th || (a + b) % 2 == 0 || N == 2) { e("d:numbers", {}, {}, {A, B}); e("d:numbers", {}, {}, {hermit(A), hermit(B)}); }
            for (auto ab : {std::pair<double, double>{1, 1}, {2, -1}, {0, 1}, {1, 0}}) e("d:add", {}, {ab.first, ab.second, b == 3 ? 2.5 : 0}, {A, B});
            if (th || b < 2) { e("d:add_norm", {}, {1, -2}, {A, B}); e("d:add_norm", {}, {2, 1, 2.5}, {A, B}); }
            for (auto ab : {std::pair<double, double>{1, 0}, {-2, 0}, {1, 1}, {2, -1}, {0, 1}}) for (double t : {0.0, 2.5}) if (t == 0 || (a + b) % 3 == 0) e("d:multiply", {}, {ab.first, ab.second, t}, {A, B, ns[(a + b) % 5]});
          }
        }
      });
      // local blocks with fewer places per row than columns
      if ((f == F_ELLPACK || f == F_CSR) && (th || prec == P_SR || prec == P_DC) && (N == 6 || nr == 1)) for (int M : nr == 4 ? vector<int>{2, 4} : nr == 1 ? vector<int>{1} : vector<int>{3}) { Cfg w = mcfg(f, prec, N, M); mgroup(gs, "narrow", w, nr, 2, FEW, 0, 20000, [=](Emit &e) {
        vector<Ref> ms; for (int k = 0; k < NFAM; k++) for (int sd : {0, 4}) { Ref A = family(N, k, w, sd); if (lfits(w, nr, A)) ms.push_back(A); }
        // sparse matrices with one or two elements in a row of each block, at varying places
        for (int v = 0; v < (th ? 12 : 6); v++) { Ref A(N); int n = N / sqrti(nr); for (int i = 0; i < N; i++) for (int q = 0; q < sqrti(nr); q++) for (int z = 0; z < M / sqrti(nr); z++) { int j = q * n + (i * (v + 1) + v / 2 + z) % n; if ((i + q + v) % 4) A(i, j) = cd(i - j + 7 * (z + 1), w.cplx() ? j - 2 : 0); } ms.push_back(A); }
        for (size_t a = 0; a < ms.size(); a++) {
          const Ref &A = ms[a], &B = ms[(a * 5 + 2) % ms.size()], &C = ms[(a * 3 + 1) % ms.size()];
          e("d:export_order", {0}, {}, {A}); e("d:import_threshold", {}, {3.5}, {A}); e("d:threshold", {}, {3.5}, {A}); e("d:scale", {}, {-2}, {A, B}); e("d:io", {}, {}, {A, B}); e("d:convert", {F_DENSE, 0, 0}, {}, {A}); e("d:convert", {f, (int)(prec == P_DR ? P_SR : P_DR), 0}, {}, {A}); e("d:numbers", {}, {}, {A, B}, 0, -1, 0, !lfits(w, nr, r_tr(A)) || !lfits(w, nr, r_tr(B)));
          for (int s = 0; s < NSTEP; s++) for (int t = -1; t < NSTEP; t++) {
            if (t >= 0 && !th && (a + s * 3 + t) % 9) continue;
            Ref P = pstep(s, bpat(A), bpat(B)); bool ok = lfits(w, nr, P); if (t >= 0 && ok) { Ref Q = pstep(t, P, bpat(B)); ok = lfits(w, nr, Q); }
            if (t < 0) e("d:history", {0, s}, {0}, {A, B}, 0, -1, 0, !ok); else e("d:history", {0, s, t}, {0}, {A, B}, 0, -1, 0, !ok);
          }
          for (double t : {0.0, 2.5}) { bool ok = lfits(w, nr, r_lin(bpat(A), bpat(B), 1, 1)); e("d:add", {}, {2, 3, t}, {A, B}, 0, -1, 0, !ok); bool okp = lfits(w, nr, r_lin(r_mul(bpat(A), bpat(B)), bpat(C), 1, 1)); e("d:multiply", {}, {2, t ? 0. : 1., t}, {A, B, C}, 0, -1, 0, !okp); e("d:multiply_x2", {}, {t}, {A}, 0, -1, 0, !lfits(w, nr, r_mul(bpat(A), bpat(A)))); }
        }
      }); }
      // schedules with deviations from the base modes
      if (nr == 4 && (N == 4 || N == 2) && (th || prec == P_DR || prec == P_SC)) mgroup(gs, "schedules", c, nr, 8, FEW, th ? 2 : 1, th ? 400000 : 1500, [=](Emit &e) {
        Ref A = family(N, 2, c, 0), B = family(N, 13, c, 4);
        e("d:multiply", {}, {1, 0, 0}, {A, B, B}); e("d:history", {0, 4}, {0}, {A, B}); e("d:io", {}, {}, {A, B}); e("d:numbers", {}, {}, {A, B}, 0, 1);
        e("d:normalize", {}, {-4, 12}, {A}); e("d:set_rows", {0}, {0}, {A, B}, 0, 1); e("d:convert", {F_DENSE, 0, 0}, {}, {A}); e("d:multiply", {}, {2, -1, 0}, {B, A, A}); e("d:history", {1, 13, 5}, {0}, {A, B}, 0, 1); e("d:create", {}, {}, {}, 0, 1);
      });
    }
  }
});
// ---------------------------------------------------------------- C21
static vector<Cfg> sendcfgs(int f, int prec, bool th) {
  vector<Cfg> o; auto add = [&](int N, int M) { o.push_back(mcfg(f, prec, N, M)); };
  add(2, 2); add(3, 3); add(1, 1);
  if (f == F_ELLPACK) { add(4, 1); add(4, 2); add(3, 6); }
  if (f == F_CSR) { add(4, 1); add(4, 2); add(3, 6); add(12, 2); }
  if (f == F_ELLBLOCK) { Cfg c = mcfg(f, prec, 5, 5); c.bs = {2, 1, 2}; o.push_back(c); c.MB = 1; c.bs = {1, 2, 2}; o.push_back(c); c = mcfg(f, prec, 4, 4); c.bs = {4}; o.push_back(c); add(12, 12); add(10, 4); }
  if (th || f != F_ELLBLOCK) add(9, 9);
  if (th) add(20, 20);
  return o;
}
static PropReg rC21("C21", [](Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  for (int f : {F_DENSE, F_ELLPACK, F_ELLBLOCK, F_CSR}) ALLPREC for (auto &c : sendcfgs(f, prec, th)) {
    auto mats = [c](int seed) { vector<Ref> o; if (c.N <= 2) for (unsigned long m = 0; m < (1ul << c.N * c.N); m++) o.push_back(pattern(c.N, m, c, seed)); else for (int k = 0; k < NFAM; k++) o.push_back(family(c.N, k, c, seed)); vector<Ref> q; for (auto &r : o) if (c.fmt == F_CSR || fits(c, pat_of(r))) q.push_back(r); return q; };
    mgroup(gs, "send", c, 4, 4, FEW, 0, 20000, [=](Emit &e) {
      vector<Ref> S = mats(0), H = mats(4);
      for (size_t a = 0; a < S.size(); a++) for (size_t b = 0; b < H.size(); b++) {
        if (c.N > 2 && !th && (a + b) % 3) continue;
        if (c.N == 2 && !th && H.size() > 8 && b % 5 != a % 5) continue;
        int rec = (a * 3 + b) % NRECIPE; if (!recipe_ok(c, rec, S[a]) || !recipe_ok(c, (rec + 3) % 6, H[b])) { rec = 0; if (!recipe_ok(c, 3, H[b])) continue; }
        for (int kind = 0; kind < 3; kind++) { if (kind == 2 && !c.bs.empty()) continue; if (kind == 2 && b) continue; int use = c.M >= c.N && !c.MB; e("s:send", {(long)(a + b) % 4, (long)(a + b + 1 + kind) % 4, kind, 0, use}, {}, {S[a], H[b]}, rec); }
        if ((a + b) % 4 == 0) { e("s:send", {0, 1, (long)(a % 2), 1, 0}, {}, {S[a], H[b]}, rec); e("s:send", {1, 0, (long)(a % 2), 2, 0}, {}, {S[a], H[b]}, rec); }
      }
    });
    mgroup(gs, "patterns of communication", c, 4, 4, FEW, 0, 20000, [=](Emit &e) {
      vector<Ref> S = mats(0); size_t n = S.size();
      for (size_t a = 0; a < n; a += n > 8 && !th ? 3 : 1) {
        vector<Ref> ms = {S[a], S[(a + n / 2) % n], S[(a * 2 + 1) % n]}; for (auto &x : ms) if (!recipe_ok(c, 0, x)) return;
        for (int i = 0; i < 2; i++) { e("s:exchange", {i}, {}, ms); e("s:gather", {i}, {}, ms); } e("s:ring", {}, {}, ms); for (int i = 0; i < 3; i++) e("s:twice", {i}, {}, ms);
        for (int root = 0; root < 4; root++) e("s:bcast", {root, 0}, {}, ms); for (int root = 0; root < 2; root++) e("s:bcast", {root, 2}, {}, ms); e("s:bcast", {0, 1}, {}, ms); e("s:bcast", {2, 1}, {}, ms);
      }
    });
    if (c.N == 3 || (th && c.N <= 5)) mgroup(gs, "schedules", c, 4, 4, th ? ALLM : FEW, th ? 2 : 1, th ? 60000 : 2000, [=](Emit &e) {
      Ref A = family(c.N, c.M < c.N || c.MB ? 1 : 13, c, 0), B = family(c.N, 1, c, 4), Z = family(c.N, 0, c, 2); vector<Ref> ms = {A, B, Z}; for (auto &x : ms) if (!fits(c, pat_of(x))) return;
      for (int kind = 0; kind < 2; kind++) e("s:send", {2, 0, kind, 0, 0}, {}, {A, B});
      e("s:exchange", {0}, {}, ms); e("s:ring", {}, {}, ms); e("s:gather", {0}, {}, ms); e("s:gather", {1}, {}, ms); for (int i = 0; i < 3; i++) e("s:twice", {i}, {}, ms); e("s:bcast", {1, 0}, {}, ms); e("s:bcast", {1, 2}, {}, ms);
    });
  }
});
// ---------------------------------------------------------------- C23
static PropReg rC23("C23", [](Groups &gs, const string &tier) {
  bool th = tier == "thorough";
  for (int nr : th ? vector<int>{4, 1, 9} : vector<int>{4, 1}) {
    mgroup(gs, "default domains", mcfg(F_DENSE, P_DR, 1, 1), nr, 2, FEW, 0, 20000, [=](Emit &e) { for (int N = 1; N <= (th ? 60 : 24); N++) for (int M : {1, 2, N, N + 3}) e("r:default_domain", {N, M}, {}, {}); });
    mgroup(gs, "reductions", mcfg(F_DENSE, P_DR, 1, 1), nr, 2, ALLM, th ? 2 : 1, th ? 200000 : 3000, [=](Emit &e) {
      const double al[] = {0, -3.5, 7, 1e10};
      if (nr <= 4) { int tot = 1; for (int r = 0; r < nr; r++) tot *= 4; for (int k = 0; k < tot; k++) { vector<double> v; int x = k; for (int r = 0; r < nr; r++, x /= 4) v.push_back(al[x % 4]); e("r:reduce", {}, v, {}, 0, k % 37 == 1 ? -1 : 0); } }
      else for (int k = 0; k < 40; k++) { vector<double> v; for (int r = 0; r < nr; r++) v.push_back(al[(k * r + k / 3 + r) % 4]); e("r:reduce", {}, v, {}, 0, 0); }
    });
    for (int f : {F_DENSE, F_ELLPACK}) ALLPREC for (int N : {4, 7}) for (int nar = 0; nar < (f == F_ELLPACK ? 2 : 1); nar++) {
      Cfg c = mcfg(f, prec, N, nar ? 4 : N);
      if (nar && N == 4) c.M = 6;
      mgroup(gs, "gather", c, nr, 4, FEW, 0, 20000, [=](Emit &e) {
        // every way of dividing the rows among the ranks (some may have none), as parts of equal length
        vector<vector<long>> comps; std::function<void(vector<long>, int)> rec = [&](vector<long> v, int left) { if ((int)v.size() == nr - 1) { v.push_back(left); comps.push_back(v); return; } for (int x = 0; x <= left; x++) { auto w = v; w.push_back(x); rec(w, left - x); } };
        if (nr <= 4) rec({}, N); else { vector<long> v(nr, 0); for (int i = 0; i < N; i++) v[(i * 4) % nr]++; comps.push_back(v); v.assign(nr, 0); v[0] = N; comps.push_back(v); v.assign(nr, 0); v[nr - 1] = N - 1; v[2] = 1; comps.push_back(v); }
        int at = 0;
        for (auto &w : comps) for (int op = 0; op < 22; op++) {
          at++; if (nr <= 4 && comps.size() > 40 && !th && (at % 3)) continue;
          vector<long> iv = {op}; for (size_t r = 0; r < w.size(); r++) { long x = w[r], parts = x % 2 == 0 && x && (r + op) % 2 ? 2 : 1; iv.push_back((parts == 0 ? 1 : parts) * 100 + x); }
          for (int fm : nar && c.M < N ? vector<int>{1, 3} : vector<int>{2, 13}) { if (nar && c.M < N && fm == 3 && (op == 3 || op == 4 || op == 13)) continue; Ref A = family(N, fm, c, 0), B = family(N, nar && c.M < N ? 1 : fm == 2 ? 3 : 12, c, 4); e("r:gather", iv, {}, {A, B}, fm == 2 ? 0 : 5); }
        }
      });
      if (N == 4 && !nar && nr == 4) mgroup(gs, "gather schedules", c, nr, 4, FEW, th ? 2 : 1, th ? 200000 : 2000, [=](Emit &e) { Ref A = family(N, 2, c, 0), B = family(N, 3, c, 4); for (int op : {0, 1, 4, 5}) e("r:gather", {op, 101, 102, 100, 101}, {}, {A, B}); });
    }
  }
});
// ---------------------------------------------------------------- C31: allocations fail in one rank
static PropReg rC31("C31", [](Groups &gs, const string &tier) {
  bool th = tier == "thorough"; unsigned two = 1;
  for (int f : {F_DENSE, F_ELLPACK, F_ELLBLOCK, F_CSR}) ALLPREC {
    if (!th && prec != (f == F_DENSE || f == F_CSR ? P_DR : P_SR) && prec != (f == F_DENSE || f == F_ELLBLOCK ? P_SC : P_DC)) continue;
    mgroup(gs, "distributed", mcfg(f, prec, 4, 4), 4, 4, two, 0, 20000, [=](Emit &e) {
      const Cfg &c = e.c; int N = c.N;
      for (int q = 0; q < (th ? 3 : 1); q++) {
        Ref A = family(N, q == 0 ? 13 : q == 1 ? 2 : 6, c, 0), B = family(N, q == 0 ? 2 : 3, c, 4); vector<Ref> AB = {A, B};
        e.faults("d:create", {}, {}, {}); for (int s = 0; s < NSTEP; s++) e.faults("d:history", {s & 1, s}, {1}, AB);
        e.faults("d:export_order", {1}, {}, {A}); e.faults("d:import_threshold", {}, {3.5}, {A}); e.faults("d:numbers", {}, {}, AB); if (f != F_CSR) e.faults("d:add_norm", {}, {1, -2}, AB); e.faults("d:add", {}, {2, -1, 2.5}, AB); e.faults("d:identities", {}, {2, 3, 0}, {A});
        e.faults("d:multiply", {}, {2, -1, 0}, {A, B, A}); e.faults("d:multiply", {}, {1, 0, 2.5}, {A, B, A}); e.faults("d:multiply_x2", {}, {}, {A}); e.faults("d:scale", {}, {-2}, AB); e.faults("d:threshold", {}, {3.5}, {A}); e.faults("d:set_rows", {0}, {0}, AB); e.faults("d:normalize", {}, {-4, 12}, {A});
        for (int g : {F_DENSE, F_ELLPACK, F_ELLBLOCK, F_CSR}) e.faults("d:convert", {g, 0, 0}, {}, {A}); e.faults("d:convert", {F_ELLPACK, (int)(prec == P_DR ? P_SC : P_DR), 0}, {}, {A}); e.faults("d:io", {}, {}, AB);
      }
    });
    for (auto &c : sendcfgs(f, prec, false)) { if (c.N < 3 || (c.N > 5 && !th && f != F_CSR)) continue; mgroup(gs, "send", c, 4, 2, two, 0, 20000, [=](Emit &e) {
      vector<Ref> ms; for (int k : {13, 2, 1, 12, 3, 0}) { Ref A = family(c.N, k, c, ms.size() * 2); if ((c.fmt == F_CSR || fits(c, pat_of(A))) && ms.size() < 3) ms.push_back(A); } if (ms.size() < 3) return;
      for (int kind = 0; kind < (c.bs.empty() ? 3 : 2); kind++) e.faults("s:send", {1, 0, kind, 0, 0}, {}, {ms[0], ms[1]});
      e.faults("s:exchange", {0}, {}, ms); e.faults("s:twice", {1}, {}, ms); e.faults("s:gather", {0}, {}, ms); e.faults("s:bcast", {0, 0}, {}, ms); e.faults("s:bcast", {1, 2}, {}, ms);
    }); }
    if (f == F_DENSE || f == F_ELLPACK) mgroup(gs, "row partitions", mcfg(f, prec, 4, 4), 4, 2, two, 0, 20000, [=](Emit &e) { Ref A = family(4, 2, e.c, 0), B = family(4, 3, e.c, 4); for (int op = 0; op < 22; op++) e.faults("r:gather", {op, 101, 102, 100, 101}, {}, {A, B}); });
  }
  mgroup(gs, "default domains", mcfg(F_DENSE, P_DR, 1, 1), 4, 1, two, 0, 20000, [=](Emit &e) { for (int N : {1, 5, 12}) e.faults("r:default_domain", {N, 2}, {}, {}); });
});
