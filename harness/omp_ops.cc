// C20: every operation under every schedule (within a preemption bound) of small thread teams.
#include "ops.h"
#include "omp_explore.h"
#include <algorithm>
struct Res { Outcome o; string mats; vector<double> num; vector<int> ints; vector<Ref> refs; };
static bool obsm(Ctx &cx, void *M, Ref &r) {
  Cfg d; d.prec = bml_get_precision(M); d.N = bml_get_N(M); string dummy; Ref out(d.N); void *e = 0;
  Outcome o = call([&] { e = bml_export_to_dense(M, ROWMAJ); }); if (o != OK) return false;
  for (size_t k = 0; k < out.a.size(); k++) out.a[k] = elem_get(e, d.prec, k);
  bml_free_memory(e); r = out; return true;
}
static bool run_once(Ctx &cx, const Cfg &c, const OOp &op, const Ref &RA, int ra, const Ref &RB, int rb, int team, Res &res, const string &sig) {
  omp_team(1);
  void *A = op.opnds & 1 ? mk(cx, c, RA, ra) : 0, *B = op.opnds & 2 ? mk(cx, c, RB, rb) : 0; Ob ob;
  if ((op.opnds & 1 && !A) || (op.opnds & 2 && !B)) return false;
  omp_run_begin(team);
  res.o = call([&] { op.run(c, A, B, ob); });
  omp_run_end();
  if (res.o != OK) { res.mats = g_errtext; return true; }
  res.num = ob.num; res.ints = ob.ints;
  for (void *M : {A, B}) if (M) { Ref r; if (!obsm(cx, M, r)) { cx.fail(sig + "|observe", "exporting an operand failed"); return false; } res.refs.push_back(r); if (!expect_struct(cx, M, sig)) return false; }
  for (void *M : ob.out) { Ref r; if (!M || !obsm(cx, M, r)) { cx.fail(sig + "|observe", "exporting the result failed"); return false; } res.refs.push_back(r); if (!expect_struct(cx, M, sig)) return false; }
  freem(A); freem(B); for (void *&M : ob.out) freem(M);
  return true;
}
static string differs(const Cfg &c, const Res &b, const Res &r, double tolm) {
  if (b.o != r.o) return "one thread: " + string(b.o == OK ? "success" : "error") + ", team: " + (r.o == OK ? "success" : "error " + r.mats);
  if (b.o != OK) return "";
  if (b.refs.size() != r.refs.size() || b.num.size() != r.num.size() || b.ints.size() != r.ints.size()) return "different number of results";
  for (size_t k = 0; k < b.refs.size(); k++) for (size_t i = 0; i < b.refs[k].a.size(); i++) if (!near(r.refs[k].a[i], b.refs[k].a[i], tolm)) return strf("matrix %zu element (%d,%d): team %.17g%+.17gi, one thread %.17g%+.17gi", k, (int)(i / b.refs[k].n), (int)(i % b.refs[k].n), r.refs[k].a[i].real(), r.refs[k].a[i].imag(), b.refs[k].a[i].real(), b.refs[k].a[i].imag());
  for (size_t k = 0; k < b.num.size(); k++) if (!(b.num[k] == r.num[k] || (std::isnan(b.num[k]) && std::isnan(r.num[k])) || fabs(b.num[k] - r.num[k]) <= 256 * c.eps() * (1 + fabs(b.num[k])))) return strf("number %zu: team %.17g, one thread %.17g", k, r.num[k], b.num[k]);
  for (size_t k = 0; k < b.ints.size(); k++) if (b.ints[k] != r.ints[k]) return strf("integer %zu: team %d, one thread %d", k, r.ints[k], b.ints[k]);
  return "";
}
extern "C" const void *omp_reached(int k);
static void c20(Groups &gs, const string &tier) {
  bool th = tier == "thorough"; static OOps ops = all_ops();
  vector<Cfg> cs;
  for (int n : th ? vector<int>{2, 3, 4, 5, 7} : vector<int>{3, 5}) for (int f = F_DENSE; f <= F_CSR; f++) ALLPREC {
    Cfg c; c.fmt = f; c.prec = prec; c.N = c.M = n;
    if (f == F_ELLBLOCK) { c.bs = n == 2 ? vector<int>{1, 1} : n == 3 ? vector<int>{1, 2} : n == 4 ? vector<int>{2, 1, 1} : n == 5 ? vector<int>{2, 1, 2} : vector<int>{2, 2, 3}; }
    cs.push_back(c);
  }
  struct Pl { int team, pre; long cap; };
  vector<Pl> pl = th ? vector<Pl>{{2, 6, 20000}, {3, 3, 20000}, {4, 2, 10000}} : vector<Pl>{{2, 4, 600}, {3, 3, 600}};
  static const int pairs[][2] = {{2, 3}, {13, 6}, {4, 5}, {9, 10}, {3, 3}, {11, 2}};
  for (auto &c : cs) gs.push_back({"schedules|" + c.str(), [=](Ctx &cx) {
    prewarm(c); { Cfg e = c; e.fmt = F_ELLBLOCK; if (c.fmt != F_ELLBLOCK) e.bs.clear(); prewarm(e); } int np = th ? 6 : 4;
    for (auto &op : ops) {
      if (op.pre && !op.pre(c)) continue;
      for (int q = 0; q < (op.opnds ? np : 1); q++) for (auto &p : pl) {
        int a = pairs[q][0], b = pairs[q][1]; Ref RA = family(c.N, a, c, 0), RB = family(c.N, b, c, 4); int ra = q == 1 ? 5 : q == 4 ? 1 : 0, rb = 0; if (q == 3) { ra = 7; }
        string sig = strf("%s|%s|%s", op.name.substr(0, op.name.find('(')).c_str(), FMTN[c.fmt], PRECN[c.prec]); cx.cursig = sig;
        if (!cx.next([&] { return c.str() + " op=" + op.name + strf(" A=%s B=%s threads=%d preemptions<=%d", FAMN[a], FAMN[b], p.team, p.pre); })) continue;
        Res base; long f0 = cx.failed;
        if (!run_once(cx, c, op, RA, ra, RB, rb, 1, base, sig)) continue;
        if (base.o != OK) continue; // not offered for this format: the other checks decide
        double tolm = op.name == "inverse" ? 1000 * c.eps() : 0; int complete = -1; long last = -1, regions = 0;
        for (int pb = 0; pb <= p.pre; pb++) { // iterative deepening over the preemption bound
          OmpStats st = omp_explore_all(p.team, pb, p.cap, [&]() -> bool {
            Res r; bool done = run_once(cx, c, op, RA, ra, RB, rb, p.team, r, sig);
            if (!omp_problem.empty()) { cx.fail(sig + (omp_problem.compare(0, 9, "data race") ? "|deadlock" : "|race"), omp_problem + ", schedule " + omp_schedule()); return false; }
            if (!done) return false;
            string d = op.anyvalue ? "" : differs(c, base, r, tolm);
            if (!d.empty()) { cx.fail(sig + "|result", d + ", schedule " + omp_schedule()); return false; }
            return true;
          });
          cx.trans(st.schedules); cx.stat("schedules", st.schedules); cx.stat("scheduling_decisions", st.choices); cx.stat("parallel_regions_run", st.regions); cx.stat("synchronization_points", st.syncs); cx.stat("memory_accesses_checked", st.accesses); regions += st.regions;
          if (cx.failed != f0 || st.cut) break;
          complete = pb;
          if (st.schedules == last || !st.syncs) { complete = 99; break; } // another preemption adds no schedule: every interleaving was run
          last = st.schedules;
        }
        cx.stat(complete == 99 ? "programs_all_interleavings" : complete >= 3 ? "programs_complete_to_3_or_more_preemptions" : complete == 2 ? "programs_complete_to_2_preemptions" : complete == 1 ? "programs_complete_to_1_preemption" : complete == 0 ? "programs_complete_without_preemption" : "programs_incomplete", 1);
        if (regions) cx.nontrivial++;
        if (cx.failed == f0) cx.end();
      }
    }
    for (int k = 0; const void *p = omp_reached(k); k++) cx.note(strf("%lx", (unsigned long)p));
  }, th ? 8 : 2});
}
static PropReg r20("C20", c20);
