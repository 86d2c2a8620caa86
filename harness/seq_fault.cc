// C29: every allocation of every operation fails, one after the other.
#include "ops.h"
#include <limits.h>
#include <sys/wait.h>
#include <unistd.h>
struct FRes { Outcome o; vector<Ref> refs; vector<double> num; vector<int> ints; };
static bool once(Ctx &cx, const Cfg &c, const OOp &op, int a, int b, int ra, long fault, FRes &res, const string &sig, bool &seen) {
  res = FRes();
  Ref RA = family(c.N, a, c, 0), RB = family(c.N, b, c, 4);
  void *A = op.opnds & 1 ? mk(cx, c, RA, ra) : 0, *B = op.opnds & 2 ? mk(cx, c, RB, 0) : 0; Ob ob;
  if ((op.opnds & 1 && !A) || (op.opnds & 2 && !B)) return false;
  g_alloc_count = 0; g_alloc_failed = 0; g_alloc_fail_at = fault;
  res.o = call([&] { op.run(c, A, B, ob); });
  g_alloc_fail_at = -1; seen = g_alloc_failed;
  cx.trans();
  if (res.o != OK) { g_dirty = 1; return true; }
  res.num = ob.num; res.ints = ob.ints;
  for (int k = 0; k < 2 + (int)ob.out.size(); k++) {
    void *M = k == 0 ? A : k == 1 ? B : ob.out[k - 2]; if (!M) { if (k > 1) { cx.fail(sig + "|null", "the operation succeeded but returned no matrix"); return false; } continue; }
    Cfg d; d.prec = bml_get_precision(M); d.N = bml_get_N(M); Ref r(d.N); void *e = 0; if (call([&] { e = bml_export_to_dense(M, ROWMAJ); }) != OK) { cx.fail(sig + "|observe", "exporting a matrix failed after the operation: " + g_errtext); return false; }
    for (size_t q = 0; q < r.a.size(); q++) r.a[q] = elem_get(e, d.prec, q);
    bml_free_memory(e); if (!expect_struct(cx, M, sig)) return false;
    res.refs.push_back(r);
  }
  freem(A); freem(B); for (void *&M : ob.out) freem(M);
  return true;
}
static void c29(Groups &gs, const string &tier) {
  bool th = tier == "thorough"; static OOps ops; ops = all_ops(); for (auto &o : extra_ops()) ops.push_back(o);
  vector<Cfg> cs;
  for (int n : th ? vector<int>{1, 2, 3, 5, 13} : vector<int>{3, 13}) for (int f = F_DENSE; f <= F_CSR; f++) ALLPREC {
    Cfg c; c.fmt = f; c.prec = prec; c.N = c.M = n;
    if (f == F_ELLBLOCK) c.bs = n == 1 ? vector<int>{1} : n == 2 ? vector<int>{1, 1} : n == 3 ? vector<int>{1, 2} : n == 5 ? vector<int>{2, 1, 2} : vector<int>{4, 4, 5};
    cs.push_back(c);
    if (f == F_CSR && n == 13) { c.M = 2; cs.push_back(c); } // rows that have to grow
  }
  static const int pairs[][2] = {{2, 3}, {13, 6}, {9, 10}, {4, 5}};
  for (auto &c : cs) gs.push_back({"faults|" + c.str(), [=](Ctx &cx) {
    prewarm(c); { Cfg e = c; e.fmt = F_ELLBLOCK; if (c.fmt != F_ELLBLOCK) e.bs.clear(); prewarm(e); }
    for (auto &op : ops) {
      if (op.pre && !op.pre(c)) continue;
      cx.end();
      for (int q = 0; q < (op.opnds ? th ? 4 : 2 : 1); q++) {
        int a = pairs[q][0], b = pairs[q][1], ra = q == 1 ? 5 : 0;
        string sig = strf("%s|%s|%s", op.name.substr(0, op.name.find('(')).c_str(), FMTN[c.fmt], PRECN[c.prec]);
        // the fault-free run, to be compared with, and to count the allocations
        FRes base; long count = 0; bool seen;
        for (long k = -1; k < (k < 0 ? 0 : count); k++) {
          cx.cursig = sig;
          string on = op.name; auto d = [c, on, a, b, k, count] { return c.str() + " op=" + on + strf(" A=%s B=%s", FAMN[a], FAMN[b]) + (k < 0 ? string(" no fault") : strf(" allocation %ld of %ld fails", k + 1, count)); };
          if (k < 0) { cx.end(); g_worker = getpid(); // needed by every shard and by replays
            Ctx &s = cx; bool m = s.mute; long lv = g_live; int dirty = g_dirty; s.mute = true; bool good = once(cx, c, op, a, b, ra, LONG_MAX, base, sig, seen); count = g_alloc_count; s.mute = m; g_dirty = dirty; (void)lv;
            if (!good || base.o != OK) { count = 0; break; } // not offered for this format: the other checks decide
            continue;
          }
          if (!cx.next(d)) continue;
          FRes r; cx.stat("faults", 1);
          // a reported error ends the process, so whatever it left behind does not matter: one process per fault
          pid_t pid = fork();
          if (pid) {
            int st = 0; waitpid(pid, &st, 0); int code = WIFEXITED(st) ? WEXITSTATUS(st) : 98;
            cx.trans(); cx.nontrivial++;
            if (code == 40) cx.stat("reported", 1); else if (code == 41) cx.stat("survived", 1); else if (code == 42) cx.childfailed(); else _exit(code);
            continue;
          }
          struct Out { Ctx &cx; long f0; int code; ~Out() { _exit(cx.failed != f0 ? 42 : code); } } done{cx, cx.failed, 41};
          if (!once(cx, c, op, a, b, ra, k, r, sig, seen)) continue;
          if (!seen) { cx.fail(sig + "|nondeterministic", "the allocation to fail was never made"); continue; }
          if (r.o == ASSERTED) { cx.fail(sig + "|assert", "a failed allocation ended in an assertion: " + g_errtext); continue; }
          if (r.o == ERR) { done.code = 40; continue; }
          string w;
          if (r.refs.size() != base.refs.size() || r.num.size() != base.num.size() || r.ints != base.ints) w = "different results";
          for (size_t m = 0; m < r.refs.size() && w.empty(); m++) for (size_t i = 0; i < r.refs[m].a.size(); i++) if (!near(r.refs[m].a[i], base.refs[m].a[i], 1000 * c.eps())) w = strf("matrix %zu differs at element %zu", m, i);
          for (size_t m = 0; m < r.num.size() && w.empty(); m++) if (!near(r.num[m], base.num[m], 1000 * c.eps())) w = strf("number %zu is %g instead of %g", m, r.num[m], base.num[m]);
          if (!w.empty()) cx.fail(sig + "|wrong", "a failed allocation was not reported and " + w);
        }
      }
    }
    cx.end(); unlink(fault_file().c_str());
  }});
}
static PropReg r29("C29", c29);
