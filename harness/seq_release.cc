// C10: whatever an operation does, releasing its operands and results releases everything
#include "ops.h"
static void rel(Groups &gs, const string &tier) {
  bool th = tier == "thorough"; static OOps ops; ops = all_ops(); for (auto &o : extra_ops()) ops.push_back(o);
  vector<Cfg> cs = cfgs(1, 3); for (auto &c : bigcfgs(tier)) if (c.N <= (th ? 17 : 13)) cs.push_back(c);
  for (auto &c : cs) gs.push_back({"operation|" + c.str(), [=](Ctx &cx) {
    prewarm(c); { Cfg e = c; e.fmt = F_ELLBLOCK; if (c.fmt != F_ELLBLOCK) e.bs.clear(); e.MB = 0; e.M = e.N; prewarm(e); } g_worker = getpid();
    vector<std::pair<Ref, Ref>> ps;
    if (c.N <= 2) for (unsigned long a : masks(c.N, true)) ps.push_back({pattern(c.N, a, c, 0), pattern(c.N, (a * 7 + 5) & 15, c, 4)});
    else for (int k = 0; k < NFAM; k++) if (th || k % 2 == 0 || c.N <= 5) ps.push_back({family(c.N, k, c, 0), family(c.N, (k * 5 + 3) % NFAM, c, 4)});
    for (auto &op : ops) { if (op.pre && !op.pre(c)) continue; int s = 0;
      for (auto &p : ps) { if (!op.opnds && s++) break;
        if (!fits(c, pat_of(p.first)) || !fits(c, pat_of(p.second))) continue;
        string sig = strf("operation_%s|%s|%s", op.name.substr(0, op.name.find('(')).c_str(), FMTN[c.fmt], PRECN[c.prec]), on = op.name; cx.cursig = sig; Ref RA = p.first, RB = p.second;
        if (!cx.next([=] { return c.str() + " op=" + on + " A=" + r_str(RA) + " B=" + r_str(RB) + ", then everything is released"; })) continue;
        void *A = op.opnds & 1 ? mk(cx, c, RA, 0) : 0, *B = op.opnds & 2 ? mk(cx, c, RB, s % 2 && recipe_ok(c, 5, RB) ? 5 : 0) : 0; s++; Ob ob;
        if ((op.opnds & 1 && !A) || (op.opnds & 2 && !B)) continue;
        Outcome o = call([&] { op.run(c, A, B, ob); }); cx.trans();
        if (o != OK) continue; // judged by the operation's own property
        cx.nontrivial++; if (s % 2) { freem(A); freem(B); for (void *&M : ob.out) freem(M); } else { for (void *&M : ob.out) freem(M); freem(B); freem(A); }
        cx.end();
      } }
    unlink(fault_file().c_str());
  }, 1});
}
static PropReg r10b("C10", rel);
