// Programs of the MPI explorer.  The same table is compiled into the explorer (cases, expected results) and into
// every rank's own copy of the library (what the rank does).
#pragma once
#include "seq_gen.h"
#include "mpi/mpi.h"
struct MCase { Cfg c; int nr = 4, op = 0, rec = 0; int frank = -1; long fault = -1; /* allocation to fail on one rank */ bool lenient = false; /* a refusal is acceptable */ vector<long> iv; vector<double> dv; vector<Ref> ms; };
struct RankOut { vector<Ref> mats; vector<double> nums; vector<std::pair<string, string>> fails; bool fin = false, refused = false, faulted = false; long allocs = 0; string err; };
// one rank at work
struct Rk {
  const MCase &mc; int rank, nr; Cfg c, lc; Ctx &cx; RankOut &out; string sig;
  long i(size_t k) const { return k < mc.iv.size() ? mc.iv[k] : 0; }
  double d(size_t k) const { return k < mc.dv.size() ? mc.dv[k] : 0; }
  void die();                                   // give up: the whole job stops
  void must(Outcome o, const string &what);     // anything but success is a violation
  void may(Outcome o);                          // a refusal is noted and ends the job
  void num(double v) { out.nums.push_back(v); }
  void *dist(const Ref &r, int order = ROWMAJ, int fmt = 0); // import as a distributed matrix
  void see(void *A, bool rows = true);          // observe a distributed matrix
  void *make(const Ref &r, int rec);            // an ordinary matrix; its construction is not what is tested
  void seq(void *A);                            // observe an ordinary matrix
};
struct Exp { vector<Ref> mats; vector<double> thr; vector<double> nums; vector<double> tol; bool refuse = false;
  void mat(const Ref &r, double t = 0, double tl = 0) { mats.push_back(r); thr.push_back(t); mtol.push_back(tl); slack.push_back(0); }
  void num(double v, double t = 0) { nums.push_back(v); tol.push_back(t); }
  vector<double> mtol, slack; };
struct MOp { string name; std::function<void(Rk &)> run; std::function<void(const MCase &, int rank, Exp &)> want; };
const vector<MOp> &mops();
int mop(const string &name);
static inline int sqrti(int n) { int p = 0; while ((p + 1) * (p + 1) <= n) p++; return p; }
static inline Cfg local_cfg(const Cfg &c, int nr) { Cfg l = c; int p = sqrti(nr); l.N = c.N / p; l.M = std::max(1, c.M / p); return l; }
