#pragma once
#include "bmlapi.h"
#include <complex>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>
#include <setjmp.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
typedef std::complex<double> cd;
using std::string;
using std::vector;

string strf(const char *f, ...);
extern const char *FMTN[], *PRECN[];

// ---------------------------------------------------------------- reference matrix
struct Ref {
  int n = 0;
  vector<cd> a;
  Ref() {}
  explicit Ref(int n_) : n(n_), a((size_t)n_ * n_, cd(0)) {}
  cd &operator()(int i, int j) { return a[(size_t)i * n + j]; }
  cd operator()(int i, int j) const { return a[(size_t)i * n + j]; }
  bool operator==(const Ref &o) const { return n == o.n && a == o.a; }
};
Ref r_mul(const Ref &, const Ref &);
Ref r_lin(const Ref &A, const Ref &B, cd al, cd be);
Ref r_scale(const Ref &A, cd al);
Ref r_id(int n);
Ref r_tr(const Ref &);
Ref r_had(const Ref &, const Ref &);
cd r_trace(const Ref &);
string r_str(const Ref &);

// ---------------------------------------------------------------- configuration of one group
struct Cfg {
  int fmt = F_DENSE, prec = P_DR, N = 1, M = 1;
  vector<int> bs;   // ellblock blocking (empty: library default)
  int MB = 0;       // ellblock blocks per row (0: NB)
  int sc = 0;       // generated values are scaled by 2^sc
  bool cplx() const { return prec >= P_SC; }
  bool sgl() const { return prec == P_SR || prec == P_SC; }
  bool sparse() const { return fmt != F_DENSE; }
  size_t esz() const { return prec == P_SR ? 4 : prec == P_DC ? 16 : 8; }
  double eps() const { return sgl() ? 1.1920929e-07 : 2.220446049250313e-16; }
  string str() const;
  int block_of(int i) const { int b = 0, s = 0; while (s + bs[b] <= i) s += bs[b++]; return b; }
};

// scalar buffers in the matrix's own element type
struct Buf {
  vector<char> b; int prec;
  Buf(int prec_, size_t n) : b(n * 16 + 16), prec(prec_) {}
  void set(size_t k, cd v);
  cd get(size_t k) const;
  void *p() { return b.data(); }
};
cd elem_get(const void *p, int prec, size_t k);
void elem_set(void *p, int prec, size_t k, cd v);
cd rnd(int prec, cd v); // round to the element type

// ---------------------------------------------------------------- guarded calls
enum Outcome { OK, ERR, ASSERTED };
extern jmp_buf g_jb; extern volatile int g_incall; extern long g_live; extern int g_dirty;
extern string g_errtext; extern string *g_capture; extern bool g_print_through; // let the output of the library reach standard output
template <class F> Outcome call(F f) {
  g_incall = 1; g_errtext.clear();
  int r = _setjmp(g_jb);
  if (r == 0) { f(); g_incall = 0; return OK; }
  g_incall = 0; g_dirty = 1;
  return r == 1 ? ERR : ASSERTED;
}
extern long g_alloc_fail_at; extern long g_alloc_count; extern long g_alloc_failed;

// ---------------------------------------------------------------- exploration context
struct Ctx {
  long idx = -1, start = 0, only = -1, stop = -1; int shard = 0, nshard = 1;
  string tier; bool thorough = false;
  std::function<string()> descf;
  long cases = 0, transitions = 0, states = 0, nontrivial = 0;
  std::unordered_set<size_t> seen;     // hashes of the concrete storage layouts visited
  std::unordered_set<string> outcomes; // distinct observed outcomes (bounded)
  vector<string> samples;
  string group, cursig; bool capped = false;
  long live0 = 0;
  bool next(std::function<string()> d);
  bool nextbfs(std::function<string()> d); bool mute = false; long failed = 0; void childfailed();
  void trans(long k = 1) { transitions += k; }
  void fail(const string &sig, const string &msg);
  // expects outcome OK, reports otherwise. returns true if OK
  bool ok(Outcome o, const string &sig);
  void end();  // end of case: leak accounting
  bool leakcheck = true;
  std::map<string, long> stats; std::set<string> notes;
  void stat(const char *k, long v) { stats[k] += v; } // summed over all shards in the evidence
  void note(const string &s) { notes.insert(s); }      // united over all shards
  void flush();
};
struct Group { string name; std::function<void(Ctx &)> run; int nshard = 1; };
typedef vector<Group> Groups;
typedef void (*PropFn)(Groups &, const string &tier);
struct PropReg { PropReg(const char *id, PropFn f); };

// ---------------------------------------------------------------- matrices
void prewarm(const Cfg &c);           // create ellblock defaults once per process
void *mk_zero(const Cfg &c);
enum { NRECIPE = 9 };
extern const char *RECN[];
bool recipe_ok(const Cfg &c, int rec, const Ref &r);
void *mk(Ctx &cx, const Cfg &c, const Ref &r, int rec); // NULL on failure (reported)
void freem(void *&A);
// observation
bool obs(Ctx &cx, void *A, const Cfg &c, Ref &out, const string &sig);
bool expect_eq(Ctx &cx, void *A, const Cfg &c, const Ref &want, const string &sig, double tol = 0);
bool full_check(Ctx &cx, void *A, const Cfg &c, const Ref &want, const string &sig, double tol = 0);
bool expect_struct(Ctx &cx, void *A, const string &sig);
bool near(cd a, cd b, double tol);
bool expect_num(Ctx &cx, double got, double want, double tol, const string &sig);
string mat_dump(void *A);
bool fits(const Cfg &c, const vector<char> &stored); // does a stored pattern fit the capacity
vector<char> pat_of(const Ref &r);

// enumeration helpers
Ref pattern(int n, unsigned long mask, const Cfg &c, int seed); // distinct values at the set bits
Ref family(int n, int k, const Cfg &c, int seed);               // structured family, k in [0,NFAM)
enum { NFAM = 14 };
extern const char *FAMN[];
cd val(int i, int j, int seed, bool cplx);
vector<Cfg> cfgs(int nmin, int nmax, bool tails = false); // small configs: all formats x precisions x blockings
vector<Cfg> bigcfgs(const string &tier);
enum { LARGE_N = 40 };
vector<int> fams(const Cfg &c); // the structured families enumerated for this size: all of them up to LARGE_N, four above
vector<double> scalars(const string &tier);
#define ALLPREC for (int prec = P_SR; prec <= P_DC; prec++)
