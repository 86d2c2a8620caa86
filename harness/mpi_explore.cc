#include "mpi_explore.h"
#include "mpi/mpi.h"
#include <algorithm>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
using std::string; using std::vector; using std::function;
enum { MAXR = 16, STK = 2 << 20 };
string mpi_problem;
extern "C" {
void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
}
// ---------------------------------------------------------------- handles
typedef vector<std::pair<int, long>> Sig; // basic type, count
struct Run { ptrdiff_t disp; int basic; long n; };
struct mc_type { vector<Run> runs; ptrdiff_t lb = 0, ext = 0; bool committed = false, predef = false, freed = false; int owner = -1; };
struct mc_comm { vector<int> mem; int ctx = 0; bool cart = false; vector<int> dims, periods; std::map<int, int> seq; std::set<int> freed; };
struct mc_info { int x; }; struct mc_group { int x; };
struct Msg { int src, dst, tag; mc_comm *comm; vector<char> data; Sig sig; bool fetched = true; const void *buf = 0; int count = 0; mc_type ty; bool matched = false; };
struct mc_req { int owner; bool recv; void *buf; int count; mc_type ty; int src, tag; mc_comm *comm; bool matched = false, copied = false, late = false, sync = false; Msg *msg = 0; MPI_Status st; };
static const int BSZ[] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 8, 16, 1, 1, 1, 1, 2, 4, 8, 1, 2, 4, 8, 8, 8, 12, 8};
static const char *BN[] = {
#define X(n) #n,
  MC_TYPES(X)
#undef X
};
static mc_type mkb(int b) { mc_type t; t.runs.push_back({0, b, 1}); t.ext = BSZ[b]; t.committed = t.predef = true; return t; }
extern "C" {
#define X(n) mc_type mc_t_##n = mkb(MC_T_##n);
MC_TYPES(X)
#undef X
mc_comm mc_world, mc_self;
}
// ---------------------------------------------------------------- choice tree
struct Ch { int n, cur; };
static vector<Ch> path; static size_t pos; static int bound, used, base; static MpiStats *S;
static int pick_free(int n) { if (n <= 1) return 0; S->choices++; if (pos < path.size()) return path[pos++].cur; path.push_back({n, 0}); pos++; return 0; }
static int deviate(int n) { if (n <= 1 || used >= bound) return 0; int k = pick_free(n); if (k) used++; return k; }
// ---------------------------------------------------------------- coroutines
struct Ctxt { void *sp; };
extern "C" void mc_switch(Ctxt *from, Ctxt *to);
asm(".text\n.globl mc_switch\nmc_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov (%rsi),%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
struct Rank { Ctxt cx; char *stk = 0; void *fake = 0; bool done = false, started = false; function<bool()> pred; string what; long calls = 0; int comms = 0, types = 0, reqs = 0; mc_comm self; };
static Rank R[MAXR]; static Ctxt mainc; static void *mainfake; static const void *mainbot; static size_t mainsz;
static int cur = -1, NR; static const function<void(int)> *rbody;
static vector<Msg *> allmsg, unexp[MAXR]; static vector<mc_req *> posted[MAXR], allreq; static std::set<mc_req *> livereq; static std::set<mc_type *> livetype; static vector<mc_type *> alltype; static vector<mc_comm *> allcomm; static int nextctx;
struct Coll { string kind; int root; long op; int n = 0; vector<char> here; vector<vector<char>> data; vector<Sig> sig; vector<vector<long>> a; std::map<long, mc_comm *> out; };
static std::map<std::pair<int, int>, Coll *> colls;
static void sw(int from, int to, bool final = false) { // -1: the explorer itself
  void **save = from < 0 ? &mainfake : &R[from].fake;
  if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(final ? nullptr : save, to < 0 ? mainbot : R[to].stk, to < 0 ? mainsz : STK);
  mc_switch(from < 0 ? &mainc : &R[from].cx, to < 0 ? &mainc : &R[to].cx);
  if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(from < 0 ? mainfake : R[from].fake, nullptr, nullptr);
}
static void leave() { int c = cur; cur = -1; sw(c, -1, true); abort(); }
extern "C" void mc_leave(void) { leave(); }
static string rk() { return "rank " + std::to_string(cur); }
static void bad(const string &m) { if (mpi_problem.empty()) mpi_problem = rk() + ": " + m; leave(); }
static bool ready(int r) { return !R[r].done && (!R[r].pred || R[r].pred()); }
static void dead() {
  string m = "deadlock:"; for (int r = 0; r < NR; r++) m += " rank " + std::to_string(r) + (R[r].done ? " has finished;" : " waits in " + R[r].what + ";");
  if (mpi_problem.empty()) mpi_problem = m; leave();
}
static int others(int *o, bool withcur) { // candidates in default order
  int n = 0; if (withcur) o[n++] = cur;
  for (int k = 1; k < NR; k++) { int r = base & MODE_DESC ? (cur - k + NR) % NR : (cur + k) % NR; if (ready(r)) o[n++] = r; }
  return n;
}
static void go(int t) { if (t == cur) return; int f = cur; cur = t; sw(f, t); }
static void point(const char *what) {
  if (cur < 0) { fprintf(stderr, "MPI call outside a rank: %s\n", what); abort(); }
  S->calls++; if (++R[cur].calls > 20000) bad(string("does not terminate (20000 communication calls), last ") + what);
  int o[MAXR], n = others(o, true); go(o[deviate(n)]);
}
static void yield_() { int o[MAXR], n = others(o, false); if (n) go(o[deviate(n)]); }
static void wait_for(const string &what, const function<bool()> &p) {
  if (p()) return;
  R[cur].pred = p; R[cur].what = what;
  int o[MAXR], n = others(o, false); if (!n) dead();
  go(o[deviate(n)]);
  R[cur].pred = nullptr;
}
static void rank_main() {
  if (__sanitizer_finish_switch_fiber) { const void *b; size_t s; __sanitizer_finish_switch_fiber(nullptr, &b, &s); if (!mainbot) { mainbot = b; mainsz = s; } }
  (*rbody)(cur);
  R[cur].done = true; R[cur].pred = nullptr;
  bool all = true; for (int r = 0; r < NR; r++) all &= R[r].done;
  if (all) leave();
  int o[MAXR], n = others(o, false); if (!n) dead();
  int f = cur; cur = o[deviate(n)]; sw(f, cur, true); abort();
}
// ---------------------------------------------------------------- types and buffers
static void addrun(vector<Run> &v, ptrdiff_t d, int b, long n) { if (!n) return; if (!v.empty() && v.back().basic == b && v.back().disp + v.back().n * BSZ[b] == d) v.back().n += n; else v.push_back({d, b, n}); }
static long tsize(const mc_type &t) { long s = 0; for (auto &r : t.runs) s += r.n * BSZ[r.basic]; return s; }
static void bounds(mc_type &t) { ptrdiff_t lo = 0, hi = 0; bool f = true; for (auto &r : t.runs) { ptrdiff_t e = r.disp + r.n * BSZ[r.basic]; if (f) { lo = r.disp; hi = e; f = false; } else { lo = std::min(lo, r.disp); hi = std::max(hi, e); } } t.lb = lo; t.ext = hi - lo; }
static mc_type &ty(MPI_Datatype t, const char *w, bool need = true) {
  if (!t) bad(string(w) + " with the null datatype");
  if (!t->predef && !livetype.count(t)) bad(string(w) + " with a datatype that has been freed or never existed");
  if (need && !t->committed) bad(string(w) + " with an uncommitted datatype");
  return *t;
}
static void cnt(int n, const char *w) { if (n < 0) bad(string(w) + " with the negative count " + std::to_string(n)); }
static bool dense1(const mc_type &t) { return t.runs.size() == 1 && t.ext == t.runs[0].n * BSZ[t.runs[0].basic]; }
template <class F> static void walk(const mc_type &t, int count, F f) {
  if (!count) return;
  if (dense1(t)) { f(t.runs[0].disp, t.runs[0].basic, t.runs[0].n * count); return; }
  for (long e = 0; e < count; e++) for (auto &r : t.runs) f(e * t.ext + r.disp, r.basic, r.n);
}
static void sigadd(Sig &s, int b, long n) { if (!n) return; if (!s.empty() && s.back().first == b) s.back().second += n; else s.push_back({b, n}); }
static Sig sigof(const mc_type &t, int count) { Sig s; walk(t, count, [&](ptrdiff_t, int b, long n) { sigadd(s, b, n); }); return s; }
static long sigbytes(const Sig &s) { long n = 0; for (auto &x : s) n += x.second * BSZ[x.first]; return n; }
static string sigstr(const Sig &s) { string o; for (auto &x : s) o += (o.empty() ? "" : "+") + std::to_string(x.second) + " " + BN[x.first]; return o.empty() ? "nothing" : o; }
static bool prefix(const Sig &a, const Sig &b) { // a is a prefix of b
  for (auto &x : a) if (x.first == MC_T_BYTE || x.first == MC_T_PACKED) return true;
  for (size_t k = 0; k < a.size(); k++) { if (k >= b.size() || a[k].first != b[k].first) return false; if (a[k].second > b[k].second) return false; if (a[k].second < b[k].second && k + 1 < a.size()) return false; }
  return true;
}
static vector<char> pack(const void *buf, int count, const mc_type &t) {
  vector<char> d(tsize(t) * count); char *p = d.data();
  walk(t, count, [&](ptrdiff_t o, int b, long n) { memcpy(p, (const char *)buf + o, n * BSZ[b]); p += n * BSZ[b]; });
  return d;
}
static void unpack(void *buf, int count, const mc_type &t, const vector<char> &d) {
  const char *p = d.data(), *e = p + d.size();
  walk(t, count, [&](ptrdiff_t o, int b, long n) { long k = std::min<long>(n * BSZ[b], e - p); if (k > 0) memcpy((char *)buf + o, p, k); p += k; });
}
static void bufok(const void *b, int count, const mc_type &t, const char *w) { if (!b && count && tsize(t)) for (auto &r : t.runs) if ((size_t)r.disp < 4096) { bad(string(w) + " with a null buffer"); } if (b == MPI_IN_PLACE) bad(string(w) + " with MPI_IN_PLACE where it is not allowed"); }
static vector<int> &members(mc_comm *c) { static vector<int> one(1); if (c == &mc_self) { one[0] = cur; return one; } return c->mem; }
static int rank_in(mc_comm *c) { auto &m = members(c); for (size_t k = 0; k < m.size(); k++) if (m[k] == cur) return k; return -1; }
static void comm_ok(mc_comm *c, const char *w) {
  if (!c) bad(string(w) + " with the null communicator");
  if (c != &mc_world && c != &mc_self) { if (std::find(allcomm.begin(), allcomm.end(), c) == allcomm.end()) bad(string(w) + " with an invalid communicator"); if (c->freed.count(cur)) bad(string(w) + " with a communicator this rank has freed"); }
  if (rank_in(c) < 0) bad(string(w) + " on a communicator this rank is not in");
}
static int to_world(mc_comm *c, int r, const char *w) { auto &m = members(c); if (r < 0 || r >= (int)m.size()) bad(string(w) + " names rank " + std::to_string(r) + " of a communicator of " + std::to_string(m.size())); return m[r]; }
// ---------------------------------------------------------------- point to point
static void fetch(Msg *m) { if (m->fetched) return; m->data = pack(m->buf, m->count, m->ty); m->fetched = true; }
static void copy_in(mc_req *q) { if (q->copied) return; fetch(q->msg); unpack(q->buf, q->count, q->ty, q->msg->data); q->copied = true; }
static void match(mc_req *q, Msg *m) {
  Sig cap = sigof(q->ty, q->count);
  if (sigbytes(m->sig) > sigbytes(cap)) { mpi_problem = "rank " + std::to_string(q->owner) + ": message truncated: " + sigstr(m->sig) + " from rank " + std::to_string(m->src) + " (tag " + std::to_string(m->tag) + ") into room for " + sigstr(cap); leave(); }
  if (!prefix(m->sig, cap)) { mpi_problem = "rank " + std::to_string(q->owner) + ": type mismatch: " + sigstr(m->sig) + " from rank " + std::to_string(m->src) + " received as " + sigstr(cap); leave(); }
  q->matched = true; q->msg = m; m->matched = true; 
  auto &mem = q->comm == &mc_self ? m->comm->mem : q->comm->mem; int s = 0; for (size_t k = 0; k < mem.size(); k++) if (mem[k] == m->src) s = k;
  q->st.MPI_SOURCE = s; q->st.MPI_TAG = m->tag; q->st.MPI_ERROR = 0; q->st.mc_bytes = sigbytes(m->sig); q->st.mc_cancelled = 0;
  if (!q->late) copy_in(q);
}
static bool fitsmsg(mc_req *q, Msg *m) { return q->comm == m->comm && (q->src < 0 || q->src == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag); }
static Msg *post_send(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, const char *w, bool lazy) {
  comm_ok(c, w); cnt(count, w); mc_type &T = ty(t, w); bufok(buf, count, T, w); if (tag < 0) bad(string(w) + " with a negative tag");
  Msg *m = new Msg; allmsg.push_back(m); S->messages++; m->src = cur; m->dst = to_world(c, dst, w); m->tag = tag; m->comm = c; m->sig = sigof(T, count);
  if (lazy) { m->fetched = false; m->buf = buf; m->count = count; m->ty = T; } else m->data = pack(buf, count, T);
  auto &P = posted[m->dst];
  for (size_t k = 0; k < P.size(); k++) if (fitsmsg(P[k], m)) { mc_req *q = P[k]; P.erase(P.begin() + k); match(q, m); return m; }
  unexp[m->dst].push_back(m); return m;
}
static mc_req *post_recv(void *buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, const char *w, bool late) {
  comm_ok(c, w); cnt(count, w); mc_type &T = ty(t, w); bufok(buf, count, T, w);
  mc_req *q = new mc_req; allreq.push_back(q); q->owner = cur; q->recv = true; q->buf = buf; q->count = count; q->ty = T; q->comm = c; q->tag = tag; q->late = late; memset(&q->st, 0, sizeof q->st);
  q->src = src == MPI_ANY_SOURCE ? -1 : to_world(c, src, w);
  auto &U = unexp[cur]; vector<size_t> cand; std::set<int> seen;
  for (size_t k = 0; k < U.size(); k++) if (fitsmsg(q, U[k]) && seen.insert(U[k]->src).second) cand.push_back(k);
  if (!cand.empty()) { size_t k = cand[pick_free(cand.size())]; Msg *m = U[k]; U.erase(U.begin() + k); match(q, m); }
  else posted[cur].push_back(q);
  return q;
}
static void setst(MPI_Status *s, const MPI_Status &v) { if (s) *s = v; }
static const MPI_Status nullst = {MPI_PROC_NULL, MPI_ANY_TAG, 0, 0, 0}, emptyst = {MPI_ANY_SOURCE, MPI_ANY_TAG, 0, 0, 0};
static bool is_sync() { bool d = base & MODE_SYNC; return deviate(2) ? !d : d; }
static bool is_late(int bit) { bool d = base & bit; return deviate(2) ? !d : d; }
static int send_(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, const char *w, int mode) {
  point(w); if (dst == MPI_PROC_NULL) return 0;
  Msg *m = post_send(b, n, t, dst, tag, c, w, false);
  if (mode == 2 || (mode == 1 && !m->matched && is_sync())) wait_for(string(w) + " to rank " + std::to_string(dst) + " (synchronous)", [m] { return m->matched; });
  return 0;
}
static int recv_(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s, const char *w) {
  point(w); if (src == MPI_PROC_NULL) { setst(s, nullst); return 0; }
  mc_req *q = post_recv(b, n, t, src, tag, c, w, false);
  wait_for(string(w) + " from rank " + std::to_string(src), [q] { return q->matched; });
  setst(s, q->st); return 0;
}
static mc_req *newreq(mc_req *q) { livereq.insert(q); R[cur].reqs++; return q; }
static mc_req *rq(MPI_Request q, const char *w) { if (!livereq.count(q)) bad(string(w) + " on a request that is not active"); if (q->owner != cur) bad(string(w) + " on a request of another rank"); return q; }
static bool rdone(mc_req *q) { return q->recv ? q->matched : !q->sync || !q->msg || q->msg->matched; }
static void finish(MPI_Request *p, MPI_Status *s) {
  mc_req *q = *p; if (q->recv) { if (q->msg) copy_in(q); setst(s, q->st); } else { if (q->msg) fetch(q->msg); setst(s, emptyst); }
  livereq.erase(q); R[cur].reqs--; *p = MPI_REQUEST_NULL;
}
static int isend_(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r, bool sync, const char *w) {
  point(w); mc_req *q = new mc_req; allreq.push_back(q); q->owner = cur; q->recv = false; q->comm = c; memset(&q->st, 0, sizeof q->st);
  if (dst != MPI_PROC_NULL) { bool lz = is_late(MODE_LATE_SEND); q->sync = sync || is_sync(); q->msg = post_send(b, n, t, dst, tag, c, w, lz); if (q->msg->matched) {} }
  *r = newreq(q); return 0;
}
// ---------------------------------------------------------------- collectives
static Coll &enter(MPI_Comm c, const string &kind, int root, long op, int &me) {
  point(kind.c_str()); comm_ok(c, kind.c_str()); S->collectives++;
  me = rank_in(c); int n = members(c).size(); if (root >= n || root < -1) bad(kind + " with the invalid root " + std::to_string(root));
  int ctx = c == &mc_self ? -1 - cur : c->ctx; mc_comm *k = c == &mc_self ? &R[cur].self : c; int sq = k->seq[me]++;
  Coll *&p = colls[{ctx, sq}];
  if (!p) { p = new Coll; p->kind = kind; p->root = root; p->op = op; p->here.assign(n, 0); p->data.resize(n); p->sig.resize(n); p->a.resize(n); }
  if (p->kind != kind) bad("calls " + kind + " where another rank of the communicator calls " + p->kind);
  if (p->root != root) bad(kind + " with root " + std::to_string(root) + " where another rank gives " + std::to_string(p->root));
  if (p->op != op) bad(kind + " with different operations on different ranks");
  return *p;
}
static void arrive(Coll &k, int me) { k.here[me] = 1; k.n++; }
static void wait_all(Coll &k) { Coll *p = &k; wait_for(k.kind, [p] { return p->n == (int)p->here.size(); }); }
static void wait_one(Coll &k, int r) { Coll *p = &k; wait_for(k.kind, [p, r] { return p->here[r] != 0; }); }
static void leave_early(Coll &k) { if (k.n < (int)k.here.size() && is_sync()) wait_all(k); }
static void same(const Sig &a, const Sig &b, const string &k) { if (sigbytes(a) != sigbytes(b)) bad(k + ": " + sigstr(a) + " on one rank, " + sigstr(b) + " on another"); if (!prefix(a, b) && !prefix(b, a)) bad(k + ": types differ: " + sigstr(a) + " against " + sigstr(b)); }
static bool overlap(const void *a, long na, const void *b, long nb) { return na && nb && (const char *)a < (const char *)b + nb && (const char *)b < (const char *)a + na; }
template <class T> static void red1(T *a, const T *b, long n, long op) {
  for (long k = 0; k < n; k++) switch (op) { case MC_SUM: a[k] += b[k]; break; case MC_PROD: a[k] *= b[k]; break; case MC_MIN: if (b[k] < a[k]) a[k] = b[k]; break; case MC_MAX: if (a[k] < b[k]) a[k] = b[k]; break;
    case MC_LAND: a[k] = a[k] && b[k]; break; case MC_LOR: a[k] = a[k] || b[k]; break; default: bad("unsupported reduction"); }
}
template <class T> static void redc(T *a, const T *b, long n, long op) { for (long k = 0; k < n; k++) switch (op) { case MC_SUM: a[k] += b[k]; break; case MC_PROD: a[k] *= b[k]; break; default: bad("reduction not defined for complex numbers"); } }
template <class T> static void redi(T *a, const T *b, long n, long op) { switch (op) { case MC_BAND: for (long k = 0; k < n; k++) a[k] &= b[k]; break; case MC_BOR: for (long k = 0; k < n; k++) a[k] |= b[k]; break; case MC_BXOR: for (long k = 0; k < n; k++) a[k] ^= b[k]; break; default: red1(a, b, n, op); } }
static void reduce_into(vector<char> &a, const vector<char> &b, const Sig &s, long op) {
  char *p = a.data(); const char *q = b.data();
  for (auto &x : s) { long n = x.second; switch (x.first) {
    case MC_T_INT: case MC_T_INT32_T: redi((int *)p, (const int *)q, n, op); break; case MC_T_UNSIGNED: case MC_T_UINT32_T: redi((unsigned *)p, (const unsigned *)q, n, op); break;
    case MC_T_LONG: case MC_T_LONG_LONG: case MC_T_INT64_T: case MC_T_AINT: redi((long *)p, (const long *)q, n, op); break; case MC_T_UNSIGNED_LONG: case MC_T_UNSIGNED_LONG_LONG: case MC_T_UINT64_T: redi((unsigned long *)p, (const unsigned long *)q, n, op); break;
    case MC_T_SHORT: case MC_T_INT16_T: redi((short *)p, (const short *)q, n, op); break; case MC_T_BYTE: case MC_T_CHAR: case MC_T_SIGNED_CHAR: case MC_T_C_BOOL: redi((signed char *)p, (const signed char *)q, n, op); break;
    case MC_T_FLOAT: red1((float *)p, (const float *)q, n, op); break; case MC_T_DOUBLE: red1((double *)p, (const double *)q, n, op); break;
    case MC_T_C_FLOAT_COMPLEX: redc((std::complex<float> *)p, (const std::complex<float> *)q, n, op); break; case MC_T_C_DOUBLE_COMPLEX: redc((std::complex<double> *)p, (const std::complex<double> *)q, n, op); break;
    default: bad("reduction of an unsupported type"); }
    p += n * BSZ[x.first]; q += n * BSZ[x.first]; }
}
static int reduce_(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, const char *w, int scan) {
  int me; Coll &k = enter(c, w, root, (long)op, me); cnt(n, w); mc_type &T = ty(t, w); bool gets = root < 0 || me == root;
  if (s == MPI_IN_PLACE && !gets) bad(string(w) + " with MPI_IN_PLACE on a rank other than the root");
  const void *src = s == MPI_IN_PLACE ? r : s; bufok(src, n, T, w); if (gets) bufok(r, n, T, w);
  if (gets && s != MPI_IN_PLACE && overlap(s, tsize(T) * n, r, tsize(T) * n)) bad(string(w) + ": send and receive buffers overlap");
  k.data[me] = pack(src, n, T); k.sig[me] = sigof(T, n); arrive(k, me);
  for (size_t q = 0; q < k.here.size(); q++) if (k.here[q]) same(k.sig[q], k.sig[me], w);
  if (!gets) { leave_early(k); return 0; }
  if (scan) { for (int q = 0; q < me; q++) wait_one(k, q); } else wait_all(k);
  int hi = scan == 1 ? me : scan == 2 ? me - 1 : (int)k.here.size() - 1; if (hi < 0) return 0;
  vector<char> a = k.data[0]; for (int q = 1; q <= hi; q++) reduce_into(a, k.data[q], k.sig[me], (long)op);
  unpack(r, n, T, a); return 0;
}
struct Dst { void *b; int n; };
// gather family: everyone contributes one piece; receivers get every piece at the given place
static int gather_(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, int rn, const int *disp, MPI_Datatype rt, int root, MPI_Comm c, const char *w) {
  int me; Coll &k = enter(c, w, root, 0, me); int n = k.here.size(); bool gets = root < 0 || me == root; mc_type *RT = 0;
  auto rcount = [&](int q) { return rc ? rc[q] : rn; };
  auto at = [&](int q) { return (char *)r + (ptrdiff_t)(disp ? disp[q] : q * rn) * RT->ext; };
  if (gets) { RT = &ty(rt, w); for (int q = 0; q < n; q++) cnt(rcount(q), w); }
  if (s == MPI_IN_PLACE) { if (!gets) bad(string(w) + " with MPI_IN_PLACE on a rank other than the root"); k.data[me] = pack(at(me), rcount(me), *RT); k.sig[me] = sigof(*RT, rcount(me)); }
  else { mc_type &T = ty(st, w); cnt(sn, w); bufok(s, sn, T, w); k.data[me] = pack(s, sn, T); k.sig[me] = sigof(T, sn); }
  if (gets) {
    for (int q = 0; q < n; q++) if (rcount(q)) { bufok(r, rcount(q), *RT, w); for (int p = 0; p < q; p++) if (overlap(at(p), (long)RT->ext * rcount(p), at(q), (long)RT->ext * rcount(q))) bad(string(w) + ": the pieces of ranks " + std::to_string(p) + " and " + std::to_string(q) + " are received at overlapping places"); if (s != MPI_IN_PLACE && overlap(at(q), (long)RT->ext * rcount(q), s, (long)k.data[me].size())) bad(string(w) + ": send and receive buffers overlap"); }
  }
  arrive(k, me);
  if (!gets) { leave_early(k); return 0; }
  wait_all(k);
  for (int q = 0; q < n; q++) { same(k.sig[q], sigof(*RT, rcount(q)), w); if (!(q == me && s == MPI_IN_PLACE)) unpack(at(q), rcount(q), *RT, k.data[q]); }
  return 0;
}
static int alltoall_(const void *s, const int *sc, int sn, const int *sd, MPI_Datatype st, void *r, const int *rc, int rn, const int *rd, MPI_Datatype rt, int root, MPI_Comm c, const char *w) {
  // root >= 0: scatter
  int me; Coll &k = enter(c, w, root, 0, me); int n = k.here.size(); bool gives = root < 0 || me == root; vector<vector<char>> *d = 0; static std::map<Coll *, vector<vector<vector<char>>>> D; static std::map<Coll *, vector<vector<Sig>>> G;
  if (k.n == 0) { D[&k].assign(n, {}); G[&k].assign(n, {}); }
  (void)d;
  if (gives) { mc_type &T = ty(st, w); for (int q = 0; q < n; q++) { int m = sc ? sc[q] : sn; cnt(m, w); const char *b = (const char *)s + (ptrdiff_t)(sd ? sd[q] : q * sn) * T.ext; if (m) bufok(s, m, T, w); D[&k][me].push_back(pack(b, m, T)); G[&k][me].push_back(sigof(T, m)); } }
  arrive(k, me);
  if (root >= 0) { wait_one(k, root); } else wait_all(k);
  bool inpl = r == MPI_IN_PLACE;
  if (!inpl) { mc_type &T = ty(rt, w); for (int q = 0; q < n; q++) { if (root >= 0 && q != root) continue; int m = rc ? rc[q] : rn; cnt(m, w); if (m) bufok(r, m, T, w); same(G[&k][q][me], sigof(T, m), w); unpack((char *)r + (root >= 0 ? 0 : (ptrdiff_t)(rd ? rd[q] : q * rn) * T.ext), m, T, D[&k][q][me]); } }
  if (root >= 0) leave_early(k);
  return 0;
}
static mc_comm *newcomm() { mc_comm *c = new mc_comm; c->ctx = nextctx++; allcomm.push_back(c); return c; }
static int mkcomm(MPI_Comm c, const char *w, const vector<long> &mine, MPI_Comm *out, const function<long(int)> &color, const function<long(int)> &key, const function<void(mc_comm *, long)> &fin) {
  int me; Coll &k = enter(c, w, -1, 0, me); k.a[me] = mine; arrive(k, me); wait_all(k);
  for (size_t q = 0; q < k.a.size(); q++) if (k.a[q].size() != mine.size()) bad(string(w) + " with different arguments on different ranks");
  static Coll *K; K = &k;
  long col = color(me); if (col == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return 0; }
  if (col < 0 && col != MPI_UNDEFINED) bad(string(w) + " with a negative color");
  mc_comm *&o = k.out[col];
  if (!o) { o = newcomm(); vector<std::pair<long, int>> v; for (size_t q = 0; q < k.here.size(); q++) if (color(q) == col) v.push_back({key(q), (int)q}); std::stable_sort(v.begin(), v.end()); auto &m = members(c); for (auto &x : v) o->mem.push_back(m[x.second]); fin(o, col); }
  *out = o; R[cur].comms++; return 0;
}
static Coll *lastcoll(MPI_Comm c) { int me = rank_in(c); mc_comm *k = c == &mc_self ? &R[cur].self : c; return colls[{c == &mc_self ? -1 - cur : c->ctx, k->seq[me] - 1}]; }
extern "C" {
int MPI_Init(int *, char ***) { return 0; } int MPI_Init_thread(int *, char ***, int r, int *p) { if (p) *p = r; return 0; } int MPI_Initialized(int *f) { *f = 1; return 0; } int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; } int MPI_Abort(MPI_Comm, int) { if (mpi_problem.empty()) mpi_problem = rk() + ": MPI_Abort"; leave(); return 0; }
double MPI_Wtime(void) { return 0; } double MPI_Wtick(void) { return 1e-6; } int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "model"); *l = 5; return 0; } int MPI_Error_string(int, char *s, int *l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; } int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; } int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_set_name(MPI_Comm, const char *) { return 0; } int MPI_Comm_get_name(MPI_Comm, char *n, int *l) { *n = 0; *l = 0; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { comm_ok(c, "MPI_Comm_rank"); *r = rank_in(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { comm_ok(c, "MPI_Comm_size"); *n = members(c).size(); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
  return mkcomm(c, "MPI_Comm_split", {color, key}, out, [c](int q) { return lastcoll(c)->a[q][0]; }, [c](int q) { return lastcoll(c)->a[q][1]; }, [](mc_comm *, long) {}); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { return mkcomm(c, "MPI_Comm_dup", {}, out, [](int) { return 0L; }, [](int q) { return (long)q; }, [c](mc_comm *o, long) { o->cart = c->cart; o->dims = c->dims; o->periods = c->periods; }); }
int MPI_Comm_free(MPI_Comm *c) {
  point("MPI_Comm_free"); comm_ok(*c, "MPI_Comm_free"); if (*c == &mc_world || *c == &mc_self) bad("MPI_Comm_free of a predefined communicator");
  (*c)->freed.insert(cur); R[cur].comms--; *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { comm_ok(a, "MPI_Comm_compare"); comm_ok(b, "MPI_Comm_compare"); if (a == b) *r = MPI_IDENT; else { auto x = members(a), y = members(b); if (x == y) *r = MPI_CONGRUENT; else { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); *r = x == y ? MPI_SIMILAR : MPI_UNEQUAL; } } return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { if (f == 0) return &mc_world; if (f == 1) return &mc_self; if (f == 2) return 0; return f - 3 < (int)allcomm.size() && f >= 3 ? allcomm[f - 3] : 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { if (c == &mc_world) return 0; if (c == &mc_self) return 1; for (size_t k = 0; k < allcomm.size(); k++) if (allcomm[k] == c) return k + 3; return 2; }
int MPI_Topo_test(MPI_Comm c, int *s) { comm_ok(c, "MPI_Topo_test"); *s = c->cart ? MPI_CART : MPI_UNDEFINED; return 0; }
int MPI_Dims_create(int n, int nd, int *d) { for (int k = 0; k < nd; k++) if (d[k] > 0) n /= d[k]; for (int k = 0; k < nd; k++) if (d[k] == 0) { int left = 0; for (int j = k; j < nd; j++) left += d[j] == 0; int x = 1; for (int t = 1; t <= n; t++) if (n % t == 0) { long p = 1; for (int j = 0; j < left; j++) p *= t; x = t; if (p >= n) break; } d[k] = x; n /= x; } return 0; }
int MPI_Cart_create(MPI_Comm c, int nd, const int *d, const int *p, int reorder, MPI_Comm *out) {
  vector<long> a = {nd, reorder}; long tot = 1; for (int k = 0; k < nd; k++) { a.push_back(d[k]); a.push_back(p[k]); tot *= d[k]; }
  vector<int> D(d, d + nd), P(p, p + nd); comm_ok(c, "MPI_Cart_create"); if (tot > (long)members(c).size()) bad("MPI_Cart_create of a grid larger than the communicator");
  return mkcomm(c, "MPI_Cart_create", a, out, [tot](int q) { return q < tot ? 0L : (long)MPI_UNDEFINED; }, [](int q) { return (long)q; }, [D, P](mc_comm *o, long) { o->cart = true; o->dims = D; o->periods = P; }); }
static void cart(MPI_Comm c, const char *w) { comm_ok(c, w); if (!c->cart) bad(string(w) + " on a communicator without a grid"); }
int MPI_Cart_coords(MPI_Comm c, int r, int nd, int *x) { cart(c, "MPI_Cart_coords"); to_world(c, r, "MPI_Cart_coords"); for (int k = (int)c->dims.size() - 1; k >= 0; k--) { if (k < nd) x[k] = r % c->dims[k]; r /= c->dims[k]; } return 0; }
int MPI_Cart_rank(MPI_Comm c, const int *x, int *r) { cart(c, "MPI_Cart_rank"); int v = 0; for (size_t k = 0; k < c->dims.size(); k++) { int y = x[k]; if (c->periods[k]) y = ((y % c->dims[k]) + c->dims[k]) % c->dims[k]; else if (y < 0 || y >= c->dims[k]) bad("MPI_Cart_rank with coordinates outside the grid"); v = v * c->dims[k] + y; } *r = v; return 0; }
int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int *src, int *dst) {
  cart(c, "MPI_Cart_shift"); int nd = c->dims.size(); if (dir < 0 || dir >= nd) bad("MPI_Cart_shift along an invalid dimension");
  vector<int> x(nd); MPI_Cart_coords(c, rank_in(c), nd, x.data());
  for (int s = -1; s <= 1; s += 2) { vector<int> y = x; y[dir] += s * disp; int *o = s < 0 ? src : dst; if (!c->periods[dir] && (y[dir] < 0 || y[dir] >= c->dims[dir])) *o = MPI_PROC_NULL; else MPI_Cart_rank(c, y.data(), o); }
  return 0; }
int MPI_Cart_get(MPI_Comm c, int nd, int *d, int *p, int *x) { cart(c, "MPI_Cart_get"); for (int k = 0; k < nd; k++) { d[k] = c->dims[k]; p[k] = c->periods[k]; } return MPI_Cart_coords(c, rank_in(c), nd, x); }
int MPI_Cartdim_get(MPI_Comm c, int *n) { cart(c, "MPI_Cartdim_get"); *n = c->dims.size(); return 0; }
int MPI_Cart_sub(MPI_Comm c, const int *keep, MPI_Comm *out) {
  cart(c, "MPI_Cart_sub"); vector<int> K(keep, keep + c->dims.size()); vector<long> a(K.begin(), K.end());
  auto col = [c, K](int q) { vector<int> x(K.size()); int r = q; for (int k = (int)K.size() - 1; k >= 0; k--) { x[k] = r % c->dims[k]; r /= c->dims[k]; } long v = 0; for (size_t k = 0; k < K.size(); k++) if (!K[k]) v = v * c->dims[k] + x[k]; return v; };
  return mkcomm(c, "MPI_Cart_sub", a, out, col, [](int q) { return (long)q; }, [c, K](mc_comm *o, long) { o->cart = true; for (size_t k = 0; k < K.size(); k++) if (K[k]) { o->dims.push_back(c->dims[k]); o->periods.push_back(c->periods[k]); } }); }
// types
static MPI_Datatype mkt(const vector<Run> &r) { mc_type *t = new mc_type; for (auto &x : r) addrun(t->runs, x.disp, x.basic, x.n); bounds(*t); t->owner = cur; livetype.insert(t); alltype.push_back(t); R[cur].types++; return t; }
static void place(vector<Run> &v, ptrdiff_t at, int count, const mc_type &t) { walk(t, count, [&](ptrdiff_t d, int b, long n) { v.push_back({at + d, b, n}); }); }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *t, MPI_Datatype *o) { vector<Run> v; for (int k = 0; k < n; k++) { cnt(bl[k], "MPI_Type_create_struct"); place(v, d[k], bl[k], ty(t[k], "MPI_Type_create_struct", false)); } *o = mkt(v); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { vector<Run> v; cnt(n, "MPI_Type_contiguous"); place(v, 0, n, ty(t, "MPI_Type_contiguous", false)); *o = mkt(v); return 0; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype t, MPI_Datatype *o) { vector<Run> v; cnt(n, "MPI_Type_vector"); cnt(bl, "MPI_Type_vector"); for (int k = 0; k < n; k++) place(v, k * st, bl, ty(t, "MPI_Type_vector", false)); *o = mkt(v); return 0; }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype t, MPI_Datatype *o) { return MPI_Type_create_hvector(n, bl, st * ty(t, "MPI_Type_vector", false).ext, t, o); }
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *d, MPI_Datatype t, MPI_Datatype *o) { vector<Run> v; for (int k = 0; k < n; k++) { cnt(bl[k], "MPI_Type_indexed"); place(v, d[k], bl[k], ty(t, "MPI_Type_indexed", false)); } *o = mkt(v); return 0; }
int MPI_Type_indexed(int n, const int *bl, const int *d, MPI_Datatype t, MPI_Datatype *o) { vector<MPI_Aint> a; for (int k = 0; k < n; k++) a.push_back(d[k] * ty(t, "MPI_Type_indexed", false).ext); return MPI_Type_create_hindexed(n, bl, a.data(), t, o); }
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *o) { mc_type &T = ty(t, "MPI_Type_create_resized", false); *o = mkt(T.runs); (*o)->lb = lb; (*o)->ext = ext; return 0; }
int MPI_Type_create_subarray(int nd, const int *sz, const int *sub, const int *st, int order, MPI_Datatype t, MPI_Datatype *o) {
  mc_type &T = ty(t, "MPI_Type_create_subarray", false); vector<Run> v; vector<int> x(nd, 0); long tot = 1; for (int k = 0; k < nd; k++) tot *= sub[k];
  for (long e = 0; e < tot; e++) { long r = e, off = 0; vector<int> y(nd); if (order == MPI_ORDER_C) for (int k = nd - 1; k >= 0; k--) { y[k] = r % sub[k]; r /= sub[k]; } else for (int k = 0; k < nd; k++) { y[k] = r % sub[k]; r /= sub[k]; }
    if (order == MPI_ORDER_C) for (int k = 0; k < nd; k++) off = off * sz[k] + st[k] + y[k]; else for (int k = nd - 1; k >= 0; k--) off = off * sz[k] + st[k] + y[k]; place(v, off * T.ext, 1, T); }
  *o = mkt(v); long all = T.ext; for (int k = 0; k < nd; k++) all *= sz[k]; (*o)->lb = 0; (*o)->ext = all; return 0; }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype *o) { mc_type &T = ty(t, "MPI_Type_dup", false); *o = mkt(T.runs); (*o)->lb = T.lb; (*o)->ext = T.ext; (*o)->committed = T.committed; return 0; }
int MPI_Type_commit(MPI_Datatype *t) { ty(*t, "MPI_Type_commit", false).committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *t) { mc_type &T = ty(*t, "MPI_Type_free", false); if (T.predef) bad("MPI_Type_free of a predefined datatype"); livetype.erase(*t); R[cur].types--; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = tsize(ty(t, "MPI_Type_size", false)); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { mc_type &T = ty(t, "MPI_Type_get_extent", false); *lb = T.lb; *e = T.ext; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; } MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { long z = tsize(ty(t, "MPI_Get_count", false)); *n = z == 0 ? 0 : s->mc_bytes % z ? MPI_UNDEFINED : (int)(s->mc_bytes / z); return 0; }
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *n) { return MPI_Get_count(s, t, n); }
// point to point
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_(b, n, t, d, tag, c, "MPI_Send", 1); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_(b, n, t, d, tag, c, "MPI_Ssend", 2); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_(b, n, t, d, tag, c, "MPI_Rsend", 1); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_(b, n, t, d, tag, c, "MPI_Bsend", 0); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return isend_(b, n, t, d, tag, c, r, false, "MPI_Isend"); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return isend_(b, n, t, d, tag, c, r, true, "MPI_Issend"); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { return recv_(b, n, t, s, tag, c, st, "MPI_Recv"); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) {
  point("MPI_Irecv"); mc_req *q;
  if (s == MPI_PROC_NULL) { q = new mc_req; allreq.push_back(q); q->owner = cur; q->recv = true; q->matched = true; q->st = nullst; }
  else q = post_recv(b, n, t, s, tag, c, "MPI_Irecv", is_late(MODE_LATE_RECV));
  *r = newreq(q); return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *s) { point("MPI_Wait"); if (*r == MPI_REQUEST_NULL) { setst(s, emptyst); return 0; } mc_req *q = rq(*r, "MPI_Wait"); wait_for(q->recv ? "MPI_Wait for a message from rank " + std::to_string(q->src) : "MPI_Wait for a send", [q] { return rdone(q); }); finish(r, s); return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) {
  point("MPI_Waitall"); vector<mc_req *> v; for (int k = 0; k < n; k++) if (r[k]) { rq(r[k], "MPI_Waitall"); v.push_back(r[k]); }
  wait_for("MPI_Waitall", [v] { for (auto q : v) if (!rdone(q)) return false; return true; });
  for (int k = 0; k < n; k++) if (r[k]) finish(&r[k], s ? s + k : 0); else if (s) s[k] = emptyst; return 0; }
int MPI_Waitany(int n, MPI_Request *r, int *ix, MPI_Status *s) {
  point("MPI_Waitany"); vector<int> v; for (int k = 0; k < n; k++) if (r[k]) { rq(r[k], "MPI_Waitany"); v.push_back(k); } if (v.empty()) { *ix = MPI_UNDEFINED; setst(s, emptyst); return 0; }
  wait_for("MPI_Waitany", [v, r] { for (int k : v) if (rdone(r[k])) return true; return false; });
  vector<int> d; for (int k : v) if (rdone(r[k])) d.push_back(k); *ix = d[pick_free(d.size())]; finish(&r[*ix], s); return 0; }
int MPI_Waitsome(int n, MPI_Request *r, int *out, int *ix, MPI_Status *s) { int k; MPI_Waitany(n, r, &k, s); if (k == MPI_UNDEFINED) *out = MPI_UNDEFINED; else { *out = 1; ix[0] = k; } return 0; }
int MPI_Test(MPI_Request *r, int *f, MPI_Status *s) { point("MPI_Test"); if (!*r) { *f = 1; setst(s, emptyst); return 0; } rq(*r, "MPI_Test"); if (rdone(*r) && !deviate(2)) { *f = 1; finish(r, s); } else { *f = 0; yield_(); } return 0; }
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s) { point("MPI_Testall"); bool d = true; for (int k = 0; k < n; k++) if (r[k]) { rq(r[k], "MPI_Testall"); d &= rdone(r[k]); } if (d && !deviate(2)) { *f = 1; for (int k = 0; k < n; k++) if (r[k]) finish(&r[k], s ? s + k : 0); else if (s) s[k] = emptyst; } else { *f = 0; yield_(); } return 0; }
int MPI_Testany(int n, MPI_Request *r, int *ix, int *f, MPI_Status *s) { point("MPI_Testany"); bool any = false; for (int k = 0; k < n; k++) if (r[k]) { any = true; if (rdone(r[k])) { *ix = k; *f = 1; finish(&r[k], s); return 0; } } *ix = MPI_UNDEFINED; *f = !any; if (any) yield_(); return 0; }
int MPI_Request_free(MPI_Request *r) { point("MPI_Request_free"); mc_req *q = rq(*r, "MPI_Request_free"); if (!q->recv && q->msg) fetch(q->msg); livereq.erase(q); R[cur].reqs--; *r = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request *r) { point("MPI_Cancel"); mc_req *q = rq(*r, "MPI_Cancel"); if (q->recv && !q->matched) { auto &P = posted[cur]; P.erase(std::find(P.begin(), P.end(), q)); q->matched = true; q->st = emptyst; q->st.mc_cancelled = 1; } return 0; }
static Msg *probe(int s, int tag, MPI_Comm c, const char *w) { mc_req q; q.comm = c; q.src = s == MPI_ANY_SOURCE ? -1 : to_world(c, s, w); q.tag = tag; for (auto m : unexp[cur]) if (fitsmsg(&q, m)) return m; return 0; }
static void pst(Msg *m, MPI_Comm c, MPI_Status *s) { if (!s) return; auto &mem = members(c); for (size_t k = 0; k < mem.size(); k++) if (mem[k] == m->src) s->MPI_SOURCE = k; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->mc_bytes = sigbytes(m->sig); s->mc_cancelled = 0; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { point("MPI_Probe"); comm_ok(c, "MPI_Probe"); if (s == MPI_PROC_NULL) { setst(st, nullst); return 0; } wait_for("MPI_Probe", [=] { int sv = cur; (void)sv; mc_req q; q.comm = c; return true; }); for (;;) { Msg *m = probe(s, tag, c, "MPI_Probe"); if (m) { pst(m, c, st); return 0; } int me = cur; int ws = s == MPI_ANY_SOURCE ? -1 : to_world(c, s, "MPI_Probe"); wait_for("MPI_Probe", [=] { mc_req q; q.comm = c; q.src = ws; q.tag = tag; for (auto m : unexp[me]) if (fitsmsg(&q, m)) return true; return false; }); } }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *f, MPI_Status *st) { point("MPI_Iprobe"); comm_ok(c, "MPI_Iprobe"); Msg *m = s == MPI_PROC_NULL ? 0 : probe(s, tag, c, "MPI_Iprobe"); if (m && !deviate(2)) { *f = 1; pst(m, c, st); } else { *f = 0; yield_(); } return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stt) {
  point("MPI_Sendrecv"); mc_req *q = 0; Msg *m = 0; if (s != MPI_PROC_NULL) q = post_recv(rb, rn, rt, s, rtag, c, "MPI_Sendrecv", true); if (d != MPI_PROC_NULL) m = post_send(sb, sn, st, d, stag, c, "MPI_Sendrecv", false);
  bool sy = m && !m->matched && is_sync();
  wait_for("MPI_Sendrecv", [=] { return (!q || q->matched) && (!m || !sy || m->matched); }); if (q) { copy_in(q); setst(stt, q->st); } else setst(stt, nullst); return 0; }
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st) { return MPI_Sendrecv(b, n, t, d, stag, b, n, t, s, rtag, c, st); }
// collectives
int MPI_Barrier(MPI_Comm c) { int me; Coll &k = enter(c, "MPI_Barrier", -1, 0, me); arrive(k, me); wait_all(k); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  int me; if (root < 0) bad("MPI_Bcast with a negative root"); Coll &k = enter(c, "MPI_Bcast", root, 0, me); cnt(n, "MPI_Bcast"); mc_type &T = ty(t, "MPI_Bcast"); bufok(b, n, T, "MPI_Bcast");
  mc_type TT = T; k.sig[me] = sigof(T, n); if (me == root) k.data[me] = pack(b, n, T); arrive(k, me);
  if (me == root) leave_early(k); else { wait_one(k, root); same(k.sig[root], k.sig[me], "MPI_Bcast"); unpack(b, n, TT, k.data[root]); leave_early(k); }
  return 0; }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { return reduce_(s, r, n, t, o, root, c, "MPI_Reduce", 0); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return reduce_(s, r, n, t, o, -1, c, "MPI_Allreduce", 0); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return reduce_(s, r, n, t, o, -1, c, "MPI_Scan", 1); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return reduce_(s, r, n, t, o, -1, c, "MPI_Exscan", 2); }
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gather_(s, sn, st, r, 0, rn, 0, rt, root, c, "MPI_Gather"); }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *d, MPI_Datatype rt, int root, MPI_Comm c) { return gather_(s, sn, st, r, rc, 0, d, rt, root, c, "MPI_Gatherv"); }
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { return gather_(s, sn, st, r, 0, rn, 0, rt, -1, c, "MPI_Allgather"); }
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *d, MPI_Datatype rt, MPI_Comm c) { return gather_(s, sn, st, r, rc, 0, d, rt, -1, c, "MPI_Allgatherv"); }
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return alltoall_(s, 0, sn, 0, st, r, 0, rn, 0, rt, root, c, "MPI_Scatter"); }
int MPI_Scatterv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return alltoall_(s, sc, 0, sd, st, r, 0, rn, 0, rt, root, c, "MPI_Scatterv"); }
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { return alltoall_(s, 0, sn, 0, st, r, 0, rn, 0, rt, -1, c, "MPI_Alltoall"); }
int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { return alltoall_(s, sc, 0, sd, st, r, rc, 0, rd, rt, -1, c, "MPI_Alltoallv"); }
}
// ---------------------------------------------------------------- exploration
string mpi_schedule() { string s; for (size_t k = 0; k < pos && k < path.size(); k++) s += (k ? "," : "") + std::to_string(path[k].cur); return s; }
MpiRes mpi_resources(int r) { return {R[r].comms, R[r].types, R[r].reqs}; }
static void one_run(const function<void(int)> &body) {
  for (auto m : allmsg) delete m; for (auto q : allreq) delete q; for (auto t : alltype) delete t; for (auto c : allcomm) delete c; for (auto &c : colls) delete c.second;
  allmsg.clear(); allreq.clear(); alltype.clear(); allcomm.clear(); colls.clear(); livereq.clear(); livetype.clear(); nextctx = 1;
  mc_world = mc_comm(); for (int r = 0; r < NR; r++) mc_world.mem.push_back(r);
  for (int r = 0; r < NR; r++) {
    posted[r].clear(); unexp[r].clear(); Rank &k = R[r];
    if (!k.stk) k.stk = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(k.stk, STK);
    k.done = false; k.pred = nullptr; k.calls = 0; k.comms = k.types = k.reqs = 0; k.self = mc_comm(); k.fake = 0;
    void **sp = (void **)(k.stk + STK - 64); *--sp = 0; *--sp = (void *)rank_main; for (int q = 0; q < 6; q++) *--sp = 0; k.cx.sp = sp;
  }
  rbody = &body; mpi_problem.clear(); used = 0; pos = 0; S->schedules++;
  cur = base & MODE_DESC ? NR - 1 : 0; sw(-1, cur);
  cur = -1;
  if (mpi_problem.empty()) {
    bool all = true; for (int r = 0; r < NR; r++) all &= R[r].done;
    if (all) {
      for (int r = 0; r < NR && mpi_problem.empty(); r++) if (!unexp[r].empty()) { Msg *m = unexp[r][0]; mpi_problem = "a message of " + sigstr(m->sig) + " from rank " + std::to_string(m->src) + " to rank " + std::to_string(r) + " (tag " + std::to_string(m->tag) + ") is never received"; }
      for (int r = 0; r < NR && mpi_problem.empty(); r++) if (!posted[r].empty()) mpi_problem = "rank " + std::to_string(r) + " leaves a receive that never completes";
      for (auto &c : colls) if (mpi_problem.empty() && c.second->n != (int)c.second->here.size()) mpi_problem = "a " + c.second->kind + " is entered by some ranks of its communicator only";
    }
  }
  long mx = 0; for (int r = 0; r < NR; r++) mx = std::max(mx, R[r].calls); S->maxcalls = std::max(S->maxcalls, mx);
}
MpiStats mpi_explore(int n, int mode, int dev, long cap, const function<void(int)> &body, const function<bool()> &done) {
  MpiStats st; S = &st; NR = n; base = mode; bound = dev; path.clear();
  for (;;) {
    one_run(body); bool cont = done();
    path.resize(std::min(pos, path.size()));
    while (!path.empty() && path.back().cur + 1 >= path.back().n) path.pop_back();
    if (path.empty() || !cont) break;
    if (st.schedules >= cap) { st.cut = true; break; }
    path.back().cur++;
  }
  S = 0; return st;
}
extern "C" void mc_res(int *c, int *t, int *r) { *c = R[cur].comms; *t = R[cur].types; *r = R[cur].reqs; }
