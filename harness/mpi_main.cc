// C21-C23: loads one copy of the library per rank and explores the communication schedules of each program.
#include "mpi_ops.h"
#include "mpi_explore.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
typedef void (*Entry)(const MCase *, int, RankOut *);
static vector<Entry> ranks;
extern "C" void mc_res(int *c, int *t, int *r);
static void load(int n) {
  if ((int)ranks.size() >= n) return;
  char me[4096]; ssize_t l = readlink("/proc/self/exe", me, sizeof me - 8); if (l < 0) { fprintf(stderr, "cannot find own path\n"); _exit(96); } me[l] = 0; strcat(me, ".so");
  int f = open(me, O_RDONLY); if (f < 0) { perror(me); _exit(96); }
  string data; char buf[1 << 16]; ssize_t k; while ((k = read(f, buf, sizeof buf)) > 0) data.append(buf, k); close(f);
  while ((int)ranks.size() < n) {
    int m = memfd_create("rank", 0); string path; bool tmp = m < 0; char t[] = "/tmp/bml-mc-XXXXXX";
    if (tmp) m = mkstemp(t);
    if (m >= 0) { for (size_t o = 0; o < data.size();) { ssize_t w = write(m, data.data() + o, data.size() - o); if (w <= 0) { perror("memfd"); _exit(96); } o += w; } path = tmp ? string(t) : strf("/proc/self/fd/%d", m); }
    void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); if (tmp) unlink(t); if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(96); }
    Entry e = (Entry)dlsym(h, "rank_entry"); if (!e) { fprintf(stderr, "%s\n", dlerror()); _exit(96); }
    ranks.push_back(e);
  }
}
static string cls(const string &m) { string o; for (char ch : m) { if (isdigit(ch)) { if (o.empty() || o.back() != '#') o += '#'; } else o += ch; if (o.size() > 70) break; } return o; }
static bool g_reported;
// modes: bit set of base modes to use; dev: deviations; cap: schedules per mode
static void run(Ctx &cx, const MCase &mc, unsigned modes, int dev, long cap) {
  load(mc.nr);
  const MOp &op = mops()[mc.op]; const Cfg &c = mc.c; string sig = strf("%s|%s|%s", op.name.c_str(), FMTN[c.fmt], PRECN[c.prec]);
  vector<Exp> want(mc.nr); for (int r = 0; r < mc.nr; r++) op.want(mc, r, want[r]);
  bool nt = false;
  for (int mode = 0; mode < NMODES && !cx.capped; mode++) {
    if (!(modes >> mode & 1)) continue;
    vector<RankOut> out; bool good = true;
    auto body = [&](int r) { ranks[r](&mc, r, &out[r]); };
    auto where = [&] { return strf(" [base mode %d%s%s%s%s, choices %s]", mode, mode & MODE_SYNC ? " synchronous sends" : " buffered sends", mode & MODE_LATE_RECV ? " late delivery" : "", mode & MODE_LATE_SEND ? " late send buffers" : "", mode & MODE_DESC ? " descending ranks" : "", mpi_schedule().c_str()); };
    auto done = [&]() -> bool {
      alarm(20);
      auto bad = [&](const string &s, const string &m) { cx.fail(sig + "|" + s, m + where()); good = false; };
      for (int r = 0; r < mc.nr && good; r++) for (auto &f : out[r].fails) bad(f.first, strf("rank %d: ", r) + f.second);
      if (good && !mpi_problem.empty()) bad(cls(mpi_problem), mpi_problem);
      if (good && mc.frank >= 0) { if (!out[mc.frank].faulted) bad("nondeterministic", "the allocation to fail was never made"); bool ref = false; for (auto &o : out) ref |= o.refused; g_reported |= ref; }
      if (good) {
        bool ref = false; for (auto &o : out) ref |= o.refused;
        if (ref) { if (!want[0].refuse && !mc.lenient) { string e; for (auto &o : out) if (o.refused) e = o.err; bad("refused", "call that must succeed ended in error exit: " + e); } }
        else for (int r = 0; r < mc.nr && good; r++) {
          if (!out[r].fin) { bad("unfinished", strf("rank %d does not finish", r)); break; }
          Exp &w = want[r]; RankOut &o = out[r];
          if (o.mats.size() != w.mats.size() || o.nums.size() != w.nums.size()) { bad("harness", strf("rank %d observed %zu/%zu results, expected %zu/%zu", r, o.mats.size(), o.nums.size(), w.mats.size(), w.nums.size())); break; }
          for (size_t k = 0; k < w.mats.size() && good; k++) {
            if (o.mats[k].n != w.mats[k].n) { bad("value", strf("rank %d observation %zu: size %d, expected %d", r, k, o.mats[k].n, w.mats[k].n)); break; }
            for (size_t e = 0; e < w.mats[k].a.size(); e++) {
              cd g = o.mats[k].a[e], x = w.mats[k].a[e]; double t = w.thr[k];
              bool ok = near(g, x, w.mtol[k]) || (t > 0 && std::abs(x) <= t && g == cd(0)) || (w.slack[k] > 0 && std::abs(g - x) <= w.slack[k]);
              if (!ok) { bad("value", strf("rank %d observation %zu element (%d,%d): got %.17g%+.17gi want %.17g%+.17gi; got ", r, k, (int)(e / w.mats[k].n), (int)(e % w.mats[k].n), g.real(), g.imag(), x.real(), x.imag()) + r_str(o.mats[k]) + " want " + r_str(w.mats[k])); break; }
            }
          }
          for (size_t k = 0; k < w.nums.size() && good; k++) { double g = o.nums[k], x = w.nums[k]; if (!(g == x || (std::isfinite(g) && fabs(g - x) <= w.tol[k] * (1 + fabs(x))))) bad("number", strf("rank %d number %zu: got %.17g want %.17g", r, k, g, x)); }
        }
      }
      out.assign(mc.nr, RankOut());
      return good;
    };
    out.assign(mc.nr, RankOut());
    MpiStats s = mpi_explore(mc.nr, mode, dev, cap, body, done);
    cx.trans(s.schedules); cx.stat("schedules", s.schedules); cx.stat("mpi_calls", s.calls); cx.stat("schedule_choices", s.choices); cx.stat("messages", s.messages); cx.stat("collectives", s.collectives);
    cx.stat(s.cut ? "explorations_cut_by_cap" : dev == 0 ? "explorations_complete_deviations_0" : dev == 1 ? "explorations_complete_deviations_1" : "explorations_complete_deviations_2", 1);
    nt |= s.messages > 0 || s.collectives > 0;
    if (!good) break;
  }
  if (nt) cx.nontrivial++;
}
// how many allocations the rank makes when none fails (0: the program does not succeed)
static long count_allocs(MCase mc, int rank) {
  load(mc.nr); mc.frank = rank; mc.fault = 1000000000; vector<RankOut> out(mc.nr); long n = 0;
  alarm(20); mpi_explore(mc.nr, 0, 0, 1, [&](int r) { ranks[r](&mc, r, &out[r]); }, [&]() -> bool { n = out[rank].fin && mpi_problem.empty() ? out[rank].allocs : 0; for (auto &o : out) if (!o.fails.empty()) n = 0; return false; });
  return n;
}
static const unsigned ALLM = 0xffff, FEW = 1u << 0 | 1u << (MODE_SYNC | MODE_LATE_RECV | MODE_LATE_SEND) | 1u << (MODE_DESC | MODE_LATE_RECV) | 1u << (MODE_SYNC | MODE_DESC | MODE_LATE_SEND);
#include "mpi_cases.h"
