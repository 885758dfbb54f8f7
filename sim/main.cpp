// Simulator host: runs cases in forked children, judges them, minimises and replays violations.
#include "gen.h"
#include "rt.h"
#include <atomic>
#include <chrono>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <math.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

static std::string libdir; static const int NCOPIES = 12, MAXRANKS = 40; static drv_fn fns[MAXRANKS];   // the first 12 copies are loaded once, the others by the executions which need them
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- one execution
static char altstk[65536];
static void on_crash(int sig, siginfo_t *si, void *) {
  if (SH && !SH->vkind) {
    uintptr_t a = (uintptr_t)si->si_addr; const char *w = "an invalid address";
    if (a < 65536) w = "a null pointer"; else if (cur && a >= (uintptr_t)cur->stk && a < (uintptr_t)cur->stk + 4096) w = "the stack guard (stack exhausted)";
    int op = SH->curop;
    SH->vkind = sig == SIGPROF ? V_WALL : V_CRASH;
    const char *k = op >= 0 && SC && op < (int)SC->ops.size() ? op_names[SC->ops[op].kind] : "-";
    if (sig == SIGPROF) snprintf(SH->vmsg, sizeof SH->vmsg, "no end after the processor time limit [rank %d op %d %s]", SH->currank, op, k);
    else if (sig == SIGSEGV || sig == SIGBUS) snprintf(SH->vmsg, sizeof SH->vmsg, "signal %d accessing %s [rank %d op %d %s]", sig, w, SH->currank, op, k);
    else snprintf(SH->vmsg, sizeof SH->vmsg, "signal %d [rank %d op %d %s]", sig, SH->currank, op, k);
  }
  _exit(4);
}
static void load_libs(int from = 0, int to = NCOPIES) {
  for (int i = from; i < to; i++) {
    std::string p = libdir + "/simlib_" + std::to_string(i) + ".so"; void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror()); exit(2); }
    fns[i] = (drv_fn)dlsym(h, "sim_driver_main"); if (!fns[i]) { fprintf(stderr, "no driver in %s\n", p.c_str()); exit(2); }
  }
}
static drv_fn pyrank = nullptr;
static void load_python() {
  if (pyrank) return;
  char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) n = 0; exe[n] = 0; std::string dir(exe); dir.resize(dir.rfind('/'));
  void *h = dlopen((dir + "/simpy.so").c_str(), RTLD_NOW | RTLD_GLOBAL); if (!h) { fprintf(stderr, "cannot load simpy.so: %s\n", dlerror()); exit(2); }
  auto init = (int (*)(const char *, const char *, int))dlsym(h, "simpy_init"); pyrank = (drv_fn)dlsym(h, "simpy_rank");
  if (!init || !pyrank || init((dir + "/pydriver.py").c_str(), libdir.c_str(), NCOPIES)) { fprintf(stderr, "the Python interpreter cannot be started\n"); exit(2); }
}
static bool keep_output = false; static int cpu_limit = 150;
static void execute(const Scenario &s, const std::vector<uint32_t> *trace, RunOut &out) {
  memset((void *)SH, 0, offsetof(Shared, trace)); SH->nobs = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!keep_output) { int fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 2); close(fd); }
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(g, &sa, nullptr);
    struct itimerval tv = {{0, 0}, {cpu_limit, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (s.nranks > NCOPIES) load_libs(NCOPIES, s.nranks);
    SC = &s; disk_init();
    for (size_t i = 0; i < s.files.size(); i++) if (!s.files[i].missing) disk_put("f" + std::to_string(i) + ".fits", fits_file(s.files[i]));
    set_replay(trace);
    if (s.py) { static drv_fn pf[MAXRANKS]; for (auto &x : pf) x = pyrank; run_ranks(pf, nullptr); } else run_ranks(fns, nullptr);
    _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!SH->finished && !SH->vkind) {
    SH->vkind = V_CRASH; snprintf(SH->vmsg, sizeof SH->vmsg, "the process died (%s %d) [rank %d op %d]", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), SH->currank, SH->curop); }
  out = RunOut(); out.vkind = SH->vkind; out.vmsg = SH->vmsg; out.aborted = SH->aborted; out.abort_rank = SH->abort_rank; out.abort_op = SH->abort_op;
  out.hash = SH->hash; out.schedhash = SH->schedhash; out.fired.assign(SH->fired, SH->fired + F_MAX); out.flushlost.assign(SH->flushlost, SH->flushlost + OPS_MAX); out.trace_full = SH->ntrace >= TRACE_MAX;
  for (size_t p = 0; p + sizeof(ObsRec) <= SH->nobs;) {
    ObsRec r; memcpy(&r, SH->obs + p, sizeof r); p += sizeof r; Obs o; o.rank = r.rank; o.op = r.op; o.tag = r.tag; o.aux = r.aux; o.d.resize(r.n); if (r.n) memcpy(o.d.data(), SH->obs + p, r.n * 8); p += r.n * 8;
    out.by[(uint64_t)o.rank << 32 | (unsigned)o.op].push_back(out.obs.size()); out.obs.push_back(std::move(o)); }
}
static std::vector<uint32_t> last_trace() { return std::vector<uint32_t>(SH->trace, SH->trace + SH->ntrace); }

// ---------------------------------------------------------------- property masks
static const int BASE = J_COMPLETE | J_STOP | J_COMM | J_STATUS;
static int mask_of(const std::string &p) {
  if (p == "C01") return BASE | J_VAL | J_POLAR; if (p == "C02") return BASE | J_ROWS | J_TIME; if (p == "C03") return BASE | J_PAIR; if (p == "C04") return BASE;
  if (p == "C05") return BASE | J_PAIR | J_RACE; if (p == "C06") return BASE | J_TIME | J_VAL | J_ROWS | J_PAIR | J_ALM; if (p == "C07") return BASE | J_ALM | J_UNIFORM;
  if (p == "C08") return BASE | J_UNIFORM | J_REFUSE | J_ALM | J_MEM | J_VAL | J_FALSEOK; if (p == "C09") return BASE | J_REFUSE | J_INTACT | J_UNIFORM | J_VAL | J_ROWS;
  if (p == "C10") return BASE | J_ESCAPE | J_REFUSE | J_PAIR | J_VAL | J_FALSEOK | J_ALM; if (p == "C11") return BASE | J_VAL | J_ALM | J_ROWS | J_MEM;
  if (p == "C12") return BASE | J_FALSEOK | J_MEM; if (p == "C13") return J_MEM; if (p == "C14") return BASE | J_PAIR; if (p == "C15") return BASE | J_VAL | J_STATE | J_ALM | J_REFUSE | J_ROWS | J_TIME;
  if (p == "C16") return BASE | J_PAIR | J_VAL | J_ALM | J_ROWS | J_TIME | J_STATE | J_REFUSE | J_FALSEOK | J_INTACT | J_UNIFORM; if (p == "C17") return BASE | J_LAYER | J_MEM; if (p == "C18") return BASE | J_ROT | J_PAIR | J_RACE; if (p == "C19") return BASE | J_FALSEOK | J_UNIFORM | J_ESCAPE; if (p == "C20") return J_CENSUS | J_OPENF; if (p == "C22") return BASE | J_FALSEOK | J_ESCAPE;
  return 0;
}
static std::string hex(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
static std::string key3(double a, double b, double c) { char k[24]; memcpy(k, &a, 8); memcpy(k + 8, &b, 8); memcpy(k + 16, &c, 8); return std::string(k, 24); }
static bool haskind(const Scenario &s, int k) { for (auto &f : s.faults) if (f.kind == k) return true; return false; }

static void pair_check(const Case &c, const std::vector<RunOut> &R, std::vector<Finding> &F) {
  if (!c.pair || R.size() < 2) return; const Scenario &s = c.runs[0], &t = c.runs[1]; const RunOut &a = R[0], &b = R[1];
  if (a.vkind || b.vkind) return;            // reported on their own
  auto scale = [&](const RunOut &r, int rank, int op, size_t row) { auto it = r.scale.find((uint64_t)rank << 32 | (unsigned)op); return it != r.scale.end() && row < it->second.size() ? it->second[row] : 0.0; };
  if (c.pair == PAIR_KEY) {
    int oa = (int)s.ops.size() - 1, ob = (int)t.ops.size() - 1; std::map<std::string, std::pair<double, int>> M; double mx = 0;
    for (int q = 0; q < s.nranks; q++) { const Obs *x = a.get(q, oa, OB_ROWS, 0); if (!x || a.outcome(q, oa) != OUT_OK) continue;
      for (size_t i = 0; i + 4 < x->d.size(); i += 5) { mx = std::max(mx, fabs(x->d[i + 3])); std::string k = key3(x->d[i], x->d[i + 1], x->d[i + 2]); auto it = M.find(k); double sc = scale(a, q, oa, i / 5);
        if (it == M.end()) M[k] = {x->d[i + 3], q}; else if (fabs(it->second.first - x->d[i + 3]) > 1e-11 * sc + 1e-9 * mx) { F.push_back({J_PAIR, q, oa, "identical samples (phi " + hex(x->d[i]) + ", theta " + hex(x->d[i + 1]) + ", psi " + hex(x->d[i + 2]) + ") within one call have values " + hex(it->second.first) + " and " + hex(x->d[i + 3])}); return; } } }
    for (int q = 0; q < t.nranks; q++) { const Obs *x = b.get(q, ob, OB_ROWS, 0); if (!x || b.outcome(q, ob) != OUT_OK) continue;
      for (size_t i = 0; i + 4 < x->d.size(); i += 5) { auto it = M.find(key3(x->d[i], x->d[i + 1], x->d[i + 2])); if (it == M.end()) continue; double sc = scale(b, q, ob, i / 5);
        if (!(fabs(it->second.first - x->d[i + 3]) <= 1e-11 * sc + 1e-9 * mx)) { F.push_back({J_PAIR, q, ob, "the sample (phi " + hex(x->d[i]) + ", theta " + hex(x->d[i + 1]) + ", psi " + hex(x->d[i + 2]) + ") has the value " + hex(it->second.first) + " in one distribution and " + hex(x->d[i + 3]) + " in another"}); return; } } }
    return;
  }
  for (int q = 0; q < s.nranks; q++) for (int i = 0; i < (int)s.ops.size(); i++) {
    if (c.pair == PAIR_GROUP && (s.ops[i].color != c.color || t.ops[i].kind == OP_NONE)) continue;
    auto ia = a.by.find((uint64_t)q << 32 | (unsigned)i), ib = b.by.find((uint64_t)q << 32 | (unsigned)i);
    if (ia == a.by.end() && ib == b.by.end()) continue;
    size_t na = ia == a.by.end() ? 0 : ia->second.size(), nb = ib == b.by.end() ? 0 : ib->second.size();
    if (na != nb) { F.push_back({J_PAIR, q, i, std::string(op_names[s.ops[i].kind]) + " delivers different kinds of results in the two executions"}); return; }
    for (size_t k = 0; k < na; k++) {
      const Obs &x = a.obs[ia->second[k]], &y = b.obs[ib->second[k]]; if (x.tag != y.tag || x.aux != y.aux) { F.push_back({J_PAIR, q, i, "different results"}); return; }
      if (x.tag == OB_OUT) { if ((x.d[0] == OUT_OK) != (y.d[0] == OUT_OK)) { F.push_back({J_PAIR, q, i, std::string(op_names[s.ops[i].kind]) + (x.d[0] == OUT_OK ? " succeeds in one execution and fails in the other" : " fails in one execution and succeeds in the other") + " (" + a.outmsg(q, i) + b.outmsg(q, i) + ")"}); return; } continue; }
      if (x.d.size() != y.d.size()) { F.push_back({J_PAIR, q, i, std::string(op_names[s.ops[i].kind]) + " delivers " + std::to_string(x.d.size()) + " numbers in one execution and " + std::to_string(y.d.size()) + " in the other"}); return; }
      bool ok_out = a.outcome(q, i) == OUT_OK; if (x.tag == OB_ROWS && !ok_out) continue;
      if (c.pair == PAIR_BITS || x.tag != OB_ROWS) {
        for (size_t z = 0; z < x.d.size(); z++) if (memcmp(&x.d[z], &y.d[z], 8)) { F.push_back({J_PAIR, q, i, std::string(op_names[s.ops[i].kind]) + ": number " + std::to_string(z) + " of the result is " + hex(x.d[z]) + " in one execution and " + hex(y.d[z]) + " in the other"}); return; }
      } else {
        double mx = 0; for (size_t z = 3; z < x.d.size(); z += 5) mx = std::max(mx, fabs(x.d[z]));
        for (size_t z = 0; z < x.d.size(); z++) { double tol = z % 5 == 3 ? 1e-11 * scale(a, q, i, z / 5) + 1e-9 * mx : 0; if (!(fabs(x.d[z] - y.d[z]) <= tol)) { F.push_back({J_PAIR, q, i, "row " + std::to_string(z / 5) + " column " + std::to_string(z % 5) + " is " + hex(x.d[z]) + " in one execution and " + hex(y.d[z]) + " in the other"}); return; } }
      }
    }
  }
}
// findings of one run that contradict the property
static void run_findings(const Case &c, size_t k, const RunOut &r, std::vector<Finding> &out) {
  const Scenario &s = c.runs[k]; int m = mask_of(c.prop); bool alloc = haskind(s, F_ALLOC) && r.fired[F_ALLOC], mpi = haskind(s, F_MPI) && r.fired[F_MPI];
  std::vector<Finding> F = judge(s, r);
  if (mpi) for (auto &f : s.faults) if (f.kind == F_MPI && f.op >= 0 && f.rank >= 0 && r.outcome(f.rank, f.op) == OUT_OK)
    F.push_back({J_FALSEOK, f.rank, f.op, std::string(op_names[s.ops[f.op].kind]) + " reported success on a rank where MPI returned an error to one of its calls"});
  // an operation that reported the failed allocation must leave objects that later operations can be given
  bool over = alloc; for (auto &f : s.faults) if (f.kind == F_ALLOC && (f.op < 0 || f.rank < 0 || r.outcome(f.rank, f.op) < 0)) over = false;
  for (auto &f : F) {
    if (!f.cls) { out.push_back(f); continue; }
    if (alloc && !over && f.op < 0 && (r.vkind == V_TERMINATE || r.vkind == V_EXIT || r.vkind == V_ABORT || (r.vkind == V_CRASH && r.vmsg.find("null pointer") != std::string::npos))) { if (c.prop != "C10" && !(c.prop == "C16" && r.vkind == V_CRASH)) continue; }
    if (mpi && c.prop != "C12" && c.prop != "C10" && c.prop != "C16") continue;
    if (mpi && (f.cls & (J_STATUS))) continue;                       // a failing call is what is asked for
    if (mpi && (c.prop == "C10" || c.prop == "C16") && !(f.cls & (J_ESCAPE | J_FALSEOK | J_STOP))) continue;
    if (f.cls & m) out.push_back(f);
  }
}
static std::string sig_of(const Finding &f) { std::string t; for (char ch : f.msg) { if (isdigit((unsigned char)ch)) continue; t += ch; if (t.size() >= 28) break; } return std::to_string(f.cls) + ":" + t; }

// ---------------------------------------------------------------- cases
struct Agg {          // shared between the workers
  std::atomic<long> next, done, runs, rejected, twice, minviol, nhash, nsched, err, trivial, known;
  std::atomic<uint64_t> fired[F_MAX], ops[OP_MAX], switches, preempts, mpicalls, colls, p2p, hooks, allocs, regions, barriers, simns, eager, sync_, diskreads, diskopens, diskwrites, shortreads, aborted, probes[32], threads_runs, maxready, rows, alms, refusals;
  std::atomic<uint64_t> maxerr_ppt; uint64_t rankhist[MAXRANKS + 1]; char errmsg[800]; char sample[4][6000]; long nsample;
  static const long HN = 4 << 20; uint64_t hash[HN], sched[HN];
};
static Agg *AG;
static void account(const Scenario &s, const RunOut &r) {
  AG->runs++; for (int i = 0; i < F_MAX; i++) AG->fired[i] += SH->fired[i]; for (int i = 0; i < OP_MAX; i++) AG->ops[i] += SH->accops[i];
  AG->switches += SH->switches; AG->preempts += SH->preempts; AG->mpicalls += SH->mpicalls; AG->colls += SH->colls; AG->p2p += SH->p2p; AG->hooks += SH->hooks; AG->allocs += SH->allocs; AG->regions += SH->regions; AG->barriers += SH->barriers; AG->simns += SH->simns;
  AG->eager += SH->eager; AG->sync_ += SH->sync_; AG->diskreads += SH->diskreads; AG->diskopens += SH->diskopens; AG->diskwrites += SH->diskwrites; AG->shortreads += SH->shortreads; AG->aborted += SH->aborted; for (int i = 0; i < 32; i++) AG->probes[i] += SH->probes[i];
  bool th = false; for (int t : s.threads) th |= t > 1; AG->threads_runs += th; __atomic_add_fetch(&AG->rankhist[std::min(s.nranks, MAXRANKS)], 1, __ATOMIC_RELAXED);
  uint64_t nf = 0; for (int i = 1; i < F_MAX; i++) nf += SH->fired[i];
  long k = AG->nsched++; if (k < Agg::HN) AG->sched[k] = SH->schedhash;
  if (SH->switches || SH->preempts || nf) { k = AG->nhash++; if (k < Agg::HN) AG->hash[k] = hash3(SH->hash, std::hash<std::string>()(ser(s)), 3); } else AG->trivial++;
}
static std::string describe(const Case &c) {
  std::ostringstream o;
  for (size_t k = 0; k < c.runs.size() && k < 3; k++) {
    const Scenario &s = c.runs[k]; o << (k ? " || " : "") << s.nranks << " rank(s), threads"; for (int t : s.threads) o << ' ' << t;
    o << ", schedule policy " << s.policy << ", preemption " << s.preempt << ", fresh memory " << s.junk << ", clock " << s.clock << ", short reads " << s.shortio << "; ops:";
    int n = 0; for (auto &p : s.ops) { if (p.kind == OP_NONE) continue; if (n++ > 30) { o << " ..."; break; } o << ' ' << op_names[p.kind]; if (p.kind == OP_CONVOLVE) { o << "(rows"; for (auto &r : p.rows) o << ' ' << r.size(); o << ')'; } else if (p.kind == OP_CONV) o << "(lmax " << p.a[5] << " mmax " << p.a[6] << " order " << p.a[7] << (p.a[4] ? " pol" : "") << ')'; else if (p.kind == OP_READ_SKY || p.kind == OP_READ_BEAM) { const FileSpec &f = s.files[p.a[1]]; o << "(file lmax " << f.lmax << " mmax " << f.mmax << (f.missing ? " missing" : "") << (f.corrupt ? " corrupt" : "") << (f.trunc >= 0 ? " truncated" : "") << ')'; } else if (p.kind == OP_LAYER) o << "(" << p.a[0] << " type " << p.a[1] << " size " << p.a[3] << ")"; if (p.capi) o << "[C]"; }
    if (!s.faults.empty()) { o << "; faults:"; for (auto &f : s.faults) o << ' ' << fault_names[f.kind] << "(op " << f.op << " rank " << f.rank << " nth " << f.nth << ")"; }
  }
  return o.str();
}
// after the fault-free execution of an adaptive case: put faults at points that exist
static void place_faults(Case &c, uint64_t seed, bool thorough, const uint32_t npt[4][96][16]) {
  int kind = c.adapt; int pt = kind == F_ALLOC ? PT_ALLOC : PT_MPI; Scenario tmpl = c.runs[0]; c.runs.resize(1);
  struct P { int op, rank; uint32_t n; }; std::vector<P> ps; for (int o = 0; o < (int)tmpl.ops.size() && o < OPS_MAX; o++) for (int r = 0; r < tmpl.nranks; r++) if (npt[pt][o][r]) ps.push_back({o, r, npt[pt][o][r]});
  if (ps.empty()) return;
  int n = thorough ? 10 : 5;
  for (int k = 0; k < n; k++) {
    uint64_t h = hash3(seed, k, 991), h2 = mix64(h), h3 = mix64(h2); std::vector<P> pool = ps;
    if (h3 % 3 == 0) { std::vector<P> q; for (auto &p : ps) if (tmpl.ops[p.op].kind == OP_CONVOLVE) q.push_back(p); if (!q.empty()) pool = q; }
    P p = pool[h % pool.size()]; Scenario t = tmpl; Fault f; f.kind = kind; f.op = p.op; f.rank = p.rank; f.nth = h2 % p.n; if (kind == F_ALLOC && mix64(h3) % 5 == 0) f.persist = 1; t.faults.push_back(f);
    if (kind == F_ALLOC && t.nranks == 1 && mix64(h3 + 5) % 10 < 7 && t.ops[p.op].a[9] == 0 && t.ops[p.op].kind != OP_NORM && t.ops[p.op].kind != OP_DELCONV) {
      Op again = t.ops[p.op]; t.ops.insert(t.ops.begin() + p.op + 1, again);
      if (!wellformed(t)) t.ops.erase(t.ops.begin() + p.op + 1); }
    c.runs.push_back(t);
  }
}
static void drop_known(const std::string &prop, std::vector<Finding> &F);
struct Verdict { std::vector<Finding> F; int run = -1; std::vector<RunOut> outs; bool harness = false; };
// execute all runs of a case; stops at the first run with a finding
static Verdict evaluate(Case &c, uint64_t seed, bool thorough, bool place, bool acct, const std::vector<std::vector<uint32_t>> *traces = nullptr, std::vector<std::vector<uint32_t>> *rec = nullptr, bool needall = false) {
  Verdict v; if (rec) rec->clear();
  if (place && c.adapt) c.runs.resize(1);
  for (size_t k = 0; k < c.runs.size(); k++) {
    RunOut o; execute(c.runs[k], traces && k < traces->size() && !(*traces)[k].empty() ? &(*traces)[k] : nullptr, o);
    if (acct) account(c.runs[k], o);
    if (rec) rec->push_back(o.trace_full ? std::vector<uint32_t>() : last_trace());
    uint32_t npt[4][96][16]; if (place && c.adapt && k == 0) memcpy(npt, SH->npt, sizeof npt);
    std::vector<Finding> F; run_findings(c, k, o, F); drop_known(c.prop, F);
    v.outs.push_back(std::move(o));
    if (!F.empty()) { v.F = F; v.run = k; for (auto &f : F) if (!f.cls) v.harness = true; return v; }
    if (place && c.adapt && k == 0) place_faults(c, seed, thorough, npt);
  }
  std::vector<Finding> F; pair_check(c, v.outs, F); if (!F.empty() && (mask_of(c.prop) & J_PAIR)) { v.F = F; v.run = -1; }
  return v;
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, text; }; static std::vector<Known> known;
static void load_known(const std::string &f) {
  std::ifstream i(f); std::string l; while (std::getline(i, l)) { if (l.rfind("known: property=", 0)) continue; std::istringstream s(l.substr(16)); Known k; s >> k.prop; std::getline(s, k.text); while (!k.text.empty() && k.text[0] == ' ') k.text.erase(0, 1); if (!k.text.empty()) known.push_back(k); }
}
static bool is_known(const std::string &prop, const Finding &f) { for (auto &k : known) if (k.prop == prop && f.msg.find(k.text) != std::string::npos) return true; return false; }
static void drop_known(const std::string &prop, std::vector<Finding> &F) {
  std::vector<Finding> R; for (auto &f : F) if (!f.cls || !is_known(prop, f)) R.push_back(f); if (R.size() != F.size() && AG) AG->known++; F = R;
}

// ---------------------------------------------------------------- minimisation
static bool same_failure(Case &c, const std::string &sig, const std::vector<std::vector<uint32_t>> *tr, Verdict &v, std::vector<std::vector<uint32_t>> *rec) {
  for (auto &s : c.runs) if (!wellformed(s)) return false;
  v = evaluate(c, 0, false, false, false, tr, rec);
  for (auto &f : v.F) if (sig_of(f) == sig) { Finding g = f; v.F.assign(1, g); return true; } return false;
}
static void minimise(Case &c, const std::string &sig, double limit) {
  double t0 = now(); auto left = [&] { return now() - t0 < limit; }; Verdict v;
  auto attempt = [&](const std::function<bool(Case &)> &edit) { if (!left()) return false; Case d = c; if (!edit(d)) return false; if (!same_failure(d, sig, nullptr, v, nullptr)) return false; c = d; return true; };
  if (!c.pair && c.runs.size() > 1) { // keep only the failing run
    for (size_t k = 0; k < c.runs.size(); k++) if (attempt([&](Case &d) { d.runs = {c.runs[k]}; d.adapt = 0; return true; })) break; }
  bool again = true;
  while (again && left()) {
    again = false; size_t nop = c.runs[0].ops.size();
    for (size_t ch = nop; ch >= 1; ch /= 2) for (size_t a = 0; a < nop && left(); a += ch) {
      if (attempt([&](Case &d) { bool any = false; for (auto &s : d.runs) for (size_t i = a; i < a + ch && i < s.ops.size(); i++) if (s.ops[i].kind != OP_NONE) { s.ops[i].kind = OP_NONE; any = true; } return any; })) again = true; }
    for (size_t k = 0; k < c.runs[0].faults.size() && left();) if (!attempt([&](Case &d) { for (auto &s : d.runs) if (k < s.faults.size()) s.faults.erase(s.faults.begin() + k); return true; })) k++; else again = true;
    // fewer rows
    for (size_t run = 0; run < c.runs.size(); run++) for (size_t i = 0; i < c.runs[run].ops.size() && left(); i++) {
      if (c.runs[run].ops[i].kind != OP_CONVOLVE) continue; bool key = c.pair == PAIR_KEY;
      auto rows = [&](Case &d, const std::function<bool(std::vector<std::vector<Row>> &)> &f) { bool any = false; if (key) return f(d.runs[run].ops[i].rows); for (auto &s : d.runs) any |= f(s.ops[i].rows); return any; };
      if (!key && run) continue;
      for (size_t q = 0; q < c.runs[run].ops[i].rows.size() && left(); q++) {
        size_t n = c.runs[run].ops[i].rows[q].size(); if (!n) continue;
        if (attempt([&](Case &d) { return rows(d, [&](std::vector<std::vector<Row>> &R) { if (q >= R.size() || R[q].empty()) return false; R[q].clear(); return true; }); })) { again = true; continue; }
        for (size_t ch = (n + 1) / 2; ch >= 1 && left(); ch /= 2) for (size_t a = 0; a < c.runs[run].ops[i].rows[q].size() && left();) {
          if (attempt([&](Case &d) { return rows(d, [&](std::vector<std::vector<Row>> &R) { if (q >= R.size() || a >= R[q].size()) return false; R[q].erase(R[q].begin() + a, R[q].begin() + std::min(R[q].size(), a + ch)); return true; }); })) again = true; else a += ch; }
      } }
    // fewer ranks (the last one), fewer threads, plainer environment
    while (left() && c.pair != PAIR_KEY && attempt([&](Case &d) { for (auto &s : d.runs) { if (s.nranks < 2) return false; s.nranks--; s.threads.resize(s.nranks); if (s.victim >= s.nranks) s.victim = 0; for (auto &o : s.ops) if ((int)o.rows.size() > s.nranks) o.rows.resize(s.nranks); for (auto &f : s.faults) if (f.rank >= s.nranks) return false; for (auto &k : s.comms) if (k.kind == 2) { k.color.resize(s.nranks); k.key.resize(s.nranks); } } return true; })) again = true;
    if (c.pair == PAIR_KEY) for (size_t z = 0; z < c.runs.size(); z++) while (left() && attempt([&](Case &d) { Scenario &s = d.runs[z]; if (s.nranks < 2) return false; s.nranks--; s.threads.resize(s.nranks); if (s.victim >= s.nranks) s.victim = 0; for (auto &o : s.ops) if ((int)o.rows.size() > s.nranks) { auto x = o.rows.back(); o.rows.resize(s.nranks); o.rows.back().insert(o.rows.back().end(), x.begin(), x.end()); } return true; })) again = true;
    for (size_t q = 0; q < 12 && left(); q++) attempt([&](Case &d) { bool any = false; for (auto &s : d.runs) if (q < s.threads.size() && s.threads[q] > 1) { s.threads[q] = s.threads[q] > 2 ? 2 : 1; any = true; } return any; });
    attempt([&](Case &d) { bool any = false; for (auto &s : d.runs) { any |= s.clock || s.shortio || s.shrink; s.clock = s.shortio = s.shrink = 0; } return any; });
    attempt([&](Case &d) { bool any = false; for (auto &s : d.runs) { any |= s.policy != 5; s.policy = 5; } return any; });
    attempt([&](Case &d) { bool any = false; for (auto &s : d.runs) { any |= s.preempt != 0; s.preempt = 0; } return any; });
    for (size_t i = 0; i < c.runs[0].ops.size() && left(); i++) if (c.runs[0].ops[i].kind == OP_CONV && c.runs[0].ops[i].a[8]) attempt([&](Case &d) { for (auto &s : d.runs) s.ops[i].a[8] = 0; return true; });
  }
}
static void minimise_trace(Case &c, const std::string &sig, std::vector<std::vector<uint32_t>> &tr, double limit) {
  double t0 = now(); auto left = [&] { return now() - t0 < limit; }; Verdict v; std::vector<std::vector<uint32_t>> rec;
  for (size_t k = 0; k < tr.size(); k++) {
    if (tr[k].size() < 2 || tr[k].size() > 200000) continue;
    auto tryit = [&](std::vector<uint32_t> t) { if (!left()) return false; auto save = tr[k]; if (t.empty()) t.push_back(0); tr[k] = t; if (same_failure(c, sig, &tr, v, &rec)) return true; tr[k] = save; return false; };
    for (size_t n = 1; n < tr[k].size() && left(); n = n * 2 + 1) if (tryit(std::vector<uint32_t>(tr[k].begin(), tr[k].begin() + n))) break;
    for (size_t ch = (tr[k].size() + 1) / 2; ch >= 1 && left(); ch /= 2) for (size_t a = 0; a < tr[k].size() && left(); a += ch) { auto t = tr[k]; bool any = false; for (size_t i = a; i < a + ch && i < t.size(); i++) { any |= t[i] != 0; t[i] = 0; } if (any) tryit(t); }
    while (tr[k].size() > 1 && tr[k].back() == 0) tr[k].pop_back();
  }
}
// ---------------------------------------------------------------- replay files
static void write_replay(const std::string &path, const Case &c, const std::vector<std::vector<uint32_t>> &tr, const Verdict &v) {
  std::ofstream o(path); o << "libconviqt-simulation-replay 1\nproperty " << c.prop << "\npair " << c.pair << ' ' << c.color << "\nsignature " << sig_of(v.F[0]) << "\nwhat " << v.F[0].msg << "\nrank " << v.F[0].rank << " op " << v.F[0].op << "\nscenario-summary " << describe(c) << "\nruns " << c.runs.size() << '\n';
  for (size_t k = 0; k < c.runs.size(); k++) { o << ser(c.runs[k]); std::vector<uint32_t> t = k < tr.size() ? tr[k] : std::vector<uint32_t>(); o << "trace " << t.size(); for (size_t i = 0; i < t.size();) { size_t j = i; while (j < t.size() && t[j] == t[i]) j++; o << ' ' << t[i]; if (j - i > 1) o << 'x' << j - i; i = j; } o << "\nhash " << (k < v.outs.size() ? v.outs[k].hash : 0) << '\n'; }
}
static bool read_replay(const std::string &path, Case &c, std::vector<std::vector<uint32_t>> &tr, std::vector<uint64_t> &hash, std::string &sig) {
  std::ifstream i(path); std::string l, t; if (!std::getline(i, l) || l.rfind("libconviqt-simulation-replay", 0)) return false; size_t n = 0;
  while (std::getline(i, l)) { std::istringstream s(l); s >> t; if (t == "property") s >> c.prop; else if (t == "pair") s >> c.pair >> c.color; else if (t == "signature") { sig = l.substr(10); } else if (t == "runs") { s >> n; break; } }
  for (size_t k = 0; k < n; k++) { Scenario s; if (!deser(i, s)) return false; c.runs.push_back(s); size_t m; i >> t >> m; std::vector<uint32_t> v; while (v.size() < m) { i >> t; size_t x = t.find('x'); uint32_t a = strtoul(t.c_str(), 0, 10); size_t r = x == std::string::npos ? 1 : strtoul(t.c_str() + x + 1, 0, 10); if (!i) return false; while (r--) v.push_back(a); } tr.push_back(v); uint64_t h; i >> t >> h; hash.push_back(h); }
  return (bool)i;
}
static int do_replay(const std::string &path, bool quiet) {
  Case c; std::vector<std::vector<uint32_t>> tr, rec; std::vector<uint64_t> hash; std::string sig; if (!read_replay(path, c, tr, hash, sig)) { printf("cannot read replay file %s\n", path.c_str()); return 2; }
  for (auto &s : c.runs) if (s.py) load_python();
  Verdict v = evaluate(c, 0, false, false, false, &tr, &rec); bool exact = true; for (size_t k = 0; k < v.outs.size(); k++) if (hash[k] && v.outs[k].hash != hash[k]) exact = false;
  bool same = false; for (auto &f : v.F) if (sig_of(f) == sig) same = true;
  if (!quiet) { for (size_t k = 0; k < v.outs.size(); k++) printf("run %zu: event hash %016lx (%s)\n", k, (unsigned long)v.outs[k].hash, v.outs[k].hash == hash[k] ? "as recorded" : "differs from the recorded one");
    for (auto &f : v.F) printf("  %s: rank %d op %d: %s\n", j_name(f.cls), f.rank, f.op, f.msg.c_str()); }
  if (v.F.empty()) { printf("replay: no violation on this tree\n"); return 0; }
  printf("VIOLATION property=%s replay=%s\n", c.prop.c_str(), path.c_str()); 
  return same && exact ? 1 : quiet ? 3 : 1;
}

static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch > 126) o += ' '; else o += ch; } return o + "\""; }
static uint64_t case_seed(uint64_t seed, const std::string &prop, long i) { uint64_t h = mix64(seed); for (char ch : prop) h = mix64(h ^ (unsigned char)ch); return hash3(h, i, 17); }

static void worker(const std::string &prop, uint64_t seed, bool thorough, long ncases, double deadline, int w) {
  for (;;) {
    long i = AG->next++; if (i >= ncases || now() > deadline) break; if (i > AG->minviol) break; if (AG->err) break;
    uint64_t cs = case_seed(seed, prop, i); Case c = gen_case(prop, cs, thorough); if (c.runs.empty()) { AG->rejected++; continue; }
    uint64_t r0 = JS.rows, a0 = JS.alms, f0 = JS.fails_expected; 
    Verdict v = evaluate(c, cs, thorough, true, true);
    AG->rows += JS.rows - r0; AG->alms += JS.alms - a0; AG->refusals += JS.fails_expected - f0; uint64_t me = (uint64_t)(JS.maxrel * 1e12), old = AG->maxerr_ppt; while (me > old && !AG->maxerr_ppt.compare_exchange_weak(old, me)) {}
    if (i < 3 || i == 50) { int k = i == 50 ? 3 : i; std::string d = describe(c); strncpy(AG->sample[k], d.c_str(), sizeof AG->sample[k] - 1); }
    if (v.harness) { AG->err = 1; for (auto &f : v.F) if (!f.cls) snprintf(AG->errmsg, sizeof AG->errmsg, "case %ld: harness error: %s", i, f.msg.c_str()); break; }
    if (!v.F.empty()) { long m = AG->minviol; while (i < m && !AG->minviol.compare_exchange_weak(m, i)) {} continue; }
    AG->done++;
    if (i % 37 == 5) { // determinism: the whole case once more, from the seed
      Case d = gen_case(prop, cs, thorough); Verdict v2 = evaluate(d, cs, thorough, true, false); bool same = v2.outs.size() == v.outs.size(); for (size_t k = 0; same && k < v.outs.size(); k++) same = v.outs[k].hash == v2.outs[k].hash && v.outs[k].obs.size() == v2.outs[k].obs.size();
      if (!same) { AG->err = 1; snprintf(AG->errmsg, sizeof AG->errmsg, "case %ld: two executions of one seed differ", i); break; } AG->twice++; }
  }
}
static std::string arg(int argc, char **argv, const char *n, const char *def) { for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], n)) return argv[i + 1]; return def; }
static bool flag(int argc, char **argv, const char *n) { for (int i = 1; i < argc; i++) if (!strcmp(argv[i], n)) return true; return false; }

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int p = personality(0xffffffff); if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  libdir = arg(argc, argv, "--lib", "."); std::string prop = arg(argc, argv, "--prop", ""); uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10); bool thorough = arg(argc, argv, "--tier", "quick") == "thorough";
  setenv("LC_ALL", "C", 1);
  load_known(arg(argc, argv, "--known", "/nonexistent"));
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  load_libs(); if (prop == "C16") load_python();
  std::string rp = arg(argc, argv, "--replay", ""); if (!rp.empty()) return do_replay(rp, flag(argc, argv, "--gate"));
  long ncases = atol(arg(argc, argv, "--cases", "100").c_str()); double budget = atof(arg(argc, argv, "--budget", "600").c_str()); int jobs = atoi(arg(argc, argv, "--jobs", "8").c_str());
  std::string one = arg(argc, argv, "--one", "");
  if (!one.empty()) {
    if (flag(argc, argv, "--show")) keep_output = true;
    long i = atol(one.c_str()); uint64_t cs = case_seed(seed, prop, i); Case c = gen_case(prop, cs, thorough); if (c.runs.empty()) { printf("case rejected\n"); return 2; }
    double t = now(); AG = (Agg *)mmap(0, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Verdict v = evaluate(c, cs, thorough, true, true); printf("%s\n", describe(c).c_str());
    for (size_t k = 0; k < v.outs.size(); k++) { printf("run %zu hash %016lx vkind %s %s aborted %d\n", k, (unsigned long)v.outs[k].hash, vkind_names[v.outs[k].vkind], v.outs[k].vmsg.c_str(), v.outs[k].aborted); 
      if (flag(argc, argv, "-v")) for (auto &o : v.outs[k].obs) if (o.tag == OB_OUT) printf("   r%d op%d %s %g %s\n", o.rank, o.op, op_names[c.runs[k].ops[o.op].kind], o.d[0], v.outs[k].outmsg(o.rank, o.op).c_str()); 
      if (flag(argc, argv, "--all")) for (auto &f : judge(c.runs[k], v.outs[k])) printf("   all: %s r%d op%d %s\n", j_name(f.cls), f.rank, f.op, f.msg.c_str()); }
    for (auto &f : v.F) printf("FINDING %s r%d op%d %s\n", f.cls ? j_name(f.cls) : "HARNESS", f.rank, f.op, f.msg.c_str());
    if (flag(argc, argv, "--ser")) for (auto &s : c.runs) printf("%s", ser(s).c_str());
    printf("max rel err %g, %.2f s, %lu hooks\n", JS.maxrel, now() - t, (unsigned long)AG->hooks); return v.F.empty() ? 0 : 1;
  }
  double t0 = now(); AG = (Agg *)mmap(0, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); AG->minviol = 1L << 60;
  std::vector<pid_t> pids;
  for (int w = 0; w < jobs; w++) { pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); worker(prop, seed, thorough, ncases, t0 + budget, w); _exit(0); } pids.push_back(p); }
  int bad = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; fprintf(stderr, "worker ended abnormally (status %x)\n", st); } }
  double wall = now() - t0; int rc = 0; std::string replay, what; long viol = AG->minviol;
  if (viol < (1L << 60)) {
    uint64_t cs = case_seed(seed, prop, viol); Case c = gen_case(prop, cs, thorough); std::vector<std::vector<uint32_t>> tr; Verdict v = evaluate(c, cs, thorough, true, false, nullptr, &tr); Verdict v2; { Case d = gen_case(prop, cs, thorough); v2 = evaluate(d, cs, thorough, true, false); }
    bool same = !v.F.empty() && v.outs.size() == v2.outs.size(); for (size_t k = 0; same && k < v.outs.size(); k++) same = v.outs[k].hash == v2.outs[k].hash;
    if (!same) { printf("ERROR: violation of case %ld does not reproduce\n", viol); rc = 2; }
    else {
      if (v.run >= 0 && c.runs.size() > v.outs.size()) c.runs.resize(v.outs.size());
      c.adapt = 0; std::string sig = sig_of(v.F[0]); printf("case %ld: %s: rank %d op %d: %s\n", viol, j_name(v.F[0].cls), v.F[0].rank, v.F[0].op, v.F[0].msg.c_str()); fflush(stdout);
      std::string dir = arg(argc, argv, "--replaydir", "."); std::string path = dir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(viol) + ".replay";
      auto gate = [&] { fflush(stdout); std::string cmd = "/proc/self/exe"; pid_t p = fork(); if (!p) { int fd = open("/dev/null", O_RDWR); dup2(fd, 1); std::string kf = arg(argc, argv, "--known", "/nonexistent"); execl("/proc/self/exe", "simhost", "--lib", libdir.c_str(), "--known", kf.c_str(), "--replay", path.c_str(), "--gate", (char *)0); _exit(9); } int st; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 1; };
      Case small = c; std::vector<std::vector<uint32_t>> str; Verdict sv; bool ok = false;
      if (!flag(argc, argv, "--nomin")) { minimise(small, sig, 30); same_failure(small, sig, nullptr, sv, &str); minimise_trace(small, sig, str, 15); if (same_failure(small, sig, &str, sv, nullptr)) { write_replay(path, small, str, sv); ok = gate(); } }
      if (!ok) { Verdict f; if (same_failure(c, sig, &tr, f, nullptr)) { write_replay(path, c, tr, f); ok = gate(); sv = f; } }
      if (ok) { what = sv.F[0].msg; printf("minimised: %s: rank %d op %d: %s\n", j_name(sv.F[0].cls), sv.F[0].rank, sv.F[0].op, what.c_str()); replay = path; rc = 1; } else { printf("ERROR: the replay file of case %ld does not reproduce\n", viol); rc = 2; }
    }
  }
  else if (AG->err) { printf("ERROR: %s\n", AG->errmsg); rc = 2; } else if (bad) { printf("ERROR: a worker ended abnormally\n"); rc = 2; }
  // summary
  std::string outf = arg(argc, argv, "--out", ""); if (!outf.empty()) {
    long nh = std::min((long)AG->nhash, Agg::HN), ns = std::min((long)AG->nsched, Agg::HN); std::set<uint64_t> H(AG->hash, AG->hash + nh), S2(AG->sched, AG->sched + ns);
    std::ofstream o(outf); o << "{\"cases\": " << (long)AG->done << ", \"runs\": " << (long)AG->runs << ", \"distinct\": " << H.size() << ", \"distinct_schedules\": " << S2.size() << ", \"trivial\": " << (long)AG->trivial << ", \"rejected\": " << (long)AG->rejected << ", \"twice\": " << (long)AG->twice << ", \"known_hits\": " << (long)AG->known << ", \"wall\": " << wall << ", \"simns\": " << AG->simns;
#define PUT(x) o << ", \"" #x "\": " << (uint64_t)AG->x;
    PUT(switches) PUT(preempts) PUT(mpicalls) PUT(colls) PUT(p2p) PUT(hooks) PUT(allocs) PUT(regions) PUT(barriers) PUT(eager) PUT(sync_) PUT(diskreads) PUT(diskopens) PUT(diskwrites) PUT(shortreads) PUT(aborted) PUT(threads_runs) PUT(rows) PUT(alms) PUT(refusals) PUT(maxerr_ppt)
    o << ", \"fired\": {"; bool first = true; for (int i = 1; i < F_MAX; i++) if (AG->fired[i]) { o << (first ? "" : ", ") << jstr(fault_names[i]) << ": " << AG->fired[i]; first = false; }
    o << "}, \"ops\": {"; first = true; for (int i = 1; i < OP_MAX; i++) if (AG->ops[i]) { o << (first ? "" : ", ") << jstr(op_names[i]) << ": " << AG->ops[i]; first = false; }
    o << "}, \"ranks\": {"; first = true; for (int i = 1; i <= MAXRANKS; i++) if (AG->rankhist[i]) { o << (first ? "" : ", ") << "\"" << i << "\": " << AG->rankhist[i]; first = false; }
    o << "}, \"probes\": ["; for (int i = 0; i < 32; i++) o << (i ? ", " : "") << AG->probes[i];
    o << "], \"samples\": ["; first = true; for (int i = 0; i < 4; i++) if (AG->sample[i][0]) { o << (first ? "" : ", ") << jstr(AG->sample[i]); first = false; }
    o << "], \"violation\": " << (rc == 1 ? jstr(what) : "null") << ", \"replay\": " << (rc == 1 ? jstr(replay) : "null") << ", \"budget_hit\": " << (wall > budget ? "true" : "false") << "}\n"; }
  for (auto &k : known) if (k.prop == prop) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.text.c_str());
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
  return rc;
}
