// Runtime (simulator core) internal interface.
#pragma once
#include "scenario.h"
#include <cstdarg>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

enum VKind { V_NONE = 0, V_DEADLOCK, V_MISMATCH, V_HEAP, V_RACE, V_TERMINATE, V_ABORT, V_EXIT, V_STEPS, V_UNDELIVERED,
             V_BADMPI, V_CRASH, V_HARNESS, V_ORACLE, V_WALL, V_MAX };
extern const char *vkind_names[V_MAX];

static const size_t TRACE_MAX = 1u << 20;
static const size_t OBS_MAX = 48u << 20;

enum { PT_ALLOC, PT_MPI, PT_READ, PT_WRITE }; static const int OPS_MAX = 96;
struct Shared {               // one per worker, MAP_SHARED between worker and the run's child process
  // result
  int finished;               // child reached the end of the simulation (violation or not)
  int vkind; char vmsg[600];
  int aborted; int abort_rank; int abort_op;   // a rank gave up (driver abort)
  int curop, currank;
  uint64_t hash;              // over all events
  uint64_t schedhash;         // over scheduling decisions only
  uint64_t switches, preempts, mpicalls, colls, p2p, hooks, allocs, regions, barriers;
  uint64_t simns;
  uint64_t eager, sync_;
  uint64_t fired[F_MAX];
  uint64_t diskreads, diskopens, diskwrites, shortreads;
  uint64_t maxready;
  uint64_t accops[OP_MAX];
  uint64_t probes[32];
  uint64_t arena_used;
  // per rank counts of candidate fault points (for placing faults)
  uint32_t npt[4][96][16];      // PT_*, op, rank
  uint8_t flushlost[96];        // a write failed inside fflush during this op
  // trace
  uint32_t ntrace; 
  uint32_t trace[TRACE_MAX];
  // observations
  size_t nobs;
  char obs[OBS_MAX];
};

struct ObsRec { int rank, op, tag, aux; long n; };   // followed by n doubles

extern Shared *SH;
extern const Scenario *SC;

// choices
void set_replay(const std::vector<uint32_t> *r);
void disk_op_reset(int rank);
void choices_init(uint64_t seed, const std::vector<uint32_t> *replay);
uint32_t choose(uint32_t n);
void mixhash(uint64_t v);
void mixsched(uint64_t v);

struct Team;
struct Fiber {
  int id = 0, rank = 0, tid = 0;
  Team *team = nullptr;
  void *sp = nullptr; char *stk = nullptr; size_t stksz = 0;
  enum { READY, WAIT, DONE } st = READY;
  std::function<bool()> pred;
  const char *why = "";
  bool polling = false;  // an unsuccessful MPI_Test: others go first
  char whybuf[160];
  std::function<void()> entry;
  void *eh0 = nullptr; unsigned int eh1 = 0; int err = 0;
  int inlib = 0, rtdepth = 0;
  long countdown = 0;
  double prio = 0;
  uint32_t vc[32];
  int ws = 0;            // work-share counter
  long loop_cur = 0;
  std::vector<char> tls;
  unsigned long held = 0;
};
extern Fiber *cur;
struct Rank { int id = 0; Fiber *main = nullptr; int nthreads = 1; int op = -1; bool done = false;
  long nalloc = 0, nmpi = 0, nwtime = 0; long live_blocks = 0, live_bytes = 0; uint32_t G = 1; bool allocfail = false; long opstart = 0;
  int nopen = 0; };
extern std::vector<Rank> ranks;

struct RT { Fiber *f; RT() : f(cur) { if (f) f->rtdepth++; } ~RT() { if (f) f->rtdepth--; } };

[[noreturn]] void rt_violation(VKind k, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void rt_stop();
void yield_point();
void poll_point(std::function<bool()> p, const char *what);
void block_until(std::function<bool()> p, const char *fmt, ...);
Fiber *spawn(int rank, int tid, Team *t, std::function<void()> fn);
void run_ranks(drv_fn *fns, void **bases);
std::string where(void *pc);

// memory
void mem_init();
void *arena_alloc(size_t n, size_t align, bool zero, bool isnew);
void arena_free(void *p);
bool in_arena(const void *p);
size_t arena_size(void *p);
void check_range(const void *p, size_t n, bool write, const char *what, void *pc = nullptr);
void preempt_now();
bool fault_fires(int kind, int rank, long nth, int *arg, bool count = true);

// disk
void disk_init();
void disk_put(const std::string &name, const std::string &data);
bool disk_get(const std::string &name, std::string &data);
int disk_open_handles();
void mpi_init();
void mpi_finish_check();
void *mpi_comm_spec(int idx);
bool mpi_member(int comm, int color);
void omp_reset();
double sim_clock(int rank);
