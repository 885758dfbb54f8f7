// Simulator core: choices, fibers, scheduler, memory, instrumentation hooks.
#include "rt.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <new>
#include <exception>
#include <typeinfo>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <link.h>
#include <unordered_map>

Shared *SH; const Scenario *SC; Fiber *cur; std::vector<Rank> ranks;
const char *vkind_names[V_MAX] = {"none", "deadlock", "communication-mismatch", "memory-violation", "data-race", "terminate", "mpi-abort",
  "process-exit", "no-progress", "undelivered-message", "illegal-mpi-call", "crash", "harness", "wrong-result", "wall-timeout"};
const char *fault_names[F_MAX] = {"none", "alloc-failure", "mpi-error", "disk-open-error", "disk-read-error", "disk-truncation", "disk-write-error",
  "disk-close-error", "disk-seek-error", "disk-full", "disk-short-write", "rank-stall"};
const char *op_names[OP_MAX] = {"none", "read_beam", "read_sky", "normalize", "remove_monopole", "remove_dipole", "set_epsilon", "new_convolver",
  "convolve", "set_sky", "set_beam", "set_detector", "dump_beam", "dump_sky", "del_convolver", "new_beam", "new_sky", "new_detector", "mpi_layer",
  "rotate", "risbo", "write_alm", "read_alm", "del_all", "census", "dump_detector", "set_data", "write_fits", "read_fits"};

// ---------------------------------------------------------------- choices
static uint64_t rng_s[2]; static const std::vector<uint32_t> *replay_; static size_t replay_pos;
static uint64_t rng_next() { uint64_t a = rng_s[0], b = rng_s[1]; rng_s[0] = b; a ^= a << 23; rng_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return rng_s[1] + b; }
void choices_init(uint64_t seed, const std::vector<uint32_t> *replay) {
  rng_s[0] = mix64(seed); rng_s[1] = mix64(rng_s[0] ^ 0x1234567); replay_ = replay; replay_pos = 0;
}
void mixhash(uint64_t v) { SH->hash = mix64(SH->hash ^ v); }
void mixsched(uint64_t v) { SH->schedhash = mix64(SH->schedhash ^ v); }
static uint32_t record(uint32_t v) {
  if (SH->ntrace < TRACE_MAX) SH->trace[SH->ntrace++] = v;
  mixhash(v);
  return v;
}
uint32_t choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (replay_) { v = replay_pos < replay_->size() ? (*replay_)[replay_pos++] % n : 0; }
  else v = rng_next() % n;
  return record(v);
}
// like choose, but the value is decided by the caller's policy when generating
static uint32_t choose_policy(uint32_t n, const std::function<uint32_t()> &gen) {
  if (n <= 1) return 0;
  uint32_t v;
  if (replay_) v = replay_pos < replay_->size() ? (*replay_)[replay_pos++] % n : 0;
  else v = gen() % n;
  return record(v);
}

// ---------------------------------------------------------------- fibers
extern "C" void fib_switch(void **save, void *to);
asm(R"(
.text
.globl fib_switch
.type fib_switch,@function
fib_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size fib_switch,.-fib_switch
)");
static std::vector<Fiber *> fibers; static std::vector<Fiber *> freelist; static void *main_sp; static int nextfid;
struct EhGlobals { void *caught; unsigned int uncaught; };
static uint64_t hooks;
static const uint64_t HOOK_LIMIT = 4000000000ull;
struct TlsBlock { char *p; size_t n; }; static std::vector<TlsBlock> tlsblk;

static void enter(Fiber *f, void **save) {
  Fiber *o = cur;
  EhGlobals *g = (EhGlobals *)__cxxabiv1::__cxa_get_globals();
  if (o) { o->eh0 = g->caught; o->eh1 = g->uncaught; o->err = errno;
    if (f && o->rank == f->rank && o->tid != f->tid && (size_t)o->rank < tlsblk.size() && tlsblk[o->rank].n) {
      TlsBlock &b = tlsblk[o->rank]; 
      o->tls.assign(b.p, b.p + b.n); }
    else if ((size_t)o->rank < tlsblk.size() && tlsblk[o->rank].n) { TlsBlock &b = tlsblk[o->rank]; o->tls.assign(b.p, b.p + b.n); }
  }
  if (f) {
    g->caught = f->eh0; g->uncaught = f->eh1; errno = f->err;
    if ((size_t)f->rank < tlsblk.size() && tlsblk[f->rank].n && f->tls.size() == tlsblk[f->rank].n) memcpy(tlsblk[f->rank].p, f->tls.data(), f->tls.size());
    cur = f; SH->currank = f->rank; SH->curop = ranks[f->rank].op;
    fib_switch(save, f->sp);
  } else { cur = nullptr; fib_switch(save, main_sp); }
}
[[noreturn]] void rt_stop() { void *dummy; enter(nullptr, &dummy); __builtin_trap(); }
void rt_violation(VKind k, const char *fmt, ...) {
  if (!SH->vkind) {
    SH->vkind = k;
    char b[480]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    int op = cur ? ranks[cur->rank].op : -1;
    snprintf(SH->vmsg, sizeof SH->vmsg, "%s [rank %d thread %d op %d %s]", b, cur ? cur->rank : -1, cur ? cur->tid : -1, op,
             op >= 0 && op < (int)SC->ops.size() ? op_names[SC->ops[op].kind] : "-");
  }
  if (cur) rt_stop();
  _exit(3);
}
static void fiber_main() {
  Fiber *f = cur;
  f->entry();
  f->st = Fiber::DONE;
  f->entry = nullptr;
  extern void sched_next(bool);
  sched_next(false);
  __builtin_trap();
}
extern "C" void fib_tramp();
asm(R"(
.text
.globl fib_tramp
.type fib_tramp,@function
fib_tramp:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp,%ebp
  callq *%rbx
  ud2
  .cfi_endproc
.size fib_tramp,.-fib_tramp
)");
static const size_t STK = 1024 * 1024;
Fiber *spawn(int rank, int tid, Team *t, std::function<void()> fn) {
  Fiber *f;
  if (!freelist.empty()) { f = freelist.back(); freelist.pop_back(); char *s = f->stk; f->~Fiber(); new (f) Fiber(); f->stk = s; f->stksz = STK; }
  else {
    f = new Fiber();
    f->stk = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stk, 4096, PROT_NONE); f->stksz = STK;
  }
  f->id = nextfid++; f->rank = rank; f->tid = tid; f->team = t; f->entry = fn;
  memset(f->vc, 0, sizeof f->vc);
  f->prio = (double)(hash3(SC->schedseed, 77, f->id) >> 11);
  uint64_t *sp = (uint64_t *)(f->stk + STK - 64);
  *--sp = 0; *--sp = 0; *--sp = (uint64_t)&fib_tramp;
  *--sp = 0; *--sp = (uint64_t)&fiber_main; *--sp = 0; *--sp = 0; *--sp = 0; *--sp = 0;
  --sp; unsigned mx; unsigned short cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
  ((unsigned *)sp)[0] = mx; ((unsigned *)sp)[1] = cw;
  f->sp = sp; f->st = Fiber::READY;
  // keep fibers sorted by id
  fibers.push_back(f);
  return f;
}

// ---------------------------------------------------------------- scheduler
static std::vector<Fiber *> rdy; static int rr; static uint64_t nsched;
static uint32_t gen_pick(bool haveCur) {
  // index into rdy according to the policy (used when generating; replay uses the recorded index)
  size_t n = rdy.size();
  auto u = [&](uint32_t k) { return (uint32_t)(rng_next() % k); };
  switch (SC->policy) {
    case 1: if (haveCur && u(SC->sticky + 1) != 0) return 0; return u(n);
    case 2: { // priorities with occasional change points
      if (u(64) == 0) rdy[u(n)]->prio = -(double)nsched;
      size_t b = 0; for (size_t i = 1; i < n; i++) if (rdy[i]->prio > rdy[b]->prio) b = i; return b; }
    case 3: { // one rank runs only when nothing else can
      std::vector<uint32_t> ok; for (size_t i = 0; i < n; i++) if (rdy[i]->rank != SC->victim) ok.push_back(i);
      if (ok.empty()) return u(n); return ok[u(ok.size())]; }
    case 4: { rr++; return rr % n; }
    case 5: { // run to block, lowest rank first
      if (haveCur) return 0; size_t b = 0; for (size_t i = 1; i < n; i++) if (rdy[i]->id < rdy[b]->id) b = i; return b; }
    case 6: { if (haveCur) return 0; size_t b = 0; for (size_t i = 1; i < n; i++) if (rdy[i]->id > rdy[b]->id) b = i; return b; }
    case 7: { // victim rank always first
      for (size_t i = 0; i < n; i++) if (rdy[i]->rank == SC->victim) return i; return u(n); }
    default: return u(n);
  }
}
static long polls;
void sched_next(bool sameTeamOnly) {
  Fiber *o = cur; RT g;
  nsched++;
  for (;;) {
    rdy.clear();
    if (o->st == Fiber::READY) rdy.push_back(o);
    bool anyleft = false;
    for (size_t i = 0; i < fibers.size();) {
      Fiber *f = fibers[i];
      if (f->st == Fiber::DONE) {
        if (f == o) { i++; continue; }
        fibers.erase(fibers.begin() + i); freelist.push_back(f); continue; }
      anyleft = true;
      if (f->st == Fiber::WAIT && f->pred && f->pred()) { f->st = Fiber::READY; f->pred = nullptr; }
      if (f->st == Fiber::READY && f != o && (!sameTeamOnly || f->team == o->team)) rdy.push_back(f);
      i++;
    }
    if (o->st == Fiber::DONE) { // remove self lazily
    }
    for (auto f : rdy) if (!f->polling) polls = 0;
    if (rdy.empty() && anyleft && ++polls < 1000) {   // nothing but polling left: a poller may still do something else next
      for (auto f : fibers) if (f->st == Fiber::WAIT && f->polling) { f->st = Fiber::READY; f->pred = nullptr; if (f == o) rdy.insert(rdy.begin(), f); else rdy.push_back(f); }
    }
    if (rdy.empty()) {
      if (!anyleft) { rt_stop(); }
      std::string m; for (auto f : fibers) if (f->st == Fiber::WAIT) { char b[256]; snprintf(b, sizeof b, "; r%d%s waits: %s", f->rank, f->tid ? "(thr)" : "", f->whybuf); if (m.size() < 380) m += b; }
      int done = 0; for (auto &r : ranks) done += r.done;
      rt_violation(V_DEADLOCK, "no rank can proceed (%d of %d ranks finished)%s", done, (int)ranks.size(), m.c_str());
    }
    break;
  }
  if (rdy.size() > SH->maxready) SH->maxready = rdy.size();
  bool have = o->st == Fiber::READY;
  uint32_t k = choose_policy(rdy.size(), [&] { return gen_pick(have); });
  Fiber *f = rdy[k];
  SH->simns += 100;
  mixsched((uint64_t)f->rank * 64 + f->tid);
  if (f == o) return;
  SH->switches++;
  enter(f, &o->sp);
}
void yield_point() { if (cur) sched_next(false); }
void block_until(std::function<bool()> p, const char *fmt, ...) {
  RT g;
  if (p()) return;
  va_list ap; va_start(ap, fmt); vsnprintf(cur->whybuf, sizeof cur->whybuf, fmt, ap); va_end(ap);
  cur->pred = std::move(p); cur->st = Fiber::WAIT;
  sched_next(false);
}
// an unsuccessful poll: the caller runs again when what it polls for is there or nobody else can run
void poll_point(std::function<bool()> p, const char *what) {
  RT g; Fiber *f = cur; snprintf(f->whybuf, sizeof f->whybuf, "%s", what);
  f->pred = std::move(p); f->st = Fiber::WAIT; f->polling = true; sched_next(false); f->polling = false;
}
static long draw_interval() {
  if (SC->preempt <= 0) return 1L << 60;
  uint32_t k = choose(SC->preempt); return 1 + choose(1u << k);
}
void rearm_preempt() { if (cur) cur->countdown = draw_interval(); }
void preempt_now() {
  Fiber *f = cur;
  if (f->rtdepth) { f->countdown = 64; return; }
  SH->preempts++;
  sched_next(true);
  RT g; f->countdown = draw_interval();
}

// ---------------------------------------------------------------- module bases for stable pcs
struct Mod { char *lo, *hi; }; static std::vector<Mod> mods; static std::vector<std::string> modname;
static int dlcb(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "simlib")) return 0;
  int r = -1; const char *b = strrchr(i->dlpi_name, '/'); b = b ? b + 1 : i->dlpi_name; sscanf(b, "simlib_%d", &r);
  char *lo = (char *)-1, *hi = 0; size_t tn = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) &p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD) { char *a = (char *)i->dlpi_addr + p.p_vaddr; if (a < lo) lo = a; if (a + p.p_memsz > hi) hi = a + p.p_memsz; }
    if (p.p_type == PT_TLS) tn = p.p_memsz;
  }
  if (r >= 0) { if ((int)mods.size() <= r) mods.resize(r + 1), tlsblk.resize(r + 1, {0, 0}); mods[r] = {lo, hi}; if (tn && i->dlpi_tls_data) tlsblk[r] = {(char *)i->dlpi_tls_data, tn}; }
  return 0;
}
std::string where(void *pc) {
  char b[64]; for (size_t i = 0; i < mods.size(); i++) if ((char *)pc >= mods[i].lo && (char *)pc < mods[i].hi) { snprintf(b, sizeof b, "lib+0x%lx", (long)((char *)pc - mods[i].lo)); return b; }
  return "?";
}

// ---------------------------------------------------------------- memory
static char *const ARENA = (char *)0x100000000000; static const size_t ASZ = 2ull << 30;
static unsigned char *const ASHADOW = (unsigned char *)0x200000000000;      // 1 byte per 8
static uint64_t *const RSHADOW = (uint64_t *)0x300000000000;                // 4 records per 8
static size_t apos; static bool heapchk, racechk;
struct BlkHdr { uint64_t magic; uint64_t size; uint32_t rank; uint32_t isnew; uint64_t serial; };
static const uint64_t MAGIC = 0x51b10c4a110cull; static uint64_t aserial;
bool in_arena(const void *p) { return (size_t)((char *)p - ARENA) < ASZ; }
static std::unordered_map<uint64_t, uint64_t> racemap;
void mem_init() {
  mmap(ARENA, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  mmap(ASHADOW, ASZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  mmap(RSHADOW, ASZ * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  apos = 64; heapchk = SC->heap; racechk = SC->race;
}
static void fill_junk(char *p, size_t n, uint64_t serial) {
  switch (SC->junk) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: { uint64_t s = hash3(SC->envseed, serial, 5); size_t i = 0; for (; i + 8 <= n; i += 8) { s = s * 6364136223846793005ull + 1442695040888963407ull; uint64_t v = s ^ (s >> 29); memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = (char)(s >> (8 * (i & 7))); break; }
    default: { double v = 1.0 + 1000 * u01(hash3(SC->envseed, serial, 6)); size_t i = 0; for (; i + 8 <= n; i += 8) memcpy(p + i, &v, 8); for (; i < n; i++) p[i] = 1; }
  }
}
bool fault_fires(int kind, int rank, long nth, int *arg, bool count) {
  for (auto &f : SC->faults) {
    if (f.kind != kind || (f.rank >= 0 && f.rank != rank)) continue;
    if (f.op >= 0 && f.op != ranks[rank].op) continue;
    if (f.persist ? nth >= f.nth : nth == f.nth) { if (count) { SH->fired[kind]++; mixhash(kind * 7919 + nth); } if (arg) *arg = f.arg; return true; }
  }
  return false;
}
static const char *faultsite = nullptr;      // set when the failing allocation was util_malloc_'s
static bool alloc_fault() {
  if (!cur) return false;
  Rank &r = ranks[cur->rank];
  long n = r.nalloc++;
  if (r.id < 16 && r.op >= 0 && r.op < OPS_MAX) SH->npt[PT_ALLOC][r.op][r.id]++;
  return fault_fires(F_ALLOC, r.id, n, nullptr);
}
void *arena_alloc(size_t n, size_t align, bool zero, bool isnew) {
  RT g;
  if (n > (1ull << 40) || alloc_fault()) return nullptr;
  SH->allocs++;
  if (align < 16) align = 16;
  size_t p = apos + sizeof(BlkHdr) + 16; p = (p + align - 1) & ~(align - 1);
  size_t end = p + ((n + 15) & ~15ull) + 32;
  if (end > ASZ) { if (n > ASZ / 4) return nullptr; rt_violation(V_HARNESS, "simulated memory exhausted"); }
  apos = end; SH->arena_used = apos;
  char *u = ARENA + p; BlkHdr *h = (BlkHdr *)(u - sizeof(BlkHdr));
  h->magic = MAGIC; h->size = n; h->rank = cur ? cur->rank : 0; h->isnew = isnew; h->serial = aserial++;
  unsigned char *s = ASHADOW + p / 8; memset(s, 8, n / 8); if (n & 7) s[n / 8] = n & 7;
  if (zero) { if (SC->junk) memset(u, 0, n); } else if (SC->junk) fill_junk(u, n, h->serial);
  if (cur) { ranks[cur->rank].live_blocks++; ranks[cur->rank].live_bytes += n; }
  return u;
}
size_t arena_size(void *p) { return ((BlkHdr *)((char *)p - sizeof(BlkHdr)))->size; }
void arena_free(void *p) {
  RT g;
  if (!p) return;
  BlkHdr *h = (BlkHdr *)((char *)p - sizeof(BlkHdr));
  if (((uintptr_t)p & 15) || h->magic != MAGIC) {
    rt_violation(V_HEAP, h->magic == ~MAGIC ? "block freed twice" : "free of a pointer that is not the start of a block"); }
  h->magic = ~MAGIC;
  if (h->rank < ranks.size()) { ranks[h->rank].live_blocks--; ranks[h->rank].live_bytes -= h->size; }
  // redzone intact? (catches writes by code that is not instrumented)
  size_t n = h->size; memset(ASHADOW + ((char *)p - ARENA) / 8, 0x80, (n + 7) / 8);
  if (SC->junk && n) memset(p, 0xDB, n < 4096 ? n : 4096);
}
static bool shadow_ok(const char *a, size_t n) {
  if ((size_t)(a - ARENA) >= ASZ) return true;
  for (size_t i = 0; i < n;) {
    size_t off = a + i - ARENA; unsigned char s = ASHADOW[off >> 3]; size_t in = off & 7, take = 8 - in; if (take > n - i) take = n - i;
    if (s > 8 || in + take > s) return false;
    i += take;
  }
  return true;
}
static std::string describe(const void *a) {
  // find the block around an address (linear walk back over shadow)
  size_t off = (const char *)a - ARENA; 
  for (size_t back = 0; back < (1 << 20) && off >= back + 16; back += 8) {
    size_t q = (off - back) & ~15ull; BlkHdr *h = (BlkHdr *)(ARENA + q);
    if (h->magic == MAGIC || h->magic == ~MAGIC) {
      long d = (const char *)a - (ARENA + q + sizeof(BlkHdr)); char b[120];
      if (d < -(long)sizeof(BlkHdr)) continue;
      snprintf(b, sizeof b, "offset %ld of a %s block of %lu bytes", d, h->magic == MAGIC ? "live" : "freed", (unsigned long)h->size); return b; }
  }
  return "unallocated memory";
}
void check_range(const void *p, size_t n, bool write, const char *what, void *pc) {
  if (!heapchk || !n) return;
  if (!shadow_ok((const char *)p, n)) rt_violation(V_HEAP, "%s of %lu bytes at %s (%s)", what, (unsigned long)n, describe(p).c_str(), pc ? where(pc).c_str() : "call");
}

// race detection: 4 records per 8 byte granule {clk:40 tid:6 w:1 mask:8}
static inline uint64_t *cells(uintptr_t a) { return RSHADOW + ((a - (uintptr_t)ARENA) >> 3) * 4; }
static std::unordered_map<uint64_t, std::vector<uint64_t>> othercells;
[[gnu::noinline]] static void race_check(uintptr_t a, size_t n, bool w, void *pc) {
  Fiber *f = cur;
  if (f->tid > 0 && a >= (uintptr_t)f->stk && a < (uintptr_t)f->stk + f->stksz) return;
  uint64_t clk = f->vc[f->tid];
  while (n) {
    size_t in = a & 7, take = 8 - in; if (take > n) take = n;
    unsigned mask = ((1u << take) - 1) << in;
    uint64_t *c;
    if ((size_t)(a - (uintptr_t)ARENA) < ASZ) c = cells(a);
    else { RT g; auto &v = othercells[a >> 3]; if (v.empty()) v.resize(4); c = v.data(); }
    int slot = -1;
    for (int i = 0; i < 4; i++) {
      uint64_t r = c[i]; if (!r) { if (slot < 0) slot = i; continue; }
      unsigned rm = r & 0xff, rw = (r >> 8) & 1, rt = (r >> 9) & 63; uint64_t rc = r >> 16;
      if (rt == (unsigned)f->tid) { if (rm == mask && rw == (unsigned)w) slot = i; continue; }
      if (rc > f->vc[rt]) { if ((rm & mask) && (w || rw))
          rt_violation(V_RACE, "%s of %lu bytes by thread %d conflicts with an unsynchronised %s by thread %u (%s%s)", w ? "write" : "read", (unsigned long)n, f->tid, rw ? "write" : "read", rt,
                       where(pc).c_str(), in_arena((void *)a) ? (", " + describe((void *)a)).c_str() : ""); }
      else if (slot < 0 || c[slot]) { if (slot < 0) slot = i; }
    }
    if (slot < 0) slot = (int)((clk + (a >> 3)) & 3);
    c[slot] = (clk << 16) | ((uint64_t)f->tid << 9) | ((uint64_t)w << 8) | mask;
    a += take; n -= take;
  }
}
static inline __attribute__((always_inline)) void acc(void *a, size_t n, bool w, void *pc) {
  Fiber *f = cur;
  if (__builtin_expect(!f, 0)) return;
  if (__builtin_expect(++hooks > HOOK_LIMIT, 0)) { RT g; SH->hooks = hooks; rt_violation(V_STEPS, "step budget exhausted"); }
  if (heapchk && (size_t)((char *)a - ARENA) < ASZ) {
    size_t off = (char *)a - ARENA; unsigned char s = ASHADOW[off >> 3];
    if (__builtin_expect(s > 8 || (off & 7) + n > s, 0)) if (!shadow_ok((char *)a, n)) { RT g; rt_violation(V_HEAP, "%s of %lu bytes at %s (%s)", w ? "write" : "read", (unsigned long)n, describe(a).c_str(), where(pc).c_str()); }
  }
  if (f->team) {
    if (racechk) race_check((uintptr_t)a, n, w, pc);
    if (--f->countdown <= 0) preempt_now();
  }
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *a) { acc(a, n, false, PC); } void __tsan_write##n(void *a) { acc(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void *a) { acc(a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { acc(a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { acc(a, n, false, PC); } void __tsan_volatile_write##n(void *a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) acc(a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) acc(a, n, true, PC); }
void __tsan_vptr_update(void **a, void *) { acc(a, 8, true, PC); }
void __tsan_vptr_read(void **a) { acc(a, 8, false, PC); }
}
// atomics: performed atomically (fibers never run in parallel); they are acquire/release points and preemption points
static std::unordered_map<uint64_t, std::vector<uint32_t>> syncvc;
void sync_release(uint64_t id) { RT g; if (!cur || !cur->team) return; auto &v = syncvc[id]; v.resize(32); for (int i = 0; i < 32; i++) if (cur->vc[i] > v[i]) v[i] = cur->vc[i]; cur->vc[cur->tid]++; }
void sync_acquire(uint64_t id) { RT g; if (!cur || !cur->team) return; auto &v = syncvc[id]; v.resize(32); for (int i = 0; i < 32; i++) if (cur->vc[i] < v[i]) cur->vc[i] = v[i]; }
static void at(void *a, size_t n, void *pc) {
  if (!cur) return;
  if (heapchk && in_arena(a) && !shadow_ok((char *)a, n)) { RT g; rt_violation(V_HEAP, "atomic access of %lu bytes at %s (%s)", (unsigned long)n, describe(a).c_str(), where(pc).c_str()); }
  if (cur->team) { if (--cur->countdown <= 0) preempt_now(); sync_acquire((uint64_t)a); sync_release((uint64_t)a); }
}
#define ATOM(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T *a, int) { at((void *)a, sizeof(T), PC); return *a; } \
extern "C" void __tsan_atomic##bits##_store(volatile T *a, T v, int) { at((void *)a, sizeof(T), PC); *a = v; } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { at((void *)a, sizeof(T), PC); T o = *a; *a = v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { at((void *)a, sizeof(T), PC); T o = *a; *a = o + v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { at((void *)a, sizeof(T), PC); T o = *a; *a = o - v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { at((void *)a, sizeof(T), PC); T o = *a; *a = o & v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { at((void *)a, sizeof(T), PC); T o = *a; *a = o | v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { at((void *)a, sizeof(T), PC); T o = *a; *a = o ^ v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { at((void *)a, sizeof(T), PC); T o = *a; *a = ~(o & v); return o; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { at((void *)a, sizeof(T), PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { at((void *)a, sizeof(T), PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { at((void *)a, sizeof(T), PC); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// libc functions the instrumented objects were redirected to
extern "C" {
void *simrt_memcpy(void *d, const void *s, size_t n) { if (n) { acc((void *)s, n, false, PC); acc(d, n, true, PC); } return memcpy(d, s, n); }
void *simrt_memmove(void *d, const void *s, size_t n) { if (n) { acc((void *)s, n, false, PC); acc(d, n, true, PC); } return memmove(d, s, n); }
void *simrt_memset(void *d, int c, size_t n) { if (n) acc(d, n, true, PC); return memset(d, c, n); }
void *simrt_malloc(size_t n) { return cur && cur->inlib ? arena_alloc(n, 16, false, false) : malloc(n); }
void *simrt_calloc(size_t a, size_t b) { return cur && cur->inlib ? arena_alloc(a * b, 16, true, false) : calloc(a, b); }
void simrt_free(void *p) { if (in_arena(p)) arena_free(p); else free(p); }
void *simrt_realloc(void *p, size_t n) {
  if (p && !in_arena(p)) return realloc(p, n);
  if (!p) return simrt_malloc(n);
  void *q = arena_alloc(n, 16, false, false); if (!q) return q;
  size_t o = arena_size(p); memcpy(q, p, o < n ? o : n); arena_free(p); return q;
}
int simrt_posix_memalign(void **r, size_t al, size_t n) {
  if (!(cur && cur->inlib)) return posix_memalign(r, al, n);
  void *p = arena_alloc(n, al, false, false); if (!p) { Dl_info d; if (dladdr(PC, &d) && d.dli_sname && !strcmp(d.dli_sname, "util_malloc_")) faultsite = " after util_malloc_() got no memory"; return ENOMEM; } *r = p; return 0;
}
void *simrt_aligned_alloc(size_t al, size_t n) { return cur && cur->inlib ? arena_alloc(n, al, false, false) : aligned_alloc(al, n); }
void simrt_exit(int c) { RT g; if (!cur) _exit(c); rt_violation(V_EXIT, "the library called exit(%d)%s", c, faultsite ? faultsite : ""); }
void simrt_abort() { RT g; if (!cur) abort(); rt_violation(V_TERMINATE, "the library called abort()"); }
}
static inline bool arena_ctx() { return cur && cur->inlib && !cur->rtdepth; }
void *operator new(size_t n) { if (arena_ctx()) { void *p = arena_alloc(n, 16, false, true); if (!p) throw std::bad_alloc(); return p; } void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { if (arena_ctx()) { void *p = arena_alloc(n, 16, false, true); if (!p) throw std::bad_alloc(); return p; } void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (arena_ctx()) return arena_alloc(n, 16, false, true); return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if (arena_ctx()) return arena_alloc(n, 16, false, true); return malloc(n ? n : 1); }
void *operator new(size_t n, std::align_val_t a) { if (arena_ctx()) { void *p = arena_alloc(n, (size_t)a, false, true); if (!p) throw std::bad_alloc(); return p; } void *p = aligned_alloc((size_t)a, (n + (size_t)a - 1) & ~((size_t)a - 1)); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
static inline void del(void *p) { if (!p) return; if (in_arena(p)) arena_free(p); else free(p); }
void operator delete(void *p) noexcept { del(p); }
void operator delete[](void *p) noexcept { del(p); }
void operator delete(void *p, size_t) noexcept { del(p); }
void operator delete[](void *p, size_t) noexcept { del(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { del(p); }
void operator delete(void *p, std::align_val_t) noexcept { del(p); }
void operator delete[](void *p, std::align_val_t) noexcept { del(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { del(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { del(p); }

// ---------------------------------------------------------------- clocks
double sim_clock(int rank) {
  RT g;
  Rank &r = ranks[rank]; long k = r.nwtime++;
  double t = 1000.0 + 1e-9 * (double)SH->simns;
  if (SC->clock >= 1) t += 1e6 * (u01(hash3(SC->envseed, rank, 11)) - 0.5) + 1e-4 * k * (u01(hash3(SC->envseed, rank, 12)) - 0.3);
  if (SC->clock >= 2) { uint64_t h = hash3(SC->envseed, rank * 1000003 + k, 13); if (h % 16 == 0) { t += 1e9 * (u01(mix64(h)) - 0.5); SH->probes[3]++; } else if (h % 16 == 1) t = -t; else if (h % 64 == 2) t = 0.0 / 1.0; }
  return t;
}

// ---------------------------------------------------------------- observations and host api
void disk_op_reset(int rank);
static void api_op_begin(int op) { RT g; Rank &r = ranks[cur->rank]; r.op = op; if (op >= 0 && (SC->shrink & 2)) { int t = r.id < (int)SC->threads.size() ? SC->threads[r.id] : 1; r.nthreads = t > 1 ? 1 + (int)(hash3(SC->envseed, r.id, 9000 + op) % std::min(16, 2 * t)) : 1; } r.nalloc = r.nmpi = 0; disk_op_reset(r.id); SH->curop = op; if (op >= 0) SH->accops[SC->ops[op].kind]++; mixhash(0x1000 + op); }
static void api_op_end(int) { }
static void api_lib(int on) { cur->inlib = on; }
static void api_obs(int op, int tag, int aux, long n, const double *d) {
  RT g;
  size_t need = sizeof(ObsRec) + n * 8;
  if (SH->nobs + need > OBS_MAX) rt_violation(V_HARNESS, "observation buffer full");
  ObsRec o{cur->rank, op, tag, aux, n};
  memcpy(SH->obs + SH->nobs, &o, sizeof o); if (n) memcpy(SH->obs + SH->nobs + sizeof o, d, n * 8);
  uint64_t h = 0; const uint64_t *q = (const uint64_t *)d; for (long i = 0; i < n; i++) h = mix64(h ^ q[i]);
  mixhash(h ^ ((uint64_t)op << 20) ^ ((uint64_t)tag << 8) ^ cur->rank);
  SH->nobs += need;
}
static void api_note(int op, int code, const char *msg) {
  double d[26] = {(double)code}; 
  strncpy((char *)(d + 1), msg ? msg : "", sizeof d - 9); api_obs(op, OB_OUT, 0, 26, d);
}
static void *api_comm(int i) { return mpi_comm_spec(i); }
static int api_member(int op) { return mpi_member(SC->ops[op].comm, SC->ops[op].color); }
static void api_fail(const char *m) { RT g; rt_violation(V_ORACLE, "%s", m); }
static void api_abort() { RT g; SH->aborted = 1; SH->abort_rank = cur->rank; SH->abort_op = ranks[cur->rank].op; rt_stop(); }
static uint64_t api_rnd(uint64_t a, uint64_t b, uint64_t c) { return hash3(a, b, c); }
static long api_census(int w) { return w == 0 ? ranks[cur->rank].live_blocks : w == 1 ? ranks[cur->rank].live_bytes : ranks[cur->rank].nopen; }
static HostApi API = {api_op_begin, api_op_end, api_lib, api_obs, api_note, api_comm, api_member, api_fail, api_abort, api_rnd, api_census};

static void on_terminate() {
  if (cur) { RT g;
    const char *what = ""; static char b[200];
    if (std::type_info *t = abi::__cxa_current_exception_type()) { snprintf(b, sizeof b, " by exception %s", t->name()); what = b; }
    rt_violation(V_TERMINATE, "std::terminate called%s", what); }
  abort();
}
void run_ranks(drv_fn *fns, void **) {
  dl_iterate_phdr(dlcb, nullptr);
  std::set_terminate(on_terminate);
  ranks.assign(SC->nranks, Rank());
  for (int r = 0; r < SC->nranks; r++) { ranks[r].id = r; ranks[r].nthreads = r < (int)SC->threads.size() ? SC->threads[r] : 1; }
  choices_init(SC->schedseed, replay_);
  mem_init(); mpi_init();
  for (int r = 0; r < SC->nranks; r++) {
    drv_fn fn = fns[r];
    ranks[r].main = spawn(r, 0, nullptr, [fn, r] { fn(&API, SC, r); ranks[r].done = true; });
    if (!tlsblk.empty() && (size_t)r < tlsblk.size() && tlsblk[r].n) ranks[r].main->tls.assign(tlsblk[r].p, tlsblk[r].p + tlsblk[r].n);
  }
  // start: the scheduler picks the first rank
  uint32_t k = choose(SC->nranks);
  enter(fibers[k], &main_sp);
  SH->hooks = hooks;
  if (!SH->vkind && !SH->aborted) mpi_finish_check();
  SH->finished = 1;
}
void set_replay(const std::vector<uint32_t> *r) { replay_ = r; }

// real-time seams
extern "C" double omp_get_wtime(void) { return cur ? sim_clock(cur->rank) : 0; }

// ---------------------------------------------------------------- pthread mutexes and static-initialisation guards of the simulated code
static std::unordered_map<uint64_t, bool> mtx;
extern "C" {
int simrt_mutex_lock(void *m) {
  if (!cur) return 0;
  uint64_t id = (uint64_t)m; if (cur->team && !cur->rtdepth && --cur->countdown <= 0) preempt_now();
  RT g; block_until([id] { return !mtx[id]; }, "mutex"); mtx[id] = true; sync_acquire(id); return 0;
}
int simrt_mutex_trylock(void *m) { if (!cur) return 0; RT g; uint64_t id = (uint64_t)m; if (mtx[id]) return EBUSY; mtx[id] = true; sync_acquire(id); return 0; }
int simrt_mutex_unlock(void *m) { if (!cur) return 0; RT g; uint64_t id = (uint64_t)m; sync_release(id); mtx[id] = false; return 0; }
int __cxa_guard_acquire(uint64_t *gu) {
  unsigned char *b = (unsigned char *)gu;
  if (b[0]) { if (cur) sync_acquire((uint64_t)gu); return 0; }
  if (cur) { RT g; block_until([b] { return !b[1]; }, "static initialisation"); if (b[0]) { sync_acquire((uint64_t)gu); return 0; } }
  b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t *gu) { unsigned char *b = (unsigned char *)gu; b[0] = 1; b[1] = 0; if (cur) sync_release((uint64_t)gu); }
void __cxa_guard_abort(uint64_t *gu) { ((unsigned char *)gu)[1] = 0; }
}
