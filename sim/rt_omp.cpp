// OpenMP runtime (GOMP ABI) on simulator fibers.
#include "rt.h"
#include <map>
#include <string.h>
#include <stdlib.h>
#include <unordered_map>
void sync_release(uint64_t id); void sync_acquire(uint64_t id);
void rearm_preempt();

struct WS { int kind; long next, end, incr, chunk; int left; bool single_taken; long sec, nsec; void *cp; long ordered; unsigned nthr; };
struct Team {
  int n; int rank; int arrived = 0; int gen = 0; int left = 0; std::map<int, WS> ws; uint32_t mvc[32]; std::vector<Fiber *> th; Team *parent = nullptr; int level = 1;
};
static Team *team() { return cur ? cur->team : nullptr; }

extern "C" int omp_get_thread_num(void) { return cur && cur->team ? cur->tid : 0; }
extern "C" int omp_get_num_threads(void) { return cur && cur->team ? cur->team->n : 1; }
extern "C" int omp_get_max_threads(void) { return cur ? (cur->team ? 1 : ranks[cur->rank].nthreads) : 1; }
extern "C" int omp_get_num_procs(void) { return 8; }
extern "C" int omp_in_parallel(void) { return cur && cur->team && cur->team->n > 1; }
extern "C" void omp_set_num_threads(int n) { if (cur && n > 0) ranks[cur->rank].nthreads = n > 16 ? 16 : n; }
extern "C" void omp_set_dynamic(int) {}
extern "C" int omp_get_dynamic(void) { return 0; }
extern "C" void omp_set_nested(int) {}
extern "C" int omp_get_nested(void) { return 0; }
extern "C" void omp_set_max_active_levels(int) {}
extern "C" int omp_get_max_active_levels(void) { return 1; }
extern "C" int omp_get_level(void) { return cur && cur->team ? 1 : 0; }
extern "C" int omp_get_active_level(void) { return omp_in_parallel(); }
extern "C" int omp_get_thread_limit(void) { return 16; }
extern "C" int omp_get_team_size(int) { return omp_get_num_threads(); }
extern "C" int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
extern "C" int omp_get_cancellation(void) { return 0; }
extern "C" double omp_get_wtick(void) { return 1e-9; }
extern "C" void omp_set_schedule(int, int) {}
extern "C" void omp_get_schedule(int *k, int *c) { *k = 1; *c = 0; }

static void barrier_impl(bool user) {
  Fiber *f = cur; Team *t = f->team; if (!t || t->n == 1) return;
  RT g;
  if (user) SH->barriers++;
  if (t->arrived == 0) memset(t->mvc, 0, sizeof t->mvc);
  for (int i = 0; i < 32; i++) if (f->vc[i] > t->mvc[i]) t->mvc[i] = f->vc[i];
  int gen = t->gen;
  if (++t->arrived == t->n) { t->arrived = 0; t->gen++; for (auto h : t->th) { memcpy(h->vc, t->mvc, sizeof h->vc); h->vc[h->tid]++; } }
  block_until([t, gen] { return t->gen != gen; }, "OpenMP barrier");
}
extern void sched_next(bool);

extern "C" void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) {
  Fiber *f = cur;
  if (!f) { fn(data); return; }
  int n; { RT g;
    SH->regions++;
    Rank &r = ranks[f->rank];
    if (f->team) n = 1;    // nested parallelism is off by default
    else { n = nt ? (int)nt : r.nthreads; if (n > 16) n = 16; if ((SC->shrink & 1) && n > 1) n = 1 + choose(n); } }
  Team t; t.n = n; t.rank = f->rank; t.parent = f->team;
  Team *oldteam = f->team; int oldtid = f->tid; int oldws = f->ws; long oldcd = f->countdown; uint32_t oldvc[32]; memcpy(oldvc, f->vc, sizeof oldvc);
  if (n == 1) {
    if (!oldteam) { f->team = nullptr; fn(data); return; }
    f->team = &t; f->tid = 0; f->ws = 0; f->countdown = 1L << 60;
    bool nested = true; (void)nested;
    // a nested one-thread team: keep the outer thread's identity for race detection
    f->tid = oldtid; f->team = oldteam;   // run as the outer thread (omp_get_thread_num of a nested team is rarely used)
    fn(data);
    f->ws = oldws; f->countdown = oldcd; return;
  }
  Rank &r = ranks[f->rank];
  { RT g;
    uint32_t G = ++r.G;
    f->team = &t; f->tid = 0; f->ws = 0; t.th.push_back(f);
    for (int i = 0; i < 32; i++) f->vc[i] = G; f->vc[0] = G + 1;
    t.left = n - 1;
    for (int i = 1; i < n; i++) {
      Fiber *w = spawn(f->rank, i, &t, [fn, data, &t] {
        extern void rearm_preempt(); { RT g2; rearm_preempt(); }
        fn(data);
        RT g3; t.left--;
      });
      w->inlib = f->inlib; for (int k = 0; k < 32; k++) w->vc[k] = G; w->vc[i] = G + 1; w->tls = f->tls;
      t.th.push_back(w);
    }
    rearm_preempt();
    sched_next(true);
  }
  fn(data);
  { RT g;
    block_until([&t] { return t.left == 0; }, "OpenMP join");
    uint32_t m = r.G; for (auto h : t.th) if (h->vc[h->tid] > m) m = h->vc[h->tid];
    r.G = m + 1; f->team = oldteam; f->tid = oldtid; f->ws = oldws; f->countdown = 1L << 60;
  }
}
extern "C" void GOMP_barrier(void) { barrier_impl(true); }
extern "C" bool GOMP_barrier_cancel(void) { barrier_impl(true); return false; }
extern "C" bool GOMP_cancel(int, bool) { return false; }
extern "C" bool GOMP_cancellation_point(int) { return false; }

static WS *cur_ws(bool *fresh) {
  Team *t = cur->team; int id = cur->ws; auto it = t->ws.find(id);
  if (it == t->ws.end()) { WS w; memset(&w, 0, sizeof w); w.left = t->n; *fresh = true; return &(t->ws[id] = w); }
  *fresh = false; return &it->second;
}
static WS solo; 
static bool loop_next(WS *w, long *a, long *b) {
  sync_acquire((uint64_t)w); sync_release((uint64_t)w);
  if ((w->incr > 0 && w->next >= w->end) || (w->incr < 0 && w->next <= w->end)) return false;
  long remaining = (w->end - w->next + (w->incr > 0 ? w->incr - 1 : w->incr + 1)) / w->incr, take = w->chunk;
  if (w->kind == 1) { long q = (remaining + w->nthr - 1) / w->nthr; if (q > take) take = q; }
  if (take > remaining) take = remaining;
  *a = w->next; *b = w->next + take * w->incr; w->next = *b;
  if ((w->incr > 0 && *b > w->end) || (w->incr < 0 && *b < w->end)) *b = w->end;
  return true;
}
static std::unordered_map<Fiber *, WS> solos;
static bool loop_start(int kind, long s, long e, long inc, long ch, long *a, long *b) {
  RT g; if (!cur) abort();
  WS *w; bool fresh = true;
  if (cur->team) { cur->ws++; w = cur_ws(&fresh); } else w = &solos[cur];
  if (fresh) { memset(w, 0, sizeof *w); w->kind = kind; w->next = s; w->end = e; w->incr = inc; w->chunk = ch > 0 ? ch : 1; w->nthr = cur->team ? cur->team->n : 1; w->left = w->nthr; 
    if (kind == 2) { long rem = inc ? (e - s + (inc > 0 ? inc - 1 : inc + 1)) / inc : 0; w->chunk = ch > 0 ? ch : (rem + w->nthr - 1) / w->nthr; if (w->chunk < 1) w->chunk = 1; } }
  return loop_next(w, a, b);
}
static bool loop_nxt(long *a, long *b) { RT g; bool fr; WS *w = cur->team ? cur_ws(&fr) : &solos[cur]; return loop_next(w, a, b); }
static void loop_done(bool wait) { { RT g; if (!cur->team) return; } if (wait) barrier_impl(false); }
#define LOOP(name, kind) \
extern "C" bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(kind, s, e, i, c, a, b); } \
extern "C" bool GOMP_loop_##name##_next(long *a, long *b) { return loop_nxt(a, b); } \
extern "C" bool GOMP_loop_ull_##name##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) { (void)up; return loop_start(kind, s, e, i, c, (long *)a, (long *)b); } \
extern "C" bool GOMP_loop_ull_##name##_next(unsigned long *a, unsigned long *b) { return loop_nxt((long *)a, (long *)b); }
LOOP(static, 2) LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1) LOOP(ordered_static, 2) LOOP(ordered_dynamic, 0) LOOP(ordered_guided, 1)
#define LOOPR(name) \
extern "C" bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(2, s, e, i, 0, a, b); } \
extern "C" bool GOMP_loop_##name##_next(long *a, long *b) { return loop_nxt(a, b); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
extern "C" void GOMP_loop_end(void) { loop_done(true); }
extern "C" void GOMP_loop_end_nowait(void) { loop_done(false); }
extern "C" bool GOMP_loop_end_cancel(void) { loop_done(true); return false; }
struct PL { void (*fn)(void *); void *data; int kind; long s, e, i, c; };
static void pl_body(void *p) { PL *q = (PL *)p; 
  { RT g; if (cur->team) { cur->ws++; bool fr; WS *w = cur_ws(&fr); if (fr) { w->kind = q->kind; w->next = q->s; w->end = q->e; w->incr = q->i; w->chunk = q->c > 0 ? q->c : 1; w->nthr = cur->team->n; w->left = w->nthr; } }
    else { WS *w = &solos[cur]; memset(w, 0, sizeof *w); w->kind = q->kind; w->next = q->s; w->end = q->e; w->incr = q->i; w->chunk = q->c > 0 ? q->c : 1; w->nthr = 1; } }
  q->fn(q->data); }
#define PLOOP(name, kind) extern "C" void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned fl) { PL q{fn, data, kind, s, e, i, c}; GOMP_parallel(pl_body, &q, nt, fl); }
PLOOP(dynamic, 0) PLOOP(guided, 1) PLOOP(static, 2) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 1)
extern "C" void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned fl) { PL q{fn, data, 0, s, e, i, 1}; GOMP_parallel(pl_body, &q, nt, fl); }
extern "C" void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned fl) { PL q{fn, data, 0, s, e, i, 1}; GOMP_parallel(pl_body, &q, nt, fl); }
extern "C" bool GOMP_single_start(void) {
  RT g; if (!cur || !cur->team) return true;
  cur->ws++; bool fr; cur_ws(&fr); return fr;
}
extern "C" void *GOMP_single_copy_start(void) {
  bool first; WS *w; { RT g; if (!cur->team) return nullptr; cur->ws++; w = cur_ws(&first); if (first) return nullptr; }
  barrier_impl(false); return w->cp;
}
extern "C" void GOMP_single_copy_end(void *d) { { RT g; if (!cur->team) return; bool fr; WS *w = cur_ws(&fr); w->cp = d; } barrier_impl(false); }
extern "C" unsigned GOMP_sections_start(unsigned n) { RT g; bool fr = true; WS *w; if (cur->team) { cur->ws++; w = cur_ws(&fr); } else w = &solos[cur]; if (fr) { w->sec = 0; w->nsec = n; } return w->sec < w->nsec ? ++w->sec : 0; }
extern "C" unsigned GOMP_sections_next(void) { RT g; bool fr; WS *w = cur->team ? cur_ws(&fr) : &solos[cur]; return w->sec < w->nsec ? ++w->sec : 0; }
extern "C" void GOMP_sections_end(void) { loop_done(true); }
extern "C" void GOMP_sections_end_nowait(void) { loop_done(false); }
struct PS { void (*fn)(void *); void *data; unsigned n; };
static void ps_body(void *p) { PS *q = (PS *)p; { RT g; bool fr = true; WS *w; if (cur->team) { cur->ws++; w = cur_ws(&fr); } else w = &solos[cur]; if (fr) { w->sec = 0; w->nsec = q->n; } } q->fn(q->data); }
extern "C" void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned n, unsigned fl) { PS q{fn, data, n}; GOMP_parallel(ps_body, &q, nt, fl); }
extern "C" unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned fl) { GOMP_parallel(fn, data, nt, fl); return nt; }
extern "C" void GOMP_ordered_start(void) {}
extern "C" void GOMP_ordered_end(void) {}

struct Lk { bool taken = false; int depth = 0; Fiber *owner = nullptr; };
static std::unordered_map<uint64_t, Lk> locks;
static void lock_take(uint64_t id) {
  if (!cur) return;
  if (cur->team && !cur->rtdepth) { if (--cur->countdown <= 0) { extern void preempt_now(); preempt_now(); } }
  RT g; Lk *l = &locks[id];
  block_until([id] { return !locks[id].taken; }, "OpenMP lock");
  l = &locks[id]; l->taken = true; l->owner = cur; sync_acquire(id);
}
static void lock_drop(uint64_t id) { if (!cur) return; RT g; sync_release(id); locks[id].taken = false; locks[id].owner = nullptr; }
static uint64_t rk(uint64_t x) { return ((uint64_t)(cur ? cur->rank : 0) << 56) ^ x; }
extern "C" void GOMP_critical_start(void) { lock_take(rk(1)); }
extern "C" void GOMP_critical_end(void) { lock_drop(rk(1)); }
extern "C" void GOMP_critical_name_start(void **p) { lock_take(rk((uint64_t)p)); }
extern "C" void GOMP_critical_name_end(void **p) { lock_drop(rk((uint64_t)p)); }
extern "C" void GOMP_atomic_start(void) { lock_take(rk(2)); }
extern "C" void GOMP_atomic_end(void) { lock_drop(rk(2)); }
extern "C" void omp_init_lock(void *) {}
extern "C" void omp_destroy_lock(void *) {}
extern "C" void omp_set_lock(void *p) { lock_take(rk((uint64_t)p)); }
extern "C" void omp_unset_lock(void *p) { lock_drop(rk((uint64_t)p)); }
extern "C" int omp_test_lock(void *p) { RT g; if (locks[rk((uint64_t)p)].taken) return 0; lock_take(rk((uint64_t)p)); return 1; }
extern "C" void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  if (cpy) { char *b = (char *)alloca(sz + al); char *p = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, data); fn(p); } else fn(data);
}
extern "C" void GOMP_taskwait(void) {}
extern "C" void GOMP_taskyield(void) {}
extern "C" void GOMP_taskgroup_start(void) {}
extern "C" void GOMP_taskgroup_end(void) {}
