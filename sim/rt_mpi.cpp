// Simulated MPI on top of the real mpi.h.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "rt.h"
#include <deque>
#include <map>
#include <memory>
#include <string.h>
#include <algorithm>
#include <stdio.h>

enum CK { K_BARRIER = 1, K_BCAST, K_REDUCE, K_ALLREDUCE, K_SCAN, K_EXSCAN, K_GATHER, K_GATHERV, K_SCATTER, K_SCATTERV, K_ALLGATHER, K_ALLGATHERV,
          K_ALLTOALL, K_ALLTOALLV, K_SPLIT, K_DUP, K_RSB, K_FREE };
static const char *ckname[] = {"?", "Barrier", "Bcast", "Reduce", "Allreduce", "Scan", "Exscan", "Gather", "Gatherv", "Scatter", "Scatterv", "Allgather", "Allgatherv",
  "Alltoall", "Alltoallv", "Comm_split", "Comm_dup", "Reduce_scatter_block", "Comm_free"};

struct Coll {
  int kind = 0, root = 0, narr = 0, nleft = 0; bool eager = false; long sig = 0; const void *op = nullptr; int first = -1; int rev = 0;
  std::vector<char> arrived; std::vector<std::vector<char>> data; std::vector<std::vector<int>> cnt, rcnt; std::vector<int> esz;
  std::vector<int> color, key; std::map<int, struct Comm *> made; struct Comm *dup = nullptr;
};
struct Msg { int src, tag; std::vector<char> data; size_t esz; bool rendez; bool taken = false; };
struct Posted { int src, tag; void *buf; size_t cap; bool done = false; int asrc = 0, atag = 0; size_t got = 0; int err = 0; };
struct Req { int kind; std::shared_ptr<Msg> m; std::shared_ptr<Posted> p; std::function<bool()> ready; std::function<int()> finish; };
struct Comm {
  int id = 0; std::vector<int> members; std::vector<long> seq; std::map<long, Coll> pend; int internal = 0;
  std::vector<std::deque<std::shared_ptr<Msg>>> unexp; std::vector<std::deque<std::shared_ptr<Posted>>> posted;
  std::vector<const void *> errh; bool freed = false;
  int rank_of(int w) { for (size_t i = 0; i < members.size(); i++) if (members[i] == w) return i; return -1; }
};
static std::vector<Comm *> comms; static Comm *world; static std::vector<Comm *> selfs; static std::vector<Comm *> speccomm;  // [spec*nr + rank]
static Comm *newcomm(const std::vector<int> &m) {
  Comm *c = new Comm; c->id = comms.size(); c->members = m; c->seq.assign(m.size(), 0); c->unexp.resize(m.size()); c->posted.resize(m.size());
  c->errh.assign(m.size(), SC->errret ? (const void *)MPI_ERRORS_RETURN : (const void *)MPI_ERRORS_ARE_FATAL); comms.push_back(c); return c;
}
void mpi_init() {
  std::vector<int> w; for (int i = 0; i < SC->nranks; i++) w.push_back(i);
  world = newcomm(w); for (int i = 0; i < SC->nranks; i++) selfs.push_back(newcomm({i}));
  speccomm.assign(SC->comms.size() * SC->nranks, nullptr);
  for (size_t s = 0; s < SC->comms.size(); s++) {
    const CommSpec &cs = SC->comms[s];
    for (int r = 0; r < SC->nranks; r++) {
      Comm *&slot = speccomm[s * SC->nranks + r];
      if (cs.kind == 0) slot = world;
      else if (cs.kind == 1) slot = selfs[r];
      else if (cs.kind == 3) { if (r == 0) slot = newcomm(w); else slot = speccomm[s * SC->nranks]; }
      else if (!slot) {
        int col = r < (int)cs.color.size() ? cs.color[r] : 0; if (col < 0) continue;
        std::vector<int> m; for (int q = 0; q < SC->nranks; q++) if ((q < (int)cs.color.size() ? cs.color[q] : 0) == col) m.push_back(q);
        std::stable_sort(m.begin(), m.end(), [&](int a, int b) { int ka = a < (int)cs.key.size() ? cs.key[a] : 0, kb = b < (int)cs.key.size() ? cs.key[b] : 0; return ka < kb; });
        Comm *c = newcomm(m); for (int q : m) speccomm[s * SC->nranks + q] = c;
      }
    }
  }
}
// which communicator the current op of a rank may use (confinement check)
static Comm *op_comm() { Rank &r = ranks[cur->rank]; if (r.op < 0) return nullptr; return speccomm[SC->ops[r.op].comm * SC->nranks + r.id]; }
static void *handle(Comm *c) { return c == world ? (void *)MPI_COMM_WORLD : (void *)c; }
void *mpi_comm_spec(int i) {
  const CommSpec &cs = SC->comms[i];
  if (cs.kind == 0) return (void *)MPI_COMM_WORLD;
  if (cs.kind == 1) return (void *)MPI_COMM_SELF;
  Comm *c = speccomm[i * SC->nranks + cur->rank]; return c ? (void *)c : (void *)MPI_COMM_NULL;
}
bool mpi_member(int comm, int color) {
  Comm *c = speccomm[comm * SC->nranks + cur->rank]; if (!c) return false;
  if (color < 0) return true;
  const CommSpec &cs = SC->comms[comm]; if (cs.kind == 2) return cs.color[cur->rank] == color;
  return cur->rank == color;
}
static Comm *get(MPI_Comm h, const char *fn) {
  if (h == MPI_COMM_WORLD) return world;
  if (h == MPI_COMM_SELF) return selfs[cur->rank];
  for (auto c : comms) if ((void *)c == (void *)h && !c->freed) { if (c->rank_of(cur->rank) < 0) rt_violation(V_BADMPI, "%s on a communicator the rank is not a member of", fn); return c; }
  rt_violation(V_BADMPI, "%s with an invalid communicator", fn);
}
void mpi_finish_check() {
  for (auto c : comms) {
    for (auto &p : c->pend) rt_violation(V_MISMATCH, "%s left incomplete: %d of %d ranks took part (communicator %d)", ckname[p.second.kind], p.second.narr, (int)c->members.size(), c->id);
    for (size_t r = 0; r < c->members.size(); r++) if (!c->unexp[r].empty()) rt_violation(V_UNDELIVERED, "%d message(s) to rank %d never received", (int)c->unexp[r].size(), c->members[r]);
    for (size_t r = 0; r < c->members.size(); r++) if (!c->posted[r].empty()) rt_violation(V_UNDELIVERED, "%d receive(s) on rank %d never satisfied", (int)c->posted[r].size(), c->members[r]);
  }
}
// ---- types
struct TI { int kind; size_t sz; };   // kind: 1 signed 2 unsigned 3 float 6 derived (dense)
struct Der { size_t sz; bool dense, committed, freed; };
static std::map<const void *, Der> derived;   // handle -> layout; a handle is the address of a key of its own
static bool tinfo(MPI_Datatype d, TI &t) {
  auto it = derived.find((const void *)d);
  if (it != derived.end()) { if (it->second.freed) rt_violation(V_BADMPI, "a datatype is used after it was freed"); t = {6, it->second.sz}; return true; }
#define T(x, k, c) if (d == x) { t = {k, sizeof(c)}; return true; }
  T(MPI_CHAR, 1, char) T(MPI_SIGNED_CHAR, 1, char) T(MPI_BYTE, 2, char) T(MPI_UNSIGNED_CHAR, 2, char) T(MPI_SHORT, 1, short) T(MPI_UNSIGNED_SHORT, 2, short)
  T(MPI_INT, 1, int) T(MPI_UNSIGNED, 2, int) T(MPI_LONG, 1, long) T(MPI_UNSIGNED_LONG, 2, long) T(MPI_LONG_LONG, 1, long long) T(MPI_UNSIGNED_LONG_LONG, 2, long long)
  T(MPI_FLOAT, 3, float) T(MPI_DOUBLE, 3, double) T(MPI_LONG_DOUBLE, 3, long double) T(MPI_INT8_T, 1, int8_t) T(MPI_INT16_T, 1, int16_t) T(MPI_INT32_T, 1, int32_t) T(MPI_INT64_T, 1, int64_t)
  T(MPI_UINT8_T, 2, uint8_t) T(MPI_UINT16_T, 2, uint16_t) T(MPI_UINT32_T, 2, uint32_t) T(MPI_UINT64_T, 2, uint64_t) T(MPI_C_BOOL, 2, bool) T(MPI_CXX_BOOL, 2, bool)
  T(MPI_C_FLOAT_COMPLEX, 4, float[2]) T(MPI_C_DOUBLE_COMPLEX, 5, double[2]) T(MPI_AINT, 1, long) T(MPI_OFFSET, 1, long) T(MPI_COUNT, 1, long)
#undef T
  return false;
}
static TI type(MPI_Datatype d, const char *fn) {
  TI t; if (!tinfo(d, t)) rt_violation(V_HARNESS, "%s with a datatype that is not simulated", fn);
  if (t.kind == 6) { Der &e = derived[(const void *)d]; if (!e.committed) rt_violation(V_BADMPI, "%s with a datatype that was not committed", fn); if (!e.dense) rt_violation(V_HARNESS, "%s with a datatype with gaps is not simulated", fn); }
  return t;
}
static MPI_Datatype newtype(size_t sz, bool dense) { char *h = new char[64]; derived[h] = {sz, dense, false, false}; return (MPI_Datatype)(void *)h; }
template <class T> static void red1(T *a, const T *b, size_t n, MPI_Op op) {
  for (size_t i = 0; i < n; i++) {
    if (op == MPI_SUM) a[i] = a[i] + b[i]; else if (op == MPI_PROD) a[i] = a[i] * b[i];
    else if (op == MPI_MIN) a[i] = b[i] < a[i] ? b[i] : a[i]; else if (op == MPI_MAX) a[i] = b[i] > a[i] ? b[i] : a[i];
    else if (op == MPI_LAND) a[i] = a[i] && b[i]; else if (op == MPI_LOR) a[i] = a[i] || b[i]; else if (op == MPI_LXOR) a[i] = !a[i] != !b[i];
    else rt_violation(V_BADMPI, "unsupported reduction operator");
  }
}
template <class T> static void redi(T *a, const T *b, size_t n, MPI_Op op) {
  if (op == MPI_BOR) for (size_t i = 0; i < n; i++) a[i] |= b[i];
  else if (op == MPI_BAND) for (size_t i = 0; i < n; i++) a[i] &= b[i];
  else if (op == MPI_BXOR) for (size_t i = 0; i < n; i++) a[i] ^= b[i];
  else red1(a, b, n, op);
}
static void reduce(char *a, const char *b, size_t n, TI t, MPI_Op op) {
#define R(k, s, T) if (t.kind == k && t.sz == s) { redi((T *)a, (const T *)b, n, op); return; }
  R(1, 1, int8_t) R(1, 2, int16_t) R(1, 4, int32_t) R(1, 8, int64_t) R(2, 1, uint8_t) R(2, 2, uint16_t) R(2, 4, uint32_t) R(2, 8, uint64_t)
#undef R
  if (t.kind == 3 && t.sz == 4) red1((float *)a, (const float *)b, n, op);
  else if (t.kind == 3 && t.sz == 8) red1((double *)a, (const double *)b, n, op);
  else if (t.kind == 3) red1((long double *)a, (const long double *)b, n, op);
  else rt_violation(V_BADMPI, "unsupported reduction type");
}
static void chk(const void *p, size_t n, bool w, const char *fn) {
  if (!n) return;
  if (!p) rt_violation(V_BADMPI, "%s with a null buffer for %lu bytes", fn, (unsigned long)n);
  check_range(p, n, w, fn);
}
static bool mpi_fault() {   // one communication call of the current rank
  Rank &r = ranks[cur->rank]; long n = r.nmpi++; if (r.id < 16 && r.op >= 0 && r.op < OPS_MAX) SH->npt[PT_MPI][r.op][r.id]++;
  SH->mpicalls++;
  return fault_fires(F_MPI, r.id, n, nullptr);
}
static int mpi_fail(Comm *c, const char *fn) {
  int me = c->rank_of(cur->rank);
  if (c->errh[me] == (const void *)MPI_ERRORS_RETURN) return MPI_ERR_OTHER;
  SH->aborted = 1; SH->abort_rank = cur->rank; SH->abort_op = ranks[cur->rank].op; rt_stop();
}
static void confine(Comm *c, const char *fn) {
  Comm *o = op_comm(); if (!o || o == c) return;
  if (c->internal) return;   // duplicated or split by the library from the caller's communicator
  rt_violation(V_BADMPI, "%s on communicator %d while the caller passed communicator %d: communication left the given communicator", fn, c->id, o->id);
}
struct A { int kind; const char *fn; const void *sb = nullptr; void *rb = nullptr; long sc = 0, rc = 0; MPI_Datatype st = MPI_BYTE, rt = MPI_BYTE;
  const int *scn = nullptr, *sdp = nullptr, *rcn = nullptr, *rdp = nullptr; MPI_Op op = MPI_OP_NULL; int root = -1; int color = 0, key = 0; MPI_Comm *out = nullptr; bool nb = false; };
struct Started { std::function<bool()> ready; std::function<int()> finish; const char *fn; long seq; int comm; };
static Started start(MPI_Comm h, A a) {   // takes part in the operation; ready() says when finish() may deliver the result
  Comm *c = get(h, a.fn); int n = c->members.size(), me = c->rank_of(cur->rank);
  confine(c, a.fn);
  bool failme = mpi_fault();
  yield_point();
  if (a.root >= n || (a.root < 0 && a.root != -1)) rt_violation(V_BADMPI, "%s with root %d of %d ranks", a.fn, a.root, n);
  if (a.sc < 0 || a.rc < 0) rt_violation(V_BADMPI, "%s with negative count", a.fn);
  bool inplace = a.sb == MPI_IN_PLACE; bool isroot = a.root == me;
  if (a.sb && a.sb == a.rb && !inplace && a.kind != K_BCAST && (a.sc > 0)) { bool rused = a.root < 0 || isroot; if (rused) rt_violation(V_BADMPI, "%s with aliased buffers", a.fn); }
  long seq = c->seq[me]++;
  Coll &q = c->pend[seq];
  if (!q.narr) {
    q.kind = a.kind; q.root = a.root; q.op = (const void *)a.op; q.first = cur->rank; q.arrived.assign(n, 0); q.data.resize(n); q.cnt.resize(n); q.rcnt.resize(n); q.esz.assign(n, 0);
    q.color.assign(n, 0); q.key.assign(n, 0);
    q.eager = choose(2) == 0; SH->colls++; if (q.eager) SH->eager++; else SH->sync_++;
  } else {
    if (q.kind != a.kind) rt_violation(V_MISMATCH, "rank %d calls %s while rank %d called %s as operation %ld of communicator %d", cur->rank, a.fn, q.first, ckname[q.kind], seq, c->id);
    if (q.root != a.root) rt_violation(V_MISMATCH, "%s with root %d on rank %d and root %d on rank %d", a.fn, a.root, cur->rank, q.root, q.first);
    if (q.op != (const void *)a.op) rt_violation(V_MISMATCH, "%s with different operators on ranks %d and %d", a.fn, cur->rank, q.first);
  }
  mixhash(((uint64_t)a.kind << 32) ^ (cur->rank * 131) ^ seq);
  TI ts = type(a.st, a.fn), tr = type(a.rt, a.fn);
  // contribute
  auto put = [&](const void *p, size_t bytes) { chk(p, bytes, false, a.fn); q.data[me].assign((const char *)p, (const char *)p + bytes); };
  auto same = [&](long sig) { if (q.narr && q.sig != sig) rt_violation(V_MISMATCH, "%s with %ld bytes on rank %d and %ld bytes on rank %d", a.fn, sig, cur->rank, q.sig, q.first); q.sig = sig; };
  std::vector<int> rd;
  switch (a.kind) {
    case K_BARRIER: break;
    case K_BCAST: same(a.sc * ts.sz); if (isroot) put(a.sb, a.sc * ts.sz); else chk(a.sb, a.sc * ts.sz, true, a.fn); break;
    case K_REDUCE: same(a.sc * ts.sz * 8 + ts.kind); put(inplace && isroot ? a.rb : a.sb, a.sc * ts.sz); if (isroot) chk(a.rb, a.sc * ts.sz, true, a.fn); break;
    case K_ALLREDUCE: case K_SCAN: case K_EXSCAN: same(a.sc * ts.sz * 8 + ts.kind); put(inplace ? a.rb : a.sb, a.sc * ts.sz); chk(a.rb, a.sc * ts.sz, true, a.fn); break;
    case K_RSB: same(a.rc * ts.sz * 8 + ts.kind); put(inplace ? a.rb : a.sb, a.rc * n * ts.sz); chk(a.rb, a.rc * ts.sz, true, a.fn); break;
    case K_GATHER:
      if (inplace) put((char *)a.rb + me * a.rc * tr.sz, a.rc * tr.sz); else put(a.sb, a.sc * ts.sz);
      if (isroot) { chk(a.rb, a.rc * n * tr.sz, true, a.fn); q.sig = a.rc * tr.sz; } break;
    case K_GATHERV:
      if (inplace) put((char *)a.rb + a.rdp[me] * (long)tr.sz, a.rcn[me] * tr.sz); else put(a.sb, a.sc * ts.sz);
      if (isroot) { check_range(a.rcn, n * 4, false, a.fn); check_range(a.rdp, n * 4, false, a.fn); q.rcnt[me].assign(a.rcn, a.rcn + n); for (int i = 0; i < n; i++) chk((char *)a.rb + a.rdp[i] * (long)tr.sz, a.rcn[i] * tr.sz, true, a.fn); } break;
    case K_SCATTER: if (isroot) { put(a.sb, a.sc * n * ts.sz); q.sig = a.sc * ts.sz; } if (a.rb != MPI_IN_PLACE) chk(a.rb, a.rc * tr.sz, true, a.fn); break;
    case K_SCATTERV: if (isroot) { long e = 0; for (int i = 0; i < n; i++) if ((long)(a.sdp[i] + a.scn[i]) > e) e = a.sdp[i] + a.scn[i]; put(a.sb, e * ts.sz); q.cnt[me].assign(a.scn, a.scn + n); q.rcnt[me].assign(a.sdp, a.sdp + n); } chk(a.rb, a.rc * tr.sz, true, a.fn); break;
    case K_ALLGATHER: if (inplace) put((char *)a.rb + me * a.rc * tr.sz, a.rc * tr.sz); else put(a.sb, a.sc * ts.sz);
      same((inplace ? a.rc * tr.sz : a.sc * ts.sz)); if (!inplace && a.sc * ts.sz != a.rc * tr.sz) rt_violation(V_MISMATCH, "%s sends %ld and expects %ld bytes per rank", a.fn, (long)(a.sc * ts.sz), (long)(a.rc * tr.sz));
      chk(a.rb, a.rc * n * tr.sz, true, a.fn); break;
    case K_ALLGATHERV: if (inplace) put((char *)a.rb + a.rdp[me] * (long)tr.sz, a.rcn[me] * tr.sz); else put(a.sb, a.sc * ts.sz); q.rcnt[me].assign(a.rcn, a.rcn + n);
      for (int i = 0; i < n; i++) chk((char *)a.rb + a.rdp[i] * (long)tr.sz, a.rcn[i] * tr.sz, true, a.fn); break;
    case K_ALLTOALL: if (inplace) put(a.rb, a.rc * n * tr.sz); else put(a.sb, a.sc * n * ts.sz); same(a.rc * tr.sz);
      if (!inplace && a.sc * ts.sz != a.rc * tr.sz) rt_violation(V_MISMATCH, "%s sends %ld and expects %ld bytes per rank", a.fn, (long)(a.sc * ts.sz), (long)(a.rc * tr.sz));
      chk(a.rb, a.rc * n * tr.sz, true, a.fn); break;
    case K_ALLTOALLV: {
      check_range(a.rcn, n * 4, false, a.fn); check_range(a.rdp, n * 4, false, a.fn);
      if (!inplace) { check_range(a.scn, n * 4, false, a.fn); check_range(a.sdp, n * 4, false, a.fn); }
      const int *cn = inplace ? a.rcn : a.scn, *dp = inplace ? a.rdp : a.sdp; const char *b = (const char *)(inplace ? a.rb : a.sb);
      q.cnt[me].assign(cn, cn + n); q.rcnt[me].assign(a.rcn, a.rcn + n); q.esz[me] = ts.sz;
      std::vector<std::pair<long, long>> iv;
      for (int i = 0; i < n; i++) {
        if (cn[i] < 0 || a.rcn[i] < 0) rt_violation(V_BADMPI, "%s with negative count", a.fn);
        chk(cn[i] ? b + dp[i] * (long)ts.sz : nullptr, cn[i] * ts.sz, false, a.fn); chk(a.rcn[i] ? (char *)a.rb + a.rdp[i] * (long)tr.sz : nullptr, a.rcn[i] * tr.sz, true, a.fn);
        if (a.rcn[i]) iv.push_back({a.rdp[i], a.rdp[i] + a.rcn[i]});
        if (cn[i]) q.data[me].insert(q.data[me].end(), b + dp[i] * (long)ts.sz, b + (dp[i] + (long)cn[i]) * (long)ts.sz);
      }
      std::sort(iv.begin(), iv.end()); for (size_t i = 1; i < iv.size(); i++) if (iv[i].first < iv[i - 1].second) rt_violation(V_BADMPI, "%s with overlapping receive blocks", a.fn);
      break; }
    case K_SPLIT: q.color[me] = a.color; q.key[me] = a.key; break;
    case K_DUP: case K_FREE: break;
  }
  q.arrived[me] = 1; q.narr++;
  SH->simns += 500;
  // completion
  Coll *Q = &q;
  bool needall = true; int needrank = -1; int lower = -1;
  if (q.eager) {
    switch (a.kind) {
      case K_BCAST: case K_SCATTER: case K_SCATTERV: needall = false; if (!isroot) needrank = a.root; break;
      case K_REDUCE: case K_GATHER: case K_GATHERV: needall = isroot; break;
      case K_SCAN: case K_EXSCAN: needall = false; lower = me; break;
      case K_ALLTOALLV: needall = false; needrank = -2; break;
      case K_FREE: needall = false; break;
      default: break;
    }
  }
  auto ready = [=] {
    if (needall) return Q->narr == n;
    if (needrank >= 0) return (bool)Q->arrived[needrank];
    if (needrank == -2) { for (int i = 0; i < n; i++) if (Q->rcnt[me][i] && !Q->arrived[i]) return false; return true; }
    if (lower >= 0) { for (int i = 0; i < lower; i++) if (!Q->arrived[i]) return false; return true; }
    return true;
  };
  // deliver
  auto finish = [=] {
  Coll &q = *Q;
  auto out = [&](void *p, const std::vector<char> &d, size_t off, size_t len) { if (len) { if (a.nb) chk(p, len, true, a.fn); if (failme) memset(p, 0xA5, len); else memcpy(p, d.data() + off, len); } };
  auto redall = [&](int upto) { std::vector<char> r; bool rev = false; std::vector<int> o; for (int i = 0; i < upto; i++) o.push_back(i); if (rev) std::reverse(o.begin(), o.end());
    for (int i : o) { if (r.empty() && i == o[0]) r = q.data[i]; else reduce(r.data(), q.data[i].data(), r.size() / ts.sz, ts, a.op); } return r; };
  switch (a.kind) {
    case K_BCAST: if (!isroot) out((void *)a.sb, q.data[a.root], 0, a.sc * ts.sz); break;
    case K_REDUCE: if (isroot) out(a.rb, redall(n), 0, a.sc * ts.sz); break;
    case K_ALLREDUCE: out(a.rb, redall(n), 0, a.sc * ts.sz); break;
    case K_SCAN: out(a.rb, redall(me + 1), 0, a.sc * ts.sz); break;
    case K_EXSCAN: if (me) out(a.rb, redall(me), 0, a.sc * ts.sz); break;
    case K_RSB: out(a.rb, redall(n), me * a.rc * ts.sz, a.rc * ts.sz); break;
    case K_GATHER: if (isroot) for (int i = 0; i < n; i++) { if (q.data[i].size() != (size_t)(a.rc * tr.sz)) rt_violation(V_MISMATCH, "%s: rank %d sends %lu bytes, the root expects %ld", a.fn, c->members[i], (unsigned long)q.data[i].size(), (long)(a.rc * tr.sz)); out((char *)a.rb + i * a.rc * tr.sz, q.data[i], 0, q.data[i].size()); } break;
    case K_GATHERV: if (isroot) for (int i = 0; i < n; i++) { if (q.data[i].size() != a.rcn[i] * tr.sz) rt_violation(V_MISMATCH, "%s: rank %d sends %lu bytes, the root expects %ld", a.fn, c->members[i], (unsigned long)q.data[i].size(), (long)(a.rcn[i] * tr.sz)); out((char *)a.rb + a.rdp[i] * (long)tr.sz, q.data[i], 0, q.data[i].size()); } break;
    case K_SCATTER: if (a.rb != MPI_IN_PLACE) { if ((size_t)(a.rc * tr.sz) != (size_t)q.sig) rt_violation(V_MISMATCH, "%s sizes differ", a.fn); out(a.rb, q.data[a.root], me * q.sig, q.sig); } break;
    case K_SCATTERV: { auto &cn = q.cnt[a.root]; auto &dp = q.rcnt[a.root]; if (cn[me] * tr.sz != a.rc * tr.sz) rt_violation(V_MISMATCH, "%s sizes differ", a.fn); out(a.rb, q.data[a.root], dp[me] * tr.sz, cn[me] * tr.sz); break; }
    case K_ALLGATHER: for (int i = 0; i < n; i++) out((char *)a.rb + i * a.rc * tr.sz, q.data[i], 0, a.rc * tr.sz); break;
    case K_ALLGATHERV: for (int i = 0; i < n; i++) { if (q.data[i].size() != a.rcn[i] * tr.sz) rt_violation(V_MISMATCH, "%s sizes differ", a.fn); out((char *)a.rb + a.rdp[i] * (long)tr.sz, q.data[i], 0, q.data[i].size()); } break;
    case K_ALLTOALL: for (int i = 0; i < n; i++) out((char *)a.rb + i * a.rc * tr.sz, q.data[i], me * a.rc * tr.sz, a.rc * tr.sz); break;
    case K_ALLTOALLV: for (int i = 0; i < n; i++) { if (!q.arrived[i]) continue; long off = 0; for (int k = 0; k < me; k++) off += q.cnt[i][k];
        if (q.cnt[i][me] * (long)q.esz[i] != a.rcn[i] * (long)tr.sz) rt_violation(V_MISMATCH, "%s: rank %d sends %d elements to rank %d, which expects %d", a.fn, c->members[i], q.cnt[i][me], cur->rank, a.rcn[i]);
        if (a.rcn[i]) out((char *)a.rb + a.rdp[i] * (long)tr.sz, q.data[i], off * q.esz[i], a.rcn[i] * tr.sz); } break;
    case K_SPLIT: { int col = a.color; if (col == MPI_UNDEFINED) { *a.out = MPI_COMM_NULL; break; }
      if (!q.made[col]) { std::vector<int> m; for (int i = 0; i < n; i++) if (q.color[i] == col) m.push_back(i);
        std::stable_sort(m.begin(), m.end(), [&](int x, int y) { return q.key[x] < q.key[y]; }); std::vector<int> w; for (int i : m) w.push_back(c->members[i]); q.made[col] = newcomm(w); q.made[col]->internal = 1; }
      *a.out = (MPI_Comm)(void *)q.made[col]; break; }
    case K_DUP: if (!q.dup) { q.dup = newcomm(c->members); q.dup->internal = 1; } *a.out = (MPI_Comm)(void *)q.dup; break;
    default: break;
  }
  if (++q.nleft == n) c->pend.erase(seq);
  if (failme) return mpi_fail(c, a.fn);
  return (int)MPI_SUCCESS;
  };
  return {ready, finish, a.fn, seq, c->id};
}
static int coll(MPI_Comm h, A a) {
  RT g; Started s = start(h, a);
  block_until(s.ready, "%s #%ld on communicator %d", s.fn, s.seq, s.comm);
  return s.finish();
}
extern "C" {
int MPI_Barrier(MPI_Comm c) { A a{K_BARRIER, "MPI_Barrier"}; return coll(c, a); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { A a{K_BCAST, "MPI_Bcast"}; a.sb = b; a.sc = n; a.st = t; a.root = root; return coll(c, a); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { A a{K_REDUCE, "MPI_Reduce"}; a.sb = s; a.rb = r; a.sc = n; a.st = t; a.op = op; a.root = root; return coll(c, a); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { A a{K_ALLREDUCE, "MPI_Allreduce"}; a.sb = s; a.rb = r; a.sc = n; a.st = t; a.op = op; return coll(c, a); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { A a{K_SCAN, "MPI_Scan"}; a.sb = s; a.rb = r; a.sc = n; a.st = t; a.op = op; return coll(c, a); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { A a{K_EXSCAN, "MPI_Exscan"}; a.sb = s; a.rb = r; a.sc = n; a.st = t; a.op = op; return coll(c, a); }
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { A a{K_RSB, "MPI_Reduce_scatter_block"}; a.sb = s; a.rb = r; a.rc = n; a.st = t; a.rt = t; a.op = op; return coll(c, a); }
int MPI_Gather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, int root, MPI_Comm c) { A a{K_GATHER, "MPI_Gather"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rc = rc; a.rt = rt; a.root = root; return coll(c, a); }
int MPI_Gatherv(const void *s, int sc, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) { A a{K_GATHERV, "MPI_Gatherv"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rcn = rc; a.rdp = rd; a.rt = rt; a.root = root; return coll(c, a); }
int MPI_Scatter(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, int root, MPI_Comm c) { A a{K_SCATTER, "MPI_Scatter"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rc = rc; a.rt = rt; a.root = root; return coll(c, a); }
int MPI_Scatterv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, int root, MPI_Comm c) { A a{K_SCATTERV, "MPI_Scatterv"}; a.sb = s; a.scn = sc; a.sdp = sd; a.st = st; a.rb = r; a.rc = rc; a.rt = rt; a.root = root; return coll(c, a); }
int MPI_Allgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c) { A a{K_ALLGATHER, "MPI_Allgather"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rc = rc; a.rt = rt; return coll(c, a); }
int MPI_Allgatherv(const void *s, int sc, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { A a{K_ALLGATHERV, "MPI_Allgatherv"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rcn = rc; a.rdp = rd; a.rt = rt; return coll(c, a); }
int MPI_Alltoall(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c) { A a{K_ALLTOALL, "MPI_Alltoall"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rc = rc; a.rt = rt; return coll(c, a); }
int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { A a{K_ALLTOALLV, "MPI_Alltoallv"}; a.sb = s; a.scn = sc; a.sdp = sd; a.st = st; a.rb = r; a.rcn = rc; a.rdp = rd; a.rt = rt; return coll(c, a); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) { A a{K_SPLIT, "MPI_Comm_split"}; a.color = color; a.key = key; a.out = out; return coll(c, a); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { A a{K_DUP, "MPI_Comm_dup"}; a.out = out; return coll(c, a); }
int MPI_Comm_free(MPI_Comm *c) { A a{K_FREE, "MPI_Comm_free"}; int e = coll(*c, a); *c = MPI_COMM_NULL; return e; }
int MPI_Comm_rank(MPI_Comm c, int *r) { RT g; *r = get(c, "MPI_Comm_rank")->rank_of(cur->rank); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *r) { RT g; *r = get(c, "MPI_Comm_size")->members.size(); return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { RT g; Comm *x = get(a, "MPI_Comm_compare"), *y = get(b, "MPI_Comm_compare"); *r = x == y ? MPI_IDENT : x->members == y->members ? MPI_CONGRUENT : MPI_UNEQUAL; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { RT g; Comm *x = get(c, "MPI_Comm_set_errhandler"); x->errh[x->rank_of(cur->rank)] = (const void *)e; return MPI_SUCCESS; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler *e) { RT g; Comm *x = get(c, "MPI_Comm_get_errhandler"); *e = (MPI_Errhandler)x->errh[x->rank_of(cur->rank)]; return MPI_SUCCESS; }
int MPI_Errhandler_free(MPI_Errhandler *) { return MPI_SUCCESS; }
int MPI_Comm_set_name(MPI_Comm, const char *) { return MPI_SUCCESS; }
int MPI_Init(int *, char ***) { return MPI_SUCCESS; }
int MPI_Init_thread(int *, char ***, int req, int *prov) { *prov = req; return MPI_SUCCESS; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
int MPI_Initialized(int *f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int *f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) { RT g; rt_violation(V_ABORT, "the library called MPI_Abort(%d)", code); }
double MPI_Wtime(void) { return cur ? sim_clock(cur->rank) : 0; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Type_size(MPI_Datatype t, int *s) { RT g; *s = type(t, "MPI_Type_size").sz; return MPI_SUCCESS; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return MPI_SUCCESS; }
int MPI_Error_string(int code, char *s, int *l) { *l = sprintf(s, "simulated MPI error %d", code); return MPI_SUCCESS; }
int MPI_Error_class(int code, int *c) { *c = code; return MPI_SUCCESS; }
int MPI_Comm_group(MPI_Comm, MPI_Group *) { RT g; rt_violation(V_HARNESS, "MPI_Comm_group is not simulated"); }
int MPI_Comm_test_inter(MPI_Comm, int *f) { *f = 0; return MPI_SUCCESS; }
int MPI_Reduce_local(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op) { RT g; TI i = type(t, "MPI_Reduce_local"); chk(s, n * i.sz, false, "MPI_Reduce_local"); chk(r, n * i.sz, true, "MPI_Reduce_local"); reduce((char *)r, (const char *)s, n, i, op); return MPI_SUCCESS; }
int MPI_Reduce_scatter(const void *s, void *r, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) {   // a reduction to everyone, of which each rank keeps its part
  std::vector<char> full; long tot = 0, mine = 0; size_t sz; int me, n; TI i;
  { RT g; Comm *x = get(c, "MPI_Reduce_scatter"); n = x->members.size(); me = x->rank_of(cur->rank); i = type(t, "MPI_Reduce_scatter"); sz = i.sz; for (int k = 0; k < n; k++) { if (k < me) mine += rc[k]; tot += rc[k]; } chk(r, rc[me] * sz, true, "MPI_Reduce_scatter"); full.resize(tot * sz + 1); if (s == MPI_IN_PLACE) s = r; chk(s, tot * sz, false, "MPI_Reduce_scatter"); }
  std::vector<char> in((const char *)s, (const char *)s + tot * sz); in.push_back(0);
  A a{K_ALLREDUCE, "MPI_Reduce_scatter"}; a.sb = in.data(); a.rb = full.data(); a.sc = tot; a.st = t; a.op = op; int e = coll(c, a);
  memcpy(r, full.data() + mine * sz, rc[me] * sz); return e;
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t) { RT g; TI i; if (!tinfo(o, i)) rt_violation(V_HARNESS, "MPI_Type_contiguous of a datatype that is not simulated"); *t = newtype(n * i.sz, i.kind != 6 || derived[(const void *)o].dense); return MPI_SUCCESS; }
int MPI_Type_vector(int n, int b, int st, MPI_Datatype o, MPI_Datatype *t) { RT g; TI i; if (!tinfo(o, i)) rt_violation(V_HARNESS, "MPI_Type_vector of a datatype that is not simulated"); *t = newtype((size_t)n * b * i.sz, (n < 2 || st == b) && (i.kind != 6 || derived[(const void *)o].dense)); return MPI_SUCCESS; }
int MPI_Type_create_struct(int n, const int *b, const MPI_Aint *d, const MPI_Datatype *o, MPI_Datatype *t) {
  RT g; size_t at = 0; bool dense = true;
  for (int k = 0; k < n; k++) { TI i; if (!tinfo(o[k], i)) rt_violation(V_HARNESS, "MPI_Type_create_struct of a datatype that is not simulated"); if ((size_t)d[k] != at || (i.kind == 6 && !derived[(const void *)o[k]].dense)) dense = false; at += b[k] * i.sz; }
  *t = newtype(at, dense); return MPI_SUCCESS;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *t) { RT g; TI i; if (!tinfo(o, i)) rt_violation(V_HARNESS, "MPI_Type_create_resized of a datatype that is not simulated"); *t = newtype(i.sz, lb == 0 && (size_t)ext == i.sz && (i.kind != 6 || derived[(const void *)o].dense)); return MPI_SUCCESS; }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *t) { RT g; TI i; if (!tinfo(o, i)) rt_violation(V_HARNESS, "MPI_Type_dup of a datatype that is not simulated"); *t = newtype(i.sz, i.kind != 6 || derived[(const void *)o].dense); derived[(const void *)*t].committed = true; return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype *t) { RT g; auto it = derived.find((const void *)*t); if (it != derived.end()) it->second.committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { RT g; auto it = derived.find((const void *)*t); if (it == derived.end() || it->second.freed) rt_violation(V_BADMPI, "MPI_Type_free of a datatype that is not derived"); it->second.freed = true; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype o, MPI_Aint *lb, MPI_Aint *e) { RT g; TI i; if (!tinfo(o, i)) rt_violation(V_HARNESS, "MPI_Type_get_extent of a datatype that is not simulated"); *lb = 0; *e = i.sz; return MPI_SUCCESS; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return MPI_SUCCESS; }
}
// ---- point to point
static void fillst(MPI_Status *s, const Posted &p) { if (s == MPI_STATUS_IGNORE) return; s->MPI_SOURCE = p.asrc; s->MPI_TAG = p.atag; s->MPI_ERROR = p.err; s->_ucount = p.got; s->_cancelled = 0; }
static bool match(const Posted &p, const Msg &m) { return (p.src == MPI_ANY_SOURCE || p.src == m.src) && (p.tag == MPI_ANY_TAG || p.tag == m.tag); }
static void deliver(Posted &p, Msg &m) {
  p.asrc = m.src; p.atag = m.tag; p.got = m.data.size();
  if (m.data.size() > p.cap) { p.err = MPI_ERR_TRUNCATE; rt_violation(V_MISMATCH, "message of %lu bytes from rank %d truncated to %lu bytes", (unsigned long)m.data.size(), m.src, (unsigned long)p.cap); }
  if (m.data.size()) memcpy(p.buf, m.data.data(), m.data.size());
  p.done = true; m.taken = true;
}
static std::shared_ptr<Msg> do_send(Comm *c, const void *b, size_t bytes, int dest, int tag, const char *fn, int mode) {
  if (dest < 0 || dest >= (int)c->members.size()) rt_violation(V_BADMPI, "%s to rank %d of %d", fn, dest, (int)c->members.size());
  chk(b, bytes, false, fn);
  auto m = std::make_shared<Msg>(); m->src = c->rank_of(cur->rank); m->tag = tag; m->data.assign((const char *)b, (const char *)b + bytes); m->rendez = mode == 2 ? true : choose(2) == 0;
  SH->p2p++; if (m->rendez) SH->sync_++; else SH->eager++;
  auto &po = c->posted[dest];
  for (auto it = po.begin(); it != po.end(); ++it) if (match(**it, *m)) { deliver(**it, *m); po.erase(it); return m; }
  c->unexp[dest].push_back(m); return m;
}
static std::shared_ptr<Posted> do_recv(Comm *c, void *b, size_t bytes, int src, int tag, const char *fn) {
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size())) rt_violation(V_BADMPI, "%s from rank %d of %d", fn, src, (int)c->members.size());
  chk(b, bytes, true, fn);
  auto p = std::make_shared<Posted>(); p->src = src; p->tag = tag; p->buf = b; p->cap = bytes;
  int me = c->rank_of(cur->rank); auto &u = c->unexp[me];
  for (auto it = u.begin(); it != u.end(); ++it) if (match(*p, **it)) { deliver(*p, **it); u.erase(it); return p; }
  c->posted[me].push_back(p); return p;
}
static int p2pdone(Comm *c, bool fail, const char *fn) { return fail ? mpi_fail(c, fn) : MPI_SUCCESS; }
static std::map<void *, Req *> reqs;
extern "C" {
static int send_(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm cc, const char *fn, int mode) {
  RT g; Comm *c = get(cc, fn); confine(c, fn); bool f = mpi_fault(); yield_point(); if (dest == MPI_PROC_NULL) return MPI_SUCCESS;
  if (f) return p2pdone(c, true, fn);
  auto m = do_send(c, b, (size_t)n * type(t, fn).sz, dest, tag, fn, mode);
  if (m->rendez) block_until([m] { return m->taken; }, "%s to rank %d", fn, dest);
  return MPI_SUCCESS;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_(b, n, t, d, tag, c, "MPI_Send", 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return send_(b, n, t, d, tag, c, "MPI_Ssend", 2); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm cc, MPI_Status *s) {
  RT g; const char *fn = "MPI_Recv"; Comm *c = get(cc, fn); confine(c, fn); bool f = mpi_fault(); yield_point(); if (src == MPI_PROC_NULL) return MPI_SUCCESS;
  if (f) return p2pdone(c, true, fn);
  auto p = do_recv(c, b, (size_t)n * type(t, fn).sz, src, tag, fn);
  block_until([p] { return p->done; }, "%s from rank %d", fn, src); fillst(s, *p); return MPI_SUCCESS;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int dest, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm cc, MPI_Status *s) {
  RT g; const char *fn = "MPI_Sendrecv"; Comm *c = get(cc, fn); confine(c, fn); bool f = mpi_fault(); yield_point();
  if (f) return p2pdone(c, true, fn);
  if (sb == rb && sn && rn) rt_violation(V_BADMPI, "%s with aliased buffers", fn);
  std::shared_ptr<Posted> p; std::shared_ptr<Msg> m;
  if (src != MPI_PROC_NULL) p = do_recv(c, rb, (size_t)rn * type(rt, fn).sz, src, rtag, fn);
  if (dest != MPI_PROC_NULL) m = do_send(c, sb, (size_t)sn * type(st, fn).sz, dest, stag, fn, 0);
  block_until([p, m] { return (!p || p->done) && (!m || !m->rendez || m->taken); }, "%s to %d from %d", fn, dest, src);
  if (p) fillst(s, *p); return MPI_SUCCESS;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int dest, int stag, int src, int rtag, MPI_Comm cc, MPI_Status *s) {
  RT g; const char *fn = "MPI_Sendrecv_replace"; Comm *c = get(cc, fn); confine(c, fn); bool f = mpi_fault(); yield_point();
  if (f) return p2pdone(c, true, fn);
  size_t bytes = (size_t)n * type(t, fn).sz; auto tmp = std::make_shared<std::vector<char>>(bytes + 1);
  auto m = dest == MPI_PROC_NULL ? nullptr : do_send(c, b, bytes, dest, stag, fn, 0);
  auto p = src == MPI_PROC_NULL ? nullptr : do_recv(c, tmp->data(), bytes, src, rtag, fn);
  block_until([p, m] { return (!p || p->done) && (!m || !m->rendez || m->taken); }, "%s to %d from %d", fn, dest, src);
  if (p) { memcpy(b, tmp->data(), p->got); fillst(s, *p); } return MPI_SUCCESS;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm cc, MPI_Request *r) {
  RT g; const char *fn = "MPI_Isend"; Comm *c = get(cc, fn); confine(c, fn); bool f = mpi_fault(); yield_point(); if (f) return p2pdone(c, true, fn);
  Req *q = new Req; q->kind = 1; q->m = do_send(c, b, (size_t)n * type(t, fn).sz, dest, tag, fn, 0); *r = (MPI_Request)(void *)q; reqs[q] = q; return MPI_SUCCESS;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm cc, MPI_Request *r) {
  RT g; const char *fn = "MPI_Irecv"; Comm *c = get(cc, fn); confine(c, fn); bool f = mpi_fault(); yield_point(); if (f) return p2pdone(c, true, fn);
  Req *q = new Req; q->kind = 2; q->p = do_recv(c, b, (size_t)n * type(t, fn).sz, src, tag, fn); *r = (MPI_Request)(void *)q; reqs[q] = q; return MPI_SUCCESS;
}
static bool reqdone(Req *q) { return q->kind == 3 ? q->ready() : q->kind == 1 ? (!q->m->rendez || q->m->taken) : q->p->done; }
int MPI_Wait(MPI_Request *r, MPI_Status *s) {
  RT g; if (*r == MPI_REQUEST_NULL) return MPI_SUCCESS; Req *q = reqs[(void *)*r]; if (!q) rt_violation(V_BADMPI, "MPI_Wait on an invalid request");
  yield_point(); block_until([q] { return reqdone(q); }, "MPI_Wait"); if (q->p) fillst(s, *q->p); int e = q->kind == 3 ? q->finish() : MPI_SUCCESS; reqs.erase((void *)*r); delete q; *r = MPI_REQUEST_NULL; return e;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { int e = MPI_SUCCESS; for (int i = 0; i < n; i++) { int k = MPI_Wait(r + i, s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : s + i); if (k) e = k; } return e; }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *s) {
  *idx = MPI_UNDEFINED;
  { RT g; bool any = false; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = true; if (!reqs[(void *)r[i]]) rt_violation(V_BADMPI, "MPI_Waitany on an invalid request"); }
    if (!any) return MPI_SUCCESS; yield_point();
    block_until([n, r] { for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && reqdone(reqs[(void *)r[i]])) return true; return false; }, "MPI_Waitany");
    std::vector<int> d; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && reqdone(reqs[(void *)r[i]])) d.push_back(i); *idx = d[choose(d.size())]; }
  return MPI_Wait(r + *idx, s);
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *s) { RT g; yield_point(); if (*r == MPI_REQUEST_NULL) { *flag = 1; return 0; } Req *q = reqs[(void *)*r]; *flag = reqdone(q); if (*flag) return MPI_Wait(r, s); poll_point([q] { return reqdone(q); }, "MPI_Test"); return MPI_SUCCESS; }
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *s) {
  { RT g; yield_point(); *flag = 1; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !reqdone(reqs[(void *)r[i]])) *flag = 0;
    if (!*flag) { poll_point([n, r] { for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !reqdone(reqs[(void *)r[i]])) return false; return true; }, "MPI_Testall"); return MPI_SUCCESS; } }
  return MPI_Waitall(n, r, s);
}
int MPI_Request_free(MPI_Request *) { RT g; rt_violation(V_HARNESS, "MPI_Request_free is not simulated"); }
static int icoll(MPI_Comm c, A a, MPI_Request *r) { RT g; a.nb = true; Started s = start(c, a); Req *q = new Req; q->kind = 3; q->ready = s.ready; q->finish = s.finish; *r = (MPI_Request)(void *)q; reqs[q] = q; return MPI_SUCCESS; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) { A a{K_BARRIER, "MPI_Ibarrier"}; return icoll(c, a, q); }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *q) { A a{K_BCAST, "MPI_Ibcast"}; a.sb = b; a.sc = n; a.st = t; a.root = root; return icoll(c, a, q); }
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *q) { A a{K_REDUCE, "MPI_Ireduce"}; a.sb = s; a.rb = r; a.sc = n; a.st = t; a.op = op; a.root = root; return icoll(c, a, q); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) { A a{K_ALLREDUCE, "MPI_Iallreduce"}; a.sb = s; a.rb = r; a.sc = n; a.st = t; a.op = op; return icoll(c, a, q); }
int MPI_Iscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) { A a{K_SCAN, "MPI_Iscan"}; a.sb = s; a.rb = r; a.sc = n; a.st = t; a.op = op; return icoll(c, a, q); }
int MPI_Iexscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) { A a{K_EXSCAN, "MPI_Iexscan"}; a.sb = s; a.rb = r; a.sc = n; a.st = t; a.op = op; return icoll(c, a, q); }
int MPI_Igather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { A a{K_GATHER, "MPI_Igather"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rc = rc; a.rt = rt; a.root = root; return icoll(c, a, q); }
int MPI_Igatherv(const void *s, int sc, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { A a{K_GATHERV, "MPI_Igatherv"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rcn = rc; a.rdp = rd; a.rt = rt; a.root = root; return icoll(c, a, q); }
int MPI_Iallgather(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { A a{K_ALLGATHER, "MPI_Iallgather"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rc = rc; a.rt = rt; return icoll(c, a, q); }
int MPI_Iallgatherv(const void *s, int sc, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { A a{K_ALLGATHERV, "MPI_Iallgatherv"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rcn = rc; a.rdp = rd; a.rt = rt; return icoll(c, a, q); }
int MPI_Ialltoall(const void *s, int sc, MPI_Datatype st, void *r, int rc, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { A a{K_ALLTOALL, "MPI_Ialltoall"}; a.sb = s; a.sc = sc; a.st = st; a.rb = r; a.rc = rc; a.rt = rt; return icoll(c, a, q); }
int MPI_Ialltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { A a{K_ALLTOALLV, "MPI_Ialltoallv"}; a.sb = s; a.scn = sc; a.sdp = sd; a.st = st; a.rb = r; a.rcn = rc; a.rdp = rd; a.rt = rt; return icoll(c, a, q); }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { RT g; *n = s->_ucount / type(t, "MPI_Get_count").sz; return MPI_SUCCESS; }
int MPI_Iprobe(int src, int tag, MPI_Comm cc, int *flag, MPI_Status *s) { RT g; Comm *c = get(cc, "MPI_Iprobe"); yield_point(); *flag = 0; Posted p; p.src = src; p.tag = tag;
  for (auto &m : c->unexp[c->rank_of(cur->rank)]) if (match(p, *m)) { *flag = 1; p.asrc = m->src; p.atag = m->tag; p.got = m->data.size(); p.err = 0; fillst(s, p); break; } if (!*flag) poll_point([] { return false; }, "MPI_Iprobe"); return MPI_SUCCESS; }
int MPI_Probe(int src, int tag, MPI_Comm cc, MPI_Status *s) { RT g; Comm *c = get(cc, "MPI_Probe"); int me = c->rank_of(cur->rank); yield_point();
  block_until([=] { Posted p; p.src = src; p.tag = tag; for (auto &m : c->unexp[me]) if (match(p, *m)) return true; return false; }, "MPI_Probe from %d", src); int f; return MPI_Iprobe(src, tag, cc, &f, s); }
}
