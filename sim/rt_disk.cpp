// Simulated storage behind fopen (cfitsio's only way to the disk here).
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <map>
#include <memory>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <algorithm>
#include <sys/time.h>

static std::map<std::string, std::shared_ptr<std::string>> disk;
struct DRank { long opens = 0, reads = 0, writes = 0, closes = 0, seeks = 0, bytes = 0; bool eof = false, dead = false, flushing = false; };
static std::vector<DRank> dr;
struct Cookie { std::shared_ptr<std::string> f; long pos = 0, wrote = 0; int rank = 0; bool append = false; std::string name; };
static std::map<FILE *, Cookie *> open_;
static std::map<FILE *, int> openrank;

void disk_init() { static bool once = false; if (!once) { void *b[4]; backtrace(b, 4); once = true; } disk.clear(); dr.assign(SC->nranks, DRank()); }
void disk_op_reset(int rank) { dr[rank] = DRank(); }
void disk_put(const std::string &n, const std::string &d) { disk[n] = std::make_shared<std::string>(d); }
bool disk_get(const std::string &n, std::string &d) { auto it = disk.find(n); if (it == disk.end()) return false; d = *it->second; return true; }
int disk_open_handles() { return open_.size(); }

static void point(int w, int rank) { int op = ranks[rank].op; if (rank < 16 && op >= 0 && op < OPS_MAX) SH->npt[w][op][rank]++; }
// cfitsio ignores some errors: in the flush before it closes a file, while it looks for a keyword, of seeks before it writes a
// buffer or reads one, and (it takes them for the end of the file) of reads while it moves what follows an HDU inserted.
// Faults that hit it there are marked (1, 2, 3, 4, 5), the library cannot know about them.
static void mark_lost(int rank, bool flushing, bool seek) {
  int op = ranks[rank].op; if (op < 0 || op >= OPS_MAX) return; int why = flushing ? 1 : 0;
  if (!why) { void *bt[40]; int n = backtrace(bt, 40); for (int i = 0; i < n && !why; i++) { Dl_info d; if (!dladdr(bt[i], &d) || !d.dli_sname) continue; if (!strcmp(d.dli_sname, "ffgcrd") || !strcmp(d.dli_sname, "ffgnky")) why = 2; else if (!strcmp(d.dli_sname, "file_seek")) seek = true; else if (seek && !strcmp(d.dli_sname, "ffbfwt")) why = 3; else if (seek && (!strcmp(d.dli_sname, "ffldrec") || !strcmp(d.dli_sname, "ffldrc") || !strcmp(d.dli_sname, "ffgbyt"))) why = 4; } }
  if (why) SH->flushlost[op] = why;
}
static void mark_insert(int rank) {
  int op = ranks[rank].op; if (op < 0 || op >= OPS_MAX) return; void *bt[40]; int n = backtrace(bt, 40);
  for (int i = 0; i < n; i++) { Dl_info d; if (dladdr(bt[i], &d) && d.dli_sname && !strcmp(d.dli_sname, "ffiblk")) SH->flushlost[op] = 5; }
}
static ssize_t ck_read(void *c, char *b, size_t n) {
  RT g; Cookie *k = (Cookie *)c; DRank &d = dr[k->rank]; int arg = EIO;
  SH->diskreads++;
  long nth = d.reads++; point(PT_READ, k->rank);
  mixhash(0xd15c0 + n);
  if (fault_fires(F_DISK_READ, k->rank, nth, &arg)) { mark_insert(k->rank); errno = arg ? arg : EIO; return -1; }
  if (!d.eof && fault_fires(F_DISK_EOF, k->rank, nth, &arg)) d.eof = true;
  if (d.eof) { mark_insert(k->rank); return 0; }
  size_t have = k->pos < (long)k->f->size() ? k->f->size() - k->pos : 0; if (n > have) n = have;
  if (SC->shortio && n > 1) { size_t m = 1 + hash3(SC->envseed, k->rank * 1000 + nth, 91) % n; if (hash3(SC->envseed, nth, 92) & 1) { n = m; SH->shortreads++; } }
  memcpy(b, k->f->data() + k->pos, n); k->pos += n;
  return n;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
  RT g; Cookie *k = (Cookie *)c; DRank &d = dr[k->rank]; int arg = EIO;
  SH->diskwrites++;
  long nth = d.writes++; point(PT_WRITE, k->rank);
  mixhash(0xd15c1 + n);
  auto lost = [&] { mark_lost(k->rank, d.flushing, false); };
  if (fault_fires(F_DISK_WRITE, k->rank, nth, &arg)) { lost(); errno = arg ? arg : EIO; return 0; }
  if (d.dead) { lost(); errno = EIO; return 0; }
  size_t w = n; errno = 0;
  if (fault_fires(F_DISK_SHORTW, k->rank, nth, &arg)) { w = n / 2; d.dead = true; }
  for (auto &f : SC->faults) if (f.kind == F_DISK_CAP && (f.rank < 0 || f.rank == k->rank) && (f.op < 0 || f.op == ranks[k->rank].op)) {
    long room = (long)f.arg - d.bytes; if (room < 0) room = 0; if ((long)w > room) { w = room; SH->fired[F_DISK_CAP]++; d.dead = true; errno = ENOSPC; } }
  if (k->pos + (long)w > (long)k->f->size()) k->f->resize(k->pos + w);
  memcpy(&(*k->f)[k->pos], b, w); k->pos += w; d.bytes += w;
  k->wrote += w; if (w < n) { lost(); if (!errno) errno = ENOSPC; }
  return w;
}
static int ck_seek(void *c, off64_t *o, int wh) {
  RT g; Cookie *k = (Cookie *)c; int arg = EIO; long nth = dr[k->rank].seeks++;
  if (fault_fires(F_DISK_SEEK, k->rank, nth, &arg)) { mark_lost(k->rank, false, true); errno = arg ? arg : EIO; return -1; }
  long p = wh == SEEK_SET ? *o : wh == SEEK_CUR ? k->pos + *o : (long)k->f->size() + *o;
  if (p < 0) { errno = EINVAL; return -1; }
  k->pos = p; *o = p; return 0;
}
static int ck_close(void *c) {
  RT g; Cookie *k = (Cookie *)c; int arg = EIO; long nth = dr[k->rank].closes++;
  bool f = fault_fires(F_DISK_CLOSE, k->rank, nth, &arg);
  if (f && k->wrote) { size_t n = k->f->size(); k->f->resize(n - std::min<size_t>(n, 2880)); }   // the tail never reached the disk
  ranks[k->rank].nopen--; delete k;
  if (f) { errno = arg ? arg : EIO; return -1; }
  return 0;
}
extern "C" {
FILE *simrt_fopen(const char *name, const char *mode) {
  if (!cur) return fopen(name, mode);
  RT g; int arg = ENOENT; DRank &d = dr[cur->rank];
  if (!strncmp(name, "/proc/", 6)) { errno = ENOENT; return nullptr; }
  SH->diskopens++;
  long nth = d.opens++;
  mixhash(0x0be7 + nth);
  if (fault_fires(F_DISK_OPEN, cur->rank, nth, &arg)) { errno = arg ? arg : EACCES; return nullptr; }
  auto it = disk.find(name);
  bool w = mode[0] == 'w', a = mode[0] == 'a';
  if (!w && !a && it == disk.end()) { errno = ENOENT; return nullptr; }
  std::shared_ptr<std::string> f;
  if (it == disk.end() || w) { f = std::make_shared<std::string>(); disk[name] = f; } else f = it->second;
  Cookie *k = new Cookie; k->f = f; k->rank = cur->rank; k->append = a; k->name = name; if (a) k->pos = f->size();
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(k, mode, io);
  if (!fp) { delete k; return nullptr; }
  ranks[cur->rank].nopen++;
  return fp;
}
// cfitsio flushes before it closes and ignores the outcome: writes lost there are marked
int simrt_fflush(FILE *f) { if (!cur) return fflush(f); RT g; DRank &d = dr[cur->rank]; d.flushing = true; int e = fflush(f); d.flushing = false; return e; }
int simrt_remove(const char *name) { if (!cur) return remove(name); RT g; if (!disk.count(name)) { errno = ENOENT; return -1; } disk.erase(name); return 0; }
int simrt_rename(const char *a, const char *b) { if (!cur) return -1; RT g; auto it = disk.find(a); if (it == disk.end()) { errno = ENOENT; return -1; } disk[b] = it->second; disk.erase(a); return 0; }
int simrt_access(const char *name, int) { if (!cur) return -1; RT g; if (!disk.count(name)) { errno = ENOENT; return -1; } return 0; }
int simrt_ftruncate(int, long) { errno = EINVAL; return -1; }
int simrt_ftruncate64(int, long) { errno = EINVAL; return -1; }
FILE *simrt_fopen64(const char *n, const char *m) { return simrt_fopen(n, m); }
int simrt_open64(const char *, int, ...) { errno = ENOENT; return -1; }
int simrt_unlink(const char *n) { return simrt_remove(n); }
int simrt_open(const char *, int, ...) { errno = ENOENT; return -1; }
char *simrt_getcwd(char *b, size_t n) { strncpy(b, "/sim", n); return b; }
// clocks, randomness, sleeping
int simrt_gettimeofday(struct timeval *t, void *) { double x = cur ? sim_clock(cur->rank) : 0; if (x < 0) x = 0; t->tv_sec = (long)x; t->tv_usec = (long)((x - (long)x) * 1e6); return 0; }
int simrt_clock_gettime(int, struct timespec *t) { double x = cur ? sim_clock(cur->rank) : 0; if (x < 0) x = 0; t->tv_sec = (long)x; t->tv_nsec = (long)((x - (long)x) * 1e9); return 0; }
long simrt_time(long *p) { double x = cur ? sim_clock(cur->rank) : 0; if (x < 0) x = 0; long v = (long)x; if (p) *p = v; return v; }
long simrt_clock(void) { double x = cur ? sim_clock(cur->rank) : 0; return (long)(x * 1e6); }
int64_t simrt_chrono_now2(void) { double x = cur ? sim_clock(cur->rank) : 0; return (int64_t)(x * 1e9); }
int64_t simrt_chrono_now(void) { double x = cur ? sim_clock(cur->rank) : 0; return (int64_t)(x * 1e9); }
int simrt_rand(void) { static uint64_t n; return (int)(hash3(SC ? SC->envseed : 1, ++n, 401) & 0x7fffffff); }
long simrt_random(void) { return simrt_rand(); }
int simrt_usleep(unsigned) { yield_point(); return 0; }
int simrt_nanosleep(const struct timespec *, struct timespec *) { yield_point(); return 0; }
unsigned simrt_sleep(unsigned) { yield_point(); return 0; }
int simrt_sched_yield(void) { yield_point(); return 0; }
int simrt_getpid(void) { return 4242 + (cur ? cur->rank : 0); }
// network and compression code of cfitsio is never reached
#define STUB(n) void *n(void) { return nullptr; }
STUB(curl_global_init) STUB(curl_global_cleanup) STUB(curl_easy_setopt) STUB(curl_easy_perform) STUB(curl_easy_init) STUB(curl_easy_cleanup)
STUB(BZ2_bzReadOpen) STUB(BZ2_bzReadClose) STUB(BZ2_bzRead)
}
