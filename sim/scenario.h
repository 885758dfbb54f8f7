// Scenario description shared by the simulator host and the driver inside the simulated library copies.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

struct Row { double phi, theta, psi; };

struct FileSpec {
  int lmax = 4, mmax = 4, pol = 0;
  int order = 0;      // 0 l-major, 1 reversed, 2 shuffled, 3 m-major
  int coltype = 0;    // 0 float, 1 double columns
  int keys = 1;       // MAX-LPOL/MAX-MPOL present: 0 neither, 1 both, 2 MAX-LPOL only, 3 MAX-MPOL only
  int drop = 0;       // percent of coefficients not stored
  int isbeam = 0;
  int hdus = 0;       // number of table HDUs written; 0 = as pol says
  int missing = 0;    // file does not exist
  int trunc = -1;     // keep only this many bytes (per 10000 of the size), -1 = whole
  int corrupt = 0;    // 0 none, 1 not a FITS file, 2 wrong column count, 3 negative m index, 4 image instead of table
                      // 5 zero-length file, 6 negative index, 7 huge limits, 8 negative limits, 9 limits beyond what is stored (legal), 10 a number beyond single precision
  int lay = 0;        // layout of the table: index type (0 J, 1 K, 2 I) + 3 * columns beyond the third + 9 * (one value column of the other type) + 18 * (elements per row - 1)
  int diag = 0;       // only the orders 0, 1 and m = l are stored
  int real = 0;       // bit per component: all its coefficients are real (only for coefficients put in place)
  uint64_t seed = 1;
  double scale = 1;
};

struct CommSpec {
  int kind = 0;       // 0 world, 1 self, 2 split, 3 dup of world
  std::vector<int> color, key;   // for split
};

enum OpKind {
  OP_NONE = 0, OP_READ_BEAM, OP_READ_SKY, OP_NORM, OP_MONO, OP_DIPO, OP_DET, OP_CONV, OP_CONVOLVE,
  OP_SETSKY, OP_SETBEAM, OP_SETDET, OP_DUMPB, OP_DUMPS, OP_DELCONV, OP_NEWBEAM, OP_NEWSKY, OP_NEWDET,
  OP_LAYER, OP_ROT, OP_RISBO, OP_WRITE, OP_READALM, OP_DELALL, OP_CENSUS, OP_DUMPD, OP_SETDATA, OP_FITSW, OP_FITSR, OP_MAX
};
extern const char *op_names[OP_MAX];

struct Op {
  int kind = 0;
  int comm = 0;        // index into comms
  int color = -1;      // only ranks of this color in that comm take part (-1: all members)
  int capi = 0;        // through the C interface
  int a[10] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
  double d[6] = {0, 0, 0, 0, 0, 0};
  std::vector<std::vector<Row>> rows;   // per world rank
};

enum FaultKind {
  F_NONE = 0,
  F_ALLOC,        // nth allocation of the library on the rank fails
  F_MPI,          // nth MPI communication call on the rank returns an error
  F_DISK_OPEN,    // nth open fails (arg = errno)
  F_DISK_READ,    // nth read fails with arg = errno
  F_DISK_EOF,     // from the nth read on the file appears truncated
  F_DISK_WRITE,   // nth write fails with arg = errno
  F_DISK_CLOSE,   // nth close fails with arg
  F_DISK_SEEK,    // nth seek fails with arg
  F_DISK_CAP,     // capacity: writes beyond arg bytes fail with ENOSPC
  F_DISK_SHORTW,  // the nth write is short, the rest then fails
  F_STALL,        // rank does not run for a long time (scheduler)
  F_MAX
};
extern const char *fault_names[F_MAX];

struct Fault {
  int kind = 0, rank = 0, op = -1;  // op index in which it is armed (-1 any)
  int nth = 0, arg = 0, persist = 0;
};

struct Scenario {
  int nranks = 1;
  std::vector<int> threads;   // per rank
  int shrink = 0;             // 1: the runtime may give fewer threads than asked for; 2: the caller changes the number of threads between operations
  int policy = 0, victim = 0, sticky = 4;
  int preempt = 0;            // 0: none inside regions, else log2 scale of the preemption interval
  int junk = 1;               // fresh memory: 0 zeros, 1 0xFF, 2 random, 3 plausible doubles
  int clock = 0;              // 0 plain, 1 skewed, 2 jumping
  int shortio = 0;            // benign short reads
  int errret = 0;             // MPI errors return
  int heap = 0, race = 0;     // checks on
  int py = 0;                 // the ranks are Python programs
  uint64_t schedseed = 1, envseed = 1;
  std::vector<FileSpec> files;
  std::vector<CommSpec> comms;
  std::vector<Op> ops;
  std::vector<Fault> faults;
};

// outcome codes of one op on one rank
enum { OUT_OK = 0, OUT_STDEXC = 1, OUT_LEVELS = 2, OUT_BADALLOC = 3, OUT_OTHER = 4, OUT_RC = 5, OUT_NULL = 6, OUT_ESCAPED = 7, OUT_SKIP = 8, OUT_HARNESS = 9 };

// observation tags
enum { OB_OUT = 1, OB_ROWS = 2, OB_ALM = 3, OB_VAL = 4, OB_LAYER = 5, OB_ROT = 6, OB_INFO = 7 };

struct HostApi {
  void (*op_begin)(int op);
  void (*op_end)(int op);
  void (*lib)(int on);                  // enter / leave library code (allocation scope)
  void (*obs)(int op, int tag, int aux, long n, const double *data);
  void (*note)(int op, int code, const char *msg);   // outcome
  void *(*comm)(int idx);               // MPI_Comm for comm spec idx on this rank
  int (*member)(int op);                // does this rank take part in op
  void (*fail)(const char *msg);        // harness-detected violation
  void (*abort_run)(void);              // a rank gave up (as an uncaught exception would): end of the run
  uint64_t (*rnd)(uint64_t a, uint64_t b, uint64_t c);   // pure hash
  long (*census)(int what);             // 0 live library blocks of this rank, 1 live bytes, 2 open files
};
typedef int (*drv_fn)(HostApi *, const Scenario *, int rank);

static inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
static inline uint64_t hash3(uint64_t a, uint64_t b, uint64_t c) { return mix64(mix64(mix64(a) ^ b) ^ (c * 0x9e3779b97f4a7c15ull)); }
static inline double u01(uint64_t h) { return (h >> 11) * (1.0 / 9007199254740992.0); }

// contents of the synthetic files: value of coefficient (comp,l,m), as stored (float-rounded)
static inline bool alm_dropped(const FileSpec &f, int comp, int l, int m) {
  if (f.diag && m > 1 && m < l) return true;
  return f.drop && (int)(hash3(f.seed * 31 + comp, l, m + 1000) % 100) < f.drop && !(l == f.lmax && m == f.mmax) && !(l == 0 && m == 0);
}
// which coefficients of a written expansion are zero: 1 some, 2 the high orders of the upper multipoles, 3 the high orders, 4 the upper multipoles
static inline bool alm_zeroed(int mode, uint64_t h, int l, int m, int L, int M) {
  switch (mode) { case 1: return (int)(h >> 40) % 100 < 40; case 2: return l > L / 2 && m > M / 6; case 3: return m > M / 2; case 4: return l > L / 2; default: return false; }
}
// some coefficients of every fourth written expansion are so small that their squares vanish
static inline double alm_tiny(uint64_t seed, int comp, int l, int m, int f64) { return seed % 4 == 0 && hash3(seed, comp * 1000 + l, m + 5) % 8 == 0 ? (f64 ? 1e-200 : 1e-30) : 1; }
// beams that integrate to a negative number
static inline bool alm_negative(const FileSpec &f) { return f.seed % 13 == 4; }
static inline void alm_value(const FileSpec &f, int comp, int l, int m, float &re, float &im) {
  if (m > f.mmax || l > f.lmax || m > l || alm_dropped(f, comp, l, m)) { re = im = 0; return; }
  uint64_t h = hash3(f.seed * 31 + comp, l, m);
  double s = f.scale;
  if (f.isbeam && comp == 0 && l == 0) { re = (float)(s * (0.5 + u01(h)) * (alm_negative(f) ? -1 : 1)); im = 0; return; }
  re = (float)(s * (2 * u01(h) - 1));
  im = m == 0 ? 0.f : (float)(s * (2 * u01(mix64(h)) - 1));
  if (f.real >> comp & 1) im = 0;
  if (m > 0) { int z = (int)((h >> 5) % 40); if (z == 0) re = 0; else if (z == 1) im = 0; }
}
// coefficients put into an expansion in place (OP_SETDATA)
static inline FileSpec setdata_spec(int beam, int seed, int L, int M) { FileSpec f; f.isbeam = beam; f.seed = seed; f.lmax = L; f.mmax = M; if (seed % 3 == 0) f.real = 1 << (seed / 3 % 3); return f; }
