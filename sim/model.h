// Reference model: file contents, logical state of the library's objects, independent evaluation of the mathematics.
#pragma once
#include "scenario.h"
#include <complex>
#include <map>
#include <memory>
#include <string>
#include <vector>

std::string fits_file(const FileSpec &f);
inline int flim(const FileSpec &f) { return f.corrupt == 9 ? 5 : 0; }   // the header announces this much more than is stored

struct Coef {
  int L = -1, M = -1; std::vector<std::complex<double>> v;
  void set(int l, int m) { L = l; M = m; v.assign(l < 0 ? 0 : idx(l, m) + 1, 0); }
  size_t idx(int l, int m) const { return (size_t)m * (2 * L + 1 - m) / 2 + l; }
  std::complex<double> &at(int l, int m) { return v[idx(l, m)]; }
  const std::complex<double> &at(int l, int m) const { return v[idx(l, m)]; }
};
struct Exp3 { int lmax = -1, mmax = -1; bool pol = false, exact = true; Coef c[3]; uint64_t id = 0; void seal(); };   // an expansion
typedef std::shared_ptr<const Exp3> ExpP;

double wigner_d(int l, int m1, int m2, double theta);                     // d^l_{m1 m2}
struct Val { double v, alt, scale; bool hasalt; };
// convolved (uncalibrated) value at one sample
Val conv_value(const ExpP &sky, const ExpP &beam, bool pol, int lmax, int mmax, int order, const Row &r);
void conv_cache_clear();
std::vector<std::complex<double>> rotate_ref(const Coef &in, double psi, double theta, double phi);   // layout of Coef
Coef mkalm_ref(int comp, int L, int M, uint64_t seed, int sparse, int type);   // type 0 float 1 double

// one parsed observation
struct Obs { int rank, op, tag, aux; std::vector<double> d; };
struct RunOut {
  int vkind = 0; std::string vmsg; bool aborted = false; int abort_rank = -1, abort_op = -1; mutable int polar = 0; std::vector<uint8_t> flushlost;
  std::vector<Obs> obs; std::map<uint64_t, std::vector<int>> by;      // (rank,op) -> indices
  mutable std::map<uint64_t, std::vector<double>> scale; std::vector<uint64_t> fired; uint64_t hash = 0, schedhash = 0; std::vector<uint32_t> trace; bool trace_full = false;
  std::string outmsg(int rank, int op) const;
  int outcome(int rank, int op) const;       // -1 none
  const Obs *get(int rank, int op, int tag, int aux) const;
};
// classes of disagreement; a property counts only those which contradict its statement
enum { J_VAL = 1, J_ROWS = 2, J_TIME = 4, J_STATUS = 8, J_ALM = 16, J_REFUSE = 32, J_COMPLETE = 64, J_MEM = 128, J_RACE = 256, J_LAYER = 512, J_ROT = 1024, J_ESCAPE = 2048,
       J_FALSEOK = 4096, J_CENSUS = 8192, J_PAIR = 16384, J_STOP = 32768, J_UNIFORM = 65536, J_COMM = 131072, J_STATE = 262144, J_OPENF = 524288, J_INTACT = 1 << 20, J_RECOVER = 1 << 21, J_LOST = 1 << 22, J_POLAR = 1 << 23 };
extern const char *j_name(int j);
struct Finding { int cls; int rank, op; std::string msg; };
bool wellformed(const Scenario &s, std::string *why = nullptr);
std::vector<int> comm_members(const Scenario &s, int comm, int rank);
// every disagreement between an execution and the model
std::vector<Finding> judge(const Scenario &s, const RunOut &r);
struct JStats { uint64_t rows = 0, ops = 0, alms = 0, fails_expected = 0, polar = 0, maxerr_ppb = 0; double maxrel = 0; }; extern JStats JS;
