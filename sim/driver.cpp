// The simulated user program: executes the ops of a scenario through the library's public interfaces.
// Compiled without instrumentation and linked into every rank's copy of the library.
#include "conviqt.hpp"
#include "cconviqt.h"
#include "ls_error_handling.h"
#include "ls_fitshandle.h"
#include "ls_rotmatrix.h"
#include "ls_vec3.h"
#include "ls_wigner.h"
#include "ls_mpi_support.h"
#include "scenario.h"
#include <cmath>
#include <limits>
#include <cstring>
#include <memory>
#include <sstream>
#include <vector>

extern "C" int conviqt_detector_set_id(void *ptr, char *det_id);

namespace {
using namespace conviqt;
typedef Alm<xcomplex<float> > AF; typedef Alm<xcomplex<double> > AD;
static const int NS = 6;

struct Drv {
  HostApi *api; const Scenario *sc; int me; 
  beam *b[NS] = {}; sky *s[NS] = {}; detector *d[NS] = {}; convolver *c[NS] = {}; pointing *p[NS] = {};
  void *cb[NS] = {}, *cs[NS] = {}, *cd[NS] = {}, *cc[NS] = {}, *cp[NS] = {};
  std::string okmsg;          // what a successful operation got wrong
  bool rok[2][2][NS] = {};    // did the last read into [beam, sky][interface][slot] succeed

  struct Lib { HostApi *a; Lib(HostApi *a) : a(a) { a->lib(1); } ~Lib() { a->lib(0); } };
  void info(int op, int aux, double v) { api->obs(op, OB_INFO, aux, 1, &v); }
  static std::string fn(const Op &o, int idx) { char t[40]; snprintf(t, sizeof t, "f%d.fits", idx); return t; }

  template <class F> int guarded(const Op &o, int i, F f) {
    int code = OUT_OK; std::string msg; okmsg.clear();
    try {
      int r; { Lib l(api); r = f(); }
      if (r == -99999) code = OUT_NULL; else if (r) code = OUT_RC;
    }
    catch (levels::LEVELSError &e) { code = OUT_LEVELS; msg = e.what(); }
    catch (std::bad_alloc &) { code = OUT_BADALLOC; msg = "bad_alloc"; }
    catch (std::exception &e) { code = OUT_STDEXC; msg = e.what(); }
    catch (...) { code = OUT_OTHER; msg = "unknown exception"; }
    if (o.capi && code >= OUT_STDEXC && code <= OUT_OTHER) code = OUT_ESCAPED;
    api->note(i, code, code == OUT_OK ? okmsg.c_str() : msg.c_str());
    return code;
  }

  void fill(double *q, size_t n, const Op &o, int i) {
    const std::vector<Row> &R = o.rows[me];
    for (size_t k = 0; k < n; k++) {
      q[5 * k] = R[k].phi; q[5 * k + 1] = R[k].theta; q[5 * k + 2] = R[k].psi;
      q[5 * k + 3] = 1e3 * u01(hash3(sc->envseed, i * 100 + me, k)); q[5 * k + 4] = -1e6 * u01(hash3(sc->envseed, i * 100 + me, k + 77777));
    }
  }
  void convolve(const Op &o, int i) {
    static const std::vector<Row> none;
    int sl = o.a[4]; size_t n = me < (int)o.rows.size() ? o.rows[me].size() : 0;
    double *q = nullptr; size_t have = 0; int code;
    if (!o.capi) {
      if (!o.a[3]) {
        Lib l(api);
        try { if (!p[sl]) p[sl] = new pointing; if (n || o.a[2]) p[sl]->alloc(5 * n); else { delete p[sl]; p[sl] = nullptr; p[sl] = new pointing; } }
        catch (...) { api->lib(0); api->note(i, OUT_BADALLOC, "pointing allocation"); return after(o, i, OUT_BADALLOC); }
      }
      if (!o.a[3] && n) fill(p[sl]->begin(), n, o, i);
      code = guarded(o, i, [&] { return c[o.a[0]]->convolve(*p[sl], o.a[1] != 0); });
      have = p[sl]->size(); q = have ? p[sl]->begin() : nullptr;
    } else {
      if (!o.a[3]) {
        int rc = guardedq(o, i, [&] { if (!cp[sl]) cp[sl] = conviqt_pointing_new(); if (!cp[sl]) return -99999; return conviqt_pointing_alloc(cp[sl], 5 * n); });
        if (rc != OUT_OK) { api->note(i, rc, "conviqt_pointing_alloc"); return after(o, i, rc); }
        double *x = conviqt_pointing_data(cp[sl]);
        if (n && !x) { api->note(i, OUT_NULL, "conviqt_pointing_data"); return after(o, i, OUT_NULL); }
        if (n) fill(x, n, o, i);
      }
      code = guarded(o, i, [&] { return conviqt_convolver_convolve(cc[o.a[0]], cp[sl], (char)o.a[1]); });
      have = ((pointing *)cp[sl])->size(); q = have ? conviqt_pointing_data(cp[sl]) : nullptr;
    }
    if (have && q) api->obs(i, OB_ROWS, 0, have, q); else api->obs(i, OB_ROWS, 0, 0, nullptr);
    after(o, i, code);
  }
  template <class F> int guardedq(const Op &o, int i, F f) {
    try { int r; { Lib l(api); r = f(); } return r == 0 ? OUT_OK : r == -99999 ? OUT_NULL : OUT_RC; } catch (...) { return o.capi ? OUT_ESCAPED : OUT_OTHER; }
  }
  void after(const Op &o, int i, int code) { if (code != OUT_OK && o.a[9] == 1) api->abort_run(); }

  template <class A> void dump_alm(int i, int aux, const A &a) {
    std::vector<double> v; long L = a.Lmax(), M = a.Mmax(); v.push_back(L); v.push_back(M);
    for (long m = 0; m <= M; m++) for (long l = m; l <= L; l++) { v.push_back(a(l, m).re); v.push_back(a(l, m).im); }
    api->obs(i, OB_ALM, aux, v.size(), v.data());
  }
  void dump_raw(int i, int aux, const void *p, long L, long M) {
    if (!p) { api->obs(i, OB_ALM, aux, 0, nullptr); return; }
    const float *f = (const float *)p; std::vector<double> v; v.push_back(L); v.push_back(M);
    for (long m = 0; m <= M; m++) for (long l = m; l <= L; l++) { long k = (m * (2 * L + 1 - m)) / 2 + l; v.push_back(f[2 * k]); v.push_back(f[2 * k + 1]); }
    api->obs(i, OB_ALM, aux, v.size(), v.data());
  }

  // ---------------- MPI layer
  // values over the whole range of the type: small ones, the largest and (where there are any) negative ones
  template <class T> static T val(uint64_t seed, int src, long k) {
    uint64_t h = hash3(seed, src, k); typedef std::numeric_limits<T> N; int w = seed % 3 ? (h >> 50) % 6 : 0; long v = (long)(h % 97 + 1);
    if (sizeof(T) == 1 || w < 3) return (T)v;
    if (w == 3) return N::is_signed ? (T)-v : (T)(N::max() / 2 + (T)v);
    if (w == 4) return N::is_integer ? (T)(N::max() - (T)v) : (T)(N::max() / (T)v);
    return N::is_integer ? (T)(N::max() / (T)3 + (T)v) : (T)v / (T)3;
  }
  template <class T> static T sval(uint64_t seed, int src, long k) { return (T)(long)(hash3(seed, src, k) % 97 + 1); }
  template <class T> static T pval(uint64_t seed, int src, long k) { return (T)(long)(hash3(seed, src, k) % 2 + 1); }
  template <class T> void bad(const char *what, int src, long k, T got, T want) {
    std::ostringstream o; o << "the MPI layer's " << what << " delivered " << (double)got << " instead of " << (double)want << " (element " << k << (src >= 0 ? " from rank " : "") << (src >= 0 ? std::to_string(src) : "") << ")";
    api->fail(o.str().c_str());
  }
  template <class T> T redx(MPI_Manager::redOp op, uint64_t seed, int n, long k) {
    T r = pval2<T>(op, seed, 0, k);
    for (int i = 1; i < n; i++) { T x = pval2<T>(op, seed, i, k); switch (op) { case MPI_Manager::Sum: r = r + x; break; case MPI_Manager::Prod: r = r * x; break; case MPI_Manager::Min: r = x < r ? x : r; break; default: r = x > r ? x : r; } }
    return r;
  }
  template <class T> static T pval2(MPI_Manager::redOp op, uint64_t seed, int src, long k) { return sizeof(T) == 1 || op == MPI_Manager::Prod ? pval<T>(seed, src, k) : op == MPI_Manager::Sum ? sval<T>(seed, src, k) : val<T>(seed, src, k); }
  template <class T> void layer(const Op &o, int i, MPI_Comm comm) {
    MPI_Manager M(comm); int n = M.num_ranks(), r = M.rank(); int root = o.a[2] % n; long sz = o.a[3]; uint64_t sd = (uint64_t)o.a[5] * 7919 + 3; 
    MPI_Manager::redOp rop = (MPI_Manager::redOp)(o.a[4] & 3);
    auto mk = [&](int src, long len, long off = 0) { arr<T> x(len); for (long k = 0; k < len; k++) x[k] = val<T>(sd, src, k + off); return x; };
    auto mkr = [&](int src, long len) { arr<T> x(len); for (long k = 0; k < len; k++) x[k] = pval2<T>(rop, sd, src, k); return x; };
    auto cmp = [&](const char *w, const arr<T> &x, int src, long len, long at = 0, long off = 0) {
      if ((long)x.size() < at + len) bad<double>(w, src, -1, x.size(), at + len);
      for (long k = 0; k < len; k++) if (!(x[at + k] == val<T>(sd, src, k + off))) bad<T>(w, src, k, x[at + k], val<T>(sd, src, k + off)); };
    auto cmpr = [&](const char *w, const arr<T> &x, long len) { if ((long)x.size() != len) bad<double>(w, -1, -1, x.size(), len);
      for (long k = 0; k < len; k++) { T e = redx<T>(rop, sd, n, k); if (!(x[k] == e)) bad<T>(w, -1, k, x[k], e); } };
    auto vs = [&](int src, int dst) -> int { return (int)(hash3(sd, src * 64 + dst, 5) % (sz + 1)); };
    auto vs1 = [&](int src) -> int { return (hash3(sd, src, 8) % 3 == 0) ? 0 : (int)(hash3(sd, src, 6) % (sz + 1)); };
    int nx = (r + 1) % n, pv = (r + n - 1) % n;
    switch (o.a[0]) {
      case 0: { arr<T> x = r == root ? mk(root, sz) : mk(r + 500, sz); M.bcast(x, root); cmp("broadcast", x, root, sz); break; }
      case 1: { T x = val<T>(sd, r, 0); M.bcast(x, root); if (!(x == val<T>(sd, root, 0))) bad<T>("scalar broadcast", root, 0, x, val<T>(sd, root, 0)); break; }
      case 2: { arr<T> x = mkr(r, sz), y; M.reduce(x, y, rop, root); if (r == root) cmpr("reduction", y, sz); for (long k = 0; k < sz; k++) if (!(x[k] == pval2<T>(rop, sd, r, k))) bad<T>("reduction (input changed)", r, k, x[k], 0); break; }
      case 3: { T x = pval2<T>(rop, sd, r, 0), y = 0; M.reduce(x, y, rop, root); if (r == root) { T e = redx<T>(rop, sd, n, 0); if (!(y == e)) bad<T>("scalar reduction", -1, 0, y, e); } break; }
      case 4: { arr<T> x = mkr(r, sz), y; M.allreduce(x, y, rop); cmpr("all-reduction", y, sz); break; }
      case 5: { arr<T> x = mkr(r, sz); M.allreduce(x, rop); cmpr("in-place all-reduction", x, sz); break; }
      case 6: { arr<T> x = mk(r, sz), y; M.allgather(x, y); if ((long)y.size() != n * sz) bad<double>("all-gather", -1, -1, y.size(), n * sz); for (int q = 0; q < n; q++) cmp("all-gather", y, q, sz, q * sz); break; }
      case 7: { T x = val<T>(sd, r, 0); arr<T> y; M.allgather(x, y); for (int q = 0; q < n; q++) cmp("scalar all-gather", y, q, 1, q); break; }
      case 8: { T x = val<T>(sd, r, 0); arr<T> y; if (r == root) { M.gather_m(x, y, root); for (int q = 0; q < n; q++) cmp("gather", y, q, 1, q); } else M.gather_s(x, root); break; }
      case 9: { arr<T> x = mk(r, vs1(r)), y; M.gatherv(x, y); if (r == 0) { long at = 0; for (int q = 0; q < n; q++) { cmp("varying gather", y, q, vs1(q), at); at += vs1(q); } if ((long)y.size() != at) bad<double>("varying gather", -1, -1, y.size(), at); } break; }
      case 10: { arr<T> x(sz * n), y; for (int q = 0; q < n; q++) for (long k = 0; k < sz; k++) x[q * sz + k] = val<T>(sd, r, k + 1000 * q); M.all2all(x, y); for (int q = 0; q < n; q++) cmp("all-to-all", y, q, sz, q * sz, 1000 * r); break; }
      case 11: case 12: {
        arr<int> ni(n), di(n), no(n), dd(n); long a = 0, b2 = 0; for (int q = 0; q < n; q++) { ni[q] = vs(r, q); di[q] = a; a += ni[q]; no[q] = vs(q, r); dd[q] = b2; b2 += no[q]; }
        arr<T> x(a), y; for (int q = 0; q < n; q++) for (int k = 0; k < ni[q]; k++) x[di[q] + k] = val<T>(sd, r, k + 1000 * q);
        if (o.a[0] == 11) M.all2allv(x, ni, di, y, no, dd, b2);
        else { arr<int> got; M.all2allv_easy(x, ni, y, got); for (int q = 0; q < n; q++) if (got[q] != no[q]) bad<double>("varying all-to-all (counts)", q, q, got[q], no[q]); }
        if ((long)y.size() != b2) bad<double>("varying all-to-all", -1, -1, y.size(), b2);
        for (int q = 0; q < n; q++) cmp("varying all-to-all", y, q, no[q], dd[q], 1000 * r); break; }
      case 13: { if (n < 2) break; arr<T> x = mk(r, sz), y(sz); if (r % 2 == 0) { if (r + 1 < n) M.send(x, r + 1); if (r > 0) { M.recv(y, r - 1); cmp("receive", y, r - 1, sz); } }
        else { M.recv(y, r - 1); cmp("receive", y, r - 1, sz); if (r + 1 < n) M.send(x, r + 1); } break; }
      case 14: { arr<T> x = mk(r, sz), y(sz); for (long k = 0; k < sz; k++) y[k] = 0; M.sendrecv(x, nx, y, pv); cmp("exchange", y, pv, sz); break; }
      case 15: { arr<T> x = mk(r, sz); M.sendrecv_replace(x, nx, pv); cmp("in-place exchange", x, pv, sz); break; }
      case 16: { T x = val<T>(sd, r, 0), y = 0; M.sendrecv(x, nx, y, pv); if (!(y == val<T>(sd, pv, 0))) bad<T>("scalar exchange", pv, 0, y, val<T>(sd, pv, 0)); break; }
      case 17: { T x = pval2<T>(rop, sd, r, 0); M.allreduce(x, rop); T e = redx<T>(rop, sd, n, 0); if (!(x == e)) bad<T>("scalar all-reduction", -1, 0, x, e); break; }
      case 18: M.barrier(); break;
      case 19: { T x = pval2<T>(rop, sd, r, 0), y = 0; M.allreduce(x, y, rop); T e = redx<T>(rop, sd, n, 0); if (!(y == e)) bad<T>("scalar all-reduction", -1, 0, y, e); break; }
      case 20: { if (n < 2) break; T x = val<T>(sd, r, 0), y = 0; if (r % 2 == 0) { if (r + 1 < n) M.send(x, r + 1); } else { M.recv(y, r - 1); if (!(y == val<T>(sd, r - 1, 0))) bad<T>("scalar receive", r - 1, 0, y, val<T>(sd, r - 1, 0)); } break; }
      case 21: { // exchange with a partner (pairs), odd one out exchanges with itself
        int pa = r ^ 1; if (pa >= n) pa = r; arr<T> x = mk(r, sz); M.sendrecv_replace(x, pa, pa); cmp("pairwise in-place exchange", x, pa, sz); break; }
      case 22: { // exchange of different amounts in the two directions
        arr<T> x = mk(r, vs(r, nx)), y(vs(pv, r)); if (x.size() && y.size()) {} M.sendrecvRaw(x.size() ? &x[0] : (T *)0, x.size(), nx, y.size() ? &y[0] : (T *)0, y.size(), pv); cmp("exchange", y, pv, vs(pv, r)); break; }
      case 25: { // gather of tables: equally wide, differently long
        long w = std::max(1L, sz / 4); arr2<T> x(vs1(r), w); for (long a = 0; a < (long)x.size1(); a++) for (long b = 0; b < w; b++) x[a][b] = val<T>(sd, r, a * w + b); arr2<T> y; if (r) { M.gatherv_s(x); break; } M.gatherv_m(x, y);
        long at = 0; for (int q = 0; q < n; q++) for (long a = 0; a < vs1(q); a++, at++) for (long b = 0; b < w; b++) { T e = val<T>(sd, q, a * w + b); if (at >= (long)y.size1() || (long)y.size2() != w) bad<double>("gather of tables (size)", q, at, y.size1(), at + 1); if (!(y[at][b] == e)) bad<T>("gather of tables", q, a * w + b, y[at][b], e); }
        if ((long)y.size1() != at) bad<double>("gather of tables (size)", -1, -1, y.size1(), at); break; }
      case 24: { // requests whose sizes contradict each other: refused on every rank, and the layer goes on working
        auto refused = [&](const char *w, auto g) { if (ffaulty(i)) return; bool thrown = false; try { g(); } catch (levels::LEVELSError &) { thrown = true; } catch (std::exception &) { thrown = true; } if (!thrown) { std::string t = std::string("the MPI layer did not refuse ") + w; api->fail(t.c_str()); } };
        int w = (int)(sd / 11 % 5), e = 1 + (int)(sd / 44 % 3); arr<int> ni(n), got; long a = 0; for (int q = 0; q < n; q++) { ni[q] = vs(r, q) + 3; a += ni[q]; }
        if (w == 0) { arr<T> x = mk(r, sz * n + (n > 1 ? 1 + e % (n - 1) : 0)), y; if (n > 1) refused("an all-to-all whose elements cannot be shared equally", [&] { M.all2all(x, y); }); }
        else if (w == 1) { arr<T> x = mk(r, a - e), y; refused("a varying all-to-all of more elements than there are", [&] { M.all2allv_easy(x, ni, y, got); }); }
        else if (w == 2) { arr<T> x = mk(r, a + e), y; refused("a varying all-to-all of fewer elements than there are", [&] { M.all2allv_easy(x, ni, y, got); }); }
        else if (w == 4) { arr<T> x = mk(r, sz * n + n); int f = (int)(sd / 44 % 6); const char *t = "an operation whose input and output are the same";
          refused(t, [&] { switch (f) { case 0: M.allreduceRaw((const T *)&x[0], &x[0], x.size(), rop); break; case 1: M.reduceRaw((const T *)&x[0], &x[0], x.size(), rop, root); break; case 2: M.allgatherRaw((const T *)&x[0], &x[0], 1); break; case 3: M.all2allRaw((const T *)&x[0], &x[0], n); break; case 4: M.sendrecvRaw((const T *)&x[0], 1, nx, &x[0], 1, pv); break; default: { arr<int> c(n), d(n); for (int q = 0; q < n; q++) { c[q] = 1; d[q] = q; } M.all2allvRaw((const T *)&x[0], &c[0], &d[0], &x[0], &c[0], &d[0]); } } });
          cmp("refused operation", x, r, x.size()); }
        else { arr<int> n2(n + e); for (int q = 0; q < n + e; q++) n2[q] = 0; arr<T> x = mk(r, 1), y; refused("a varying all-to-all with the counts of other ranks", [&] { M.all2allv_easy(x, n2, y, got); }); }
        T x = val<T>(sd, r, 0); arr<T> y; M.allgather(x, y); for (int q = 0; q < n; q++) cmp("all-gather after a refused request", y, q, 1, q); break; }
      case 23: { int64 lo, hi; M.calcShare(0, sz, lo, hi); arr<int64> L, H; M.allgather(lo, L); M.allgather(hi, H); int64 at = 0; for (int q = 0; q < n; q++) { if (L[q] != at || H[q] < L[q]) bad<double>("share computation", q, q, L[q], at); at = H[q]; } if (at != sz) bad<double>("share computation", -1, 0, at, sz); break; }
    }
  }

  template <class T> void mkalm(Alm<xcomplex<T> > &a, int comp, int L, int M, uint64_t seed, int sparse) {
    a.Set(L, M);
    for (int m = 0; m <= M; m++) for (int l = m; l <= L; l++) {
      uint64_t h = hash3(seed * 31 + comp, l, m); double re = 2 * u01(h) - 1, im = m ? 2 * u01(mix64(h)) - 1 : 0;
      if (alm_zeroed(sparse, h, l, m, L, M)) re = im = 0;
      if (m > 0) { int z = (int)((h >> 5) % 40); if (z == 0) re = 0; else if (z == 1) im = 0; }
      a(l, m).re = (T)re; a(l, m).im = (T)im; }
  }
  template <class T> void rotate(const Op &o, int i) {
    Alm<xcomplex<T> > t, g, c; int L = o.a[0];
    mkalm(t, 0, L, L, o.a[2], 0); if (o.a[1]) { mkalm(g, 1, L, L, o.a[2], 0); mkalm(c, 2, L, L, o.a[2], 0); }
    int code = guarded(o, i, [&] {
      if (o.a[3] == 0) { if (o.a[1]) rotate_alm(t, g, c, o.d[0], o.d[1], o.d[2]); else rotate_alm(t, o.d[0], o.d[1], o.d[2]); }
      else { rotmatrix m = matrix(o.a[3], o.d[0], o.d[1], o.d[2]);
        if (o.a[1]) rotate_alm(t, g, c, m); else rotate_alm(t, m); }
      return 0; });
    if (code == OUT_OK) { dump_alm(i, 0, t); if (o.a[1]) { dump_alm(i, 1, g); dump_alm(i, 2, c); } }
    after(o, i, code);
  }
  // the same rotation, composed in different ways: psi about z, then theta about y, then phi about z
  static rotmatrix matrix(int how, double psi, double theta, double phi) {
    rotmatrix m = zmat(phi) * ymat(theta) * zmat(psi), x, y, z, t;
    if (how == 2) { x.Make_CPAC_Euler_Matrix(phi, theta * 0.5, 0.4); y.Make_CPAC_Euler_Matrix(-0.4, theta * 0.5, psi); m = x * y; }
    if (how == 3) {   // about an axis there and, by other means, back again
      double lat = 0.3 + fabs(theta) * 0.6, lon = psi + 0.7, an = phi + 0.2; vec3 n(sin(lat) * cos(lon), sin(lat) * sin(lon), cos(lat));
      x.Make_Axis_Rotation_Transform(n, an); y = zmat(lon) * ymat(lat) * zmat(-an) * ymat(-lat) * zmat(-lon); matmult(m, x, t); matmult(t, y, m); }
    if (how == 4) { x = zmat(phi) * ymat(theta); x.Transpose(); y = zmat(psi); m.SetToZero(); TransposeTimes(x, y, m); }
    if (how == 5) { vec3 ax; double an; m.toAxisAngle(ax, an); if (fabs(sin(an)) > 1e-3) { m.SetToIdentity(); m.Make_Axis_Rotation_Transform(ax, an); } }
    if (how == 6) m = rotmatrix(vec3(m.entry[0][0], m.entry[1][0], m.entry[2][0]), vec3(m.entry[0][1], m.entry[1][1], m.entry[2][1]), vec3(m.entry[0][2], m.entry[1][2], m.entry[2][2]));
    return m;
  }
  static rotmatrix zmat(double a) { double s = sin(a), c = cos(a); return rotmatrix(c, -s, 0, s, c, 0, 0, 0, 1); }
  static rotmatrix ymat(double a) { double s = sin(a), c = cos(a); return rotmatrix(c, 0, s, 0, 1, 0, -s, 0, c); }
  template <class W> void risboit(W &w, int L, std::vector<double> &v, bool quarter = false) {   // the half-pi variants keep a quarter of the matrix
    for (int l = 0; l <= L; l++) { const arr2<double> &x = w.recurse(); if (l > 8 && l != L) continue; 
      for (tsize a = 0; a < x.size1(); a++) for (tsize b2 = 0; b2 < x.size2(); b2++) { if ((int)b2 > (quarter ? l : 2 * l) || (int)a > l) continue; v.push_back(x[a][b2]); } }
  }
  template <class T> void write(const Op &o, int i) {
    Alm<xcomplex<T> > t, g, c; int L = o.a[1], M = o.a[2], pol = o.a[3]; char nm[40]; snprintf(nm, sizeof nm, "w%d.fits", o.a[0]);
    mkalm(t, 0, L, M, o.a[5], o.a[6]); if (pol) { mkalm(g, 1, L, M, o.a[5], o.a[6]); mkalm(c, 2, L, M, o.a[5], o.a[6]); }
    auto tiny = [&](Alm<xcomplex<T> > &a, int comp) { for (int m = 0; m <= M; m++) for (int l = m; l <= L; l++) { double z = alm_tiny(o.a[5], comp, l, m, sizeof(T) == 8); a(l, m).re = (T)(a(l, m).re * z); a(l, m).im = (T)(a(l, m).im * z); } };
    tiny(t, 0); if (pol) { tiny(g, 1); tiny(c, 2); } L += (int)o.d[0]; M += (int)o.d[1];      // the limits of the file
    PDT dt = o.a[4] ? LEVELS_FLOAT64 : LEVELS_FLOAT32; std::string name = nm;
    int code = guarded(o, i, [&] {
      if (o.a[8] == 0) { if (pol) write_Alm_to_fits(name, t, g, c, L, M, dt); else write_Alm_to_fits(name, t, L, M, dt); }
      else {
        fitshandle f; f.create(name);
        if (o.a[6]) { write_compressed_Alm_to_fits(f, t, L, M, dt); if (pol) { write_compressed_Alm_to_fits(f, g, L, M, dt); write_compressed_Alm_to_fits(f, c, L, M, dt); } }
        else { write_Alm_to_fits(f, t, L, M, dt); if (pol) { write_Alm_to_fits(f, g, L, M, dt); write_Alm_to_fits(f, c, L, M, dt); } }
        f.close();
      }
      return 0; });
    after(o, i, code);
  }
  template <class T> void readalm(const Op &o, int i) {
    Alm<xcomplex<T> > t, g, c; int L = o.a[1], M = o.a[2], pol = o.a[3]; char nm[40]; snprintf(nm, sizeof nm, "%c%d.fits", o.a[6] ? 'f' : 'w', o.a[0]); std::string name = nm;
    int ls = 0, ms = 0;
    int code = guarded(o, i, [&] { if (pol) { get_almsize_pol(name, ls, ms); read_Alm_from_fits(name, t, g, c, L, M); } else { get_almsize(name, ls, ms); read_Alm_from_fits(name, t, L, M); } return 0; });
    if (code == OUT_OK) { info(i, 1, ls); info(i, 2, ms); dump_alm(i, 0, t); if (pol) { dump_alm(i, 1, g); dump_alm(i, 2, c); } }
    after(o, i, code);
  }

#include "fitsops.h"

  void delall() {
    Lib l(api);
    for (int k = 0; k < NS; k++) {
      delete c[k]; c[k] = nullptr; delete p[k]; p[k] = nullptr; delete d[k]; d[k] = nullptr; delete b[k]; b[k] = nullptr; delete s[k]; s[k] = nullptr;
      if (cc[k]) conviqt_convolver_del(cc[k]); cc[k] = nullptr; if (cp[k]) conviqt_pointing_del(cp[k]); cp[k] = nullptr; if (cd[k]) conviqt_detector_del(cd[k]); cd[k] = nullptr;
      if (cb[k]) conviqt_beam_del(cb[k]); cb[k] = nullptr; if (cs[k]) conviqt_sky_del(cs[k]); cs[k] = nullptr;
    }
  }
  void run() {
    for (int i = 0; i < (int)sc->ops.size(); i++) {
      const Op &o = sc->ops[i];
      if (!api->member(i)) continue;
      api->op_begin(i);
      step(o, i);
      api->op_end(i);
    }
    api->op_begin(-1);
    delall();
  }
  // an operation whose objects do not exist, because creating them failed, is one a program would not perform
  bool missing(const Op &o) {
    int x = o.a[0]; auto B = [&](int k) { return o.capi ? cb[k] != nullptr : b[k] != nullptr; }; auto S = [&](int k) { return o.capi ? cs[k] != nullptr : s[k] != nullptr; };
    auto D = [&](int k) { return o.capi ? cd[k] != nullptr : d[k] != nullptr; }; auto C = [&](int k) { return o.capi ? cc[k] != nullptr : c[k] != nullptr; };
    switch (o.kind) {
      case OP_READ_BEAM: return (o.capi || !o.a[5]) && !B(x);
      case OP_READ_SKY: return (o.capi || !o.a[5]) && !S(x);
      case OP_NORM: case OP_DUMPB: return !B(x);
      case OP_MONO: case OP_DIPO: case OP_DUMPS: return !S(x);
      case OP_DET: case OP_DUMPD: return !D(x);
      case OP_CONV: return !S(o.a[1]) || !B(o.a[2]) || !D(o.a[3]);
      case OP_SETSKY: return !C(x) || !S(o.a[1]);
      case OP_SETBEAM: return !C(x) || !B(o.a[1]);
      case OP_SETDET: return !C(x) || !D(o.a[1]);
      case OP_SETDATA: return o.a[1] ? !B(x) : !S(x);
      default: return false;
    }
  }
  void step(const Op &o, int i) {
    MPI_Comm comm = (MPI_Comm)api->comm(o.comm);
    int x = o.a[0], code = OUT_OK;
    if (missing(o)) { api->note(i, OUT_SKIP, "no object"); return; }
    switch (o.kind) {
      case OP_NEWBEAM: rok[0][o.capi][x] = false; code = guarded(o, i, [&] { if (o.capi) { if (cb[x]) conviqt_beam_del(cb[x]); cb[x] = conviqt_beam_new(); return cb[x] ? 0 : -99999; } delete b[x]; b[x] = nullptr; b[x] = new beam; return 0; }); break;
      case OP_NEWSKY: rok[1][o.capi][x] = false; code = guarded(o, i, [&] { if (o.capi) { if (cs[x]) conviqt_sky_del(cs[x]); cs[x] = conviqt_sky_new(); return cs[x] ? 0 : -99999; } delete s[x]; s[x] = nullptr; s[x] = new sky; return 0; }); break;
      case OP_NEWDET: code = guarded(o, i, [&] { char id[8192]; int n = snprintf(id, sizeof id, o.a[2] ? "det%d." : "det%d", o.a[1]); memset(id + n, '0', o.a[2]); id[n + o.a[2]] = 0;
          if (o.capi) { if (cd[x]) conviqt_detector_del(cd[x]); cd[x] = o.a[1] ? conviqt_detector_new_with_id(id) : conviqt_detector_new(); return !cd[x] ? -99999 : o.a[3] ? conviqt_detector_set_epsilon(cd[x], o.d[0]) : 0; }
          delete d[x]; d[x] = nullptr; d[x] = o.a[1] ? new detector(id) : new detector; if (o.a[3]) d[x]->set_epsilon(o.d[0]); return 0; }); break;
      case OP_READ_BEAM:
        code = guarded(o, i, [&] { std::string f = fn(o, o.a[1]);
          if (o.capi) { return conviqt_beam_read(cb[x], o.a[2], o.a[3], (char)o.a[4], (char *)f.c_str(), comm); }
          if (o.a[5]) { delete b[x]; b[x] = nullptr; b[x] = new beam(o.a[2], o.a[3], o.a[4] != 0, f, comm); return 0; }
          return b[x]->read(o.a[2], o.a[3], o.a[4] != 0, f, comm); });
        if (code == OUT_OK) rok[0][o.capi][x] = true; else if (o.a[5] && !o.capi) rok[0][0][x] = false; break;
      case OP_READ_SKY:
        code = guarded(o, i, [&] { std::string f = fn(o, o.a[1]);
          if (o.capi) { return conviqt_sky_read(cs[x], o.a[2], (char)o.a[4], (char *)f.c_str(), o.d[0], comm); }
          if (o.a[5]) { delete s[x]; s[x] = nullptr; s[x] = new sky(o.a[2], o.a[4] != 0, f, o.d[0], comm); return 0; }
          return s[x]->read(o.a[2], o.a[4] != 0, f, o.d[0], comm); });
        if (code == OUT_OK) rok[1][o.capi][x] = true; else if (o.a[5] && !o.capi) rok[1][0][x] = false; break;
      case OP_NORM: { double v = 0; code = guarded(o, i, [&] { v = o.capi ? conviqt_beam_normalize(cb[x]) : b[x]->normalize(); return 0; });
        double nn = o.capi ? conviqt_beam_normalized(cb[x]) : b[x]->normalized(); double w[2] = {v, nn}; api->obs(i, OB_VAL, 0, 2, w); break; }
      case OP_MONO: code = guarded(o, i, [&] { if (o.capi) return conviqt_sky_remove_monopole(cs[x]); s[x]->remove_monopole(); return 0; }); break;
      case OP_DIPO: code = guarded(o, i, [&] { if (o.capi) return conviqt_sky_remove_dipole(cs[x]); s[x]->remove_dipole(); return 0; }); break;
      case OP_DET: code = guarded(o, i, [&] { if (o.capi) return conviqt_detector_set_epsilon(cd[x], o.d[0]); d[x]->set_epsilon(o.d[0]); return 0; }); break;
      case OP_DUMPD: { double v[3] = {0, 0, 0}; char id[8192] = ""; code = guarded(o, i, [&] {
          if (o.capi) { int r = conviqt_detector_get_epsilon(cd[x], v); r |= conviqt_detector_get_id(cd[x], id); return r; }
          v[0] = d[x]->get_epsilon(); strncpy(id, d[x]->get_id().c_str(), sizeof id - 1); return 0; });
        v[1] = id[0] ? atof(id + 3) : 0; v[2] = strlen(id); api->obs(i, OB_VAL, 0, 3, v); break; }
      case OP_CONV: code = guarded(o, i, [&] {
          if (o.capi) { if (cc[x]) conviqt_convolver_del(cc[x]); cc[x] = conviqt_convolver_new(cs[o.a[1]], cb[o.a[2]], cd[o.a[3]], (char)o.a[4], o.a[5], o.a[6], o.a[7], o.a[8], comm); return cc[x] ? 0 : -99999; }
          delete c[x]; c[x] = nullptr; c[x] = new convolver(s[o.a[1]], b[o.a[2]], d[o.a[3]], o.a[4] != 0, o.a[5], o.a[6], o.a[7], o.a[8], comm); return 0; }); break;
      case OP_CONVOLVE:
        if (o.capi ? !cc[x] : !c[x]) { api->note(i, OUT_SKIP, "no convolver"); return; }
        if (o.a[3] && (o.capi ? !cp[o.a[4]] : !p[o.a[4]])) { api->note(i, OUT_SKIP, "no pointing"); return; }
        convolve(o, i); return;
      case OP_SETSKY:
        code = guarded(o, i, [&] { return o.capi ? conviqt_convolver_set_sky(cc[x], cs[o.a[1]]) : c[x]->set_sky(s[o.a[1]]); }); break;
      case OP_SETBEAM:
        code = guarded(o, i, [&] { return o.capi ? conviqt_convolver_set_beam(cc[x], cb[o.a[1]]) : c[x]->set_beam(b[o.a[1]]); }); break;
      case OP_SETDET:
        code = guarded(o, i, [&] { return o.capi ? conviqt_convolver_set_detector(cc[x], cd[o.a[1]]) : c[x]->set_detector(d[o.a[1]]); }); break;
      case OP_DELCONV: code = guarded(o, i, [&] { if (o.capi) { int r = cc[x] ? conviqt_convolver_del(cc[x]) : 0; cc[x] = nullptr; return r; } delete c[x]; c[x] = nullptr; return 0; }); break;
      case OP_DUMPB: if (o.a[8] && !rok[0][o.capi][x]) return;
        if (o.capi) { long L = conviqt_beam_lmax(cb[x]), M = conviqt_beam_mmax(cb[x]); dump_raw(i, 0, conviqt_beam_Tdata(cb[x]), L, M); void *G = conviqt_beam_Gdata(cb[x]), *C = conviqt_beam_Cdata(cb[x]); if (G) dump_raw(i, 1, G, L, M); if (C) dump_raw(i, 2, C, L, M); info(i, 1, L); info(i, 2, M); }
        else { dump_alm(i, 0, b[x]->blmT()); try { dump_alm(i, 1, b[x]->blmG()); dump_alm(i, 2, b[x]->blmC()); } catch (std::exception &) {} info(i, 1, b[x]->get_lmax()); info(i, 2, b[x]->get_mmax()); }
        info(i, 3, o.capi ? conviqt_beam_normalized(cb[x]) : b[x]->normalized()); return;
      case OP_DUMPS: if (o.a[8] && !rok[1][o.capi][x]) return;
        if (o.capi) { long L = conviqt_sky_lmax(cs[x]); dump_raw(i, 0, conviqt_sky_Tdata(cs[x]), L, L); void *G = conviqt_sky_Gdata(cs[x]), *C = conviqt_sky_Cdata(cs[x]); if (G) dump_raw(i, 1, G, L, L); if (C) dump_raw(i, 2, C, L, L); info(i, 1, L); }
        else { dump_alm(i, 0, s[x]->slmT()); try { dump_alm(i, 1, s[x]->slmG()); dump_alm(i, 2, s[x]->slmC()); } catch (std::exception &) {} info(i, 1, s[x]->get_lmax()); } return;
      case OP_LAYER:
        code = guarded(o, i, [&] { switch (o.a[1]) { case 0: layer<char>(o, i, comm); break; case 1: layer<int>(o, i, comm); break; case 2: layer<unsigned>(o, i, comm); break; case 3: layer<long>(o, i, comm); break;
          case 4: layer<unsigned long>(o, i, comm); break; case 5: layer<long long>(o, i, comm); break; case 6: layer<unsigned long long>(o, i, comm); break; case 7: layer<float>(o, i, comm); break; default: layer<double>(o, i, comm); } return 0; }); break;
      case OP_ROT: if (o.a[4]) rotate<double>(o, i); else rotate<float>(o, i); return;
      case OP_RISBO: { std::vector<double> v; code = guarded(o, i, [&] { int L = o.a[0];
          if (o.a[1] == 0) { wigner_d_risbo_scalar w(L, o.d[0]); risboit(w, L, v); } else if (o.a[1] == 1) { wigner_d_risbo_openmp w(L, o.d[0]); risboit(w, L, v); }
          else if (o.a[1] == 2) { wigner_d_halfpi_risbo_scalar w(L); risboit(w, L, v, true); } else { wigner_d_halfpi_risbo_openmp w(L); risboit(w, L, v, true); } return 0; });
        api->obs(i, OB_ROT, 0, v.size(), v.data()); break; }
      case OP_WRITE: if (o.a[7]) write<double>(o, i); else write<float>(o, i); return;
      case OP_READALM: if (o.a[7]) readalm<double>(o, i); else readalm<float>(o, i); return;
      case OP_FITSW: fitsw(o, i); return;
      case OP_FITSR: fitsr(o, i); return;
      case OP_DELALL: delall(); api->note(i, OUT_OK, ""); break;
      case OP_SETDATA: code = guarded(o, i, [&] { FileSpec sp; auto set = [&](float *p, long L, long M, int comp) { for (long m = 0; m <= M; m++) for (long l = m; l <= L; l++) { float re, im; alm_value(sp, comp, l, m, re, im); long k = (m * (2 * L + 1 - m)) / 2 + l; p[2 * k] = re; p[2 * k + 1] = im; } };
          long L, M; if (o.capi) { L = o.a[1] ? conviqt_beam_lmax(cb[x]) : conviqt_sky_lmax(cs[x]); M = o.a[1] ? conviqt_beam_mmax(cb[x]) : L; } else { L = o.a[1] ? b[x]->get_lmax() : s[x]->get_lmax(); M = o.a[1] ? b[x]->get_mmax() : L; }
          sp = setdata_spec(o.a[1], o.a[2], L, M);
          if (o.capi) { void *q[3] = {o.a[1] ? conviqt_beam_Tdata(cb[x]) : conviqt_sky_Tdata(cs[x]), o.a[1] ? conviqt_beam_Gdata(cb[x]) : conviqt_sky_Gdata(cs[x]), o.a[1] ? conviqt_beam_Cdata(cb[x]) : conviqt_sky_Cdata(cs[x])};
            for (int k = 0; k < 3; k++) if (q[k]) set((float *)q[k], L, M, k); else if (!k) return -1; }
          else { auto put = [&](AF &A, int k) { for (long m = 0; m <= M; m++) for (long l = m; l <= L; l++) { float re, im; alm_value(sp, k, l, m, re, im); A(l, m).re = re; A(l, m).im = im; } };
            if (o.a[1]) put(b[x]->blmT(), 0); else put(s[x]->slmT(), 0);
            bool pol = true; try { if (o.a[1]) b[x]->blmG(); else s[x]->slmG(); } catch (std::exception &) { pol = false; }
            if (pol) { if (o.a[1]) put(b[x]->blmG(), 1), put(b[x]->blmC(), 2); else put(s[x]->slmG(), 1), put(s[x]->slmC(), 2); } }
          return 0; }); break;
      case OP_CENSUS: { double v[3] = {(double)api->census(0), (double)api->census(1), (double)api->census(2)}; api->obs(i, OB_VAL, 0, 3, v); return; }
    }
    after(o, i, code);
  }
};
}  // namespace

extern "C" int sim_driver_main(HostApi *api, const Scenario *sc, int rank) {
  Drv *d = new Drv(); d->api = api; d->sc = sc; d->me = rank;
  d->run();
  delete d;
  return 0;
}
