#include "model.h"
#include "rt.h"
#include <math.h>
#include <string.h>
#include <stdio.h>
#include <algorithm>
#include <unordered_map>
typedef std::complex<double> cd; typedef long double ld;
JStats JS;

// ---------------------------------------------------------------- FITS files
static void card(std::string &h, const char *k, const std::string &v, const char *c = "") {
  char b[200]; if (*k) snprintf(b, sizeof b, "%-8s= %20s / %s", k, v.c_str(), c); else b[0] = 0;
  std::string s = b; s.resize(80, ' '); h += s;
}
static void cards(std::string &h, const char *k, const std::string &v) { char b[200]; snprintf(b, sizeof b, "%-8s= '%-8s'", k, v.c_str()); std::string s = b; s.resize(80, ' '); h += s; }
static void endh(std::string &h) { std::string s = "END"; s.resize(80, ' '); h += s; while (h.size() % 2880) h += ' '; }
static void be(std::string &d, const void *p, int n) { const char *c = (const char *)p; for (int i = n - 1; i >= 0; i--) d += c[i]; }
static bool neg_at(const FileSpec &f, int l, int m, size_t i, size_t n) { return f.corrupt == 3 && l >= 1 && m == std::min(l, f.mmax) && m >= 1 && i > n / 3; }
static std::vector<std::pair<int, int>> stored(const FileSpec &f, int c) {   // the coefficients of component c in the order of the file
  std::vector<std::pair<int, int>> lm;
  if (f.order == 3) { for (int m = 0; m <= f.mmax; m++) for (int l = m; l <= f.lmax; l++) lm.push_back({l, m}); }
  else for (int l = 0; l <= f.lmax; l++) for (int m = 0; m <= l && m <= f.mmax; m++) { if (f.diag && m == 2 && l > 2) m = l <= f.mmax ? l : f.mmax + 1; if (m <= f.mmax) lm.push_back({l, m}); }
  lm.erase(std::remove_if(lm.begin(), lm.end(), [&](std::pair<int, int> p) { return alm_dropped(f, c, p.first, p.second); }), lm.end());
  if (f.order == 1) std::reverse(lm.begin(), lm.end());
  if (f.order == 2) for (size_t i = lm.size(); i > 1; i--) std::swap(lm[i - 1], lm[hash3(f.seed, i, 77) % i]);
  return lm;
}
static bool negative_order(const FileSpec &f, int c) { auto lm = stored(f, c); for (size_t i = 0; i < lm.size(); i++) if (neg_at(f, lm[i].first, lm[i].second, i, lm.size())) return true; return false; }
std::string fits_file(const FileSpec &f) {
  std::string out;
  if (f.corrupt == 1) { for (int i = 0; i < 4000; i++) out += (char)(hash3(f.seed, i, 9) & 0xff); return out; }
  if (f.corrupt == 5) return out;
  std::string h; card(h, "SIMPLE", "T"); card(h, "BITPIX", "8"); card(h, "NAXIS", "0"); card(h, "EXTEND", "T"); endh(h); out = h;
  int nh = f.hdus ? f.hdus : f.pol ? 3 : 1;
  for (int c = 0; c < nh; c++) {
    if (f.corrupt == 4) {
      h.clear(); cards(h, "XTENSION", "IMAGE"); card(h, "BITPIX", "8"); card(h, "NAXIS", "1"); card(h, "NAXIS1", "100"); card(h, "PCOUNT", "0"); card(h, "GCOUNT", "1"); endh(h);
      out += h + std::string(2880, 'x'); continue; }
    std::vector<std::pair<int, int>> lm = stored(f, c);
    int lay = f.corrupt == 2 ? 0 : f.lay, it = lay % 3, more = lay / 3 % 3, mixed = lay / 9 % 2, vec = lay / 18 + 1; if (it == 2 && (f.lmax + 1) * (f.lmax + 1) > 32767) it = 0;
    int cols = f.corrupt == 2 ? 2 : 3 + more, iw = it == 1 ? 8 : it == 2 ? 2 : 4; std::vector<int> w(cols);
    for (int q = 1; q < cols; q++) w[q] = f.corrupt == 10 ? 8 : q == 1 + f.pol ? (f.coltype ^ mixed ? 8 : 4) : f.coltype ? 8 : 4;
    long n = lm.size(), rows = (n + vec - 1) / vec; int rw = iw * vec; for (int q = 1; q < cols; q++) rw += w[q] * vec;
    std::string d(rows * rw, '\0');
    for (long i = 0; i < rows * vec; i++) {       // an incomplete last row repeats the last coefficient
      long e = std::min(i, n - 1); int l = lm[e].first, m = lm[e].second, ix = l * l + l + m + 1; float re, im; alm_value(f, c, l, m, re, im);
      if (neg_at(f, l, m, e, n)) ix = l * l + l - m + 1;
      if (f.corrupt == 6 && e == n / 2) ix = -7;
      double r2 = re, i2 = im; if (f.corrupt == 10 && e == (long)(hash3(f.seed, 3, 10) % n)) (f.seed & 1 ? r2 : i2) = f.seed & 2 ? 1e60 : -4e38;
      std::string t; int64_t i8 = ix; int16_t s2 = ix; if (it == 1) be(t, &i8, 8); else if (it == 2) be(t, &s2, 2); else be(t, &ix, 4);
      size_t at = (i / vec) * rw + (i % vec) * iw; d.replace(at, iw, t); at = (i / vec) * rw + iw * vec;
      for (int q = 1; q < cols; q++) { double x = q == 1 ? r2 : q == 2 ? i2 : .01 * (i % 7); float y = x; t.clear(); if (w[q] == 8) be(t, &x, 8); else be(t, &y, 4); d.replace(at + (i % vec) * w[q], w[q], t); at += w[q] * vec; }
    }
    h.clear(); cards(h, "XTENSION", "BINTABLE"); card(h, "BITPIX", "8"); card(h, "NAXIS", "2"); card(h, "NAXIS1", std::to_string(rw)); card(h, "NAXIS2", std::to_string(rows));
    card(h, "PCOUNT", "0"); card(h, "GCOUNT", "1"); card(h, "TFIELDS", std::to_string(cols));
    for (int q = 0; q < cols; q++) { static const char *nm[] = {"INDEX", "REAL", "IMAG", "ERRREAL", "ERRIMAG"}; std::string k = std::to_string(q + 1); cards(h, ("TTYPE" + k).c_str(), nm[q]); cards(h, ("TFORM" + k).c_str(), (std::to_string(vec) + (q ? w[q] == 8 ? "D" : "E" : it == 1 ? "K" : it == 2 ? "I" : "J")).c_str()); }
    if (f.keys || f.corrupt == 7 || f.corrupt == 8 || f.corrupt == 9) {
      if (f.keys != 3 || f.corrupt) card(h, "MAX-LPOL", f.corrupt == 7 ? "200000000" : f.corrupt == 8 ? "-12" : std::to_string(f.lmax + flim(f)));
      if (f.keys != 2 || f.corrupt) card(h, "MAX-MPOL", f.corrupt == 7 ? "200000000" : f.corrupt == 8 ? "-3" : std::to_string(f.mmax + flim(f))); }
    endh(h); while (d.size() % 2880) d += '\0';
    out += h + d;
  }
  if (f.trunc >= 0) out.resize((size_t)((double)out.size() * f.trunc / 10000));
  return out;
}

// ---------------------------------------------------------------- Wigner d
static ld binom_sqrt(int n, int k) { ld r = 1; for (int i = 1; i <= k; i++) r *= (ld)(n - k + i) / i; return sqrtl(r); }
static ld powi(ld x, int n) { ld r = 1; while (n > 0) { if (n & 1) r *= x; x *= x; n >>= 1; } return r; }
// all d^l_{m1 m2}, l = 0..lmax
static void wigner_row_cs(int lmax, int m1, int m2, ld c, ld s, std::vector<ld> &out);
static void wigner_row(int lmax, int m1, int m2, ld th, std::vector<ld> &out) { wigner_row_cs(lmax, m1, m2, cosl(th / 2), sinl(th / 2), out); }
static void wigner_row_cs(int lmax, int m1, int m2, ld c, ld s, std::vector<ld> &out) {
  out.assign(lmax + 1, 0); int l0 = std::max(abs(m1), abs(m2)); if (l0 > lmax) return;
  ld ct = (c - s) * (c + s); int a = m1, b = m2; ld sg = 1;
  // bring to d_{l0,x}
  if (abs(a) == l0) { if (a < 0) { sg *= ((l0 + b) & 1) ? -1 : 1; a = -a; b = -b; } }             // d_{-l,m} = (-1)^{l+m} d_{l,-m}
  else { if (b < 0) { int t = a; a = -b; b = -t; } else { sg *= ((a - b) & 1) ? -1 : 1; std::swap(a, b); } }  // d_{m',-l} = d_{l,-m'},  d_{m',l} = (-1)^{m'-l} d_{l,m'}
  out[l0] = sg * binom_sqrt(2 * l0, l0 + b) * powi(c, l0 + b) * powi(-s, l0 - b);
  ld p = m1, q = m2;
  for (int l = l0; l < lmax; l++) {
    if (l == 0) { out[1] = ct; continue; }
    ld L = l, L1 = l + 1;
    ld den = L * sqrtl((L1 * L1 - p * p) * (L1 * L1 - q * q)); ld up = (2 * L + 1) * (L * L1 * ct - p * q) * out[l];
    if (l > l0) up -= L1 * sqrtl((L * L - p * p) * (L * L - q * q)) * out[l - 1];
    out[l + 1] = up / den;
  }
}
double wigner_d(int l, int m1, int m2, double th) { std::vector<ld> o; wigner_row(l, m1, m2, th, o); return (double)o[l]; }

// ---------------------------------------------------------------- convolution
void Exp3::seal() { uint64_t h = 1; for (int k = 0; k < (pol ? 3 : 1); k++) for (auto &x : c[k].v) { uint64_t a, b; double r = x.real(), i = x.imag(); memcpy(&a, &r, 8); memcpy(&b, &i, 8); h = mix64(h ^ a); h = mix64(h ^ b); } id = mix64(h ^ (lmax * 100003 + mmax)); }
struct Ring { int lmax, mmax; std::vector<cd> C; double S = 0, A = 0; std::vector<std::vector<cd>> V; };
struct Cube { std::map<long, Ring> rings; };
static std::unordered_map<uint64_t, Cube> cubes;
void conv_cache_clear() { cubes.clear(); }
// cut = 0: the mathematics.  cut > 0: the known polar defect of the library (known_findings.txt): elements of d^l(m,mb) below the
// multipole at which both d^l(m,mb) and d^l(-m,mb) have exceeded 1e-30 are lost.  On a ring at a pole those multipoles depend on the
// rounding of the ring's colatitude: cut = 1 uses the library's present arithmetic, cut > 1 tries other roundings.
static int lib_first(int lmax, int mhi, const std::vector<ld> &d) {
  int l = mhi; if (l > lmax) return lmax + 1; if (d[l] == 0) return lmax + 1; int scale = (int)(log2l(fabsl(d[l])) / 90) + 4; const ld eps = 1e-30L;
  while (scale < 0) { if (++l > lmax) break; if (++l > lmax) break; while (fabsl(d[l]) > ldexpl(1, 90 * (scale - 3))) scale++; }
  if (scale < 0) return lmax + 1;
  for (; l < lmax - 1; l += 2) { if (fabsl(d[l]) > eps) break; if (fabsl(d[l + 1]) > eps) { l++; break; } }
  if (fabsl(d[l]) <= eps) l++;
  return l;
}
static void lib_theta(int lmax, int np, long ri, int cut, bool &pole, ld &c, ld &s) {
  long hm = np / 2 + 1; double pi = M_PI, dt = -pi / (lmax + 1), t0 = pi - hm * dt, th = t0 + ri * dt; th = fmod(th, 2 * pi); if (th < 0) th += 2 * pi; if (th > pi) th -= 2 * pi; th = fabs(th); if (th == 0) th = 1e-16; if (fabs(th - pi) < 1e-15) th = pi - 1e-15;
  pole = sin(th) < 1e-9; c = cosl(th / 2.0L); s = sinl(th / 2.0L); if (pole && cut > 1) { ld del = (cut - 1) * .55e-16L; if (th < 1) { s = del; c = 1; } else { c = del; s = 1; } }
}
static Ring &ring(Cube &q, const Exp3 &s, const Exp3 &b, bool pol, int lmax, int mmax, long key, ld th, int cut, int np, long ri) {
  bool pole = false; ld hc = 0, hs = 0; if (cut) { lib_theta(lmax, np, ri, cut, pole, hc, hs); if (!pole) cut = 1; } key = key * 128 + cut;
  auto it = q.rings.find(key); if (it != q.rings.end()) return it->second;
  Ring &r = q.rings[key]; r.lmax = lmax; r.mmax = mmax; r.C.assign((size_t)(2 * lmax + 1) * (mmax + 1), 0); r.V.resize(2 * lmax + 1);
  std::vector<ld> d;
  for (int mb = 0; mb <= mmax; mb++) for (int m = -lmax; m <= lmax; m++) {
    wigner_row(lmax, m, mb, th, d); int am = abs(m);
    if (cut) { std::vector<ld> n; int hi = std::max(am, mb); wigner_row_cs(lmax, mb, am, hc, hs, n); int f = lib_first(lmax, hi, n); wigner_row_cs(lmax, mb, -am, hc, hs, n); f = std::max(f, lib_first(lmax, hi, n)); for (int l = 0; l < f && l <= lmax; l++) d[l] = 0; }
    ld re = 0, im = 0, ab = 0; double sg = m < 0 && (am & 1) ? -1 : 1;
    for (int l = std::max(am, mb); l <= lmax; l++) for (int c = 0; c < (pol ? 3 : 1); c++) {
      cd sv = s.c[c].at(l, am); if (m < 0) sv = sg * std::conj(sv);
      cd x = sv * std::conj(b.c[c].at(l, mb)); re += d[l] * x.real(); im += d[l] * x.imag(); double z = std::abs(sv) * std::abs(b.c[c].at(l, mb)); ab += fabsl(d[l]) * z; r.A += (mb ? 2 : 1) * z; }
    r.C[(size_t)mb * (2 * lmax + 1) + m + lmax] = cd((double)re, (double)im); r.S += (mb ? 2 : 1) * (double)ab;
  }
  return r;
}
static const std::vector<cd> &ringphi(Ring &r, int j) {
  std::vector<cd> &v = r.V[j]; if (!v.empty()) return v;
  int n = 2 * r.lmax + 1; v.assign(r.mmax + 1, 0); std::vector<cd> e(n);
  for (int m = -r.lmax; m <= r.lmax; m++) { ld a = 2 * M_PIl * (ld)(((long)m * j) % n) / n + M_PIl / 2 * (m % 4); e[m + r.lmax] = cd((double)cosl(a), (double)sinl(a)); }
  for (int mb = 0; mb <= r.mmax; mb++) { cd x = 0; const cd *c = &r.C[(size_t)mb * n]; for (int k = 0; k < n; k++) x += c[k] * e[k]; v[mb] = (mb & 1 ? -1.0 : 1.0) * x; }
  return v;
}
static void lagrange(ld x, int n, std::vector<ld> &w) { w.assign(n, 1); for (int m = 0; m < n; m++) for (int k = 0; k < n; k++) if (k != m) w[m] *= (x - k) / (ld)(m - k); }
static double lastamp;
static double interp(const ExpP &s, const ExpP &b, bool pol, int lmax, int mmax, int order, double theta, double phi, double psi, bool south, double *scale, int dth, int dph, int cut = 0, bool *pole = nullptr) {
  int np = order + 1, io = order / 2, n = 2 * lmax + 1; uint64_t key = hash3(s->id, b->id, lmax * 1000003ull + mmax * 1009 + pol * 7 + order * 31);
  if (cubes.size() > 24) cubes.clear();
  Cube &q = cubes[key];
  long hm = np / 2 + 1, mar = 2 * hm, nth = lmax + 1 + mar; ld dt = -M_PIl / (lmax + 1), t0 = M_PIl - hm * dt;
  ld beta = south ? (ld)M_PI - theta : theta; if (south && theta == M_PI / 2) beta = theta;
  ld ft = (beta - t0) / dt; long it = (long)ft - io + dth; if (it > nth - np) it = nth - np; if (it < 0) it = 0;
  ld dp = 2 * M_PIl / n, fp = phi / dp - (M_PIl / 2) / dp; fp = fmodl(fp, n); if (fp < 0) fp += n; long ip = (long)fp - io + dph;
  std::vector<ld> wt, wp; lagrange(ft - it, np, wt); lagrange(fp - ip, np, wp);
  std::vector<cd> e(mmax + 1); for (int mb = 0; mb <= mmax; mb++) { ld a = mb * (ld)psi; e[mb] = cd((double)cosl(a), (double)sinl(a)) * (mb ? 2.0 : 1.0); }
  ld x = 0, sc = 0, aw = 0; lastamp = 0; for (auto w : wp) aw += fabsl(w);
  for (int k = 0; k < np; k++) {
    long ri = it + k; ld th = t0 + ri * dt; if (south) th = M_PIl - th;
    if (pole && fabsl(sinl(th)) < 1e-9L) *pole = true;
    Ring &r = ring(q, *s, *b, pol, lmax, mmax, ri * 2 + south, th, cut, np, ri);
    for (int i = 0; i < np; i++) { long j = ((ip + i) % n + n) % n; const std::vector<cd> &v = ringphi(r, (int)j); double y = 0; for (int mb = 0; mb <= mmax; mb++) y += e[mb].real() * v[mb].real() - e[mb].imag() * v[mb].imag(); x += wt[k] * wp[i] * y; }
    sc += fabsl(wt[k]) * aw * r.S; lastamp += fabsl(wt[k]) * aw * r.A;
  }
  if (scale) *scale = (double)sc; return (double)x;
}
Val conv_value(const ExpP &s, const ExpP &b, bool pol, int lmax, int mmax, int order, const Row &r) {
  if (mmax > lmax) mmax = lmax;
  Val v; v.hasalt = false; v.alt = 0; bool south = r.theta >= M_PI / 2;
  v.v = interp(s, b, pol, lmax, mmax, order, r.theta, r.phi, r.psi, south, &v.scale, 0, 0);
  if (fabs(r.theta - M_PI / 2) < 1e-12) { v.hasalt = true; v.alt = interp(s, b, pol, lmax, mmax, order, r.theta, r.phi, r.psi, !south, nullptr, 0, 0); }
  return v;
}
// order 0 (and any order at a stencil change) rounding to the neighbouring node may go either way: candidates
static bool value_ok(const ExpP &s, const ExpP &b, bool pol, int lmax, int mmax, int order, const Row &r, double fac, double got, double &err, double &want, double &scl, bool &cutoff) {
  cutoff = false;
  if (mmax > lmax) mmax = lmax;
  Val v = conv_value(s, b, pol, lmax, mmax, order, r); want = v.v * fac; scl = fabs(fac) * v.scale; double amp = lastamp, tol = fabs(fac) * (v.scale * 4e-7 + amp * 2e-14 * (10 + lmax)) + 1e-30;
  double ph = fabs(r.phi) > 50 || fabs(r.psi) > 50 ? 1 + (fabs(r.phi) + fabs(r.psi)) * 1e-8 * lmax : 1; tol *= ph;
  err = fabs(got - want) / tol * 4e-7; if (!getenv("ERRLOG") && fabs(got - want) <= tol) return true;
  bool south = r.theta >= M_PI / 2, pole = false; if (getenv("ERRLOG")) fprintf(stderr, "ERRLOG %d %d %.3g %.3g %g %d %g\n", lmax, order, err, fabs(got - want) / (fabs(fac) * lastamp + 1e-300), r.theta, mmax, r.phi); struct Cand { int e, dt, dp; }; std::vector<Cand> C;
  for (int e = 0; e < (v.hasalt ? 2 : 1); e++) {
    C.push_back({e, 0, 0}); if (order) continue;
    ld d2 = M_PIl / (lmax + 1), beta = (e ? !south : south) ? M_PIl - r.theta : (ld)r.theta, ft = (M_PIl - beta) / d2 + 2; ld dpp = 2 * M_PIl / (2 * lmax + 1), fp = ((ld)r.phi - M_PIl / 2) / dpp;
    bool nt = fabsl(ft - roundl(ft)) < 1e-9L, npn = fabsl(fp - roundl(fp)) < 1e-9L * (1 + fabs(r.phi));
    for (int dt = -1; dt <= 1; dt++) for (int dp = -1; dp <= 1; dp++) if ((dt || dp) && (!dt || nt) && (!dp || npn)) C.push_back({e, dt, dp});
  }
  static std::unordered_map<uint64_t, int> hint; int &h = hint[hash3(lmax, order, 5)];
  for (int t = -1; t <= (mmax < 1 ? -1 : 40); t++) {
    int cut = t < 0 ? 0 : t == 0 ? (h ? h : 1) : t; if (t > 0 && cut == h) continue;
    for (auto &k : C) { if (fabs(got - fac * interp(s, b, pol, lmax, mmax, order, r.theta, r.phi, r.psi, k.e ? !south : south, nullptr, k.dt, k.dp, cut, &pole)) <= tol) { err = 0; cutoff = t >= 0; if (cutoff && pole) h = cut; return true; } }
    if (t >= 0 && !pole) break;
  }
  return false;
}
// ---------------------------------------------------------------- rotation
std::vector<cd> rotate_ref(const Coef &in, double psi, double theta, double phi) {
  std::vector<cd> out(in.v.size()); int L = in.L; std::vector<ld> d;
  std::vector<std::complex<ld>> acc(in.v.size(), 0);
  for (int m = 0; m <= in.M; m++) for (int k = -in.M; k <= in.M; k++) {
    wigner_row(L, m, k, theta, d); ld a = -(m * (ld)phi + k * (ld)psi); std::complex<ld> e(cosl(a), sinl(a)); int ak = abs(k); ld sg = k < 0 && (ak & 1) ? -1 : 1;
    for (int l = std::max(m, ak); l <= L; l++) { cd x = in.at(l, ak); if (k < 0) x = std::conj(x); acc[in.idx(l, m)] += sg * d[l] * e * std::complex<ld>(x.real(), x.imag()); }
  }
  for (size_t i = 0; i < out.size(); i++) out[i] = cd((double)acc[i].real(), (double)acc[i].imag());
  return out;
}
Coef mkalm_ref(int comp, int L, int M, uint64_t seed, int sparse, int type) {
  Coef c; c.set(L, M);
  for (int m = 0; m <= M; m++) for (int l = m; l <= L; l++) { uint64_t h = hash3(seed * 31 + comp, l, m); double re = 2 * u01(h) - 1, im = m ? 2 * u01(mix64(h)) - 1 : 0;
    if (alm_zeroed(sparse, h, l, m, L, M)) re = im = 0;
    if (m > 0) { int z = (int)((h >> 5) % 40); if (z == 0) re = 0; else if (z == 1) im = 0; }
    if (!type) { re = (float)re; im = (float)im; } c.at(l, m) = cd(re, im); }
  return c;
}
// ---------------------------------------------------------------- observations
static uint64_t ok_(int r, int o) { return (uint64_t)r << 32 | (unsigned)o; }
const Obs *RunOut::get(int rank, int op, int tag, int aux) const { auto it = by.find(ok_(rank, op)); if (it == by.end()) return nullptr; for (int i : it->second) if (obs[i].tag == tag && obs[i].aux == aux) return &obs[i]; return nullptr; }
int RunOut::outcome(int rank, int op) const { const Obs *o = get(rank, op, OB_OUT, 0); return o ? (int)o->d[0] : -1; }
std::string RunOut::outmsg(int rank, int op) const { const Obs *o = get(rank, op, OB_OUT, 0); if (!o) return ""; char b[201]; memcpy(b, &o->d[1], 200); b[200] = 0; return b; }
const char *j_name(int j) {
  switch (j) { case J_VAL: return "wrong-value"; case J_ROWS: return "rows-not-intact"; case J_TIME: return "time-column"; case J_STATUS: return "legal-operation-failed"; case J_ALM: return "wrong-expansion"; case J_REFUSE: return "illegal-request-accepted";
    case J_COMPLETE: return "not-completed"; case J_MEM: return "memory"; case J_RACE: return "race"; case J_LAYER: return "mpi-layer"; case J_ROT: return "wrong-rotation"; case J_ESCAPE: return "exception-escaped"; case J_FALSEOK: return "failure-reported-as-success";
    case J_CENSUS: return "leak"; case J_PAIR: return "runs-differ"; case J_STOP: return "process-stopped"; case J_UNIFORM: return "ranks-disagree"; case J_COMM: return "communication"; case J_STATE: return "wrong-state"; case J_OPENF: return "file-left-open"; case J_INTACT: return "refused-call-changed-pointing"; case J_RECOVER: return "no-recovery"; case J_LOST: return "lost"; case J_POLAR: return "polar-cut-off"; }
  for (int b = 1; b; b <<= 1) if ((j & b) && j != b) return j_name(b);
  return "?";
}
std::vector<int> comm_members(const Scenario &s, int comm, int rank) {
  const CommSpec &c = s.comms[comm]; std::vector<int> m;
  if (c.kind == 0 || c.kind == 3) { for (int i = 0; i < s.nranks; i++) m.push_back(i); return m; }
  if (c.kind == 1) return {rank};
  auto col = [&](int q) { return q < (int)c.color.size() ? c.color[q] : 0; }; if (col(rank) < 0) return m;
  for (int q = 0; q < s.nranks; q++) if (col(q) == col(rank)) m.push_back(q);
  std::stable_sort(m.begin(), m.end(), [&](int a, int b) { int ka = a < (int)c.key.size() ? c.key[a] : 0, kb = b < (int)c.key.size() ? c.key[b] : 0; return ka < kb; });
  return m;
}
static bool takes_part(const Scenario &s, const Op &o, int rank) {
  std::vector<int> m = comm_members(s, o.comm, rank); if (m.empty()) return false; if (o.color < 0) return true;
  const CommSpec &c = s.comms[o.comm]; if (c.kind == 2) return c.color[rank] == o.color; return rank == o.color;
}

// ---------------------------------------------------------------- interpreter
static const int NS = 6;
struct MB { int st = 0; bool norm = false; ExpP e; };            // st 0 none, 1 fresh, 2 valid, 3 unknown
struct MD { int st = 0; double eps = 0; int id = 0, len = 0; };
struct MC { int st = 0; int s = 0, b = 0, d = 0; bool pol = false; int lmax = 0, mmax = 0, order = 0; bool bad = false; };
struct MP { bool have = false; std::vector<Row> rows; bool lost = false; };
struct RankM { MB b[2][NS], s[2][NS]; MD d[2][NS]; MC c[2][NS]; MP p[2][NS]; bool stop = false; };
enum { E_OK, E_FAIL, E_EITHER };

static bool refd(const RankM &R, int api, char what, int slot) { for (int i = 0; i < NS; i++) { const MC &c = R.c[api][i]; if (c.st && ((what == 's' && c.s == slot) || (what == 'b' && c.b == slot) || (what == 'd' && c.d == slot))) return true; } return false; }
// what the file provides to a request: 0 fine, 1 must fail, 2 may fail
static int file_status(const FileSpec &f, bool pol) {
  if (f.missing || f.corrupt == 1 || f.corrupt == 2 || f.corrupt == 4 || f.corrupt == 5) return 1;
  if (f.corrupt == 6 || f.corrupt == 7 || f.corrupt == 8 || f.corrupt == 10) return 1;
  if (f.corrupt == 3) for (int c = 0; c < (pol ? 3 : 1); c++) if (negative_order(f, c)) return 1;
  int nh = f.hdus ? f.hdus : f.pol ? 3 : 1; if (pol && nh < 3) return 1;
  if (f.trunc >= 0) return 2;
  return 0;
}
static ExpP build_beam(const FileSpec &f, int lm, int mm, bool pol) {
  auto e = std::make_shared<Exp3>(); e->lmax = lm; e->mmax = mm; e->pol = pol;
  for (int c = 0; c < (pol ? 3 : 1); c++) { e->c[c].set(lm, mm); for (int m = 0; m <= mm; m++) for (int l = m; l <= lm; l++) { float re, im; alm_value(f, c, l, m, re, im); e->c[c].at(l, m) = cd(re, im); } }
  e->seal(); return e;
}
static void deconv(Exp3 &e, double fwhm_arcmin) {
  if (fwhm_arcmin == 0) return; double fw = fwhm_arcmin * M_PI / 180 / 60, sg = fw / sqrt(8 * log(2.)), sn = fw < 0 ? -1 : 1; e.exact = false;     // (a negative width smoothes)
  for (int c = 0; c < (e.pol ? 3 : 1); c++) for (int m = 0; m <= e.mmax; m++) for (int l = m; l <= e.lmax; l++) { double g = exp(.5 * sn * l * (l + 1) * sg * sg); if (c) g *= exp(-2 * sn * sg * sg); e.c[c].at(l, m) *= g; }
}
static double rel_tol = 3e-6;
static bool cmp_alm(const Obs *o, const Coef &c, bool exact, std::string &why) {
  if (!o || o->d.size() < 2) { why = "no coefficients available"; return false; }
  int L = (int)o->d[0], M = (int)o->d[1]; char b[200];
  if (L != c.L || M != c.M) { snprintf(b, sizeof b, "the expansion has lmax %d mmax %d instead of lmax %d mmax %d", L, M, c.L, c.M); why = b; return false; }
  size_t k = 2;
  for (int m = 0; m <= M; m++) for (int l = m; l <= L; l++, k += 2) { cd w = c.at(l, m); double re = o->d[k], im = o->d[k + 1]; JS.alms++;
    bool ok = exact ? re == w.real() && im == w.imag() : std::abs(cd(re, im) - w) <= rel_tol * (1e-30 + std::abs(w));
    if (!ok) { snprintf(b, sizeof b, "coefficient (l=%d, m=%d) is %.9g%+.9gi instead of %.9g%+.9gi", l, m, re, im, w.real(), w.imag()); why = b; return false; } }
  return true;
}
static bool fault_in(const Scenario &s, int op) { for (auto &f : s.faults) if (f.kind != F_STALL && (f.op < 0 || f.op == op)) return true; return false; }

struct Interp {
  const Scenario &s; const RunOut *r; std::vector<RankM> R; std::vector<Finding> F; bool dry; std::string bad, ranbad;   // ranbad: an operation made moot by an earlier failure std::vector<char> written; 
  static const int FITS0 = 100000;      // the names of OP_FITSW
  std::map<int, Op> wop; std::map<int, int> wstat; std::map<int, std::string> pre;     // last write per name: op, status 0 known good 1 unknown
  std::map<int, std::map<int, std::vector<double>>> census; bool refusable = false;
  Interp(const Scenario &s, const RunOut *r) : s(s), r(r), R(s.nranks), dry(!r) {}
  void find(int cls, int rank, int op, const std::string &m) { F.push_back({cls, rank, op, m}); }
  void ill(const std::string &m) { if (bad.empty()) bad = m; }
  bool anyfired() { for (int k = 1; k < F_MAX; k++) if (k != F_STALL && r->fired.size() > (size_t)k && r->fired[k]) return true; return false; }
  void run() {
    for (int i = 0; i < (int)s.ops.size() && bad.empty(); i++) {
      const Op &o = s.ops[i]; if (o.kind == OP_NONE) continue;
      std::vector<int> part; for (int q = 0; q < s.nranks; q++) if (takes_part(s, o, q)) part.push_back(q);
      // outcomes within each communicator group
      std::vector<char> seen(s.nranks, 0);
      for (int q : part) { if (seen[q]) continue; std::vector<int> grp; for (int z : comm_members(s, o.comm, q)) if (std::find(part.begin(), part.end(), z) != part.end()) { grp.push_back(z); seen[z] = 1; } group(o, i, grp); if (!bad.empty()) { if (dry) return; moot(o, grp); if (ranbad.empty()) ranbad = bad; bad.clear(); } }
    }
  }
  bool mpifault(int op) { if (dry) return false; for (auto &f : s.faults) if (f.kind == F_MPI && (f.op < 0 || f.op == op)) return true; return false; }
  // an operation the program would not have performed: what it did to its objects is unknown
  void moot(const Op &o, const std::vector<int> &grp) {
    int api = o.capi ? 1 : 0, x = o.a[0]; if (x < 0 || x >= NS) return;
    for (int q : grp) { if (o.kind == OP_CONV || o.kind == OP_SETSKY || o.kind == OP_SETBEAM || o.kind == OP_SETDET) { R[q].c[api][x] = MC(); R[q].c[api][x].bad = true; } if (o.kind == OP_CONVOLVE && o.a[4] >= 0 && o.a[4] < NS) R[q].p[api][o.a[4]].lost = true; }
  }
  bool bad_angles(const Op &o, int i, const std::vector<int> &grp) { for (int q : grp) { for (auto &w : rows_of(o, q)) if (!(w.theta >= 0 && w.theta <= M_PI) || !std::isfinite(w.phi) || !std::isfinite(w.psi)) return true; } return false; }
  const std::vector<Row> &rows_of(const Op &o, int q) { static const std::vector<Row> none; if (o.a[3]) return R[q].p[o.capi ? 1 : 0][o.a[4]].rows; return q < (int)o.rows.size() ? o.rows[q] : none; }
  bool unclear = false;
  static int lim(const MB &b) { return b.st == 2 && b.e ? b.e->lmax : 0; }
  bool conv_legal(const MC &c, const RankM &m, int api, std::string *why) {
    const MB &sk = m.s[api][c.s], &be = m.b[api][c.b];
    if ((sk.st != 1 && sk.st != 2) || (be.st != 1 && be.st != 2)) { ill("convolver uses an object in an unknown state"); return false; }
    if (sk.st == 1 || be.st == 1) { *why = "an expansion was never read"; return false; }
    if (c.lmax < 1) { *why = "band limit below 1"; return false; }
    if (c.order < 0) { *why = "negative interpolation order"; return false; }
    if (c.lmax > sk.e->lmax || c.lmax > be.e->lmax) { *why = "lmax exceeds an expansion"; return false; }
    unclear = std::min(c.mmax, c.lmax) <= be.e->mmax;      // mmax in force is at most lmax
    if (c.mmax > be.e->mmax) { *why = "mmax exceeds the beam"; return false; }
    if (c.pol && (!sk.e->pol || !be.e->pol)) { *why = "polarisation of an unpolarised expansion"; return false; }
    return true;
  }
  void group(const Op &o, int i, const std::vector<int> &grp) {
    int api = o.capi ? 1 : 0, x = o.a[0]; bool faulty = fault_in(s, i);
    if (o.kind != OP_WRITE && o.kind != OP_READALM && (x < 0 || x >= NS) && o.kind != OP_LAYER && o.kind != OP_ROT && o.kind != OP_RISBO && o.kind != OP_FITSW && o.kind != OP_FITSR) return ill("slot");
    int expect = E_OK; bool uniform = false; std::string why;
    RankM &R0 = R[grp[0]];
    // expectation (identical on all ranks of the group by construction of the scenarios)
    switch (o.kind) {
      case OP_READ_BEAM: case OP_READ_SKY: {
        uniform = true; if (o.a[1] < 0 || o.a[1] >= (int)s.files.size()) return ill("file"); const FileSpec &f = s.files[o.a[1]]; int fs = file_status(f, o.a[4]);
        if (fs == 1) expect = E_FAIL, why = "the file is unusable"; else if (fs == 2) expect = E_EITHER;
        if (o.kind == OP_READ_BEAM) { if (f.lmax + flim(f) < o.a[2]) expect = E_FAIL, why = "lmax exceeds the file"; if (f.mmax + flim(f) < o.a[3]) expect = E_FAIL, why = "mmax exceeds the file"; }
        else { int L = o.a[2] > 0 ? o.a[2] : f.lmax + flim(f); if (f.lmax + flim(f) < o.a[2] || f.mmax + flim(f) < L) expect = E_FAIL, why = "the limits exceed the file"; }
        for (int q : grp) { MB &m = o.kind == OP_READ_BEAM ? R[q].b[api][x] : R[q].s[api][x]; if (o.a[5] && !api) { if (refd(R[q], api, o.kind == OP_READ_BEAM ? 'b' : 's', x)) return ill("object in use"); } else if (!m.st) return ill("read into missing object"); }
        break; }
      case OP_CONV: {
        const MB &sk = R0.s[api][o.a[1]], &be = R0.b[api][o.a[2]];
        if (!sk.st || !be.st || sk.st == 3 || be.st == 3 || !R0.d[api][o.a[3]].st) return ill("convolver over missing objects");
        MC c; c.s = o.a[1]; c.b = o.a[2]; c.pol = o.a[4]; c.lmax = o.a[5] < 0 ? std::min(lim(sk), lim(be)) : o.a[5]; c.mmax = o.a[6] < 0 ? be.st == 2 ? be.e->mmax : 0 : o.a[6]; c.order = o.a[7];
        if (!conv_legal(c, R0, api, &why)) expect = E_EITHER; uniform = true; break; }
      case OP_CONVOLVE: {
        uniform = true; const MC &c = R0.c[api][x]; if (o.a[3]) for (int q : grp) if (!R[q].p[api][o.a[4]].have || R[q].p[api][o.a[4]].lost) return ill("no pointing to reuse");
        if (!c.st) { if (c.bad) { expect = E_EITHER; break; } return ill("no convolver"); }
        if (!R0.d[api][c.d].st) return ill("no detector");
        if (!conv_legal(c, R0, api, &why)) expect = why[0] == 'm' && unclear ? E_EITHER : E_FAIL; if (!bad.empty()) return;
        if (bad_angles(o, i, grp)) expect = E_FAIL, why = "illegal angle";
        break; }
      case OP_DUMPB: if (o.a[8]) { for (int q : grp) if (R[q].b[api][x].st != 2) return; } [[fallthrough]];
      case OP_NORM: for (int q : grp) if (R[q].b[api][x].st != 2) return ill("beam not read"); break;
      case OP_DUMPS: if (o.a[8]) { for (int q : grp) if (R[q].s[api][x].st != 2) return; } for (int q : grp) if (R[q].s[api][x].st != 2) return ill("sky not read"); break;
      case OP_MONO: case OP_DIPO: for (int q : grp) { int t = R[q].s[api][x].st; if (t != 1 && t != 2) return ill("sky missing"); if (t == 1) expect = E_EITHER; } break;
      case OP_SETDATA: for (int q : grp) if ((o.a[1] ? R[q].b : R[q].s)[api][x].st != 2) return ill("expansion not read"); break;
      case OP_DET: case OP_DUMPD: for (int q : grp) if (!R[q].d[api][x].st) return ill("no detector"); break;
      case OP_SETSKY: for (int q : grp) { if (!R[q].c[api][x].st && !R[q].c[api][x].bad) return ill("no convolver"); { int t = R[q].s[api][o.a[1]].st; if (t != 1 && t != 2) return ill("sky missing"); } } break;
      case OP_SETBEAM: for (int q : grp) { if (!R[q].c[api][x].st && !R[q].c[api][x].bad) return ill("no convolver"); { int t = R[q].b[api][o.a[1]].st; if (t != 1 && t != 2) return ill("beam missing"); } } break;
      case OP_SETDET: for (int q : grp) { if (!R[q].c[api][x].st && !R[q].c[api][x].bad) return ill("no convolver"); if (!R[q].d[api][o.a[1]].st) return ill("no detector"); } break;
      case OP_NEWBEAM: for (int q : grp) if (refd(R[q], api, 'b', x)) return ill("object in use"); break;
      case OP_NEWSKY: for (int q : grp) if (refd(R[q], api, 's', x)) return ill("object in use"); break;
      case OP_NEWDET: for (int q : grp) if (refd(R[q], api, 'd', x)) return ill("object in use"); break;
      case OP_READALM: if (o.a[6]) { const FileSpec &f = s.files[o.a[0]]; int fs = file_status(f, o.a[3]); if (fs) expect = fs == 1 ? E_FAIL : E_EITHER; } else { if (!wop.count(x)) return ill("read of a file not written"); if (wstat[x]) expect = E_EITHER; } break;
      case OP_FITSR: { int k = FITS0 + x; if (!wop.count(k) || wop[k].a[1] != o.a[1] || wop[k].a[2] != o.a[2] || wop[k].a[5] != o.a[5]) return ill("read of a FITS file not written"); if (wstat[k]) expect = E_EITHER; break; }
      case OP_FITSW: if (wop.count(FITS0 + x)) return ill("FITS file written twice"); break;
      default: break;
    }
    if (expect == E_FAIL) JS.fails_expected++; if (expect != E_OK) refusable = true;
    // observed outcomes
    std::vector<int> oc(grp.size(), 0); int nok = 0, nfail = 0, nmiss = 0;
    for (size_t k = 0; k < grp.size(); k++) {
      int c; if (dry) c = expect == E_OK ? OUT_OK : OUT_STDEXC; else { c = r->outcome(grp[k], i); if (c < 0 && (o.kind == OP_DUMPB || o.kind == OP_DUMPS || o.kind == OP_CENSUS)) c = r->get(grp[k], i, o.kind == OP_CENSUS ? OB_VAL : OB_ALM, 0) ? OUT_OK : -1; }
      oc[k] = c; if (c == OUT_OK) nok++; else if (c < 0) nmiss++; else nfail++;
    }
    JS.ops += grp.size();
    bool incomplete = !dry && nmiss > 0;
    bool fired = !dry && faulty && anyfired(); int exp2 = expect; if (fired && expect == E_OK) exp2 = E_EITHER;
    if (dry && faulty && expect == E_OK) exp2 = E_OK;
    if (!dry) for (size_t k = 0; k < grp.size(); k++) {
      int q = grp[k], c = oc[k]; if (c < 0 || R[q].stop) continue;
      if (c == OUT_ESCAPED) find(J_ESCAPE, q, i, std::string("an exception escaped from the C interface") + ": " + r->outmsg(q, i));
      if (c == OUT_SKIP && !(R[q].c[api][x].bad)) find(J_STATUS, q, i, "operation skipped");
      if (c == OUT_SKIP) continue;
      if (exp2 == E_OK && c != OUT_OK) find(J_STATUS, q, i, (o.kind == OP_READALM && !o.a[6] ? pre[x] : o.kind == OP_FITSR ? pre[FITS0 + x] : std::string()) + op_names[o.kind] + " failed though the request is legal: " + r->outmsg(q, i));
      if (exp2 == E_FAIL && c == OUT_OK) find(J_REFUSE, q, i, std::string(op_names[o.kind]) + " reported success although " + why);
    }
    if (!dry && uniform && !incomplete && nok && nfail && !(fired && s.errret)) {
      int f = 0, g = 0; for (size_t k = 0; k < grp.size(); k++) if (oc[k] == OUT_OK) f = grp[k]; else g = grp[k];
      bool alloc = false; for (auto &z : s.faults) if (z.kind == F_ALLOC) alloc = true;
      if (!alloc) find(J_UNIFORM, f, i, std::string(op_names[o.kind]) + " reported failure on rank " + std::to_string(g) + " (" + r->outmsg(g, i) + ") and success on rank " + std::to_string(f)); }
    // state and data
    for (size_t k = 0; k < grp.size(); k++) { int q = grp[k]; if (oc[k] < 0) { R[q].stop = true; } if (R[q].stop) continue; apply(o, i, q, grp, oc[k], expect); if (!bad.empty()) return; }
    if (!dry && o.kind == OP_DUMPB) same_dump(o, i, grp); if (!dry && o.kind == OP_DUMPS) same_dump(o, i, grp);
  }
  void same_dump(const Op &o, int i, const std::vector<int> &grp) {
    for (int aux = 0; aux < 3; aux++) { const Obs *a = r->get(grp[0], i, OB_ALM, aux); for (int q : grp) { const Obs *b = r->get(q, i, OB_ALM, aux); if (!a || !b) continue;
      if (a->d.size() != b->d.size() || (a->d.size() && memcmp(a->d.data(), b->d.data(), a->d.size() * 8))) find(J_UNIFORM, q, i, "ranks " + std::to_string(grp[0]) + " and " + std::to_string(q) + " hold different coefficients after the same read"); } }
  }
  std::string lost(int i) { static const char *w[] = {"", "storage error in the library's last flush: ", "storage error while cfitsio looks for a keyword: ", "seek error while cfitsio writes a buffer: ", "seek error while cfitsio reads a buffer: ", "read error while cfitsio moves blocks: "}; return !dry && i < (int)r->flushlost.size() && r->flushlost[i] < 6 ? w[r->flushlost[i]] : ""; }
  void apply(const Op &o, int i, int q, const std::vector<int> &grp, int c, int expect) {
    int api = o.capi ? 1 : 0, x = o.a[0]; RankM &m = R[q]; bool ok = c == OUT_OK; std::string w;
    switch (o.kind) {
      case OP_NEWBEAM: m.b[api][x] = MB(); m.b[api][x].st = ok ? 1 : 0; break;
      case OP_NEWSKY: m.s[api][x] = MB(); m.s[api][x].st = ok ? 1 : 0; break;
      case OP_NEWDET: m.d[api][x] = MD(); m.d[api][x].st = ok ? 1 : 0; m.d[api][x].id = o.a[1]; if (o.a[3]) m.d[api][x].eps = o.d[0]; m.d[api][x].len = !o.a[1] ? 0 : 3 + (int)std::to_string(o.a[1]).size() + (o.a[2] ? 1 + o.a[2] : 0); break;
      case OP_DET: m.d[api][x].eps = o.d[0]; break;
      case OP_DUMPD: if (!dry && ok) { const Obs *v = r->get(q, i, OB_VAL, 0); if (v) { if (v->d[0] != m.d[api][x].eps) find(J_STATE, q, i, "the detector's epsilon is " + std::to_string(v->d[0]) + " instead of " + std::to_string(m.d[api][x].eps));
          if ((int)v->d[1] != m.d[api][x].id) find(J_STATE, q, i, "the detector's id is wrong");
          if (v->d.size() > 2 && v->d[2] != m.d[api][x].len) find(J_STATE, q, i, v->d[2] < 0 ? "the detector's id of " + std::to_string(m.d[api][x].len) + " characters is written past the end of the buffer" : "the detector's id has " + std::to_string((int)v->d[2]) + " characters instead of " + std::to_string(m.d[api][x].len)); } } break;
      case OP_READ_BEAM: { MB &b = m.b[api][x]; if (o.a[5] && !api) b = MB(); const FileSpec &f = s.files[o.a[1]];
        if (!ok) { if (o.a[5] && !api) b = MB(); else if (mpifault(i)) b.st = 3, b.e = nullptr; break; }   // a failed read leaves the object as it was
        int L = o.a[2] > 0 ? o.a[2] : f.lmax + flim(f), M = o.a[3] > 0 ? std::min(o.a[3], L) : std::min(L, f.mmax + flim(f)); b.st = 2; b.norm = false; if (!expbad(f, L, M)) b.e = build_beam(f, L, M, o.a[4]); break; }
      case OP_READ_SKY: { MB &b = m.s[api][x]; if (o.a[5] && !api) b = MB(); const FileSpec &f = s.files[o.a[1]];
        if (!ok) { if (o.a[5] && !api) b = MB(); else if (mpifault(i)) b.st = 3, b.e = nullptr; break; }   // a failed read leaves the object as it was
        int L = o.a[2] > 0 ? o.a[2] : f.lmax + flim(f); b.st = 2; auto e = std::make_shared<Exp3>(*build_beam(f, L, L, o.a[4])); deconv(*e, o.d[0]); e->seal(); b.e = e; break; }
      case OP_SETDATA: { MB &b = o.a[1] ? m.b[api][x] : m.s[api][x]; if (!ok || !b.e) { if (b.st == 2) b.st = 3; break; } auto e = std::make_shared<Exp3>(*build_beam(setdata_spec(o.a[1], o.a[2], b.e->lmax, b.e->mmax), b.e->lmax, b.e->mmax, b.e->pol)); b.e = e; break; }
      case OP_NORM: { MB &b = m.b[api][x]; double sc = 1;
        if (!b.norm && ok) { sc = 1.0 / (2 * sqrt(M_PI) * b.e->c[0].at(0, 0).real()); auto e = std::make_shared<Exp3>(*b.e); for (int k = 0; k < (e->pol ? 3 : 1); k++) for (auto &z : e->c[k].v) z *= sc; e->exact = false; e->seal(); b.e = e; b.norm = true; }
        if (!dry && ok) { const Obs *v = r->get(q, i, OB_VAL, 0); if (v && (fabs(v->d[0] - sc) > 1e-5 * fabs(sc) || v->d[1] != 1)) find(J_STATE, q, i, "normalising the beam returned " + std::to_string(v->d[0]) + " instead of " + std::to_string(sc) + ", normalised flag " + std::to_string((int)v->d[1])); } break; }
      case OP_MONO: case OP_DIPO: { MB &b = m.s[api][x]; if (!b.e) break; auto e = std::make_shared<Exp3>(*b.e); if (o.kind == OP_MONO) e->c[0].at(0, 0) = 0; else if (e->lmax >= 1) { e->c[0].at(1, 0) = 0; e->c[0].at(1, 1) = 0; } e->seal(); b.e = e; break; }
      case OP_CONV: { MC &k = m.c[api][x]; k = MC(); if (!ok) { k.bad = true; break; } k.st = 1; k.s = o.a[1]; k.b = o.a[2]; k.d = o.a[3]; k.pol = o.a[4];
        k.lmax = o.a[5] < 0 ? std::min(lim(m.s[api][k.s]), lim(m.b[api][k.b])) : o.a[5]; k.mmax = o.a[6] < 0 ? m.b[api][k.b].st == 2 ? m.b[api][k.b].e->mmax : 0 : o.a[6]; k.order = o.a[7]; break; }
      case OP_SETSKY: if (ok) m.c[api][x].s = o.a[1]; break;
      case OP_SETBEAM: if (ok) m.c[api][x].b = o.a[1]; break;
      case OP_SETDET: if (ok) m.c[api][x].d = o.a[1]; break;
      case OP_DELCONV: m.c[api][x] = MC(); break;
      case OP_DELALL: { for (int a = 0; a < 2; a++) for (int z = 0; z < NS; z++) { m.b[a][z] = m.s[a][z] = MB(); m.d[a][z] = MD(); m.c[a][z] = MC(); m.p[a][z] = MP(); } break; }
      case OP_DUMPB: case OP_DUMPS: { if (dry || !ok) break; const MB &b = o.kind == OP_DUMPB ? m.b[api][x] : m.s[api][x]; if (!b.e) break; const Exp3 &e = *b.e;
        for (int k = 0; k < (e.pol ? 3 : 1); k++) if (!cmp_alm(r->get(q, i, OB_ALM, k), e.c[k], e.exact, w)) { find(J_ALM, q, i, std::string(o.kind == OP_DUMPB ? "beam " : "sky ") + "TGC"[k] + ": " + w); break; }
        if (!e.pol && r->get(q, i, OB_ALM, 1)) find(J_ALM, q, i, "polarised components of an expansion read without polarisation are handed out");
        const Obs *a = r->get(q, i, OB_INFO, 1), *b2 = r->get(q, i, OB_INFO, 2), *n = r->get(q, i, OB_INFO, 3);
        if (a && (int)a->d[0] != e.lmax) find(J_ALM, q, i, "lmax is reported as " + std::to_string((int)a->d[0]) + " instead of " + std::to_string(e.lmax));
        if (b2 && (int)b2->d[0] != e.mmax) find(J_ALM, q, i, "mmax is reported as " + std::to_string((int)b2->d[0]) + " instead of " + std::to_string(e.mmax));
        if (n && (n->d[0] != 0) != b.norm) find(J_STATE, q, i, "the beam's normalised flag is wrong"); break; }
      case OP_CONVOLVE: convolve(o, i, q, grp, c, expect); break;
      case OP_LAYER: break;
      case OP_ROT: { if (dry || !ok) break; int L = o.a[0];
        for (int k = 0; k < (o.a[1] ? 3 : 1); k++) { const Obs *b = r->get(q, i, OB_ALM, k); if (!b) continue; Coef in = mkalm_ref(k, L, L, o.a[2], 0, o.a[4]); std::vector<cd> ref = rotate_ref(in, o.d[0], o.d[1], o.d[2]);
          size_t z = 2; std::vector<double> nrm(L + 1, 0); for (int mm = 0; mm <= L; mm++) for (int l = mm; l <= L; l++) nrm[l] += (mm ? 2 : 1) * std::norm(in.at(l, mm));
          for (int mm = 0; mm <= L; mm++) for (int l = mm; l <= L; l++, z += 2) { double e = std::abs(cd(b->d[z], b->d[z + 1]) - ref[in.idx(l, mm)]), tol = (o.a[4] ? 1e-9 : 4e-6) * sqrt(nrm[l]) + 1e-30; JS.alms++;
            if (!(e <= tol)) { char t[240]; snprintf(t, sizeof t, "rotated coefficient %c(l=%d, m=%d) is %.9g%+.9gi instead of %.9g%+.9gi", "TGC"[k], l, mm, b->d[z], b->d[z + 1], ref[in.idx(l, mm)].real(), ref[in.idx(l, mm)].imag()); find(J_ROT, q, i, t); return; } } } break; }
      case OP_RISBO: { if (dry || !ok) break; const Obs *b = r->get(q, i, OB_ROT, 0); if (!b) break; int L = o.a[0]; double ang = o.a[1] >= 2 ? M_PI / 2 : o.d[0]; size_t z = 0;
        for (int l = 0; l <= L; l++) { if (l > 8 && l != L) continue; for (int a2 = 0; a2 <= l; a2++) for (int b2 = 0; b2 <= (o.a[1] >= 2 ? l : 2 * l); b2++) { if (z >= b->d.size()) { find(J_ROT, q, i, "too few rotation matrix elements"); return; } double g = b->d[z++], e = wigner_d(l, b2 - l, a2 - l, ang); 
          if (!(fabs(g - e) < 1e-11 * (1 + l))) { char t[200]; snprintf(t, sizeof t, "rotation matrix element d^%d[%d][%d] (variant %d, angle %.17g) is %.15g instead of %.15g", l, a2 - l, b2 - l, o.a[1], ang, g, e); find(J_ROT, q, i, t); return; } } } break; }
      case OP_FITSR: { int k = FITS0 + x; if (!dry && ok && !wstat[k]) { std::string t = r->outmsg(q, i); if (t.size()) find(J_FALSEOK, q, i, (pre[k].size() ? pre[k] : lost(i)) + "FITS file: " + t); } if (o.a[6] & 2) wop.erase(k); break; }
      case OP_WRITE: case OP_FITSW: { int key = o.kind == OP_FITSW ? FITS0 + x : x; wop[key] = o; wstat[key] = ok ? 0 : 1; pre[key] = lost(i); if (o.kind == OP_FITSW && !dry && ok) { std::string t = r->outmsg(q, i); if (t.size()) find(J_FALSEOK, q, i, pre[key] + "FITS file: " + t); } break; }
      case OP_READALM: { if (dry || !ok) break; bool t2 = o.a[7];
        for (int k = 0; k < (o.a[3] ? 3 : 1); k++) { Coef e; e.set(o.a[1], o.a[2]); int fl, fm;
          if (o.a[6]) { const FileSpec &f = s.files[x]; for (int mm = 0; mm <= e.M; mm++) for (int l = mm; l <= e.L; l++) { float a, b; alm_value(f, k, l, mm, a, b); e.at(l, mm) = cd(a, b); } fl = f.lmax; fm = f.mmax; }
          else { const Op &wo = wop[x]; if (wstat[x]) continue; Coef src = mkalm_ref(k, wo.a[1], wo.a[2], wo.a[5], wo.a[6], wo.a[7]); fl = -1; fm = -1;
            int WL = wo.a[1] + (int)wo.d[0], WM = wo.a[2] + (int)wo.d[1];
            for (int mm = 0; mm <= WM; mm++) for (int l = mm; l <= WL; l++) { cd v = l <= src.L && mm <= src.M ? src.at(l, mm) : cd(0, 0); double z = alm_tiny(wo.a[5], k, l, mm, wo.a[7]); v = wo.a[7] ? cd(v.real() * z, v.imag() * z) : cd((float)(v.real() * z), (float)(v.imag() * z)); if (v != cd(0, 0) || !(wo.a[6] && wo.a[8])) { fl = std::max(fl, l); fm = std::max(fm, mm); } if (mm > e.M || l > e.L) continue; double a = v.real(), b = v.imag(); if (!wo.a[4] || !t2) { a = (float)a; b = (float)b; } e.at(l, mm) = cd(a, b); } }
          if (!cmp_alm(r->get(q, i, OB_ALM, k), e, true, w)) { find(o.a[6] ? J_ALM : J_FALSEOK, q, i, (o.a[6] ? std::string() : pre[x]) + "read back " + "TGC"[k] + ": " + w); break; }
          if (o.a[3] == 0) { const Obs *a = r->get(q, i, OB_INFO, 1), *b = r->get(q, i, OB_INFO, 2); if (fl >= 0 && a && b && ((int)a->d[0] != fl || (int)b->d[0] != fm)) find(o.a[6] ? J_ALM : J_FALSEOK, q, i, (o.a[6] ? std::string() : pre[x]) + "the file's limits are reported as lmax " + std::to_string((int)a->d[0]) + " mmax " + std::to_string((int)b->d[0]) + " instead of " + std::to_string(fl) + ", " + std::to_string(fm)); }
        } break; }
      case OP_CENSUS: { if (dry) break; const Obs *v = r->get(q, i, OB_VAL, 0); if (!v) break; if (v->d[2] != 0) find(J_OPENF, q, i, std::to_string((int)v->d[2]) + " file(s) still open after the operations returned");
        auto &e = census[o.a[1]][q]; if (e.empty()) e = v->d; else if (v->d[0] > e[0] || v->d[1] > e[1]) find(J_CENSUS, q, i, "memory still allocated after the objects were destroyed grew from " + std::to_string((long)e[0]) + " blocks (" + std::to_string((long)e[1]) + " bytes) to " + std::to_string((long)v->d[0]) + " blocks (" + std::to_string((long)v->d[1]) + " bytes) over identical repetitions"); break; }
    }
  }
  bool expbad(const FileSpec &f, int L, int M) { return L > 5000 || L < 0; }
  void convolve(const Op &o, int i, int q, const std::vector<int> &grp, int c, int expect) {
    int api = o.capi ? 1 : 0, x = o.a[0]; RankM &m = R[q]; const MC &k = m.c[api][x]; std::vector<Row> rows = rows_of(o, q); MP &p = m.p[api][o.a[4]];
    if (!k.st && (dry || c == OUT_SKIP)) { if (!o.a[3]) p.have = false; return; } p.have = true; p.rows = rows; p.lost = false; if (dry) return; 
    const Obs *b = r->get(q, i, OB_ROWS, 0); char t[400];
    bool ok = c == OUT_OK; bool fault = fault_in(s, i);
    if (!b) { if (ok) find(J_ROWS, q, i, "no rows observed"); p.lost = true; return; }
    if (!ok && fault) { p.lost = true; return; }
    int cls = ok ? J_ROWS : J_INTACT;
    if (b->d.size() != 5 * rows.size()) { snprintf(t, sizeof t, "the pointing has %ld numbers instead of %ld rows after the call %s", (long)b->d.size(), (long)rows.size(), ok ? "succeeded" : "was refused"); find(cls, q, i, t); p.lost = true; return; }
    for (size_t n = 0; n < rows.size(); n++) { const double in[3] = {rows[n].phi, rows[n].theta, rows[n].psi}; if (memcmp(in, &b->d[5 * n], 24)) {
        snprintf(t, sizeof t, "row %ld of %ld comes back as (%.17g, %.17g, %.17g) instead of (%.17g, %.17g, %.17g) after the call %s", (long)n, (long)rows.size(), b->d[5 * n], b->d[5 * n + 1], b->d[5 * n + 2], in[0], in[1], in[2], ok ? "succeeded" : "was refused"); find(cls, q, i, t); p.lost = true; return; } }
    if (!ok || expect == E_FAIL) return;
    long off = 0; for (int z : grp) { if (z == q) break; off += rows_of(o, z).size(); }
    for (size_t n = 0; n < rows.size(); n++) if (b->d[5 * n + 4] != (double)(off + (long)n)) { snprintf(t, sizeof t, "the time column of row %ld holds %.17g instead of the running index %ld of its communicator", (long)n, b->d[5 * n + 4], off + (long)n); find(J_TIME, q, i, t); break; }
    const MB &sk = m.s[api][k.s], &be = m.b[api][k.b]; if (!k.st || !sk.e || !be.e) return;
    double fac = o.a[1] && !be.norm ? 2.0 / (1.0 + m.d[api][k.d].eps) : 1;
    bool told = false;
    for (size_t n = 0; n < rows.size(); n++) { double err, want, scl; bool cutoff; JS.rows++;
      bool good = value_ok(sk.e, be.e, k.pol, k.lmax, k.mmax, k.order, rows[n], fac, b->d[5 * n + 3], err, want, scl, cutoff); r->scale[ok_(q, i)].push_back(scl); if (good && err > JS.maxrel) JS.maxrel = err;
      if (cutoff) { JS.polar++; r->polar++; if (!told) { told = true; snprintf(t, sizeof t, "polar Wigner cut-off: value of row %ld (phi %.17g, theta %.17g, psi %.17g): signal %.12g instead of %.12g", (long)n, rows[n].phi, rows[n].theta, rows[n].psi, b->d[5 * n + 3], want); find(J_POLAR, q, i, t); } }
      if (!good) { snprintf(t, sizeof t, "value of row %ld (phi %.17g, theta %.17g, psi %.17g): signal %.12g instead of %.12g", (long)n, rows[n].phi, rows[n].theta, rows[n].psi, b->d[5 * n + 3], want); find(J_VAL, q, i, t); break; } }
  }
};
bool wellformed(const Scenario &s, std::string *why) { Interp I(s, nullptr); I.run(); if (why) *why = I.bad; return I.bad.empty(); }
std::vector<Finding> judge(const Scenario &s, const RunOut &r) {
  Interp I(s, &r); I.run();
  std::vector<Finding> out;
  if (r.vkind) { int cls = J_COMPLETE;
    switch (r.vkind) { case V_DEADLOCK: case V_STEPS: case V_WALL: cls = J_COMPLETE; break; case V_MISMATCH: case V_UNDELIVERED: case V_BADMPI: cls = J_COMM; break; case V_HEAP: cls = J_MEM; break; case V_RACE: cls = J_RACE; break;
      case V_TERMINATE: case V_ABORT: case V_EXIT: cls = J_STOP; break; case V_CRASH: cls = J_STOP | J_MEM; break; case V_ORACLE: cls = J_LAYER; break; case V_HARNESS: cls = 0; break; }
    out.push_back({cls, -1, -1, std::string(vkind_names[r.vkind]) + ": " + r.vmsg}); }
  if (!I.ranbad.empty()) { std::string why; bool clean = !r.vkind && !r.aborted && I.F.empty() && !I.anyfired(); if (clean || !wellformed(s, &why)) out.push_back({0, -1, -1, "scenario not well formed: " + I.ranbad + " " + why}); }
  if (!r.vkind && !r.aborted) for (int q = 0; q < s.nranks; q++) if (I.R[q].stop) { out.push_back({0, q, -1, "an operation of rank " + std::to_string(q) + " left no outcome"}); break; }
  for (auto &f : I.F) out.push_back(f);
  return out;
}
// no operation of the scenario may be refused (fault-free)
bool all_legal(const Scenario &s) {
  Interp I(s, nullptr); bool ok = true;
  struct R {};
  // an operation that fails or may fail marks its object unknown or missing: detect through the outcomes assumed in a dry run
  uint64_t before = JS.fails_expected; I.run(); ok = I.bad.empty() && JS.fails_expected == before && !I.refusable; return ok;
}
