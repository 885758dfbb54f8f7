// Seeded generation of scenarios per property.
#include "gen.h"
#include "rt.h"
#include <math.h>
#include <errno.h>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <string.h>

struct G {
  uint64_t s; G(uint64_t x) : s(mix64(x)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool p(int pct) { return (int)(next() % 100) < pct; }
  double u() { return u01(next()); }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
};
struct Opt { int minr = 1, maxr = 6, maxl = 16, maxorder = 9, rows = 60, pol = 35, capi = 0, threads = 1, calls = 2, verb = 10, bigl = 0, hugel = 0; bool dumps = false, legalonly = true; };
struct Conf { int skyf, beamf, lmax, mmax, order, pol, lsky, lbeam, mbeam; };

static int lmax_pick(G &g, int mx) { int v = g.p(70) ? g.pick({1, 2, 3, 4, 5, 6, 7, 8, 10, 12}) : g.in(1, mx); return std::min(v, mx); }
static double ulps(double x, int n) { while (n > 0) { x = nextafter(x, 1e300); n--; } while (n < 0) { x = nextafter(x, -1e300); n++; } return x; }
static double theta_pick(G &g, int lmax, int order) {
  double t;
  switch (g.in(0, 11)) {
    case 0: t = 0; break; case 1: t = M_PI; break; case 2: t = M_PI / 2; break; case 3: t = ulps(M_PI / 2, g.in(-2, 2)); break;
    case 4: t = g.p(50) ? g.u() * 1e-6 : M_PI - g.u() * 1e-6; break;
    case 5: t = M_PI * g.in(0, lmax + 1) / (lmax + 1); if (g.p(50)) t = ulps(t, g.in(-2, 2)); break;
    case 6: t = M_PI / 2 + (g.u() - .5) * 4e-5; break;
    case 7: t = (M_PI / 2) * g.in(0, 100000) / 100000; break;
    case 8: t = g.u() < .5 ? -0.0 : 0.0; break;
    default: t = acos(1 - 2 * g.u());
  }
  if (order == 0 && g.p(90)) t = acos(1 - 2 * g.u());
  if (t < 0) t = -0.0 * 0; if (t > M_PI) t = M_PI; return t;
}
static double phi_pick(G &g, int lmax) {
  int n = 2 * lmax + 1;
  switch (g.in(0, 9)) {
    case 0: return g.pick({0.0, M_PI, 2 * M_PI, -M_PI, M_PI / 2, -2 * M_PI, 4 * M_PI, -0.0, -3 * M_PI / 2});
    case 1: return ulps(M_PI / 2, g.in(-3, 3)); case 2: return 2 * M_PI * g.in(-n, 2 * n) / n + M_PI / 2;
    case 3: return (g.u() - .5) * 100; case 4: return (g.u() - .5) * 2e4; case 5: return ulps(g.pick({2 * M_PI, M_PI, 0.0, 2.5 * M_PI, -1.5 * M_PI}), g.in(-2, 2));
    default: return g.u() * 2 * M_PI;
  }
}
static double psi_pick(G &g) { switch (g.in(0, 5)) { case 0: return g.pick({0.0, M_PI, -M_PI, M_PI / 2, 2 * M_PI, -M_PI / 2}); case 1: return (g.u() - .5) * 200; default: return g.u() * 2 * M_PI; } }
static std::vector<std::vector<Row>> make_rows(G &g, int nranks, int lmax, int order, int maxrows) {
  std::vector<std::vector<Row>> R(nranks); int style = g.in(0, 9); double fixt = theta_pick(g, lmax, order); std::vector<Row> pool; int total = maxrows < 0 ? -maxrows - g.in(0, -maxrows / 8) : 1 + (int)(pow(g.u(), 1.7) * maxrows);
  double lo = g.u() * M_PI, hi = lo + g.u() * .3;
  for (int i = 0; i < total; i++) {
    Row r; if (!pool.empty() && g.p(style == 1 ? 60 : 10)) { r = pool[g.in(0, pool.size() - 1)]; if (g.p(40)) r.psi = psi_pick(g); if (g.p(30)) r.phi = phi_pick(g, lmax);
      if (g.p(25)) { double e = pow(10, -12 + 10 * g.u()) * (g.p(50) ? 1 : -1); switch (g.in(0, 2)) { case 0: r.theta = std::min(M_PI, std::max(0.0, r.theta + e)); break; case 1: r.phi += e; break; default: r.psi += e; } } }   // almost, but not quite, the same row
    else { r.theta = style == 2 ? fixt : style == 3 ? std::min(M_PI, lo + (hi - lo) * g.u()) : theta_pick(g, lmax, order); r.phi = phi_pick(g, lmax); r.psi = psi_pick(g);
      if (style == 4) r.theta = r.theta > M_PI / 2 ? M_PI - r.theta : r.theta; if (style == 5) r.theta = r.theta < M_PI / 2 ? M_PI - r.theta : r.theta; if (r.theta > M_PI) r.theta = M_PI; }
    pool.push_back(r);
  }
  if (g.p(20)) std::sort(pool.begin(), pool.end(), [](const Row &a, const Row &b) { return a.theta < b.theta; });
  int dist = g.in(0, 5); int only = g.in(0, nranks - 1); std::vector<int> empty(nranks, 0); for (int q = 0; q < nranks; q++) if (g.p(dist == 1 ? 50 : 15)) empty[q] = 1; empty[only] = 0;
  for (size_t i = 0; i < pool.size(); i++) { int q = dist == 0 ? only : dist == 2 ? (int)(i * nranks / pool.size()) : g.in(0, nranks - 1); if (dist != 2 && empty[q]) q = only; R[q].push_back(pool[i]); }
  if (g.p(2)) for (auto &x : R) x.clear();      // nobody has samples
  return R;
}
static int add_file(Scenario &s, const FileSpec &f) { s.files.push_back(f); return s.files.size() - 1; }
static FileSpec mkfile(G &g, int lmax, int mmax, int pol, int beam) {
  FileSpec f; f.lmax = lmax; f.mmax = mmax; f.pol = pol; f.isbeam = beam; f.order = g.in(0, 3); f.coltype = g.p(40); f.keys = g.p(70) ? 1 : g.pick({0, 0, 0, 2, 3}); f.drop = g.p(30) ? g.in(1, 70) : 0; f.seed = g.next() % 1000000007; f.scale = g.pick({1.0, 1.0, 1e-3, 30.0});
  if (g.p(25)) f.lay = g.in(0, 2) + 3 * g.in(0, 2) + 9 * g.in(0, 1) + 18 * (g.p(50) ? 0 : g.in(1, 12)); return f;
}
static Op mk(int kind, int capi, std::initializer_list<int> a = {}, int comm = 0, int color = -1) { Op o; o.kind = kind; o.capi = capi; o.comm = comm; o.color = color; int k = 0; for (int x : a) o.a[k++] = x; return o; }
static void env(G &g, Scenario &s, int threads) {
  s.policy = g.in(0, 7); s.victim = g.in(0, s.nranks - 1); s.sticky = g.pick({1, 3, 8, 30}); s.junk = g.in(1, 3); s.clock = g.p(30) ? g.in(1, 2) : 0; s.shortio = g.p(25); s.schedseed = g.next(); s.envseed = g.next();
  s.threads.assign(s.nranks, 1); if (threads > 1) { for (auto &t : s.threads) t = g.in(1, threads); s.shrink = g.p(10) + (g.p(20) ? 2 : 0); s.preempt = g.p(60) ? g.pick({6, 9, 12, 15}) : 0; }
}
static Conf conf(G &g, Scenario &s, const Opt &o) {
  Conf c; c.lmax = o.bigl && g.p(o.bigl) ? (o.hugel ? g.in(100, 300) : g.in(30, 64)) : lmax_pick(g, o.maxl); c.pol = g.p(o.pol); c.lsky = c.lmax + (g.p(30) ? g.in(1, 4) : 0); c.lbeam = c.lmax + (g.p(30) ? g.in(1, 4) : 0);
  c.mbeam = std::min(c.lbeam, g.p(20) && c.lbeam < 20 ? c.lbeam : g.in(0, std::min(c.lbeam, 9))); if (c.lbeam > 30) c.mbeam = std::min(c.mbeam, c.lbeam > 64 ? 2 : 5); c.mmax = g.p(25) ? -1 : g.p(50) ? c.mbeam : g.in(0, c.mbeam); c.order = g.p(85) ? g.in(1, o.maxorder) : g.p(30) ? 0 : g.in(1, 13);
  int xs = g.p(40) ? g.in(0, 4) : 0, xb = g.p(40) ? g.in(0, 4) : 0; bool sp = c.pol || g.p(15), bp = c.pol || g.p(15);
  c.skyf = add_file(s, mkfile(g, c.lsky + xs, c.lsky + xs, sp, 0)); c.beamf = add_file(s, mkfile(g, c.lbeam + xb, std::min(c.lbeam + xb, c.mbeam + (g.p(40) ? g.in(0, 3) : 0)), bp, 1)); return c;
}
static void read_sky(G &g, Scenario &s, int slot, int file, int L, int pol, int capi, int comm = 0, int color = -1, bool ctor = true, double fw = -1) {
  bool ct = ctor && !capi && g.p(30); if (!ct) s.ops.push_back(mk(OP_NEWSKY, capi, {slot}, comm, color));
  Op o = mk(OP_READ_SKY, capi, {slot, file, L == s.files[file].lmax && g.p(50) ? (g.p(50) ? 0 : -1) : L, 0, pol, ct}, comm, color); o.d[0] = fw >= 0 ? fw : g.p(35) ? g.u() * 600 / (s.files[file].lmax + 1) : 0; if (fw < 0 && g.p(10)) o.d[0] = -o.d[0]; s.ops.push_back(o);
}
static void read_beam(G &g, Scenario &s, int slot, int file, int L, int M, int pol, int capi, int comm = 0, int color = -1, bool ctor = true) {
  bool ct = ctor && !capi && g.p(30); if (!ct) s.ops.push_back(mk(OP_NEWBEAM, capi, {slot}, comm, color));
  const FileSpec &f = s.files[file]; int l = L == f.lmax && g.p(50) ? (g.p(50) ? 0 : -1) : L, m = M >= std::min(L, f.mmax) && g.p(50) ? (g.p(50) ? 0 : -1) : M;
  s.ops.push_back(mk(OP_READ_BEAM, capi, {slot, file, l, m, pol, ct}, comm, color));
}
static int beam_m(const Scenario &s, const Op &o) { const FileSpec &f = s.files[o.a[1]]; int L = o.a[2] > 0 ? o.a[2] : f.lmax; return o.a[3] > 0 ? std::min(o.a[3], L) : std::min(L, f.mmax); }
static int verb(G &g, const Opt &o) { return g.p(o.verb) ? g.pick({1, 2, 6}) : 0; }
static Op convolve(G &g, const Scenario &s, int slot, int capi, int pslot, int lmax, int order, int rows, int comm = 0, int color = -1) {
  Op o = mk(OP_CONVOLVE, capi, {slot, g.p(60), g.p(30), 0, pslot}, comm, color); o.rows = make_rows(g, s.nranks, lmax, order, rows); return o;
}
// one complete pipeline
static Conf pipeline(G &g, Scenario &s, const Opt &o, int slot = 0, int comm = 0, int color = -1) {
  int capi = o.capi == 2 ? g.p(50) : o.capi; Conf c = conf(g, s, o);
  read_sky(g, s, slot, c.skyf, c.lsky, c.pol || (s.files[c.skyf].pol && g.p(30)), capi, comm, color);
  read_beam(g, s, slot, c.beamf, c.lbeam, c.mbeam, c.pol || (s.files[c.beamf].pol && g.p(30)), capi, comm, color);
  int bm = beam_m(s, s.ops.back()); if (c.mmax > bm) c.mmax = bm;
  if (o.dumps) { s.ops.push_back(mk(OP_DUMPS, capi, {slot}, comm, color)); s.ops.push_back(mk(OP_DUMPB, capi, {slot}, comm, color)); }
  if (g.p(25)) s.ops.push_back(mk(OP_NORM, capi, {slot}, comm, color));
  if (g.p(15)) s.ops.push_back(mk(g.p(50) ? OP_MONO : OP_DIPO, capi, {slot}, comm, color));
  if (g.p(10)) { int b = g.p(50); s.ops.push_back(mk(OP_SETDATA, capi, {slot, b, (int)(g.next() % 1000000)}, comm, color)); if (o.dumps) s.ops.push_back(mk(b ? OP_DUMPB : OP_DUMPS, capi, {slot}, comm, color)); if (b && g.p(30)) s.ops.push_back(mk(OP_NORM, capi, {slot}, comm, color)); }
  s.ops.push_back(mk(OP_NEWDET, capi, {slot, g.in(0, 99), g.p(80) ? 0 : g.p(50) ? g.in(1, 100) : g.in(900, 3000)}, comm, color)); if (g.p(30)) { s.ops.back().a[3] = 1; s.ops.back().d[0] = g.u(); } if (g.p(70)) { Op d = mk(OP_DET, capi, {slot}, comm, color); d.d[0] = g.u(); s.ops.push_back(d); }
  int cl = c.lmax == std::min(c.lsky, c.lbeam) && g.p(40) ? -1 : c.lmax;
  s.ops.push_back(mk(OP_CONV, capi, {slot, slot, slot, slot, c.pol, cl, c.mmax, c.order, verb(g, o)}, comm, color));
  int n = g.in(1, o.calls); for (int i = 0; i < n; i++) { Op v = convolve(g, s, slot, capi, slot, c.lmax, c.order, i ? o.rows / 2 : o.rows, comm, color); if (i && g.p(20)) { v.a[3] = 1; v.rows.clear(); } s.ops.push_back(v); }
  return c;
}
static Scenario base(G &g, const Opt &o) { Scenario s; s.nranks = g.p(18) ? 1 : g.in(std::max(1, o.minr), o.maxr); if (o.maxr >= 5 && g.p(1)) s.nranks = g.in(13, 40); s.comms.push_back(CommSpec()); env(g, s, o.threads); return s; }

// ---------------------------------------------------------------- histories (C15)
static void history(G &g, Scenario &s, const Opt &o, int steps, bool illegal) {
  int capi = o.capi == 2 ? g.p(50) : o.capi; int nf = g.in(2, 4); std::vector<int> sk, be; int L = g.in(2, std::min(o.maxl, 10));
  for (int i = 0; i < nf; i++) { int l = L + g.in(0, 3); sk.push_back(add_file(s, mkfile(g, l, l, g.p(50), 0))); l = L + g.in(0, 3); be.push_back(add_file(s, mkfile(g, l, std::min(l, g.in(0, 5)), g.p(50), 1))); }
  s.ops.push_back(mk(OP_NEWDET, capi, {0})); s.ops.push_back(mk(OP_NEWDET, capi, {1, g.p(40) ? 0 : 7, g.p(80) ? 0 : g.in(900, 3000), g.p(50)})); s.ops.back().d[0] = g.u();
  for (int k = 0; k < 2; k++) { s.ops.push_back(mk(OP_NEWSKY, capi, {k})); s.ops.push_back(mk(OP_NEWBEAM, capi, {k})); }
  read_sky(g, s, 0, sk[0], L, s.files[sk[0]].pol, capi, 0, -1, false); read_beam(g, s, 0, be[0], L, -1, s.files[be[0]].pol, capi, 0, -1, false);
  bool ptr[2] = {false, false}; std::vector<char> have(2, 0); int lastrows = -1; (void)lastrows; (void)ptr;
  for (int t = 0; t < steps; t++) {
    Scenario save = s; int k = g.in(0, 1), z = g.in(0, 1);
    switch (g.in(0, 21)) {
      case 21: { // the smallest expansions: what there is of a monopole and a dipole is removed
        int l = g.in(0, 1), b = g.p(30), f = add_file(s, mkfile(g, l, l, g.p(40), b)); s.ops.push_back(mk(b ? OP_NEWBEAM : OP_NEWSKY, capi, {4})); s.ops.push_back(mk(b ? OP_READ_BEAM : OP_READ_SKY, capi, {4, f, 0, 0, s.files[f].pol && g.p(60)}));
        s.ops.push_back(b ? mk(OP_NORM, capi, {4}) : mk(g.p(50) ? OP_MONO : OP_DIPO, capi, {4})); s.ops.push_back(mk(b ? OP_DUMPB : OP_DUMPS, capi, {4})); break; }
      case 20: s.ops.push_back(mk(OP_SETDATA, capi, {k, z, (int)(g.next() % 1000000)})); break;
      case 0: case 1: { int f = sk[g.in(0, nf - 1)]; int l = illegal && g.p(15) ? g.in(1, L) : L + g.in(0, s.files[f].lmax - L); Op x = mk(OP_READ_SKY, capi, {k, f, g.p(30) ? 0 : l, 0, s.files[f].pol && g.p(80)}); x.d[0] = g.p(40) ? g.u() * 100 : 0; if (illegal && g.p(15)) x.a[2] = s.files[f].lmax + g.in(1, 4); s.ops.push_back(x); break; }
      case 2: case 3: { int f = be[g.in(0, nf - 1)]; s.ops.push_back(mk(OP_READ_BEAM, capi, {k, f, g.p(30) ? 0 : L, g.p(60) ? 0 : s.files[f].mmax, s.files[f].pol && g.p(80)})); if (illegal && g.p(15)) s.ops.back().a[g.in(2, 3)] = s.files[f].lmax + g.in(1, 4); break; }
      case 4: s.ops.push_back(mk(OP_NORM, capi, {k})); break;
      case 5: s.ops.push_back(mk(OP_MONO, capi, {k})); break;
      case 6: s.ops.push_back(mk(OP_DIPO, capi, {k})); break;
      case 7: { Op x = mk(OP_DET, capi, {k}); x.d[0] = g.u(); s.ops.push_back(x); break; }
      case 8: s.ops.push_back(mk(OP_CONV, capi, {z, k, g.in(0, 1), g.in(0, 1), g.p(40), g.p(40) ? -1 : g.in(1, L), g.p(50) ? -1 : g.in(0, 5), g.in(1, o.maxorder), verb(g, o)})); break;
      case 9: s.ops.push_back(mk(OP_SETSKY, capi, {z, k})); break;
      case 10: s.ops.push_back(mk(OP_SETBEAM, capi, {z, k})); break;
      case 11: s.ops.push_back(mk(OP_SETDET, capi, {z, k})); break;
      case 12: s.ops.push_back(mk(OP_DUMPB, capi, {k})); break;
      case 13: s.ops.push_back(mk(OP_DUMPS, capi, {k})); break;
      case 14: s.ops.push_back(mk(OP_DUMPD, capi, {g.p(40) ? 1 : k})); break;
      case 15: if (g.p(30)) { s.ops.push_back(mk(OP_DELCONV, capi, {z})); break; } [[fallthrough]];
      default: { Op x = convolve(g, s, z, capi, g.in(0, 1), L, 3, o.rows); if (have[x.a[4]] && g.p(25)) { x.a[3] = 1; x.rows.clear(); } s.ops.push_back(x); break; }
    }
    // keep only steps that are meaningful (and, unless wanted, legal)
    uint64_t f0 = JS.fails_expected; bool ok = wellformed(s); if (ok && !illegal && JS.fails_expected != f0) { ok = false; }
    if (ok && !illegal) { // a construction that may be refused
      extern bool all_legal(const Scenario &); ok = all_legal(s); }
    if (!ok) s = save; else if (s.ops.back().kind == OP_CONVOLVE) have[s.ops.back().a[4]] = 1;
  }
}
// ---------------------------------------------------------------- reads
static void one_read(G &g, Scenario &s, bool beam, int capi, int slot, int fi, int comm = 0, int color = -1) {
  const FileSpec &f = s.files[fi];
  if (beam) { int L = g.p(40) ? g.pick({0, -1}) : g.in(std::min(1, f.lmax), f.lmax), lim = L > 0 ? L : f.lmax; s.ops.push_back(mk(OP_READ_BEAM, capi, {slot, fi, L, g.p(40) ? g.pick({0, -1}) : g.in(0, std::min(f.mmax, lim)), f.pol && g.p(80)}, comm, color)); }
  else { Op o = mk(OP_READ_SKY, capi, {slot, fi, g.p(40) ? g.pick({0, -1}) : g.in(std::min(1, f.lmax), f.lmax), 0, f.pol && g.p(80)}, comm, color); o.d[0] = g.p(35) ? g.u() * 500 / (f.lmax + 1) : 0; if (g.p(10)) o.d[0] = -o.d[0]; s.ops.push_back(o); }
}
// ---------------------------------------------------------------- groups (C06)
static int groups(G &g, Scenario &s, const Opt &o) {
  int style = g.in(0, 2); CommSpec sp; sp.kind = 2; int nc = g.in(2, 3); for (int q = 0; q < s.nranks; q++) { sp.color.push_back(g.p(8) ? -1 : g.in(0, nc - 1)); sp.key.push_back(g.p(50) ? g.in(0, 9) : q); }
  int c0 = -1; for (int c : sp.color) if (c >= 0) c0 = c; if (c0 < 0) { sp.color[0] = 0; c0 = 0; } s.comms.push_back(sp);
  CommSpec self; self.kind = 1; s.comms.push_back(self); CommSpec dup; dup.kind = 3; s.comms.push_back(dup);
  if (g.p(50)) { Opt p = o; p.calls = 1; p.rows = o.rows / 3; p.dumps = true; pipeline(g, s, p, 5, g.pick({0, 3})); }      // everyone together first
  if (g.p(30)) { // and several reads on different communicators
    int n = g.in(2, 4);
    for (int i = 0; i < n; i++) { int cm = g.in(0, 3), who = cm == 2 && g.p(50) ? g.in(0, s.nranks - 1) : -1, b = g.p(50), L = g.in(1, o.maxl), f = add_file(s, mkfile(g, L, b ? g.in(0, L) : L, g.p(40), b)); s.ops.push_back(mk(b ? OP_NEWBEAM : OP_NEWSKY, 0, {4}, cm, who)); one_read(g, s, b, 0, 4, f, cm, who); s.ops.push_back(mk(b ? OP_DUMPB : OP_DUMPS, 0, {4}, cm, who)); } }
  if (style == 0) { // disjoint groups, different workloads at the same time
    for (int c = 0; c < nc; c++) { if (std::find(sp.color.begin(), sp.color.end(), c) == sp.color.end()) continue; Opt p = o; p.calls = g.in(1, 2); pipeline(g, s, p, 0, 1, c); }
    return c0;
  } else if (style == 1) { // ranks working alone
    for (int q = 0; q < s.nranks; q++) if (g.p(60) || q == 0) { Opt p = o; p.calls = 1; p.rows = o.rows / 2; pipeline(g, s, p, 0, 2, q); } return -1;
  }
  int capi = o.capi == 2 ? g.p(50) : o.capi; Conf c = conf(g, s, o); int rc = g.pick({0, 0, 1, 3}); if (rc == 1) for (auto &x : s.comms[1].color) if (x < 0) x = 0;
  read_sky(g, s, 0, c.skyf, c.lsky, c.pol, capi, rc); read_beam(g, s, 0, c.beamf, c.lbeam, c.mbeam, c.pol, capi, g.pick({rc, 0})); int bm = beam_m(s, s.ops.back()); if (c.mmax > bm) c.mmax = bm;
  s.ops.push_back(mk(OP_NEWDET, capi, {0})); int order[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; i--) std::swap(order[i], order[g.in(0, i)]); std::vector<int> used; int n = g.in(2, 4);
  for (int i = 0; i < n; i++) { int cm = order[i]; s.ops.push_back(mk(OP_CONV, capi, {i, 0, 0, 0, c.pol, c.lmax, c.mmax, c.order, verb(g, o)}, cm)); used.push_back(cm); }
  for (int i = 0; i < n + 2; i++) { int k = g.in(0, n - 1); s.ops.push_back(convolve(g, s, k, capi, 0, c.lmax, c.order, o.rows / 2, used[k])); }
  return -1;
}
// ---------------------------------------------------------------- more reads
static void reads(G &g, Scenario &s, const Opt &o, int n) {
  int capi = o.capi == 2 ? g.p(50) : o.capi; s.ops.push_back(mk(OP_NEWBEAM, capi, {0})); s.ops.push_back(mk(OP_NEWSKY, capi, {0}));
  bool big = g.p(3);      // more rows than cfitsio transfers at once
  if (g.p(2)) {           // a beam of few orders up to the largest multipole
    int l = g.pick({4096, 5000, 20000, 46338}) - g.in(0, 99); FileSpec q = mkfile(g, l, g.in(0, 1), s.nranks < 4 && g.p(40), 1); q.drop = g.p(80) ? g.in(60, 99) : q.drop;
    if (g.p(40)) { q.diag = 1; q.mmax = l; q.order %= 3; }
    int f = add_file(s, q); one_read(g, s, true, capi, 0, f); if (q.diag) s.ops.back().a[3] = 1; s.ops.push_back(mk(OP_DUMPB, capi, {0})); n = 1; big = false;
  }
  for (int i = 0; i < n; i++) { bool b = g.p(50); int l = big ? g.in(139, 185) : g.p(8) ? g.in(30, 90) : g.p(5) ? 0 : g.in(1, o.maxl); int sm = !b && !big && l > 1 && g.p(15) ? g.in(1, l - 1) : l; int f = add_file(s, mkfile(g, l, b ? g.in(0, l) : sm, g.p(50), b)); one_read(g, s, b, capi, 0, f); if (sm < l && g.p(80)) s.ops.back().a[2] = g.in(1, sm); s.ops.push_back(mk(b ? OP_DUMPB : OP_DUMPS, capi, {0})); if (big) { big = false; s.files[f].drop /= 4; if (b) s.files[f].mmax = l; else s.ops[s.ops.size() - 2].d[0] /= 4; } }
}
static Fault disk_fault(G &g, int op) {
  Fault f; f.op = op; f.rank = -1; f.kind = g.pick({(int)F_DISK_OPEN, (int)F_DISK_READ, (int)F_DISK_READ, (int)F_DISK_EOF, (int)F_DISK_EOF, (int)F_DISK_SEEK, (int)F_DISK_CLOSE}); f.persist = g.p(30);
  f.nth = f.kind == F_DISK_OPEN ? g.in(0, 1) : f.kind == F_DISK_CLOSE ? g.in(0, 1) : (int)(pow(g.u(), 2) * 24); f.arg = f.kind == F_DISK_OPEN ? g.pick({(int)EACCES, (int)ENOENT, (int)EMFILE, (int)EIO}) : EIO; return f;
}
static void bad_reads(G &g, Scenario &s, const Opt &o, bool conv) {
  int capi = o.capi == 2 ? g.p(50) : o.capi; s.ops.push_back(mk(OP_NEWBEAM, capi, {0})); s.ops.push_back(mk(OP_NEWSKY, capi, {0})); int L = g.in(2, o.maxl); int n = g.in(1, 3);
  int gs = add_file(s, mkfile(g, L, L, 1, 0)), gb = add_file(s, mkfile(g, L, std::min(L, g.in(0, 5)), 1, 1));
  bool use = conv && g.p(50);
  if (use) { s.ops.push_back(mk(OP_READ_BEAM, capi, {0, gb, 0, 0, 1})); s.ops.push_back(mk(OP_READ_SKY, capi, {0, gs, 0, 0, 1})); s.ops.push_back(mk(OP_NEWDET, capi, {1})); s.ops.push_back(mk(OP_CONV, capi, {1, 0, 0, 1, g.p(50), L, -1, g.in(1, 5), 0})); }
  for (int i = 0; i < n; i++) {
    bool b = g.p(50); int pol = g.p(50);
    if (g.p(30)) { Op x = b ? mk(OP_READ_BEAM, capi, {0, gb, 0, 0, pol}) : mk(OP_READ_SKY, capi, {0, gs, 0, 0, pol}); s.ops.push_back(x); }
    switch (g.in(0, 5)) {
      case 0: case 1: case 2: { bool big = g.p(8); int f = g.p(50) && !big ? (b ? gb : gs) : add_file(s, mkfile(g, big ? g.in(139, 175) : L + g.in(0, 3), b ? L : L + 3, 1, b)); if (!b || big) s.files[f].mmax = s.files[f].lmax; one_read(g, s, b, capi, 0, f); s.ops.back().a[4] = pol; Fault ft = disk_fault(g, s.ops.size() - 1); if (big && g.p(70)) ft.nth *= 12; s.faults.push_back(ft); break; }
      case 3: { FileSpec f = mkfile(g, L, b ? std::min(L, 4) : L, g.p(60), b); f.corrupt = g.in(1, 10); if (g.p(20)) { f.corrupt = 0; f.missing = 1; } int fi = add_file(s, f); one_read(g, s, b, capi, 0, fi); if (f.corrupt == 6 || f.corrupt == 3 || f.corrupt == 10) { s.ops.back().a[2] = 0; s.ops.back().a[3] = 0; } break; }
      case 4: { FileSpec f = mkfile(g, L, b ? std::min(L, 4) : L, pol, b); f.trunc = g.in(0, 9900); if (g.p(5)) { f.lmax = f.mmax = g.in(139, 175); f.drop = 0; } int fi = add_file(s, f); one_read(g, s, b, capi, 0, fi); break; }
      default: { FileSpec f = mkfile(g, L, b ? std::min(L, g.in(0, 3)) : L - g.in(0, 1), pol, b); if (g.p(30)) { f.pol = 1; f.hdus = g.in(1, 2); } int fi = add_file(s, f); one_read(g, s, b, capi, 0, fi); Op &x = s.ops.back();
        if (f.hdus) x.a[4] = 1; else { int w = g.in(0, 2); if (w == 0 || !b) x.a[2] = f.lmax + g.in(1, 5); else x.a[3] = f.mmax + g.in(1, 5); } }
    }
    s.ops.push_back(mk(b ? OP_DUMPB : OP_DUMPS, capi, {0, 0, 0, 0, 0, 0, 0, 0, 1}));    // what was read if that was reported successful, otherwise what was there before
    if (use && g.p(60)) s.ops.push_back(convolve(g, s, 1, capi, g.in(0, 1), L, 3, 8));
    // re-read without the fault and look
    Op x = b ? mk(OP_READ_BEAM, capi, {0, gb, 0, 0, pol}) : mk(OP_READ_SKY, capi, {0, gs, 0, 0, pol}); if (!b && g.p(20)) x.d[0] = 20; s.ops.push_back(x); s.ops.push_back(mk(b ? OP_DUMPB : OP_DUMPS, capi, {0}));
  }
  if (conv) { Op x = mk(OP_READ_BEAM, capi, {0, gb, 0, 0, 1}); s.ops.push_back(x); s.ops.push_back(mk(OP_READ_SKY, capi, {0, gs, 0, 0, 1})); s.ops.push_back(mk(OP_NEWDET, capi, {0})); s.ops.push_back(mk(OP_CONV, capi, {0, 0, 0, 0, g.p(50), -1, -1, g.in(1, 5), 0})); s.ops.push_back(convolve(g, s, 0, capi, 0, L, 3, 10)); }
}
// ---------------------------------------------------------------- illegal requests (C09)
static double bad_theta(G &g) { return g.pick({ulps(M_PI, 1), -1e-300, -ulps(0, 1), 3.5, -0.1, 1e300, (double)NAN, (double)INFINITY, -(double)INFINITY, 2 * M_PI, -M_PI}); }
static void illegal_read(G &g, Scenario &s, int capi) {   // asks for more than the file holds, then for what it holds
  bool b = g.p(50); int L = g.in(1, 8), M = b ? g.in(0, L) : g.p(40) ? g.in(0, L - 1) : L; FileSpec f = mkfile(g, L, M, g.p(50), b); if (g.p(25)) { f.pol = 1; f.hdus = g.in(1, 2); } int fi = add_file(s, f);
  s.ops.push_back(mk(b ? OP_NEWBEAM : OP_NEWSKY, capi, {4})); Op x = mk(b ? OP_READ_BEAM : OP_READ_SKY, capi, {4, fi, g.pick({0, -1, L}), b ? g.pick({0, -1, M}) : 0, f.pol && !f.hdus && g.p(50)}); x.d[0] = b || g.p(60) ? 0 : g.u() * 60; Op y = x;
  if (f.hdus) y.a[4] = 1; else if (!b && M < L) x.a[2] = M; else if (g.p(20) && !f.pol) y.a[4] = 1; else if (b && g.p(50)) y.a[3] = M + g.in(1, 4); else y.a[2] = L + g.in(1, 5);
  if (!capi && g.p(30)) y.a[5] = 1; if (g.p(40)) s.ops.push_back(x); s.ops.push_back(y); if (y.a[5]) s.ops.push_back(mk(b ? OP_NEWBEAM : OP_NEWSKY, capi, {4})); if (g.p(60)) { s.ops.push_back(x); s.ops.push_back(mk(b ? OP_DUMPB : OP_DUMPS, capi, {4, 0, 0, 0, 0, 0, 0, 0, 1})); }
}
static void illegal(G &g, Scenario &s, const Opt &o) {
  int capi = o.capi == 2 ? g.p(50) : o.capi; Opt p = o; p.calls = 1; size_t at = s.ops.size(); (void)at; p.capi = capi; Conf c = pipeline(g, s, p); int n = g.in(1, 3); int lim = std::min(c.lsky, c.lbeam);
  for (int i = 0; i < n; i++) {
    switch (g.in(0, 10)) {
      case 7: case 8: illegal_read(g, s, capi); break;
      case 9: { // a re-read that is refused leaves the object under the convolver as it was
        bool sk = g.p(60); Op re; re.kind = OP_NONE; for (auto &x : s.ops) if (x.kind == (sk ? OP_READ_SKY : OP_READ_BEAM) && x.a[0] == 0) re = x; if (re.kind == OP_NONE) break; int fl = s.files[re.a[1]].lmax;
        if (g.p(50)) { FileSpec f = mkfile(g, fl + g.in(0, 4), sk ? g.in(0, fl) : 0, g.p(50), !sk); f.mmax = std::min(f.mmax, f.lmax); re.a[1] = add_file(s, f); } re.a[5] = 0; re.a[2] = g.pick({0, s.files[re.a[1]].lmax, s.files[re.a[1]].lmax + g.in(1, 4)}); if (!sk) re.a[3] = s.files[re.a[1]].mmax + g.in(1, 4); else if (s.files[re.a[1]].mmax >= s.files[re.a[1]].lmax) re.a[2] = s.files[re.a[1]].lmax + g.in(1, 4); else if (g.p(50)) re.a[2] = 0;
        s.ops.push_back(re); break; }
      case 10: { // a sky or beam that was never read
        bool sk = g.p(60); s.ops.push_back(mk(sk ? OP_NEWSKY : OP_NEWBEAM, capi, {5})); if (sk && g.p(30)) s.ops.push_back(mk(g.p(50) ? OP_MONO : OP_DIPO, capi, {5}));
        if (g.p(30)) s.ops.push_back(mk(OP_CONV, capi, {5, sk ? 5 : 0, sk ? 0 : 5, 0, c.pol && g.p(70), g.pick({-1, 0, c.lmax}), g.pick({-1, 0, c.mmax}), c.order, 0}));
        else s.ops.push_back(mk(sk ? OP_SETSKY : OP_SETBEAM, capi, {0, 5}));
        s.ops.push_back(convolve(g, s, 0, capi, 0, c.lmax, c.order, 15));
        if (g.p(60)) { Op re; re.kind = OP_NONE; for (auto &x : s.ops) if (x.kind == (sk ? OP_READ_SKY : OP_READ_BEAM) && x.a[0] == 0) re = x; if (re.kind != OP_NONE) { re.a[0] = 5; re.a[5] = 0; s.ops.push_back(re); if (g.p(50)) s.ops.push_back(convolve(g, s, 0, capi, 0, c.lmax, c.order, 15)); } }
        s.ops.push_back(mk(sk ? OP_SETSKY : OP_SETBEAM, capi, {0, 0})); break; }
      case 0: case 1: case 2: { Op v = convolve(g, s, 0, capi, g.in(0, 1), c.lmax, c.order, o.rows); int bad = g.in(1, 2);
        for (int k = 0; k < bad; k++) { int q = g.in(0, s.nranks - 1); if (v.rows[q].empty()) { Row r{1, 1, 1}; v.rows[q].push_back(r); } Row &r = v.rows[q][g.in(0, v.rows[q].size() - 1)];
          switch (g.in(0, 5)) { case 0: r.phi = g.pick({(double)NAN, (double)INFINITY, -(double)INFINITY}); break; case 1: r.psi = g.pick({(double)NAN, (double)INFINITY}); break; default: r.theta = bad_theta(g); } }
        s.ops.push_back(v); break; }
      case 3: { int w = g.in(0, 4); Op k = mk(OP_CONV, capi, {1, 0, 0, 0, c.pol, c.lmax, c.mmax, c.order, 0}); if (w == 0) k.a[5] = lim + g.in(1, 9); else if (w == 1) k.a[6] = c.lbeam + g.in(1, 4); else if (w == 3) k.a[5] = 0; else if (w == 4) k.a[7] = -g.in(1, 5); else { k.a[4] = 1; k.a[5] = -1; } s.ops.push_back(k); s.ops.push_back(convolve(g, s, 1, capi, 1, c.lmax, c.order, 12)); break; }
      case 4: { // a sky or beam of too small expansion put under an existing convolver
        bool sk = g.p(50); int l = g.p(10) ? 0 : g.in(1, std::max(1, c.lmax - 1)); int f = add_file(s, mkfile(g, l, sk ? l : std::min(l, g.in(0, 4)), c.pol, !sk)); if (sk) { read_sky(g, s, 2, f, l, c.pol, capi, 0, -1, false); s.ops.push_back(mk(OP_SETSKY, capi, {0, 2})); } else { read_beam(g, s, 2, f, l, std::min(l, s.files[f].mmax), c.pol, capi, 0, -1, false); s.ops.push_back(mk(OP_SETBEAM, capi, {0, 2})); }
        s.ops.push_back(convolve(g, s, 0, capi, 0, c.lmax, c.order, 15)); s.ops.push_back(mk(sk ? OP_SETSKY : OP_SETBEAM, capi, {0, 0})); break; }
      case 5: { // re-read with smaller limits under an existing convolver, then restored
        Op re; for (auto &x : s.ops) if (x.kind == OP_READ_SKY && x.a[0] == 0) re = x; if (c.lmax < 2) break; Op sm = re; sm.a[5] = 0; sm.a[2] = g.in(1, c.lmax - 1); s.ops.push_back(sm); s.ops.push_back(convolve(g, s, 0, capi, 0, c.lmax, c.order, 15)); re.a[5] = 0; s.ops.push_back(re); break; }
      default: { Op k = mk(OP_CONV, capi, {3, 0, 0, 0, c.pol, c.lmax, c.mmax, c.order, 0}); s.ops.push_back(k); break; }
    }
    Op v = convolve(g, s, 0, capi, g.in(0, 1), c.lmax, c.order, o.rows / 2); s.ops.push_back(v);
  }
}
static void layer(G &g, Scenario &s, int n) {
  CommSpec sp; sp.kind = 2; for (int q = 0; q < s.nranks; q++) { sp.color.push_back(g.in(0, 1)); sp.key.push_back(g.in(0, 9)); } s.comms.push_back(sp); CommSpec d; d.kind = 3; s.comms.push_back(d);
  for (int i = 0; i < n; i++) s.ops.push_back(mk(OP_LAYER, 0, {g.in(0, 25), g.in(0, 8), g.in(0, 20), g.p(8) ? g.in(200, 3000) : g.p(12) ? 0 : g.in(1, 20), g.in(0, 3), (int)(g.next() % 1000000)}, g.p(70) ? 0 : g.in(1, 2)));
}
static void rot(G &g, Scenario &s, int n, int maxl) {
  for (int i = 0; i < n; i++) {
    if (g.p(75)) { Op o = mk(OP_ROT, 0, {g.in(0, maxl), g.p(50), (int)(g.next() % 1000000), g.p(30), g.p(40)}); o.d[0] = psi_pick(g); o.d[1] = g.pick({0.0, M_PI, M_PI / 2, g.u() * M_PI, g.u() * M_PI, g.u() * 1e-5, -g.u() * M_PI, M_PI + g.u() * M_PI}); o.d[2] = psi_pick(g); if (o.a[3]) { o.a[3] = g.in(1, 6); o.d[1] = g.p(70) ? g.u() * M_PI : g.pick({0.0, M_PI, M_PI / 2, -g.u() * M_PI, M_PI + g.u() * M_PI}); } if (fabs(o.d[0]) > 20) o.d[0] = 1; if (fabs(o.d[2]) > 20) o.d[2] = 2; s.ops.push_back(o); }
    else { Op o = mk(OP_RISBO, 0, {g.in(0, maxl), g.in(0, 3)}); o.d[0] = g.pick({0.0, M_PI, M_PI / 2, g.u() * M_PI, g.u() * M_PI}); s.ops.push_back(o); }
  }
}
static void writes(G &g, Scenario &s, int n, bool faults) {
  CommSpec self; self.kind = 1; s.comms.push_back(self); int name = 0;
  for (int i = 0; i < n; i++) {
    int L = g.p(3) ? g.in(139, 190) : g.p(20) ? g.in(40, 110) : g.in(0, 16), M = g.p(50) ? L : g.in(0, L), pol = g.p(40), comp = g.p(30) ? g.in(1, 4) : 0; bool high = g.p(1); if (high) L = g.pick({4096, 5000, 20000, 46330}) - g.in(0, 99), M = g.in(0, 1), pol = 0; else if (comp && g.p(8)) L = g.in(190, 270), M = g.in(L / 2, L), pol = 0; int q = g.in(0, s.nranks - 1);
    Op o = mk(OP_WRITE, 0, {name, L, M, pol, g.p(50), (int)(g.next() % 1000000), comp, g.p(50), comp ? 1 : g.p(50)}, 1, q); s.ops.push_back(o); size_t wi = s.ops.size() - 1;
    if (faults && g.p(80)) { Fault f; f.op = wi; f.rank = -1; f.kind = g.pick({(int)F_DISK_WRITE, (int)F_DISK_WRITE, (int)F_DISK_CLOSE, (int)F_DISK_CAP, (int)F_DISK_CAP, (int)F_DISK_SHORTW, (int)F_DISK_OPEN, (int)F_DISK_SEEK}); f.persist = g.p(40);
      int bytes = 2880 * 3 + (L + 1) * (M + 1) * 12 * (pol ? 3 : 1); f.nth = f.kind == F_DISK_OPEN || f.kind == F_DISK_CLOSE ? 0 : (int)(pow(g.u(), 2) * 20); f.arg = f.kind == F_DISK_CAP ? (int)(g.u() * bytes * 1.2) : g.pick({(int)EIO, (int)ENOSPC}); s.faults.push_back(f); }
    Op &w = s.ops[wi]; if (g.p(20)) { int WL = comp ? g.in(0, L) : g.in(0, L + 4), WM = std::min(WL, comp ? g.in(0, M) : g.in(0, M + 4)); w.d[0] = WL - L; w.d[1] = WM - M; L = std::max(WL, 0); M = WM; }
    int rl = g.p(70) ? L : g.in(0, L), rm = std::min(rl, g.p(70) ? M : g.in(0, M)); s.ops.push_back(mk(OP_READALM, 0, {name, rl, rm, pol && g.p(90), 0, 0, 0, g.p(50)}, 1, q)); name++;
  }
}
static void fits(G &g, Scenario &s, int n, bool faults) {
  CommSpec self; self.kind = 1; s.comms.push_back(self); int name = 0, cm = s.comms.size() - 1; 
  for (int i = 0; i < n; i++) {
    int nh = g.p(15) ? g.in(3, 5) : g.in(1, 2), size = g.p(4) ? 20000 : g.p(20) ? g.in(100, 2000) : g.in(1, 40), seed = (int)(g.next() % 100000000), q = g.in(0, s.nranks - 1);
    if (size == 20000) nh = 1;
    s.ops.push_back(mk(OP_FITSW, 0, {name, nh, size, 0, 0, seed, g.in(0, 3) + (g.p(40) ? 4 : 0)}, cm, q)); size_t wi = s.ops.size() - 1;
    bool wf = faults && g.p(55);
    if (wf) { Fault f; f.op = wi; f.rank = -1; f.kind = g.pick({(int)F_DISK_WRITE, (int)F_DISK_WRITE, (int)F_DISK_CLOSE, (int)F_DISK_CAP, (int)F_DISK_CAP, (int)F_DISK_SHORTW, (int)F_DISK_OPEN, (int)F_DISK_SEEK, (int)F_DISK_READ}); f.persist = g.p(40);
      int bytes = 2880 * 3 * nh + size * nh * 30; f.nth = f.kind == F_DISK_OPEN || f.kind == F_DISK_CLOSE ? 0 : (int)(pow(g.u(), 2) * 30); f.arg = f.kind == F_DISK_CAP ? (int)(g.u() * bytes) : g.pick({(int)EIO, (int)ENOSPC}); s.faults.push_back(f); }
    int nr = g.in(1, 2);
    for (int k = 0; k < nr; k++) { s.ops.push_back(mk(OP_FITSR, 0, {name, nh, size, 0, 0, seed, (g.p(50) ? 1 : 0) + (k == nr - 1 && g.p(25) ? 2 : 0) + (g.p(50) ? 4 : 0), (int)(g.next() % 1000000)}, cm, q));
      if (faults && !wf && g.p(30)) { Fault f; f.op = s.ops.size() - 1; f.rank = -1; f.kind = g.pick({(int)F_DISK_READ, (int)F_DISK_READ, (int)F_DISK_EOF, (int)F_DISK_OPEN, (int)F_DISK_SEEK}); f.persist = g.p(40); f.nth = f.kind == F_DISK_OPEN ? g.in(0, 1) : (int)(pow(g.u(), 2) * 30); f.arg = (int)EIO; s.faults.push_back(f); } }
    name++;
  }
}
static void abort_on_fail(Scenario &s) { for (auto &o : s.ops) if (o.kind != OP_DUMPB && o.kind != OP_DUMPS && o.kind != OP_CENSUS) o.a[9] = 1; }
bool all_legal(const Scenario &s);

static void any_legal(G &g, Scenario &s, const Opt &o) {
  switch (g.in(0, 6)) { case 0: history(g, s, o, 14, false); break; case 1: if (s.nranks > 1) { groups(g, s, o); break; } [[fallthrough]]; case 2: reads(g, s, o, 3); [[fallthrough]]; default: pipeline(g, s, o); }
}
// the same program as far as the Python interface can express it: objects are read by their constructors, a convolver cannot be given
// other objects later (it is made anew)
static void pyify(Scenario &s) {
  std::vector<Op> n; std::vector<int> map(s.ops.size() + 1, -1); std::map<int, Op> conv; 
  auto drop = [&](const Op &o, int what) { for (auto it = conv.begin(); it != conv.end();) { if (it->second.a[what] != o.a[0]) { ++it; continue; } Op d = mk(OP_DELCONV, 0, {it->first}, it->second.comm, it->second.color); n.push_back(d); it = conv.erase(it); } };
  for (size_t i = 0; i < s.ops.size(); i++) {
    Op o = s.ops[i]; o.capi = 0;
    switch (o.kind) {
      case OP_NEWBEAM: case OP_NEWSKY: continue;
      case OP_READ_SKY: o.a[5] = 1; drop(o, 1); break; case OP_READ_BEAM: o.a[5] = 1; drop(o, 2); break; case OP_NEWDET: drop(o, 3); break;
      case OP_CONV: conv[o.a[0]] = o; break; case OP_DELCONV: conv.erase(o.a[0]); break; case OP_DELALL: conv.clear(); break;
      case OP_SETSKY: case OP_SETBEAM: case OP_SETDET: { auto it = conv.find(o.a[0]); if (it == conv.end()) continue; Op c = it->second; c.a[o.kind == OP_SETSKY ? 1 : o.kind == OP_SETBEAM ? 2 : 3] = o.a[1]; conv[o.a[0]] = c; o = c; break; }
      case OP_CONVOLVE: if (!conv.count(o.a[0])) continue; break;
    }
    map[i] = n.size(); n.push_back(o);
  }
  for (auto &f : s.faults) if (f.op >= 0) f.op = map[f.op];
  s.faults.erase(std::remove_if(s.faults.begin(), s.faults.end(), [](const Fault &f) { return f.op < 0; }), s.faults.end());
  s.ops = n;
}
static const char *props_[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C22", nullptr};
const char **props_list() { return props_; }

static Case gen1(const std::string &P, G &g, bool th) {
  Case c; c.prop = P; Opt o; if (th) { o.maxr = 9; o.maxl = 26; o.rows = 150; }
  Scenario s;
  // rarely: many rows (more than fit in 16 bits) at a small expansion, or a large expansion
  auto many = [&](int one_in) { if (g.in(0, one_in - 1) == 0) { o.maxl = std::min(o.maxl, 3); o.maxorder = 3; o.rows = -2500; o.bigl = 0; o.calls = 1; return true; } return false; };
  auto large = [&] { int w = g.in(0, 499); if (w == 0) { o.maxl = 2; o.maxorder = 2; o.rows = -70000; o.bigl = 0; o.calls = 1; } else if (w <= 2) { o.bigl = 100; o.hugel = 1; o.maxorder = 5; o.rows = 20; o.calls = 1; } else many(60); };
  if (P == "C01") { o.threads = g.p(25) ? 3 : 1; o.bigl = 3; if (g.p(4)) { o.maxorder = 16; o.maxl = 4; } o.rows = g.p(5) ? 600 : o.rows; o.capi = 2; o.pol = 45; large(); s = base(g, o); pipeline(g, s, o); c.runs = {s}; }
  else if (P == "C02") { o.rows = g.p(10) ? 800 : 120; o.maxl = 6; o.maxorder = 4; o.maxr = th ? 12 : 9; o.capi = 2; large(); s = base(g, o); pipeline(g, s, o); c.runs = {s}; }
  else if (P == "C03") {
    o.maxl = 12; o.rows = 80; o.calls = 1; o.capi = 2; large(); s = base(g, o); Conf k = pipeline(g, s, o); (void)k; Op &v = s.ops.back(); Scenario t = s; t.nranks = g.in(1, o.maxr); env(g, t, g.p(30) ? 3 : 1);
    std::vector<Row> all; for (auto &x : v.rows) for (auto &r : x) all.push_back(r); std::vector<Row> b; for (auto &r : all) { if (g.p(15)) continue; b.push_back(r); if (g.p(15)) b.push_back(r); }
    int extra = g.in(0, 30); auto er = make_rows(g, 1, 6, 1, extra + 1); for (auto &r : er[0]) b.push_back(r); for (size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[g.next() % i]);
    Op &w = t.ops.back(); w.rows.assign(t.nranks, {}); int mode = g.in(0, 2), one = g.in(0, t.nranks - 1); for (size_t i = 0; i < b.size(); i++) w.rows[mode == 0 ? one : mode == 1 ? g.in(0, t.nranks - 1) : (int)(i * t.nranks / b.size())].push_back(b[i]);
    c.runs = {s, t}; c.pair = PAIR_KEY; }
  else if (P == "C04") { o.maxr = th ? 12 : 9; o.threads = g.p(20) ? 2 : 1; o.capi = 2; o.verb = 25; o.maxl = 8; o.rows = 50; large(); s = base(g, o); any_legal(g, s, o); s.junk = 1; c.runs = {s}; }
  else if (P == "C05") { o.maxr = g.p(60) ? 1 : 3; o.maxl = 14; o.rows = 50; o.calls = g.p(30) ? 3 : 1; o.capi = 2; o.verb = 15; if (g.p(3)) { o.bigl = 100; o.rows = 15; o.calls = 1; } many(100); s = base(g, o); pipeline(g, s, o); Scenario t = s; env(g, t, 2); for (auto &x : t.threads) x = g.p(15) ? g.in(5, 9) : g.in(2, 4); t.shrink = g.p(10) + (o.calls > 1 || g.p(10) ? 2 : 0); t.preempt = g.p(85) ? g.pick({4, 7, 10, 13, 16}) : 0; t.race = 1; c.runs = {s, t}; c.pair = PAIR_NUM; }
  else if (P == "C06") { o.minr = 2; o.maxr = th ? 9 : 7; o.maxl = 8; o.rows = 40; o.capi = 2; o.verb = 20; many(100); s = base(g, o); if (s.nranks == 1) s.nranks = 2, env(g, s, 1); int col = groups(g, s, o); c.runs = {s};
    if (col >= 0) { Scenario t = s; env(g, t, 1); for (auto &x : t.ops) if (x.color != col) x.kind = OP_NONE; c.runs.push_back(t); c.pair = PAIR_GROUP; c.color = col; } }
  else if (P == "C07") { o.maxl = 20; o.capi = 2; s = base(g, o); reads(g, s, o, g.in(2, 5)); s.shortio = g.p(60); c.runs = {s}; }
  else if (P == "C08") { o.maxl = 12; o.capi = g.p(25); o.maxr = 5; s = base(g, o); bad_reads(g, s, o, g.p(30)); s.heap = 1; c.runs = {s}; }
  else if (P == "C09") { o.maxl = 8; o.rows = 30; o.maxr = 5; o.capi = g.p(25); s = base(g, o); if (g.p(75)) illegal(g, s, o); else history(g, s, o, 16, true); c.runs = {s}; }
  else if (P == "C10") { o.capi = 1; o.maxl = 8; o.rows = 25; o.maxr = 4; s = base(g, o); int w = g.in(0, 6);
    if (w <= 1) { o.dumps = true; if (g.p(50)) pipeline(g, s, o); else history(g, s, o, 12, false); Scenario t = s; env(g, t, 1); for (auto &x : t.ops) x.capi = 0, x.a[5] = (x.kind == OP_READ_BEAM || x.kind == OP_READ_SKY) ? 0 : x.a[5]; c.runs = {s, t}; c.pair = PAIR_BITS; }
    else if (w == 2) { bad_reads(g, s, o, true); c.runs = {s}; } else if (w == 3) { illegal(g, s, o); c.runs = {s}; }
    else if (w == 4) { pipeline(g, s, o); s.errret = 1; abort_on_fail(s); c.runs = {s, s}; c.adapt = F_MPI; } else if (w == 5) { s.nranks = 1; env(g, s, 1); pipeline(g, s, o); if (g.p(40)) abort_on_fail(s); c.runs = {s, s}; c.adapt = F_ALLOC; }
    else { history(g, s, o, 14, true); c.runs = {s}; } }
  else if (P == "C11") { o.maxl = 6; o.rows = 15; o.calls = 1; o.capi = 2; o.maxr = g.p(60) ? 1 : 4; o.threads = g.p(25) ? 3 : 1; s = base(g, o); pipeline(g, s, o); s.heap = 1; if (s.nranks > 1) abort_on_fail(s); else { // every op that can fail is repeated once
        std::vector<Op> n; for (auto &x : s.ops) { n.push_back(x); } s.ops = n; }
    c.runs = {s, s}; c.adapt = F_ALLOC; }
  else if (P == "C12") { o.maxl = 5; o.rows = 20; o.capi = 2; o.maxr = 5; o.verb = 30; many(150); s = base(g, o); if (g.p(15)) layer(g, s, 3); else pipeline(g, s, o); s.errret = 1; abort_on_fail(s); c.runs = {s, s}; c.adapt = F_MPI; }
  else if (P == "C13") { o.threads = g.p(15) ? 3 : 1; o.capi = 2; o.maxl = 10; o.rows = 40; o.maxr = th ? 12 : 9; o.maxorder = 14; s = base(g, o);
    switch (g.in(0, 9)) { case 0: bad_reads(g, s, o, true); break; case 1: illegal(g, s, o); break; case 2: rot(g, s, 3, 10); break; case 3: if (g.p(50)) writes(g, s, 2, g.p(50)); else fits(g, s, 2, g.p(50)); break; case 4: any_legal(g, s, o); break; case 5: reads(g, s, o, 3); break; case 6: history(g, s, o, 12, true); break;
      default: { o.maxl = 3; o.maxorder = 15; if (g.p(50)) o.rows = 6; if (g.p(4)) o.bigl = 100; many(60); pipeline(g, s, o); } } s.heap = 1; c.runs = {s}; }
  else if (P == "C14") { o.capi = 2; o.maxl = 8; o.rows = 40; o.maxr = 4; o.dumps = true; o.threads = g.p(20) ? 3 : 1; many(100); s = base(g, o); switch (g.in(0, 5)) { case 0: history(g, s, o, 14, g.p(30)); break; case 1: rot(g, s, 2, 8); break; case 2: reads(g, s, o, 3); break; default: if (g.p(4)) { o.bigl = 100; o.rows = 15; } pipeline(g, s, o); }
    if (g.p(40)) s.junk = 0; s.clock = 0; Scenario t = s; t.envseed = g.next(); t.schedseed = g.p(50) ? s.schedseed : g.next(); t.junk = g.in(1, 3); t.clock = g.in(0, 2); int v = g.pick({0, 0, 1, 2, 5, 6, 10}); for (auto &x : t.ops) if (x.kind == OP_CONV) x.a[8] = v; c.runs = {s, t}; c.pair = PAIR_BITS; }
  else if (P == "C15") { o.capi = 2; o.maxl = 8; o.rows = 20; o.maxr = 3; s = base(g, o); history(g, s, o, th ? 50 : 28, g.p(25)); c.runs = {s}; }
  else if (P == "C16") { o.maxl = 8; o.rows = 25; o.maxr = 4; o.capi = 0; o.dumps = true; o.threads = g.p(15) ? 2 : 1; many(100); s = base(g, o); s.preempt = 0; int w = g.in(0, 9); bool pair = false;
    if (w <= 2) { pipeline(g, s, o); pair = true; if (s.threads.size() && *std::max_element(s.threads.begin(), s.threads.end()) > 1) for (auto &t : s.threads) t = 1; if (g.p(30)) for (auto &x : s.ops) if (x.kind == OP_CONV) x.d[0] = 1; }
    else if (w <= 4) { history(g, s, o, 14, g.p(40)); pair = true; for (auto &t : s.threads) t = 1; }
    else if (w == 5 || w == 6) bad_reads(g, s, o, g.p(50)); else if (w == 7) illegal(g, s, o);
    else if (w == 8) { pipeline(g, s, o); s.errret = 1; c.adapt = F_MPI; } else { s.nranks = 1; env(g, s, 1); pipeline(g, s, o); c.adapt = F_ALLOC; }
    if (w == 7 && g.p(30)) for (auto &x : s.ops) if (x.kind == OP_CONV && x.a[0] == 3) x.a[g.in(5, 6)] = g.pick({10001, 50000});
    for (auto &f : s.files) while (alm_negative(f)) f.seed++;
    for (auto &x : s.ops) if (x.kind == OP_SETDATA) while (alm_negative(setdata_spec(1, x.a[2], 1, 1))) x.a[2]++;
    pyify(s); s.py = 1; if (c.adapt) abort_on_fail(s);
    for (size_t i = 0; i < s.ops.size(); i++) {       // the program keeps the rows, not the pointing
      Op &o = s.ops[i]; if (o.kind != OP_CONVOLVE || !g.p(25)) continue;
      bool again = false; for (size_t j = i + 1; j < s.ops.size() && !again; j++) again = s.ops[j].kind == OP_CONVOLVE && s.ops[j].a[4] == o.a[4] && s.ops[j].a[3];
      if (!again) o.d[0] = 1;
    }
    c.runs = {s}; if (pair) { Scenario t = s; t.py = 0; env(g, t, 1); c.runs.push_back(t); c.pair = PAIR_BITS; } else if (c.adapt) c.runs.push_back(s); }
  else if (P == "C17") { o.maxr = th ? 12 : 9; s = base(g, o); layer(g, s, th ? 20 : 10); s.heap = 1; c.runs = {s}; }
  else if (P == "C18") { s.nranks = 1; s.comms.push_back(CommSpec()); env(g, s, 1); rot(g, s, 3, g.p(10) ? 40 : 14); Scenario t = s; env(g, t, 2); t.threads[0] = g.p(15) ? g.in(5, 9) : g.in(2, 4); if (g.p(30)) t.shrink |= 2; t.preempt = g.p(80) ? g.pick({3, 6, 9, 12}) : 0; t.race = 1; c.runs = {s, t}; c.pair = PAIR_BITS; }
  else if (P == "C19") { s.nranks = g.in(1, 3); s.comms.push_back(CommSpec()); env(g, s, 1); writes(g, s, g.in(1, 4), true); s.shortio = g.p(30); c.runs = {s}; }
  else if (P == "C20") { o.capi = 2; o.maxl = 6; o.rows = 20; o.maxr = 4; s = base(g, o); int w = g.in(0, 5); if (w == 5) { if (g.p(50)) writes(g, s, 1, g.p(60)); else fits(g, s, 1, g.p(60)); } else if (w == 0) pipeline(g, s, o); else if (w == 1) bad_reads(g, s, o, true); else if (w == 2) illegal(g, s, o); else if (w == 3) { history(g, s, o, 12, true); } else rot(g, s, 2, 8);
    std::vector<Op> one = s.ops; std::vector<Fault> fl = s.faults; s.ops.clear(); s.faults.clear();
    for (int k = 0; k < 4; k++) { int b = s.ops.size(); for (auto x : one) { if (x.kind == OP_WRITE || x.kind == OP_READALM || x.kind == OP_FITSW || x.kind == OP_FITSR) x.a[0] += 10 * k; s.ops.push_back(x); } for (auto f : fl) { f.op += b; s.faults.push_back(f); } s.ops.push_back(mk(OP_DELALL, 0, {0})); s.ops.push_back(mk(OP_CENSUS, 0, {0, k == 0 ? 99 : 1})); }
    c.runs = {s}; }
  else if (P == "C22") { s.nranks = g.in(1, 3); s.comms.push_back(CommSpec()); env(g, s, 1); fits(g, s, g.in(1, 3), g.p(70)); s.shortio = g.p(30); c.runs = {s}; }
  return c;
}
Case gen_case(const std::string &P, uint64_t seed, bool th) {
  for (int t = 0; t < 50; t++) {
    G g(hash3(seed, t, 4711)); Case c = gen1(P, g, th); bool ok = !c.runs.empty(); std::string why;
    for (auto &s : c.runs) { if (s.ops.size() > 90) ok = false; if (ok && !wellformed(s, &why)) ok = false; }
    if (ok) return c;
    if (getenv("SIMDEBUG")) fprintf(stderr, "%s rejected: %s\n", P.c_str(), why.c_str());
  }
  return Case();
}
// ---------------------------------------------------------------- text form
std::string ser(const Scenario &s) {
  std::ostringstream o; o << std::hexfloat; auto v = [&](const std::vector<int> &x) { o << x.size(); for (int y : x) o << ' ' << y; o << ' '; };
  o << "scenario " << s.nranks << ' ' << s.shrink << ' ' << s.policy << ' ' << s.victim << ' ' << s.sticky << ' ' << s.preempt << ' ' << s.junk << ' ' << s.clock << ' ' << s.shortio << ' ' << s.errret << ' ' << s.heap << ' ' << s.race << ' ' << s.py << ' ' << s.schedseed << ' ' << s.envseed << '\n';
  o << "threads "; v(s.threads); o << "\nfiles " << s.files.size() << '\n';
  for (auto &f : s.files) o << f.lmax << ' ' << f.mmax << ' ' << f.pol << ' ' << f.order << ' ' << f.coltype << ' ' << f.keys << ' ' << f.drop << ' ' << f.isbeam << ' ' << f.hdus << ' ' << f.missing << ' ' << f.trunc << ' ' << f.corrupt << ' ' << f.lay << ' ' << f.diag << ' ' << f.seed << ' ' << f.scale << '\n';
  o << "comms " << s.comms.size() << '\n'; for (auto &c : s.comms) { o << c.kind << ' '; v(c.color); v(c.key); o << '\n'; }
  o << "ops " << s.ops.size() << '\n';
  for (auto &p : s.ops) { o << p.kind << ' ' << p.comm << ' ' << p.color << ' ' << p.capi; for (int x : p.a) o << ' ' << x; for (double x : p.d) o << ' ' << x; o << ' ' << p.rows.size() << '\n'; for (auto &r : p.rows) { o << r.size(); for (auto &w : r) o << ' ' << w.phi << ' ' << w.theta << ' ' << w.psi; o << '\n'; } }
  o << "faults " << s.faults.size() << '\n'; for (auto &f : s.faults) o << f.kind << ' ' << f.rank << ' ' << f.op << ' ' << f.nth << ' ' << f.arg << ' ' << f.persist << '\n';
  return o.str();
}
static double rd(std::istream &i) { std::string t; i >> t; return strtod(t.c_str(), nullptr); }
bool deser(std::istream &i, Scenario &s) {
  std::string t; size_t n; auto v = [&](std::vector<int> &x) { size_t k; i >> k; x.resize(k); for (auto &y : x) i >> y; };
  s = Scenario(); i >> t; if (t != "scenario") return false; i >> s.nranks >> s.shrink >> s.policy >> s.victim >> s.sticky >> s.preempt >> s.junk >> s.clock >> s.shortio >> s.errret >> s.heap >> s.race >> s.py >> s.schedseed >> s.envseed;
  i >> t; v(s.threads); i >> t >> n; s.files.resize(n); for (auto &f : s.files) { i >> f.lmax >> f.mmax >> f.pol >> f.order >> f.coltype >> f.keys >> f.drop >> f.isbeam >> f.hdus >> f.missing >> f.trunc >> f.corrupt >> f.lay >> f.diag >> f.seed; f.scale = rd(i); }
  i >> t >> n; s.comms.resize(n); for (auto &c : s.comms) { i >> c.kind; v(c.color); v(c.key); }
  i >> t >> n; s.ops.resize(n); for (auto &p : s.ops) { i >> p.kind >> p.comm >> p.color >> p.capi; for (int &x : p.a) i >> x; for (double &x : p.d) x = rd(i); i >> n; p.rows.resize(n); for (auto &r : p.rows) { size_t k; i >> k; r.resize(k); for (auto &w : r) { w.phi = rd(i); w.theta = rd(i); w.psi = rd(i); } } }
  i >> t >> n; s.faults.resize(n); for (auto &f : s.faults) i >> f.kind >> f.rank >> f.op >> f.nth >> f.arg >> f.persist;
  return (bool)i;
}
