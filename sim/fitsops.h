// The simulated user of the FITS layer: writes a file whose structure and contents are a function of a seed, and reads it back.
// Included by driver.cpp inside struct Drv.
  struct FKey { std::string name; int type; uint64_t h; std::string ext; };
  struct FCol { int type, mt; long rep; std::string name, unit; };          // type: PDT of the column; mt: PDT of the memory it is written from
  struct FHdu { int kind; std::vector<FCol> cols; long nrows; int itype, how; std::vector<int64> axes; std::vector<FKey> keys; uint64_t seed; std::string ext; };
  struct FPlan { std::vector<FHdu> h; std::vector<int> at; std::vector<FKey> prim; };     // in order of creation; inserted after HDU number at[k] (1 = primary)
  struct FBad { std::string m; };

  static uint64_t fh(uint64_t s, uint64_t a, uint64_t b) { return hash3(s, a, b); }
  static std::vector<FKey> fkeys(uint64_t sd) {
    std::vector<FKey> k; int n = fh(sd, 1, 0) % 5;
    for (int i = 0; i < n; i++) { uint64_t h = fh(sd, 2, i); FKey q; char t[60]; static const char *lng[] = {"aLongKeyword_%d", "mean.value%d", "Obs-%d-x"};
      if (h % 4 == 0) snprintf(t, sizeof t, lng[h / 4 % 3], i); else snprintf(t, sizeof t, h % 4 == 1 ? "KEY%d" : h % 4 == 2 ? "K_%d" : "VALUE%d", i);
      q.name = t; q.type = (h >> 8) % 9; q.h = mix64(h); k.push_back(q); }
    return k;
  }
  static std::string flong(uint64_t h, int room) { int n = h % 2 ? room : 1 + (int)((h >> 8) % room); std::string t; while (n > 0) { char c = "abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:'[]/*+"[fh(h, n, 5) % 73]; if (c == '\'' && n < 3) c = 'q'; if (c == ' ' && (n < 2 || t.empty())) c = 'b'; t += c; n -= c == '\'' ? 2 : 1; } return t; }     // what just fits into a header (quotes are doubled there)
  static FPlan fplan(int nh, int size, uint64_t sd) {
    FPlan p; p.prim = fkeys(fh(sd, 10, 0));
    static const int types[] = {LEVELS_FLOAT32, LEVELS_FLOAT64, LEVELS_INT32, LEVELS_INT64, LEVELS_INT16, LEVELS_UINT8, LEVELS_INT8, LEVELS_BOOL, LEVELS_STRING};
    for (int k = 0; k < nh; k++) {
      FHdu d; d.seed = fh(sd, 11, k); uint64_t s = d.seed; d.kind = fh(s, 0, 0) % 10 < 3 ? 1 : fh(s, 0, 0) % 10 < 5 ? 2 : 0;     // binary table, image, ASCII table
      d.nrows = 0; d.itype = LEVELS_FLOAT32; d.how = 0; d.keys = fkeys(fh(s, 0, 9)); d.ext = fh(s, 0, 8) % 2 ? "xtension" : "EXT" + std::to_string(k);
      if (d.kind == 1) {
        d.itype = fh(s, 1, 0) % 2 ? LEVELS_FLOAT32 : LEVELS_FLOAT64; int na = 1 + fh(s, 1, 1) % 3; if (fh(s, 1, 2) % 2) na = 2; double lin = pow((double)size, 1.0 / na);
        for (int i = 0; i < na; i++) d.axes.push_back(1 + fh(s, 2, i) % std::max(1L, (long)(2 * lin))); d.how = na == 2 ? fh(s, 1, 3) % 3 : 2;
      } else {
        int nc = 1 + fh(s, 3, 0) % 5; d.nrows = fh(s, 3, 1) % 12 == 0 ? 0 : 1 + fh(s, 3, 2) % size;
        for (int c = 0; c < nc; c++) { uint64_t h = fh(s, 4, c); FCol q; q.type = types[h % 9]; q.rep = (h >> 8) % 3 ? 1 : 1 + (h >> 12) % 9; q.mt = q.type; int w = (h >> 20) % 4;
          if (q.type == LEVELS_STRING) q.rep = 1 + (h >> 12) % 20;
          else if (q.type != LEVELS_BOOL) { if (w == 0 && q.type != LEVELS_INT64) q.mt = LEVELS_FLOAT64; else if (w == 1 && q.type != LEVELS_FLOAT32 && q.type != LEVELS_FLOAT64) q.mt = LEVELS_INT64; }
          if (d.kind == 2) { if (q.type == LEVELS_BOOL) { q.type = LEVELS_INT32; q.mt = q.type; } if (q.type != LEVELS_STRING) q.rep = 1; }
          q.name = "Col_" + std::to_string(c) + ((h >> 24) % 3 ? "" : " long name"); q.unit = (h >> 28) % 3 == 0 ? "" : (h >> 28) % 3 == 1 ? "K_CMB" : "[rad/s]";
          if ((h >> 34) % 6 == 0) q.name = "C" + std::to_string(c) + flong(mix64(h), 66); if ((h >> 38) % 12 == 0) q.unit = flong(mix64(h + 1), 68); if (c && d.kind == 0 && q.type != LEVELS_STRING && d.cols[0].rep && (h >> 46) % 16 == 0) q.rep = 0; d.cols.push_back(q); }
        if (fh(s, 3, 7) % 6 == 0) d.ext = flong(fh(s, 3, 8), 68);
      }
      p.h.push_back(d); p.at.push_back(fh(sd, 12, k) % 4 ? k + 1 : 1 + (int)(fh(sd, 13, k) % (k + 1)));
    }
    return p;
  }
  static std::vector<int> forder(const FPlan &p) { std::vector<int> v; for (size_t k = 0; k < p.h.size(); k++) v.insert(v.begin() + (p.at[k] - 1), (int)k); return v; }   // final order of the extensions
  static double fdbl(uint64_t h, bool f32) {
    double m = 1 + u01(mix64(h)); int w = (h >> 3) % 8, e = f32 ? (int)(h >> 8) % 60 - 30 : (int)((h >> 8) % 600) - 300; double v = w == 0 ? 0 : w == 1 ? m : w == 2 ? (double)((int)(h >> 20) % 1000) : w == 3 ? (f32 ? 3.0e38 : 1.5e308) : ldexp(m, e);
    if (h & 1) v = -v; return f32 ? (double)(float)v : v;
  }
  // the value of element k of a column, as the bits stored there
  template <class T> static T fval(const FHdu &d, int c, long k, int type) {
    uint64_t h = fh(d.seed, 100 + c, k);
    if (d.kind == 2 && type == LEVELS_INT64) return (T)((int64_t)h >> 13);      // (cfitsio reads the integers of ASCII tables through double)
    switch (type) { case LEVELS_FLOAT32: return (T)fdbl(h, true); case LEVELS_FLOAT64: return (T)fdbl(h, false); case LEVELS_BOOL: return (T)(h & 1); case LEVELS_UINT8: return (T)(h >> 8 & 255); case LEVELS_INT8: return (T)(h >> 8 & 255);
      case LEVELS_INT16: return (T)(int16_t)(h >> 8); case LEVELS_INT32: return (T)(int32_t)(h >> 8); default: return (T)(int64_t)h; }
  }
  static std::string fstr(const FHdu &d, int c, long k, long rep) {
    uint64_t h = fh(d.seed, 100 + c, k); long n = h % 7 == 0 ? rep + (long)(h >> 8) % 4 : 1 + (long)(h >> 8) % rep; std::string s; for (long i = 0; i < n; i++) s += (char)(33 + fh(h, i, 3) % 94); if (n > 3 && h % 5 == 0) s[1] = ' '; return s;
  }
  [[noreturn]] static void fbad(const std::string &m) { throw FBad{m}; }
  // (ASCII tables hold 8 and 16 digits)
  template <class T> static bool fsame(const FHdu &d, int type, T e, T v) { if (d.kind == 2 && (type == LEVELS_FLOAT32 || type == LEVELS_FLOAT64)) return fabs((double)e - (double)v) <= (type == LEVELS_FLOAT32 ? 1.5e-7 : 3e-15) * fabs((double)e); return !memcmp(&e, &v, sizeof e); }
  template <class T> static void fput(fitshandle &f, const FHdu &d, int c, long n, long off, bool chk, bool arr_) {
    if (n == 0) return; const FCol &q = d.cols[c]; arr<T> a(n);
    if (!chk) { for (long k = 0; k < n; k++) a[k] = fval<T>(d, c, off + k, q.type); if (arr_) f.write_column(c + 1, a, off); else f.write_column_raw(c + 1, &a[0], n, off); return; }
    memset(&a[0], 0x5a, n * sizeof(T)); if (arr_) f.read_column(c + 1, a, off); else f.read_column_raw(c + 1, &a[0], n, off);
    for (long k = 0; k < n; k++) { T e = fval<T>(d, c, off + k, q.type); if (!fsame(d, q.type, e, a[k])) { std::ostringstream o; o.precision(17); o << "element " << off + k << " of column " << c + 1 << " (" << d.nrows << " rows, " << q.rep << " per row, type " << type2string((PDT)q.type) << ") is " << (double)a[k] << " instead of " << (double)e; fbad(o.str()); } }
  }
  static void fstring(fitshandle &f, const FHdu &d, int c, long n, long off, bool chk) {
    if (n == 0) return; const FCol &q = d.cols[c]; arr<std::string> a(n);
    if (!chk) { for (long k = 0; k < n; k++) a[k] = fstr(d, c, off + k, q.rep); f.write_column(c + 1, a, off); return; }
    f.read_column(c + 1, a, off);
    for (long k = 0; k < n; k++) { std::string e = fstr(d, c, off + k, q.rep).substr(0, q.rep); while (e.size() && e[e.size() - 1] == ' ') e.resize(e.size() - 1); if (e != a[k]) fbad("the string in row " + std::to_string(off + k) + " of column " + std::to_string(c + 1) + " is \"" + a[k] + "\" instead of \"" + e + "\""); }
  }
  static void fcol(fitshandle &f, const FHdu &d, int c, long n, long off, bool chk, int mt, bool arr_) {
    switch (mt) { case LEVELS_FLOAT32: fput<float>(f, d, c, n, off, chk, arr_); break; case LEVELS_FLOAT64: fput<double>(f, d, c, n, off, chk, arr_); break; case LEVELS_BOOL: fput<bool>(f, d, c, n, off, chk, arr_); break; case LEVELS_INT8: fput<int8>(f, d, c, n, off, chk, arr_); break;
      case LEVELS_UINT8: fput<uint8>(f, d, c, n, off, chk, arr_); break; case LEVELS_INT16: fput<int16>(f, d, c, n, off, chk, arr_); break; case LEVELS_INT32: fput<int32>(f, d, c, n, off, chk, arr_); break; case LEVELS_INT64: fput<int64>(f, d, c, n, off, chk, arr_); break; default: fstring(f, d, c, n, off, chk); }
  }
  // pieces of [0, n): a permutation of k intervals
  static std::vector<std::pair<long, long>> fpieces(long n, uint64_t s, bool shuffle) {
    std::vector<long> cut(1, 0); int k = fh(s, 1, 1) % 3 ? 0 : fh(s, 1, 2) % 4; for (int i = 0; i < k; i++) cut.push_back(fh(s, 2, i) % (n + 1)); cut.push_back(n); for (size_t i = 1; i < cut.size(); i++) for (size_t j = i; j && cut[j] < cut[j - 1]; j--) std::swap(cut[j], cut[j - 1]);
    std::vector<std::pair<long, long>> v; for (size_t i = 1; i < cut.size(); i++) if (cut[i] > cut[i - 1]) v.push_back({cut[i - 1], cut[i] - cut[i - 1]});
    if (shuffle) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[fh(s, 3, i) % i]); return v;
  }
  static std::string fkstr(uint64_t h) { int n = h % 5 == 0 ? 70 + (h >> 8) % 60 : 1 + (h >> 8) % 40; std::string s; for (int i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:'"[fh(h, i, 1) % 67]; return s; }
  template <class T> static void fkey1(fitshandle &f, const std::string &nm, T v, bool chk, double rel) {
    if (!chk) { f.set_key(nm, v, std::string("a comment")); return; }
    T g = f.get_key<T>(nm); if (!(g == v) && !(fabs((double)g - (double)v) <= rel * fabs((double)v))) { std::ostringstream o; o.precision(17); o << "the key " << nm << " has the value " << g << " instead of " << v; fbad(o.str()); }
  }
  static void fkey(fitshandle &f, const FKey &k, bool chk, uint64_t h) {
    switch (k.type) { case 0: fkey1<int32>(f, k.name, (int32)h, chk, 0); break; case 1: fkey1<int64>(f, k.name, (int64)h, chk, 0); break; case 2: fkey1<int16>(f, k.name, (int16)h, chk, 0); break; case 3: fkey1<bool>(f, k.name, h & 1, chk, 0); break;
      case 4: fkey1<float>(f, k.name, (float)fdbl(h % 8 == 3 ? h + 1 : h, true), chk, 1e-6); break; case 5: fkey1<double>(f, k.name, fdbl((h >> 3) % 8 == 3 ? 9 : h, false), chk, 1e-14); break; case 6: fkey1<uint8>(f, k.name, (uint8)h, chk, 0); break;
      default: { std::string v = fkstr(h); if (!chk) { f.set_key(k.name, v); break; } std::string g = f.get_key<std::string>(k.name); if (g != v) fbad("the key " + k.name + " has the value \"" + g + "\" instead of \"" + v + "\""); } }
  }
  static bool fgone(const FKey &k) { return (k.h >> 50) % 8 == 0; }
  template <class F> static void fmust(const char *w, F g) { try { g(); } catch (levels::LEVELSError &) { return; } catch (std::exception &) { return; } fbad(std::string(w) + " was not refused"); }
  static void fsetkeys(fitshandle &f, const std::vector<FKey> &ks, bool refuse = false) {
    for (auto &k : ks) { if ((k.h >> 40) % 4 == 0) fkey(f, k, false, mix64(k.h)); fkey(f, k, false, k.h); }
    for (auto &k : ks) if (fgone(k)) { f.delete_key(k.name); if (f.key_present(k.name)) fbad("the deleted key " + k.name + " is present"); if (refuse) fmust("deleting a key twice", [&] { f.delete_key(k.name); }); }
    if (refuse) fmust("deleting a key that is not there", [&] { f.delete_key("NOTTHERE"); });
    if (ks.size() > 2) f.add_comment("KEY0 = 5 is a comment");
  }
  static void fgetkeys(fitshandle &f, const std::vector<FKey> &ks) {
    std::vector<std::string> all; f.get_all_keys(all);
    for (auto &k : ks) { bool in = false; for (auto &a : all) in |= !strcasecmp(a.c_str(), k.name.c_str());     // (cfitsio lists some names in capitals)
      if (fgone(k)) { if (f.key_present(k.name) || in) fbad("the deleted key " + k.name + " is present"); fmust("reading a key that is not there", [&] { f.get_key<int>(k.name); }); continue; }
      if (!f.key_present(k.name)) fbad("the key " + k.name + " is missing"); if (!in) { std::string l; for (auto &a : all) l += " " + a; fbad("the key " + k.name + " is not listed:" + l); } fkey(f, k, true, k.h); }
    if (f.key_present("NOTTHERE")) fbad("a key that was never written is present");
  }
  // images
  template <class T> static T fpix(const FHdu &d, long k) { return (T)fdbl(fh(d.seed, 77, k), d.itype == LEVELS_FLOAT32); }
  template <class T> static void fimg(fitshandle &f, const FHdu &d) {
    long n = 1; for (auto a : d.axes) n *= a;
    if (d.how == 0) { arr2<T> a(d.axes[0], d.axes[1]); for (long i = 0, k = 0; i < d.axes[0]; i++) for (long j = 0; j < d.axes[1]; j++) a[i][j] = fpix<T>(d, k++); f.insert_image((PDT)d.itype, a); return; }
    f.insert_image((PDT)d.itype, d.axes);
    if (d.how == 1) { arr2<T> a(d.axes[0], d.axes[1]); for (long i = 0, k = 0; i < d.axes[0]; i++) for (long j = 0; j < d.axes[1]; j++) a[i][j] = fpix<T>(d, k++); f.write_image(a); return; }
    for (auto &p : fpieces(n, fh(d.seed, 5, 5), true)) { arr<T> a(p.second); for (long k = 0; k < p.second; k++) a[k] = fpix<T>(d, p.first + k); f.write_subimage(a, p.first); }
  }
  template <class T> static void fpixcmp(const FHdu &d, long k, T got) { T e = fpix<T>(d, k); if (memcmp(&e, &got, sizeof e)) { std::ostringstream o; o.precision(17); o << "pixel " << k << " is " << (double)got << " instead of " << (double)e; fbad(o.str()); } }
  template <class T> static void fimgcmp(fitshandle &f, const FHdu &d, uint64_t s) {
    long n = 1; for (auto a : d.axes) n *= a;
    if (d.axes.size() == 2) { arr2<T> a; f.read_image(a); if ((long)a.size1() != d.axes[0] || (long)a.size2() != d.axes[1]) fbad("the image read has the wrong size"); for (long i = 0, k = 0; i < d.axes[0]; i++) for (long j = 0; j < d.axes[1]; j++) fpixcmp<T>(d, k++, a[i][j]);
      long x = fh(s, 1, 0) % d.axes[0], y = fh(s, 1, 1) % d.axes[1], w = 1 + fh(s, 1, 2) % (d.axes[0] - x), h = 1 + fh(s, 1, 3) % (d.axes[1] - y); arr2<T> b(w, h); f.read_subimage(b, x, y); for (long i = 0; i < w; i++) for (long j = 0; j < h; j++) fpixcmp<T>(d, (x + i) * d.axes[1] + y + j, b[i][j]); }
    if (d.axes.size() == 3) { arr3<T> a; f.read_image(a); if ((long)a.size1() != d.axes[0] || (long)a.size2() != d.axes[1] || (long)a.size3() != d.axes[2]) fbad("the image read has the wrong size"); for (long i = 0, k = 0; i < d.axes[0]; i++) for (long j = 0; j < d.axes[1]; j++) for (long l = 0; l < d.axes[2]; l++) fpixcmp<T>(d, k++, a(i, j, l)); }
    long at = fh(s, 2, 0) % n, m = 1 + fh(s, 2, 1) % (n - at); arr<T> c(m); f.read_subimage(c, at); for (long k = 0; k < m; k++) fpixcmp<T>(d, at + k, c[k]);
  }
  static int fclass(int t) { return t == LEVELS_STRING ? 2 : t == LEVELS_FLOAT32 || t == LEVELS_FLOAT64 ? 1 : t == LEVELS_BOOL ? 3 : 0; }     // (an ASCII table knows text, integers and floating-point numbers)
  static int fstored(int t) { return t == LEVELS_UINT8 ? (int)LEVELS_INT8 : t; }
  static void fstruct(fitshandle &f, const FHdu &d) {
    if (d.kind == 1) { const std::vector<int64> &a = f.axes(); if (a != d.axes) fbad("the axes of the image are wrong"); return; }
    if (f.ncols() != (int)d.cols.size()) fbad("the table has " + std::to_string(f.ncols()) + " columns instead of " + std::to_string(d.cols.size()));
    if (f.nrows() != d.nrows) fbad("the table has " + std::to_string(f.nrows()) + " rows instead of " + std::to_string(d.nrows));
    for (size_t c = 0; c < d.cols.size(); c++) { const FCol &q = d.cols[c]; int i = c + 1; std::string w = "column " + std::to_string(i);
      if (f.colname(i) != q.name || f.colunit(i) != q.unit) fbad("the name or unit of " + w + " is \"" + f.colname(i) + "\", \"" + f.colunit(i) + "\" instead of \"" + q.name + "\", \"" + q.unit + "\""); if (f.repcount(i) != q.rep) fbad("the repetition count of " + w + " is wrong"); int ft = f.coltype(i); if (d.kind == 2 ? fclass(ft) != fclass(q.type) : fstored(ft) != fstored(q.type)) fbad("the type of " + w + " is wrong");
      int64 ne = f.nelems(i); if (ne != (q.type == LEVELS_STRING ? d.nrows : d.nrows * q.rep)) fbad("the number of elements of " + w + " is " + std::to_string(ne)); if (q.rep && f.efficientChunkSize(i) < 1) fbad("the chunk size of " + w + " is not positive"); }
  }
  static void fcheck(fitshandle &f, const FHdu &d, uint64_t s) {     // the current HDU against the plan
    fstruct(f, d); fgetkeys(f, d.keys); if (d.kind != 1 && f.get_key<std::string>("EXTNAME") != d.ext) fbad("the table is named \"" + f.get_key<std::string>("EXTNAME") + "\" instead of \"" + d.ext + "\"");
    if (d.kind == 1) { if (fh(s, 0, 1) % 2 || d.itype == LEVELS_FLOAT64) fimgcmp<double>(f, d, s); else fimgcmp<float>(f, d, s); return; }
    for (size_t c = 0; c < d.cols.size(); c++) { const FCol &q = d.cols[c]; uint64_t h = fh(s, 3, c); long n = q.type == LEVELS_STRING ? d.nrows : d.nrows * q.rep; int mt = q.type; if (h % 4 == 0 && q.type != LEVELS_STRING && q.type != LEVELS_BOOL) mt = (q.type == LEVELS_INT64 || (q.type != LEVELS_FLOAT32 && q.type != LEVELS_FLOAT64 && h % 8 == 0)) ? LEVELS_INT64 : LEVELS_FLOAT64;
      if (h % 3 == 0 && n) { long at = (h >> 8) % n, m = 1 + (h >> 20) % (n - at); fcol(f, d, c, m, at, true, mt, h % 2); }
      else for (auto &p : fpieces(n, h, true)) fcol(f, d, c, p.second, p.first, true, mt, h % 2);
      if (n && h % 7 == 0 && mt == LEVELS_FLOAT64) { arr<double> a; f.read_entire_column(c + 1, a); if ((long)a.size() != n) fbad("reading an entire column delivers the wrong number of elements"); for (long k = 0; k < n; k++) { double e = fval<double>(d, c, k, q.type); if (!fsame(d, q.type, e, a[k])) fbad("the entire column read differs at element " + std::to_string(k)); } } }
  }
  static void frefuse(fitshandle &f, const FHdu &d, uint64_t s) {    // requests that must be refused
    double x[8]; std::string t;
    if (d.kind == 1) { fmust("reading a column of an image", [&] { f.read_column_raw(1, x, 1, 0); }); fmust("the number of rows of an image", [&] { f.nrows(); }); if (d.axes.size() != 2) fmust("reading an image of another dimension", [&] { arr2<double> a; f.read_image(a); }); if (d.axes.size() != 3) fmust("reading an image of another dimension", [&] { arr3<float> a; f.read_image(a); });
      long n = 1; for (auto a : d.axes) n *= a; fmust("reading beyond the end of the image", [&] { f.read_subimage_void(x, LEVELS_FLOAT64, 2, n - 1 + (int64)(s % 3)); }); return; }
    int nc = d.cols.size(); fmust("reading a column beyond the last", [&] { f.read_column_raw(nc + 1, x, 1, 0); }); fmust("reading column 0", [&] { f.read_column_raw(0, x, 1, 0); }); fmust("the name of a column that is not there", [&] { f.colname(nc + 1 + (int)(s % 5)); }); fmust("the axes of a table", [&] { f.axes(); });
    for (int c = 0; c < nc; c++) { const FCol &q = d.cols[c]; if (q.type == LEVELS_STRING) { fmust("reading beyond the end of a column", [&] { std::string a[2]; f.read_column_raw(c + 1, a, 2, d.nrows ? d.nrows - 1 : 0); }); continue; }
      long n = d.nrows * q.rep; fmust("reading beyond the end of a column", [&] { if (q.type == LEVELS_BOOL) { bool b[2]; f.read_column_raw(c + 1, b, 2, n ? n - 1 : 0); } else f.read_column_raw(c + 1, x, 2, n ? n - 1 : 0); }); }
  }
  // (the number of HDUs is what cfitsio finds before the first error: fewer when reading fails)
  static void fbadcols(fitshandle &f, uint64_t h) {     // tables that cannot be described in a FITS header
    std::string lng; int n = h % 3 == 0 ? 69 + (h >> 8) % 12 : 69 + (h >> 8) % 400; for (int i = 0; i < n; i++) lng += (char)('A' + fh(h, i, 4) % 26); bool asc = h >> 30 & 1; int w = (h >> 32) % 4;
    std::vector<fitscolumn> cs; for (int i = (h >> 40) % 3; i > 0; i--) cs.push_back(fitscolumn("FIRST" + std::to_string(i), "", 1, LEVELS_INT32)); cs.push_back(fitscolumn(w == 0 ? lng : "NAME", w == 1 ? lng : "", w == 3 && asc ? 2 : 1, w == 3 && !asc ? LEVELS_INVALID : LEVELS_FLOAT32)); for (int i = (h >> 44) % 3; i > 0; i--) cs.push_back(fitscolumn("LAST" + std::to_string(i), "", 1, LEVELS_INT32));
    fmust(w == 0 ? "a column name that does not fit" : w == 1 ? "a column unit that does not fit" : w == 2 ? "an extension name that does not fit" : "a column of an impossible type", [&] { std::string e = w == 2 ? lng : std::string("xtension"); if (asc) f.insert_asctab(cs, e); else f.insert_bintab(cs, e); });
  }
  bool ffaulty(int i) { for (auto &f : sc->faults) if (f.op == i || f.op < 0) return true; return false; }
  void fitsw(const Op &o, int i) {
    char nm[40]; snprintf(nm, sizeof nm, "t%d.fits", o.a[0]); std::string name = nm; FPlan p = fplan(o.a[1], o.a[2], o.a[5]); uint64_t s = fh(o.a[5], 500, 1);
    int code = guarded(o, i, [&] { try {
      fitshandle f; f.create(name); bool ref = (o.a[6] & 4) && !ffaulty(i); fsetkeys(f, p.prim, ref); int here = 1;
      for (size_t k = 0; k < p.h.size(); k++) { const FHdu &d = p.h[k]; if (here != p.at[k]) f.goto_hdu(p.at[k]);
        if (o.a[6] & 4 && fh(s, 8, k) % 3 == 0) { fbadcols(f, fh(s, 9, k)); if (here != p.at[k]) f.goto_hdu(p.at[k]); }
        if (d.kind == 1) { if (d.itype == LEVELS_FLOAT32) fimg<float>(f, d); else fimg<double>(f, d); fsetkeys(f, d.keys, ref); }
        else { std::vector<fitscolumn> cs; for (auto &q : d.cols) cs.push_back(fitscolumn(q.name, q.unit, q.rep, (PDT)q.type)); if (d.kind == 2) f.insert_asctab(cs, d.ext); else f.insert_bintab(cs, d.ext); if (fh(s, 1, k) % 2) fsetkeys(f, d.keys, ref);
          long rows = 0;
          for (size_t c = 0; c < d.cols.size(); c++) { const FCol &q = d.cols[c]; long per = q.type == LEVELS_STRING ? 1 : q.rep;
            if (per == 0) { if (ref) fmust("writing to a column without elements", [&] { double x = 1; f.write_column_raw(c + 1, &x, 1, 0); }); continue; }
            for (auto &z : fpieces(d.nrows * per, fh(s, 2 + k, c), fh(s, 2 + k, c + 100) % 3 == 0)) { fcol(f, d, c, z.second, z.first, false, q.mt, z.first % 2); rows = std::max(rows, (z.first + z.second + per - 1) / per);
              if (f.nrows() != rows) fbad("the table has " + std::to_string(f.nrows()) + " rows instead of " + std::to_string(rows) + " while it is written"); } }
          if (!(fh(s, 1, k) % 2)) fsetkeys(f, d.keys, ref); fstruct(f, d); }
        if (fh(s, 3, k) % 4 == 0) f.write_checksum(); here = p.at[k] + 1;
        if (o.a[6] & 2 && fh(s, 4, k) % 2 == 0) fcheck(f, d, fh(s, 5, k)); }
      if (f.num_hdus() != (int)p.h.size() + 1) fbad("the file being written has " + std::to_string(f.num_hdus()) + " HDUs instead of " + std::to_string(p.h.size() + 1));
      f.close();
      } catch (FBad &b) { okmsg = b.m; } return 0; });
    after(o, i, code);
  }
  void fitsr(const Op &o, int i) {
    char nm[40]; snprintf(nm, sizeof nm, "t%d.fits", o.a[0]); std::string name = nm; FPlan p = fplan(o.a[1], o.a[2], o.a[5]); std::vector<int> ord = forder(p); uint64_t s = fh(o.a[7], 600, 2); int nh = ord.size();
    int code = guarded(o, i, [&] { try {
      fitshandle f; if (o.a[6] & 4) { fmust("opening a file that does not exist", [&] { f.open("nothere.fits"); }); fmust("creating a file that exists", [&] { fitshandle g; g.create(name); }); }
      f.open(name); if (!ffaulty(i) && f.num_hdus() != nh + 1) fbad("the file has " + std::to_string(f.num_hdus()) + " HDUs instead of " + std::to_string(nh + 1)); if (f.fileName() != name) fbad("the file's name is reported as " + f.fileName());
      for (int z = 0; z < 2 * nh + 1; z++) { int k = (z < nh + 1 && !(o.a[6] & 1)) ? z : (int)(fh(s, 1, z) % (nh + 1)); f.goto_hdu(k + 1);
        if (k == 0) { fgetkeys(f, p.prim); continue; } const FHdu &d = p.h[ord[k - 1]];
        if (o.a[6] & 4 && !ffaulty(i) && fh(s, 2, z) % 2 == 0) {      // (after a failed read cfitsio may serve a damaged buffer)
          frefuse(f, d, s); if (fh(s, 3, z) % 2 == 0) { fmust("moving to an HDU that is not there", [&] { f.goto_hdu(nh + 2 + (int)(fh(s, 4, z) % 3)); }); if (fh(s, 5, z) % 2) f.goto_hdu(k + 1); else { try { fcheck(f, d, fh(s, 6, z)); } catch (levels::LEVELSError &) {} f.goto_hdu(k + 1); } } }
        fcheck(f, d, fh(s, 7, z)); }
      f.close(); if (o.a[6] & 2) { fitshandle::delete_file(name); fmust("opening a deleted file", [&] { f.open(name); }); fmust("deleting a file that does not exist", [&] { fitshandle::delete_file(name); }); }
      } catch (FBad &b) { okmsg = b.m; } return 0; });
    after(o, i, code);
  }
