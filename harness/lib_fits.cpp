// L04, L05: the FITS layer and the coefficient files against models and against cfitsio itself.
#include "vp.hpp"
#include <memory>
#include <fitsio.h>
#include <sys/resource.h>
#include "ls_fitshandle.h"
#include "ls_alm.h"
#include "ls_alm_fitsio.h"
#include "ls_xcomplex.h"
using vp::fmt; using vp::i64; using vp::u64; using std::string; using std::vector;
using namespace levels;
typedef long double ld;

namespace {
struct Hush {
  int fd;
  Hush() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
  ~Hush() { fflush(stderr); dup2(fd, 2); close(fd); }
};
template <class F> bool throws(F f) { Hush h; try { f(); } catch (...) { return true; } return false; }
bool same(ld a, ld b) { return a == b || (std::isnan(a) && std::isnan(b)); }

struct Cell { ld v = 0; bool known = false; };
struct Col { string name, unit; PDT type; i64 rep; vector<Cell> c; vector<std::pair<string, bool>> s; };
struct Key { PDT type; ld v; string s; };
struct Hdu { int kind = 0; /* 0 image 1 binary 2 ascii */ PDT type = LEVELS_INVALID; vector<int64> axes; vector<Cell> pix; vector<Col> cols; i64 rows = 0; string ext; std::map<string, Key> keys; };

bool isint(PDT t) { return t <= LEVELS_INT64 && t != LEVELS_INVALID; }
void range(PDT t, ld &lo, ld &hi) {
  switch (t) { case LEVELS_INT8: lo = 0; hi = 127; break; case LEVELS_UINT8: lo = 0; hi = 255; break; case LEVELS_INT16: lo = -32768; hi = 32767; break;
    case LEVELS_INT32: lo = -2147483648.0L; hi = 2147483647; break; case LEVELS_INT64: lo = -9223372036854775808.0L; hi = 9223372036854775807.0L; break; case LEVELS_FLOAT32: lo = -16777216; hi = 16777216; break; default: lo = -9007199254740992.0L; hi = 9007199254740992.0L; }
}
// values of a column of type C that can be written as type W
ld gen_val(vp::Ctx &, vp::Rng &r, PDT C, PDT W, bool ascii) {
  if (!isint(C) && !isint(W)) {
    double v; switch (r.below(5)) { case 0: v = r.real(-1, 1); break; case 1: v = (double)r.range(-1000, 1000); break; case 2: v = r.real(-1, 1) * pow(10., (double)r.range(-30, 30)); break; case 3: v = ascii ? 0 : r.coin(.5) ? NAN : r.coin(.5) ? HUGE_VAL : -HUGE_VAL; break; default: v = r.coin(.5) ? 0. : -0.; }
    if (!ascii && C == LEVELS_FLOAT64 && W == LEVELS_FLOAT64 && r.coin(.1)) v = r.real(-1, 1) * pow(10., (double)r.range(-320, 300));
    if (W == LEVELS_FLOAT32 || C == LEVELS_FLOAT32) v = (float)v;
    return v;
  }
  ld lo, hi, lo2, hi2; range(C, lo, hi); range(W, lo2, hi2);
  if (C == LEVELS_INT8 || C == LEVELS_UINT8) { lo = 0; hi = ascii && C == LEVELS_INT8 ? 127 : 255; if (W == LEVELS_INT8 && !ascii) hi2 = 255; }
  lo = std::max(lo, lo2); hi = std::min(hi, hi2); if (ascii) { ld big = r.coin(.5) ? 9.2e18L : 1e14L; lo = std::max(lo, -big), hi = std::min(hi, big); } // cfitsio reads ASCII tables through doubles
  switch (r.below(4)) { case 0: return hi - r.below(3); case 1: return std::min(hi, lo + r.below(3)); case 2: return std::max(lo, std::min(hi, (ld)r.range(-100, 100))); default: return std::max(lo, std::min(hi, truncl(lo + (hi - lo) * (ld)r.unit()))); }
}
template <class T> T conv(ld v) { return (T)v; }
template <> int8 conv<int8>(ld v) { return (int8)(uint8)v; }
template <class T> ld back(T v) { return v; }
template <> ld back<int8>(int8 v) { return (uint8)v; }

template <class T> void wr_t(vp::Ctx &c, fitshandle &h, int col, const vector<ld> &v, i64 off) {
  arr<T> a(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = conv<T>(v[i]);
  if (off == 0 && c.coin(1, 3)) { if (v.size() == 1 && c.coin()) h.write_column(col, a[0]); else if (c.coin()) h.write_column(col, a); else h.write_column_raw(col, v.size() ? &a[0] : 0, (int64)v.size()); } // from the start by default
  else if (v.size() == 1 && c.coin()) h.write_column(col, a[0], off); else if (c.coin()) h.write_column(col, a, off); else h.write_column_raw(col, v.size() ? &a[0] : 0, (int64)v.size(), off);
}
void wr(vp::Ctx &c, fitshandle &h, PDT W, int col, const vector<ld> &v, i64 off) {
  switch (W) { case LEVELS_INT8: wr_t<int8>(c, h, col, v, off); break; case LEVELS_UINT8: wr_t<uint8>(c, h, col, v, off); break; case LEVELS_INT16: wr_t<int16>(c, h, col, v, off); break; case LEVELS_INT32: wr_t<int32>(c, h, col, v, off); break;
    case LEVELS_INT64: wr_t<int64>(c, h, col, v, off); break; case LEVELS_FLOAT32: wr_t<float>(c, h, col, v, off); break; case LEVELS_FLOAT64: wr_t<double>(c, h, col, v, off); break; default: wr_t<bool>(c, h, col, v, off); }
}
template <class T> vector<ld> rd_t(vp::Ctx &c, fitshandle &h, int col, i64 n, i64 off, bool entire) {
  arr<T> a; if (entire) { h.read_entire_column(col, a); if ((i64)a.size() != n) c.fail(fmt("read_entire_column gives %zu elements, expected %ld", (size_t)a.size(), (long)n)); }
  else { a.alloc(n); for (i64 i = 0; i < n; ++i) a[i] = T(37); if (off == 0 && c.coin(1, 3)) { if (n == 1 && c.coin()) h.read_column(col, a[0]); else if (c.coin()) h.read_column(col, a); else h.read_column_raw(col, n ? &a[0] : 0, n); } else if (n == 1 && c.coin()) h.read_column(col, a[0], off); else if (c.coin()) h.read_column(col, a, off); else h.read_column_raw(col, n ? &a[0] : 0, n, off); }
  vector<ld> r; for (i64 i = 0; i < n; ++i) r.push_back(back<T>(a[i])); return r;
}
vector<ld> rd(vp::Ctx &c, fitshandle &h, PDT R, int col, i64 n, i64 off, bool entire) {
  switch (R) { case LEVELS_INT8: return rd_t<int8>(c, h, col, n, off, entire); case LEVELS_UINT8: return rd_t<uint8>(c, h, col, n, off, entire); case LEVELS_INT16: return rd_t<int16>(c, h, col, n, off, entire); case LEVELS_INT32: return rd_t<int32>(c, h, col, n, off, entire);
    case LEVELS_INT64: return rd_t<int64>(c, h, col, n, off, entire); case LEVELS_FLOAT32: return rd_t<float>(c, h, col, n, off, entire); case LEVELS_FLOAT64: return rd_t<double>(c, h, col, n, off, entire); default: return rd_t<bool>(c, h, col, n, off, entire); }
}
const vector<PDT> NUM = {LEVELS_INT32, LEVELS_INT8, LEVELS_UINT8, LEVELS_INT16, LEVELS_INT64, LEVELS_FLOAT32, LEVELS_FLOAT64};
ld as_read(PDT C, PDT R, ld v) { if (R == LEVELS_FLOAT32) return (float)v; if (R == LEVELS_FLOAT64) return (double)v; (void)C; return v; }
bool fits_in(PDT C, PDT R, ld v, bool ascii) {
  if (!isint(R)) return R != LEVELS_FLOAT32 || !(fabsl(v) > 3.4028234e38L); if (std::isnan(v)) return false; ld lo, hi; range(R, lo, hi);
  if (R == LEVELS_INT8) hi = 255; // the 8-bit types share one FITS type, the unsigned byte
  return v >= lo && v <= hi && truncl(v) == v;
}
string upper(string s) { for (auto &x : s) x = (char)toupper(x); return s; }
string rtrim(string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
string gen_str(vp::Ctx &c, int n, const char *al) { string s, a = al; int k = (int)c.skew(0, n); for (int i = 0; i < k; ++i) s += a[c.below(a.size())]; return s; }

struct Model {
  vp::Ctx &c; string fn; vector<Hdu> f; int cur = 0; fitshandle &h = *new fitshandle; string hist; bool ro = false; int inserts = 0, writes = 0;
  Model(vp::Ctx &c_, const string &n) : c(c_), fn(n) {}
  Hdu &H() { return f[cur]; }
  void die(const string &m) { c.note("history", hist); c.fail(m); }
  // everything the handle says about where it is
  void meta() {
    if (h.num_hdus() != (int)f.size()) die(fmt("%d HDUs, expected %zu", h.num_hdus(), f.size()));
    Hdu &u = H();
    if (u.kind == 0) { if (h.axes() != u.axes) die("image dimensions differ"); }
    else {
      if (h.ncols() != (int)u.cols.size()) die("number of columns differs"); if (h.nrows() != u.rows) die(fmt("%ld rows, expected %ld", (long)h.nrows(), (long)u.rows));
      for (int i = 1; i <= (int)u.cols.size(); ++i) { Col &k = u.cols[i - 1];
        if (h.colname(i) != k.name || h.colunit(i) != k.unit) die(fmt("column %d is '%s' '%s', expected '%s' '%s'", i, h.colname(i).c_str(), h.colunit(i).c_str(), k.name.c_str(), k.unit.c_str()));
        PDT t = k.type == LEVELS_UINT8 ? LEVELS_INT8 : k.type; // both are unsigned bytes in FITS
        if (u.kind == 1 && h.coltype(i) != t) die(fmt("type of column %d differs", i));
        if (h.repcount(i) != k.rep) die(fmt("repetition count of column %d is %ld", i, (long)h.repcount(i)));
        if (h.nelems(i) != (k.type == LEVELS_STRING ? u.rows : u.rows * k.rep)) die(fmt("column %d has %ld elements", i, (long)h.nelems(i)));
        if (k.rep > 0 && h.efficientChunkSize(i) < 1) die("chunk size below 1"); }
    }
  }
  void read_piece(int i, i64 off, i64 n, bool entire) {
    Hdu &u = H(); Col &k = u.cols[i - 1]; bool asc = u.kind == 2;
    if (k.type == LEVELS_STRING) {
      if (!ro) for (i64 q = off; q < off + n; ++q) if (!k.s[q].second) return; // see below
      arr<string> a; Hush hs; if (entire) { h.read_entire_column(i, a); if ((i64)a.size() != n) die("entire text column has a wrong size"); } else { a.alloc(n); if (c.coin()) for (i64 q = 0; q < n; ++q) a[q] = "left over from before"; h.read_column(i, a, off); }
      for (i64 q = 0; q < n; ++q) if (k.s[off + q].second && rtrim(a[q]) != k.s[off + q].first) die(fmt("text of row %ld is '%s', expected '%s'", (long)(off + q), a[q].c_str(), k.s[off + q].first.c_str()));
      return;
    }
    PDT R = k.type == LEVELS_BOOL ? LEVELS_BOOL : c.coin() ? k.type : c.pick(NUM); bool ok = true, frac = false, uk = false;
    for (i64 q = off; q < off + n; ++q) { if (!k.c[q].known) { uk = true; continue; } if (!fits_in(k.type, R, k.c[q].v, asc)) ok = false; if (isint(R) && !isint(k.type) && (std::isnan(k.c[q].v) || truncl(k.c[q].v) != k.c[q].v)) frac = true; }
    if (uk && !ro) return; // cells never written exist in the file only after it is closed
    if (k.type == LEVELS_BOOL && uk) return; // undefined logical values have no C++ counterpart
    if (frac || (asc && isint(R) && !isint(k.type)) || (uk && asc)) R = isint(k.type) ? LEVELS_INT64 : LEVELS_FLOAT64, ok = true; // rounding of fractions is left open
    if (R == LEVELS_FLOAT32) for (i64 q = off; q < off + n; ++q) if (k.c[q].known && (std::isinf(k.c[q].v) || (fabsl(k.c[q].v) > 3.4e38L && fabsl(k.c[q].v) < 3.41e38L))) R = LEVELS_FLOAT64, ok = true; // no promise for infinities in a narrower type
    if (uk && asc) return; // blank fields
    vector<ld> g; bool t = throws([&] { g = rd(c, h, R, i, n, off, entire); });
    if (t && ok) die(fmt("reading %ld elements at %ld of column %d as %s is refused", (long)n, (long)off, i, type2string(R))); if (!t && !ok) die(fmt("column %d: values that do not fit into %s are delivered", i, type2string(R)));
    if (t) { c.cls("unrepresentable values refused"); return; }
    for (i64 q = 0; q < n; ++q) if (k.c[off + q].known) {
      ld w = as_read(k.type, R, k.c[off + q].v); bool e = same(w, g[q]); if (asc && isint(k.type) && fabsl(w) > 1e14L) e = fabsl(w - g[q]) <= 4e-15L * fabsl(w); if (asc && !isint(k.type)) e = fabsl(w - g[q]) <= (k.type == LEVELS_FLOAT32 || R == LEVELS_FLOAT32 ? 2e-7L : 1.2e-15L) * fabsl(w);
      if (!e) die(fmt("element %ld of column %d (%s, read as %s) is %.20Lg, expected %.20Lg", (long)(off + q), i, type2string(k.type), type2string(R), g[q], w));
    }
  }
  void write_piece() {
    Hdu &u = H(); int i = (int)c.range(1, (int)u.cols.size()); Col &k = u.cols[i - 1]; vp::Rng r = c.bulk();
    i64 per = k.type == LEVELS_STRING ? 1 : k.rep, have = u.rows * per; bool huge = c.coin(1, 40); i64 n = huge ? c.range(2000, 12000) : c.skew(0, 25); i64 off = c.coin() ? 0 : c.coin() ? have : c.range(0, have + 6);
    hist += fmt("write(%d,%ld@%ld) ", i, (long)n, (long)off);
    if (per == 0) { if (n > 0 && !throws([&] { wr(c, h, k.type == LEVELS_BOOL ? LEVELS_BOOL : LEVELS_INT32, i, vector<ld>(n, 1), off); })) die("writing to an empty column is accepted"); return; }
    auto grow = [&](i64 rows) { if (rows <= u.rows) return; u.rows = rows; for (auto &q : u.cols) { if (q.type == LEVELS_STRING) q.s.resize(rows); else q.c.resize(rows * q.rep); } };
    if (k.type == LEVELS_STRING) {
      arr<string> a(n); for (i64 q = 0; q < n; ++q) { int len = (int)r.below(k.rep + 3); string s; for (int z = 0; z < len; ++z) s += "abC '1.-"[r.below(8)]; a[q] = s; }
      if (throws([&] { h.write_column(i, a, off); })) die("writing text is refused"); if (n == 0) return; grow(off + n);
      for (i64 q = 0; q < n; ++q) k.s[off + q] = {rtrim(a[q].substr(0, k.rep)), true};
    } else {
      PDT W = k.type == LEVELS_BOOL ? LEVELS_BOOL : c.coin() ? k.type : c.pick(NUM); if (u.kind == 2 && W == LEVELS_INT8) W = LEVELS_UINT8; vector<ld> v; for (i64 q = 0; q < n; ++q) v.push_back(W == LEVELS_BOOL ? (ld)r.below(2) : gen_val(c, r, k.type, W, u.kind == 2));
      if (u.kind == 2 && k.type == LEVELS_UINT8) for (auto &x : v) x = std::min<ld>(x, 255);
      if (throws([&] { wr(c, h, W, i, v, off); })) die(fmt("writing %s to %s is refused", type2string(W), type2string(k.type))); if (n == 0) return; grow((off + n + per - 1) / per);
      for (i64 q = 0; q < n; ++q) k.c[off + q] = {k.type == LEVELS_FLOAT32 ? (ld)(float)v[q] : v[q], true};
    }
    ++writes;
  }
  void read_any() {
    Hdu &u = H(); int i = (int)c.range(1, (int)u.cols.size()); Col &k = u.cols[i - 1]; i64 tot = k.type == LEVELS_STRING ? u.rows : u.rows * k.rep; i64 off = c.range(0, tot), n = c.range(0, tot - off); bool entire = c.coin(1, 4); if (entire) off = 0, n = tot;
    hist += fmt("read(%d,%ld@%ld) ", i, (long)n, (long)off); if (k.rep == 0) return; read_piece(i, off, n, entire);
  }
  template <class T> void img_t(PDT P) {
    Hdu &u = H(); i64 np = (i64)u.pix.size(); vp::Rng r = c.bulk(); int op = (int)c.below(ro ? 4 : 6); (void)P;
    auto cmp = [&](i64 p, T g) { if (u.pix[p].known) { T w = (T)u.pix[p].v; if (!same(w, g)) die(fmt("pixel %ld is %.17g, expected %.17g", (long)p, (double)g, (double)w)); } };
    auto val = [&]() { T v = r.coin(.5) ? (T)r.real(-1, 1) : (T)r.range(-1000, 1000); if (r.coin(.05)) v = (T)NAN; return v; };
    if (np == 0) return; // pixels never written exist in the file only after it is closed
    if (!ro && op < 4) for (auto &x : u.pix) if (!x.known) { op = 4; break; }
    hist += fmt("img%d ", op);
    if (op == 0) { i64 off = c.range(0, np - 1), n = c.range(1, np - off); arr<T> a(n, (T)7); if (off == 0 && c.coin()) h.read_subimage(a); else h.read_subimage(a, off); for (i64 q = 0; q < n; ++q) cmp(off + q, a[q]); }
    else if (op == 1 && u.axes.size() == 2) { arr2<T> a; h.read_image(a); if ((i64)a.size1() != u.axes[0] || (i64)a.size2() != u.axes[1]) die("image has wrong dimensions"); for (i64 p = 0; p < np; ++p) cmp(p, a[p / u.axes[1]][p % u.axes[1]]); arr3<T> b; if (!throws([&] { h.read_image(b); })) die("a 2D image is read as 3D"); }
    else if (op == 2 && u.axes.size() == 3) { arr3<T> a; h.read_image(a); if ((i64)a.size1() != u.axes[0] || (i64)a.size2() != u.axes[1] || (i64)a.size3() != u.axes[2]) die("image has wrong dimensions"); for (i64 p = 0; p < np; ++p) cmp(p, a(p / (u.axes[1] * u.axes[2]), p / u.axes[2] % u.axes[1], p % u.axes[2])); arr2<T> b; if (!throws([&] { h.read_image(b); })) die("a 3D image is read as 2D"); }
    else if (op == 3 && u.axes.size() == 2) {
      i64 x = c.range(-1, u.axes[0]), y = c.range(-1, u.axes[1]), s1 = c.range(1, u.axes[0]), s2 = c.range(1, u.axes[1]); bool ok = x >= 0 && y >= 0 && x + s1 <= u.axes[0] && y + s2 <= u.axes[1]; arr2<T> a(s1, s2, (T)7);
      bool t = throws([&] { h.read_subimage(a, (int)x, (int)y); }); hist += fmt("sub(%ld,%ld,%ldx%ld of %ldx%ld) ", (long)x, (long)y, (long)s1, (long)s2, (long)u.axes[0], (long)u.axes[1]);
      if (t == ok) die(t ? "a sub-image is refused" : "a sub-image that leaves the image is delivered"); if (ok) for (i64 q = 0; q < s1; ++q) for (i64 w = 0; w < s2; ++w) cmp((x + q) * u.axes[1] + y + w, a[q][w]); }
    else if (op == 4) { i64 off = c.range(0, np - 1), n = c.range(1, np - off); arr<T> a(n); for (i64 q = 0; q < n; ++q) { a[q] = val(); u.pix[off + q] = {u.type == LEVELS_FLOAT32 ? (ld)(float)a[q] : (ld)a[q], true}; } if (off == 0 && c.coin()) h.write_subimage(a); else h.write_subimage(a, off); ++writes; }
    else if (op == 5 && u.axes.size() == 2) { arr2<T> a(u.axes[0], u.axes[1]); for (i64 p = 0; p < np; ++p) { T v = val(); a[p / u.axes[1]][p % u.axes[1]] = v; u.pix[p] = {u.type == LEVELS_FLOAT32 ? (ld)(float)v : (ld)v, true}; } h.write_image(a); ++writes;
      arr2<T> b(u.axes[0] + 1, u.axes[1], (T)1); if (!throws([&] { h.write_image(b); })) die("an image of wrong size is written"); }
  }
  void insert() {
    int kind = (int)c.below(4); Hdu u; vp::Rng r = c.bulk(); ++inserts;
    if (kind <= 1) { // tables
      u.kind = kind == 0 ? 1 : 2; int n = (int)c.range(1, 4); static const vector<PDT> T1 = {LEVELS_INT32, LEVELS_FLOAT64, LEVELS_FLOAT32, LEVELS_INT8, LEVELS_UINT8, LEVELS_INT16, LEVELS_INT64, LEVELS_BOOL, LEVELS_STRING}; vector<fitscolumn> v;
      for (int i = 0; i < n; ++i) { Col k; k.type = c.pick(T1); if (u.kind == 2 && k.type == LEVELS_BOOL) k.type = LEVELS_INT16; k.name = fmt("c%d_", i) + gen_str(c, 8, "abcXYZ_1"); k.unit = gen_str(c, 8, "abK/^2"); k.rep = k.type == LEVELS_STRING ? c.range(1, 12) : u.kind == 2 ? 1 : c.coin(1, 25) ? 0 : c.skew(1, 6); u.cols.push_back(k); v.push_back(fitscolumn(k.name, k.unit, k.rep, k.type)); }
      u.ext = "e" + gen_str(c, 8, "abcXYZ1"); hist += u.kind == 1 ? "bintab(" : "asctab("; for (auto &k : u.cols) hist += fmt("%ld%s,", (long)k.rep, type2string(k.type)); hist += ") ";
      if (u.kind == 1) h.insert_bintab(v, u.ext); else h.insert_asctab(v, u.ext);
    } else {
      int nd = kind == 3 ? 2 : c.coin(1, 6) ? (int)c.range(4, 6) : (int)c.range(0, 3); i64 np = nd ? 1 : 0; u.type = c.coin() ? LEVELS_FLOAT32 : LEVELS_FLOAT64; for (int i = 0; i < nd; ++i) { u.axes.push_back(c.range(1, nd > 3 ? 4 : c.coin(1, 30) ? 60 : 7)); np *= u.axes.back(); } u.pix.resize(np); hist += "image(" + std::to_string(nd) + ") ";
      if (kind == 2) h.insert_image(u.type, u.axes);
      else if (c.coin()) { arr2<double> a(u.axes[0], u.axes[1]); for (i64 p = 0; p < np; ++p) { double v = r.real(-5, 5); a[p / u.axes[1]][p % u.axes[1]] = v; u.pix[p] = {u.type == LEVELS_FLOAT32 ? (ld)(float)v : (ld)v, true}; } h.insert_image(u.type, a); }
      else { arr2<float> a(u.axes[0], u.axes[1]); for (i64 p = 0; p < np; ++p) { float v = (float)r.real(-5, 5); a[p / u.axes[1]][p % u.axes[1]] = v; u.pix[p] = {v, true}; } h.insert_image(u.type, a); }
    }
    f.insert(f.begin() + cur + 1, u); ++cur;
  }
  void check_key(const string &n, const Key &k) {
    auto num = [&](ld g, const char *tn) { if (k.type == LEVELS_FLOAT32 || k.type == LEVELS_FLOAT64) { ld tol = fabsl(k.v) * (k.type == LEVELS_FLOAT32 || tn[0] == 'f' ? 1e-6L : 1e-14L); if (!(fabsl(g - k.v) <= tol)) die(fmt("key %s read as %s is %.17Lg, expected %.17Lg", n.c_str(), tn, g, k.v)); } else if (g != k.v) die(fmt("key %s read as %s is %.20Lg, expected %.20Lg", n.c_str(), tn, g, k.v)); };
    Hush hs;
    if (!h.key_present(n)) die("key " + n + " is missing");
    if (k.type == LEVELS_STRING) { string s; h.get_key(n, s); if (rtrim(s) != rtrim(k.s)) die("key " + n + " is '" + s + "', expected '" + k.s + "'"); return; }
    if (k.type == LEVELS_BOOL) { if (h.get_key<bool>(n) != (k.v != 0)) die("logical key " + n + " differs"); return; }
    PDT R = c.coin() ? k.type : c.pick(NUM); if (!isint(k.type) && isint(R)) R = LEVELS_FLOAT64; if (isint(R) && isint(k.type)) { ld lo, hi; range(R, lo, hi); if (R == LEVELS_INT8) lo = -128; if (k.v < lo || k.v > hi) R = LEVELS_INT64; } if (isint(k.type) && !isint(R) && fabsl(k.v) > 16777216) R = LEVELS_INT64;
    switch (R) { case LEVELS_INT8: num(h.get_key<int8>(n), "int8"); break; case LEVELS_UINT8: num(h.get_key<uint8>(n), "uint8"); break; case LEVELS_INT16: num(h.get_key<int16>(n), "int16"); break; case LEVELS_INT32: num(h.get_key<int32>(n), "int32"); break; case LEVELS_INT64: num(h.get_key<int64>(n), "int64"); break; case LEVELS_FLOAT32: num(h.get_key<float>(n), "float"); break; default: num(h.get_key<double>(n), "double"); }
  }
  static const vector<string> &names() { static const vector<string> n = {"AKEY", "B-1_2", "lowkey", "MixedKey", "alowercaselongname", "VERYLONGKEYNAME", "CKEY1234", "q"}; return n; }
  void keys() {
    Hdu &u = H(); int op = (int)c.below(ro ? 2 : 5); string n = c.pick(names()); auto it = u.keys.find(n);
    if (op == 0) { if (it != u.keys.end()) check_key(n, it->second); else { if (h.key_present(n)) die("key " + n + " is present"); int q; string s; bool b; if (!throws([&] { h.get_key(n, q); }) || !throws([&] { h.get_key(n, s); }) || !throws([&] { h.get_key(n, b); })) die("a missing key is delivered"); } hist += "getkey "; }
    else if (op == 1) { vector<string> v = {"stale"}; h.get_all_keys(v); std::multiset<string> g(v.begin(), v.end()); for (auto &k : u.keys) if (g.count(upper(k.first)) != 1) die(fmt("key %s is listed %zu times", k.first.c_str(), g.count(upper(k.first)))); for (auto &k : names()) if (!u.keys.count(k) && g.count(upper(k))) die("deleted key " + k + " is listed"); hist += "allkeys "; }
    else if (op == 2 && it != u.keys.end()) { h.delete_key(n); u.keys.erase(it); hist += "delkey "; if (!throws([&] { h.delete_key(n); })) die("a missing key is deleted"); }
    else if (op == 3 && c.coin(1, 3)) { h.add_comment(gen_str(c, 100, "abc DEF=/'")); hist += "comment "; }
    else {
      Key k; vp::Rng r = c.bulk(); k.v = 0; static const vector<PDT> T = {LEVELS_INT32, LEVELS_STRING, LEVELS_BOOL, LEVELS_FLOAT32, LEVELS_FLOAT64, LEVELS_INT8, LEVELS_UINT8, LEVELS_INT16, LEVELS_INT64}; k.type = c.pick(T); string cm = gen_str(c, 20, "abc D'/"); hist += "setkey(" + n + "," + type2string(k.type) + ") ";
      bool t = throws([&] { switch (k.type) {
        case LEVELS_STRING: k.s = n == upper(n) && n.size() <= 8 && c.coin(1, 3) ? gen_str(c, 200, "abcdeXYZ 01/=.-") : gen_str(c, 30, "abcdeXYZ 01'/=.-"); /* cfitsio itself mishandles quotes and long names in continued strings */ h.set_key(n, k.s, k.s.size() > 40 ? string() : cm); break; case LEVELS_BOOL: k.v = r.below(2); h.set_key(n, k.v != 0, cm); break;
        case LEVELS_FLOAT32: { float x = (float)(r.real(-1, 1) * pow(10., (double)r.range(-20, 20))); k.v = x; h.set_key(n, x, cm); } break; case LEVELS_FLOAT64: { double x = r.real(-1, 1) * pow(10., (double)r.range(-30, 30)); k.v = x; h.set_key(n, x, cm); } break;
        case LEVELS_INT8: k.v = r.range(-128, 127); h.set_key(n, (int8)k.v, cm); break; case LEVELS_UINT8: k.v = r.range(0, 255); h.set_key(n, (uint8)k.v, cm); break; default: k.v = gen_val(c, r, k.type, k.type, false); if (k.type == LEVELS_INT16) h.set_key(n, (int16)k.v, cm); else if (k.type == LEVELS_INT32) h.set_key(n, (int32)k.v, cm); else h.set_key(n, (int64)k.v, cm); } });
      if (t) die("setting key " + n + " is refused"); u.keys[n] = k; check_key(n, k);
    }
  }
  string padded(size_t n) { string p = fn; size_t at = p.rfind('/') + 1; while (p.size() + 1 < n) p.insert(at, p.size() + 2 > n ? "/" : "./"); if (p.size() < n) p.insert(at, "/"); return p; } // the same file by a longer name
  void refused() {
    Hdu &u = H(); int op = (int)c.below(10); hist += fmt("refuse%d ", op); bool must = true, t = true; int nc = (int)u.cols.size(); bool moved = false; double x = 0; string s;
    switch (op) {
      case 0: { int k = c.coin() ? 0 : c.coin() ? (int)f.size() + 1 : -1; t = throws([&] { h.goto_hdu(k); }); moved = true; } break;
      case 1: { int k = u.kind ? (c.coin() ? 0 : c.coin() ? nc + 1 : -1) : 1; t = throws([&] { h.colname(k); }) && throws([&] { h.colunit(k); }) && throws([&] { h.repcount(k); }) && throws([&] { h.coltype(k); }) && throws([&] { h.nelems(k); }) && throws([&] { h.efficientChunkSize(k); }) && throws([&] { h.read_column(k, x); }) && throws([&] { h.read_column(k, s); }); if (t && !ro) t = throws([&] { h.write_column(k, x); }) && throws([&] { h.write_column(k, s); }); } break;
      case 2: if (u.kind == 0) t = throws([&] { h.ncols(); }) && throws([&] { h.nrows(); }); else { arr2<float> a; arr3<double> b; arr<float> d(1); t = throws([&] { h.axes(); }) && throws([&] { h.read_image(a); }) && throws([&] { h.read_image(b); }) && throws([&] { h.read_subimage(d); }) && throws([&] { arr2<double> e(1, 1, 0.); h.read_subimage(e, 0, 0); }); if (t && !ro) t = throws([&] { h.write_subimage(d); }) && throws([&] { arr2<float> e(1, 1, 0.f); h.write_image(e); }); } break;
      case 3: if (u.kind == 0) { must = false; t = false; break; } { int i = (int)c.range(1, nc); Col &k = u.cols[i - 1]; i64 tot = k.type == LEVELS_STRING ? u.rows : u.rows * k.rep; i64 off = c.range(0, tot), n = tot - off + c.range(1, 3); bool neg = c.coin(1, 4); if (neg) off = -c.range(1, 3), n = 1;
          if (k.type == LEVELS_STRING) { arr<string> a(n); t = throws([&] { h.read_column(i, a, off); }); } else if (k.type == LEVELS_BOOL) { arr<bool> a(n); t = throws([&] { h.read_column(i, a, off); }); } else { arr<double> a(n); t = throws([&] { h.read_column(i, a, off); }); } hist += fmt("(%d,%ld@%ld) ", i, (long)n, (long)off); } break;
      case 4: if (u.kind != 0 || u.pix.empty()) { must = false; t = false; break; } { i64 np = (i64)u.pix.size(), off = c.range(0, np), n = np - off + c.range(1, 3); bool neg = c.coin(1, 4); if (neg) off = -1, n = 1; arr<double> a(n, 0.); t = throws([&] { h.read_subimage(a, off); }); hist += fmt("(%ld@%ld of %ld) ", (long)n, (long)off, (long)np); } break;
      case 5: if (ro || u.kind != 0 || u.pix.empty()) { must = false; t = false; break; } { i64 np = (i64)u.pix.size(), off = c.range(0, np), n = np - off + c.range(1, 3); bool neg = c.coin(1, 4); if (neg) off = -1, n = 1; arr<double> a(n, 0.); t = throws([&] { h.write_subimage(a, off); }); for (i64 q = std::max<i64>(off, 0); q < np; ++q) u.pix[q].known = false; hist += fmt("(%ld@%ld of %ld) ", (long)n, (long)off, (long)np); } break;
      case 6: if (ro) { must = false; t = false; break; } { vector<int64> ax(2, 3); t = throws([&] { h.insert_image(LEVELS_INT32, ax); }); moved = true; } break;
      case 7: if (ro) { must = false; t = false; break; } { vector<fitscolumn> v; bool nm = c.coin(); v.push_back(fitscolumn(nm ? string(100 + c.below(300), 'n') : "ok", nm ? "" : string(100 + c.below(300), 'u'), 1, LEVELS_INT32)); bool as = c.coin(); t = throws([&] { if (as) h.insert_asctab(v); else h.insert_bintab(v); }); moved = true; } break;
      case 8: if (!ro) { must = false; t = false; break; } { vector<fitscolumn> v; v.push_back(fitscolumn("a", "", 1, LEVELS_INT32)); t = throws([&] { h.set_key("AKEY", 1); }); if (u.kind && u.cols[0].type != LEVELS_STRING && u.cols[0].rep) t = t && throws([&] { h.write_column(1, true); }); } break;
      case 9: { fitshandle g; arr<double> a(1); vector<string> v; vector<fitscolumn> fc; fc.push_back(fitscolumn("a", "", 1, LEVELS_INT32)); t = throws([&] { g.open(fn + ".absent"); }) && throws([&] { g.open(padded(1025 + (size_t)c.below(40))); }) && throws([&] { g.open(string(3000, 'x')); }) && throws([&] { g.goto_hdu(1); }) && throws([&] { g.num_hdus(); }) && throws([&] { g.fileName(); }) && throws([&] { g.axes(); }) && throws([&] { g.nrows(); }) && throws([&] { g.get_key<int>("A"); }) && throws([&] { g.set_key("A", 1); }) && throws([&] { g.key_present("A"); }) && throws([&] { g.get_all_keys(v); }) && throws([&] { g.read_column(1, a); }) && throws([&] { g.read_subimage(a); }) && throws([&] { g.insert_bintab(fc); }) && throws([&] { g.insert_image(LEVELS_FLOAT32, vector<int64>(1, 1)); }) && throws([&] { g.write_checksum(); }) && throws([&] { fitshandle::delete_file(fn + ".absent"); }) && throws([&] { g.create(fn); }); } break;
    }
    if (must && !t) die(fmt("access that must be refused is accepted (kind %d)", op));
    if (moved) h.goto_hdu(cur + 1); // wherever the failed call left the handle, the current HDU is reachable
    c.cls("refused access");
  }
  void step() {
    int op = (int)c.below(ro ? 12 : 14); Hdu &u = H();
    if (op >= 12 && f.size() < 6) insert();
    else if (op == 0) { int k = (int)c.range(1, (int)f.size()); hist += fmt("goto(%d) ", k); h.goto_hdu(k); cur = k - 1; }
    else if (op == 1) keys();
    else if (op == 2) refused();
    else if (op == 3 && !ro && c.coin(1, 4)) { h.write_checksum(); hist += "checksum "; }
    else if (op == 4) keys();
    else if (u.kind == 0) { if (c.coin()) img_t<float>(LEVELS_FLOAT32); else img_t<double>(LEVELS_FLOAT64); }
    else if (op < 8 && !ro) write_piece(); else read_any();
    meta();
  }
  // the file as cfitsio itself sees it
  void independent() {
    int st = 0; fitsfile *p = nullptr; fits_open_file(&p, fn.c_str(), READONLY, &st); int n = 0; fits_get_num_hdus(p, &n, &st); if (st || n != (int)f.size()) die(fmt("cfitsio sees %d HDUs (status %d)", n, st));
    for (int q = 0; q < n; ++q) {
      Hdu &u = f[q]; int ty; fits_movabs_hdu(p, q + 1, &ty, &st); if (ty != (u.kind == 0 ? IMAGE_HDU : u.kind == 1 ? BINARY_TBL : ASCII_TBL)) die("HDU type differs");
      if (u.kind == 0) { int nd; LONGLONG ax[9]; fits_get_img_dim(p, &nd, &st); fits_get_img_sizell(p, 9, ax, &st); if (nd != (int)u.axes.size()) die("NAXIS differs"); for (int i = 0; i < nd; ++i) if (ax[i] != u.axes[nd - 1 - i]) die("NAXISn differ"); if (u.pix.size()) { vector<double> v(u.pix.size()); fits_read_img(p, TDOUBLE, 1, v.size(), 0, v.data(), 0, &st); for (size_t i = 0; i < v.size(); ++i) if (u.pix[i].known && !same(v[i], u.pix[i].v)) die("cfitsio reads another pixel value"); } }
      else {
        long rows; int nc; fits_get_num_rows(p, &rows, &st); fits_get_num_cols(p, &nc, &st); if (rows != u.rows || nc != (int)u.cols.size()) die("cfitsio sees other numbers of rows or columns"); char e[100] = ""; fits_read_key(p, TSTRING, "EXTNAME", e, 0, &st); if (e != u.ext) die("EXTNAME differs");
        for (int i = 0; i < nc; ++i) { Col &k = u.cols[i]; char b[100]; fits_read_key(p, TSTRING, fmt("TTYPE%d", i + 1).c_str(), b, 0, &st); if (b != k.name) die("TTYPE differs");
          if (u.kind == 1) { fits_read_key(p, TSTRING, fmt("TFORM%d", i + 1).c_str(), b, 0, &st); const char *cs = k.type == LEVELS_BOOL ? "L" : k.type == LEVELS_FLOAT32 ? "E" : k.type == LEVELS_FLOAT64 ? "D" : k.type == LEVELS_INT16 ? "I" : k.type == LEVELS_INT32 ? "J" : k.type == LEVELS_INT64 ? "K" : k.type == LEVELS_STRING ? "A" : "B"; if (b != fmt("%ld%s", (long)k.rep, cs)) die(fmt("TFORM is %s", b)); }
          if (k.c.size() && k.type != LEVELS_BOOL && k.type != LEVELS_INT64 && u.kind == 1) { vector<double> v(k.c.size()); fits_read_col(p, TDOUBLE, i + 1, 1, 1, v.size(), 0, v.data(), 0, &st); for (size_t z = 0; z < v.size(); ++z) if (k.c[z].known && !same(v[z], k.c[z].v)) die(fmt("cfitsio reads %.17g, expected %.17Lg", v[z], k.c[z].v)); } }
      }
      for (auto &k : u.keys) { char card[100]; fits_read_card(p, k.first.c_str(), card, &st); if (isint(k.second.type)) { LONGLONG v; fits_read_key(p, TLONGLONG, k.first.c_str(), &v, 0, &st); if ((ld)v != k.second.v) die(fmt("cfitsio reads key %s as %lld", k.first.c_str(), (long long)v)); } if (st) die("cfitsio does not find key " + k.first); }
      int a, b; int s2 = 0; fits_verify_chksum(p, &a, &b, &s2); (void)a; (void)b;
    }
    fits_close_file(p, &st); if (st) die(fmt("cfitsio status %d", st));
  }
};
} // namespace
namespace { void fits_run(vp::Ctx &c, Model &m, const string &fn) {
  m.h.create(fn); m.f.push_back(Hdu()); m.meta();
  int steps = (int)c.range(5, c.big ? 60 : 30); for (int i = 0; i < steps; ++i) m.step();
  if (m.h.fileName() != fn) m.die("file name differs");
  m.h.close(); m.hist += "| "; m.independent(); string how = c.coin(1, 3) ? m.padded(c.coin() ? 1024 - (size_t)c.below(3) : fn.size() + (size_t)c.below(900)) : fn; if (how != fn) m.hist += fmt("name of %zu characters ", how.size()); m.h.open(how); if (how == fn && m.h.fileName() != fn) m.die("file name differs after reopening"); m.cur = 0; m.ro = true; m.meta();
  for (int q = 0; q < (int)m.f.size(); ++q) { m.h.goto_hdu(q + 1); m.cur = q; m.meta(); Hdu &u = m.H(); for (auto &k : u.keys) m.check_key(k.first, k.second); for (int i = 1; i <= (int)u.cols.size(); ++i) if (u.cols[i - 1].rep) m.read_piece(i, 0, u.cols[i - 1].type == LEVELS_STRING ? u.rows : u.rows * u.cols[i - 1].rep, c.coin()); for (int w = 0; w < 3; ++w) if (u.kind == 0) m.img_t<double>(LEVELS_FLOAT64); }
  int rs = (int)c.range(0, 8); for (int i = 0; i < rs; ++i) m.step();
  m.h.close(); delete &m.h; unlink(fn.c_str()); c.note("history", m.hist); c.nontrivial(m.inserts > 0 && m.writes > 0);
}
}
VP_PROP(fits_histories) {
  string fn = c.dir + "/h.fits"; unlink(fn.c_str()); Model m(c, fn);
  try { fits_run(c, m, fn); } catch (LEVELSError &e) { m.die(string("refused: ") + e.what()); }
}

// A disk that fills up: some call reports it, the file never passes for complete, and the handle stays usable.
VP_PROP(fits_faults) {
  string fn = c.dir + "/f.fits", f2 = c.dir + "/g.fits"; unlink(fn.c_str()); unlink(f2.c_str()); signal(SIGXFSZ, SIG_IGN);
  i64 rows = c.range(1, 6000); bool image = c.coin(); i64 bytes = 2880 * (image ? 2 : 2) + (rows * 8 + 2879) / 2880 * 2880; i64 lim = c.range(0, bytes / 512 - 1) * 512 + c.range(0, 511); bool full = c.coin(1, 5); if (full) lim = bytes + 28800; int where = 0; bool thrown = false; vp::Rng r = c.bulk();
  arr<double> a(rows); for (i64 i = 0; i < rows; ++i) a[i] = r.real(-1, 1); c.note("rows", rows).note("limit", lim).note("needed", bytes); c.cls(full ? "enough space" : "not enough space");
  vector<i64> piece; if (image) piece.push_back(rows); else for (i64 o2 = 0; o2 < rows;) { i64 n = std::min<i64>(rows - o2, c.range(1, 6000)); piece.push_back(n); o2 += n; }
  struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); fitshandle *h = new fitshandle; { Hush hs; l = o; l.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &l);
    try { h->create(fn); where = 1; if (image) { h->insert_image(LEVELS_FLOAT64, vector<int64>(1, rows)); where = 2; h->write_subimage(a, 0); } else { vector<fitscolumn> v; v.push_back(fitscolumn("a", "b", 1, LEVELS_FLOAT64)); h->insert_bintab(v); where = 2; i64 o2 = 0; for (i64 n : piece) { h->write_column_raw(1, &a[o2], n, o2); o2 += n; } } where = 3; h->close(); where = 4; } catch (LEVELSError &) { thrown = true; }
    setrlimit(RLIMIT_FSIZE, &o); }
  c.note("reached", where); bool must = lim < bytes - 2 * 4096; /* cfitsio does not notice when only its last buffer cannot be written */ if (must) c.cls("failure to be reported"); if (thrown ? full : must) c.fail(full ? "writing is refused although there is space" : "a file that could not be written completely is reported as written");
  if (thrown) { bool t2 = throws([&] { h->close(); }); if (t2 && throws([&] { h->close(); })) c.fail("the handle cannot be closed"); }
  { Hush hs; h->create(f2); h->set_key("A", 5); h->close(); h->open(f2); if (h->get_key<int>("A") != 5) c.fail("the handle is not usable afterwards"); h->close();
    if (full) { h->open(fn); h->goto_hdu(2); arr<double> b(rows); if (image) h->read_subimage(b, 0); else h->read_column(1, b); for (i64 i = 0; i < rows; ++i) if (a[i] != b[i]) c.fail("the data differ"); } }
  delete h; unlink(fn.c_str()); unlink(f2.c_str()); c.nontrivial(must && where >= 2);
}

// ------------------------------------------------------------------ L04
namespace {
typedef std::map<std::pair<int, int>, std::pair<double, double>> Tab;
double val(vp::Rng &r, int mode) {
  switch (mode) { case 0: return r.real(-1, 1); case 1: return r.real(-1, 1) * pow(10., (double)r.range(-300, 300)); case 2: return r.real(-1, 1) * pow(10., (double)r.range(-45, 37)); case 3: return r.coin(.5) ? 0. : r.coin(.5) ? -0. : (double)r.range(-3, 3); default: return r.coin(.3) ? DBL_TRUE_MIN * (double)r.range(1, 9) : r.real(-1, 1) * 1e-170; }
}
template <class T> struct Src { std::unique_ptr<Alm<xcomplex<T>>> a; int l, m; };
template <class T> Src<T> make(vp::Ctx &c, vp::Rng &r, int l, int m, int mode, double dens) {
  Src<T> s; s.l = l; s.m = m; s.a.reset(new Alm<xcomplex<T>>(l, m)); s.a->SetToZero(); (void)c;
  for (int i = 0; i <= l; ++i) for (int j = 0; j <= std::min(i, m); ++j) if (r.coin(dens)) { double x = val(r, mode), y = val(r, mode); (*s.a)(i, j).Set((T)x, (T)y); }
  return s;
}
template <class T> void run_alm(vp::Ctx &c) {
  string fn = c.dir + "/alm.fits"; unlink(fn.c_str()); vp::Rng r = c.bulk(); bool pol = c.coin(1, 3), comp = c.coin(); PDT dt = c.coin() ? LEVELS_FLOAT32 : LEVELS_FLOAT64; bool large = c.coin(1, 25);
  int la = large ? (int)c.range(90, c.big ? 260 : 180) : (int)c.skew(0, 24), ma = (int)(c.coin() ? la : c.range(0, la)); int mode = (int)c.below(5); if (sizeof(T) == 8 && dt == LEVELS_FLOAT32 && mode == 1) mode = 2; if (sizeof(T) == 4 && mode == 1) mode = 2; double dens = c.coin() ? 1 : c.coin() ? .5 : c.coin() ? .05 : 0;
  auto order = [&](int o) { int k = (int)c.below(4); return k < 2 ? o : k == 2 ? (int)c.range(0, o) : o + (int)c.range(1, 4); };
  int lw = order(la), mw = std::min(order(ma), lw); int nt = pol ? 3 : 1; Tab tab[3]; int sl[3], sm[3]; vector<Src<T>> src;
  c.note("T", sizeof(T) * 8).note("stored", type2string(dt)).note("orders", fmt("%d,%d", la, ma)).note("written", fmt("%d,%d", lw, mw)).note("mode", mode).note("density", dens).note(comp ? "compressed" : "plain", nt); c.cls(large ? "more rows than one chunk" : "small"); c.cls(comp ? "compressed" : "plain"); if (lw > la || mw > ma) c.cls("orders beyond the coefficients");
  auto st = [&](double v) { return dt == LEVELS_FLOAT32 ? (double)(float)v : v; };
  for (int k = 0; k < nt; ++k) {
    src.push_back(make<T>(c, r, la, ma, mode, dens)); sl[k] = comp ? 0 : lw; sm[k] = comp ? 0 : mw;
    for (int l = 0; l <= std::min(la, lw); ++l) for (int m = 0; m <= std::min(l, std::min(ma, mw)); ++m) { auto &x = (*src[k].a)(l, m); if (comp && x.re == 0 && x.im == 0) continue; tab[k][{l, m}] = {st(x.re), st(x.im)}; if (comp) { sl[k] = std::max(sl[k], l); sm[k] = std::max(sm[k], m); } }
  }
  { Hush hs;
    if (comp || c.coin()) { fitshandle o; o.create(fn); for (int k = 0; k < nt; ++k) { if (comp) write_compressed_Alm_to_fits(o, *src[k].a, lw, mw, dt); else write_Alm_to_fits(o, *src[k].a, lw, mw, dt); } }
    else if (pol) write_Alm_to_fits(fn, *src[0].a, *src[1].a, *src[2].a, lw, mw, dt); else write_Alm_to_fits(fn, *src[0].a, lw, mw, dt); }
  // the tables as cfitsio sees them
  bool strip = c.coin(1, 3); int e = 0; fitsfile *p = nullptr; fits_open_file(&p, fn.c_str(), strip ? READWRITE : READONLY, &e); int rl[3], rm[3];
  for (int k = 0; k < nt; ++k) {
    long n = 0; fits_movabs_hdu(p, 2 + k, 0, &e); fits_get_num_rows(p, &n, &e); int kl, km; fits_read_key(p, TINT, "MAX-LPOL", &kl, 0, &e); fits_read_key(p, TINT, "MAX-MPOL", &km, 0, &e); if (e || kl != sl[k] || km != sm[k]) c.fail(fmt("table %d says lmax %d mmax %d, expected %d %d (status %d)", k, kl, km, sl[k], sm[k], e));
    vector<int> ix(n); vector<double> re(n), im(n); if (n) { fits_read_col(p, TINT, 1, 1, 1, n, 0, ix.data(), 0, &e); fits_read_col(p, TDOUBLE, 2, 1, 1, n, 0, re.data(), 0, &e); fits_read_col(p, TDOUBLE, 3, 1, 1, n, 0, im.data(), 0, &e); }
    long want = comp ? (long)tab[k].size() : 0; if (!comp) for (int l = 0; l <= lw; ++l) want += std::min(l, mw) + 1; if (n != want) c.fail(fmt("table %d has %ld rows, expected %ld", k, n, want));
    std::set<int> seen; rl[k] = rm[k] = -1; for (long i = 0; i < n; ++i) { int l = (int)sqrt(ix[i] - .5), m = ix[i] - l * l - l - 1; if (m < 0 || m > l || l > lw || m > mw || !seen.insert(ix[i]).second) c.fail(fmt("index %d is out of range or repeated", ix[i])); auto it = tab[k].find({l, m}); double x = 0, y = 0; if (it != tab[k].end()) x = it->second.first, y = it->second.second; if (re[i] != x || im[i] != y) c.fail(fmt("the file has (%d,%d) = %g,%g, expected %g,%g", l, m, re[i], im[i], x, y)); rl[k] = std::max(rl[k], l); rm[k] = std::max(rm[k], m); }
    if (strip) { fits_delete_key(p, "MAX-LPOL", &e); fits_delete_key(p, "MAX-MPOL", &e); sl[k] = rl[k]; sm[k] = rm[k]; }
  }
  fits_close_file(p, &e); if (e) c.fail(fmt("cfitsio status %d", e)); if (strip) c.cls("without order keywords");
  // and as the library reads them
  for (int k = 0; k < nt; ++k) { int l = -5, m = -5; get_almsize(fn, l, m, 2 + k); if (l != sl[k] || m != sm[k]) c.fail(fmt("get_almsize gives %d %d, expected %d %d", l, m, sl[k], sm[k])); }
  if (pol) { int l, m; get_almsize_pol(fn, l, m); int wl = std::max({0, sl[0], sl[1], sl[2]}), wm = std::max({0, sm[0], sm[1], sm[2]}); if (l != wl || m != wm) c.fail(fmt("get_almsize_pol gives %d %d, expected %d %d", l, m, wl, wm)); }
  int reads = (int)c.range(1, 3); Alm<xcomplex<float>> f[3]; Alm<xcomplex<double>> d[3];
  for (int q = 0; q < reads; ++q) {
    int lr = order(lw), mr = std::min(order(mw), lr); bool dbl = c.coin(), all = pol && c.coin(); if (!dbl && mode == 1) dbl = true; c.note("read", fmt("%d,%d%s", lr, mr, dbl ? " double" : " float"));
    if (all) { if (dbl) read_Alm_from_fits(fn, d[0], d[1], d[2], lr, mr); else read_Alm_from_fits(fn, f[0], f[1], f[2], lr, mr); }
    else for (int k = 0; k < nt; ++k) { if (dbl) read_Alm_from_fits(fn, d[k], lr, mr, 2 + k); else read_Alm_from_fits(fn, f[k], lr, mr, 2 + k); }
    for (int k = 0; k < nt; ++k) {
      if ((dbl ? d[k].Lmax() : f[k].Lmax()) != lr || (dbl ? d[k].Mmax() : f[k].Mmax()) != mr) c.fail("wrong orders after reading");
      for (int l = 0; l <= lr; ++l) for (int m = 0; m <= std::min(l, mr); ++m) { auto it = tab[k].find({l, m}); double x = 0, y = 0; if (it != tab[k].end()) x = it->second.first, y = it->second.second; if (!dbl) x = (float)x, y = (float)y; double gx = dbl ? d[k](l, m).re : f[k](l, m).re, gy = dbl ? d[k](l, m).im : f[k](l, m).im; if (gx != x || gy != y) c.fail(fmt("coefficient (%d,%d) of table %d is %.17g,%.17g, expected %.17g,%.17g", l, m, k, gx, gy, x, y)); }
    }
  }
  if (!throws([&] { read_Alm_from_fits(fn, d[0], 2, 3); })) c.fail("mmax above lmax is accepted");
  if (!throws([&] { read_Alm_from_fits(fn, d[0], 2, 2, 2 + nt); })) c.fail("a missing table is accepted");
  unlink(fn.c_str()); c.nontrivial(tab[0].size() > 1);
}
}
VP_PROP(alm_files) { try { if (c.coin()) run_alm<double>(c); else run_alm<float>(c); } catch (LEVELSError &e) { c.fail(string("refused: ") + e.what()); } }
VP_MAIN
