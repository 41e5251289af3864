// L19: nothing accumulates. Every allocation of the process is counted (the allocation functions are
// interposed here), and so are open files; an operation repeated from equal starting points must come back
// to the same counts.
#include "vp.hpp"
#include "ls_rng.h"
#include "ls_vec3.h"
#include "ls_rotmatrix.h"
#include "conv_gen.hpp"
#include <atomic>
#include <dirent.h>
#include <malloc.h>
#include <memory>
#include "cconviqt.h"
#include "ls_alm_fitsio.h"
#include "ls_alm_powspec_tools.h"
#include "ls_powspec.h"
#include "ls_fftpack_support.h"
#include "ls_wigner.h"
#include "ls_rng.h"
#include "ls_rotmatrix.h"
#include "ls_string_utils.h"
#include "svd_c.h"
#include "wrec3a.h"
#include "time_utils.h"
#include "memusage.h"
#include "c_utils.h"
extern "C" int conviqt_detector_set_id(void *, char *);
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
}
static std::atomic<long> blocks(0), bytes(0);
static inline void *in(void *p) { if (p) { blocks.fetch_add(1, std::memory_order_relaxed); bytes.fetch_add((long)malloc_usable_size(p), std::memory_order_relaxed); } return p; }
static inline void out(void *p) { if (p) { blocks.fetch_sub(1, std::memory_order_relaxed); bytes.fetch_sub((long)malloc_usable_size(p), std::memory_order_relaxed); } }
extern "C" {
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void free(void *p) { out(p); __libc_free(p); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { out(p); void *q = __libc_realloc(p, n); if (!q && n && p) in(p); return in(q); }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) { if (a % sizeof(void *) || (a & (a - 1)) || !a) return 22; void *p = __libc_memalign(a, n); if (!p) return 12; *r = in(p); return 0; }
}
using namespace cv; using namespace levels; using std::string; using std::vector; using vp::fmt;

namespace {
struct Hush { int fd; Hush() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Hush() { fflush(stderr); dup2(fd, 2); close(fd); } };
template <class F> bool threw(F f) { try { f(); return false; } catch (...) { return true; } }
long open_files() { long n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }

typedef std::function<void(vp::Rng)> Op; // runs one history; equal generator, equal history

void op_fits(vp::Rng r, const string &dir) {
  string fn = dir + "/l.fits"; int mode = (int)r.range(0, 7); unlink(fn.c_str()); string bad = dir + "/garbage";
  if (mode == 0) { fitshandle h; threw([&] { h.open(dir + "/none.fits"); }); threw([&] { h.goto_hdu(2); }); return; }
  if (mode == 1) { { FILE *f = fopen(bad.c_str(), "w"); for (int i = 0; i < 6000; ++i) fputc('a' + i % 20, f); fclose(f); } fitshandle h; threw([&] { h.open(bad); }); threw([&] { h.open(bad); }); return; }
  fitshandle h; h.create(fn); int nt = (int)r.range(1, 3);
  for (int t = 0; t < nt; ++t) {
    int kind = (int)r.range(0, 2);
    if (kind == 2) { vector<int64> ax = {(int64)r.range(1, 9), (int64)r.range(1, 9)}; h.insert_image(LEVELS_FLOAT64, ax); arr<double> a(ax[0] * ax[1]); a.fill(1.5); h.write_subimage(a); if (r.coin()) { arr2<double> b; h.read_image(b); } }
    else {
      vector<fitscolumn> cols; int nc = (int)r.range(1, 4); for (int i = 0; i < nc; ++i) cols.push_back(fitscolumn(fmt("c%d", i), "u", kind == 1 ? 1 : r.range(1, 5), i == 2 ? LEVELS_STRING : i % 2 ? LEVELS_INT32 : LEVELS_FLOAT64));
      if (kind == 1) h.insert_asctab(cols); else h.insert_bintab(cols); int n = (int)r.range(1, 40) * 5; arr<double> a(n); for (int i = 0; i < n; ++i) a[i] = i; h.write_column(1, a); if (nc > 1) { arr<int> b(n); b.fill(3); h.write_column(2, b); }
      if (nc > 2) { arr<string> s(5); s.fill("txt"); threw([&] { h.write_column(3, s); }); arr<string> q(3); threw([&] { h.read_column(3, q); }); } if (r.coin()) { arr<double> z; threw([&] { h.read_entire_column(1, z); }); /* cfitsio cannot read the never written end of a last row */ }
      threw([&] { arr<int> z(9); h.read_column(nc + 1, z); }); threw([&] { arr<int> z(10000); h.read_column(1, z); }); threw([&] { arr2<double> z; h.read_image(z); });
    }
    h.set_key("KEY", t); h.set_key("LONGSTR", string(r.range(0, 20), 'k')); int k; threw([&] { h.get_key("NOSUCH", k); }); threw([&] { h.get_key("LONGSTR", k); }); string sk; threw([&] { h.get_key("LONGSTR", sk); }); threw([&] { h.get_key("NOSUCH", sk); }); threw([&] { h.get_key("KEY", sk); }); bool bk; double dk; threw([&] { h.get_key("KEY", bk); }); threw([&] { h.get_key("KEY", dk); }); h.set_key("TOGO", 1.5); h.set_key("KEY", 7); h.delete_key("TOGO"); threw([&] { h.delete_key("TOGO"); }); vector<string> ks; h.get_all_keys(ks); if (r.coin()) h.add_comment("a comment"); if (r.coin()) h.write_checksum(); h.key_present("KEY"); h.key_present("OTHER"); h.fileName();
  }
  threw([&] { h.goto_hdu(99); }); threw([&] { h.assert_pdmtype("x"); }); h.goto_hdu(1 + (int)r.range(0, nt));
  if (mode == 2) h.close(); if (mode == 3) { h.close(); { fitsfile *ff; int st = 0; fits_open_file(&ff, fn.c_str(), READWRITE, &st); fits_movabs_hdu(ff, 2, 0, &st); fits_write_key_null(ff, (char *)"UNDEF", (char *)"no value", &st); fits_close_file(ff, &st); } h.open(fn); h.goto_hdu(2); string u; int ui; threw([&] { h.get_key("UNDEF", u); }); threw([&] { h.get_key("UNDEF", ui); }); } if (mode == 4) { fitshandle g; threw([&] { g.create(fn); }); threw([&] { h.create(fn); }); } if (mode == 5) { threw([&] { h.open(dir + "/none"); }); } if (mode == 6) { h.open(fn); h.open(fn); } if (mode == 7) { threw([&] { fitshandle g; g.open(fn); g.goto_hdu(2); throw 1; }); }
}
void op_fft(vp::Rng r) {
  int n = (int)r.range(1, 12), k = (int)r.range(0, 5); static const int big[] = {101, 211, 1009, 514, 97 * 2, 4099}; if (r.coin()) n = big[r.below(6)]; vector<double> d(2 * n + 2, .5);
  if (k == 0) { complex_plan p = make_complex_plan(n), q = copy_complex_plan(p); complex_plan_forward(p, d.data()); complex_plan_backward(q, d.data()); kill_complex_plan(p); kill_complex_plan(q); complex_plan_forward; copy_complex_plan(0); }
  else if (k == 1) { real_plan p = make_real_plan(n), q = copy_real_plan(p); real_plan_forward_fftpack(p, d.data()); real_plan_backward_fftpack(q, d.data()); real_plan_forward_fftw(p, d.data()); real_plan_backward_fftw(p, d.data()); real_plan_forward_c(p, d.data()); real_plan_backward_c(q, d.data()); kill_real_plan(p); kill_real_plan(q); }
  else if (k == 2) { cfft a(n), b(a), c2; c2 = a; c2 = b; c2.Set(n + 1); a.Set(n); a.Set(3); a = c2; b = c2; arr<xcomplex<double>> z(n + 1); z.fill(xcomplex<double>(1, 2)); c2.forward(z); c2.backward(z); cfft e; e = e; }
  else if (k == 3) { rfft a(n), b(a), c2; c2 = a; c2 = b; c2.Set(n + 1); a.Set(n); a.Set(3); a = c2; b = c2; arr<double> z(n + 1); z.fill(1); c2.forward_fftpack(z); c2.backward_fftpack(z); arr<xcomplex<double>> y(n + 1); y.fill(xcomplex<double>(1, 2)); c2.forward_c(y); c2.backward_c(y); }
  else if (k == 4 && r.coin()) { // a pool of objects, used and emptied and copied in any order
    cfft a[3]; rfft b[3]; int ops = (int)r.range(1, 14);
    for (int i = 0; i < ops; ++i) { int x = (int)r.below(3), y = (int)r.below(3), z = (int)r.range(1, 30); bool f = r.coin(); switch (r.below(7)) {
      case 0: case 1: if (f) a[x].Set(z); else b[x].Set(z); break; case 2: if (f) a[x] = a[y]; else b[x] = b[y]; break; case 3: if (f) a[x] = cfft(); else b[x] = rfft(); break; case 4: if (f) { cfft q(a[x]); a[y] = q; } else { rfft q(b[x]); b[y] = q; } break; case 5: if (f) { cfft q(z); a[x] = q; std::swap(a[x], a[y]); } else { rfft q(z); b[x] = q; std::swap(b[x], b[y]); } break;
      default: if (f && a[x].size()) { vector<double> e(2 * a[x].size() + 2, 1.); a[x].forward(e.data()); a[x].backward(e.data()); } else if (!f && b[x].size()) { vector<double> e(2 * b[x].size() + 2, 1.); b[x].forward_fftpack(e.data()); b[x].backward_fftpack(e.data()); } } } }
  else if (k == 4) { vector<cfft> v; for (int i = 1; i < 6; ++i) v.push_back(cfft(n + i)); v.erase(v.begin() + 1); v[0] = v[2]; }
  else { vector<rfft> v; for (int i = 1; i < 6; ++i) v.push_back(rfft(n + i)); v.erase(v.begin() + 1); v[0] = v[2]; }
}
void op_linear(vp::Rng r) {
  int n = (int)r.range(1, 8), m = n + (int)r.range(0, 5); vector<vector<double>> a(m, vector<double>(n)); vector<double *> p; for (auto &x : a) { for (auto &y : x) y = r.real(-1, 1); p.push_back(x.data()); } svd_obj o; svd_init(p.data(), 1e-12, m, n, &o); vector<double> b(m, 1.); svd_solve(&o, b.data()); svd_destroy(&o);
  double l2 = r.range(0, 12), l3 = r.range(0, 12), m2 = r.range(-(int)l2, (int)l2), m3 = r.range(-(int)l3, (int)l3); int sz = (int)(l2 + l3 - std::max(fabs(l2 - l3), fabs(m2 + m3))) + 1; if (sz < 1) return; vector<double> res(sz); wrec3jj(l2, l3, m2, m3, res.data(), sz);
}
void op_wigner(vp::Rng r) {
  int l = (int)r.range(1, 12), k = (int)r.range(0, 5); double th = r.real(0, 3);
  if (k == 0) { wigner_d_halfpi_risbo_scalar w(l); for (int i = 0; i <= l; ++i) w.recurse(); } else if (k == 1) { wigner_d_risbo_scalar w(l, th); for (int i = 0; i <= l; ++i) w.recurse(); } else if (k == 2) { wigner_d_halfpi_risbo_openmp w(l); for (int i = 0; i <= l; ++i) w.recurse(); } else if (k == 3) { wigner_d_risbo_openmp w(l, th); for (int i = 0; i <= l; ++i) w.recurse(); }
  else { arr<double> t(4); for (int i = 0; i < 4; ++i) t[i] = r.real(0, 3); wignergen w(l, t, 1e-30); int f; for (int m = 0; m <= std::min(l, 3); ++m) { w.prepare(m, -m); w.calc(0, f); w.calc(1, 2, f); arr<double> x(l + 1); w.calc(3, f, x); } if (k == 5) threw([&] { w.prepare(l + 3, 0); arr<double> bad(2); bad[0] = -1; bad[1] = 7; wignergen v(l, bad, 1e-30); int g; v.prepare(0, 0); v.calc(0, g); }); wigner_estimator e(l, 100); e.prepare_m(0, 0); threw([&] { e.canSkip(1.); }); }
}
template <class A, class F> void pool_of(vp::Rng &r, F fresh) { A a[3]; int ops = (int)r.range(1, 12); for (int i = 0; i < ops; ++i) { int x = (int)r.below(3), y = (int)r.below(3); switch (r.below(6)) { case 0: case 1: a[x] = fresh(r); break; case 2: a[x] = a[y]; break; case 3: a[x] = A(); break; case 4: { A q(a[x]); a[y] = q; } break; default: { A q(fresh(r)); q.swap(a[x]); a[y] = q; } } } }
struct Spec : PowSpec { Spec() {} Spec(int n, int l) : PowSpec(n, l) {} void swap(Spec &o) { std::swap(*this, o); } };
template <class A> void resizing(vp::Rng &r) { A a, b(3); int ops = (int)r.range(1, 10); for (int i = 0; i < ops; ++i) { A &x = r.coin() ? a : b; switch (r.below(5)) { case 0: x.alloc(r.below(40)); break; case 1: x.dealloc(); break; case 2: x.alloc(0); break; case 3: a.swap(b); break; default: threw([&] { x.alloc((size_t)1 << 60); }); } } }
void op_pools(vp::Rng r) {
  switch (r.below(8)) {
    case 0: pool_of<arr<double>>(r, [](vp::Rng &q) { return arr<double>(q.below(50)); }); break;
    case 1: pool_of<arr<string>>(r, [](vp::Rng &q) { return arr<string>(q.below(9), string(q.below(60), 'x')); }); break;
    case 2: pool_of<arr2<double>>(r, [](vp::Rng &q) { return arr2<double>(q.below(9), q.below(9)); }); break;
    case 3: pool_of<arr3<float>>(r, [](vp::Rng &q) { return arr3<float>(q.below(5), q.below(5), q.below(5)); }); break;
    case 4: pool_of<Alm<xcomplex<double>>>(r, [](vp::Rng &q) { int l = (int)q.below(9); return Alm<xcomplex<double>>(l, (int)q.below(l + 1)); }); break;
    case 5: pool_of<Spec>(r, [](vp::Rng &q) { static const int n[] = {1, 4, 6}; return Spec(n[q.below(3)], (int)q.below(9)); }); break;
    case 6: resizing<arr<double>>(r); break;
    default: resizing<arr_align<double, 32>>(r); { arr<int> a; int n = 0; for (int i = 0, k = (int)r.range(0, 8); i < k; ++i) { a.resize(n = (int)r.below(50)); } arr2b<double> b; for (int i = 0, k = (int)r.range(0, 4); i < k; ++i) b.alloc(r.below(6), 1 + r.below(6)); arr2<int> c2; for (int i = 0, k = (int)r.range(0, 5); i < k; ++i) if (r.coin()) c2.alloc(r.below(6), r.below(6)); else c2.fast_alloc(r.below(6), r.below(6)); arr3<int> d; for (int i = 0, k = (int)r.range(0, 4); i < k; ++i) d.alloc(r.below(6), r.below(6), r.below(6)); }
  }
}
void op_alm(vp::Rng r, const string &dir) {
  int l = (int)r.range(1, 10), m = (int)r.range(0, l), k = (int)r.range(0, 6); Alm<xcomplex<double>> a(l, m), b(l, m), c2(l, m); for (int j = 0; j <= m; ++j) for (int i = j; i <= l; ++i) { a(i, j) = xcomplex<double>(r.real(-1, 1), j ? r.real(-1, 1) : 0); b(i, j) = c2(i, j) = a(i, j); }
  string fn = dir + "/a.fits"; unlink(fn.c_str());
  if (k == 0) { write_Alm_to_fits(fn, a, l, m, LEVELS_FLOAT64); int x, y; get_almsize(fn, x, y); Alm<xcomplex<double>> q; read_Alm_from_fits(fn, q, x, y); threw([&] { get_almsize(fn, x, y, 7); }); threw([&] { read_Alm_from_fits(fn, q, l, m, 9); }); threw([&] { write_Alm_to_fits(fn, a, l, m, LEVELS_FLOAT64); }); threw([&] { read_Alm_from_fits(dir + "/nofile", q, l, m); }); threw([&] { read_Alm_from_fits(fn, q, -3, 2); }); }
  else if (k == 1) { { fitshandle h; h.create(fn); write_compressed_Alm_to_fits(h, a, l, m, LEVELS_FLOAT32); write_compressed_Alm_to_fits(h, b, l, m, LEVELS_FLOAT64); write_compressed_Alm_to_fits(h, c2, l, m, LEVELS_FLOAT32); } int x, y; get_almsize_pol(fn, x, y); Alm<xcomplex<double>> q, s, t; read_Alm_from_fits(fn, q, s, t, x, y); threw([&] { write_Alm_to_fits(dir + "/nodir/x", a, l, m, LEVELS_FLOAT32); }); threw([&] { get_almsize_pol(dir + "/nodir/x", x, y); }); }
  else if (k == 2) { PowSpec p; extract_powspec(a, p); extract_crosspowspec(a, b, p); extract_powspec(a, b, c2, p); threw([&] { p.smoothWithGauss(.1); }); PowSpec q(4, l), s(6, 3); q = p; threw([&] { PowSpec bad(5, 3); }); arr<double> t(l + 1), u(l + 1), v(l + 1), w(l + 1); t.fill(1); u.fill(1); v.fill(1); w.fill(0); threw([&] { q.Set(t, u, v, w); }); q.Set(1, 4); arr<double> neg(3); neg.fill(-1); threw([&] { q.Set(neg); }); }
  else if (k == 3) { PowSpec p(1, l), q(4, l); for (int i = 0; i <= l; ++i) p.tt(i) = q.tt(i) = q.gg(i) = q.cc(i) = 1, q.tg(i) = 0; planck_rng g(5); create_alm(p, a, g); create_alm_pol(q, a, b, c2, g); threw([&] { create_alm_pol(p, a, b, c2, g); }); }
  else if (k == 4) { Alm<xcomplex<double>> f(l, l), g(l, l), h(l, l); f.SetToZero(); g.SetToZero(); h.SetToZero(); f(1, 0) = 1; rotate_alm(f, .1, .2, .3); rotate_alm(f, g, h, .1, .2, .3); rotmatrix rm; rm.Make_CPAC_Euler_Matrix(.1, .2, .3); rotate_alm(f, rm); rotate_alm(f, g, h, rm); threw([&] { Alm<xcomplex<double>> x(5, 2); rotate_alm(x, .1, .2, .3); }); }
  else if (k == 5) { smoothWithGauss(a, .2); smoothWithGauss(a, b, c2, .2); a.Scale(2.); Alm<xcomplex<double>> d(a), e; e = d; e.Set(l + 2, m); threw([&] { e.Set(-3, -1); }); arr<xcomplex<double>> z(100); threw([&] { e.Set(z, 40, 40); }); e.swap(a); a.Add(a); threw([&] { d.Add(e); }); }
  else { arr<double> s; arr2<int> t; arr3<float> u; s.alloc(5); s.resize(9); s.dealloc(); t.alloc(3, 4); t.fast_alloc(2, 2); u.alloc(2, 3, 4); threw([&] { arr<double> x((size_t)1 << 60); }); threw([&] { s.alloc((size_t)1 << 60); }); threw([&] { t.alloc((size_t)1 << 30, (size_t)1 << 30); }); arr<string> v(5, string(50, 'x')); arr<string> w(v); w.resize(7); v = w; arr2b<double> y(4, 5); y.alloc(6, 7); threw([&] { arr_align<double, 64> x((size_t)1 << 58); }); arr_align<double, 64> x(100); x.alloc(50); double buf[8]; arr<double> over(buf, 8); over.alloc(3); arr<double> o2(buf, 8), o3(o2); o2 = o3; o2.swap(o3); }
}
void op_text(vp::Rng r, const string &dir) {
  string fn = dir + "/t.txt"; { FILE *f = fopen(fn.c_str(), "w"); int n = (int)r.range(0, 9); for (int i = 0; i < n; ++i) fprintf(f, "key%d = value%d %s\n", (int)r.range(0, 4), i, r.coin() ? "# note" : ""); fclose(f); }
  std::map<string, string> d; threw([&] { parse_file(fn, d); }); threw([&] { parse_file(dir + "/nofile", d); }); vector<string> w; threw([&] { parse_words_from_file(fn, w); }); threw([&] { parse_words_from_file(dir + "/nofile", w); }); threw([&] { stringToData<int>("12x"); }); threw([&] { stringToData<double>("1.5"); }); threw([&] { intToString(123456, 3); }); vector<double> l; threw([&] { split("1 2 x", l); }); tokenize("a,b,,c", ',', w); const char *av[] = {"p", "-a", "1", "b"}; threw([&] { parse_cmdline_classic(4, av, d); }); threw([&] { parse_cmdline_equalsign(4, av, d); });
  dateandtime2planck(2000, 1, 2, 3, 4, 5); int y, mo, da, h, mi, s; planck2dateandtime(123456789, &y, &mo, &da, &h, &mi, &s); residentSetSize(); VmHWM(); char buf[64]; (void)buf;
}
struct Fixture { vector<string> file; vector<int> l, m, nc; };
void op_conv(vp::Rng r, const string &dir, const Fixture &F, MPI_Comm comm, int wr, int ws, bool capi) {
  (void)ws; int n = (int)r.range(2, 6); vp::Rng own(r.next() + 1000 * wr);
  auto name = [&](int i) { int q = (int)r.range(0, 9); return q == 0 ? dir + "/no such file" : q == 1 ? dir + "/garbage.fits" : F.file[i]; };
  if (!capi) {
    std::unique_ptr<conviqt::sky> s(new conviqt::sky); std::unique_ptr<conviqt::beam> b(new conviqt::beam); conviqt::detector d("27M"); std::unique_ptr<conviqt::convolver> C; bool sr = false, br = false, pol = false; int lm = 0;
    auto reads = [&] { pol = r.coin(); int si = pol ? 1 : (int)r.range(0, 1), bi = pol ? 3 : (int)r.range(2, 3); string a = name(si), e = name(bi); long l1 = r.coin() ? -1 : r.range(1, F.l[si] + 1), l2 = r.coin() ? -1 : r.range(1, F.l[bi] + 1); double dc = r.coin(.3) ? 20 : 0; sr = !threw([&] { s->read(l1, pol, a, dc, comm); }); br = !threw([&] { b->read(l2, -1, pol, e, comm); }); if (sr && br) lm = std::min(s->get_lmax(), b->get_lmax()); C.reset(); };
    for (int k = 0; k < n; ++k) {
      int op = (int)r.range(0, 6); if (k == 0 || op == 0) reads();
      else if (op == 1) { conviqt::sky t; bool e = r.coin(); string q = e ? dir + "/no such file" : F.file[1]; threw([&] { t.read(-1, r.coin(), q, 0, comm); }); conviqt::sky u(t); u = *s; }
      else if (op == 2 && sr) { if (r.coin()) s->remove_monopole(); else s->remove_dipole(); }
      else if (op == 3 && br) { if (b->blmT()(0, 0).re > 0) b->normalize(); }
      else if (sr && br) {
        if (!C || r.coin(.3)) { long l = r.coin() ? -1 : r.coin(.2) ? lm + 20 : lm, o = r.range(1, 7); C.reset(); threw([&] { C.reset(new conviqt::convolver(s.get(), b.get(), &d, pol, l, -1, o, 0, comm)); }); }
        if (!C) continue; if (op == 4) { C->set_detector(&d); C->set_sky(s.get()); C->set_beam(b.get()); }
        conviqt::pointing p; int np = (int)own.range(0, 20); p.alloc(5 * np); bool bad = r.coin(.2); for (int i = 0; i < np; ++i) { p[5 * i] = own.real(0, 7); p[5 * i + 1] = own.real(0, lib_pi()); p[5 * i + 2] = own.real(-7, 7); p[5 * i + 3] = p[5 * i + 4] = 0; } if (bad && np) p[1] = -3; threw([&] { C->convolve(p, r.coin()); });
      }
    }
  } else {
    void *s = conviqt_sky_new(), *b = conviqt_beam_new(), *d = r.coin() ? conviqt_detector_new() : conviqt_detector_new_with_id((char *)"a detector with a name that is long enough"), *p = conviqt_pointing_new(), *C = nullptr; bool sr = false, br = false, pol = r.coin();
    for (int k = 0; k < n; ++k) {
      int op = (int)r.range(0, 5); if (k == 0 || op == 0) { int si = pol ? 1 : (int)r.range(0, 1), bi = pol ? 3 : (int)r.range(2, 3); string a = name(si), e = name(bi); sr = conviqt_sky_read(s, r.coin() ? -1 : F.l[si] + 1, pol, (char *)a.c_str(), 0, comm) == 0; br = conviqt_beam_read(b, -1, r.coin() ? -1 : 2, pol, (char *)e.c_str(), comm) == 0; if (C) conviqt_convolver_del(C); C = nullptr; }
      else if (op == 1) { conviqt_detector_set_id(d, (char *)"another name, also long enough to be allocated"); char id[200]; conviqt_detector_get_id(d, id); conviqt_pointing_alloc(p, 1L << 60); conviqt_pointing_alloc(p, -5); }
      else if (sr && br) { if (!C || r.coin(.3)) { if (C) conviqt_convolver_del(C); C = conviqt_convolver_new(s, b, d, pol, r.coin(.2) ? 50 : -1, -1, r.range(1, 7), 0, comm); } if (!C) continue; int np = (int)own.range(0, 12); bool bad = r.coin(.2); conviqt_pointing_alloc(p, 5 * np); double *q = conviqt_pointing_data(p); for (int i = 0; i < np; ++i) { q[5 * i] = own.real(0, 7); q[5 * i + 1] = bad && i == 0 ? 9 : own.real(0, lib_pi()); q[5 * i + 2] = own.real(0, 7); q[5 * i + 3] = q[5 * i + 4] = 0; } conviqt_convolver_convolve(C, p, r.coin()); }
    }
    if (C) conviqt_convolver_del(C); conviqt_pointing_del(p); conviqt_detector_del(d); conviqt_beam_del(b); conviqt_sky_del(s);
  }
}
void op_mpi(vp::Rng r, MPI_Comm comm, int wr, int ws) {
  MPI_Manager m(comm); int n = (int)r.range(1, 6);
  for (int k = 0; k < n; ++k) { int len = (int)r.range(0, 50); switch (r.range(0, 7)) {
    case 0: { arr<int> a(len); a.fill(wr); m.allreduce(a, MPI_Manager::Sum); break; } case 1: { arr<double> a(len); a.fill(1); m.bcast(a, 0); break; } case 2: { arr<int> a(wr + 1); a.fill(1); arr<int> o; if (m.master()) m.gatherv_m(a, o); else m.gatherv_s(a); break; } case 3: { arr<double> in(ws * 3), o(ws * 3); in.fill(1); m.all2all(in, o); break; } case 4: { arr<int> nin(ws), nout(ws); nin.fill(2); nout.fill(2); arr<double> in(2 * ws), o; in.fill(4); m.all2allv_easy(in, nin, o, nout); break; } case 5: m.barrier(); break; case 6: { arr<double> a(len + 1), b(len + 1); a.fill(1); m.sendrecv(a, (wr + 1) % ws, b, (wr + ws - 1) % ws); break; } default: { arr<float> o; int x = wr; arr<int> q; m.allgather(x, q); break; } } }
}
} // namespace

static void run_leak(vp::Ctx &c, bool libonly) {
  int wr, ws; MPI_Comm_rank(MPI_COMM_WORLD, &wr); MPI_Comm_size(MPI_COMM_WORLD, &ws); static bool first = true; static Fixture F; Hush hush;
  omp_set_num_threads(1);
  if (first) { first = false; vp::Rng r(11); for (int i = 0; i < 4; ++i) { F.l.push_back(i < 2 ? 6 : 5); F.m.push_back(i < 2 ? 6 : 2); F.nc.push_back(i % 2 ? 3 : 1); F.file.push_back(c.dir + fmt("/f%d.fits", i)); Coef q[3]; for (int k = 0; k < F.nc[i]; ++k) fill(q[k], F.l[i], F.m[i], 99, 99, 0, r); if (q[0](0, 0) == cd(0)) q[0](0, 0) = .5; if (wr == 0) { vp::Rng z(1); write_alm_file(F.file[i], q, F.nc[i], FW_KEYS, z); } } if (wr == 0) { FILE *h = fopen((c.dir + "/garbage.fits").c_str(), "w"); fputs("not a FITS file", h); fclose(h); } MPI_Barrier(MPI_COMM_WORLD); }
  string dir = c.dir + fmt("/r%d", wr); mkdir(dir.c_str(), 0700);
  static const int lib[] = {0, 1, 2, 3, 4, 5, 10, 10}; int kind = libonly ? lib[c.below(8)] : 6 + (int)c.below(4); vp::u64 seed = c.below(1ULL << 32); static const char *names[] = {"FITS files", "Fourier plans", "decomposition and 3j", "rotation matrices", "coefficients and arrays", "text and dates", "convolution", "convolution", "C interface", "communication", "recycled objects"};
  c.note("kind", names[kind]).note("seed", seed); c.cls(names[kind]);
  MPI_Comm comm = MPI_COMM_WORLD;
  auto once = [&] { vp::Rng r(seed); switch (kind) { case 0: op_fits(r, dir); break; case 1: op_fft(r); break; case 2: op_linear(r); break; case 3: op_wigner(r); break; case 4: op_alm(r, dir); break; case 5: op_text(r, dir); break; case 6: case 7: op_conv(r, c.dir, F, comm, wr, ws, false); break; case 10: op_pools(r); break; case 8: op_conv(r, c.dir, F, comm, wr, ws, true); break; default: op_mpi(r, comm, wr, ws); } };
  once(); once();
  // something accumulates if every one of many repetitions leaves more behind
  auto grows = [&](int n) { bool mem = true, fds = true; long b0 = blocks, y0 = bytes, f0 = open_files(), d = 0, dy = 0, df = 0; long bs = b0, ys = y0, fs = f0; for (int i = 0; i < n; ++i) { once(); long b = blocks, y = bytes, f = open_files(); if (b <= b0 && y <= y0) mem = false; if (f <= f0) fds = false; b0 = b; y0 = y; f0 = f; } d = b0 - bs; dy = y0 - ys; df = f0 - fs; string m; if (mem) m = fmt("%d repetitions left %ld more blocks and %ld more bytes allocated", n, d, dy); if (fds) m += fmt("%s%d repetitions left %ld more files open", m.empty() ? "" : "; ", n, df); return m; };
  auto any = [&](bool x) { int a = x, b; MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); return b != 0; };
  string m = grows(2); if (any(!m.empty())) { m = grows(4); if (any(!m.empty())) { m = grows(16); if (!m.empty()) c.soft(m); } }
  c.nontrivial();
}
VP_PROP(leaks_library) { run_leak(c, true); }
VP_PROP(leaks_convolution) { run_leak(c, false); }
VP_MAIN
