// L06 L07 L17: rotation, spectra, smoothing and realisations of coefficients; their container.
#include "vp.hpp"
#include <complex>
#include <memory>
#include <sstream>
#include "ls_error_handling.h"
#include "ls_rotmatrix.h"
#include "ls_alm.h"
#include "ls_xcomplex.h"
#include "ls_powspec.h"
#include "ls_alm_powspec_tools.h"
#include "ls_rng.h"
#include "ls_constants.h"
#ifdef _OPENMP
#include <omp.h>
#endif
using vp::fmt; using vp::i64; using vp::u64; using std::string; using std::vector;
using namespace levels;
typedef long double ld;
typedef std::complex<ld> cld;
static const ld PI = 3.14159265358979323846264338327950288L;

namespace {
void tune(const char *w, double e, size_t n) { if (getenv("VP_TUNE")) { static std::map<string, double> mx; if (e > mx[w]) { mx[w] = e; fprintf(stderr, "%s: %.3g of tolerance (n %zu)\n", w, e, n); } } }
struct Hush {
  int fd;
  Hush() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
  ~Hush() { fflush(stderr); dup2(fd, 2); close(fd); }
};
template <class F> bool throws(F f) { Hush h; try { f(); } catch (...) { return true; } return false; }
template <class T> ld epsT() { return sizeof(T) == 4 ? 6e-8L : 1.2e-16L; }
template <class T> using AlmT = Alm<xcomplex<T>>;

// the function at direction (x = cos, s = sin of colatitude, ph): sum over m of 2 Re(a_lm Y_lm)
template <class T> ld value(const AlmT<T> &a, ld x, ld s, ld ph, ld &scale) {
  ld r = 0; scale = 0; int L = a.Lmax();
  for (int m = 0; m <= a.Mmax(); ++m) {
    ld pmm = sqrtl(1 / (4 * PI)); for (int k = 1; k <= m; ++k) pmm *= -s * sqrtl((2 * k + 1.0L) / (2 * k));
    ld p0 = 0, p1 = pmm, c = cosl(m * ph), sn = sinl(m * ph);
    for (int l = m; l <= L; ++l) {
      ld re = a(l, m).re, im = m ? a(l, m).im : 0; r += (m ? 2 : 1) * p1 * (re * c - im * sn); scale += 2 * fabsl(p1) * (fabsl(re) + fabsl(im));
      ld A = sqrtl((4.0L * (l + 1) * (l + 1) - 1) / ((ld)(l + 1) * (l + 1) - (ld)m * m)), B = l ? sqrtl(((ld)l * l - (ld)m * m) / (4.0L * l * l - 1)) : 0;
      ld p2 = A * (x * p1 - B * p0); p0 = p1; p1 = p2;
    }
  }
  return r;
}
template <class T> void fill(vp::Ctx &c, AlmT<T> &a, vp::Rng &r, bool real0 = true) {
  int kind = (int)c.below(4); ld sc = c.coin(1, 4) ? powl(10, (ld)c.range(-15, 15)) : 1; int l1 = (int)c.range(0, a.Lmax());
  for (int l = 0; l <= a.Lmax(); ++l) for (int m = 0; m <= std::min(l, a.Mmax()); ++m) {
    double x = r.real(-1, 1), y = real0 && m == 0 ? 0 : r.real(-1, 1); if (kind == 1 && r.coin(.7)) x = y = 0; if (kind == 2 && l != l1) x = y = 0; if (kind == 3) { double w = 1 / (1. + l); x *= w; y *= w; }
    a(l, m).Set((T)(x * sc), (T)(y * sc));
  }
}
template <class T> ld maxabs(const AlmT<T> &a) { ld q = 0; for (int l = 0; l <= a.Lmax(); ++l) for (int m = 0; m <= std::min(l, a.Mmax()); ++m) q = std::max({q, (ld)fabs(a(l, m).re), (ld)fabs(a(l, m).im)}); return q; }
double gen_ang(vp::Ctx &c, bool theta) {
  switch (c.below(6)) { case 0: return theta ? c.real(0, pi) : c.real(-7, 7); case 1: return 0; case 2: return (double)c.range(theta ? 0 : -4, theta ? 2 : 4) * halfpi; case 3: return theta ? c.real(-7, 7) : c.real(-100, 100); case 4: return pow(10., -(double)c.range(1, 16)); default: return theta ? pi - pow(10., -(double)c.range(1, 14)) : c.real(0, twopi); }
}

template <class T> void run_rotate(vp::Ctx &c) {
  int L = c.coin(1, 20) ? (int)c.range(40, c.big ? 250 : 120) : (int)c.skew(0, 20); bool pol = c.coin(1, 3), mat = c.coin(1, 3); int th = (int)c.range(1, 4);
#ifdef _OPENMP
  omp_set_num_threads(th);
#endif
  vp::Rng r = c.bulk(); int n = pol ? 3 : 1; AlmT<T> a[3], o[3]; for (int k = 0; k < n; ++k) { a[k].Set(L, L); fill<T>(c, a[k], r); o[k] = a[k]; }
  double p1 = gen_ang(c, false), t1 = gen_ang(c, true), f1 = gen_ang(c, false); c.note("lmax", L).note("T", sizeof(T) * 8).note("psi", p1).note("theta", t1).note("phi", f1).note("pol", pol).note("matrix", mat).note("threads", th);
  // active rotation Rz(phi) Ry(theta) Rz(psi)
  auto rot = [&](double ps, double t, double f, ld v[3]) { auto z = [&](ld g) { ld x = v[0], y = v[1]; v[0] = cosl(g) * x - sinl(g) * y; v[1] = sinl(g) * x + cosl(g) * y; }; z(ps); ld x = v[0], w = v[2]; v[0] = cosl((ld)t) * x + sinl((ld)t) * w; v[2] = -sinl((ld)t) * x + cosl((ld)t) * w; z(f); };
  auto mkmat = [&](const vector<vector<double>> &seq) { ld e[3][3]; for (int j = 0; j < 3; ++j) { ld v[3] = {0, 0, 0}; v[j] = 1; for (auto &g : seq) rot(g[0], g[1], g[2], v); for (int i = 0; i < 3; ++i) e[i][j] = v[i]; } return rotmatrix((double)e[0][0], (double)e[0][1], (double)e[0][2], (double)e[1][0], (double)e[1][1], (double)e[1][2], (double)e[2][0], (double)e[2][1], (double)e[2][2]); };
  auto apply = [&](AlmT<T> *q, double ps, double t, double f, bool m) {
    if (m) { rotmatrix R = mkmat({{ps, t, f}}); if (pol) rotate_alm(q[0], q[1], q[2], R); else rotate_alm(q[0], R); }
    else if (pol) rotate_alm(q[0], q[1], q[2], ps, t, f); else rotate_alm(q[0], ps, t, f); };
  apply(a, p1, t1, f1, mat);
  ld ang = 1 + fabs(p1) + fabs(t1) + fabs(f1); ld base = epsT<T>() * 4 + 1.2e-16L * (L + 1) * (8 + 2 * ang);
  // read back from a matrix, a rotation within 1e-6 of the poles loses the direction of its tilt
  auto mloss = [&](ld sn) { sn = fabsl(sn); return (L + 1) * (sn <= 1.0001e-6L ? 4 * sn + 1e-15L : 4e-16L * 4); }; bool matrix2 = c.coin();
  ld tol = base + (mat ? mloss(sinl((ld)t1)) : 0);
  for (int k = 0; k < n; ++k) {
    c.check(a[k].Lmax() == L && a[k].Mmax() == L, "orders changed"); ld mx = maxabs(o[k]), worst = 0;
    for (int q = 0; q < 4; ++q) { // f'(R v) = f(v)
      ld x = q == 3 ? 1 : r.real(-1, 1), ph = r.real(0, twopi), s = sqrtl((1 - x) * (1 + x)), v[3] = {s * cosl(ph), s * sinl(ph), x}; ld s1, s2, w = value<T>(o[k], x, s, ph, s1); rot(p1, t1, f1, v); ld nn = hypotl(v[0], v[1]);
      ld g = value<T>(a[k], v[2] / hypotl(nn, v[2]), nn / hypotl(nn, v[2]), atan2l(v[1], v[0]), s2); ld d = fabsl(g - w), t = tol * (std::max(s1, s2) + (L + 1) * mx) + 1e-30L; worst = std::max(worst, d / t);
      if (!(d <= t)) c.fail(fmt("component %d: value at the rotated direction %.15Lg, original %.15Lg, allowed %.2Lg", k, g, w, t)); }
    tune("rotate", (double)worst, L);
    for (int l = 0; l <= L; ++l) { ld pa = 0, po = 0; for (int m = 0; m <= l; ++m) { ld f = m ? 2 : 1; pa += f * ((ld)a[k](l, m).re * a[k](l, m).re + (ld)a[k](l, m).im * a[k](l, m).im); po += f * ((ld)o[k](l, m).re * o[k](l, m).re + (ld)o[k](l, m).im * o[k](l, m).im); } ld t = 4 * tol * po + 1e-37L; if (!(fabsl(pa - po) <= t)) c.fail(fmt("component %d: power at l = %d changes from %.15Lg to %.15Lg", k, l, po, pa)); if (fabs((double)a[k](l, 0).im) > (double)(tol * sqrtl(po)) + 1e-30) c.fail(fmt("a(%d,0) is not real", l)); }
  }
  AlmT<T> once[3]; for (int k = 0; k < n; ++k) once[k] = a[k];
  int rel = (int)c.below(3); auto cmp = [&](AlmT<T> *x, AlmT<T> *y, ld f, const char *what) { for (int k = 0; k < n; ++k) for (int l = 0; l <= L; ++l) { ld po = 0; for (int m = 0; m <= l; ++m) po += 2 * ((ld)o[k](l, m).re * o[k](l, m).re + (ld)o[k](l, m).im * o[k](l, m).im); ld t = f * tol * sqrtl(po) + 1e-30L; for (int m = 0; m <= l; ++m) if (!(fabsl((ld)x[k](l, m).re - y[k](l, m).re) <= t && fabsl((ld)x[k](l, m).im - (m ? y[k](l, m).im : 0)) <= t)) c.fail(fmt("%s: coefficient (%d,%d) of component %d is %.15g,%.15g, expected %.15g,%.15g", what, l, m, k, (double)x[k](l, m).re, (double)x[k](l, m).im, (double)y[k](l, m).re, (double)y[k](l, m).im)); } };
  if (rel == 0) { c.cls("inverse"); if (matrix2) tol += mloss(sinl((ld)t1)); apply(a, -f1, -t1, -p1, matrix2); cmp(a, o, 40, "rotated back"); }
  else if (rel == 1) { // composition
    c.cls("composition"); double p2 = gen_ang(c, false), t2 = gen_ang(c, true), f2 = gen_ang(c, false); apply(a, p2, t2, f2, false); rotmatrix R = mkmat({{p1, t1, f1}, {p2, t2, f2}}); tol += mloss(hypotl(R.entry[0][2], R.entry[1][2])); AlmT<T> b[3]; for (int k = 0; k < n; ++k) b[k] = o[k]; if (pol) rotate_alm(b[0], b[1], b[2], R); else rotate_alm(b[0], R); cmp(a, b, 60 + fabs(p2) + fabs(f2) + fabs(t2), "composed"); }
  else if (pol) { c.cls("components alike"); for (int k = 0; k < 3; ++k) { AlmT<T> q = o[k]; if (mat) rotate_alm(q, mkmat({{p1, t1, f1}})); else rotate_alm(q, p1, t1, f1); for (int l = 0; l <= L; ++l) for (int m = 0; m <= l; ++m) c.check(fabsl((ld)q(l, m).re - once[k](l, m).re) <= tol * (maxabs(o[k])) * 4 + 1e-30L && fabsl((ld)q(l, m).im - once[k](l, m).im) <= tol * maxabs(o[k]) * 4 + 1e-30L, "a component is rotated differently from a single one"); } }
  else { c.cls("threads"); // any number of threads gives the same coefficients
    for (int w = 1; w <= 4; ++w) {
#ifdef _OPENMP
      omp_set_num_threads(w);
#endif
      AlmT<T> b[3]; b[0] = o[0]; apply(b, p1, t1, f1, mat); for (int l = 0; l <= L; ++l) for (int m = 0; m <= l; ++m) c.check(b[0](l, m).re == a[0](l, m).re && b[0](l, m).im == a[0](l, m).im, "the result depends on the number of threads"); } }
  AlmT<T> bad(L + 1, L); if (!throws([&] { rotate_alm(bad, 1, 1, 1); })) c.fail("different lmax and mmax are accepted");
  if (pol) { AlmT<T> x(L + 1, L + 1); if (!throws([&] { rotate_alm(o[0], x, o[2], 1, 1, 1); })) c.fail("components of different orders are accepted"); }
  c.nontrivial(L > 0 && maxabs(o[0]) > 0 && t1 != 0);
}
} // namespace
VP_PROP(rotate) { if (c.coin(2, 3)) run_rotate<double>(c); else run_rotate<float>(c); }

// ------------------------------------------------------------------ L07
namespace {
template <class T> void run_spectra(vp::Ctx &c) {
  int L = c.coin(1, 20) ? (int)c.range(40, 200) : (int)c.skew(0, 20), M = c.coin() ? L : (int)c.range(0, L); vp::Rng r = c.bulk(); AlmT<T> a[6]; for (auto &x : a) { x.Set(L, M); fill<T>(c, x, r); } PowSpec p; if (c.coin()) p.Set(c.coin() ? 6 : c.coin() ? 4 : 1, (int)c.range(0, 5)); else c.check(p.Num_specs() == 0 && p.Lmax() == -1, "a new spectrum is not empty"); int form = (int)c.below(3); c.note("lmax", L).note("mmax", M).note("T", sizeof(T) * 8).note("form", form);
  auto ref = [&](const AlmT<T> &x, const AlmT<T> &y, double g, int l, const char *n) { ld w = 0, sc = 0; for (int m = 0; m <= std::min(l, M); ++m) { ld t = (ld)x(l, m).re * y(l, m).re + (m ? (ld)x(l, m).im * y(l, m).im : 0), f = m ? 2 : 1; w += f * t; sc += f * (fabsl((ld)x(l, m).re * y(l, m).re) + fabsl((ld)x(l, m).im * y(l, m).im)); } w /= 2 * l + 1; sc /= 2 * l + 1; ld tol = sc * (4 * epsT<T>() + (l + 4) * 2.3e-16L) + (sizeof(T) == 4 ? 1e-43L : 0); if (!(fabsl(w - g) <= tol)) c.fail(fmt("%s at l = %d is %.15g, expected %.15Lg", n, l, g, w)); };
  { Hush h; if (form == 0) extract_powspec(a[0], p); else if (form == 1) extract_crosspowspec(a[0], a[1], p); else extract_powspec(a[0], a[1], a[2], p); }
  p.assertArraySizes(); c.check(p.Lmax() == L && p.Num_specs() == (form == 2 ? 6 : 1), "the spectrum has a wrong size");
  for (int l = 0; l <= L; ++l) { ref(a[0], a[form == 1], p.tt(l), l, "TT"); if (form == 2) { ref(a[1], a[1], p.gg(l), l, "GG"); ref(a[2], a[2], p.cc(l), l, "CC"); ref(a[0], a[1], p.tg(l), l, "TG"); ref(a[0], a[2], p.tc(l), l, "TC"); ref(a[1], a[2], p.gc(l), l, "GC"); } }
  AlmT<T> b(L + 1, M); if (!throws([&] { extract_crosspowspec(a[0], b, p); })) c.fail("sets of different orders are accepted"); if (!throws([&] { extract_powspec(a[0], a[1], b, p); })) c.fail("components of different orders are accepted"); if (L > 0) { AlmT<T> d(L, M > 0 ? M - 1 : 1); if (!throws([&] { extract_crosspowspec(d, a[0], p); })) c.fail("sets of different mmax are accepted"); }
  // container of spectra
  { int sp[] = {1, 4, 6}, n1 = sp[c.below(3)], l1 = (int)c.range(0, 9); p.Set(n1, l1); p.assertArraySizes(); c.check(p.Num_specs() == n1 && p.Lmax() == l1, "Set gives a wrong size"); c.check((int)p.gg().size() == (n1 > 1 ? l1 + 1 : 0) && (int)p.gc().size() == (n1 > 4 ? l1 + 1 : 0), "components left over"); int bad = c.coin() ? 2 : c.coin() ? 0 : 5; if (!throws([&] { p.Set(bad, 3); })) c.fail("an impossible number of spectra is accepted"); c.check(p.Num_specs() == n1 && p.Lmax() == l1, "a refused Set changes the spectrum");
    arr<double> s[6]; for (auto &x : s) { x.alloc(l1 + 2); for (auto i = 0; i < l1 + 2; ++i) x[i] = r.real(0, 1); } double w = s[3][l1]; if (n1 == 1) { p.Set(s[0]); c.check(s[0].size() == 0, "the array is not handed over"); } else if (n1 == 4) p.Set(s[0], s[1], s[2], s[3]); else p.Set(s[0], s[1], s[2], s[3], s[4], s[5]); c.check(p.Num_specs() == n1 && p.Lmax() == l1 + 1, "Set from arrays gives a wrong size"); if (n1 > 1) c.check(p.tg(l1) == w, "Set from arrays mixes up components"); p.assertArraySizes();
    if (n1 > 1) { arr<double> q[6]; int z = (int)c.below(n1); for (int i = 0; i < 6; ++i) q[i].alloc(i == z ? 3 : 4); if (!throws([&] { PowSpec p2; if (n1 == 4) p2.Set(q[0], q[1], q[2], q[3]); else p2.Set(q[0], q[1], q[2], q[3], q[4], q[5]); })) c.fail("spectra of different lengths are accepted"); } }
  c.nontrivial(L > 0 && maxabs(a[0]) > 0);
}
template <class T> void run_smooth(vp::Ctx &c) {
  int L = c.coin(1, 15) ? (int)c.range(60, 200) : (int)c.skew(0, 40), M = c.coin() ? L : (int)c.range(0, L); bool pol = c.coin(); vp::Rng r = c.bulk(); AlmT<T> a[3], o[3]; int n = pol ? 3 : 1; for (int k = 0; k < n; ++k) { a[k].Set(L, M); fill<T>(c, a[k], r, false); o[k] = a[k]; }
  ld k = 1 / sqrtl(8 * logl(2)); double lim = (double)(sqrtl(2 * 35.L / ((ld)L * (L + 1) + 1)) / k); lim = std::min(lim, 3.); double w = c.coin(1, 10) ? 0 : c.coin(1, 6) ? (c.coin() ? -1 : 1) * lim * pow(10., -(double)c.range(1, 12)) : c.real(-lim, lim); c.note("lmax", L).note("mmax", M).note("fwhm", w).note("pol", pol).note("T", sizeof(T) * 8);
  if (pol) smoothWithGauss(a[0], a[1], a[2], w); else smoothWithGauss(a[0], w);
  ld sg = w * k, s2 = sg * sg * (w < 0 ? -1 : 1); auto tol = [&](ld arg) { return 4 * epsT<T>() + 2.3e-16L * (4 + 6 * fabsl(arg)); };
  for (int q = 0; q < n; ++q) { c.check(a[q].Lmax() == L && a[q].Mmax() == M, "orders changed"); for (int l = 0; l <= L; ++l) { ld arg = -.5L * l * (l + 1) * s2, f = expl(arg + (q ? 2 * s2 : 0)), t = tol(arg) * f; for (int m = 0; m <= std::min(l, M); ++m) { ld wr = f * o[q](l, m).re, wi = f * o[q](l, m).im, un = sizeof(T) == 4 ? 3e-45L : 0; if (!(fabsl(a[q](l, m).re - wr) <= t * fabsl((ld)o[q](l, m).re) + un && fabsl(a[q](l, m).im - wi) <= t * fabsl((ld)o[q](l, m).im) + un)) c.fail(fmt("component %d, (%d,%d): %.15g,%.15g, expected %.15Lg,%.15Lg", q, l, m, (double)a[q](l, m).re, (double)a[q](l, m).im, wr, wi)); } } }
  if (sizeof(T) == 8 || maxabs(o[0]) > 1e-10L) { // spectra smooth alike
    if (w >= 0 && sizeof(T) == 8) { PowSpec p, q; { Hush h; if (pol) { PowSpec t; extract_powspec(o[0], o[1], o[2], t); arr<double> g[4]; for (auto &x : g) x.alloc(L + 1); for (int l = 0; l <= L; ++l) g[0][l] = t.tt(l), g[1][l] = t.gg(l), g[2][l] = t.cc(l), g[3][l] = t.tg(l); p.Set(g[0], g[1], g[2], g[3]); } else extract_powspec(o[0], p); if (pol) extract_powspec(a[0], a[1], a[2], q); else extract_powspec(a[0], q); p.smoothWithGauss(w); }
      for (int l = 0; l <= L; ++l) { auto cmp = [&](double x, double y, ld sc, const char *nm) { c.check(fabsl((ld)x - y) <= 1e-13L * (2 + l) * sc + 1e-300L, fmt("smoothed spectrum %s at l = %d is %.15g, that of the smoothed coefficients %.15g", nm, l, x, y)); }; cmp(p.tt(l), q.tt(l), q.tt(l), "TT"); if (pol) { cmp(p.gg(l), q.gg(l), q.gg(l), "GG"); cmp(p.cc(l), q.cc(l), q.cc(l), "CC"); cmp(p.tg(l), q.tg(l), sqrtl((ld)q.tt(l) * q.gg(l)), "TG"); } } }
    if (pol) smoothWithGauss(a[0], a[1], a[2], -w); else smoothWithGauss(a[0], -w);
    if (sizeof(T) == 8) for (int q = 0; q < n; ++q) for (int l = 0; l <= L; ++l) { ld t = 3 * tol(.5L * l * (l + 1) * s2); for (int m = 0; m <= std::min(l, M); ++m) c.check(fabsl((ld)a[q](l, m).re - o[q](l, m).re) <= t * fabsl((ld)o[q](l, m).re) && fabsl((ld)a[q](l, m).im - o[q](l, m).im) <= t * fabsl((ld)o[q](l, m).im), fmt("(%d,%d): smoothing is not undone by the negative width", l, m)); } }
  if (pol) { AlmT<T> b(L + 1, M); if (!throws([&] { smoothWithGauss(o[0], b, o[2], .1); })) c.fail("a longer component is accepted"); }
  c.nontrivial(L > 1 && w != 0 && maxabs(o[0]) > 0);
}
void gen_spec(vp::Ctx &c, vp::Rng &r, PowSpec &p, int L, bool pol) {
  p.Set(pol ? 4 : 1, L); int kind = (int)c.below(4);
  for (int l = 0; l <= L; ++l) { double f = kind == 1 ? 1 / (1. + l * (l + 1)) : 1; p.tt(l) = r.coin(kind == 2 ? .5 : .9) ? f * r.real(.1, 2) : 0; if (pol) { p.gg(l) = r.coin(.8) ? f * r.real(.1, 2) : 0; p.cc(l) = r.coin(.8) ? f * r.real(.1, 2) : 0; p.tg(l) = r.coin(.2) ? 0 : r.real(-.99, .99) * sqrt(p.tt(l) * p.gg(l)); if (r.coin(.1)) { p.tt(l) = 4; p.gg(l) = 9; p.tg(l) = r.coin(.5) ? 6 : -6; } } }
}
template <class T> bool same(const AlmT<T> &a, const AlmT<T> &b, int l, double f = 1) { for (int m = 0; m <= std::min(l, a.Mmax()); ++m) if (a(l, m).re * (T)f != b(l, m).re || a(l, m).im * (T)f != b(l, m).im) return false; return true; }
template <class T> void run_real(vp::Ctx &c) {
  int L = (int)c.skew(0, 40), M = c.coin() ? L : (int)c.range(0, L); bool pol = c.coin(2, 3); vp::Rng r = c.bulk(); PowSpec p; gen_spec(c, r, p, L + (int)c.below(3), pol); unsigned s[4] = {(unsigned)r.next(), (unsigned)r.next(), (unsigned)r.next(), (unsigned)r.next()}; c.note("lmax", L).note("mmax", M).note("pol", pol).note("T", sizeof(T) * 8);
  auto make = [&](const PowSpec &q, AlmT<T> *a) { planck_rng g(s[0], s[1], s[2], s[3]); for (int k = 0; k < (pol ? 3 : 1); ++k) { a[k].Set(L, M); for (int l = 0; l <= L; ++l) for (int m = 0; m <= std::min(l, M); ++m) a[k](l, m).Set((T)r.real(-1, 1), (T)NAN); } if (pol) create_alm_pol(q, a[0], a[1], a[2], g); else create_alm(q, a[0], g); return g.int_rand_uni(); };
  int n = pol ? 3 : 1; AlmT<T> a[3], b[3]; unsigned e = make(p, a), e2 = make(p, b); for (int k = 0; k < n; ++k) for (int l = 0; l <= L; ++l) c.check(same(a[k], b[k], l), "the same seed gives another realisation"); c.check(e == e2, "the generator is left in another state");
  const bool exact = sizeof(T) == 8; // G is a sum, which may cancel in single precision
  for (int l = 0; l <= L; ++l) { bool z[3] = {p.tt(l) == 0, pol && p.gg(l) == 0, pol && p.cc(l) == 0}; for (int k = 0; k < n; ++k) { bool allz = true; for (int m = 0; m <= std::min(l, M); ++m) { auto &x = a[k](l, m); if (!std::isfinite(x.re) || !std::isfinite(x.im)) c.fail(fmt("(%d,%d) of component %d is not finite", l, m, k)); if (x.re != 0 || x.im != 0) allz = false; if (m && !z[k] && (exact || k != 1 ? x.re == 0 || x.im == 0 : x.re == 0 && x.im == 0)) c.fail(fmt("(%d,%d) of component %d vanishes", l, m, k)); } c.check(a[k](l, 0).im == 0, fmt("a(%d,0) is not real", l)); if (z[k] && !allz) c.fail(fmt("component %d does not vanish at l = %d where its spectrum does", k, l)); if (!z[k] && (exact || k != 1) && a[k](l, 0).re == 0) c.fail(fmt("component %d vanishes at l = %d where its spectrum does not", k, l)); }
    if (pol && p.tt(l) == 4 && p.gg(l) == 9 && fabs(p.tg(l)) == 6) for (int m = 0; m <= std::min(l, M); ++m) { T f = (T)(p.tg(l) / 4); c.check(fabs(a[1](l, m).re - f * a[0](l, m).re) <= 1e-6 * fabs(a[0](l, m).re) && fabs(a[1](l, m).im - f * a[0](l, m).im) <= 1e-6 * fabs(a[0](l, m).im), "full correlation is not kept"); } }
  // four times the spectrum: twice the coefficients; changing one multipole of one spectrum leaves everything else
  { PowSpec q = p; for (int l = 0; l <= q.Lmax(); ++l) { q.tt(l) *= 4; if (pol) q.gg(l) *= 4, q.cc(l) *= 4, q.tg(l) *= 4; } e2 = make(q, b); for (int k = 0; k < n; ++k) for (int l = 0; l <= L; ++l) c.check(same(a[k], b[k], l, 2), fmt("four times the spectrum does not give twice the coefficients (component %d, l = %d)", k, l)); c.check(e == e2, "the draws depend on the spectrum"); }
  { PowSpec q = p; int l1 = (int)c.range(0, L), w = pol ? (int)c.below(3) : 0; if (w == 0) q.tt(l1) = q.tt(l1) * 9 + 1; else if (w == 1) q.gg(l1) = q.gg(l1) * 9 + 1; else q.cc(l1) = q.cc(l1) * 9 + 1; make(q, b); for (int k = 0; k < n; ++k) for (int l = 0; l <= L; ++l) { bool may = l == l1 && (k == w || (w == 0 && k == 1)); if (!may) c.check(same(a[k], b[k], l), fmt("spectrum %d at l = %d changes component %d at l = %d", w, l1, k, l)); if (l == l1 && k == w) c.check(!same(a[k], b[k], l), "a larger spectrum has no effect"); } }
  { planck_rng g(1, 2, 3, 4); AlmT<T> x(p.Lmax() + 1, 0); if (!throws([&] { create_alm(p, x, g); })) c.fail("a spectrum that is too short is accepted"); AlmT<T> y(p.Lmax() + 1, 0), w(p.Lmax() + 1, 0); if (!throws([&] { create_alm_pol(p, x, y, w, g); })) c.fail("a spectrum that is too short is accepted"); PowSpec u(1, 5); for (int l = 0; l <= 5; ++l) u.tt(l) = 1; AlmT<T> v[3]; for (auto &z : v) z.Set(3, 3); if (!throws([&] { create_alm_pol(u, v[0], v[1], v[2], g); })) c.fail("an unpolarised spectrum is accepted"); }
  c.nontrivial(L > 0);
}
}
VP_PROP(spectra) { if (c.coin()) run_spectra<double>(c); else run_spectra<float>(c); }
VP_PROP(smoothing) { if (c.coin()) run_smooth<double>(c); else run_smooth<float>(c); }
VP_PROP(realisations) { if (c.coin()) run_real<double>(c); else run_real<float>(c); }
// The scatter over many realisations; limits at eight standard deviations of the estimate.
VP_PROP(realisation_scatter) {
  int L = (int)c.range(1, 12), M = c.coin() ? L : (int)c.range(0, L), N = c.big ? 4000 : 800; bool pol = c.coin(2, 3); vp::Rng r = c.bulk(); PowSpec p; gen_spec(c, r, p, L, pol); planck_rng g((unsigned)r.next(), (unsigned)r.next()); AlmT<double> a[3]; for (auto &x : a) x.Set(L, M); c.note("lmax", L).note("mmax", M).note("N", N).note("pol", pol);
  int n = pol ? 3 : 1; struct S { double d[9] = {0}, i[9] = {0}, x = 0, q[3] = {0}, s[3] = {0}; }; vector<vector<S>> st(L + 1, vector<S>(M + 1));
  for (int t = 0; t < N; ++t) { if (pol) create_alm_pol(p, a[0], a[1], a[2], g); else create_alm(p, a[0], g); for (int l = 0; l <= L; ++l) for (int m = 0; m <= std::min(l, M); ++m) { S &s = st[l][m]; for (int u = 0; u < n; ++u) { for (int v = 0; v < n; ++v) { s.d[3 * u + v] += a[u](l, m).re * a[v](l, m).re; s.i[3 * u + v] += a[u](l, m).im * a[v](l, m).im; } s.q[u] += a[u](l, m).re * a[u](l, m).im; s.s[u] += a[u](l, m).re; } } }
  for (int l = 0; l <= L; ++l) { double C[9] = {p.tt(l), pol ? p.tg(l) : 0, 0, pol ? p.tg(l) : 0, pol ? p.gg(l) : 0, 0, 0, 0, pol ? p.cc(l) : 0};
    for (int m = 0; m <= std::min(l, M); ++m) { S &s = st[l][m]; for (int u = 0; u < n; ++u) { for (int v = 0; v < n; ++v) { double f = m ? .5 : 1, w = f * C[3 * u + v], sd = f * sqrt((C[3 * u + v] * C[3 * u + v] + C[4 * u] * C[4 * v]) / N); double lim = 9 * sd + 1e-12; if (fabs(s.d[3 * u + v] / N - w) > lim || (m && fabs(s.i[3 * u + v] / N - w) > lim)) c.fail(fmt("(%d,%d): covariance of components %d and %d is %.4g (real), %.4g (imaginary), expected %.4g within %.2g", l, m, u, v, s.d[3 * u + v] / N, s.i[3 * u + v] / N, w, lim)); }
      double f = m ? .5 : 1; if (fabs(s.s[u] / N) > 9 * sqrt(f * C[4 * u] / N) + 1e-12) c.fail(fmt("(%d,%d): mean of component %d is %.4g", l, m, u, s.s[u] / N)); if (m && fabs(s.q[u] / N) > 9 * .5 * C[4 * u] / sqrt((double)N) + 1e-12) c.fail(fmt("(%d,%d): real and imaginary part of component %d are correlated", l, m, u)); } } }
  c.nontrivial(true);
}

// ------------------------------------------------------------------ L17
namespace {
template <class T> struct AM { int L = 0, M = 0; vector<std::complex<T>> v; vector<char> k; };
template <class T> void run_container(vp::Ctx &c) {
  Alm<xcomplex<T>> a[2]; AM<T> m[2]; for (auto &x : m) { x.v.resize(1); x.k.assign(1, 0); } vp::Rng r = c.bulk(); string h; int steps = (int)c.range(3, 20);
  auto idx = [](const AM<T> &x, int l, int q) { int i = 0; for (int w = 0; w < q; ++w) i += x.L - w + 1; return i + l - q; };
  auto rv = [&]() { return (T)(r.coin(.2) ? 0. : r.real(-2, 2)); };
  auto die = [&](const string &s) { c.note("history", h); c.fail(s); };
  auto full = [&](int w) { AM<T> &x = m[w]; for (int l = 0; l <= x.L; ++l) for (int q = 0; q <= std::min(l, x.M); ++q) { T p = rv(), s = rv(); a[w](l, q).Set(p, s); x.v[idx(x, l, q)] = {p, s}; } x.k.assign(x.v.size(), 1); };
  for (auto &x : a) if (x.Lmax() != 0 || x.Mmax() != 0 || x.Alms().size() != 1) c.fail("a new set is not of order 0");
  if (c.coin(1, 8)) { int l = (int)c.range(0, 9); Alm<xcomplex<T>> b(l); if (b.Lmax() != l || b.Mmax() != 0 || (int)b.Alms().size() != l + 1) c.fail("a set made with lmax alone does not have m = 0 alone"); }
  for (int s = 0; s < steps; ++s) {
    int w = (int)c.below(2), op = (int)c.below(13); AM<T> &x = m[w], &y = m[1 - w]; h += fmt("%d.%d ", op, w); int nl = (int)c.skew(0, 12), nm = c.coin() ? nl : (int)c.range(0, nl); size_t nn = 0; for (int q = 0; q <= nm; ++q) nn += nl - q + 1;
    switch (op) {
      case 0: a[w].Set(nl, nm); x.L = nl; x.M = nm; x.v.assign(nn, {}); x.k.assign(nn, 0); if (c.coin(3, 4)) full(w); break;
      case 1: { int bm = nl + (int)c.range(1, 3); if (!throws([&] { a[w].Set(nl, bm); })) die("mmax above lmax is accepted"); arr<xcomplex<T>> d(nn + 1); if (!throws([&] { a[w].Set(d, nl, nm); })) die("an array of wrong size is accepted"); if (d.size() != nn + 1) die("a refused array is taken"); if (!throws([&] { Alm<xcomplex<T>> q(nl, bm); })) die("mmax above lmax is accepted"); } break;
      case 2: { arr<xcomplex<T>> d(nn); x.L = nl; x.M = nm; x.v.resize(nn); for (size_t i = 0; i < nn; ++i) { T p = rv(), q = rv(); d[i].Set(p, q); x.v[i] = {p, q}; } x.k.assign(nn, 1); a[w].Set(d, nl, nm); if (d.size() != 0) die("the array is not handed over"); } break;
      case 3: a[w].SetToZero(); x.v.assign(x.v.size(), {}); x.k.assign(x.v.size(), 1); break;
      case 4: { T f = rv(); a[w].Scale(f); for (auto &z : x.v) z = {z.real() * f, z.imag() * f}; } break;
      case 5: { arr<double> f(x.L + 1 + c.below(3)); for (auto i = 0u; i < f.size(); ++i) f[i] = rv(); a[w].ScaleL(f); for (int l = 0; l <= x.L; ++l) for (int q = 0; q <= std::min(l, x.M); ++q) { auto &z = x.v[idx(x, l, q)]; z = {z.real() * (T)f[l], z.imag() * (T)f[l]}; } arr<double> g(x.L); if (!throws([&] { a[w].ScaleL(g); })) die("a short array of factors is accepted"); } break;
      case 6: { arr<T> f(x.M + 1 + c.below(3)); for (auto i = 0u; i < f.size(); ++i) f[i] = rv(); a[w].ScaleM(f); for (int l = 0; l <= x.L; ++l) for (int q = 0; q <= std::min(l, x.M); ++q) { auto &z = x.v[idx(x, l, q)]; z = {z.real() * f[q], z.imag() * f[q]}; } arr<T> g(x.M); if (!throws([&] { a[w].ScaleM(g); })) die("a short array of factors is accepted"); } break;
      case 7: { T f = rv(); a[w].Add(f); x.v[0] += f; } break;
      case 8: if (x.L == y.L && x.M == y.M) { a[w].Add(a[1 - w]); for (size_t i = 0; i < x.v.size(); ++i) { x.v[i] += y.v[i]; x.k[i] = x.k[i] && y.k[i]; } } else if (!throws([&] { a[w].Add(a[1 - w]); })) die("adding a set of other orders is accepted"); if (a[w].conformable(a[1 - w]) != (x.L == y.L && x.M == y.M)) die("conformable is wrong"); break;
      case 9: a[w].swap(a[1 - w]); std::swap(x, y); break;
      case 10: a[w] = a[1 - w]; x = y; break;
      case 11: full(w); break;
      case 12: { int l = (int)c.range(0, x.L), q = (int)c.range(0, std::min(l, x.M)); T p = rv(), t = rv(); a[w].mstart(q)[l].Set(p, t); x.v[idx(x, l, q)] = {p, t}; x.k[idx(x, l, q)] = 1; } break;
    }
    for (int u = 0; u < 2; ++u) { const Alm<xcomplex<T>> &b = a[u]; AM<T> &z = m[u]; if (b.Lmax() != z.L || b.Mmax() != z.M || b.Alms().size() != z.v.size() || Alm_Base::Num_Alms(z.L, z.M) != z.v.size()) die("orders or number of coefficients are wrong");
      for (int l = 0; l <= z.L; ++l) for (int q = 0; q <= std::min(l, z.M); ++q) { int i = idx(z, l, q); if (b.index(l, q) != i || b.index_l0(q) + l != i || &b(l, q) != &b.Alms()[i] || b.mstart(q) + l != &b(l, q)) die(fmt("(%d,%d) has a wrong place", l, q)); if (z.k[i] && (b(l, q).re != z.v[i].real() || b(l, q).im != z.v[i].imag())) die(fmt("(%d,%d) is %g,%g, expected %g,%g", l, q, (double)b(l, q).re, (double)b(l, q).im, (double)z.v[i].real(), (double)z.v[i].imag())); } }
  }
  { int L = (int)c.skew(0, 46338), M = c.coin() ? L : (int)c.range(0, L); Alm_Base b(L, M); u64 n = 0; auto at = [&](int q) { return (u64)q * (2 * (u64)L + 1 - q) / 2; }; n = at(M) + L + 1; c.check(Alm_Base::Num_Alms(L, M) == n, "number of coefficients is wrong"); for (int t = 0; t < 5; ++t) { int q = t == 0 ? M : (int)c.range(0, M), l = t == 0 ? L : (int)c.range(q, L); c.check((u64)b.index(l, q) == at(q) + l, fmt("index of (%d,%d) for lmax %d is %d", l, q, L, b.index(l, q))); } }
  c.note("history", h); c.nontrivial(steps > 3);
}
template <class T> void run_complex(vp::Ctx &c) {
  auto num = [&]() { switch (c.below(5)) { case 0: return (T)c.range(-3, 3); case 1: return (T)(c.real(-1, 1) * pow(10., (double)c.range(-8, 8))); case 2: return (T)c.real(-1, 1); case 3: return (T)0; default: return (T)c.real(-10, 10); } };
  typedef xcomplex<T> X; typedef std::complex<T> S; X a(num(), num()), b(num(), num()); T f = num(); cld A(a.re, a.im), B(b.re, b.im); ld F = f, e = epsT<T>() * 4; ld tiny = sizeof(T) == 4 ? 1e-40L : 1e-300L; c.note("a", fmt("%.9g,%.9g", (double)a.re, (double)a.im)).note("b", fmt("%.9g,%.9g", (double)b.re, (double)b.im)).note("f", (double)f);
  auto is = [&](const X &g, const cld &w, ld sc, const char *n) { if (!(fabsl(g.re - w.real()) <= e * sc + tiny && fabsl(g.im - w.imag()) <= e * sc + tiny)) c.fail(fmt("%s: %.9g,%.9g, expected %.9Lg,%.9Lg", n, (double)g.re, (double)g.im, w.real(), w.imag())); };
  ld aa = abs(A), ab = abs(B); X t;
  is(a + b, A + B, aa + ab, "+"); is(a - b, A - B, aa + ab, "-"); is(a * b, A * B, aa * ab, "*"); is(a * f, A * F, aa * fabsl(F), "* real"); is(f * a, A * F, aa * fabsl(F), "real *"); is(-a, -A, 0, "negation"); is(a.conj(), conj(A), 0, "conj"); is(conj(a), conj(A), 0, "conj()"); is(a.times_i(), A * cld(0, 1), 0, "times_i");
  if (ab > 0) { is(a / b, A / B, aa / ab * 2, "/"); t = a; t /= b; is(t, A / B, aa / ab * 2, "/="); is(f / b, F / B, fabsl(F) / ab * 2, "real /"); } if (f != 0) { is(a / f, A / F, aa / fabsl(F), "/ real"); t = a; t /= f; is(t, A / F, aa / fabsl(F), "/= real"); }
  t = a; t += b; is(t, A + B, aa + ab, "+="); t = a; t -= b; is(t, A - B, aa + ab, "-="); t = a; t *= b; is(t, A * B, aa * ab, "*="); t = a; t *= t; is(t, A * A, aa * aa, "*= itself"); t = a; t *= f; is(t, A * F, aa * fabsl(F), "*= real"); t = a; t.Negate(); is(t, -A, 0, "Negate"); t = a; t.Conjugate(); is(t, conj(A), 0, "Conjugate"); t = f; is(t, cld(F, 0), 0, "= real"); t = S(a); is(t, A, 0, "= std::complex"); t = b; t.Set(a.re, f); is(t, cld(a.re, F), 0, "Set"); is(X(S(b)), B, 0, "from std::complex"); is(X(f), cld(F, 0), 0, "from real");
  { X u = a; T an = f; u.Rotate(an); cld w = A * std::polar<ld>(1, (ld)an); is(u, w, aa * (2 + (sizeof(T) == 4 ? 1 : 0)), "Rotate"); }
  c.check(fabsl(a.norm() - std::norm(A)) <= e * std::norm(A) + tiny && norm(a) == a.norm(), "norm"); c.check(fabsl(abs(a) - aa) <= e * aa + tiny, "abs"); if (fabs(a.re) < 50) { ld q = expl(A.real()); is(exp(a), std::exp(A), q * (1 + fabsl(A.real())), "exp"); }
  xcomplex<double> d(a); c.check(d.re == a.re && d.im == a.im, "conversion between precisions"); xcomplex<float> fl(d); c.check(fl.re == (float)a.re && fl.im == (float)a.im, "conversion between precisions"); a.real() = f; a.imag() = b.re; c.check(a.re == f && a.im == b.re, "real and imag as lvalues"); std::ostringstream os; os << X(1, -2); c.check(os.str() == "(1,-2)", "output");
  c.nontrivial(aa > 0 && ab > 0);
}
}
VP_PROP(alm_container) { try { if (c.coin()) run_container<double>(c); else run_container<float>(c); } catch (LEVELSError &e) { c.fail(string("refused: ") + e.what()); } }
VP_PROP(complex_arithmetic) { if (c.coin()) run_complex<double>(c); else run_complex<float>(c); }
VP_MAIN
