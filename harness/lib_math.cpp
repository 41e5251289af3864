// L01 L02 L03 L08 L09 L10: numerical support code against independent references.
#include "vp.hpp"
#include <memory>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include "ls_rotmatrix.h" // before ls_wigner.h, which hides ::sqrt
#include "ls_wigner.h"
#include "ls_fftpack_support.h"
#include "ls_constants.h"
#include "svd_c.h"
#include "wrec3a.h"
#ifdef _OPENMP
#include <omp.h>
#endif
using vp::fmt;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;
static const double EPS = DBL_EPSILON;

namespace {
// ---- Wigner d by the explicit sum (definition), small l
ld wig_sum(int l, int m1, int m2, ld th) {
  if (abs(m1) > l || abs(m2) > l) return 0;
  auto lf = [](int n) { return lgammal(n + 1.0L); };
  ld c = cosl(th / 2), s = sinl(th / 2), pre = 0.5L * (lf(l + m1) + lf(l - m1) + lf(l + m2) + lf(l - m2)), r = 0;
  for (int k = std::max(0, m2 - m1); k <= std::min(l + m2, l - m1); ++k) {
    int pc = 2 * l + m2 - m1 - 2 * k, ps = m1 - m2 + 2 * k;
    ld t = expl(pre - lf(l + m2 - k) - lf(k) - lf(m1 - m2 + k) - lf(l - m1 - k)) * powl(c, pc) * powl(s, ps);
    r += ((m1 - m2 + k) & 1) ? -t : t;
  }
  return r;
}
// ---- all l by recursion from the single-term closed form at l = max(|m1|,|m2|)
void wig_rec(int lmax, int m1, int m2, ld th, std::vector<ld> &d) {
  d.assign(lmax + 1, 0); int l0 = std::max(abs(m1), abs(m2)); if (l0 > lmax) return;
  ld c = cosl(th / 2), s = sinl(th / 2), x = cosl(th);
  int a = m1, b = m2, j = l0; ld sg = 1;
  if (abs(a) != j) { if ((a - b) & 1) sg = -sg; std::swap(a, b); }
  if (a == -j && j > 0) { if ((a - b) & 1) sg = -sg; a = -a; b = -b; }
  int pc = j + b, ps = j - b; ld lg = 0.5L * (lgammal(2 * j + 1) - lgammal(j + b + 1) - lgammal(j - b + 1)), v;
  ld ac = fabsl(c), as = fabsl(s);
  if ((pc > 0 && ac == 0) || (ps > 0 && as == 0)) v = 0;
  else v = expl(lg + (pc ? pc * logl(ac) : 0) + (ps ? ps * logl(as) : 0));
  if (c < 0 && (pc & 1)) v = -v;
  if (s < 0 && (ps & 1)) v = -v;
  if ((j - b) & 1) v = -v;
  d[l0] = sg * v; ld p = 0;
  for (int l = l0; l < lmax; ++l) {
    ld q = d[l], L = l, A = m1, B = m2, nx;
    if (l == 0) nx = x * q;
    else nx = ((2 * L + 1) * (L * (L + 1) * x - A * B) * q - (L + 1) * sqrtl((L * L - A * A) * (L * L - B * B)) * p) / (L * sqrtl(((L + 1) * (L + 1) - A * A) * ((L + 1) * (L + 1) - B * B)));
    p = q; d[l + 1] = nx;
  }
}
double gen_theta(vp::Ctx &c) {
  switch (c.below(9)) {
    case 0: return c.real(0, levels::pi);
    case 1: return 0;
    case 2: return levels::pi;
    case 3: return levels::halfpi;
    case 4: return pow(10., -(double)c.range(1, 17)) * (1 + c.unit());
    case 5: return levels::pi - pow(10., -(double)c.range(1, 17)) * (1 + c.unit());
    case 6: return -c.real(0, levels::pi);
    case 7: return c.range(-6, 6) * levels::halfpi;
    default: return c.real(-40, 40);
  }
}
} // namespace

// ================================================================ L01
VP_PROP(wigner_gen) {
  int lmax = (int)c.skew(1, c.big ? 400 : 120), nt = (int)c.range(1, 5);
  // orders so high and angles so small that the recursion starts far below the range of double
  bool deep = c.coin(1, 25); int dm = 0; if (deep) { lmax = (int)c.range(500, c.coin(1, 4) ? (c.big ? 5000 : 3000) : c.big ? 1600 : 900); dm = (int)c.range(150, lmax / 2); c.cls("deep underflow"); }
  static const double E[] = {1e-30, 1e-20, 1e-10, 1e-60, 1e-90, 1e-4, 0.1}; double eps = E[c.below(7)];
  levels::arr<double> th(nt); c.note("lmax", lmax).note("eps", eps); c.desc << "theta=" << std::setprecision(17);
  for (int i = 0; i < nt; ++i) { th[i] = deep && c.coin(4, 5) ? asin(std::min(0.97, dm * (0.9 + c.unit()) / lmax)) : gen_theta(c); if (deep && c.coin(1, 4)) th[i] = c.coin() ? levels::pi - th[i] : -th[i]; c.desc << th[i] << ","; }
  levels::wignergen g(lmax, th, eps);
  int n = (int)c.range(1, 8), m1 = 0, m2 = 0; c.desc << " steps:";
  levels::wignergen *w = &g;
  for (int k = 0; k < n; ++k) {
    int kind = k ? (int)c.below(7) : 0;
    if (kind == 0) { m1 = (int)c.range(-lmax, lmax); m2 = (int)c.range(-lmax, lmax); }
    else if (kind == 1) m1 = -m1; else if (kind == 2) m2 = -m2; else if (kind == 3) std::swap(m1, m2);
    else if (kind == 4) { m1 = -m1; m2 = -m2; } else if (kind == 5) m2 = (int)std::min<long>(lmax, m2 + 1);
    else { m1 = (int)c.skew(0, std::min(lmax, 6)); m2 = c.coin() ? (int)c.range(-lmax, lmax) : 0; }
    if (deep && kind != 1 && kind != 2 && kind != 3 && kind != 4) { m1 = dm + (int)c.range(-9, 9); m2 = (int)c.range(-dm / 3, dm / 3); if (c.coin()) std::swap(m1, m2); }
    w->prepare(m1, m2); c.desc << " (" << m1 << "," << m2 << ")";
    int ncalc = (int)c.range(1, 4);
    for (int q = 0; q < ncalc; ++q) {
      int i = (int)c.below(nt), j = (int)c.below(nt); bool pair = c.coin(); int first; std::vector<double> r[2];
      int ids[2] = {i, j};
      if (pair) {
        auto get = [&](const levels::arr_align<levels::V2df, 16> &a) { for (int l = 0; l <= lmax; ++l) { double x = 0, y = 0; if (l >= first) a[l].writeTo(x, y); r[0].push_back(x); r[1].push_back(y); } };
        if (c.coin()) get(w->calc(i, j, first));
        else { levels::arr_align<levels::V2df, 16> a(lmax + 1); w->calc(i, j, first, a); get(a); }
        c.cls("paired");
      } else {
        auto get = [&](const levels::arr<double> &a) { for (int l = 0; l <= lmax; ++l) r[0].push_back(l >= first ? a[l] : 0); };
        if (c.coin()) get(w->calc(i, first));
        else { levels::arr<double> a(lmax + 1); w->calc(i, first, a); get(a); }
        c.cls("single");
      }
      int l0 = std::max(abs(m1), abs(m2));
      c.check(first >= l0 && first <= lmax + 1, fmt("m=%d m'=%d: first l is %d (lmax %d)", m1, m2, first, lmax));
      bool big = false;
      for (int s = 0; s < (pair ? 2 : 1); ++s) {
        double t = th[ids[s]]; std::vector<ld> d; wig_rec(lmax, m1, m2, t, d);
        double rel = 0;
        for (int l = l0; l <= lmax; ++l) {
          double L = l + 1, tol = EPS * (12 * L + 2 * L * L + L * (fabs(t) + 6)) ;
          if (l <= 10) c.check(fabsl(d[l] - wig_sum(l, m1, m2, t)) < 1e-15L, fmt("reference disagrees with itself at l=%d m=%d m'=%d theta=%.17g", l, m1, m2, t));
          if (l < first) {
ld lim = (ld)eps * 1.000001L + (eps > 1e-12 ? tol : 0) + (ld)eps * 1e3L * tol / EPS * 1e-13L;
            bool over = fabsl(d[l]) > lim;
            if (over) // the angle is only known to rounding, and the code keeps it 1e-15 away from 0 and pi
              for (int sg = -1; sg <= 1 && over; ++sg) { std::vector<ld> d2; ld del = (ld)EPS * (fabsl(t) + 6) + 1e-15L, PI = 3.14159265358979323846264338327950288L, np = PI * roundl(t / PI); if (sg == 0 && fabsl(np - t) > del) continue; wig_rec(l, m1, m2, sg ? t + sg * del : np + 1e-25L, d2); if (fabsl(d2[l]) <= lim) over = false; }
            if (over) c.fail(fmt("m=%d m'=%d theta=%.17g: first l is %d but element l=%d is %.6Lg (accuracy %g)", m1, m2, t, first, l, d[l], eps));
          } else {
            double e = (double)fabsl((ld)r[s][l] - d[l]);
            if (!(e <= tol)) c.fail(fmt("%s m=%d m'=%d l=%d theta=%.17g: got %.17g, definition gives %.17Lg (difference %.3g, tolerance %.3g)", pair ? "paired" : "single", m1, m2, l, t, r[s][l], d[l], e, tol));
            if (fabsl(d[l]) > 1e-3) big = true;
            rel = std::max(rel, e / tol);
          }
        }
        if (getenv("VP_TUNE")) { static double mx = 0; if (rel > mx) { mx = rel; fprintf(stderr, "wigner: %.3g of tolerance (lmax %d theta %.3g m %d %d)\n", rel, lmax, t, m1, m2); } }
      }
      c.cls(big ? "noticeable values" : "all tiny"); c.nontrivial(big);
    }
  }
}

// ================================================================ L02
VP_PROP(wigner_risbo) {
  int lmax = (int)c.skew(0, c.big ? 60 : 24), kind = (int)c.below(4), thr = (int)c.range(1, 4), upto = (int)c.range(0, lmax);
  if (c.coin()) upto = lmax;
  if (c.coin(1, 60)) { upto = lmax = (int)c.range(40, c.big ? 160 : 100); c.cls("high order"); }
  omp_set_num_threads(thr); double ang = kind % 2 ? gen_theta(c) : levels::halfpi; if (kind % 2 == 0) ang = levels::halfpi;
  static const char *N[] = {"halfpi scalar", "scalar", "halfpi threaded", "threaded"}; c.cls(N[kind]);
  c.note("kind", N[kind]).note("lmax", lmax).note("threads", thr); c.desc << "angle=" << std::setprecision(17) << ang;
  std::unique_ptr<levels::wigner_d_halfpi_risbo_scalar> a; std::unique_ptr<levels::wigner_d_risbo_scalar> b;
  std::unique_ptr<levels::wigner_d_halfpi_risbo_openmp> e; std::unique_ptr<levels::wigner_d_risbo_openmp> f;
  if (kind == 0) a.reset(new levels::wigner_d_halfpi_risbo_scalar(lmax)); else if (kind == 1) b.reset(new levels::wigner_d_risbo_scalar(lmax, ang));
  else if (kind == 2) e.reset(new levels::wigner_d_halfpi_risbo_openmp(lmax)); else f.reset(new levels::wigner_d_risbo_openmp(lmax, ang));
  // d[l][i][j] of the reference, by m pairs
  std::vector<std::vector<ld>> ref((size_t)(lmax + 1) * (2 * lmax + 1));
  for (int i = -lmax; i <= 0; ++i) for (int j = -lmax; j <= lmax; ++j) wig_rec(lmax, j, i, ang, ref[(size_t)(i + lmax) * (2 * lmax + 1) + j + lmax]);
  c.nontrivial(upto >= 2 && fabs(sin(ang)) > 1e-8);
  for (int n = 0; n <= upto; ++n) {
    const levels::arr2<double> &d = kind == 0 ? a->recurse() : kind == 1 ? b->recurse() : kind == 2 ? e->recurse() : f->recurse();
    int jm = kind % 2 ? 2 * n : n;
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= jm; ++j) {
      ld want = ref[(size_t)(i - n + lmax) * (2 * lmax + 1) + j - n + lmax][n];
      double tol = EPS * (n + 1) * (12 + fabs(ang)), er = (double)fabsl(d[i][j] - want);
      if (!(er <= tol)) c.fail(fmt("%s, angle %.17g, l=%d: element [%d][%d] is %.17g, definition gives %.17Lg", N[kind], ang, n, i, j, d[i][j], want));
      if (getenv("VP_TUNE")) { static double mx = 0; if (er / tol > mx) { mx = er / tol; fprintf(stderr, "risbo: %.3g of tolerance (%s lmax %d)\n", mx, N[kind], lmax); } }
    }
  }
}

// ================================================================ L03
namespace {
typedef std::complex<ld> cl;
struct Twiddle { std::vector<cl> w; explicit Twiddle(size_t n) : w(n) { for (size_t i = 0; i < n; ++i) w[i] = cl(cosl(2 * PI * i / n), sinl(2 * PI * i / n)); } };
cl dft1(const std::vector<std::complex<double>> &x, const Twiddle &t, size_t k, int sign) {
  size_t n = x.size(), p = 0; cl s = 0;
  for (size_t j = 0; j < n; ++j) { cl w = t.w[p]; if (sign < 0) w = std::conj(w); s += cl(x[j]) * w; p += k; if (p >= n) p -= n; }
  return s;
}
size_t gen_len(vp::Ctx &c) {
  size_t mx = c.big ? 30000 : 6000, n;
  if (c.coin(1, 60)) { // beyond the range where squares of the length or of an index fit into 31 or 32 bits
    auto smooth = [](size_t v) { for (size_t p : {2, 3, 5, 7, 11, 13}) while (v % p == 0) v /= p; return v == 1; };
    auto prime = [](size_t v) { for (size_t d = 2; d * d <= v; ++d) if (v % d == 0) return false; return true; };
    n = (size_t)c.range(30000, c.big ? 300000 : 100000); int k = (int)c.below(3); if (k == 0) while (!prime(n)) ++n; else if (k == 1) while (!smooth(n)) ++n; c.cls("very long"); return n;
  }
  switch (c.below(6)) {
    case 0: n = 1 + c.below(40); break;
    case 1: n = 1 + c.below(600); break;
    case 2: { n = 1; static const int P[] = {2, 3, 4, 5, 7, 11, 13}; for (int k = 0; k < 12; ++k) { size_t q = P[c.below(7)]; if (n * q > mx) break; n *= q; } break; }
    case 3: { n = 100 + c.below(1900); auto prime = [](size_t v) { for (size_t d = 2; d * d <= v; ++d) if (v % d == 0) return false; return true; }; while (!prime(n)) ++n; c.cls("prime length"); break; }
    case 4: { static const size_t P[] = {2, 3, 4, 6}; auto prime = [](size_t v) { for (size_t d = 2; d * d <= v; ++d) if (v % d == 0) return false; return true; }; n = 100 + c.below(900); while (!prime(n)) ++n; n *= P[c.below(4)]; c.cls("prime times small"); break; }
    default: n = 1 + c.below(mx);
  }
  return n;
}
void gen_data(vp::Ctx &c, size_t n, std::vector<std::complex<double>> &x) {
  x.assign(n, 0); vp::Rng r = c.bulk(); int kind = (int)c.below(5); c.note("data", kind);
  double sc = c.coin(1, 4) ? pow(10., (double)c.range(-200, 200)) : 1;
  if (kind == 0) for (auto &v : x) v = std::complex<double>(r.real(-1, 1) * sc, r.real(-1, 1) * sc);
  else if (kind == 1) x[r.below(n)] = std::complex<double>(sc, r.coin() ? sc : 0);
  else if (kind == 2) { size_t k = r.below(n); for (size_t j = 0; j < n; ++j) { ld a = 2 * PI * ((j * k) % n) / n; x[j] = std::complex<double>((double)cosl(a) * sc, (double)sinl(a) * sc); } }
  else if (kind == 3) { size_t m = 1 + r.below(std::min<size_t>(n, 5)); for (size_t q = 0; q < m; ++q) x[r.below(n)] = std::complex<double>(r.real(-1, 1) * sc, r.real(-1, 1) * sc); }
  else for (auto &v : x) v = std::complex<double>(sc, -sc);
}
// outputs that are compared: all for short transforms, a sample for long ones
std::vector<size_t> which(vp::Ctx &c, size_t n) {
  std::vector<size_t> k; if (n <= 256) { for (size_t i = 0; i < n; ++i) k.push_back(i); return k; }
  vp::Rng r = c.bulk(); k = {0, 1, n - 1, n / 2, n / 2 + 1}; for (int i = 0; i < 27; ++i) k.push_back(r.below(n)); return k;
}
double norm2(const std::vector<std::complex<double>> &x) { double m = 0; for (auto &v : x) m = std::max(m, std::max(fabs(v.real()), fabs(v.imag()))); if (m == 0) return 0; double s = 0; for (auto &v : x) s += std::norm(v / m); return m * sqrt(s); }
double ffttol(size_t n, double nrm, double mag = 0) { return EPS * ((30 * log2((double)n) + 40) * nrm + 40 * mag) + 1e-300; }
void tune(const char *w, double e, double t, size_t n) { if (getenv("VP_TUNE")) { static std::map<std::string, double> mx; double r = e / t; if (r > mx[w]) { mx[w] = r; fprintf(stderr, "%s: %.3g of tolerance (n %zu)\n", w, r, n); } } }
const double GUARD = -7.123e77;
struct Buf { std::vector<double> v; size_t n; explicit Buf(size_t n_) : v(n_ + 8, GUARD), n(n_) {} double *p() { return &v[4]; }
  bool ok() const { for (int i = 0; i < 4; ++i) if (v[i] != GUARD || v[n + 4 + i] != GUARD) return false; return true; } };
} // namespace

VP_PROP(fft_complex) {
  int np = (int)c.range(1, 3); std::vector<size_t> len; c.desc << "n=";
  std::vector<levels::cfft> pl(4); std::vector<size_t> sz(4, 0);
  std::map<size_t, std::shared_ptr<Twiddle>> tw;
  for (int i = 0; i < np; ++i) { len.push_back(gen_len(c)); c.desc << len[i] << " "; }
  int ops = (int)c.range(1, 8); bool any = false;
  for (int o = 0; o < ops; ++o) {
    int a = (int)c.below(4), kind = o ? (int)c.below(6) : 0;
    if (kind == 0) { size_t n = len[c.below(np)]; pl[a].Set(n); sz[a] = n; }
    else if (kind == 1) { int b = (int)c.below(4); if (sz[b]) { pl[a] = pl[b]; sz[a] = sz[b]; c.cls("assigned"); } }
    else if (kind == 2) { size_t n = len[c.below(np)]; levels::cfft t(n); pl[a] = t; sz[a] = n; c.cls("assigned"); }
    else if (kind == 3 && sz[a]) { levels::cfft t(pl[a]); pl[(a + 1) % 4] = t; sz[(a + 1) % 4] = sz[a]; c.cls("copied"); }
    if (!sz[a]) continue;
    size_t n = sz[a]; c.check(pl[a].size() == n, fmt("plan reports length %zu instead of %zu", pl[a].size(), n));
    std::vector<std::complex<double>> x; gen_data(c, n, x); double nrm = norm2(x), tol = 0, cmax = 0; for (auto &q : x) cmax = std::max(cmax, std::abs(q));
    int sign = c.coin() ? 1 : -1; Buf d(2 * n); memcpy(d.p(), x.data(), 16 * n);
    if (c.coin()) { if (sign < 0) pl[a].forward(d.p()); else pl[a].backward(d.p()); }
    else if (c.coin(1, 3)) { levels::arr<levels::xcomplex<double>> v((levels::xcomplex<double> *)d.p(), n); if (sign < 0) pl[a].forward(v); else pl[a].backward(v); }
    else if (sign < 0) pl[a].forward((levels::xcomplex<double> *)d.p()); else pl[a].backward((levels::xcomplex<double> *)d.p());
    c.check(d.ok(), fmt("length %zu: the transform wrote outside the data", n));
    if (!tw[n]) tw[n] = std::make_shared<Twiddle>(n);
    for (size_t k : which(c, n)) {
      cl w = dft1(x, *tw[n], k % n, sign); double e = (double)std::abs(cl(d.p()[2 * (k % n)], d.p()[2 * (k % n) + 1]) - w); tol = ffttol(n, nrm, (double)std::abs(w)); tune("cfft", e, tol, n);
      if (!(e <= tol)) c.fail(fmt("%s transform of length %zu: element %zu is (%.17g, %.17g), the sum gives (%.17Lg, %.17Lg), tolerance %.3g", sign < 0 ? "forward" : "backward", n, k % n, d.p()[2 * (k % n)], d.p()[2 * (k % n) + 1], w.real(), w.imag(), tol));
    }
    if (n > 1 && nrm > 0) any = true;
    // and back: n times the input
    if (sign < 0) pl[a].backward(d.p()); else pl[a].forward(d.p());
    for (size_t k = 0; k < n; ++k) { double e = std::abs(std::complex<double>(d.p()[2 * k], d.p()[2 * k + 1]) - (double)n * x[k]), t2 = 3 * ffttol(n, nrm * sqrt((double)n), n * cmax); tune("cfft-back", e, t2, n);
      if (!(e <= t2)) c.fail(fmt("length %zu: transforming back gives element %zu = (%.17g, %.17g) instead of n times (%.17g, %.17g)", n, k, d.p()[2 * k], d.p()[2 * k + 1], x[k].real(), x[k].imag())); }
    c.check(d.ok(), fmt("length %zu: the transform wrote outside the data", n));
  }
  c.nontrivial(any);
}

VP_PROP(fft_real) {
  static const char *F[] = {"fftpack", "halfcomplex", "full complex"}; int np = (int)c.range(1, 3); std::vector<size_t> len; c.desc << "n="; for (int i = 0; i < np; ++i) { len.push_back(gen_len(c)); c.desc << len[i] << " "; }
  struct Pool { real_plan p[3] = {0, 0, 0}; ~Pool() { for (auto q : p) if (q) kill_real_plan(q); } } P; size_t ps[3] = {0, 0, 0}, cs[3] = {0, 0, 0}; std::vector<levels::rfft> C(3); std::map<size_t, std::shared_ptr<Twiddle>> tw;
  int ops = (int)c.range(1, 6); bool any = false;
  for (int o = 0; o < ops; ++o) {
    bool usecls = c.coin(1, 2); int a = (int)c.below(3), b = (int)c.below(3), kind = o ? (int)c.below(6) : 0; size_t nl = len[c.below(np)];
    if (usecls) {
      if (kind == 0) { C[a].Set(nl); cs[a] = nl; }
      else if (kind == 1) { if (cs[b]) { C[a] = C[b]; cs[a] = cs[b]; c.cls("assigned"); } }
      else if (kind == 2) { levels::rfft t(nl); C[a] = t; cs[a] = nl; c.cls("assigned"); }
      else if (kind == 3 && cs[a]) { levels::rfft t(C[a]); C[b] = t; cs[b] = cs[a]; c.cls("copied"); }
    } else {
      auto set = [&](int w, real_plan q, size_t m) { if (P.p[w]) kill_real_plan(P.p[w]); P.p[w] = q; ps[w] = m; };
      if (kind == 0 || kind == 2) set(a, make_real_plan(nl), nl);
      else if ((kind == 1 || kind == 3) && ps[b]) { set(a, copy_real_plan(P.p[b]), ps[b]); c.cls("copied plan"); }
    }
    size_t n = usecls ? cs[a] : ps[a]; if (!n) continue; real_plan p = P.p[a]; levels::rfft &cls_ = C[a]; if (usecls) c.check(cls_.size() == n, fmt("real plan reports length %zu instead of %zu", (size_t)cls_.size(), n));
    int form = (int)c.below(3); if (form == 1 && usecls) form = 2; c.cls(F[form]); bool viaarr = usecls && c.coin();
    std::vector<std::complex<double>> x; gen_data(c, n, x); for (auto &v : x) v = v.real();
    double nrm = norm2(x), tol = 0, cmax = 0; for (auto &q : x) cmax = std::max(cmax, std::abs(q)); if (!tw[n]) tw[n] = std::make_shared<Twiddle>(n);
    size_t nd = form == 2 ? 2 * n : n; Buf d(nd); vp::Rng r = c.bulk();
    if (form < 2) for (size_t i = 0; i < n; ++i) d.p()[i] = x[i].real();
    else for (size_t i = 0; i < n; ++i) { d.p()[2 * i] = x[i].real(); d.p()[2 * i + 1] = r.real(-9, 9); } // imaginary parts are ignored
    auto run = [&](bool back) {
      if (!usecls) { if (form == 0) (back ? real_plan_backward_fftpack : real_plan_forward_fftpack)(p, d.p()); else if (form == 1) (back ? real_plan_backward_fftw : real_plan_forward_fftw)(p, d.p()); else (back ? real_plan_backward_c : real_plan_forward_c)(p, d.p()); }
      else if (form == 0 && !viaarr) { if (back) cls_.backward_fftpack(d.p()); else cls_.forward_fftpack(d.p()); }
      else if (form == 0) { levels::arr<double> v(d.p(), n); if (back) cls_.backward_fftpack(v); else cls_.forward_fftpack(v); }
      else { levels::arr<levels::xcomplex<double>> v((levels::xcomplex<double> *)d.p(), n); if (back) cls_.backward_c(v); else cls_.forward_c(v); } };
    run(false);
    c.check(d.ok(), fmt("real transform of length %zu wrote outside the data", n));
    auto re = [&](size_t k) { return form == 0 ? (k == 0 ? d.p()[0] : d.p()[2 * k - 1]) : form == 1 ? d.p()[k] : d.p()[2 * k]; };
    auto im = [&](size_t k) { return (k == 0 || 2 * k == n) && form < 2 ? 0. : form == 0 ? d.p()[2 * k] : form == 1 ? d.p()[n - k] : d.p()[2 * k + 1]; };
    for (size_t k : which(c, n)) {
      k %= n; if (form < 2 && 2 * k > n) k = n - k;
      cl w = dft1(x, *tw[n], k, -1); double e = (double)std::abs(cl(re(k), im(k)) - w); tol = ffttol(n, nrm, (double)std::abs(w)); tune("rfft", e, tol, n);
      if (!(e <= tol)) c.fail(fmt("real forward (%s) of length %zu: element %zu is (%.17g, %.17g), the sum gives (%.17Lg, %.17Lg)", F[form], n, k, re(k), im(k), w.real(), w.imag()));
    }
    run(true);
    double t2 = 3 * ffttol(n, nrm * sqrt((double)n), n * cmax);
    for (size_t k = 0; k < n; ++k) { double g = form == 2 ? d.p()[2 * k] : d.p()[k]; double e = fabs(g - n * x[k].real()); tune("rfft-back", e, t2, n);
      if (!(e <= t2)) c.fail(fmt("real backward (%s) of length %zu: element %zu is %.17g instead of n times %.17g", F[form], n, k, g, x[k].real()));
      if (form == 2) c.check(d.p()[2 * k + 1] == 0, fmt("real backward (full complex) of length %zu: imaginary part %zu is %g", n, k, d.p()[2 * k + 1])); }
    c.check(d.ok(), fmt("real transform of length %zu wrote outside the data", n));
    if (n > 2 && nrm > 0) any = true;
  }
  c.nontrivial(any);
}

// ================================================================ L08
namespace {
struct M3 { ld e[3][3]; };
M3 rz(ld a) { return {{{cosl(a), -sinl(a), 0}, {sinl(a), cosl(a), 0}, {0, 0, 1}}}; }
M3 ry(ld a) { return {{{cosl(a), 0, sinl(a)}, {0, 1, 0}, {-sinl(a), 0, cosl(a)}}}; }
M3 mul(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.e[i][j] = 0; for (int k = 0; k < 3; ++k) r.e[i][j] += a.e[i][k] * b.e[k][j]; } return r; }
M3 axr(ld x, ld y, ld z, ld a) { ld c = cosl(a), s = sinl(a), i = 1 - c; return {{{x * x * i + c, x * y * i - z * s, x * z * i + y * s}, {x * y * i + z * s, y * y * i + c, y * z * i - x * s}, {x * z * i - y * s, y * z * i + x * s, z * z * i + c}}}; }
double dist(const levels::rotmatrix &a, const M3 &b) { double m = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double e = (double)fabsl(a.entry[i][j] - b.e[i][j]); if (!(e <= m)) m = e; } return m; }
M3 toM(const levels::rotmatrix &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.e[i][j] = a.entry[i][j]; return r; }
M3 tr(const M3 &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.e[i][j] = a.e[j][i]; return r; }
double ang(vp::Ctx &c) {
  switch (c.below(5)) { case 0: return c.real(-levels::pi, levels::pi); case 1: return c.range(-8, 8) * levels::halfpi; case 2: return c.range(-4, 4) * levels::pi + (c.coin() ? 1 : -1) * pow(10., -(double)c.range(1, 17)) * (1 + c.unit());
    case 3: return c.real(-20, 20); default: return 0; }
}
levels::vec3 gen_axis(vp::Ctx &c) {
  double x, y, z; int k = (int)c.below(4);
  if (k == 0) { x = c.real(-1, 1); y = c.real(-1, 1); z = c.real(-1, 1); }
  else if (k == 1) { x = (double)c.range(-1, 1); y = (double)c.range(-1, 1); z = (double)c.range(-1, 1); }
  else if (k == 2) { x = c.real(-1, 1); y = c.real(-1, 1) * 1e-9; z = c.real(-1, 1); }
  else { x = 1e-8 * c.real(-1, 1); y = c.real(-1, 1); z = 1e-12; }
  ld n = sqrtl((ld)x * x + (ld)y * y + (ld)z * z); if (n < 1e-20L) { x = 0; y = 0; z = 1; n = 1; }
  return levels::vec3((double)(x / n), (double)(y / n), (double)(z / n));
}
std::string ms(const levels::rotmatrix &m) { std::ostringstream o; o << std::setprecision(17); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o << m.entry[i][j] << (j < 2 ? " " : "; "); return o.str(); }
} // namespace
VP_PROP(rotations) {
  levels::rotmatrix m; M3 w; int kind = (int)c.below(4); c.desc << std::setprecision(17); double tol = 4e-15;
  if (kind == 0) { double a = ang(c), b = ang(c), g = ang(c); c.note("alpha", a).note("beta", b).note("gamma", g); m.Make_CPAC_Euler_Matrix(a, b, g); w = mul(mul(rz(a), ry(b)), rz(g)); c.cls("euler"); c.nontrivial(b != 0); }
  else if (kind == 1) { levels::vec3 v = gen_axis(c); double a = ang(c); c.note("ax", v.x).note("ay", v.y).note("az", v.z).note("angle", a); m.Make_Axis_Rotation_Transform(v, a); w = axr(v.x, v.y, v.z, a); c.cls("axis"); c.nontrivial(a != 0); }
  else if (kind == 3) { M3 q = mul(mul(rz(ang(c)), ry(ang(c))), rz(ang(c))); double e[9]; for (int i = 0; i < 9; ++i) e[i] = (double)q.e[i / 3][i % 3]; m = levels::rotmatrix(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8]); w = q; c.cls("elements"); c.nontrivial(); }
  else { levels::vec3 v = gen_axis(c); double a = ang(c); M3 q = axr(v.x, v.y, v.z, a); levels::vec3 x((double)q.e[0][0], (double)q.e[1][0], (double)q.e[2][0]), y((double)q.e[0][1], (double)q.e[1][1], (double)q.e[2][1]), z((double)q.e[0][2], (double)q.e[1][2], (double)q.e[2][2]); m = levels::rotmatrix(x, y, z); w = q; c.cls("triple"); c.nontrivial(a != 0); }
  c.check(dist(m, w) < tol, fmt("matrix differs by %.3g from the rotation named: %s", dist(m, w), ms(m).c_str()));
  // algebra
  levels::rotmatrix n; double a2 = ang(c), b2 = ang(c), g2 = ang(c); n.Make_CPAC_Euler_Matrix(a2, b2, g2); M3 mm = toM(m), nn = toM(n);
  levels::rotmatrix pr = m * n, pr2, tt, mt = m; levels::matmult(m, n, pr2); levels::TransposeTimes(m, n, tt); mt.Transpose();
  c.check(dist(pr, mul(mm, nn)) < tol && dist(pr2, mul(mm, nn)) < tol, "product of matrices is wrong");
  c.check(dist(tt, mul(tr(mm), nn)) < tol, "transpose product of matrices is wrong"); c.check(dist(mt, tr(mm)) == 0, "transpose is wrong");
  levels::rotmatrix id = m, ze = n; id.SetToIdentity(); ze.SetToZero(); M3 I = rz(0), Z = {};
  c.check(dist(id, I) == 0 && dist(ze, Z) == 0, "identity or zero matrix wrong"); c.check(dist(mt * m, I) < tol, "transpose is not the inverse");
  levels::vec3 v(c.real(-2, 2), c.real(-2, 2), c.real(-2, 2)), u = m.Transform(v), u2; m.Transform(v, u2);
  double vv[3] = {v.x, v.y, v.z}, uu[3] = {u.x, u.y, u.z};
  for (int i = 0; i < 3; ++i) { ld s = 0; for (int k = 0; k < 3; ++k) s += mm.e[i][k] * vv[k]; c.check(fabsl(s - uu[i]) < tol * 4, "transformed vector is wrong"); }
  c.check(u2.x == u.x && u2.y == u.y && u2.z == u.z, "the two Transform functions differ");
  // extraction and back
  levels::vec3 ax; double an; m.toAxisAngle(ax, an); levels::rotmatrix r; r.Make_Axis_Rotation_Transform(ax, an);
  c.check(std::isfinite(an) && an >= 0 && an <= levels::pi * (1 + 1e-15), fmt("axis-angle: angle %.17g", an));
  c.check(fabs(ax.Length() - 1) < 1e-14, fmt("axis-angle: axis of length %.17g (axis %.17g %.17g %.17g angle %.17g) from %s", ax.Length(), ax.x, ax.y, ax.z, an, ms(m).c_str()));
  c.check(dist(r, mm) < 2e-14, fmt("axis-angle extraction and back differs by %.3g: axis %.17g %.17g %.17g angle %.17g from %s", dist(r, mm), ax.x, ax.y, ax.z, an, ms(m).c_str()));
  double al, be, ga; m.Extract_CPAC_Euler_Angles(al, be, ga); r.Make_CPAC_Euler_Matrix(al, be, ga);
  double sb = sqrt(m.entry[0][2] * m.entry[0][2] + m.entry[1][2] * m.entry[1][2]), te = sb <= 1.1e-6 ? 2.5e-6 : 1e-14 / std::min(1., sb);
  c.check(be >= 0 && be <= levels::pi, fmt("extracted beta %.17g", be));
  c.check(dist(r, mm) < te, fmt("Euler extraction and back differs by %.3g (allowed %.3g): angles %.17g %.17g %.17g from %s", dist(r, mm), te, al, be, ga, ms(m).c_str()));
  if (sb <= 0.9e-6) c.check(al == 0, "ambiguous Euler angles with alpha not 0");
  auto nums = [&](const std::string &t, std::vector<double> want, const char *what) { std::string q = t; for (auto &ch : q) if (ch == ',' || ch == '(' || ch == ')') ch = ' '; std::istringstream in(q); std::vector<double> got; std::string w; while (in >> w) got.push_back(strtod(w.c_str(), 0)); c.check(got == want, fmt("%s printed as \"%s\"", what, t.c_str())); };
  { std::ostringstream o; o << std::setprecision(17) << m; std::vector<double> e; for (int i = 0; i < 9; ++i) e.push_back(m.entry[i / 3][i % 3]); nums(o.str(), e, "matrix"); std::ostringstream p, q; p << std::setprecision(17) << u; nums(p.str(), {u.x, u.y, u.z}, "vector"); levels::xcomplex<double> z(u.x, u.z); q << std::setprecision(17) << z; nums(q.str(), {u.x, u.z}, "complex number"); }
}
VP_PROP(vectors) {
  double s = pow(10., (double)c.range(-20, 20)); auto gv = [&]() { return levels::vec3(c.real(-1, 1) * s, c.coin(1, 4) ? 0 : c.real(-1, 1) * s, c.coin(1, 4) ? 0 : c.real(-1, 1) * s); };
  levels::vec3 a = gv(), b = gv(); double f = c.real(-5, 5), ss = s * s; c.desc << std::setprecision(17) << "a=" << a.x << " " << a.y << " " << a.z << " b=" << b.x << " " << b.y << " " << b.z;
  levels::vec3 cr = crossprod(a, b); ld w[3] = {(ld)a.y * b.z - (ld)a.z * b.y, (ld)a.z * b.x - (ld)a.x * b.z, (ld)a.x * b.y - (ld)a.y * b.x}; double g[3] = {cr.x, cr.y, cr.z};
  for (int i = 0; i < 3; ++i) c.check(fabsl(g[i] - w[i]) <= 1e-15 * ss, "cross product wrong");
  ld dp = (ld)a.x * b.x + (ld)a.y * b.y + (ld)a.z * b.z; c.check(fabsl(dotprod(a, b) - dp) <= 1e-15 * ss, "dot product wrong");
  ld l2 = (ld)a.x * a.x + (ld)a.y * a.y + (ld)a.z * a.z; c.check(fabsl(a.SquaredLength() - l2) <= 1e-15 * (double)l2 && fabsl(a.Length() - sqrtl(l2)) <= 1e-15 * (double)sqrtl(l2), "length wrong");
  if (l2 > 0) { levels::vec3 n = a.Norm(), q = a; q.Normalize(); ld l = sqrtl(l2); c.check(fabsl(n.x - a.x / l) < 1e-15 && fabsl(n.y - a.y / l) < 1e-15 && fabsl(n.z - a.z / l) < 1e-15, "normalised vector wrong"); c.check(q.x == n.x && q.y == n.y && q.z == n.z, "Norm and Normalize differ"); }
  levels::vec3 t = a + b; c.check(t.x == a.x + b.x && t.y == a.y + b.y && t.z == a.z + b.z, "sum wrong"); levels::vec3 u = a; u += b; c.check(u.x == t.x && u.y == t.y && u.z == t.z, "+= wrong");
  t = a - b; c.check(t.x == a.x - b.x && t.y == a.y - b.y && t.z == a.z - b.z, "difference wrong"); u = a; u -= b; c.check(u.x == t.x && u.y == t.y && u.z == t.z, "-= wrong");
  t = a * f; c.check(t.x == a.x * f && t.y == a.y * f && t.z == a.z * f, "scaling wrong"); u = a; u *= f; c.check(u.x == t.x && u.y == t.y && u.z == t.z, "*= wrong");
  if (f != 0) { t = a / f; c.check(fabs(t.x - a.x / f) <= 1e-15 * fabs(a.x / f) && fabs(t.y - a.y / f) <= 1e-15 * fabs(a.y / f) && fabs(t.z - a.z / f) <= 1e-15 * fabs(a.z / f), "division wrong"); }
  t = -a; u = a; u.Flip(); c.check(t.x == -a.x && t.y == -a.y && t.z == -a.z && u.x == t.x && u.y == t.y && u.z == t.z, "negation wrong");
  double z = c.coin(1, 4) ? (double)c.range(-1, 1) : c.real(-1, 1), ph = c.real(-7, 7); t.set_z_phi(z, ph); ld st = sqrtl((1 - (ld)z) * (1 + (ld)z));
  c.check(t.z == z && fabsl(t.x - st * cosl(ph)) < 1e-15 && fabsl(t.y - st * sinl(ph)) < 1e-15, "set_z_phi wrong");
  t.Set(1, f, 3); c.check(t.x == 1 && t.y == f && t.z == 3, "Set wrong"); c.nontrivial(l2 > 0 && dp != 0);
}

// ================================================================ L09
namespace {
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<260>, boost::multiprecision::et_off> big;
std::vector<big> &facts() { static std::vector<big> f(1, big(1)); return f; }
const big &F(int n) { auto &f = facts(); while ((int)f.size() <= n) f.push_back(f.back() * (int)f.size()); return f[n]; }
// all quantum numbers doubled
double w3j(int a, int b, int cc, int al, int be, int ga) {
  if (al + be + ga != 0) return 0;
  int p1 = (a + b - cc) / 2, p2 = (a - b + cc) / 2, p3 = (-a + b + cc) / 2, J = (a + b + cc) / 2; if (p1 < 0 || p2 < 0 || p3 < 0) return 0;
  if (abs(al) > a || abs(be) > b || abs(ga) > cc) return 0;
  big del = F(p1) * F(p2) * F(p3) / F(J + 1);
  big pre = del * F((a + al) / 2) * F((a - al) / 2) * F((b + be) / 2) * F((b - be) / 2) * F((cc + ga) / 2) * F((cc - ga) / 2);
  int k0 = std::max(0, std::max((b - cc - al) / 2, (a - cc + be) / 2)), k1 = std::min(p1, std::min((a - al) / 2, (b + be) / 2)); big s = 0;
  for (int k = k0; k <= k1; ++k) { big t = 1 / (F(k) * F(p1 - k) * F((a - al) / 2 - k) * F((b + be) / 2 - k) * F((cc - b + al) / 2 + k) * F((cc - a - be) / 2 + k)); if (k & 1) s -= t; else s += t; }
  int ph = (a - b - ga) / 2; if (ph & 1) s = -s;
  return (double)(sqrt(pre) * s);
}
struct Three { int b, c, be, ga, lmin, n; std::vector<double> r; }; // doubled
Three call3(vp::Ctx &c, int b, int cc, int be, int ga, int extra) {
  Three t{b, cc, be, ga, std::max(abs(b - cc), abs(be + ga)), 0, {}}; t.n = (b + cc - t.lmin) / 2 + 1; t.r.assign(t.n + extra + 4, GUARD);
  wrec3jj(b / 2., cc / 2., be / 2., ga / 2., t.r.data() + 2, t.n + extra);
  for (int i = 0; i < 2; ++i) c.check(t.r[i] == GUARD, "wrote before the result array"); for (size_t i = t.n + 2; i < t.r.size(); ++i) c.check(t.r[i] == GUARD, "wrote behind the allowed l1");
  t.r.erase(t.r.begin(), t.r.begin() + 2); t.r.resize(t.n); return t;
}
void gen3(vp::Ctx &c, int mx, int &b, int &cc, int &be, int &ga) {
  b = (int)c.skew(0, 2 * mx); cc = (int)c.skew(0, 2 * mx); if (c.coin(2, 3)) { b &= ~1; cc &= ~1; }
  auto pm = [&](int l) { int k = (int)c.below(4), n = l; if (k == 1) return l; if (k == 2) return -l; if (k == 3) return l & 1; return -l + 2 * (int)c.range(0, n); };
  be = pm(b); ga = pm(cc);
}
} // namespace
VP_PROP(wigner_3j) {
  int b, cc, be, ga; gen3(c, c.big ? 60 : 30, b, cc, be, ga); c.note("2l2", b).note("2l3", cc).note("2m2", be).note("2m3", ga);
  Three t = call3(c, b, cc, be, ga, (int)c.below(3)); c.cls((b | cc) & 1 ? "half-integer" : "integer"); c.nontrivial(t.n > 2);
  for (int i = 0; i < t.n; ++i) {
    int a = t.lmin + 2 * i; double w = w3j(a, b, cc, -be - ga, be, ga), e = fabs(t.r[i] - w), tol = EPS * (20 + t.n); tune("3j", e, tol, t.n);
    if (!(e <= tol)) c.fail(fmt("l1=%g l2=%g l3=%g m2=%g m3=%g: got %.17g, exact %.17g", a / 2., b / 2., cc / 2., be / 2., ga / 2., t.r[i], w));
  }
}
VP_PROP(wigner_3j_large) {
  int b, cc, be, ga; gen3(c, c.big && c.coin(1, 3) ? 4000 : c.big || c.coin(1, 6) ? 1500 : 400, b, cc, be, ga); c.note("2l2", b).note("2l3", cc).note("2m2", be).note("2m3", ga);
  Three t = call3(c, b, cc, be, ga, 0); double tol = EPS * 60 * (40 + t.n); c.nontrivial(t.n > 10); c.cls(t.n > 100 ? "long" : "short");
  auto dot = [&](const Three &x, const Three &y) { ld s = 0; for (int i = 0; i < x.n; ++i) s += (ld)(x.lmin + 2 * i + 1) * x.r[i] * y.r[i]; return (double)s; };
  for (double v : t.r) c.check(std::isfinite(v) && fabs(v) <= 1.0000001, fmt("value %g", v));
  c.check(fabs(dot(t, t) - 1) < tol, fmt("sum of (2 l1+1) w^2 is %.17g", dot(t, t)));
  { double w = t.r[t.n - 1]; int neg = ((b - cc + be + ga) / 2) & 1; c.check(w == 0 || (w < 0) == (neg != 0), fmt("the value at the largest l1 is %g: wrong sign", w)); if (w == 0) c.cls("underflow at the largest l1"); }
  int sh = 2 * (int)c.range(1, std::max(1, (b + 2) / 2)); // another m2 with the same m1
  if (c.coin()) sh = -sh;
  if (abs(be + sh) <= b && abs(ga - sh) <= cc) { Three u = call3(c, b, cc, be + sh, ga - sh, 0); c.cls("orthogonality"); double d = dot(t, u); tune("3j orth", fabs(d), tol, t.n); c.check(fabs(d) < tol, fmt("sequences for m2=%g and m2=%g are not orthogonal: %.3g", be / 2., (be + sh) / 2., d)); }
  Three x = call3(c, cc, b, ga, be, 0), f = call3(c, b, cc, -be, -ga, 0); double ts = EPS * 30 * (20 + t.n);
  for (int i = 0; i < t.n; ++i) { int J = (t.lmin + 2 * i + b + cc) / 2; double s = (J & 1) ? -t.r[i] : t.r[i]; tune("3j sym", std::max(fabs(x.r[i] - s), fabs(f.r[i] - s)), ts, t.n);
    c.check(fabs(x.r[i] - s) < ts, fmt("exchanging columns: l1=%g gives %.17g instead of %.17g", t.lmin / 2. + i, x.r[i], s)); c.check(fabs(f.r[i] - s) < ts, fmt("negating all m: l1=%g gives %.17g instead of %.17g", t.lmin / 2. + i, f.r[i], s)); }
}

// ================================================================ L10
VP_PROP(svd) {
  int n = (int)c.range(1, c.big ? 24 : 12), m = n + (int)c.skew(0, 12); if (c.coin(1, 150)) { n = (int)c.range(12, c.big ? 120 : 60); m = n + (int)c.skew(0, 80); c.cls("large"); } int kind = (int)c.below(9); vp::Rng r = c.bulk();
  static const char *N[] = {"dense", "low rank", "zero columns", "duplicate columns", "diagonal", "bidiagonal with zeros", "graded", "small integers", "zero rows"};
  static const double CUT[] = {0, 1e-14, 1e-10, 1e-6, 1e-2, 0.5}; double cut = CUT[c.below(6)], sc = pow(10., (double)c.range(-40, 40)); if (c.coin()) sc = 1;
  c.note("m", m).note("n", n).note("kind", N[kind]).note("cutoff", cut).note("scale", sc); c.cls(N[kind]);
  std::vector<double> A((size_t)m * n, 0); auto a = [&](int i, int j) -> double & { return A[(size_t)i * n + j]; };
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = r.real(-1, 1);
  if (kind == 1) { int k = (int)r.range(0, std::max(0, n - 1)); std::vector<double> L((size_t)m * (k + 1)), R((size_t)(k + 1) * n); for (auto &v : L) v = r.real(-1, 1); for (auto &v : R) v = r.real(-1, 1); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int q = 0; q < k; ++q) s += L[(size_t)i * (k + 1) + q] * R[(size_t)q * n + j]; a(i, j) = s; } }
  else if (kind == 2) { for (int j = 0; j < n; ++j) if (r.coin(.4)) for (int i = 0; i < m; ++i) a(i, j) = 0; }
  else if (kind == 3) { for (int j = 1; j < n; ++j) if (r.coin(.4)) { int q = (int)r.below(j); double f = r.coin() ? 1 : r.real(-2, 2); for (int i = 0; i < m; ++i) a(i, j) = f * a(i, q); } }
  else if (kind == 4) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (i != j || r.coin(.3)) a(i, j) = 0; }
  else if (kind == 5) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if ((i != j && i + 1 != j) || r.coin(.3)) a(i, j) = 0; }
  else if (kind == 6) { for (int j = 0; j < n; ++j) { double f = pow(10., -r.real(0, 12)); for (int i = 0; i < m; ++i) a(i, j) *= f; } }
  else if (kind == 7) { for (auto &v : A) v = (double)r.range(-2, 2); }
  else if (kind == 8) { for (int i = 0; i < m; ++i) if (r.coin(.5)) for (int j = 0; j < n; ++j) a(i, j) = 0; }
  for (auto &v : A) v *= sc;
  double nrm = 0; for (double v : A) nrm = std::max(nrm, fabs(v)); nrm *= sqrt((double)m * n);
  std::vector<double *> rows(m); std::vector<double> copy = A; for (int i = 0; i < m; ++i) rows[i] = &copy[(size_t)i * n];
  svd_obj o; svd_init(rows.data(), cut, m, n, &o); struct D { svd_obj *o; ~D() { svd_destroy(o); } } dd{&o};
  c.check(copy == A, "svd_init changed its input matrix"); c.check(o.m == m && o.n == n, "wrong sizes in the object");
  double t = EPS * 40 * (m + n), wmax = 0; int rank = 0; for (int k = 0; k < n; ++k) { c.check(std::isfinite(o.w[k]) && o.w[k] >= 0, fmt("singular value %d is %g", k, o.w[k])); wmax = std::max(wmax, o.w[k]); rank += o.w[k] > 0; }
  for (int k = 0; k < n; ++k) c.check(o.w[k] == 0 || o.w[k] >= wmax * cut, fmt("singular value %g below the cut-off %g of %g was kept", o.w[k], cut, wmax));
  for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) {
    ld s = 0, u = 0; for (int k = 0; k < n; ++k) s += (ld)o.v[p][k] * o.v[q][k]; for (int k = 0; k < m; ++k) u += (ld)o.u[p][k] * o.u[q][k];
    c.check(fabsl(s - (p == q)) < t, fmt("right vectors %d and %d have product %.17Lg", p, q, s));
    if (o.w[p] > wmax * 1e-12 && o.w[q] > wmax * 1e-12) c.check(fabsl(u - (p == q)) < t, fmt("left vectors %d and %d have product %.17Lg", p, q, u));
  }
  std::vector<double> E((size_t)m * n); double worst = 0, fro = 0;
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { ld s = 0; for (int k = 0; k < n; ++k) s += (ld)o.u[k][i] * o.w[k] * o.v[k][j]; E[(size_t)i * n + j] = (double)s; double e = (double)fabsl(s - a(i, j)); worst = std::max(worst, e); fro += (e / (nrm + 1e-300)) * (e / (nrm + 1e-300)); }
  fro = sqrt(fro) * nrm; double allow = cut * wmax * sqrt((double)n) * (1 + t) + t * nrm + 1e-300; tune("svd", fro - cut * wmax * sqrt((double)n), t * nrm + 1e-300, n);
  c.check(fro <= allow, fmt("U W V^T differs from the matrix by %.3g (norm %.3g, cut-off %.3g)", fro, nrm, cut * wmax));
  c.nontrivial(wmax > 0 && n > 1); c.cls(rank < n ? "rank deficient or truncated" : "full rank");
  // solution: normal equations of the truncated matrix, minimal norm
  std::vector<double> b(std::max(m, n) + 2, GUARD), b0(m); for (int i = 0; i < m; ++i) b0[i] = b[i] = r.real(-1, 1); if (c.coin(1, 3)) { std::vector<double> x0(n); for (auto &v : x0) v = r.real(-1, 1); for (int i = 0; i < m; ++i) { ld s = 0; for (int j = 0; j < n; ++j) s += (ld)E[(size_t)i * n + j] / sc * x0[j]; b0[i] = b[i] = (double)s; } }
  svd_solve(&o, b.data()); c.check(b[std::max(m, n)] == GUARD && b[std::max(m, n) + 1] == GUARD, "svd_solve wrote behind its vector");
  double nb = 0, nx = 0, wmin = wmax; for (double v : b0) nb += v * v; nb = sqrt(nb); for (int j = 0; j < n; ++j) { c.check(std::isfinite(b[j]), fmt("solution component %d is %g", j, b[j])); nx = std::max(nx, fabs(b[j])); } for (int k = 0; k < n; ++k) if (o.w[k] > 0) wmin = std::min(wmin, o.w[k]);
  if (wmax > 0 && wmin > 1e-10 * wmax) {
    std::vector<ld> res(m); for (int i = 0; i < m; ++i) { ld s = -(ld)b0[i]; for (int j = 0; j < n; ++j) s += (ld)E[(size_t)i * n + j] * b[j]; res[i] = s; }
    for (int j = 0; j < n; ++j) { ld s = 0; for (int i = 0; i < m; ++i) s += (ld)E[(size_t)i * n + j] * res[i]; double tt = 8 * t * wmax * (wmax * nx * n + nb) + 1e-290; tune("svd solve", (double)fabsl(s), tt, n); c.check(fabsl(s) <= tt, fmt("A^T (A x - b) component %d is %.3Lg (allowed %.3g)", j, s, tt)); }
    for (int k = 0; k < n; ++k) if (o.w[k] == 0) { ld s = 0; for (int j = 0; j < n; ++j) s += (ld)o.v[k][j] * b[j]; c.check(fabsl(s) <= t * (nx * n) + 1e-300, "the solution is not of minimal norm"); }
    // against the matrix itself where nothing was cut
    if (rank == n && cut < 1e-9) { c.cls("full-rank solve"); for (int j = 0; j < n; ++j) { ld s = 0; for (int i = 0; i < m; ++i) { ld q = -(ld)b0[i]; for (int k = 0; k < n; ++k) q += (ld)a(i, k) * b[k]; s += (ld)a(i, j) * q; } c.check(fabsl(s) <= 16 * t * nrm * (nrm * nx * n + nb) + 1e-290, fmt("normal equations of the matrix: component %d is %.3Lg", j, s)); } }
  } else if (wmax == 0) for (int j = 0; j < n; ++j) c.check(b[j] == 0, "solution for a zero matrix is not zero");
}
VP_MAIN
