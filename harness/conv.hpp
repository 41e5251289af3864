// conv.hpp - independent model of the convolution and helpers to drive the library.
#ifndef VP_CONV_HPP
#define VP_CONV_HPP
#include "vp.hpp"
#include "conviqt.hpp"
#include <fitsio.h>
#ifdef _OPENMP
#include <omp.h>
#endif

namespace cv {
typedef std::complex<double> cd;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;

// ---------------------------------------------------------------- Wigner d
// d^l_{m1,m2}(theta) for l = 0..lmax, by the three-term recursion in l in long
// double from the closed form at l = max(|m1|,|m2|).
inline void wigner_d(int lmax, int m1, int m2, ld theta, std::vector<ld> &d) {
  d.assign(lmax + 1, 0);
  int l0 = std::max(std::abs(m1), std::abs(m2));
  if (l0 > lmax) return;
  ld c = cosl(theta / 2), s = sinl(theta / 2), x = cosl(theta);
  // reduce to d^{j}_{j,m}
  int j = l0, m; ld sg = 1; int a = m1, b = m2;
  if (std::abs(a) != j) { // |b| == j : d_{a,b} = (-1)^{a-b} d_{b,a}
    if ((a - b) & 1) sg = -sg;
    std::swap(a, b);
  }
  if (a == -j && j > 0) { // d_{a,b} = d_{-b,-a} = (-1)^{a-b} d_{-a,-b}
    if ((a - b) & 1) sg = -sg;
    a = -a; b = -b;
  }
  m = b;
  // d^j_{j,m} = sqrt(C(2j,j+m)) (-1)^{j-m} c^{j+m} s^{j-m}
  ld lg = 0.5L * (lgammal(2 * j + 1) - lgammal(j + m + 1) - lgammal(j - m + 1));
  ld v = 1;
  { // exp(lg) * c^(j+m) * s^(j-m) without premature underflow
    ld ac = fabsl(c), as = fabsl(s);
    int pc = j + m, ps = j - m;
    if ((pc > 0 && ac == 0) || (ps > 0 && as == 0)) v = 0;
    else v = expl(lg + (pc ? pc * logl(ac) : 0) + (ps ? ps * logl(as) : 0));
    if (c < 0 && (pc & 1)) v = -v;
    if (s < 0 && (ps & 1)) v = -v;
  }
  if ((j - m) & 1) v = -v;
  d[l0] = sg * v;
  ld dm1 = 0;
  for (int l = l0; l < lmax; ++l) {
    ld dl = d[l], nx;
    if (l == 0) nx = x * dl;
    else {
      ld L = l, M1 = m1, M2 = m2;
      ld num = (2 * L + 1) * (L * (L + 1) * x - M1 * M2) * dl - (L + 1) * sqrtl((L * L - M1 * M1) * (L * L - M2 * M2)) * dm1;
      nx = num / (L * sqrtl(((L + 1) * (L + 1) - M1 * M1) * ((L + 1) * (L + 1) - M2 * M2)));
    }
    dm1 = dl; d[l + 1] = nx;
  }
}

// ---------------------------------------------------------------- coefficients
struct Coef { // triangular, 0<=m<=l<=lmax, m<=mmax
  int lmax = 0, mmax = 0; std::vector<cd> a;
  void set(int l, int m) { lmax = l; mmax = m; a.assign((size_t)(l + 1) * (m + 1), cd(0)); }
  cd &operator()(int l, int m) { return a[(size_t)l * (mmax + 1) + m]; }
  cd operator()(int l, int m) const { return (l < 0 || m < 0 || l > lmax || m > mmax || m > l) ? cd(0) : a[(size_t)l * (mmax + 1) + m]; }
  // coefficient for signed m of a real function
  cd full(int l, int m) const { return m >= 0 ? (*this)(l, m) : ((m & 1) ? -std::conj((*this)(l, -m)) : std::conj((*this)(l, -m))); }
  double amax() const { double r = 0; for (auto &x : a) r = std::max(r, std::abs(x)); return r; }
};
typedef Coef Field[3]; // T, G, C

// values that single precision holds exactly, with few enough bits that products
// and three-term sums of products are exact in single precision too
inline double dyadic(vp::Rng &r, int bits) { return (double)(r.range(-((1 << bits) - 1), (1 << bits) - 1)) / (1 << bits); }

// mode 0: dense, 1: sparse, 2: single coefficient, 3: steep red spectrum
inline void fill(Coef &c, int lmax, int mmax, int bandl, int bandm, int mode, vp::Rng &r) {
  c.set(lmax, mmax);
  bandl = std::min(bandl, lmax); bandm = std::min(std::min(bandm, mmax), bandl);
  if (mode == 2) {
    int m = (int)r.range(0, bandm), l = (int)r.range(m, bandl);
    double re = dyadic(r, 9), im = m ? dyadic(r, 9) : 0; if (re == 0) re = 0.5;
    c(l, m) = cd(re, im); return;
  }
  for (int l = 0; l <= bandl; ++l)
    for (int m = 0; m <= std::min(l, bandm); ++m) {
      double re = dyadic(r, 9), im = dyadic(r, 9); bool keep = mode != 1 || r.coin(0.1);
      if (mode == 3) { re = ldexp(re, -std::min(l / 2, 20)); im = ldexp(im, -std::min(l / 2, 20)); }
      if (keep) c(l, m) = cd(re, m ? im : 0);
    }
}

// ---------------------------------------------------------------- the defining sum
// value and the sum of absolute values of its terms
// drop: sum of the terms the known finding "elements dropped near the poles" loses if theta is a
// ring of the data cube; maybe: absolute sum of those for which rounding decides whether they are lost
struct Overlap { double v, scale, bound, maybe = 0, dropmass = 0; std::vector<double> drops; };

class Model {
public:
  int ncomp, lmax, bm; const Coef *s, *b;
  // prod[(m+lmax)*(2bm+1) + mb + bm][l]
  std::vector<std::vector<cd>> prod; std::vector<std::vector<double>> ab; std::vector<char> any;
  double total = 0; int usedl = 0, usedm = 0;
  Model(const Coef *s_, const Coef *b_, int ncomp_, int lmax_, int bm_) : ncomp(ncomp_), lmax(lmax_), bm(std::min(bm_, lmax_)), s(s_), b(b_) {
    int nm = 2 * lmax + 1, nb = 2 * bm + 1;
    prod.resize((size_t)nm * nb); ab.resize((size_t)nm * nb); any.assign((size_t)nm * nb, 0);
    for (int m = -lmax; m <= lmax; ++m) for (int mb = -bm; mb <= bm; ++mb) {
      size_t k = (size_t)(m + lmax) * nb + mb + bm; int l0 = std::max(std::abs(m), std::abs(mb));
      bool nz = false;
      for (int l = l0; l <= lmax; ++l) {
        cd v = 0; double a = 0;
        for (int c = 0; c < ncomp; ++c) { cd x = s[c].full(l, m) * std::conj(b[c].full(l, mb)); v += x; a += std::abs(x); }
        if (a != 0) {
          if (!nz) { prod[k].assign(lmax + 1, 0); ab[k].assign(lmax + 1, 0); nz = true; }
          prod[k][l] = v; ab[k][l] = a; total += a; usedl = std::max(usedl, l); usedm = std::max(usedm, std::abs(m));
        }
      }
      any[k] = nz;
    }
  }
  // where the generator starts delivering elements for a threshold
  int first_l(const std::vector<ld> &d, int l0, ld eps) const {
    int l = l0;
    if (fabsl(d[l0]) < ldexpl(1, -450)) do { l += 2; if (l > lmax) return lmax + 1; } while (fabsl(d[l]) < ldexpl(1, -360));
    while (l <= lmax && fabsl(d[l]) < eps) ++l;
    if (l > lmax && ((lmax - l0) & 1)) l = lmax; // the last one is delivered unseen
    return l > l0 ? l : 0;
  }
  Overlap eval(double theta, double phi, double psi, bool ring = true) const {
    std::vector<ld> d; int nb = 2 * bm + 1; ld v = 0, sc = 0, dr = 0, mb_ = 0, dm = 0;
    // rings are computed in pairs from the northern one; an exact pole is nudged
    // and its colatitude is only known to rounding, which decides about the elements with |m| = |mb| = 1 alone
    ld th = theta > levels::halfpi ? PI - (ld)theta : (ld)theta; bool pole = th < 1e-14L; if (pole) th = 1e-15L;
    std::vector<ld> amb(lmax + 1, 0);
    bool polar = false;
    if (ring && bm > 0) { // can an element with |m-mb| or |m+mb| up to lmax+bm be below 1e-30 at l = lmax?
      ld t = std::min(sinl(th / 2), cosl(th / 2)); int p = 2; polar = (lmax + bm) * log10l(t) < -28 || p * log10l(t) < -28;
    }
    std::map<std::pair<int, int>, std::pair<int, int>> fl; // (|m|,mb) -> surely dropped below .first, possibly below .second
    if (polar) for (int m = 0; m <= lmax; ++m) for (int mb = 0; mb <= bm; ++mb) {
      int sure = 0, may = 0;
      for (int sg = -1; sg <= 1; sg += 2) {
        wigner_d(lmax, sg * m, mb, th, d); int l0 = std::max(m, mb);
        sure = std::max(sure, first_l(d, l0, 0.4e-30L)); may = std::max(may, first_l(d, l0, 2.5e-30L));
      }
      fl[{m, mb}] = {sure, may};
    }
    for (int m = -lmax; m <= lmax; ++m) for (int mb = -bm; mb <= bm; ++mb) {
      size_t k = (size_t)(m + lmax) * nb + mb + bm; if (!any[k]) continue;
      wigner_d(lmax, m, mb, theta, d);
      std::complex<ld> z = 0, zd = 0; ld a = 0; std::pair<int, int> f(0, 0);
      if (polar) f = fl[{std::abs(m), std::abs(mb)}];
      bool unsure = pole && std::abs(m) == 1 && std::abs(mb) == 1; if (unsure) f = {0, 0};
      ld arg = (ld)m * phi + (ld)mb * psi, ca = cosl(arg), sa = sinl(arg);
      for (int l = 0; l <= lmax; ++l) if (ab[k][l] != 0) {
        std::complex<ld> x = std::complex<ld>(prod[k][l]) * d[l]; ld ax = ab[k][l] * fabsl(d[l]);
        z += x; a += ax;
        if (l < f.first) zd += x; else if (l < f.second) mb_ += ax;
        if (l < f.second || unsure) dm += ax;
        if (unsure) amb[l] -= x.real() * ca - x.imag() * sa; // (-1)^mb
      }
      if (mb & 1) { z = -z; zd = -zd; } // the library counts psi from the opposite direction: exp(i mb (psi + pi))
      v += z.real() * ca - z.imag() * sa;
      dr += zd.real() * ca - zd.imag() * sa;
      sc += a;
    }
    Overlap o; o.v = (double)v; o.scale = (double)sc; o.bound = total; o.maybe = (double)mb_; o.dropmass = (double)dm;
    if (dm > 0) { o.drops.push_back((double)dr); if (pole) for (int l = 1; l <= lmax; ++l) { dr += amb[l]; o.drops.push_back((double)dr); } }
    return o;
  }
  // absolute sum of the terms lost at the rings within the stencil of an off-grid colatitude
  double stencil_loss(double theta, int order) const {
    if (bm == 0) return 0;
    double h = (double)(PI / (lmax + 1)), s = 0; long c = (long)floor(theta / h), w = (order + 1) / 2 + 1;
    std::set<long> seen;
    for (long k = c - w; k <= c + w; ++k) {
      long q = k; if (q < 0) q = -q; if (q > lmax + 1) q = 2 * (lmax + 1) - q; if (q < 0 || q > lmax + 1 || !seen.insert(q).second) continue;
      double t = (double)((ld)q * PI / (lmax + 1));
      auto it = loss.find(q); if (it == loss.end()) it = loss.emplace(q, eval(t, 0, 0).dropmass).first;
      s += it->second;
    }
    return s;
  }
  mutable std::map<long, double> loss;
};

// ---------------------------------------------------------------- FITS writer (independent of the library's)
enum { FW_KEYS = 1, FW_SHUFFLE = 2, FW_DOUBLE = 4, FW_DENSE = 8 };
inline void fits_fail(int st) { char m[80]; fits_get_errstatus(st, m); throw std::runtime_error(std::string("harness fits writer: ") + m); }
// writes ncomp tables; rows are the non-zero coefficients (all with FW_DENSE)
inline void write_alm_file(const std::string &path, const Coef *f, int ncomp, int flags, vp::Rng &r) {
  fitsfile *p; int st = 0; unlink(path.c_str());
  fits_create_file(&p, path.c_str(), &st); long n0[1] = {0}; fits_create_img(p, 8, 0, n0, &st);
  for (int c = 0; c < ncomp; ++c) {
    std::vector<int> idx; std::vector<double> re, im; const Coef &q = f[c];
    std::vector<std::pair<int, int>> lm;
    for (int l = 0; l <= q.lmax; ++l) for (int m = 0; m <= std::min(l, q.mmax); ++m)
      if ((flags & FW_DENSE) || q(l, m) != cd(0)) lm.push_back({l, m});
    if (!(flags & FW_KEYS)) { // orders must be recognisable from the rows
      bool hl = false, hm = false;
      for (auto &x : lm) { hl = hl || x.first == q.lmax; hm = hm || x.second == q.mmax; }
      if (!hl || !hm) { lm.clear(); for (int l = 0; l <= q.lmax; ++l) for (int m = 0; m <= std::min(l, q.mmax); ++m) lm.push_back({l, m}); }
    }
    if (lm.empty()) lm.push_back({0, 0});
    if (flags & FW_SHUFFLE) for (size_t i = lm.size(); i > 1; --i) std::swap(lm[i - 1], lm[r.below(i)]);
    for (auto &x : lm) { idx.push_back(x.first * x.first + x.first + x.second + 1); re.push_back(q(x.first, x.second).real()); im.push_back(q(x.first, x.second).imag()); }
    const char *tt[3] = {"index", "real", "imag"}, *tu[3] = {"l*l+l+m+1", "unknown", "unknown"};
    const char *tfd[3] = {"1J", "1D", "1D"}, *tfe[3] = {"1J", "1E", "1E"};
    fits_create_tbl(p, BINARY_TBL, idx.size(), 3, (char **)tt, (char **)((flags & FW_DOUBLE) ? tfd : tfe), (char **)tu, (char *)"alm", &st);
    fits_write_col(p, TINT, 1, 1, 1, idx.size(), idx.data(), &st);
    fits_write_col(p, TDOUBLE, 2, 1, 1, idx.size(), re.data(), &st);
    fits_write_col(p, TDOUBLE, 3, 1, 1, idx.size(), im.data(), &st);
    if (flags & FW_KEYS) { int a = q.lmax, b = q.mmax; fits_write_key(p, TINT, "MAX-LPOL", &a, (char *)"", &st); fits_write_key(p, TINT, "MAX-MPOL", &b, (char *)"", &st); }
  }
  fits_close_file(p, &st); if (st) fits_fail(st);
}

// ---------------------------------------------------------------- pointings
struct Pt { double phi, theta, psi; bool node; };
inline void to_pointing(const std::vector<Pt> &v, conviqt::pointing &p, double junk = 0) {
  p.alloc(5 * v.size());
  for (size_t i = 0; i < v.size(); ++i) { p[5 * i] = v[i].phi; p[5 * i + 1] = v[i].theta; p[5 * i + 2] = v[i].psi; p[5 * i + 3] = junk; p[5 * i + 4] = junk; }
}
// grid of the data cube: a node in both angles
inline Pt node(int lmax, long ith, long jph, double psi, int turns) {
  Pt p; p.theta = (double)((ld)ith * PI / (lmax + 1)); if (p.theta > levels::pi) p.theta = levels::pi;
  p.phi = (double)(PI / 2 + (ld)jph * 2 * PI / (2 * lmax + 1) + 2 * PI * turns); p.psi = psi; p.node = true; return p;
}
inline double lib_pi() { return levels::pi; }

// |f - interpolant| <= A * e, tensor-product Lagrange interpolation with n = order+1
// equidistant nodes of step h, for exp(i k x): k^n h^n max|prod(x-j)|/n!, x in the cell the stencil is chosen for
inline double lagrange_err(int order, double kh) {
  int n = order + 1, off = order / 2; double mx = 0;
  for (int i = 0; i <= 20; ++i) { double x = off + i / 20.0, q = 1; for (int j = 0; j < n; ++j) q *= fabs(x - j); mx = std::max(mx, q); }
  double e = mx; for (int j = 1; j <= n; ++j) e *= kh / j;
  return e;
}
inline double lebesgue(int order) {
  int n = order + 1, off = order / 2; double mx = 0;
  for (int i = 0; i <= 20; ++i) { double x = off + i / 20.0, q = 0; for (int j = 0; j < n; ++j) { double w = 1; for (int k = 0; k < n; ++k) if (k != j) w *= (x - k) / (j - k); q += fabs(w); } mx = std::max(mx, q); }
  return mx;
}
// relative (to the sum of |s||b|) error bound of the library's interpolation off the nodes
inline double interp_bound(int order, int lmax, int usedl, int usedm) {
  double et = lagrange_err(order, (double)(usedl * PI / (lmax + 1)));
  double ep = lagrange_err(order, (double)(usedm * 2 * PI / (2 * lmax + 1)));
  double L = lebesgue(order);
  return 1.05 * (et + L * ep);
}
} // namespace cv
#endif
