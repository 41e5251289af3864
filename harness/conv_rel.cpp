// C04 - C07: relations between convolutions, histories of operations.
#include "conv_gen.hpp"
#include <memory>
using namespace cv;

namespace {
struct Obj { std::unique_ptr<conviqt::sky> s; std::unique_ptr<conviqt::beam> b; };

static int counter = 0;
conviqt::sky *mksky(vp::Ctx &c, const Coef *s, int l, bool pol, int flags = 0) {
  std::string f = c.dir + vp::fmt("/s%d.fits", counter++ % 8); vp::Rng r(3); write_alm_file(f, s, pol ? 3 : 1, flags | FW_KEYS, r);
  return new conviqt::sky(l, pol, f, 0, MPI_COMM_SELF);
}
conviqt::beam *mkbeam(vp::Ctx &c, const Coef *b, int l, int m, bool pol, int flags = 0) {
  std::string f = c.dir + vp::fmt("/b%d.fits", counter++ % 8); vp::Rng r(3); write_alm_file(f, b, pol ? 3 : 1, flags | FW_KEYS, r);
  return new conviqt::beam(l, m > 0 ? m : -1, pol, f, MPI_COMM_SELF);
}
std::vector<double> signals(const conviqt::pointing &p) { std::vector<double> v(p.size() / 5); for (size_t i = 0; i < v.size(); ++i) v[i] = p[5 * i + 3]; return v; }
std::vector<double> run(vp::Ctx &c, const Setup &S, conviqt::sky *s, conviqt::beam *b, const std::vector<Pt> &v, int threads, bool cal = false, double eps = 0) {
  omp_set_num_threads(threads); conviqt::detector d("x"); d.set_epsilon(eps);
  conviqt::convolver cnv(s, b, &d, S.pol, S.lmax, S.bm, S.order, 0, MPI_COMM_SELF);
  conviqt::pointing p; to_pointing(v, p); cnv.convolve(p, cal);
  c.check(p.size() == 5 * v.size(), "row count changed"); return signals(p);
}
double bound(const Setup &S) { Model M(S.s, S.b, S.ncomp, S.lmax, S.bm); return M.total; }
bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
GenOpt gopt(vp::Ctx &c) { GenOpt o; o.maxl = c.big ? 36 : 16; o.maxbm = c.big ? 10 : 6; o.lowband = false; o.allow_default = false; o.longl = c.big ? 110 : 60; return o; }
bool any(const std::vector<double> &v) { for (double x : v) if (x != 0) return true; return false; }
} // namespace

// ---------------------------------------------------------------- C04
VP_PROP(rows) {
  Setup S; GenOpt go = gopt(c); go.scale = true; gen_setup(c, S, go); std::vector<Pt> v; PtOpt po; po.maxn = c.big ? 80 : 30; po.huge = true; gen_points(c, S, v, po);
  Obj o; o.s.reset(mksky(c, S.s, S.lsky, S.pol)); o.b.reset(mkbeam(c, S.b, S.lbeam, S.mbeam, S.pol));
  if (S.mbeam == 0) S.bm = 0;
  double B = bound(S), tol = 1e-12 * B * pow(lebesgue(S.order), 2) + 1e-300;
  int n = v.size(), threads = cv::threads(c, 3); bool cal = c.coin(1, 3); c.note("threads", threads).note("cal", cal);
  omp_set_num_threads(threads);
  conviqt::detector d("x"); d.set_epsilon(S.eps); conviqt::convolver cnv(o.s.get(), o.b.get(), &d, S.pol, S.lmax, S.bm, S.order, 0, MPI_COMM_SELF);
  conviqt::pointing p; to_pointing(v, p, 0); cnv.convolve(p, cal);
  c.check(p.size() == (size_t)5 * n, "row count changed");
  for (int i = 0; i < n; ++i) c.check(same(p[5 * i], v[i].phi) && same(p[5 * i + 1], v[i].theta) && same(p[5 * i + 2], v[i].psi),
    vp::fmt("row %d: angles changed from (%.17g, %.17g, %.17g) to (%.17g, %.17g, %.17g)", i, v[i].phi, v[i].theta, v[i].psi, p[5 * i], p[5 * i + 1], p[5 * i + 2]));
  std::vector<double> ref = signals(p);
  for (int i = 0; i < n; ++i) c.check(std::isfinite(ref[i]), vp::fmt("row %d: signal is %g", i, ref[i]));
  // another arrangement of the rows
  int kind = (int)c.below(5); c.note("arrangement", kind); vp::Rng r = c.bulk(); std::vector<int> from;
  static const char *names[] = {"permuted", "subset", "duplicated", "extended", "one by one"}; c.cls(names[kind]);
  if (kind == 0) { for (int i = 0; i < n; ++i) from.push_back(i); for (int i = n; i > 1; --i) std::swap(from[i - 1], from[r.below(i)]); }
  else if (kind == 1) { for (int i = 0; i < n; ++i) if (r.coin()) from.push_back(i); if (from.empty()) from.push_back(0); }
  else if (kind == 2) { int m = (int)r.range(n, 3 * n); for (int i = 0; i < m; ++i) from.push_back(r.below(n)); }
  else if (kind == 3) { for (int i = 0; i < n; ++i) { while (r.coin(.4)) from.push_back(-1); from.push_back(i); } while (r.coin(.6)) from.push_back(-1); }
  std::vector<std::vector<int>> calls; if (kind == 4) for (int i = 0; i < n && i < 6; ++i) calls.push_back({(int)r.below(n)}); else calls.push_back(from);
  double junk[] = {0, -1e300, 1e18, NAN, INFINITY, -3.7};
  for (auto &f : calls) {
    std::vector<Pt> w; for (int k : f) { Pt q; if (k >= 0) q = v[k]; else { q.phi = r.real(-9, 9); q.theta = r.real(0, lib_pi()); q.psi = r.real(-9, 9); q.node = false; } w.push_back(q); }
    conviqt::pointing q; to_pointing(w, q); for (size_t i = 0; i < w.size(); ++i) { q[5 * i + 3] = junk[r.below(6)]; q[5 * i + 4] = junk[r.below(6)]; }
    cnv.convolve(q, cal); c.check(q.size() == 5 * w.size(), "row count changed");
    for (size_t i = 0; i < w.size(); ++i) {
      c.check(same(q[5 * i], w[i].phi) && same(q[5 * i + 1], w[i].theta) && same(q[5 * i + 2], w[i].psi), vp::fmt("%s: row %zu: angles changed", names[kind], i));
      if (f[i] >= 0 && !(fabs(q[5 * i + 3] - ref[f[i]]) <= tol))
        c.fail(vp::fmt("%s: row %zu (row %d of the first call, phi=%.17g theta=%.17g psi=%.17g): signal %.17g, was %.17g", names[kind], i, f[i], w[i].phi, w[i].theta, w[i].psi, q[5 * i + 3], ref[f[i]]));
    }
  }
  c.nontrivial(n >= 2 && any(ref));
}

// ---------------------------------------------------------------- C05
static void lin(Coef *out, const Coef *x, double fx, const Coef *y, double fy, int nc) { for (int k = 0; k < nc; ++k) { out[k].set(x[k].lmax, x[k].mmax); for (size_t i = 0; i < out[k].a.size(); ++i) out[k].a[i] = fx * x[k].a[i] + fy * y[k].a[i]; } }
VP_PROP(symmetry) {
  Setup S; GenOpt go = gopt(c); go.scale = true; gen_setup(c, S, go); if (S.mbeam == 0) S.bm = 0; std::vector<Pt> v; PtOpt po; po.maxn = c.big ? 40 : 16; gen_points(c, S, v, po);
  int threads = cv::threads(c, 2); int rel = (int)c.below(7); const double P2 = 2 * lib_pi();
  static const char *names[] = {"linear in sky", "linear in beam", "sky rotated about the pole by grid steps", "whole turns in phi and psi", "beam rotated by quarter turns", "beam rotated", "mirrored through the equator"};
  c.cls(names[rel]); c.note("relation", names[rel]);
  double L = pow(lebesgue(S.order), 2), B = bound(S);
  if (rel == 6) { std::vector<Pt> w; for (auto &p : v) if (fabs(p.theta - levels::halfpi) > 1e-9) w.push_back(p); v = w; if (v.empty()) return; }
  Obj o; o.s.reset(mksky(c, S.s, S.lsky, S.pol)); o.b.reset(mkbeam(c, S.b, S.lbeam, S.mbeam, S.pol));
  std::vector<double> ref = run(c, S, o.s.get(), o.b.get(), v, threads), got, want = ref;
  Coef t[3], u[3]; for (int k = 0; k < 3; ++k) { t[k] = S.s[k]; u[k] = S.b[k]; }
  std::vector<Pt> w = v; double tol = 4e-12 * B * L; vp::Rng r = c.bulk();
  if (rel == 0 || rel == 1) {
    Coef y[3]; double fx = ldexp(r.coin() ? 1 : -1, (int)r.range(-1, 1)), fy = ldexp(r.coin() ? 1 : -1, (int)r.range(-1, 1));
    for (int k = 0; k < S.ncomp; ++k) if (rel == 0) fill(y[k], S.lsky, S.lsky, 9999, 9999, (int)r.below(3), r); else fill(y[k], S.lbeam, S.mbeam, 9999, 9999, (int)r.below(3), r);
    for (int k = 0; k < S.ncomp; ++k) for (auto &x : y[k].a) x *= rel == 0 ? S.fs : S.fb;
    Setup S2 = S; for (int k = 0; k < 3; ++k) (rel == 0 ? S2.s : S2.b)[k] = y[k];
    std::unique_ptr<conviqt::sky> s2; std::unique_ptr<conviqt::beam> b2; std::vector<double> r2; Coef z[3];
    lin(z, rel == 0 ? S.s : S.b, fx, y, fy, S.ncomp);
    if (rel == 0) { s2.reset(mksky(c, y, S.lsky, S.pol)); r2 = run(c, S, s2.get(), o.b.get(), v, threads); s2.reset(mksky(c, z, S.lsky, S.pol)); got = run(c, S, s2.get(), o.b.get(), v, threads); }
    else { b2.reset(mkbeam(c, y, S.lbeam, S.mbeam, S.pol)); r2 = run(c, S, o.s.get(), b2.get(), v, threads); b2.reset(mkbeam(c, z, S.lbeam, S.mbeam, S.pol)); got = run(c, S, o.s.get(), b2.get(), v, threads); }
    for (size_t i = 0; i < v.size(); ++i) want[i] = fx * ref[i] + fy * r2[i];
    tol = 1e-11 * L * (fabs(fx) * B + fabs(fy) * bound(S2));
    // the library multiplies in single precision: exact only if the factors have few bits
    bool exact = true; const double unit = ldexp(rel == 0 ? S.fs : S.fb, -11); auto few = [&](double x) { return x / unit == std::floor(x / unit); };
    for (int k = 0; k < S.ncomp; ++k) for (auto &x : z[k].a) exact = exact && few(x.real()) && few(x.imag());
    if (!exact) { tol = std::max(tol, 6e-7 * L * (fabs(fx) * B + fabs(fy) * bound(S2))); c.cls("combination not exact in single precision"); }
  } else {
    if (rel == 2) {
      int steps = (int)r.range(1, 2 * S.lmax); ld al = steps * 2 * PI / (2 * S.lmax + 1);
      for (int k = 0; k < S.ncomp; ++k) for (int l = 0; l <= t[k].lmax; ++l) for (int m = 0; m <= std::min(l, t[k].mmax); ++m) t[k](l, m) *= std::complex<double>(cosl(m * al), -sinl(m * al));
      for (auto &p : w) p.phi += (double)al;
      tol += 3e-7 * B * L;
    } else if (rel == 3) {
      int turns = r.coin(.25) ? (int)r.range(4, 3000) : 3; c.note("turns", turns);
      for (auto &p : w) { p.phi += P2 * r.range(-turns, turns); p.psi += P2 * r.range(-turns, turns); }
      tol += 1e-14 * turns * B * L * (S.lmax + 1) * (S.order + 1);
    } else if (rel == 4 || rel == 5) {
      ld be = rel == 4 ? (ld)r.range(1, 3) * PI / 2 : (ld)r.real(-6, 6); int q = (int)llroundl(be * 2 / PI);
      for (int k = 0; k < S.ncomp; ++k) for (int l = 0; l <= u[k].lmax; ++l) for (int m = 0; m <= std::min(l, u[k].mmax); ++m) {
        cd x = u[k](l, m);
        if (rel == 4) { int e = ((m * q) % 4 + 4) % 4; static const cd ip[4] = {cd(1, 0), cd(0, 1), cd(-1, 0), cd(0, -1)}; x *= ip[e]; } else x *= cd(cosl(m * be), sinl(m * be));
        u[k](l, m) = x;
      }
      for (auto &p : w) p.psi += (double)be; // conj(b exp(i m be)) exp(i m (psi + be))
      if (rel == 5) tol += 3e-7 * B * L;
    } else {
      for (int k = 0; k < S.ncomp; ++k) {
        for (int l = 0; l <= t[k].lmax; ++l) for (int m = 0; m <= std::min(l, t[k].mmax); ++m) if ((l + m) & 1) t[k](l, m) = -t[k](l, m);
        for (int l = 0; l <= u[k].lmax; ++l) for (int m = 0; m <= std::min(l, u[k].mmax); ++m) { u[k](l, m) = std::conj(u[k](l, m)); if (m & 1) u[k](l, m) = -u[k](l, m); }
      }
      for (auto &p : w) { p.theta = std::max(0.0, lib_pi() - p.theta); p.psi = -p.psi; }
    }
    // rounding of the shifted angles, amplified by the slope of the interpolant: one band limit, one stencil width
    tol += 1e-14 * B * L * (S.lmax + 1) * (S.order + 1) * 8;
    Obj q; q.s.reset(mksky(c, t, S.lsky, S.pol)); q.b.reset(mkbeam(c, u, S.lbeam, S.mbeam, S.pol));
    got = run(c, S, q.s.get(), q.b.get(), w, threads);
  }
  for (size_t i = 0; i < v.size(); ++i) {
    // a shift that rounds across a cell boundary selects the neighbouring stencil
    bool edge = false;
    if (rel == 2 || rel == 3) { double x = (v[i].phi - levels::halfpi) / (P2 / (2 * S.lmax + 1)); edge = fabs(x - std::round(x)) < 1e-9; }
    if (rel == 6) { double x = v[i].theta * (S.lmax + 1) / lib_pi(); edge = fabs(x - std::round(x)) < 1e-9 && false; (void)x; }
    if (edge && !v[i].node) { c.cls("skipped: on a cell edge"); continue; }
    if (!(fabs(got[i] - want[i]) <= tol))
      c.fail(vp::fmt("%s: row %zu phi=%.17g theta=%.17g psi=%.17g: %.17g, expected %.17g (difference %.3g > %.3g, sum of |terms| %.6g)", names[rel], i, v[i].phi, v[i].theta, v[i].psi, got[i], want[i], got[i] - want[i], tol, B));
  }
  c.nontrivial(any(ref));
}

// ---------------------------------------------------------------- C06
VP_PROP(calibration) {
  Setup S; GenOpt g = gopt(c); g.maxl = 10; gen_setup(c, S, g); if (S.mbeam == 0) S.bm = 0;
  vp::Rng r = c.bulk(); Coef bb[2][3];
  for (int k = 0; k < 3; ++k) bb[0][k] = S.b[k];
  for (int f = 0; f < 2; ++f) { if (f) for (int k = 0; k < S.ncomp; ++k) fill(bb[1][k], S.lbeam, S.mbeam, 999, 999, (int)r.below(2), r); if (bb[f][0](0, 0) == cd(0)) bb[f][0](0, 0) = cd(r.coin() ? 0.5 : -0.25, 0); if (r.coin(.25)) { double sc = (float)pow(10., (double)r.range(-12, 12)); for (int k = 0; k < S.ncomp; ++k) for (auto &x : bb[f][k].a) x = cd((float)(x.real() * sc), (float)(x.imag() * sc)); } }
  std::string bf[2]; for (int f = 0; f < 2; ++f) { bf[f] = c.dir + vp::fmt("/bm%d.fits", f); vp::Rng q(5); write_alm_file(bf[f], bb[f], S.ncomp, FW_KEYS, q); }
  std::vector<Pt> v; PtOpt po; po.maxn = 6; gen_points(c, S, v, po);
  std::unique_ptr<conviqt::sky> sky(mksky(c, S.s, S.lsky, S.pol)); conviqt::beam beams[2]; long ma = S.mbeam > 0 ? S.mbeam : -1;
  struct B { int cur; bool norm; double scale; } st[2]; int ib = 0;
  for (int i = 0; i < 2; ++i) { st[i] = {i, false, 1}; beams[i].read(S.lbeam, ma, S.pol, bf[i], MPI_COMM_SELF); c.check(!beams[i].normalized(), "a beam that was just read claims to be normalized"); }
  std::vector<conviqt::detector> d; d.reserve(2); double e[2] = {S.eps, 0.5}; for (int i = 0; i < 2; ++i) { d.emplace_back("d"); d[i].set_epsilon(e[i]); } int id = 0;
  omp_set_num_threads(1);
  conviqt::convolver cnv(sky.get(), &beams[0], &d[0], S.pol, S.lmax, S.bm, S.order, verbosity(c), MPI_COMM_SELF);
  int nops = (int)c.skew(3, 14); std::ostringstream hist; int ncal = 0, nnorm = 0;
  for (int k = 0; k < nops; ++k) {
    int op = (int)c.below(9); B &t = st[ib]; conviqt::beam &beam = beams[ib];
    if (op == 0) { // normalize
      double b00 = bb[t.cur][0](0, 0).real(), want = t.norm ? 1.0 : 1 / (2 * sqrt((double)PI) * b00);
      double got = beam.normalize(); hist << " normalize" << ib; ++nnorm;
      c.check(fabs(got - want) <= 1e-6 * fabs(want), vp::fmt("normalize returned %.9g, expected %.9g after:%s", got, want, hist.str().c_str()));
      if (!t.norm) t.scale = want; t.norm = true;
      double t00 = beam.blmT()(0, 0).re; c.check(fabs(t00 * 2 * sqrt((double)PI) - 1) < 1e-6, vp::fmt("intensity beam integrates to %.9g after:%s", t00 * 2 * sqrt((double)PI), hist.str().c_str()));
    } else if (op == 1) { t = {(int)c.below(2), false, 1}; beam.read(S.lbeam, ma, S.pol, bf[t.cur], MPI_COMM_SELF); hist << " read" << t.cur << " into " << ib; }
    else if (op == 2) { id = (int)c.below(2); cnv.set_detector(&d[id]); hist << " det" << id; }
    else if (op == 3) { int i = (int)c.below(2); double v = c.pick(std::vector<double>{0, 0.3, 1, 0.001, 0.77, -0.5, -2, 0.3333, 3}); int how = (int)c.below(4); // also close to what is set, or to what the other detector has
      if (how == 0) v = c.real(-0.9, 3); else if (how == 1) v = e[c.below(2)] + (c.coin() ? 1 : -1) * pow(10., -(double)c.range(2, 13)); if (fabs(1 + v) < 1e-3) v = 0.25;
      d[i].set_epsilon(v); e[i] = v; hist << vp::fmt(" eps%d=%.15g", i, v); }
    else if (op == 4) { ib = (int)c.below(2); cnv.set_beam(&beams[ib]); hist << " beam" << ib; }
    else if (op == 5) { bool miss = c.coin(), thrown = false; try { if (miss) beam.read(S.lbeam, ma, S.pol, c.dir + "/none.fits", MPI_COMM_SELF); else beam.read(S.lbeam + 1, ma, S.pol, bf[c.below(2)], MPI_COMM_SELF); } catch (...) { thrown = true; } hist << " refused read into " << ib; c.check(thrown, "a read of a missing file or of too high an order was accepted"); c.cls("refused read"); }
    else { // convolve with and without calibration
      hist << " convolve"; conviqt::pointing p, q; to_pointing(v, p); to_pointing(v, q); cnv.convolve(p, false); cnv.convolve(q, true);
      double f = t.norm ? 1 : 2 / (1 + e[id]); ++ncal;
      for (size_t i = 0; i < v.size(); ++i) c.check(fabs(q[5 * i + 3] - f * p[5 * i + 3]) <= 1e-14 * fabs(f * p[5 * i + 3]),
        vp::fmt("row %zu: calibrated %.17g, uncalibrated %.17g, factor should be %.17g (normalized %d) after:%s", i, q[5 * i + 3], p[5 * i + 3], f, t.norm, hist.str().c_str()));
    }
    // every coefficient is the file's times the scale
    for (int n = 0; n < 2; ++n) {
      for (int comp = 0; comp < S.ncomp; ++comp) { auto &A = comp == 0 ? beams[n].blmT() : comp == 1 ? beams[n].blmG() : beams[n].blmC(); for (int l = 0; l <= S.lbeam; ++l) for (int m = 0; m <= std::min(l, beams[n].get_mmax()); ++m) { cd w = bb[st[n].cur][comp](l, m) * st[n].scale, g(A(l, m).re, A(l, m).im); c.check(std::abs(g - w) <= 2e-7 * std::abs(w) * 2, vp::fmt("beam %d component %d l=%d m=%d is %.9g%+.9gi, expected %.9g%+.9gi after:%s", n, comp, l, m, g.real(), g.imag(), w.real(), w.imag(), hist.str().c_str())); } }
      c.check(beams[n].normalized() == st[n].norm, vp::fmt("normalized() of beam %d is %d, expected %d after:%s", n, beams[n].normalized(), st[n].norm, hist.str().c_str()));
      c.check(d[n].get_epsilon() == e[n], vp::fmt("get_epsilon of detector %d is %.17g, set was %.17g", n, d[n].get_epsilon(), e[n]));
    }
  }
  c.note("history", hist.str()); c.nontrivial(ncal > 0 && nops > 3 && nnorm > 0);
  if (nnorm) c.cls("with normalize"); if (ncal) c.cls("with convolve");
}

// ---------------------------------------------------------------- C07
static uint64_t hash_alm(Alm<xcomplex<float>> &A) { uint64_t h = 1469598103934665603ULL; const arr<xcomplex<float>> &a = A.Alms(); for (size_t i = 0; i < a.size(); ++i) { uint32_t x, y; memcpy(&x, &a[i].re, 4); memcpy(&y, &a[i].im, 4); h = vp::mix2(h, ((uint64_t)x << 32) | y); } return h; }
VP_PROP(histories) {
  Setup S; GenOpt g = gopt(c); g.maxl = c.big ? 20 : 10; g.maxorder = 9; gen_setup(c, S, g); if (S.mbeam == 0) S.bm = 0;
  vp::Rng r = c.bulk(); const int NS = 2; std::unique_ptr<conviqt::sky> sk[NS]; std::unique_ptr<conviqt::beam> bm[NS]; std::unique_ptr<conviqt::detector> det[NS];
  std::string sf[NS], bf[NS];
  for (int i = 0; i < NS; ++i) {
    Coef s[3], b[3]; for (int k = 0; k < S.ncomp; ++k) { if (i) { fill(s[k], S.lsky, S.lsky, 99, 99, (int)r.below(4), r); fill(b[k], S.lbeam, S.mbeam, 99, 99, (int)r.below(4), r); } else { s[k] = S.s[k]; b[k] = S.b[k]; } }
    if (b[0](0, 0) == cd(0)) b[0](0, 0) = 0.5;
    sf[i] = c.dir + vp::fmt("/hs%d.fits", i); bf[i] = c.dir + vp::fmt("/hb%d.fits", i); vp::Rng q(1); write_alm_file(sf[i], s, S.ncomp, FW_KEYS, q); write_alm_file(bf[i], b, S.ncomp, FW_KEYS, q);
    sk[i].reset(new conviqt::sky(S.lsky, S.pol, sf[i], 0, MPI_COMM_SELF)); bm[i].reset(new conviqt::beam(S.lbeam, S.mbeam ? S.mbeam : -1, S.pol, bf[i], MPI_COMM_SELF));
    det[i].reset(new conviqt::detector("d")); det[i]->set_epsilon(0.1 * (i + 1));
  }
  // one to three convolvers with orders of their own share the objects; their calls are interleaved
  struct Cv { Setup S; std::unique_ptr<conviqt::convolver> p; int s = 0, b = 0, d = 0; }; std::vector<Cv> cv; int nc = c.coin() ? 1 : c.coin(2, 3) ? 2 : 3;
  for (int i = 0; i < nc; ++i) {
    Cv x; x.S.lmax = S.lmax; x.S = S; x.S.s[0] = x.S.s[1] = x.S.s[2] = x.S.b[0] = x.S.b[1] = x.S.b[2] = Coef();
    if (i) { x.S.lmax = c.coin() ? S.lmax : (int)c.range(1, S.lmax); x.S.bm = c.coin() ? S.bm : (int)c.range(0, S.bm); x.S.order = c.coin(1, 3) ? S.order : c.pick(std::vector<int>{5, 1, 3, 2, 7, 4, 9, 8}); x.S.pol = S.pol && c.coin(3, 4); x.S.ncomp = x.S.pol ? 3 : 1; c.note("also", vp::fmt("lmax=%d bm=%d order=%d pol=%d", x.S.lmax, x.S.bm, x.S.order, x.S.pol)); c.cls("several convolvers"); }
    x.p.reset(new conviqt::convolver(sk[0].get(), bm[0].get(), det[0].get(), x.S.pol, x.S.lmax, x.S.bm, x.S.order, verbosity(c), MPI_COMM_SELF)); cv.push_back(std::move(x));
  }
  conviqt::pointing kept; // object reused between calls
  int nops = (int)c.skew(4, 16), nconv = 0; std::ostringstream h; bool sig = false; std::vector<Pt> last; int lastcv = -1;
  auto skyc = [&](int i, int k) -> Alm<xcomplex<float>> & { return k == 0 ? sk[i]->slmT() : k == 1 ? sk[i]->slmG() : sk[i]->slmC(); }; auto beamc = [&](int i, int k) -> Alm<xcomplex<float>> & { return k == 0 ? bm[i]->blmT() : k == 1 ? bm[i]->blmG() : bm[i]->blmC(); };
  auto all = [&](int i, bool isky) { uint64_t x = 0; for (int k = 0; k < S.ncomp; ++k) x = vp::mix2(x, hash_alm(isky ? skyc(i, k) : beamc(i, k))); return x; };
  auto coef = [&](Alm<xcomplex<float>> &A, Coef &q) { q.set(A.Lmax(), A.Mmax()); for (int l = 0; l <= A.Lmax(); ++l) for (int m = 0; m <= std::min(l, A.Mmax()); ++m) q(l, m) = cd(A(l, m).re, A(l, m).im); };
  for (int k = 0; k < nops; ++k) {
    int op = (int)c.below(15), ic = nc > 1 ? (int)c.below(nc) : 0; Cv &x = cv[ic]; const char * tag = nc > 1 ? "/" : "";
    if (op < 6) {
      std::vector<Pt> v; PtOpt po; po.minn = 0; po.maxn = 12; int how = last.empty() || !c.coin(2, 5) ? 0 : 1 + (int)c.below(6);
      if (how == 0) gen_points(c, x.S, v, po);
      else { // a variation of the previous rows
        v = last; if (lastcv != ic) for (auto &q : v) q.node = false; size_t i = r.below(v.size());
        if (how == 1) for (size_t j = v.size(); j > 1; --j) std::swap(v[j - 1], v[r.below(j)]);
        if (how == 2) { v[i].node = false; double d = r.coin() ? 1e-9 : r.coin() ? 1e-4 : 0.3; int w = (int)r.below(3); if (w == 0) v[i].phi += d; if (w == 1) v[i].theta = v[i].theta > 1 ? v[i].theta - d : v[i].theta + d; if (w == 2) v[i].psi += d; }
        if (how == 3) for (auto &q : v) { q.node = false; q.phi = r.real(-3, 9); q.psi = r.real(-3, 9); }
        if (how == 4) { v[i].node = false; v[i].theta = r.real(0, lib_pi()); }
        if (how == 5) { if (r.coin() && v.size() > 1) v.erase(v.begin() + i); else v.push_back(v[i]); }
        c.cls("variation of the previous rows"); h << " variation" << how; }
      bool cal = c.coin(), reuse = c.coin(); int th = (int)c.range(1, 3); omp_set_num_threads(th); last = v; lastcv = ic;
      h << " convolve" << tag << ic << "(" << v.size() << (cal ? ",cal" : "") << ",t" << th << ")"; conviqt::pointing fresh; conviqt::pointing &p = reuse ? kept : fresh; to_pointing(v, p);
      uint64_t hs[NS], hb[NS]; for (int i = 0; i < NS; ++i) hs[i] = all(i, true), hb[i] = all(i, false); bool nf = bm[x.b]->normalized(); double ep = det[x.d]->get_epsilon();
      x.p->convolve(p, cal); ++nconv;
      bool same_ = nf == bm[x.b]->normalized() && ep == det[x.d]->get_epsilon(); for (int i = 0; i < NS; ++i) same_ = same_ && hs[i] == all(i, true) && hb[i] == all(i, false);
      c.check(same_, "convolve modified a sky, beam or detector"); c.check(p.size() == 5 * v.size(), "row count changed");
      omp_set_num_threads(1); conviqt::convolver f(sk[x.s].get(), bm[x.b].get(), det[x.d].get(), x.S.pol, x.S.lmax, x.S.bm, x.S.order, 0, MPI_COMM_SELF); conviqt::pointing q; to_pointing(v, q); f.convolve(q, cal);
      double mx = 0; for (size_t i = 0; i < v.size(); ++i) { mx = std::max(mx, fabs(q[5 * i + 3])); sig = sig || q[5 * i + 3] != 0; }
      for (size_t i = 0; i < v.size(); ++i) c.check(fabs(p[5 * i + 3] - q[5 * i + 3]) <= 1e-11 * mx, vp::fmt("row %zu: %.17g with the old convolver, %.17g with a fresh one, after:%s", i, p[5 * i + 3], q[5 * i + 3], h.str().c_str()));
      if (!v.empty() && c.coin()) { // what is shared by all convolvers of the process would go unnoticed: the definition
        Coef ms[3], mb[3]; for (int i = 0; i < x.S.ncomp; ++i) coef(skyc(x.s, i), ms[i]), coef(beamc(x.b, i), mb[i]); Model M(ms, mb, x.S.ncomp, x.S.lmax, x.S.bm); double f0 = cal && !nf ? 2 / (1 + ep) : 1;
        for (int j = 0; j < 2; ++j) { size_t i = r.below(v.size()); Overlap e = M.eval(v[i].theta, v[i].phi, v[i].psi); double tol = (tolerance(x.S, M, v[i], e) + 4e-7 * e.bound * pow(lebesgue(x.S.order), 2)) * fabs(f0) * 1.5; c.cls(v[i].node ? "definition, on grid" : "definition, off grid");
          if (!agrees(p[5 * i + 3], v[i], e, f0, tol)) c.fail(vp::fmt("row %zu: signal %.15g, definition %.15g, allowed %.3g, after:%s", i, p[5 * i + 3], f0 * e.v, tol, h.str().c_str())); } }
      if (v.empty()) c.cls("empty convolve"); c.cls("convolve");
    } else if (op == 6) { x.s = (int)c.below(NS); x.p->set_sky(sk[x.s].get()); h << " sky" << tag << ic << "=" << x.s; }
    else if (op == 7) { x.b = (int)c.below(NS); x.p->set_beam(bm[x.b].get()); h << " beam" << tag << ic << "=" << x.b; }
    else if (op == 8) { x.d = (int)c.below(NS); x.p->set_detector(det[x.d].get()); h << " det" << tag << ic << "=" << x.d; }
    else if (op == 9 || op == 10) { // in-place modification, of any component, large or small or preserving sums
      bool isky = c.coin(); int comp = (int)c.below(S.ncomp); Alm<xcomplex<float>> &A = isky ? skyc(x.s, comp) : beamc(x.b, comp); int how = (int)c.below(5); auto at = [&]() -> xcomplex<float> & { int l = (int)r.range(0, x.S.lmax), m = (int)r.range(0, std::min(l, isky ? l : std::max(x.S.bm, 0))); return A(l, m); };
      xcomplex<float> &u = at(), &w = at();
      if (how == 0) u.re = 0.75f, u.im = &u == &A(0, 0) ? 0 : u.im; if (how == 1) u.re = -u.re; if (how == 2) u.re *= 1.0005f; if (how == 3) std::swap(u.re, w.re); if (how == 4) A.Scale(c.coin() ? 0.5f : -1.f); h << " modify" << (isky ? "sky" : "beam") << comp << "." << how; c.cls("modified in place"); }
    else if (op == 11) { if (r.coin()) sk[x.s]->remove_monopole(); else sk[x.s]->remove_dipole(); h << " remove"; }
    else if (op == 12) { if (bm[x.b]->blmT()(0, 0).re != 0) bm[x.b]->normalize(); h << " normalize"; }
    else if (op == 13) { int f = (int)c.below(NS); if (c.coin()) sk[x.s]->read(S.lsky, S.pol, sf[f], 0, MPI_COMM_SELF); else bm[x.b]->read(S.lbeam, S.mbeam ? S.mbeam : -1, S.pol, bf[f], MPI_COMM_SELF); h << " reread" << f; }
    else { int f = (int)c.below(NS), w = (int)c.below(3); h << " recreate" << w << f; // often at the same address
      if (w == 0) { sk[x.s].reset(); sk[x.s].reset(new conviqt::sky(S.lsky, S.pol, sf[f], 0, MPI_COMM_SELF)); for (auto &y : cv) if (y.s == x.s) y.p->set_sky(sk[x.s].get()); }
      else if (w == 1) { bm[x.b].reset(); bm[x.b].reset(new conviqt::beam(S.lbeam, S.mbeam ? S.mbeam : -1, S.pol, bf[f], MPI_COMM_SELF)); for (auto &y : cv) if (y.b == x.b) y.p->set_beam(bm[x.b].get()); }
      else { double e = c.coin() ? det[x.d]->get_epsilon() + pow(10., -(double)c.range(1, 9)) : c.real(-0.5, 2); det[x.d]->set_epsilon(e); } c.cls("recreated"); }
  }
  c.note("history", h.str()); c.nontrivial(nconv >= 2 && sig);
}

// ---------------------------------------------------------------- C13: results must not depend on what fresh memory holds
#include <malloc.h>
VP_PROP(memory_fill) {
  Setup S; GenOpt g = gopt(c); g.maxl = c.big ? 24 : 10; gen_setup(c, S, g); std::vector<Pt> v; PtOpt po; po.minn = 0; po.maxn = 20; gen_points(c, S, v, po);
  if (S.mbeam == 0) S.bm = 0; bool norm = c.coin() && S.b[0](0, 0) != cd(0), cal = c.coin(), defctor = c.coin(), twice = c.coin(); int cond = (int)c.below(3);
  std::string sf = c.dir + "/ms.fits", bf = c.dir + "/mb.fits"; vp::Rng r(3); write_alm_file(sf, S.s, S.ncomp, FW_KEYS, r); write_alm_file(bf, S.b, S.ncomp, FW_KEYS, r); omp_set_num_threads(1);
  static const int fills[] = {0, 0xff, 0x7e, 0x01}; std::vector<double> ref; std::string what;
  for (int k = 0; k < 4; ++k) {
    mallopt(M_PERTURB, fills[k] ? (unsigned char)~fills[k] : 0); std::vector<double> out; // glibc fills fresh memory with the complement
    {
      std::unique_ptr<conviqt::sky> s; std::unique_ptr<conviqt::beam> b; std::unique_ptr<conviqt::detector> d(new conviqt::detector("x")); std::unique_ptr<conviqt::convolver> cv_;
      if (defctor) { s.reset(new conviqt::sky); b.reset(new conviqt::beam); out.push_back(s->get_lmax()); out.push_back(b->get_lmax()); out.push_back(b->get_mmax()); out.push_back(b->normalized()); d.reset(new conviqt::detector); out.push_back(d->get_epsilon()); s->read(S.lsky, S.pol, sf, cond == 2 ? 30 : 0, MPI_COMM_SELF); b->read(S.lbeam, S.mbeam > 0 ? S.mbeam : -1, S.pol, bf, MPI_COMM_SELF); }
      else { s.reset(new conviqt::sky(S.lsky, S.pol, sf, cond == 2 ? 30 : 0, MPI_COMM_SELF)); b.reset(new conviqt::beam(S.lbeam, S.mbeam > 0 ? S.mbeam : -1, S.pol, bf, MPI_COMM_SELF)); out.push_back(b->normalized()); }
      if (cond == 1) { s->remove_monopole(); s->remove_dipole(); } if (norm) out.push_back(b->normalize());
      cv_.reset(new conviqt::convolver(s.get(), b.get(), d.get(), S.pol, S.lmax, S.bm, S.order, 0, MPI_COMM_SELF));
      for (int t = 0; t < (twice ? 2 : 1); ++t) { conviqt::pointing p; to_pointing(v, p, 4); cv_->convolve(p, cal); for (size_t i = 0; i < p.size(); ++i) if (i % 5 != 4) out.push_back(p[i]); }
      for (int comp = 0; comp < S.ncomp; ++comp) for (auto *A : {comp == 0 ? &s->slmT() : comp == 1 ? &s->slmG() : &s->slmC(), comp == 0 ? &b->blmT() : comp == 1 ? &b->blmG() : &b->blmC()}) for (size_t i = 0; i < A->Alms().size(); ++i) { out.push_back(A->Alms()[i].re); out.push_back(A->Alms()[i].im); }
    }
    mallopt(M_PERTURB, 0);
    if (k == 0) { ref = out; continue; }
    c.check(ref.size() == out.size(), "number of results depends on the content of fresh memory");
    for (size_t i = 0; i < out.size(); ++i) if (!same(ref[i], out[i])) c.fail(vp::fmt("result %zu is %.17g when fresh memory is filled with zeros, %.17g when filled with 0x%02x", i, ref[i], out[i], fills[k]));
  }
  c.nontrivial(v.size() > 0);
}
VP_MAIN
