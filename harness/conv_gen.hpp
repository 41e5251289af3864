// conv_gen.hpp - generator of convolution set-ups shared by the harnesses.
#ifndef VP_CONV_GEN_HPP
#define VP_CONV_GEN_HPP
#include "conv.hpp"

namespace cv {
struct Setup {
  int lmax, bm, order, lsky, lbeam, mbeam; bool pol; int ncomp; int band; double eps;
  Coef s[3], b[3]; int sflags, bflags; bool lmax_default, bm_default; double fs = 1, fb = 1; // powers of two that sky and beam are scaled by
  int bmeff() const { return std::min(bm, lmax); }
};

struct GenOpt { int maxl = 20, maxbm = 6; int pol = -1; bool lowband = true; bool allow_default = true; int maxorder = 13; int minl = 1; bool bm_over_l = true; bool scale = false; int longl = 0; /* sometimes */ };

inline void gen_setup(vp::Ctx &c, Setup &S, const GenOpt &o) {
  S.lmax = (int)c.skew(o.minl, o.maxl); int maxbm = o.maxbm;
  if (o.longl && c.coin(1, 40)) { S.lmax = (int)c.range(o.maxl, o.longl); c.cls("long band limit"); }
  if (c.coin(1, 20)) maxbm = std::max(maxbm, std::min(S.lmax, 40)); // as many azimuthal orders as there can be
  S.pol = o.pol < 0 ? c.coin() : o.pol; S.ncomp = S.pol ? 3 : 1;
  static const std::vector<int> orders = {5, 1, 3, 5, 2, 7, 9, 4, 11, 13, 6, 8};
  do { S.order = c.pick(orders); } while (S.order > o.maxorder);
  if (c.coin(1, 16)) { S.order = (int)c.range(10, 33); c.cls("high interpolation order"); }
  S.lsky = S.lmax + (int)c.below(4) * (c.coin() ? 1 : 0);
  S.lbeam = S.lmax + (int)c.below(4) * (c.coin() ? 1 : 0);
  S.mbeam = (int)c.range(0, std::min(S.lbeam, maxbm));
  S.bm = c.coin(1, 3) ? (int)c.range(0, S.mbeam) : S.mbeam;
  if (!o.bm_over_l) { S.mbeam = std::min(S.mbeam, S.lmax); S.bm = std::min(S.bm, S.lmax); }
  S.lmax_default = S.bm_default = false;
  if (o.allow_default) {
    if (c.coin(1, 6)) { S.lmax_default = true; S.lmax = std::min(S.lsky, S.lbeam); }
    if (c.coin(1, 6)) { S.bm_default = true; S.bm = S.mbeam; }
  }
  int mode_s = (int)c.below(4), mode_b = (int)c.below(4);
  // band limit of the content: the whole range, or far below it (then the
  // interpolation error bound is small for off-grid pointings)
  S.band = 1 << 20;
  if (o.lowband && c.coin()) S.band = (int)c.range(0, std::max(1, S.lmax / 4));
  vp::Rng r = c.bulk();
  for (int k = 0; k < S.ncomp; ++k) {
    fill(S.s[k], S.lsky, S.lsky, S.band, S.band, mode_s, r);
    fill(S.b[k], S.lbeam, S.mbeam, S.band, S.band, mode_b, r);
  }
  // spin-2 components start at l = 2 in nature, but the library accepts any
  if (S.pol && c.coin(1, 4)) { int z = (int)c.below(4); if (z == 0) fill(S.s[1], S.lsky, S.lsky, -1, -1, 0, r), S.s[1].set(S.lsky, S.lsky); if (z == 1) S.s[2].set(S.lsky, S.lsky); if (z == 2) S.b[1].set(S.lbeam, S.mbeam); if (z == 3) S.b[2].set(S.lbeam, S.mbeam); }
  if (o.scale && c.coin(1, 6)) { // units are arbitrary (but products must stay within single precision)
    S.fs = ldexp(1, (int)c.range(-40, 40)); S.fb = ldexp(1, (int)c.range(-40, 40)); for (int k = 0; k < S.ncomp; ++k) { for (auto &x : S.s[k].a) x *= S.fs; for (auto &x : S.b[k].a) x *= S.fb; } c.note("skyscale", S.fs).note("beamscale", S.fb); c.cls("scaled");
  }
  S.sflags = (int)c.below(16); S.bflags = (int)c.below(16);
  S.eps = c.pick(std::vector<double>{0, 0.25, 1, 0.0625, 0.9, 0.01}); if (c.coin(1, 6)) S.eps = (double)c.range(-900, 3000) / 1000;
  c.note("lmax", S.lmax).note("bm", S.bm).note("order", S.order).note("pol", S.pol).note("lsky", S.lsky).note("lbeam", S.lbeam).note("mbeam", S.mbeam);
  if (S.band < 1000) c.note("band", S.band);
  if (S.lmax_default) c.note("lmaxarg", -1);
  if (S.bm_default) c.note("bmarg", -1);
  c.note("skymode", mode_s).note("beammode", mode_b);
}

inline int threads(vp::Ctx &c, int usual) { return c.coin(1, 12) ? (int)c.range(4, 9) : (int)c.range(1, usual); }
// sometimes the convolver reports what it does (on stderr), with extra synchronisation
inline int verbosity(vp::Ctx &c) { if (!c.coin(1, 24)) return 0; int v = c.pick(std::vector<int>{6, 1, 2}); c.note("verbosity", v); c.cls("verbose"); return v; }

struct PtOpt { int maxn = 30; bool allow_offnode = true; int minn = 1; bool huge = false; bool far = false; };

inline void gen_points(vp::Ctx &c, const Setup &S, std::vector<Pt> &v, const PtOpt &o) {
  int n = (int)c.skew(o.minn, o.maxn);
  if (o.maxn >= 16 && c.coin(1, 30)) { n = (int)c.range(o.maxn, o.maxn * 25); c.cls("many samples"); }
  if (o.huge && S.lmax <= 16 && c.coin(1, 200)) { n = (int)c.range(3000, c.big || c.coin(1, 4) ? 120000 : 20000); c.cls("very many samples"); }
  // distribution of colatitudes
  int dist = (int)c.below(6); // 0 free, 1 one ring, 2 north cap, 3 south, 4 equator band, 5 mixed specials
  int offnode = o.allow_offnode ? (int)c.below(4) : 0; // 0: only nodes, else probability
  long ring0 = (long)c.range(0, S.lmax + 1); bool wide = c.coin(1, 4); double far = o.far && wide && c.coin(1, 4) ? pow(10, c.range(1, 4)) : 1; if (far > 1) c.cls("many turns");
  vp::Rng r = c.bulk(); const double P = lib_pi(), HP = levels::halfpi;
  v.clear();
  for (int i = 0; i < n; ++i) {
    double psi = wide ? r.real(-30, 30) * far : r.real(0, 2 * P);
    if (r.coin(0.15)) psi = r.range(-4, 4) * HP;
    bool nd = offnode == 0 || (offnode == 1 && r.coin());
    if (S.order == 0) nd = false;
    if (nd) {
      long it = dist == 1 ? ring0 : dist == 2 ? r.range(0, (S.lmax + 1) / 4) : dist == 3 ? r.range((S.lmax + 1) / 2, S.lmax + 1) : r.range(0, S.lmax + 1);
      if (dist == 5 && r.coin()) it = r.coin() ? 0 : S.lmax + 1;
      v.push_back(node(S.lmax, it, r.range(0, 2 * S.lmax), psi, wide ? (int)(r.range(-3, 3) * far) : 0));
    } else {
      Pt p; p.node = false; p.psi = psi; p.phi = wide ? r.real(-25, 25) * far : r.real(0, 2 * P);
      switch (dist) {
        case 1: p.theta = std::min(P, std::max(0.0, (ring0 + r.unit()) * P / (S.lmax + 1))); break;
        case 2: p.theta = r.real(0, 0.3); break;
        case 3: p.theta = r.real(HP, P); break;
        case 4: p.theta = HP + r.real(-1, 1) * (r.coin() ? 1e-3 : 1e-14); break;
        default: p.theta = r.real(0, P);
      }
      if (dist == 5) {
        int k = (int)r.range(0, 9);
        if (k == 0) p.theta = 0; if (k == 1) p.theta = P; if (k == 2) p.theta = HP; if (k == 3) p.theta = nextafter(HP, 0); if (k == 4) p.theta = nextafter(HP, 4);
        if (k == 5) p.theta = 1e-300; if (k == 6) p.theta = nextafter(P, 0); if (k == 7) p.phi = r.range(-3, 3) * 2 * P; if (k == 8) p.phi = nextafter(2 * P * r.range(-1, 1), r.coin() ? -99 : 99); if (k == 9) p.phi = HP + r.range(-4, 4) * HP;
      }
      v.push_back(p);
    }
    if (r.coin(0.05) && v.size() > 1) v.back() = v[r.below(v.size() - 1)];
    // almost the same pointing as an earlier row, off the grid
    if (r.coin(0.08) && v.size() > 1 && o.allow_offnode) {
      Pt p = v[r.below(v.size() - 1)];
      if (!p.node || offnode) {
        double d = r.coin(0.3) ? 0 : r.coin() ? 1e-12 : r.coin() ? 1e-7 : 1e-4; if (r.coin()) d = -d;
        auto nudge = [&](double x) { return d == 0 ? nextafter(x, r.coin() ? 1e9 : -1e9) : x + d; };
        int w = (int)r.range(0, 6); p.node = false;
        if (w == 0 || w == 3 || w == 6) p.phi = nudge(p.phi);
        if (w == 1 || w == 3 || w == 5) p.theta = std::min(P, std::max(0.0, nudge(p.theta)));
        if (w == 2 || w >= 5) p.psi = nudge(p.psi);
        v.back() = p;
      }
    }
  }
  c.note("n", n).note("dist", dist).note("offnode", offnode);
}

// tolerance for one sample: floating point plus, off the grid, the interpolation error bound
inline double tolerance(const Setup &S, const Model &M, const Pt &p, const Overlap &e) {
  double fp = 1e-10 * e.scale + (2e-12 + 2e-15 * (fabs(p.phi) + fabs(p.psi)) * (S.lmax + 1)) * e.bound * lebesgue(S.order) * lebesgue(S.order);
  if (p.node) return fp;
  return fp + e.bound * interp_bound(S.order, S.lmax, M.usedl, M.usedm) + M.stencil_loss(p.theta, S.order) * lebesgue(S.order) * lebesgue(S.order);
}
// does the value equal the overlap, or the overlap without exactly the terms the known finding loses?
inline bool agrees(double got, const Pt &p, const Overlap &e, double f, double tol) {
  if (fabs(got - f * e.v) <= tol) return true;
  if (p.node) for (double d : e.drops) if (fabs(got - f * (e.v - d)) <= tol + f * e.maybe) return true;
  return false;
}

struct Files { std::string sky, beam; };
inline Files write_files(vp::Ctx &c, const Setup &S, int rank, MPI_Comm comm) {
  Files f; f.sky = c.dir + "/sky.fits"; f.beam = c.dir + "/beam.fits";
  if (rank == 0) {
    vp::Rng r(7);
    write_alm_file(f.sky, S.s, S.ncomp, S.sflags, r);
    write_alm_file(f.beam, S.b, S.ncomp, S.bflags, r);
  }
  MPI_Barrier(comm);
  return f;
}
} // namespace cv
#endif
