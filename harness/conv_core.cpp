// C01, C02: the convolved signal equals the defining overlap sum.
#include "conv_gen.hpp"
using namespace cv;

static bool same3(const conviqt::pointing &p, size_t i, const Pt &q) { return memcmp(&p[5 * i], &q.phi, 8) == 0 && memcmp(&p[5 * i + 1], &q.theta, 8) == 0 && memcmp(&p[5 * i + 2], &q.psi, 8) == 0; }
static void run_case(vp::Ctx &c, int pol) {
  Setup S; GenOpt o; o.pol = pol; o.maxl = c.big ? 48 : 20; o.maxbm = c.big ? 12 : 6; o.scale = true;
  gen_setup(c, S, o);
  std::vector<Pt> v; PtOpt po; po.maxn = c.big ? 60 : 24; po.huge = true; po.far = true; gen_points(c, S, v, po);
  int threads = cv::threads(c, 3); bool cal = c.coin(1, 4); c.note("threads", threads).note("calibrate", cal).note("eps", S.eps);
  omp_set_num_threads(threads);
  MPI_Comm comm = MPI_COMM_WORLD;
  Files f = write_files(c, S, 0, comm);
  conviqt::sky sky(S.lsky, S.pol, f.sky, 0, comm);
  conviqt::beam beam(S.lbeam, S.mbeam, S.pol, f.beam, comm);
  conviqt::detector det("d"); det.set_epsilon(S.eps);
  conviqt::convolver cnv(&sky, &beam, &det, S.pol, S.lmax_default ? -1 : S.lmax, S.bm_default ? -1 : S.bm, S.order, verbosity(c), comm);
  conviqt::pointing p; to_pointing(v, p, 17.5);
  cnv.convolve(p, cal);
  Model M(S.s, S.b, S.ncomp, S.lmax, S.bm);
  c.check(p.size() == 5 * v.size(), "row count changed");
  double f0 = cal ? 2 / (1 + S.eps) : 1;
  bool tight = false; vp::Rng pick(v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    if (v.size() > 2500 && i + 3 < v.size() && !pick.coin(300. / v.size())) { c.check(same3(p, i, v[i]) && std::isfinite(p[5 * i + 3]), vp::fmt("row %zu of %zu: angles changed or signal not finite", i, v.size())); continue; }
    Overlap e = M.eval(v[i].theta, v[i].phi, v[i].psi);
    double tol = tolerance(S, M, v[i], e) * f0 * 1.5, got = p[5 * i + 3];
    if (e.bound > 0 && tol < 1e-3 * e.bound) tight = true;
    if (v[i].node) c.cls("on-grid samples"); else c.cls(tol < 1e-3 * e.bound ? "off-grid samples, tight bound" : "off-grid samples, loose bound");
    if (v[i].theta > levels::halfpi) c.cls("southern samples");
    if (v[i].theta < 1e-6 || v[i].theta > lib_pi() - 1e-6) c.cls("polar samples");
    if (v[i].node && e.dropmass > 0) c.cls("on-grid samples touched by the known finding");
    if (!agrees(got, v[i], e, f0, tol))
      c.fail(vp::fmt("row %zu (%s) phi=%.17g theta=%.17g psi=%.17g: signal %.15g, overlap integral %.15g, difference %.3g > tolerance %.3g (sum of |terms| %.6g)",
                     i, v[i].node ? "on grid" : "off grid", v[i].phi, v[i].theta, v[i].psi, got, f0 * e.v, got - f0 * e.v, tol, e.bound));
  }
  if (M.bm > 0) c.cls("asymmetric beam"); if (S.order + 1 > 2 * S.lmax + 1) c.cls("order above grid size"); if (S.bm > S.lmax) c.cls("beam mmax above lmax");
  c.nontrivial(tight && M.total > 0);
}
VP_PROP(overlap_T) { run_case(c, 0); }
VP_PROP(overlap_TGC) { run_case(c, 1); }
// long band limits on few samples: scaling and underflow paths of the d-functions
static void high(vp::Ctx &c, int pol) {
  Setup S; GenOpt o; o.pol = pol; o.minl = c.big ? 60 : 40; o.maxl = c.big ? 400 : 140; o.maxbm = c.big ? 30 : 16; if (!c.big && c.coin(1, 8)) o.minl = 140, o.maxl = 300, o.maxbm = 4; else if (c.big && c.coin(1, 20)) o.minl = 400, o.maxl = 640, o.maxbm = 4; o.lowband = false; o.allow_default = false; o.scale = true;
  gen_setup(c, S, o); std::vector<Pt> v; PtOpt po; po.maxn = 4; po.allow_offnode = false; gen_points(c, S, v, po);
  omp_set_num_threads(2); MPI_Comm comm = MPI_COMM_WORLD; Files f = write_files(c, S, 0, comm);
  conviqt::sky sky(S.lsky, S.pol, f.sky, 0, comm); conviqt::beam beam(S.lbeam, S.mbeam, S.pol, f.beam, comm);
  conviqt::detector det("d"); det.set_epsilon(0);
  conviqt::convolver cnv(&sky, &beam, &det, S.pol, S.lmax, S.bm, S.order, 0, comm);
  conviqt::pointing p; to_pointing(v, p, 0); cnv.convolve(p, false);
  Model M(S.s, S.b, S.ncomp, S.lmax, S.bm);
  for (size_t i = 0; i < v.size(); ++i) {
    Overlap e = M.eval(v[i].theta, v[i].phi, v[i].psi); double tol = 1e-9 * e.scale + 1e-11 * e.bound * lebesgue(S.order) * lebesgue(S.order), got = p[5 * i + 3];
    c.cls("on-grid samples, lmax >= 40");
    if (!agrees(got, v[i], e, 1, tol)) c.fail(vp::fmt("row %zu phi=%.17g theta=%.17g psi=%.17g: signal %.15g, overlap integral %.15g, difference %.3g > tolerance %.3g (sum of |terms| %.6g)", i, v[i].phi, v[i].theta, v[i].psi, got, e.v, got - e.v, tol, e.bound));
  }
  c.nontrivial(M.total > 0);
}
VP_PROP(overlap_T_high) { high(c, 0); }
VP_PROP(overlap_TGC_high) { high(c, 1); }
VP_MAIN
