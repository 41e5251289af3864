// C10: the C interface against the C++ interface.
#include "conv_gen.hpp"
#include "cconviqt.h"
#include <memory>
#include <new>
#include <pthread.h>
#include <dirent.h>
extern "C" int conviqt_detector_set_id(void *, char *);
using namespace cv;

// Allocation failures: every operator new of the calling thread outside parallel
// regions is counted while armed, and the one with the chosen number fails.
namespace oom {
bool armed = false; long count = 0, at = 0, live = 0; pthread_t owner;
bool hit() { return armed && omp_get_level() == 0 && pthread_equal(pthread_self(), owner); }
}
static void *vp_alloc(size_t n) {
  if (oom::hit() && ++oom::count == oom::at) throw std::bad_alloc();
  void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); __atomic_add_fetch(&oom::live, 1, __ATOMIC_RELAXED); return p;
}
static void vp_free(void *p) { if (p) { __atomic_sub_fetch(&oom::live, 1, __ATOMIC_RELAXED); free(p); } }
void *operator new(size_t n) { return vp_alloc(n); }
void *operator new[](size_t n) { return vp_alloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return vp_alloc(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return vp_alloc(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { vp_free(p); }
void operator delete[](void *p) noexcept { vp_free(p); }
void operator delete(void *p, size_t) noexcept { vp_free(p); }
void operator delete[](void *p, size_t) noexcept { vp_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vp_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vp_free(p); }


namespace {
bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
size_t ncoef(int l, int m) { return (size_t)(m + 1) * (m + 2) / 2 + (size_t)(m + 1) * (l - m); }
struct CFile { std::string name; int l, m, nc; };
struct Pair { void *s, *b, *d; std::unique_ptr<conviqt::sky> S; std::unique_ptr<conviqt::beam> B; std::unique_ptr<conviqt::detector> D; bool sread = false, bread = false, spol = false, bpol = false; };
const char *cmp(const void *p, Alm<xcomplex<float>> &A, int l, int m) {
  if (A.Lmax() != l || A.Mmax() != m) return "orders differ";
  if (A.Alms().size() != ncoef(l, m)) return "number of coefficients differs";
  if (!p) return "NULL";
  return memcmp(p, A.Alms().begin(), A.Alms().size() * 8) ? "coefficients differ" : nullptr;
}
template <class F> bool threw(F f) { try { f(); return false; } catch (...) { return true; } }
} // namespace

// any non-zero value is true
static char flag(vp::Rng &r, bool v) { static const char t[] = {1, 1, 1, 2, -1, 127, -128, 'T'}; return v ? t[r.below(8)] : 0; }
VP_PROP(c_interface) {
  int wr, ws; MPI_Comm_rank(MPI_COMM_WORLD, &wr); MPI_Comm_size(MPI_COMM_WORLD, &ws); MPI_Comm comm = c.coin(1, 4) && ws == 1 ? MPI_COMM_SELF : MPI_COMM_WORLD;
  vp::Rng r = c.bulk(); std::vector<CFile> fs;
  for (int i = 0; i < 4; ++i) { // 0,1 skies 2,3 beams
    CFile f; f.name = c.dir + vp::fmt("/c%d.fits", i); f.l = (int)r.range(1, 9); f.m = i < 2 ? f.l : (int)r.range(0, std::min(f.l, 4)); f.nc = i % 2 ? 3 : (r.coin() ? 1 : 3);
    Coef q[3]; for (int k = 0; k < f.nc; ++k) fill(q[k], f.l, f.m, 99, 99, (int)r.below(3), r); if (q[0](0, 0) == cd(0)) q[0](0, 0) = 0.5; if (wr == 0) { vp::Rng z(1); write_alm_file(f.name, q, f.nc, FW_KEYS, z); } fs.push_back(f);
  }
  std::string garbage = c.dir + "/garbage.fits", missing = c.dir + "/no such file"; if (wr == 0) { FILE *h = fopen(garbage.c_str(), "w"); fputs("not a FITS file", h); fclose(h); } MPI_Barrier(MPI_COMM_WORLD);
  omp_set_num_threads(1);
  Pair P[2]; for (auto &p : P) { p.s = conviqt_sky_new(); p.b = conviqt_beam_new(); p.S.reset(new conviqt::sky); p.B.reset(new conviqt::beam); if (r.coin()) { p.d = conviqt_detector_new(); p.D.reset(new conviqt::detector); } else { char id[] = "27M"; p.d = conviqt_detector_new_with_id(id); p.D.reset(new conviqt::detector(id)); } }
  void *pnt = conviqt_pointing_new(); conviqt::pointing pp; if (!pnt) c.fail("pointing_new returned NULL");
  void *cnv = nullptr; std::unique_ptr<conviqt::convolver> C; std::ostringstream h; int nops = (int)c.skew(6, 24), nerr = 0, nconv = 0, nread = 0; int cs = 0, cb = 0; // what the convolver uses
  bool cpol = false; long clm = 0, cbm = 0; std::vector<Pt> rows; // rows now in the pointing object
  int csl = 0, cbl = 0, cbmm = 0; bool csp = false, cbp = false; // expansion orders when the convolver was set up
  auto fail = [&](const std::string &m) { c.soft(m + " after" + h.str()); };
  auto state = [&]() {
    for (auto &p : P) {
      if (conviqt_sky_lmax(p.s) != p.S->get_lmax() || conviqt_beam_lmax(p.b) != p.B->get_lmax() || conviqt_beam_mmax(p.b) != p.B->get_mmax()) return fail("lmax or mmax differ from C++");
      if (conviqt_beam_normalized(p.b) != (p.B->normalized() ? 1 : 0)) return fail("normalized flag differs from C++");
      double e = -77; if (conviqt_detector_get_epsilon(p.d, &e) != 0 || !same(e, p.D->get_epsilon())) return fail("epsilon differs from C++");
      char id[2048]; memset(id, 'x', sizeof id); if (conviqt_detector_get_id(p.d, id) != 0 || p.D->get_id() != id) return fail("detector id differs from C++");
      const char *e1 = nullptr;
      if (p.sread) { int l = p.S->get_lmax(); e1 = cmp(conviqt_sky_Tdata(p.s), p.S->slmT(), l, l); if (p.spol) { if (!e1) e1 = cmp(conviqt_sky_Gdata(p.s), p.S->slmG(), l, l); if (!e1) e1 = cmp(conviqt_sky_Cdata(p.s), p.S->slmC(), l, l); } else if (conviqt_sky_Gdata(p.s) || conviqt_sky_Cdata(p.s)) e1 = "polarised components of an unpolarised sky"; if (e1) return fail(std::string("sky: ") + e1); }
      if (p.bread) { int l = p.B->get_lmax(), m = p.B->get_mmax(); e1 = cmp(conviqt_beam_Tdata(p.b), p.B->blmT(), l, m); if (p.bpol) { if (!e1) e1 = cmp(conviqt_beam_Gdata(p.b), p.B->blmG(), l, m); if (!e1) e1 = cmp(conviqt_beam_Cdata(p.b), p.B->blmC(), l, m); } else if (conviqt_beam_Gdata(p.b) || conviqt_beam_Cdata(p.b)) e1 = "polarised components of an unpolarised beam"; if (e1) return fail(std::string("beam: ") + e1); }
    }
  };
  auto usable = [&]() { return cnv && P[cs].sread && P[cb].bread && P[cs].S->get_lmax() == csl && P[cb].B->get_lmax() == cbl && P[cb].B->get_mmax() == cbmm && (!cpol || (P[cs].spol && P[cb].bpol)); };
  for (int k = 0; k < nops && c.failmsg.empty(); ++k) {
    int op = (int)c.below(16), w = (int)c.below(2); Pair &p = P[w];
    if (op <= 2) { // read the sky, possibly failing
      int fi = (int)c.below(2), bad = (int)c.below(8); CFile &f = fs[fi]; bool pol = f.nc == 3 && c.coin(); std::string n = f.name; long l = c.coin() ? -(long)c.below(3) : c.range(1, f.l); double wd = c.coin(1, 4) ? c.real(0, 60) : 0;
      if (bad == 5) n = missing; if (bad == 6) n = garbage; if (bad == 7) l = f.l + 1 + (int)c.below(9);
      int rc = conviqt_sky_read(p.s, l, flag(r, pol), (char *)n.c_str(), wd, comm); bool t = threw([&] { p.S->read(l, pol, n, wd, comm); });
      h << " sky_read(" << w << "," << l << (pol ? ",pol" : "") << (bad >= 5 ? ",bad" : "") << ")=" << rc; if (rc != (t ? -1 : 0)) fail(vp::fmt("sky_read returned %d, C++ %s", rc, t ? "threw" : "succeeded"));
      if ((bad >= 5) != t) fail("the C++ read did not do what is expected"); if (!t) { p.sread = true; p.spol = pol; ++nread; } else { ++nerr; c.cls("failing read"); }
    } else if (op <= 5) {
      int fi = 2 + (int)c.below(2), bad = (int)c.below(9); CFile &f = fs[fi]; bool pol = f.nc == 3 && c.coin(); std::string n = f.name; long l = c.coin() ? -(long)c.below(3) : c.range(1, f.l), m = c.coin() ? -(long)c.below(3) : c.range(0, f.m);
      if (bad == 5) n = missing; if (bad == 6) n = garbage; if (bad == 7) l = f.l + 1 + (int)c.below(9); if (bad == 8) m = f.m + 1 + (int)c.below(9);
      int rc = conviqt_beam_read(p.b, l, m, flag(r, pol), (char *)n.c_str(), comm); bool t = threw([&] { p.B->read(l, m, pol, n, comm); });
      h << " beam_read(" << w << "," << l << "," << m << (pol ? ",pol" : "") << (bad >= 5 ? ",bad" : "") << ")=" << rc; if (rc != (t ? -1 : 0)) fail(vp::fmt("beam_read returned %d, C++ %s", rc, t ? "threw" : "succeeded"));
      if (!t) { p.bread = true; p.bpol = pol; ++nread; } else { ++nerr; c.cls("failing read"); }
    } else if (op == 6) { if (p.bread && p.B->blmT()(0, 0).re != 0) { double a = conviqt_beam_normalize(p.b), b = p.B->normalize(); h << " normalize" << w; if (!same(a, b)) fail(vp::fmt("normalize returned %.17g, C++ %.17g", a, b)); } }
    else if (op == 7) { if (p.sread) { bool mono = c.coin(); h << (mono ? " monopole" : " dipole") << w; int rc = mono ? conviqt_sky_remove_monopole(p.s) : conviqt_sky_remove_dipole(p.s); if (mono) p.S->remove_monopole(); else p.S->remove_dipole(); if (rc != 0) fail("remove_* returned an error"); } }
    else if (op == 8) { double e = c.pick(std::vector<double>{0, 0.3, 1, -0.25, 1e-9}); h << " epsilon" << w; if (conviqt_detector_set_epsilon(p.d, e) != 0) fail("set_epsilon returned an error"); p.D->set_epsilon(e); if (c.coin()) { std::string id; int n = (int)r.below(300); for (int i = 0; i < n; ++i) id += (char)r.range(1, 255); if (conviqt_detector_set_id(p.d, (char *)id.c_str()) != 0) fail("set_id returned an error"); p.D->set_id(id); } }
    else if (op == 9) { // write through the data pointers
      int comp = (int)c.below(3); bool sk = c.coin(); if (sk ? !p.sread : !p.bread) continue; if (comp && !(sk ? p.spol : p.bpol)) comp = 0;
      float *q = (float *)(sk ? (comp == 0 ? conviqt_sky_Tdata(p.s) : comp == 1 ? conviqt_sky_Gdata(p.s) : conviqt_sky_Cdata(p.s)) : (comp == 0 ? conviqt_beam_Tdata(p.b) : comp == 1 ? conviqt_beam_Gdata(p.b) : conviqt_beam_Cdata(p.b)));
      Alm<xcomplex<float>> &A = sk ? (comp == 0 ? p.S->slmT() : comp == 1 ? p.S->slmG() : p.S->slmC()) : (comp == 0 ? p.B->blmT() : comp == 1 ? p.B->blmG() : p.B->blmC());
      int m = (int)r.range(0, A.Mmax()), l = (int)r.range(m, A.Lmax()); size_t i = A.index(l, m); float x = r.real(-1, 1), y = m ? r.real(-1, 1) : 0; q[2 * i] = x; q[2 * i + 1] = y; A(l, m) = xcomplex<float>(x, y); h << " poke" << w; c.cls("written through a data pointer");
    } else if (op == 10 || op == 11) { // convolver
      bool pol = c.coin(1, 3); long l = c.coin(1, 3) ? -1 : c.range(1, 9), m = c.coin(1, 3) ? -1 : c.range(0, 4), o = c.range(1, 7); int bad = (int)c.below(8); if (bad == 7) l = c.coin() ? LMAXMAX + 1 : 50; if (bad == 6) m = c.coin() ? LMAXMAX + 1 : 50;
      int s2 = (int)c.below(2), b2 = (int)c.below(2); if (!P[s2].sread || !P[b2].bread) { s2 = b2 = w; } if (!P[s2].sread || !P[b2].bread) continue;
      if (pol && !(P[s2].spol && P[b2].bpol)) pol = false;
      void *n = conviqt_convolver_new(P[s2].s, P[b2].b, P[w].d, flag(r, pol), l, m, o, 0, comm); std::unique_ptr<conviqt::convolver> N; bool t = threw([&] { N.reset(new conviqt::convolver(P[s2].S.get(), P[b2].B.get(), P[w].D.get(), pol, l, m, o, 0, comm)); });
      h << " convolver(" << s2 << b2 << "," << l << "," << m << "," << o << ")" << (n ? "" : "=NULL"); if ((n == nullptr) != t) { fail(vp::fmt("convolver_new returned %s, C++ %s", n ? "an object" : "NULL", t ? "threw" : "succeeded")); }
      if (n && !t) { if (cnv && conviqt_convolver_del(cnv) != 0) fail("convolver_del returned an error"); cnv = n; C = std::move(N); cs = s2; cb = b2; cpol = pol; clm = l; cbm = m; csl = P[cs].S->get_lmax(); cbl = P[cb].B->get_lmax(); cbmm = P[cb].B->get_mmax(); } else { ++nerr; c.cls("refused convolver"); }
    } else if (op == 12) { // replacement by objects of the same orders
      if (!cnv) continue; int what = (int)c.below(3); int rc = 0; if (what == 0 && P[w].sread && P[w].S->get_lmax() == csl && (!cpol || P[w].spol)) { rc = conviqt_convolver_set_sky(cnv, P[w].s); C->set_sky(P[w].S.get()); cs = w; h << " set_sky" << w; }
      else if (what == 1 && P[w].bread && P[w].B->get_lmax() == cbl && P[w].B->get_mmax() == cbmm && (!cpol || P[w].bpol)) { rc = conviqt_convolver_set_beam(cnv, P[w].b); C->set_beam(P[w].B.get()); cb = w; h << " set_beam" << w; }
      else { rc = conviqt_convolver_set_detector(cnv, P[w].d); C->set_detector(P[w].D.get()); h << " set_detector" << w; } if (rc != 0) fail("convolver_set_* returned an error");
    } else { // convolve
      bool bad = c.coin(1, 6), oom = c.coin(1, 10), cal = c.coin(); std::vector<Pt> v; int n = (int)c.skew(0, 12); vp::Rng q = c.bulk(); for (int i = 0; i < n; ++i) { Pt x; x.phi = q.real(0, 7); x.theta = q.real(0, lib_pi()); x.psi = q.real(-7, 7); v.push_back(x); }
      if (ws > 1) { std::vector<Pt> mine; for (size_t i = 0; i < v.size(); ++i) if ((int)q.below(ws) == wr) mine.push_back(v[i]); v = mine; }
      if (oom) { int rc = conviqt_pointing_alloc(pnt, c.coin() ? -5 : 1L << 60); h << " alloc(huge)=" << rc; if (rc != -1) fail("an impossible allocation succeeded"); ++nerr; c.cls("failing allocation"); }
      if (conviqt_pointing_alloc(pnt, 5 * v.size()) != 0) { fail("pointing_alloc returned an error"); break; }
      pp.alloc(5 * v.size()); double *dp = conviqt_pointing_data(pnt); if (!v.empty() && !dp) { fail("pointing_data returned NULL"); break; }
      for (size_t i = 0; i < v.size(); ++i) { double a[5] = {v[i].phi, v[i].theta, v[i].psi, -1, 1.0 * i}; if (bad && i == v.size() / 2) a[1] = -1; for (int j = 0; j < 5; ++j) dp[5 * i + j] = pp[5 * i + j] = a[j]; }
      if (!usable()) continue;
      int rc = conviqt_convolver_convolve(cnv, pnt, flag(r, cal)); bool t = threw([&] { C->convolve(pp, cal); }); h << " convolve(" << v.size() << (cal ? ",cal" : "") << (bad ? ",bad" : "") << ")=" << rc;
      if (rc != (t ? -1 : 0)) { fail(vp::fmt("convolve returned %d, C++ %s", rc, t ? "threw" : "succeeded")); break; }
      if (t) { ++nerr; c.cls("refused convolve"); continue; } ++nconv; c.cls("convolve");
      dp = conviqt_pointing_data(pnt); if (pp.size() != 5 * v.size()) fail("row count changed"); else for (size_t i = 0; i < 5 * v.size(); ++i) if (!same(dp[i], pp[i]) && i % 5 != 4) { fail(vp::fmt("row %zu column %zu: %.17g, C++ %.17g", i / 5, i % 5, dp[i], pp[i])); break; }
    }
    state();
  }
  int rc = 0; if (cnv) rc |= conviqt_convolver_del(cnv); rc |= conviqt_pointing_del(pnt); for (auto &p : P) { rc |= conviqt_sky_del(p.s); rc |= conviqt_beam_del(p.b); rc |= conviqt_detector_del(p.d); } if (rc) fail("a *_del function returned an error");
  (void)clm; (void)cbm; c.note("calls", h.str()); c.nontrivial(nread > 0 && (nconv > 0 || nerr > 0));
}
// Each C call with one failing allocation: the error comes back as a value, and the
// same call succeeds afterwards with the result it always has.
static int open_files() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
VP_PROP(c_faults) {
  int ws; MPI_Comm_size(MPI_COMM_WORLD, &ws); MPI_Comm comm = MPI_COMM_SELF; oom::owner = pthread_self(); oom::armed = false; omp_set_num_threads(c.coin() ? 1 : 2);
  int wr; MPI_Comm_rank(MPI_COMM_WORLD, &wr);
  vp::Rng r = c.bulk(); std::string name[2] = {c.dir + vp::fmt("/fs%d.fits", wr), c.dir + vp::fmt("/fb%d.fits", wr)}; int l[2], m[2]; bool pol = c.coin();
  l[0] = (int)r.range(1, 9); m[0] = l[0]; l[1] = (int)r.range(1, 9); m[1] = (int)r.range(0, std::min(l[1], 4));
  for (int i = 0; i < 2; ++i) { Coef q[3]; for (int k = 0; k < (pol ? 3 : 1); ++k) fill(q[k], l[i], m[i], 99, 99, 0, r); if (q[0](0, 0) == cd(0)) q[0](0, 0) = 0.5; vp::Rng z(1); write_alm_file(name[i], q, pol ? 3 : 1, c.coin() ? FW_KEYS : 0, z); }
  std::string id; for (int i = 0, n = (int)c.below(60); i < n; ++i) id += (char)r.range('a', 'z');
  int n = (int)c.range(1, 12); std::vector<double> in; for (int i = 0; i < n; ++i) { in.push_back(r.real(0, 7)); in.push_back(r.real(0, lib_pi())); in.push_back(r.real(-7, 7)); in.push_back(-1); in.push_back(i); } bool cal = c.coin(); long order = c.range(1, 6);
  void *S = nullptr, *B = nullptr, *D = nullptr, *P = nullptr, *V = nullptr; std::string what; std::vector<double> ref; long nfail = 0, nop = 0; int fds = -1;
  // one call: returns 0 (done), 1 (error value)
  auto call = [&](int op) -> int {
    switch (op) {
    case 0: return (S = conviqt_sky_new()) ? 0 : 1;
    case 1: return (B = conviqt_beam_new()) ? 0 : 1;
    case 2: return (D = conviqt_detector_new()) ? 0 : 1;
    case 3: return (D = conviqt_detector_new_with_id((char *)id.c_str())) ? 0 : 1;
    case 4: return (P = conviqt_pointing_new()) ? 0 : 1;
    case 5: return conviqt_sky_read(S, -1, pol, (char *)name[0].c_str(), 0, comm) ? 1 : 0;
    case 6: return conviqt_beam_read(B, -1, -1, pol, (char *)name[1].c_str(), comm) ? 1 : 0;
    case 7: return conviqt_detector_set_id(D, (char *)id.c_str()) ? 1 : 0;
    case 8: return conviqt_pointing_alloc(P, 5 * n) ? 1 : 0;
    case 9: return (V = conviqt_convolver_new(S, B, D, pol, -1, -1, order, 0, comm)) ? 0 : 1;
    case 10: { bool a = oom::armed; oom::armed = false; int rc = conviqt_pointing_alloc(P, 5 * n); oom::armed = a; if (rc) return 1; double *q = conviqt_pointing_data(P); // a failing call may have taken the rows
      for (size_t i = 0; i < in.size(); ++i) q[i] = in[i]; return conviqt_convolver_convolve(V, P, cal) ? 1 : 0; }
    case 11: { char b[256]; int rc = conviqt_detector_get_id(D, b); if (!rc && id != b) rc = 1; return rc ? 1 : 0; }
    }
    return 0;
  };
  auto creates = [](int op) { return op <= 4 || op == 9; };
  static const char *OPS[] = {"sky_new", "beam_new", "detector_new", "detector_new_with_id", "pointing_new", "sky_read", "beam_read", "detector_set_id", "pointing_alloc", "convolver_new", "convolver_convolve", "detector_get_id"};
  auto undo = [&](int op) { if (op == 0) { conviqt_sky_del(S); S = nullptr; } if (op == 1) { conviqt_beam_del(B); B = nullptr; } if (op == 2 || op == 3) { conviqt_detector_del(D); D = nullptr; } if (op == 4) { conviqt_pointing_del(P); P = nullptr; } if (op == 8) conviqt_pointing_alloc(P, 0); if (op == 9) { conviqt_convolver_del(V); V = nullptr; } };
  auto rows = [&]() { double *q = conviqt_pointing_data(P); return std::vector<double>(q, q + 5 * n); };
  auto finish = [&]() { int rc = 0; if (V) rc |= conviqt_convolver_del(V); if (P) rc |= conviqt_pointing_del(P); if (D) rc |= conviqt_detector_del(D); if (B) rc |= conviqt_beam_del(B); if (S) rc |= conviqt_sky_del(S); V = P = D = B = S = nullptr; return rc; };
  auto run = [&](bool faulty) {
    long live = 0;
    int dn = faulty ? (int)c.below(2) : 0;
    const int seq[] = {0, 1, dn ? 3 : 2, 4, 7, 11, 5, 6, 8, 9, 10};
    for (int op : seq) {
      if (faulty && c.coin(2, 3)) {
        oom::at = 0; oom::count = 0; oom::armed = true; bool threw = false; int rc = 1; try { rc = call(op); } catch (...) { threw = true; } oom::armed = false; long N = oom::count;
        if (threw || rc) { c.soft(std::string("conviqt_") + OPS[op] + " failed without a failing allocation"); return; }
        int tries = N ? (op == 10 ? 3 : 2) : 0; undo(op);
        for (int t = 0; t < tries; ++t) {
          live = oom::live; oom::at = 1 + (long)c.below(N); oom::count = 0; oom::armed = true; threw = false; rc = 1; try { rc = call(op); } catch (...) { threw = true; } bool reached = oom::count >= oom::at; oom::armed = false; live = oom::live - live; ++nop; c.cls(std::string("failing allocation in ") + OPS[op]);
          std::string w = vp::fmt("conviqt_%s with allocation %ld of %ld failing", OPS[op], oom::at, N);
          if (threw) { c.soft(w + ": an exception left the interface"); return; } if (rc) { ++nfail; if (!reached) c.soft(w + ": failed before that"); if (creates(op) && live) c.soft(w + vp::fmt(": %ld blocks of memory are left behind", live)); } else undo(op);
        }
      }
      if (call(op) != 0) { c.soft(std::string("conviqt_") + OPS[op] + " fails after a call in which an allocation failed"); return; }
    }
  };
  run(false); if (!c.failmsg.empty()) { finish(); return; } ref = rows(); int lm = conviqt_sky_lmax(S), bl = conviqt_beam_lmax(B), bm = conviqt_beam_mmax(B); finish(); run(false); if (c.failmsg.empty() && memcmp(ref.data(), rows().data(), ref.size() * 8) && omp_get_max_threads() == 1) c.soft("the same calls give other rows"); finish();
  fds = open_files(); { run(true); if (c.failmsg.empty()) { if (conviqt_sky_lmax(S) != lm || conviqt_beam_lmax(B) != bl || conviqt_beam_mmax(B) != bm) c.soft("orders differ after calls in which an allocation failed"); std::vector<double> got = rows(); for (size_t i = 0; i < got.size(); ++i) if (!(std::abs(got[i] - ref[i]) <= 1e-12 * (1 + std::abs(ref[i]))) && i % 5 != 4) { c.soft(vp::fmt("row %zu column %zu is %.17g after calls in which an allocation failed, %.17g otherwise", i / 5, i % 5, got[i], ref[i])); break; } } if (finish()) c.soft("a *_del function returned an error"); }
  if (c.failmsg.empty() && open_files() != fds) c.soft("a failing call leaves a file open");
  c.note("failing allocations", vp::fmt("%ld calls, %ld error values", nop, nfail)); c.nontrivial(nfail > 0);
}
VP_MAIN
