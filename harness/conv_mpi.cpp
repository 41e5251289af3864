// C03, C12: convolution on several processes; illegal input.
#include "conv_gen.hpp"
#include <memory>
using namespace cv;

namespace {
struct World { int rank, size; World() { MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size); } };

// A group of the processes: the first k of a permutation, the rest form a second group
struct Group {
  MPI_Comm comm = MPI_COMM_NULL; int color = 0, rank = 0, size = 1; std::vector<int> sizes{0, 0};
  Group(vp::Ctx &c, int full) {
    World w; int k = c.coin(1, 2) || full ? w.size : (int)c.range(1, w.size); std::vector<int> perm(w.size); for (int i = 0; i < w.size; ++i) perm[i] = i;
    if (k < w.size || c.coin(1, 4)) for (int i = w.size; i > 1; --i) std::swap(perm[i - 1], perm[c.below(i)]);
    int pos = 0; for (int i = 0; i < w.size; ++i) if (perm[i] == w.rank) pos = i;
    color = pos >= k; sizes = {k, w.size - k}; c.note("ranks", k).note("others", w.size - k);
    MPI_Comm_split(MPI_COMM_WORLD, color, pos, &comm); MPI_Comm_rank(comm, &rank); MPI_Comm_size(comm, &size);
    c.cls(vp::fmt("group of %d", k));
  }
  ~Group() { if (comm != MPI_COMM_NULL) MPI_Comm_free(&comm); }
};

// distribution of n rows over the ranks of a group: owner of each row
std::vector<int> partition(vp::Rng &r, int kind, const std::vector<Pt> &v, int size) {
  int n = v.size(); std::vector<int> o(n);
  std::vector<int> idx(n); for (int i = 0; i < n; ++i) idx[i] = i;
  int one = r.below(size); int mask = 1 + r.below((1 << size) - 1);
  if (kind == 5) std::sort(idx.begin(), idx.end(), [&](int a, int b) { return v[a].theta < v[b].theta; });
  for (int i = 0; i < n; ++i) switch (kind) {
    case 0: case 5: o[idx[i]] = (long)i * size / std::max(n, 1); break;     // blocks, blocks by colatitude
    case 1: o[i] = r.below(size); break;
    case 2: o[i] = one; break;                                              // all on one process
    case 3: do { o[i] = r.below(size); } while (!((mask >> o[i]) & 1)); break; // some processes empty
    default: o[i] = r.coin(.9) ? one : r.below(size);                       // skewed
  }
  return o;
}
const char *kinds[] = {"blocks", "random", "all on one process", "some processes empty", "skewed", "by colatitude"};
GenOpt gopt(vp::Ctx &c) { GenOpt o; o.maxl = c.big ? 32 : 14; o.maxbm = c.big ? 10 : 5; o.lowband = false; o.allow_default = false; o.maxorder = 11; o.longl = c.big ? 90 : 48; return o; }
bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
double slack(const Setup &S) { Model M(S.s, S.b, S.ncomp, S.lmax, S.bm); return M.total * pow(lebesgue(S.order), 2); }
struct Objs { std::unique_ptr<conviqt::sky> s; std::unique_ptr<conviqt::beam> b; std::unique_ptr<conviqt::detector> d;
  void load(const Setup &S, const Files &f, MPI_Comm comm) { s.reset(new conviqt::sky(S.lsky, S.pol, f.sky, 0, comm)); b.reset(new conviqt::beam(S.lbeam, S.mbeam, S.pol, f.beam, comm)); d.reset(new conviqt::detector("d")); d->set_epsilon(S.eps); } };
void shapes(vp::Ctx &c, std::vector<Pt> &v, const Setup &S, vp::Rng &r) { // latitude distributions that load balancing must cope with
  int k = (int)c.below(5); c.note("latitudes", k);
  if (k == 1) { double t = r.coin() ? levels::halfpi : r.real(0, lib_pi()); for (auto &p : v) if (r.coin(.9)) { p.theta = t; p.node = false; } }
  if (k == 2) for (auto &p : v) { p.theta = r.coin() ? r.real(0, 1e-3) : lib_pi() - r.real(0, 1e-3); p.node = false; }
  if (k == 3) for (auto &p : v) { double s[] = {0, lib_pi(), levels::halfpi, nextafter(levels::halfpi, 0), nextafter(levels::halfpi, 9)}; p.theta = s[r.below(5)]; p.node = false; }
  if (k == 4) for (auto &p : v) { p.theta = levels::halfpi + (r.coin() ? 1 : -1) * r.unit() * 0.02; p.node = false; }
}
} // namespace

VP_PROP(distribution) {
  Setup S; GenOpt go = gopt(c); go.scale = true; gen_setup(c, S, go); Group g(c, 0); World w;
  Files f = write_files(c, S, w.rank, MPI_COMM_WORLD); Objs o, ref; o.load(S, f, g.comm); ref.load(S, f, MPI_COMM_SELF);
  conviqt::convolver cnv(o.s.get(), o.b.get(), o.d.get(), S.pol, S.lmax, S.bm, S.order, verbosity(c), g.comm);
  conviqt::convolver one(ref.s.get(), ref.b.get(), ref.d.get(), S.pol, S.lmax, S.bm, S.order, 0, MPI_COMM_SELF);
  double tol = 2e-12 * slack(S) * (2 / (1 + S.eps)); bool sig = false; int calls = (int)c.range(1, 3), total = 0, empty = 0; bool uneven = c.coin();
  for (int k = 0; k < calls; ++k) {
    std::vector<Pt> v; PtOpt po; po.minn = c.coin(1, 8) ? 0 : 1; po.maxn = c.big ? 120 : 40; po.huge = true; po.far = true; gen_points(c, S, v, po); vp::Rng r = c.bulk(); shapes(c, v, S, r); int kind = (int)c.below(6), kind2 = (int)c.below(6); bool cal = c.coin(1, 3); c.note("partition", kinds[g.color ? kind2 : kind]); c.cls(kinds[kind]);
    std::vector<int> th(w.size); for (auto &x : th) x = cv::threads(c, 3);
    vp::Rng r0(r.next()), r1(r.next()); // both groups on every process, so that choices and data agree
    std::vector<int> own0 = partition(r0, kind, v, g.sizes[0]), own = g.color ? partition(r1, kind2, v, g.size) : own0;
    { std::vector<int> cnt(g.sizes[0]); for (int x : own0) ++cnt[x]; for (int x : cnt) empty += x == 0; }
    std::vector<Pt> mine; for (size_t i = 0; i < v.size(); ++i) if (own[i] == g.rank) mine.push_back(v[i]);
    vp::Rng rs(r.next() + w.rank); for (size_t i = mine.size(); i > 1; --i) std::swap(mine[i - 1], mine[rs.below(i)]);
    conviqt::pointing p, q; to_pointing(mine, p, -5); to_pointing(mine, q, 3); omp_set_num_threads(uneven ? th[w.rank] : th[0]);
    cnv.convolve(p, cal); total += v.size();
    omp_set_num_threads(1); one.convolve(q, cal);
    if (p.size() != 5 * mine.size()) c.soft(vp::fmt("%zu rows brought, %zu left", mine.size(), p.size() / 5));
    else for (size_t i = 0; i < mine.size(); ++i) {
      if (!same(p[5 * i], mine[i].phi) || !same(p[5 * i + 1], mine[i].theta) || !same(p[5 * i + 2], mine[i].psi)) c.soft(vp::fmt("call %d, row %zu of rank %d of %d: angles changed", k, i, g.rank, g.size));
      if (!(fabs(p[5 * i + 3] - q[5 * i + 3]) <= tol)) c.soft(vp::fmt("call %d, row %zu of rank %d of %d, phi=%.17g theta=%.17g psi=%.17g: signal %.17g, one process gives %.17g (tolerance %.3g)", k, i, g.rank, g.size, mine[i].phi, mine[i].theta, mine[i].psi, p[5 * i + 3], q[5 * i + 3], tol));
      sig = sig || q[5 * i + 3] != 0;
    }
  }
  c.note("rows", total).note("calls", calls); if (empty) c.cls("with an empty process"); int s = sig, any; MPI_Allreduce(&s, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  c.nontrivial(g.sizes[0] > 1 && total > 1 && any);
}

// ---------------------------------------------------------------- C12
namespace {
// 0: returned, 1: threw
template <class F> int outcome(F f) { try { f(); return 0; } catch (...) { return 1; } }
std::pair<int, int> across(int x, MPI_Comm comm) { int a, b; MPI_Allreduce(&x, &a, 1, MPI_INT, MPI_MIN, comm); MPI_Allreduce(&x, &b, 1, MPI_INT, MPI_MAX, comm); return {a, b}; }
}
VP_PROP(angles) {
  Setup S; gen_setup(c, S, gopt(c)); Group g(c, 0); World w;
  Files f = write_files(c, S, w.rank, MPI_COMM_WORLD); Objs o, ref; o.load(S, f, g.comm); ref.load(S, f, MPI_COMM_SELF);
  conviqt::convolver cnv(o.s.get(), o.b.get(), o.d.get(), S.pol, S.lmax, S.bm, S.order, verbosity(c), g.comm);
  conviqt::convolver one(ref.s.get(), ref.b.get(), ref.d.get(), S.pol, S.lmax, S.bm, S.order, 0, MPI_COMM_SELF);
  omp_set_num_threads((int)c.range(1, 2)); double tol = 2e-12 * slack(S) * (2 / (1 + S.eps)); int nbad = 0, nedge = 0, calls = (int)c.range(1, 4);
  const double P = lib_pi(), H = levels::halfpi, I = INFINITY;
  const double bad[] = {-4.94065645841247e-324, -1e-300, -1e-9, -1, nextafter(P, 9), P + 1e-9, 4, 2 * P, -P, 1e300, -1e300, I, -I, NAN, -NAN, 1e18, -0.5};
  const double edge[] = {0, -0.0, P, H, nextafter(H, 0), nextafter(H, 9), nextafter(P, 0), 4.94065645841247e-324, 1e-300, 1e-17};
  for (int k = 0; k < calls; ++k) {
    std::vector<Pt> v; PtOpt po; po.maxn = 16; gen_points(c, S, v, po); vp::Rng r = c.bulk(); int kind = (int)c.below(6); bool inject = c.coin(2, 3); int nb = 0;
    for (auto &p : v) if (r.coin(.3)) p.theta = edge[r.below(10)], p.node = false, ++nedge;
    if (inject) { nb = (int)c.skew(1, (int)v.size()); bool onerank = c.coin(); size_t first = r.below(v.size()); for (int j = 0; j < nb; ++j) v[onerank ? first : r.below(v.size())].theta = bad[r.below(17)]; ++nbad; c.cls("illegal angle"); }
    std::vector<int> own = partition(r, kind, v, g.size); std::vector<Pt> mine; bool mybad = false;
    for (size_t i = 0; i < v.size(); ++i) if (own[i] == g.rank) { mine.push_back(v[i]); mybad = mybad || !(v[i].theta >= 0 && v[i].theta <= P); }
    // one illegal row somewhere in a long table
    if (c.coin(1, 6)) {
      static const int sizes[] = {1, 2, 7, 64, 255, 256, 1000, 1024, 4095, 4096, 5000, 8192, 16384, 40000, 65535, 65536, 65537, 131072};
      int n = sizes[c.below(18)] + (int)c.below(3), at = c.coin() ? (int)r.below(n) : c.coin() ? n - 1 : (1 << r.below(18)) - (int)r.below(2), who = (int)c.below(w.size); double what = bad[r.below(17)];
      if (at < 0 || at >= n) at = n - 1;
      if (!inject) { inject = true; nb = 1; ++nbad; c.cls("illegal angle"); }
      Pt q; q.phi = .25; q.theta = 1; q.psi = 3; q.node = false; int pad = who == w.rank ? n : (int)r.below(50); std::vector<Pt> longer(pad, q);
      if (who == w.rank) { longer[at].theta = what; mybad = true; }
      longer.insert(longer.end(), mine.begin(), mine.end()); mine.swap(longer); c.cls("illegal row in a long table"); c.note("rows", n).note("at", at);
    }
    c.note("call", k).note("illegal", inject ? nb : 0);
    conviqt::pointing p; to_pointing(mine, p, -5); int t = outcome([&] { cnv.convolve(p, false); });
    if (mybad && !t) c.soft(vp::fmt("call %d: rank %d of %d: an illegal colatitude was accepted", k, g.rank, g.size));
    if (!inject && t) c.soft(vp::fmt("call %d: rank %d of %d: legal colatitudes were refused", k, g.rank, g.size));
    MPI_Barrier(g.comm);
    if (!inject && !t) {
      conviqt::pointing q; to_pointing(mine, q, 3); one.convolve(q, false);
      if (p.size() != 5 * mine.size()) { c.soft("row count changed"); continue; }
      for (size_t i = 0; i < mine.size(); ++i) if (!(fabs(p[5 * i + 3] - q[5 * i + 3]) <= tol) || !std::isfinite(p[5 * i + 3])) c.soft(vp::fmt("call %d (after %d refused calls): row %zu of rank %d of %d theta=%.17g: signal %.17g, one process gives %.17g", k, nbad, i, g.rank, g.size, mine[i].theta, p[5 * i + 3], q[5 * i + 3]));
    }
  }
  if (nedge) c.cls("boundary angles"); c.nontrivial(nbad || nedge);
}

// the objects behind a convolver are replaced or read again, with what it needs or without
VP_PROP(replaced) {
  Setup S; gen_setup(c, S, gopt(c)); Group g(c, 0); World w; S.sflags |= FW_KEYS; S.bflags |= FW_KEYS;
  Files f = write_files(c, S, w.rank, MPI_COMM_WORLD); Objs o, ref; o.load(S, f, g.comm); ref.load(S, f, MPI_COMM_SELF);
  conviqt::convolver cnv(o.s.get(), o.b.get(), o.d.get(), S.pol, S.lmax, S.bm, S.order, verbosity(c), g.comm);
  conviqt::convolver one(ref.s.get(), ref.b.get(), ref.d.get(), S.pol, S.lmax, S.bm, S.order, 0, MPI_COMM_SELF);
  double tol = 2e-12 * slack(S) * (2 / (1 + S.eps)); int steps = (int)c.range(1, 5), refused = 0, bmeff = S.bmeff();
  bool sok = true, bok = true; std::vector<std::unique_ptr<conviqt::sky>> skies; std::vector<std::unique_ptr<conviqt::beam>> beams; conviqt::sky *cs = o.s.get(); conviqt::beam *cb = o.b.get();
  for (int k = 0; k < steps; ++k) {
    int what = (int)c.below(3); bool good = c.coin(2, 5), fresh = c.coin(); uint64_t where = c.coin() ? ~0ull : 1ull << c.below(w.size); // which processes
    long l = good ? S.lmax + (long)c.below(2) * ((what == 0 ? S.lsky : S.lbeam) - S.lmax) : (long)c.range(1, std::max(1, S.lmax - 1)), m = S.mbeam; bool pol = S.pol;
    int how = (int)c.below(3); // lower order, fewer azimuthal orders, no polarisation
    if (!good && how == 1 && what == 1 && bmeff > 1) { l = S.lbeam; m = (long)c.range(1, bmeff - 1); }
    if (!good && how == 2 && S.pol) { pol = false; l = S.lmax; }
    m = std::min(m, l); bool me = (where >> w.rank) & 1;
    c.note("step", what).note("fresh", fresh).note("l", l).note("m", m).note("pol", pol).note("where", (long)(where == ~0ull ? -1 : where));
    if (what == 0 && me) {
      if (fresh) { skies.emplace_back(new conviqt::sky(l, pol, f.sky, 0, MPI_COMM_SELF)); cs = skies.back().get(); cnv.set_sky(cs); } else cs->read(l, pol, f.sky, 0, MPI_COMM_SELF);
      sok = l >= S.lmax && (pol || !S.pol);
    } else if (what == 1 && me) {
      long marg = m; if (fresh) { beams.emplace_back(new conviqt::beam(l, marg, pol, f.beam, MPI_COMM_SELF)); cb = beams.back().get(); cnv.set_beam(cb); } else cb->read(l, marg, pol, f.beam, MPI_COMM_SELF);
      bok = l >= S.lmax && cb->get_mmax() >= bmeff && (pol || !S.pol);
    }
    bool bad = !sok || !bok; int anyc = bad, any; MPI_Allreduce(&anyc, &any, 1, MPI_INT, MPI_MAX, g.comm);
    // every process of the world draws the same choices
    std::vector<Pt> v; PtOpt po; po.maxn = 8; gen_points(c, S, v, po); vp::Rng r = c.bulk(); int kind = (int)c.below(6);
    std::vector<int> own = partition(r, kind, v, g.size); std::vector<Pt> mine; for (size_t i = 0; i < v.size(); ++i) if (own[i] == g.rank) mine.push_back(v[i]);
    conviqt::pointing p; to_pointing(mine, p, -5); int t = outcome([&] { cnv.convolve(p, false); });
    if (bad && !t) c.soft(vp::fmt("step %d: rank %d of %d: a sky or beam with less than the convolver needs was accepted", k, g.rank, g.size));
    if (!any && t) c.soft(vp::fmt("step %d: rank %d of %d: a sufficient sky and beam were refused", k, g.rank, g.size));
    refused += any;
    if (!any && !t) {
      conviqt::pointing q; to_pointing(mine, q, 3); one.convolve(q, false);
      for (size_t i = 0; i < mine.size(); ++i) if (!(fabs(p[5 * i + 3] - q[5 * i + 3]) <= tol)) c.soft(vp::fmt("step %d (after %d refused calls): row %zu of rank %d of %d theta=%.17g: signal %.17g, the first objects gave %.17g", k, refused, i, g.rank, g.size, mine[i].theta, p[5 * i + 3], q[5 * i + 3]));
    }
  }
  if (refused) c.cls("lacking object"); c.nontrivial(refused);
}

VP_PROP(orders) {
  Setup S; gen_setup(c, S, gopt(c)); Group g(c, 0); World w; S.sflags |= FW_KEYS; S.bflags |= FW_KEYS; Files f = write_files(c, S, w.rank, MPI_COMM_WORLD);
  int what = (int)c.below(8); bool legal = c.coin(1, 3); int t = 0; long hi = legal ? 0 : c.skew(1, 1000); if (!legal && c.coin(1, 6)) hi = c.pick(std::vector<long>{1L << 31, 1L << 32, (1L << 32) - 1, (1L << 32) - 8, 1L << 33, 1L << 40, 2147483647L, 0x7fffffffffff0000L}); bool expect = !legal; c.note("what", what).note("excess", hi);
  static const char *names[] = {"sky lmax", "beam lmax", "beam mmax", "convolver lmax above sky", "convolver lmax above beam", "convolver mmax", "sky with too few m", "convolver lmax 0"};
  if (what < 3) {
    conviqt::sky s; conviqt::beam b;
    if (what == 0) t = outcome([&] { s.read(S.lsky + hi, S.pol, f.sky, 0, g.comm); });
    if (what == 1) t = outcome([&] { b.read(S.lbeam + hi, -1, S.pol, f.beam, g.comm); });
    if (what == 2) t = outcome([&] { b.read(S.lbeam, S.mbeam + hi, S.pol, f.beam, g.comm); });
    // the object stays usable
    int u = outcome([&] { if (what == 0) s.read(S.lsky, S.pol, f.sky, 0, g.comm); else b.read(S.lbeam, S.mbeam, S.pol, f.beam, g.comm); });
    if (u) c.soft("a legal read after a refused one fails");
    if (what == 0 ? s.get_lmax() != S.lsky : b.get_lmax() != S.lbeam) c.soft("wrong lmax after a refused read");
  } else if (what == 6) {
    std::string fn = c.dir + "/flat.fits"; int mm = (int)c.range(0, S.lsky); expect = mm < S.lsky; // a sky needs mmax = lmax
    if (w.rank == 0) { Coef x[3]; vp::Rng r(1); for (int k = 0; k < S.ncomp; ++k) fill(x[k], S.lsky, mm, 999, 999, 0, r); write_alm_file(fn, x, S.ncomp, S.sflags, r); }
    MPI_Barrier(MPI_COMM_WORLD); conviqt::sky s; t = outcome([&] { s.read(c.coin() ? S.lsky : -1, S.pol, fn, 0, g.comm); });
  } else {
    Objs o; o.load(S, f, g.comm); std::unique_ptr<conviqt::convolver> cnv; long l = S.lmax, m = S.bm;
    if (what == 3) { l = S.lsky + hi; expect = l > std::min(S.lsky, S.lbeam); }
    if (what == 4) { l = S.lbeam + hi; expect = l > std::min(S.lsky, S.lbeam); }
    if (what == 5) m = S.mbeam + hi;
    if (what == 7) { l = legal ? 1 : 0; }
    t = outcome([&] { cnv.reset(new conviqt::convolver(o.s.get(), o.b.get(), o.d.get(), S.pol, l, m, S.order, verbosity(c), g.comm)); });
    if (!t && !expect) { std::vector<Pt> v(1); v[0].phi = v[0].psi = 1; v[0].theta = 1; conviqt::pointing p; to_pointing(v, p); if (outcome([&] { cnv->convolve(p, true); })) c.soft("convolve with legal orders fails"); }
  }
  if (expect && !t) c.soft(std::string("too high an order was accepted: ") + names[what]);
  if (!expect && t) c.soft(std::string("a legal order was refused: ") + names[what]);
  c.cls(names[what]); c.nontrivial(expect);
}

VP_PROP(files) {
  Setup S; GenOpt go = gopt(c); go.maxl = 8; gen_setup(c, S, go); Group g(c, 0); World w; Files f = write_files(c, S, w.rank, MPI_COMM_WORLD);
  int kind = (int)c.below(10); std::string fn = c.dir + "/broken.fits"; bool isky = c.coin(); vp::Rng r = c.bulk(); bool must = true; long l = c.coin() ? (isky ? S.lsky : S.lbeam) : -1;
  static const char *names[] = {"missing", "empty file", "garbage", "no table", "too few tables", "image instead of table", "one column", "index zero or negative", "truncated", "no rows and no order keywords"}; c.note("file", names[kind]).note("sky", isky); c.cls(names[kind]);
  int ncomp = S.pol ? 3 : 1; double cut = r.unit(); int badidx = (int)r.range(-50, 0); bool keys = r.coin(); int hdu = (int)r.range(0, ncomp - 1); unsigned char junk[4000]; int njunk = (int)r.range(1, 4000); for (int i = 0; i < njunk; ++i) junk[i] = r.below(256); bool fitsish = r.coin();
  if (w.rank == 0) {
    unlink(fn.c_str()); fitsfile *p; int st = 0; long n0[1] = {0}, n1[2] = {6, 7};
    const char *tt[3] = {"index", "real", "imag"}, *tu[3] = {"", "", ""}, *tf[3] = {"1J", "1E", "1E"};
    auto table = [&](int cols, int mode) { int n = mode == 9 ? 0 : 4, idx[4] = {1, 3, 4, 5}; float v[4] = {1, 2, 3, 4}; if (mode == 7) { idx[2] = badidx; } fits_create_tbl(p, BINARY_TBL, n, cols, (char **)tt, (char **)tf, (char **)tu, (char *)"alm", &st); if (n) { fits_write_col(p, TINT, 1, 1, 1, n, idx, &st); if (cols > 1) { fits_write_col(p, TFLOAT, 2, 1, 1, n, v, &st); fits_write_col(p, TFLOAT, 3, 1, 1, n, v, &st); } } int two = 2; if (mode == 7 && keys) { fits_write_key(p, TINT, "MAX-LPOL", &two, (char *)"", &st); fits_write_key(p, TINT, "MAX-MPOL", &two, (char *)"", &st); } };
    if (kind == 1) { FILE *h = fopen(fn.c_str(), "w"); fclose(h); }
    else if (kind == 2) { FILE *h = fopen(fn.c_str(), "w"); if (fitsish) fprintf(h, "%-80s%-80s%-80s", "SIMPLE  =                    T", "BITPIX  =                    8", "NAXIS   =                  xyz"); fwrite(junk, 1, njunk, h); fclose(h); }
    else if (kind >= 3 && kind != 8) {
      fits_create_file(&p, fn.c_str(), &st); fits_create_img(p, 8, 0, n0, &st);
      for (int k = 0; k < ncomp; ++k) {
        if (kind == 3) break; if (kind == 4 && k == ncomp - 1) break;
        if (kind == 5 && k == hdu) { fits_create_img(p, 8, 2, n1, &st); continue; }
        table(kind == 6 && k == hdu ? 1 : 3, (kind == 7 || kind == 9) && (k == hdu || kind == 9) ? kind : 0);
      }
      fits_close_file(p, &st); if (st) fits_fail(st);
    } else if (kind == 8) {
      FILE *a = fopen((isky ? f.sky : f.beam).c_str(), "rb"), *b = fopen(fn.c_str(), "wb"); fseek(a, 0, SEEK_END); long n = (long)(ftell(a) * cut); rewind(a); std::vector<char> d(n + 1); if (fread(d.data(), 1, n, a)) {} fwrite(d.data(), 1, n, b); fclose(a); fclose(b);
    }
  }
  if (kind == 8 || kind == 9) must = false; // cut in the padding: harmless; no rows: an empty set
  if (kind != 7 && kind != 8 && kind != 9 && kind != 4) l = l; else if (kind != 8) l = -1;
  MPI_Barrier(MPI_COMM_WORLD);
  // an object that holds something already
  conviqt::sky s; conviqt::beam b; bool filled = c.coin(); if (filled) { if (isky) s.read(S.lsky, S.pol, f.sky, 0, g.comm); else b.read(S.lbeam, S.mbeam, S.pol, f.beam, g.comm); }
  int t = outcome([&] { if (isky) s.read(l, S.pol, fn, 0, g.comm); else b.read(l, -1, S.pol, fn, g.comm); });
  auto tr = across(t, g.comm);
  if (must && !t) c.soft(std::string("a broken file was accepted: ") + names[kind]);
  if (tr.first != tr.second) c.soft("a broken file is refused on some processes only");
  if (t && filled) { // what the object held before is still there
    if (isky ? s.get_lmax() != S.lsky : (b.get_lmax() != S.lbeam || b.get_mmax() != (S.mbeam > 0 ? std::min(S.mbeam, S.lbeam) : S.mbeam))) c.soft("a refused read changed the object's orders");
    Objs o; o.load(S, f, g.comm); conviqt::convolver cnv(isky ? &s : o.s.get(), isky ? o.b.get() : &b, o.d.get(), S.pol, S.lmax, S.bm, S.order, 0, g.comm), ref(o.s.get(), o.b.get(), o.d.get(), S.pol, S.lmax, S.bm, S.order, 0, g.comm);
    std::vector<Pt> v(3); for (auto &p : v) { p.phi = r.real(0, 6); p.theta = r.real(0, 3); p.psi = r.real(0, 6); } conviqt::pointing p, q; to_pointing(v, p); to_pointing(v, q); cnv.convolve(p, false); ref.convolve(q, false);
    for (int i = 0; i < 3; ++i) if (!(fabs(p[5 * i + 3] - q[5 * i + 3]) <= 2e-12 * slack(S))) c.soft(vp::fmt("after a refused read the old content gives %.17g instead of %.17g", p[5 * i + 3], q[5 * i + 3]));
  }
  // and a legal read works afterwards
  if (outcome([&] { if (isky) s.read(S.lsky, S.pol, f.sky, 0, g.comm); else b.read(S.lbeam, S.mbeam, S.pol, f.beam, g.comm); })) c.soft("a legal read after a refused one fails");
  c.nontrivial(t);
}
VP_MAIN
