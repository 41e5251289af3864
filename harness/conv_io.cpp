// C08, C09: what sky and beam hold after reading and conditioning, on every process.
#include "conv.hpp"
#include <memory>
using namespace cv;

namespace {
struct Row { int l, m; double re, im; };
struct File { std::string name; int ncomp; int flmax = 0, fmmax = 0; std::vector<Row> rows[3]; bool keys; };

float asf(double x) { return (float)x; }
double value(vp::Rng &r, int mode) {
  switch (mode) {
    case 0: return r.real(-1, 1);
    case 1: return ldexp(r.real(-1, 1), (int)r.range(-100, 100));
    case 2: return r.coin(.5) ? 0.0 : (r.coin() ? -0.0 : 1.0);
    default: return (double)r.range(-1000, 1000);
  }
}
// a coefficient file of any layout that the format allows
File make_file(vp::Ctx &c, const std::string &name, int maxl, bool square, int rank) {
  File f; f.name = name; f.ncomp = c.coin() ? 3 : 1; int lm = (int)c.skew(0, maxl); bool large = c.coin(1, 50); // more rows than the reader takes at once
  if (large) { bool huge = c.coin(1, 4); lm = huge ? (int)c.range(200, c.big ? 420 : 370) : (int)c.range(100, c.big ? 180 : 145); c.cls(huge ? "huge file" : "large file"); }
  int mm = square ? lm : (int)c.range(0, lm);
  f.keys = c.coin(); bool dbl = c.coin(), shuffle = c.coin(); int density = (int)c.below(4), mode = (int)c.below(4), extra = (int)c.below(3); vp::Rng r = c.bulk();
  int lone = large && c.coin() ? 1 + (int)c.below(4) : 0; if (lone) c.cls("highest orders in one row");
  int klm = f.keys ? lm + (r.coin(.2) ? 0 : 0) : -1, kmm = mm; int tl = 0, tm = 0; bool samecomp = r.coin(.6);
  fitsfile *p = nullptr; int st = 0;
  if (rank == 0) { unlink(name.c_str()); fits_create_file(&p, name.c_str(), &st); long n0[1] = {0}; fits_create_img(p, 8, 0, n0, &st); }
  for (int k = 0; k < f.ncomp; ++k) {
    int cl = lm, cm = mm; if (!samecomp && k > 0) { cl = (int)r.range(0, lm); cm = (int)r.range(0, std::min(mm, cl)); }
    std::vector<Row> rows; for (int l = 0; l <= cl; ++l) for (int m = 0; m <= std::min(l, cm); ++m) if (density == 0 || r.coin(density == 1 ? .6 : density == 2 ? .15 : 0.9)) { Row q{l, m, value(r, mode), m ? value(r, mode) : 0.0}; rows.push_back(q); }
    if (rows.empty()) rows.push_back(Row{0, 0, value(r, mode), 0});
    if (shuffle) for (size_t i = rows.size(); i > 1; --i) std::swap(rows[i - 1], rows[r.below(i)]);
    // a single row with the highest orders, next to a boundary between the pieces in which the table is read
    if (large && lone && k == 0 && cl > 1) {
      rows.erase(std::remove_if(rows.begin(), rows.end(), [&](const Row &q) { return q.l == cl || (cm > 0 && q.m == cm); }), rows.end());
      size_t piece = 39 * 2880 / (4 + (dbl ? 16 : 8) + 4 * extra), at = rows.size() / piece; at = at ? (1 + r.below(at)) * piece : 0; if (lone == 1) at = r.coin() ? 0 : rows.size(); else if (lone == 2 && at) --at; else if (lone == 3) ++at;
      rows.insert(rows.begin() + std::min(at, rows.size()), Row{cl, cm, value(r, mode), cm ? value(r, mode) : 0.0});
    }
    int rl = -1, rm = -1; for (auto &q : rows) { rl = std::max(rl, q.l); rm = std::max(rm, q.m); }
    if (f.keys) { rl = klm; rm = kmm; if (!samecomp && k > 0) { rl = cl; rm = cm; } }
    tl = std::max(tl, rl); tm = std::max(tm, rm); f.rows[k] = rows;
    if (rank == 0) {
      const char *tt[5] = {"index", "real", "imag", "x1", "x2"}, *tu[5] = {"l*l+l+m+1", "", "", "", ""}, *tf[5] = {"1J", dbl ? "1D" : "1E", dbl ? "1D" : "1E", "1J", "1E"};
      std::vector<int> idx; std::vector<double> re, im; for (auto &q : rows) { idx.push_back(q.l * q.l + q.l + q.m + 1); re.push_back(q.re); im.push_back(q.im); }
      fits_create_tbl(p, BINARY_TBL, rows.size(), 3 + extra, (char **)tt, (char **)tf, (char **)tu, (char *)"alm", &st);
      fits_write_col(p, TINT, 1, 1, 1, idx.size(), idx.data(), &st);
      if (dbl) { fits_write_col(p, TDOUBLE, 2, 1, 1, idx.size(), re.data(), &st); fits_write_col(p, TDOUBLE, 3, 1, 1, idx.size(), im.data(), &st); }
      else { std::vector<float> a(re.begin(), re.end()), b(im.begin(), im.end()); fits_write_col(p, TFLOAT, 2, 1, 1, idx.size(), a.data(), &st); fits_write_col(p, TFLOAT, 3, 1, 1, idx.size(), b.data(), &st); }
      if (f.keys) { fits_write_key(p, TINT, "MAX-LPOL", &rl, (char *)"", &st); fits_write_key(p, TINT, "MAX-MPOL", &rm, (char *)"", &st); }
    }
  }
  if (rank == 0) { fits_close_file(p, &st); if (st) fits_fail(st); }
  // orders of the first table alone are what an unpolarised read sees
  f.flmax = tl; f.fmmax = tm; c.note("file", vp::fmt("%d tables lmax %d mmax %d%s%s", f.ncomp, lm, mm, f.keys ? " keys" : "", dbl ? " double" : " float"));
  return f;
}
void orders(const File &f, bool pol, int &l, int &m) {
  if (pol) { l = f.flmax; m = f.fmmax; return; }
  l = m = -1; for (auto &q : f.rows[0]) { l = std::max(l, q.l); m = std::max(m, q.m); }
}
typedef std::map<std::pair<int, int>, std::pair<float, float>> Table;
Table table(const File &f, int k, int l, int m) { Table t; for (auto &q : f.rows[k]) if (q.l <= l && q.m <= m) t[{q.l, q.m}] = {asf(q.re), asf(q.im)}; return t; }
// bitwise, except the sign of zero of a coefficient the file has (cfitsio keeps it; so do we) 
std::string compare(Alm<xcomplex<float>> &A, const Table &t, int l, int m, double rel, const std::vector<double> &f, const char *nm) {
  if (A.Lmax() != l || A.Mmax() != m) return vp::fmt("%s has orders %d, %d instead of %d, %d", nm, A.Lmax(), A.Mmax(), l, m);
  for (int i = 0; i <= l; ++i) for (int j = 0; j <= std::min(i, m); ++j) {
    auto it = t.find({i, j}); float re = 0, im = 0; if (it != t.end()) re = it->second.first, im = it->second.second;
    float a = A(i, j).re, b = A(i, j).im; bool ok;
    if (rel == 0) ok = memcmp(&a, &re, 4) == 0 && memcmp(&b, &im, 4) == 0;
    else { double wr = re * f[i], wi = im * f[i]; if (!(fabs(wr) < 3e38) || !(fabs(wi) < 3e38) || !(fabs(f[i]) < 3e38)) continue; ok = fabs(a - wr) <= rel * fabs(wr) + 2e-45 && fabs(b - wi) <= rel * fabs(wi) + 2e-45; re = wr; im = wi; }
    if (!ok) return vp::fmt("%s(l=%d, m=%d) is %.9g%+.9gi, expected %.9g%+.9gi", nm, i, j, a, b, re, im);
  }
  return "";
}
template <class F> int outcome(F f) { try { f(); return 0; } catch (...) { return 1; } }
struct W { int rank, size; W() { MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size); } };
} // namespace

VP_PROP(beam_read) {
  W w; File fs[2]; fs[0] = make_file(c, c.dir + "/b0.fits", c.big ? 40 : 20, false, w.rank); fs[1] = make_file(c, c.dir + "/b1.fits", c.big ? 40 : 12, false, w.rank); MPI_Barrier(MPI_COMM_WORLD);
  std::unique_ptr<conviqt::beam> b; if (c.coin()) b.reset(new conviqt::beam); int n = (int)c.range(1, 4), good = 0; std::ostringstream h;
  for (int k = 0; k < n; ++k) {
    File &f = fs[c.below(2)]; bool pol = f.ncomp == 3 && c.coin(); int fl, fm; orders(f, pol, fl, fm); if (!pol && f.keys) { fl = f.flmax; fm = f.fmmax; if (f.ncomp == 3) { fl = fm = 0; fitsfile *p; int st = 0; fits_open_file(&p, (f.name + "[1]").c_str(), READONLY, &st); fits_read_key(p, TINT, "MAX-LPOL", &fl, 0, &st); fits_read_key(p, TINT, "MAX-MPOL", &fm, 0, &st); fits_close_file(p, &st); if (st) fits_fail(st); } }
    long rl, rm; int kind = (int)c.below(8); if (kind == 0) rl = -1; else if (kind == 1) rl = 0; else if (kind == 2) rl = fl + 1 + (int)c.below(3); else rl = c.range(0, fl); int km = (int)c.below(8); if (km == 0) rm = -1; else if (km == 1) rm = 0; else if (km == 2) rm = fm + 1 + (int)c.below(3); else rm = c.range(0, fm);
    bool refuse = rl > fl || rm > fm; h << " read(" << rl << "," << rm << (pol ? ",pol" : "") << (refuse ? ",too high" : "") << ")"; int t;
    if (!b) t = outcome([&] { b.reset(new conviqt::beam(rl, rm, pol, f.name, MPI_COMM_WORLD)); }); else t = outcome([&] { b->read(rl, rm, pol, f.name, MPI_COMM_WORLD); });
    if (!b && t) { b.reset(new conviqt::beam); }
    if (refuse != (bool)t) { c.soft(refuse ? "a request above the file's orders was accepted:" + h.str() : "a legal read was refused:" + h.str()); break; }
    if (refuse) { c.cls("refused"); continue; }
    int L = rl > 0 ? rl : fl, M = std::min(L, rm > 0 ? (int)rm : fm); ++good;
    if (b->get_lmax() != L || b->get_mmax() != M) { c.soft(vp::fmt("beam reports orders %d, %d instead of %d, %d:%s", b->get_lmax(), b->get_mmax(), L, M, h.str().c_str())); break; }
    std::string e = compare(b->blmT(), table(f, 0, L, M), L, M, 0, {}, "T");
    if (pol) { if (e.empty()) e = compare(b->blmG(), table(f, 1, L, M), L, M, 0, {}, "G"); if (e.empty()) e = compare(b->blmC(), table(f, 2, L, M), L, M, 0, {}, "C"); }
    else { if (!outcome([&] { b->blmG(); }) || !outcome([&] { b->blmC(); })) e = "polarised components of an unpolarised beam were delivered"; c.cls("unpolarised"); }
    if (!e.empty()) { c.soft(vp::fmt("rank %d: ", w.rank) + e + " after" + h.str()); break; }
    c.cls("read"); if (M < fm) c.cls("mmax below the file's"); if (L < fl) c.cls("lmax below the file's");
  }
  c.note("history", h.str()); c.nontrivial(good > 0 && (fs[0].rows[0].size() > 2));
}

static void sky_case(vp::Ctx &c, bool cond) {
  W w; File fs[2]; for (int i = 0; i < 2; ++i) fs[i] = make_file(c, c.dir + vp::fmt("/s%d.fits", i), c.big ? 40 : 16, !c.coin(1, 6), w.rank); MPI_Barrier(MPI_COMM_WORLD);
  std::unique_ptr<conviqt::sky> s; if (c.coin()) s.reset(new conviqt::sky); int n = cond ? (int)c.range(2, 9) : (int)c.range(1, 4), good = 0, mods = 0; std::ostringstream h;
  Table T[3]; int L = -1; bool pol = false; double wd = 0; std::vector<double> ft, fp;
  for (int k = 0; k < n; ++k) {
    int op = !cond || L < 0 ? 0 : (int)c.below(4);
    if (op <= 1) {
      File &f = fs[c.below(2)]; bool p = f.ncomp == 3 && c.coin(); int fl, fm; orders(f, p, fl, fm); if (!p && f.keys) { fitsfile *q; int st = 0; fits_open_file(&q, (f.name + "[1]").c_str(), READONLY, &st); fits_read_key(q, TINT, "MAX-LPOL", &fl, 0, &st); fits_read_key(q, TINT, "MAX-MPOL", &fm, 0, &st); fits_close_file(q, &st); if (st) fits_fail(st); }
      long rl; int kind = (int)c.below(8); if (kind == 0) rl = -1; else if (kind == 1) rl = 0; else if (kind == 2) rl = fl + 1 + (int)c.below(3); else rl = c.range(0, fl);
      double nw = 0; if (cond && c.coin(3, 4)) nw = c.coin() ? c.real(0, 60) : c.coin() ? c.real(60, 400) : c.real(0, 1);
      int nl = rl > 0 ? rl : fl; bool refuse = rl > fl || fm < nl; int t; h << " read(" << rl << (p ? ",pol," : ",") << nw << (refuse ? ",too high)" : ")");
      if (!s) t = outcome([&] { s.reset(new conviqt::sky(rl, p, f.name, nw, MPI_COMM_WORLD)); }); else t = outcome([&] { s->read(rl, p, f.name, nw, MPI_COMM_WORLD); });
      if (!s && t) s.reset(new conviqt::sky);
      if (refuse != (bool)t) { c.soft(refuse ? "a request above the file's orders was accepted:" + h.str() : "a legal read was refused:" + h.str()); break; }
      if (refuse) { c.cls("refused"); if (cond && L >= 0) {} else continue; } else {
        ++good; L = nl; pol = p; wd = nw; double sg = wd / 60 * (double)PI / 180 / sqrt(8 * log(2.0)); ft.resize(L + 1); fp.resize(L + 1);
        for (int l = 0; l <= L; ++l) { ft[l] = (double)expl(0.5L * l * (l + 1) * sg * sg); fp[l] = (double)(expl(0.5L * l * (l + 1) * sg * sg - 2.0L * sg * sg)); }
        for (int q = 0; q < (pol ? 3 : 1); ++q) T[q] = table(f, q, L, L);
        if (wd > 0) { c.cls("deconvolved"); ++mods; } }
    } else if (op == 2) { s->remove_monopole(); h << " monopole"; T[0].erase({0, 0}); ++mods; c.cls("monopole removed"); }
    else { s->remove_dipole(); h << " dipole"; T[0].erase({1, 0}); T[0].erase({1, 1}); ++mods; c.cls("dipole removed"); if (L < 1) c.cls("dipole removed, lmax 0"); }
    if (L < 0) continue;
    if (s->get_lmax() != L) { c.soft(vp::fmt("sky reports lmax %d instead of %d:%s", s->get_lmax(), L, h.str().c_str())); break; }
    double rel = wd == 0 ? 0 : 4e-7; std::string e = compare(s->slmT(), T[0], L, L, rel, ft, "T");
    if (pol) { if (e.empty()) e = compare(s->slmG(), T[1], L, L, rel, fp, "G"); if (e.empty()) e = compare(s->slmC(), T[2], L, L, rel, fp, "C"); }
    else { if (!outcome([&] { s->slmG(); }) || !outcome([&] { s->slmC(); })) e = "polarised components of an unpolarised sky were delivered"; c.cls("unpolarised"); }
    if (!e.empty()) { c.soft(vp::fmt("rank %d: ", w.rank) + e + " after" + h.str()); break; }
    c.cls("state compared");
  }
  c.note("history", h.str()); c.nontrivial(good > 0 && fs[0].rows[0].size() > 2 && (!cond || mods > 0));
}
VP_PROP(sky_read) { sky_case(c, false); }
VP_PROP(conditioning) { sky_case(c, true); }
VP_MAIN
