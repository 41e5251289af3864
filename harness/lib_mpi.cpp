// L16: the communication layer against a serial model. Every process knows every process' data, as all draw the same choices.
#include "vp.hpp"
#include <time.h>
#include <unistd.h>
#include "ls_error_handling.h"
#include "ls_mpi_support.h"
using vp::fmt; using vp::i64; using vp::u64; using std::string; using std::vector;
using namespace levels;

namespace {
struct Hush {
  int fd;
  Hush() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
  ~Hush() { fflush(stderr); dup2(fd, 2); close(fd); }
};
template <class F> bool throws(F f) { Hush h; try { f(); } catch (...) { return true; } return false; }

template <class T> const char *tname() { if constexpr (std::is_same<T, char>::value) return "char"; else return type2typename<T>(); }
struct World {
  int wr, ws, color = 0, n = 1, me = 0; MPI_Comm comm; string hist; vp::Ctx &c; vp::Rng lag;
  World(vp::Ctx &cc) : c(cc), lag(0) {
    MPI_Comm_rank(MPI_COMM_WORLD, &wr); MPI_Comm_size(MPI_COMM_WORLD, &ws); int k = c.coin() ? ws : (int)c.range(1, ws); vector<int> p(ws); for (int i = 0; i < ws; ++i) p[i] = i;
    if (c.coin()) for (int i = ws; i > 1; --i) std::swap(p[i - 1], p[c.below(i)]);
    int pos = 0; for (int i = 0; i < ws; ++i) if (p[i] == wr) pos = i;
    color = pos >= k; MPI_Comm_split(MPI_COMM_WORLD, color, pos, &comm); MPI_Comm_rank(comm, &me); MPI_Comm_size(comm, &n); c.note("ranks", k); c.cls(fmt("group of %d", k)); lag = vp::Rng(c.bulk().next() + wr);
  }
  ~World() { MPI_Comm_free(&comm); }
  void die(const string &s) { c.note("history", hist); c.fail(fmt("rank %d of %d: ", me, n) + s); }
  void jitter() { if (lag.coin(.1)) usleep(lag.below(300)); }
};
// one operation: its own generator, alike on all processes of both groups except for the group's part in the seed
struct Op {
  u64 seed; int kind; bool small;
  template <class T> vector<T> data(int r, i64 n, int salt = 0) const { vp::Rng g(seed * 77 + r * 1009 + salt); vector<T> v(n); for (auto &x : v) x = small ? (T)(kind == 3 ? (g.below(8) ? 1 : (i64)g.below(3)) : (i64)g.below(100)) : val<T>(g); return v; }
  template <class T> T val(vp::Rng &g) const { if (std::is_floating_point<T>::value) return (T)g.real(-1e6, 1e6); u64 x = g.next(); return g.coin(.2) ? std::numeric_limits<T>::max() : g.coin(.2) ? std::numeric_limits<T>::min() : (T)x; }
};
template <class T> arr<T> toarr(const vector<T> &v) { arr<T> a(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = v[i]; return a; }
template <class T> T combine(int op, T a, T b) { return op == 0 ? T(a + b) : op == 1 ? std::min(a, b) : op == 2 ? std::max(a, b) : T(a * b); }

template <class T, bool red> void operation(World &w, const MPI_Manager &m, int op, vp::Ctx &c) {
  int n = w.n, me = w.me; vp::Rng g0 = c.bulk(); u64 s = g0.next() + (u64)w.color * 12345; vp::Rng g(s); // g: alike within the group
  i64 big = g.coin(.05) ? 3000 : g.coin(.2) ? 60 : 6; i64 len = g.coin(.15) ? 0 : (i64)g.below(big + 1); int root = (int)g.below(n); int ro = (int)g.below(4); Op d{g.next(), ro, false};
  static const char *nm[] = {"bcast", "gather", "gatherv", "gatherv2", "reduce", "allgather", "allreduce", "all2all", "all2allv", "all2allv_easy", "messages", "sendrecv", "sendrecv_replace", "refused", "share"};
  w.hist += fmt("%s<%s>(%ld,%d,%d) ", nm[op], tname<T>(), (long)len, root, ro); w.jitter();
  auto eq = [&](const T *p, const vector<T> &v, const char *what) { for (size_t i = 0; i < v.size(); ++i) if (!(p[i] == v[i])) w.die(fmt("%s of type %s: element %zu of %zu is %.10Lg, expected %.10Lg", what, tname<T>(), i, v.size(), (long double)p[i], (long double)v[i])); };
  struct Box { T lo[2], v, hi[2]; int me; Box(int m, T x) : v(x), me(m) { lo[0] = lo[1] = hi[0] = hi[1] = (T)(40 + m); } bool ok() const { T g = (T)(40 + me); return lo[0] == g && lo[1] == g && hi[0] == g && hi[1] == g; } }; // single numbers with surroundings that must stay
  auto box = [&](const Box &b, const char *what) { if (!b.ok()) w.die(fmt("%s of type %s touched its surroundings", what, tname<T>())); };
  auto size = [&](tsize k, size_t e, const char *what) { if (k != e) w.die(fmt("%s of type %s: %zu elements, expected %zu", what, tname<T>(), (size_t)k, e)); };
  vector<T> mine = d.data<T>(me, len); arr<T> in = toarr(mine), out;
  if (g.coin(.5)) out.allocAndFill(g.below(9), (T)7); // left over from before
  switch (op) {
    case 0: { vector<T> want = d.data<T>(root, len); if (root == 0 && g.coin()) m.bcast(in); else m.bcast(in, root); eq(len ? &in[0] : 0, want, "bcast"); size(in.size(), len, "bcast"); Box b(me, d.data<T>(me, 1, 5)[0]); T &x = b.v; m.bcast(x, root); eq(&x, d.data<T>(root, 1, 5), "bcast of one"); box(b, "bcast of one"); return; }
    case 1: { vector<T> want; for (int r = 0; r < n; ++r) want.push_back(d.data<T>(r, 1, 3)[0]); T x = want[me]; if (me == root) { m.gather_m(x, out, root); size(out.size(), n, "gather"); eq(&out[0], want, "gather"); } else m.gather_s(x, root); eq(&x, {want[me]}, "gather's input"); return; }
    case 2: { vector<i64> l(n); for (auto &x : l) x = g.coin(.3) ? 0 : (i64)g.below(big + 1); vector<T> want; for (int r = 0; r < n; ++r) { auto v = d.data<T>(r, l[r]); want.insert(want.end(), v.begin(), v.end()); } mine = d.data<T>(me, l[me]); in = toarr(mine); if (g.coin()) m.gatherv(in, out); else if (me == 0) m.gatherv_m(in, out); else m.gatherv_s(in); if (me == 0) { size(out.size(), want.size(), "gatherv"); if (want.size()) eq(&out[0], want, "gatherv"); } if (l[me]) eq(&in[0], mine, "gatherv's input"); return; }
    case 3: { i64 col = g.coin(.1) ? 0 : 1 + (i64)g.below(5); vector<i64> l(n); for (auto &x : l) x = g.coin(.3) ? 0 : (i64)g.below(big / 4 + 2); vector<T> want; i64 rows = 0; for (int r = 0; r < n; ++r) { auto v = d.data<T>(r, l[r] * col); want.insert(want.end(), v.begin(), v.end()); rows += l[r]; } mine = d.data<T>(me, l[me] * col); arr2<T> a(l[me], col), o; for (size_t i = 0; i < mine.size(); ++i) a[i / col][i % col] = mine[i]; if (me == 0) { m.gatherv_m(a, o); if (col && ((i64)o.size1() != rows || (i64)o.size2() != col)) w.die(fmt("gatherv: %zu x %zu elements, expected %ld x %ld", (size_t)o.size1(), (size_t)o.size2(), (long)rows, (long)col)); if (o.size() != want.size()) w.die("gatherv of rows: wrong size"); if (want.size()) eq(o[0], want, "gatherv of rows"); } else m.gatherv_s(a); return; }
    case 4: case 6: if constexpr (red) {
      d.small = ro == 0 || ro == 3; mine = d.data<T>(me, len); in = toarr(mine); MPI_Manager::redOp R[] = {MPI_Manager::Sum, MPI_Manager::Min, MPI_Manager::Max, MPI_Manager::Prod};
      vector<T> want = d.data<T>(0, len), one = d.data<T>(0, 1, 9); for (int r = 1; r < n; ++r) { auto v = d.data<T>(r, len), u = d.data<T>(r, 1, 9); for (i64 i = 0; i < len; ++i) want[i] = combine(ro, want[i], v[i]); one[0] = combine(ro, one[0], u[0]); }
      Box bx(me, d.data<T>(me, 1, 9)[0]), by(me, 3); T &x = bx.v, &y = by.v;
      if (op == 4) { m.reduce(in, out, R[ro], root); if (me == root) { size(out.size(), len, "reduce"); if (len) eq(&out[0], want, "reduce"); } m.reduce(x, y, R[ro], root); if (me == root) eq(&y, one, "reduce of one"); else eq(&y, {3}, "reduce's output elsewhere"); }
      else { m.allreduce(in, out, R[ro]); size(out.size(), len, "allreduce"); if (len) eq(&out[0], want, "allreduce"); m.allreduce(x, y, R[ro]); eq(&y, one, "allreduce of one"); }
      if (len) eq(&in[0], mine, "a reduction's input");
      if (op == 6) { m.allreduce(in, R[ro]); if (len) eq(&in[0], want, "allreduce in place"); m.allreduce(x, R[ro]); eq(&x, one, "allreduce of one in place"); }
      box(bx, "a reduction"); box(by, "a reduction"); }
      return;
    case 5: { vector<T> want, one; for (int r = 0; r < n; ++r) { auto v = d.data<T>(r, len); want.insert(want.end(), v.begin(), v.end()); one.push_back(d.data<T>(r, 1, 4)[0]); } m.allgather(in, out); size(out.size(), want.size(), "allgather"); if (len) eq(&out[0], want, "allgather"), eq(&in[0], mine, "allgather's input"); T x = one[me]; m.allgather(x, out); size(out.size(), n, "allgather of one"); eq(&out[0], one, "allgather of one"); return; }
    case 7: { mine = d.data<T>(me, len * n); in = toarr(mine); vector<T> want; for (int r = 0; r < n; ++r) { auto v = d.data<T>(r, len * n); want.insert(want.end(), v.begin() + len * me, v.begin() + len * (me + 1)); } m.all2all(in, out); size(out.size(), want.size(), "all2all"); if (len) eq(&out[0], want, "all2all"), eq(&in[0], mine, "all2all's input"); return; }
    case 8: case 9: {
      vector<vector<int>> k(n, vector<int>(n)); int sparse = (int)g.below(3); for (auto &r : k) for (auto &x : r) x = sparse && g.coin(sparse == 1 ? .5 : .9) ? 0 : (int)g.below(big + 1);
      vector<vector<vector<T>>> M(n, vector<vector<T>>(n)); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) M[a][b] = d.data<T>(a, k[a][b], 100 + b);
      if (op == 9) { mine.clear(); for (auto &v : M[me]) mine.insert(mine.end(), v.begin(), v.end()); in = toarr(mine); arr<int> ni = toarr(k[me]), no; if (g.coin()) no.alloc(g.below(5)); vector<T> want; vector<int> wn; for (int r = 0; r < n; ++r) { want.insert(want.end(), M[r][me].begin(), M[r][me].end()); wn.push_back(k[r][me]); } m.all2allv_easy(in, ni, out, no); size(out.size(), want.size(), "all2allv_easy"); size(no.size(), n, "all2allv_easy's counts"); for (int r = 0; r < n; ++r) if (no[r] != wn[r]) w.die(fmt("all2allv_easy: %d elements from %d, expected %d", no[r], r, wn[r])); if (want.size()) eq(&out[0], want, "all2allv_easy"); if (mine.size()) eq(&in[0], mine, "all2allv_easy's input"); return; }
      // generated places, with gaps; own choices of each process
      vp::Rng q(s + 31 * me + 1); auto place = [&](const vector<int> &cnt, vector<int> &at) { vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; for (int i = n; i > 1; --i) std::swap(o[i - 1], o[q.below(i)]); at.resize(n); int p = (int)q.below(3); for (int i : o) { at[i] = p; p += cnt[i] + (int)q.below(3); } return p; };
      vector<int> co(n), di, dou; for (int r = 0; r < n; ++r) co[r] = k[r][me]; int si = place(k[me], di), so = place(co, dou) ; vector<T> iv(si + 1, T(1)), ov(so + 1, T(2)), want; for (int r = 0; r < n; ++r) std::copy(M[me][r].begin(), M[me][r].end(), iv.begin() + di[r]); want = ov; for (int r = 0; r < n; ++r) std::copy(M[r][me].begin(), M[r][me].end(), want.begin() + dou[r]);
      if (g.coin()) m.all2allvRaw(&iv[0], &k[me][0], &di[0], &ov[0], &co[0], &dou[0]);
      else { arr<T> ia = toarr(iv); arr<T> o2; m.all2allv(ia, toarr(k[me]), toarr(di), o2, toarr(co), toarr(dou), ov.size()); size(o2.size(), ov.size(), "all2allv"); for (int r = 0; r < n; ++r) for (int i = 0; i < co[r]; ++i) ov[dou[r] + i] = o2[dou[r] + i]; }
      eq(&ov[0], want, "all2allv"); return; }
    case 10: { // messages one after another, at most one of them in flight between any two processes not yet received
      int nmsg = 1 + (int)g.below(6); for (int i = 0; i < nmsg && n > 1; ++i) { int a = (int)g.below(n), b = (int)g.below(n - 1); if (b >= a) ++b; i64 l = g.coin(.2) ? 0 : (i64)g.below(big + 1); bool one = g.coin(.3); if (one) l = 1; auto v = d.data<T>(a, l, 50 + i); w.jitter();
        if (me == a) { if (one) m.send(v[0], b); else m.send(toarr(v), b); } else if (me == b) { if (one) { T x = 0; m.recv(x, a); eq(&x, v, "recv of one"); } else { arr<T> x(l); for (auto j = 0; j < l; ++j) x[j] = 0; m.recv(x, a); if (l) eq(&x[0], v, "recv"); } } }
      return; }
    case 11: case 12: { vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n; i > 1; --i) if (g.coin(.8)) std::swap(p[i - 1], p[g.below(i)]); int from = 0; for (int i = 0; i < n; ++i) if (p[i] == me) from = i; vector<i64> l(n); bool uneven = op == 11 && g.coin(); for (auto &x : l) x = uneven ? (i64)g.below(big + 1) : len; mine = d.data<T>(me, l[me]); in = toarr(mine); vector<T> want = d.data<T>(from, l[from]); Box bx(me, d.data<T>(me, 1, 6)[0]), by(me, 0); T &x = bx.v, &y = by.v; vector<T> w1 = d.data<T>(from, 1, 6);
      if (op == 11) { out.allocAndFill(l[from], (T)5); m.sendrecv(in, p[me], out, from); if (l[from]) eq(&out[0], want, "sendrecv"); if (l[me]) eq(&in[0], mine, "sendrecv's input"); m.sendrecv(x, p[me], y, from); eq(&y, w1, "sendrecv of one"); }
      else { m.sendrecv_replace(in, p[me], from); if (len) eq(&in[0], want, "sendrecv_replace"); m.sendrecv_replace(x, p[me], from); eq(&x, w1, "sendrecv_replace of one"); } box(bx, "sendrecv"); box(by, "sendrecv"); return; }
    case 13: { // refused on every process alike, without communication or after it
      T x[8] = {0}; int one[1] = {0}; int which = (int)g.below(7); bool t = true; const char *what = ""; NDT bad[] = {NAT_STRING, NAT_BOOL}; NDT bt = bad[g.below(2)];
      switch (which) {
        case 0: what = "identical buffers in allreduce"; t = throws([&] { m.allreduceRaw(x, x, 1, MPI_Manager::Max); }); break;
        case 1: what = "identical buffers in allgather"; t = throws([&] { m.allgatherRaw(x, x, 1); }); break;
        case 2: if (n > 1) { what = "a number of elements the processes do not divide"; arr<T> a(n + 1), b; for (int i = 0; i <= n; ++i) a[i] = 0; t = throws([&] { m.all2all(a, b); }); } break;
        case 3: { what = "a wrong number of elements"; arr<int> k(n), o; int tot = 0; for (int i = 0; i < n; ++i) tot += k[i] = (int)g.below(4); arr<T> a(tot + 1), b; for (int i = 0; i <= tot; ++i) a[i] = 0; t = throws([&] { m.all2allv_easy(a, k, b, o); }); break; }
        case 4: { what = "a wrong number of counts"; arr<int> k(n + 1), o; for (int i = 0; i <= n; ++i) k[i] = 0; arr<T> a, b; t = throws([&] { m.all2allv_easy(a, k, b, o); }); break; }
        case 5: what = "an element type that cannot be sent"; t = throws([&] { m.bcastRawVoid(x, bt, 1, 0); }); break;
        case 6: what = "identical buffers in all2allv"; t = throws([&] { vector<int> z(n); m.all2allvRaw(x, &z[0], &z[0], x, &z[0], &z[0]); }); break;
      }
      (void)one; if (!t) w.die(fmt("%s: accepted", what)); return; }
    case 14: { i64 lo0 = (i64)g.range(-50, 50), cnt = g.coin(.2) ? (i64)g.below(4) : (i64)g.below(1000); i64 lo, hi; m.calcShare(lo0, lo0 + cnt, lo, hi); long mineb[2] = {(long)lo, (long)hi}; vector<long> all(2 * n); MPI_Allgather(mineb, 2, MPI_LONG, &all[0], 2, MPI_LONG, w.comm); for (int r = 0; r < n; ++r) { if (all[2 * r] != (r ? all[2 * r - 1] : lo0) || all[2 * r + 1] < all[2 * r] || all[2 * r + 1] - all[2 * r] > cnt / n + 1 || all[2 * r + 1] - all[2 * r] < cnt / n) w.die("the shares do not divide the range evenly"); } if (all[2 * n - 1] != lo0 + cnt) w.die("the shares miss the end of the range"); return; }
  }
}
template <class T, bool red = true> void dispatch(World &w, const MPI_Manager &m, int op, vp::Ctx &c) { operation<T, red>(w, m, op, c); }
} // namespace

VP_PROP(communication) {
  World w(c); MPI_Manager m(w.comm); c.check(m.num_ranks() == w.n && m.rank() == w.me && m.master() == (w.me == 0) && m.comm() == w.comm, "rank or size is wrong"); int steps = (int)c.range(1, c.big ? 30 : 12);
  double t0 = m.Wtime();
  try {
    for (int i = 0; i < steps; ++i) {
      int op = (int)c.below(15);
      switch (c.below(10)) {
        case 0: dispatch<char, false>(w, m, op, c); break; case 1: dispatch<int>(w, m, op, c); break; case 2: dispatch<unsigned>(w, m, op, c); break; case 3: dispatch<long>(w, m, op, c); break;
        case 4: dispatch<unsigned long>(w, m, op, c); break; case 5: dispatch<long long>(w, m, op, c); break; case 6: dispatch<unsigned long long>(w, m, op, c); break; case 7: dispatch<float>(w, m, op, c); break;
        case 8: dispatch<double>(w, m, op, c); break; default: dispatch<long double>(w, m, op, c);
      }
      if (c.coin(1, 6)) { w.hist += "barrier "; m.barrier(); }
    }
    // a barrier lets nobody pass before all have arrived: clocks of one machine
    if (c.coin(1, 4)) { w.jitter(); auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }; double in = now(), last; m.barrier(); double outt = now(); MPI_Allreduce(&in, &last, 1, MPI_DOUBLE, MPI_MAX, w.comm); if (outt < last - 1e-5) w.die("a process left the barrier before another entered it"); }
  } catch (LEVELSError &e) { w.die(string("refused: ") + e.what()); }
  if (m.Wtime() < t0) c.soft("the clock runs backwards");
  c.note("history", w.hist); c.nontrivial(w.n > 1 || w.ws == 1);
}
VP_MAIN
