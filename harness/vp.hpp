// vp.hpp - small property-based testing engine.
//
// A case is a pure function of a vector of choices (as in Hypothesis): the
// property draws bounded integers from a Ctx; in generation mode they come
// from a counter-based PRNG seeded by (VERIF_SEED-derived seed, case number),
// in replay mode from a file.  Exhausted choices read as 0, so deleting or
// zeroing choices shrinks a case.  Under MPI every rank draws the same choices.
#ifndef VP_HPP
#define VP_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iomanip>
#include <functional>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <limits>
#include <complex>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/types.h>
#ifdef VP_MPI
#include <mpi.h>
#endif

namespace vp {

typedef uint64_t u64;
typedef int64_t i64;

inline u64 splitmix(u64 &s) {
  u64 z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline u64 mix2(u64 a, u64 b) { u64 s = a * 0x9e3779b97f4a7c15ULL + b; splitmix(s); return splitmix(s); }

struct Failure { std::string msg; };

// Bulk random data: seeded by one choice.
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed * 0x2545F4914F6CDD1DULL + 99) {}
  u64 next() { return splitmix(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo) + 1); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double gauss() { double a = 0; for (int i = 0; i < 12; ++i) a += unit(); return a - 6; }
  bool coin(double p = .5) { return unit() < p; }
};

class Ctx {
public:
  std::vector<u64> ch; size_t pos = 0; bool replay = false; u64 st = 0;
  std::ostringstream desc; std::map<std::string, long> classes; bool nontriv = false;
  std::string failmsg; FILE *chlog = nullptr; bool big = false; // big: thorough tier sizes
  std::string dir; // scratch directory of this process group
  int rank = 0;

  u64 below(u64 n) { // uniform in [0, n); n = 0 means the whole 64-bit range
    u64 v;
    if (replay) { v = pos < ch.size() ? ch[pos] : 0; if (n && v >= n) v = n - 1; ++pos; }
    else {
      v = splitmix(st); if (n) v %= n;
      ch.push_back(v); ++pos;
    }
    if (chlog) { fprintf(chlog, "%llu\n", (unsigned long long)v); fflush(chlog); }
    return v;
  }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo) + 1); }
  // small values more likely; shrinks to lo
  i64 skew(i64 lo, i64 hi) {
    u64 w = (u64)(hi - lo); int k = (int)below(3);
    if (k == 0) w = std::min<u64>(w, 3); else if (k == 1) w = std::min<u64>(w, std::max<u64>(3, w / 4));
    return lo + (i64)below(w + 1);
  }
  bool coin(int num = 1, int den = 2) { return (int)below(den) >= den - num; } // shrinks to false
  double unit() { return (double)below(1ULL << 53) / 9007199254740992.0; }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  Rng bulk() { return Rng(below(1ULL << 32)); }

  template <class T> Ctx &note(const char *k, const T &v) { desc << k << "=" << v << " "; return *this; }
  void cls(const std::string &c) { ++classes[c]; }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
  // soft failure: records and continues (needed where all ranks must stay in step)
  void soft(const std::string &m) { if (failmsg.empty()) failmsg = m; }
  void check(bool ok, const std::string &m) { if (!ok) throw Failure{m}; }
};

template <class... A> std::string fmt(const char *f, A... a) {
  char b[4096]; snprintf(b, sizeof b, f, a...); return b;
}

struct Prop { std::string name; std::function<void(Ctx &)> f; };
inline std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
struct Reg { Reg(const char *n, std::function<void(Ctx &)> f) { props().push_back({n, f}); } };
#define VP_PROP(name) static void name(vp::Ctx &); static vp::Reg reg_##name(#name, name); static void name(vp::Ctx &c)

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

struct Global { bool crash_only = false; int watchdog = 120; std::string out; int rank = 0; };
inline Global &G() { static Global g; return g; }

inline void on_alarm(int) {
  // async-signal-safe: create marker, leave
  std::string &o = G().out; char b[600]; size_t n = o.size(); if (n > 500) _exit(12);
  memcpy(b, o.c_str(), n); memcpy(b + n, "/hang", 6);
  int fd = open(b, O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd);
  _exit(12);
}

// Entry. Exit codes: 0 all held, 10 property failed, 12 hang (watchdog), 13 usage.
inline int run_main(int argc, char **argv) {
  std::string out = ".", casefile, pname; u64 seed = 1; long cases = 100, first = 0; double maxsec = 1e9; bool big = false;
  int samples = 6;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") out = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--cases") cases = atol(nx().c_str()); else if (a == "--prop") pname = nx();
    else if (a == "--case") casefile = nx(); else if (a == "--watchdog") G().watchdog = atoi(nx().c_str());
    else if (a == "--maxsec") maxsec = atof(nx().c_str()); else if (a == "--big") big = true;
    else if (a == "--crash-only") G().crash_only = true;
    else if (a == "--first") first = atol(nx().c_str());
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 13; }
  }
  int rank = 0, nr = 1;
#ifdef VP_MPI
  int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &prov);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &nr);
#endif
  G().out = out; G().rank = rank;
  signal(SIGALRM, on_alarm);
  std::vector<Prop> ps;
  for (auto &p : props()) if (pname.empty() || p.name == pname) ps.push_back(p);
  if (ps.empty()) { fprintf(stderr, "no such property %s\n", pname.c_str()); return 13; }

  std::vector<u64> given; std::vector<long> idx; bool replay = !casefile.empty();
  if (replay) {
    FILE *f = fopen(casefile.c_str(), "r"); if (!f) { fprintf(stderr, "cannot read %s\n", casefile.c_str()); return 13; }
    bool seedform = false; std::string pn, lines;
    for (int ch; (ch = fgetc(f)) != EOF;) lines += (char)ch;
    std::istringstream ls(lines); std::string lb;
    while (std::getline(ls, lb)) {
      const char *line = lb.c_str();
      if (line[0] == '#') continue;
      if (!strncmp(line, "prop ", 5)) { pn = line + 5; while (!pn.empty() && isspace((unsigned char)pn.back())) pn.pop_back(); }
      else if (!strncmp(line, "big", 3)) big = true;
      else if (!strncmp(line, "seed ", 5)) { // seed S 7 9-12 ...: these cases one after the other in one process
        seedform = true; std::istringstream t(lb.substr(5)); std::string w; t >> seed;
        while (t >> w) { long a = 0, b = 0; int k = sscanf(w.c_str(), "%ld-%ld", &a, &b); if (k == 1) b = a; for (; k && a <= b; ++a) idx.push_back(a); }
      }
      else if (line[0] >= '0' && line[0] <= '9') given.push_back(strtoull(line, 0, 10));
    }
    fclose(f);
    ps.clear(); for (auto &p : props()) if (p.name == pn) ps.push_back(p);
    if (ps.empty()) { fprintf(stderr, "case names unknown property %s\n", pn.c_str()); return 13; }
    if (seedform) { replay = false; first = 0; cases = (long)idx.size(); } else { first = 0; cases = 1; }
  }
  bool single = !casefile.empty();

  std::string cur = out + "/current"; int curfd = -1;
  if (rank == 0 && !single) curfd = open(cur.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  FILE *hf = nullptr; if (rank == 0) hf = fopen((out + "/hashes").c_str(), "wb");
  long evals = 0, nontriv = 0; std::set<u64> seen; std::map<std::string, long> classes; std::vector<std::string> samp;
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  int rc = 0; bool capped = false;
  for (long ii = first; ii < first + cases; ++ii) {
    const long i = idx.empty() ? ii : idx[ii];
    Prop &p = ps[i % (long)ps.size()];
    if (!single) {
      struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
      int stop = (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > maxsec;
#ifdef VP_MPI
      if (nr > 1) MPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
#endif
      if (stop) { capped = true; break; }
    }
    if (curfd >= 0) {
      char b[256]; int n = snprintf(b, sizeof b, "prop %s\n%sseed %llu %ld\n", p.name.c_str(), big ? "big\n" : "", (unsigned long long)seed, i);
      if (pwrite(curfd, b, n, 0) < 0 || ftruncate(curfd, n) < 0) {}
    }
    Ctx c; c.big = big; c.replay = replay; c.ch = given; c.st = mix2(seed, (u64)i); c.dir = out; c.rank = rank;
    if (single && rank == 0) c.chlog = fopen((out + "/choices").c_str(), "w");
    alarm(G().watchdog);
    bool hard = false;
    try { p.f(c); }
    catch (Failure &e) { c.failmsg = e.msg; hard = true; }
    catch (std::exception &e) { c.failmsg = std::string("unexpected exception: ") + e.what(); hard = true; }
    catch (...) { c.failmsg = "unexpected exception (not a std::exception)"; hard = true; }
    if (G().crash_only && !c.failmsg.empty()) { // the oracles belong to other properties
      c.failmsg.clear(); c.cls("oracle failed (not judged here)");
      if (hard && nr > 1) { FILE *f = fopen((out + "/notjudged").c_str(), "w"); if (f) fclose(f); _exit(14); }
    }
    int bad = !c.failmsg.empty();
#ifdef VP_MPI
    if (nr > 1) {
      if (hard) { // other ranks may be inside a collective: do not wait for them
        FILE *f = fopen((out + fmt("/fail.%d", rank)).c_str(), "w");
        if (f) { fprintf(f, "rank %d: %s\n%s\n", rank, c.failmsg.c_str(), c.desc.str().c_str()); fclose(f); }
        _exit(10);
      }
      int any; MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
      if (bad) {
        FILE *f = fopen((out + fmt("/fail.%d", rank)).c_str(), "w");
        if (f) { fprintf(f, "rank %d: %s\n%s\n", rank, c.failmsg.c_str(), c.desc.str().c_str()); fclose(f); }
      }
      MPI_Barrier(MPI_COMM_WORLD);
      bad = any;
    } else
#endif
    if (bad) {
      FILE *f = fopen((out + "/fail.0").c_str(), "w");
      if (f) { fprintf(f, "%s\n%s\n", c.failmsg.c_str(), c.desc.str().c_str()); fclose(f); }
    }
    (void)hard;
    alarm(0);
    if (c.chlog) fclose(c.chlog);
    ++evals;
    if (c.nontriv) {
      u64 h = 1469598103934665603ULL; for (char ch : p.name) h = (h ^ (unsigned char)ch) * 1099511628211ULL;
      for (size_t k = 0; k < c.ch.size(); ++k) h = mix2(h, c.ch[k]);
      if (seen.insert(h).second) { ++nontriv; if (hf) fwrite(&h, 8, 1, hf);
        if ((int)samp.size() < samples && rank == 0) samp.push_back(p.name + ": " + c.desc.str().substr(0, 900)); }
    }
    for (auto &k : c.classes) classes[p.name + "/" + k.first] += k.second;
    if (single && rank == 0) printf("%s\n%s\n", c.desc.str().c_str(), bad ? "FAILED" : "held");
    if (bad) { rc = 10; break; }
  }
  if (hf) fclose(hf);
  if (rank == 0) {
    FILE *f = fopen((out + "/stats.json").c_str(), "w");
    fprintf(f, "{\"evaluations\": %ld, \"nontrivial\": %ld, \"capped\": %s, \"classes\": {", evals, nontriv, capped ? "true" : "false");
    bool fst = true; for (auto &k : classes) { fprintf(f, "%s\"%s\": %ld", fst ? "" : ", ", jesc(k.first).c_str(), k.second); fst = false; }
    fprintf(f, "}, \"samples\": ["); fst = true;
    for (auto &s : samp) { fprintf(f, "%s\"%s\"", fst ? "" : ", ", jesc(s).c_str()); fst = false; }
    fprintf(f, "]}\n"); fclose(f);
  }
#ifdef VP_MPI
  if (rc) { fflush(0); MPI_Barrier(MPI_COMM_WORLD); _exit(rc); }
  MPI_Finalize();
#endif
  return rc;
}
} // namespace vp
#define VP_MAIN int main(int argc, char **argv) { return vp::run_main(argc, argv); }
#endif
