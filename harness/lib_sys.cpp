// L18 L20 L21: packed arithmetic, C memory helpers and process services, type tables and error reports.
#include "vp.hpp"
#include <climits>
#include <malloc.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <omp.h>
#include "ls_datatypes.h"
#include "ls_error_handling.h"
#include "ls_openmp_support.h"
#include "ls_sse_utils_cxx.h"
#include "sse_utils.h"
#include "c_utils.h"
#include "memusage.h"
#include "walltime_c.h"
using vp::fmt; using vp::u64; using vp::i64;
using std::string; using std::vector;

namespace {
typedef uint32_t u32;
template <class T, class B> B bits_(T x) { B b; memcpy(&b, &x, sizeof b); return b; }
u64 bits(double x) { return bits_<double, u64>(x); }
u32 bits(float x) { return bits_<float, u32>(x); }
u32 bits(int x) { return (u32)x; }
bool eq(double a, double b) { return bits(a) == bits(b) || (std::isnan(a) && std::isnan(b)); }
bool eq(float a, float b) { return bits(a) == bits(b) || (std::isnan(a) && std::isnan(b)); }
bool eq(int a, int b) { return a == b; }

template <class T> T gen_fp(vp::Ctx &c) {
  typedef std::numeric_limits<T> L; typedef typename std::conditional<sizeof(T) == 8, u64, u32>::type B; T v;
  switch (c.below(8)) {
    case 0: v = (T)c.range(-3, 3); break;
    case 1: v = (T)c.range(-1000000, 1000000) / 8; break;
    case 2: { B b = (B)c.below(0); memcpy(&v, &b, sizeof v); break; } // any bit pattern
    case 3: v = L::denorm_min() * (T)c.range(-9, 9); break;
    case 4: v = c.coin() ? L::infinity() : -L::infinity(); break;
    case 5: v = c.coin() ? (T)0 : -(T)0; break;
    case 6: v = c.coin() ? L::max() : -L::max(); break;
    default: v = (T)c.real(-10, 10); break;
  }
  return v;
}
int gen_i(vp::Ctx &c) {
  switch (c.below(5)) { case 0: return (int)c.range(-3, 3); case 1: return INT_MAX - (int)c.below(3); case 2: return INT_MIN + (int)c.below(3); case 3: return (int)c.range(-1000000, 1000000); default: return (int)(u32)c.below(1ULL << 32); }
}
template <class V, class T, int N, class Mask> void packed_fp(vp::Ctx &c, const char *name) {
  T a[N], b[N], r[N], w[N]; for (int i = 0; i < N; ++i) a[i] = gen_fp<T>(c); for (int i = 0; i < N; ++i) b[i] = c.coin(1, 5) ? a[i] : gen_fp<T>(c);
  string d; for (int i = 0; i < N; ++i) d += fmt("(%.9g, %.9g) ", (double)a[i], (double)b[i]); c.note("type", name).note("elements", d);
  V A, B; A.readFrom(a); B.readFrom(b); bool diff = false; for (int i = 1; i < N; ++i) diff |= !eq(a[i], a[0]); c.nontrivial(diff);
  auto take = [&](const V &x) { if (c.coin()) x.writeTo(r); else for (int i = 0; i < N; ++i) r[i] = x[i]; };
  auto cmp = [&](const char *what, const V &x) { take(x); for (int i = 0; i < N; ++i) if (!eq(r[i], w[i])) c.fail(fmt("%s, element %d: %.17g (bits %llx), expected %.17g", what, i, (double)r[i], (unsigned long long)bits(r[i]), (double)w[i])); };
  auto cmpm = [&](const char *what, const V &x, const bool *m) { // a mask: all bits set or none
    x.writeTo(r); for (int i = 0; i < N; ++i) { Mask z = bits(r[i]); if (z != (m[i] ? (Mask)~(Mask)0 : (Mask)0)) c.fail(fmt("%s, element %d: mask %llx, expected %s", what, i, (unsigned long long)z, m[i] ? "all ones" : "zero")); } };
  V X; int op = (int)c.below(14); static const char *names[] = {"+", "-", "*", "/", "copy", "negation/abs/sqrt", "min/max", "comparison", "blend/any/all/none", "bitwise", "set", "scalar", "constructors", "compound chain"}; c.cls(string(name) + " " + names[op]); c.note("op", names[op]);
  auto ar = [&](int k, T x, T y) -> T { volatile T p = x, q = y; return k == 0 ? p + q : k == 1 ? p - q : k == 2 ? p * q : p / q; };
  if (op < 4) {
    for (int i = 0; i < N; ++i) w[i] = ar(op, a[i], b[i]);
    X = op == 0 ? A + B : op == 1 ? A - B : op == 2 ? A * B : A / B; cmp(names[op], X);
    X = A; const V &y = op == 0 ? X += B : op == 1 ? X -= B : op == 2 ? X *= B : X /= B; if (&y != &X) c.fail("a compound assignment does not return its left side"); cmp("compound form", X);
  } else if (op == 4) { V Y(A), Z; Z = A; for (int i = 0; i < N; ++i) w[i] = a[i]; cmp("copy", Y); cmp("assignment", Z); cmp("conversion from the raw vector", V(A.v)); cmp("original", A); }
  else if (op == 5) {
    for (int i = 0; i < N; ++i) { w[i] = -a[i]; } if (true) { take(-A); for (int i = 0; i < N; ++i) if (!eq(r[i], w[i]) || (!std::isnan(a[i]) && std::signbit(r[i]) == std::signbit(a[i]))) c.fail(fmt("negation, element %d: %.17g", i, (double)r[i])); }
    for (int i = 0; i < N; ++i) w[i] = std::fabs(a[i]); cmp("abs", abs(A)); for (int i = 0; i < N; ++i) { volatile T q = a[i]; w[i] = std::sqrt((T)q); } cmp("sqrt", sqrt(A));
  } else if (op == 6) {
    if constexpr (N == 4) {
      for (int i = 0; i < N; ++i) { if (std::isnan(a[i])) a[i] = 1; if (std::isnan(b[i])) b[i] = -1; } A.readFrom(a); B.readFrom(b); min(A, B).writeTo(r); for (int i = 0; i < N; ++i) if (r[i] != std::min(a[i], b[i])) c.fail(fmt("min, element %d: %.9g", i, (double)r[i]));
      max(A, B).writeTo(r); for (int i = 0; i < N; ++i) if (r[i] != std::max(a[i], b[i])) c.fail(fmt("max, element %d: %.9g", i, (double)r[i]));
    }
  } else if (op == 7) {
    bool m[6][N]; for (int i = 0; i < N; ++i) { m[0][i] = a[i] == b[i]; m[1][i] = a[i] != b[i]; m[2][i] = a[i] < b[i]; m[3][i] = a[i] <= b[i]; m[4][i] = a[i] > b[i]; m[5][i] = a[i] >= b[i]; }
    cmpm("eq", A.eq(B), m[0]); cmpm("neq", A.neq(B), m[1]); cmpm("lt", A.lt(B), m[2]); cmpm("le", A.le(B), m[3]); cmpm("gt", A.gt(B), m[4]); cmpm("ge", A.ge(B), m[5]);
  } else if (op == 8) {
    V M = A.lt(B); int n = 0; for (int i = 0; i < N; ++i) { w[i] = a[i] < b[i] ? a[i] : b[i]; n += a[i] < b[i]; } M = A.lt(B); V Bl = blend(M, A, B); Bl.writeTo(r);
    for (int i = 0; i < N; ++i) if (bits(r[i]) != bits(w[i])) c.fail(fmt("blend, element %d: %.9g", i, (double)r[i]));
    if (any(M) != (n > 0) || all(M) != (n == N) || none(M) != (n == 0)) c.fail(fmt("any/all/none of a mask with %d of %d elements: %d %d %d", n, N, any(M), all(M), none(M)));
  } else if (op == 9) {
    int k = (int)c.below(4); for (int i = 0; i < N; ++i) { Mask x = bits(a[i]), y = bits(b[i]), z = k == 0 ? x & y : k == 1 ? x | y : k == 2 ? x ^ y : (Mask)(~x) & y; memcpy(&w[i], &z, sizeof z); }
    auto raw = [&](const char *s, const V &x) { x.writeTo(r); for (int i = 0; i < N; ++i) if (bits(r[i]) != bits(w[i])) c.fail(fmt("%s, element %d: bits %llx, expected %llx", s, i, (unsigned long long)bits(r[i]), (unsigned long long)bits(w[i]))); };
    if (k == 3) { if constexpr (N == 4) raw("andnot", A.andnot(B)); } else { raw("bitwise", k == 0 ? A & B : k == 1 ? A | B : A ^ B); X = A; if (k == 0) X &= B; else if (k == 1) X |= B; else X ^= B; raw("bitwise compound", X); }
  } else if (op == 10) { int p = (int)c.below(N); X = A; X.set(p, b[0]); for (int i = 0; i < N; ++i) w[i] = i == p ? b[0] : a[i]; cmp("set", X); }
  else if (op == 11) { X = a[0]; for (int i = 0; i < N; ++i) w[i] = a[0]; cmp("assignment of a scalar", X); V Y(a[0]); cmp("construction from a scalar", Y); for (int i = 0; i < N; ++i) w[i] = ar(2, b[i], a[0]); cmp("product with a scalar", B * a[0]); }
  else if (op == 12) {
    for (int i = 0; i < N; ++i) w[i] = a[i];
    if constexpr (N == 4) { V Y(a[0], a[1], a[2], a[3]), Z; Z.readFrom(a[0], a[1], a[2], a[3]); cmp("construction from elements", Y); cmp("readFrom elements", Z); T e[4]; A.writeTo(e[0], e[1], e[2], e[3]); for (int i = 0; i < N; ++i) if (!eq(e[i], a[i])) c.fail("writeTo four elements differs"); }
    else { V Y(a[0], a[1]), Z; Z.readFrom(a[0], a[1]); cmp("construction from elements", Y); cmp("readFrom elements", Z); T e[2]; A.writeTo(e[0], e[1]); for (int i = 0; i < N; ++i) if (!eq(e[i], a[i])) c.fail("writeTo two elements differs"); }
    // unaligned memory
    alignas(16) char buf[64]; T *q = (T *)(buf + sizeof(T)); memcpy(q, a, sizeof a); X.readFrom(q); cmp("readFrom of unaligned memory", X); memset(buf, 0, sizeof buf); A.writeTo(q); if (memcmp(q, a, sizeof a)) { for (int i = 0; i < N; ++i) if (!eq(q[i], a[i])) c.fail("writeTo unaligned memory differs"); }
    for (size_t i = 0; i < sizeof buf; ++i) if ((i < sizeof(T) || i >= sizeof(T) + sizeof a) && buf[i]) c.fail("writeTo writes outside its elements");
  } else { X = A; int n = (int)c.below(6) + 2; for (int i = 0; i < N; ++i) w[i] = a[i]; for (int k = 0; k < n; ++k) { int o = (int)c.below(3); for (int i = 0; i < N; ++i) w[i] = ar(o, w[i], b[i]); if (o == 0) X += B; else if (o == 1) X -= B; else X *= B; } cmp("chain", X); }
}
} // namespace

VP_PROP(packed_float) { if (c.coin()) packed_fp<levels::V4sf, float, 4, u32>(c, "V4sf"); else packed_fp<levels::V2df, double, 2, u64>(c, "V2df"); }

VP_PROP(packed_int) {
  using levels::V4si; using levels::V4sf; using levels::V2df; int a[4], b[4], w[4]; for (int i = 0; i < 4; ++i) a[i] = gen_i(c); for (int i = 0; i < 4; ++i) b[i] = c.coin(1, 5) ? a[i] : gen_i(c);
  c.note("a", fmt("%d %d %d %d", a[0], a[1], a[2], a[3])).note("b", fmt("%d %d %d %d", b[0], b[1], b[2], b[3])); c.nontrivial(a[0] != a[1] || a[1] != a[2] || a[2] != a[3]);
  V4si A(a[0], a[1], a[2], a[3]), B(b[0], b[1], b[2], b[3]), X; int op = (int)c.below(9);
  static const char *names[] = {"+ -", "bitwise", "shifts", "comparison", "set/scalar/copy", "float from int", "int from float", "bit casts", "C helpers"}; c.cls(names[op]); c.note("op", names[op]);
  auto cmp = [&](const char *s, const V4si &x) { for (int i = 0; i < 4; ++i) if (x[i] != w[i]) c.fail(fmt("%s, element %d: %d, expected %d", s, i, x[i], w[i])); };
#define EACH(e) for (int i = 0; i < 4; ++i) w[i] = (int)(e)
  if (op == 0) { EACH((u32)a[i] + (u32)b[i]); cmp("+", A + B); X = A; X += B; cmp("+=", X); EACH((u32)a[i] - (u32)b[i]); cmp("-", A - B); X = A; X -= B; cmp("-=", X); }
  else if (op == 1) { EACH(a[i] & b[i]); cmp("&", A & B); X = A; X &= B; cmp("&=", X); EACH(a[i] | b[i]); cmp("|", A | B); X = A; X |= B; cmp("|=", X); EACH(a[i] ^ b[i]); cmp("^", A ^ B); X = A; X ^= B; cmp("^=", X); EACH(~a[i] & b[i]); cmp("andnot", A.andnot(B)); }
  else if (op == 2) { int s = (int)c.below(32); c.note("shift", s); EACH((u32)a[i] << s); cmp("<<", A << s); X = A; X <<= s; cmp("<<=", X); EACH((i64)a[i] >> s); cmp(">>", A >> s); X = A; X >>= s; cmp(">>=", X); }
  else if (op == 3) { EACH(a[i] == b[i] ? -1 : 0); cmp("eq", A.eq(B)); EACH(a[i] > b[i] ? -1 : 0); cmp("gt", A.gt(B)); EACH(a[i] < b[i] ? -1 : 0); cmp("lt", A.lt(B)); }
  else if (op == 4) { int p = (int)c.below(4); X = A; X.set(p, b[0]); EACH(i == p ? b[0] : a[i]); cmp("set", X); V4si Y(a[1]); EACH(a[1]); cmp("scalar", Y); Y = b[2]; EACH(b[2]); cmp("assigned scalar", Y); V4si Z(A); EACH(a[i]); cmp("copy", Z); X = A; cmp("assignment", X); cmp("raw", V4si(A.v)); }
  else if (op == 5) { V4sf f(A); for (int i = 0; i < 4; ++i) if (f[i] != (float)a[i]) c.fail(fmt("float of %d is %.9g", a[i], f[i])); V2df g(A); for (int i = 0; i < 2; ++i) if (g[i] != (double)a[i]) c.fail(fmt("double of %d is %.17g", a[i], g[i])); }
  else if (op == 6) { // to the nearest integer
    float f[4]; double g[2]; for (auto &x : f) x = c.coin() ? (float)c.range(-16777216, 16777216) : (float)c.real(-3e6, 3e6); for (auto &x : g) x = c.coin() ? (double)c.range(INT_MIN, INT_MAX) : c.real(-2147483647., 2147483646.);
    V4sf F; F.readFrom(f); V4si I = F; for (int i = 0; i < 4; ++i) if (std::fabs((double)I[i] - (double)f[i]) > .5) c.fail(fmt("%.9g becomes %d", f[i], I[i])); V2df H; H.readFrom(g); V4si J = H; for (int i = 0; i < 2; ++i) if (std::fabs(J[i] - g[i]) > .5) c.fail(fmt("%.17g becomes %d", g[i], J[i]));
  } else if (op == 7) { V4sf f = levels::vcast<V4sf>(A); for (int i = 0; i < 4; ++i) { float e = f[i]; float t; memcpy(&t, &a[i], 4); if (bits(e) != bits(t) && !(std::isnan(e) && std::isnan(t))) c.fail("vcast to floats changes bits"); } V4si back = levels::vcast<V4si>(f); EACH(a[i]); cmp("vcast back", back); V2df g = levels::vcast<V2df>(A); double t[2]; g.writeTo(t); if (memcmp(t, a, 16)) c.fail("vcast to doubles changes bits"); }
  else {
    float f[4], q[4]; for (auto &x : f) x = gen_fp<float>(c); float *p[4]; for (int i = 0; i < 4; ++i) { q[i] = 77; p[i] = c.coin(1, 4) ? nullptr : &q[i]; } read_v4sf(build_v4sf(f[0], f[1], f[2], f[3]), p[0], p[1], p[2], p[3]);
    for (int i = 0; i < 4; ++i) if (p[i] ? !eq(q[i], f[i]) : q[i] != 77) c.fail(fmt("build_v4sf/read_v4sf, element %d", i));
    double u[2], v[2], x, y; for (auto &e : u) do e = gen_fp<double>(c); while (std::isnan(e)); for (auto &e : v) do e = c.coin(1, 4) ? std::fabs(u[&e - v]) : gen_fp<double>(c); while (std::isnan(e));
    v2df U = build_v2df(u[0], u[1]), V = build_v2df(v[0], v[1]); read_v2df(U, &x, &y); if (!eq(x, u[0]) || !eq(y, u[1])) c.fail("build_v2df/read_v2df");
    bool g0 = std::fabs(u[0]) > v[0], g1 = std::fabs(u[1]) > v[1], e0 = std::fabs(u[0]) >= v[0], e1 = std::fabs(u[1]) >= v[1];
    if ((v2df_any_gt(U, V) != 0) != (g0 || g1)) c.fail(fmt("v2df_any_gt of (%.9g, %.9g), (%.9g, %.9g)", u[0], u[1], v[0], v[1])); if ((v2df_all_ge(U, V) != 0) != (e0 && e1)) c.fail(fmt("v2df_all_ge of (%.9g, %.9g), (%.9g, %.9g)", u[0], u[1], v[0], v[1]));
    V2DF W = to_V2DF(U); if (!eq(W.d[0], u[0]) || !eq(W.d[1], u[1])) c.fail("to_V2DF"); v2df2 t2; t2.a = U; t2.b = V; V2DF2 T2 = to_V2DF2(t2); if (!eq(T2.a.d[1], u[1]) || !eq(T2.b.d[0], v[0]) || !eq(T2.b.d[1], v[1])) c.fail("to_V2DF2");
    v2df2 t3 = to_v2df2(T2); read_v2df(t3.b, &x, &y); if (!eq(x, v[0]) || !eq(y, v[1])) c.fail("to_v2df2"); v2df2 z = zero_v2df2(); read_v2df(z.a, &x, &y); if (bits(x) || bits(y)) c.fail("zero_v2df2"); read_v2df(z.b, &x, &y); if (bits(x) || bits(y)) c.fail("zero_v2df2");
  }
}

// ------------------------------------------------------------------ L20
namespace {
struct Block { unsigned char *p; size_t n; u64 tag; int kind; size_t d1, d2; };
unsigned char pat(u64 tag, size_t i) { return (unsigned char)(tag * 31 + i * 7 + (i >> 8)); }
struct Child { int status; string out, err; };
template <class F> Child in_child(const string &dir, F f) {
  Child r; string o = dir + "/child.out", e = dir + "/child.err"; fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) { int a = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), b = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(a, 1); dup2(b, 2); signal(SIGALRM, SIG_DFL); alarm(60); f(); fflush(stdout); fflush(stderr); _exit(42); }
  int st = 0; waitpid(p, &st, 0); r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  auto slurp = [](const string &n) { string s; FILE *h = fopen(n.c_str(), "r"); if (h) { int ch; while ((ch = fgetc(h)) != EOF) s += (char)ch; fclose(h); } unlink(n.c_str()); return s; };
  r.out = slurp(o); r.err = slurp(e); return r;
}
bool has(const string &s, const string &t) { return s.find(t) != string::npos; }
string gen_name(vp::Ctx &c, int n) { string s; int k = (int)c.below(n); for (int i = 0; i < k; ++i) s += "abz XYZ_%d\\.-"[c.below(13)]; return s; }
} // namespace
VP_PROP(memory_helpers) {
  vector<Block> v; int n = (int)c.skew(1, c.big ? 60 : 25); std::ostringstream h; u64 tag = 0; bool many = false;
  auto good = [&](const Block &b) { for (size_t i = 0; i < b.n; ++i) if (b.p[i] != pat(b.tag, i)) c.fail(fmt("byte %zu of a block of %zu has changed after", i, b.n) + h.str()); };
  auto fillb = [&](Block &b) { b.tag = ++tag; for (size_t i = 0; i < b.n; ++i) b.p[i] = pat(b.tag, i); };
  auto size = [&]() -> size_t { switch (c.below(5)) { case 0: return c.below(4); case 1: return c.below(100); case 2: return 4096 * (1 + c.below(4)) - c.below(200); case 3: return 4096 * (1 + c.below(4)) + c.below(100); default: return c.below(c.big ? 300000 : 40000); } };
  auto fresh = [&](Block &b) {
    if (b.n == 0) { if (b.p) c.fail("an empty allocation is not NULL"); return; }
    if (!b.p) c.fail("allocation returned NULL"); if ((size_t)b.p % 16) c.fail(fmt("block of %zu bytes at %p is not aligned", b.n, (void *)b.p)); if (malloc_usable_size(b.p) < b.n) c.fail(fmt("block of %zu bytes has only %zu", b.n, malloc_usable_size(b.p)));
    for (auto &q : v) if (q.n && q.p < b.p + b.n && b.p < q.p + q.n) c.fail("two blocks overlap"); fillb(b);
  };
  for (int k = 0; k < n; ++k) {
    int op = (int)c.below(9);
    if (op <= 2 || v.empty()) { // allocate
      Block b; size_t m = size(); b.kind = 0; b.d1 = b.d2 = 0; int t = (int)c.below(4); h << " alloc" << t << "(" << m << ")";
      if (t == 0) { b.n = m; b.p = (unsigned char *)util_malloc_(m); } else if (t == 1) { double *p; ALLOC(p, double, m / 8); b.n = m / 8 * 8; b.p = (unsigned char *)p; } else if (t == 2) { b.p = (unsigned char *)RALLOC(short, m / 2 + 1 - 1); b.n = m / 2 * 2; } else { b.p = (unsigned char *)RALLOC(char, m); b.n = m; }
      fresh(b); v.push_back(b); many |= v.size() > 2;
    } else if (op == 3) { size_t i = c.below(v.size()); good(v[i]); h << " free" << i; if (c.coin()) util_free_(v[i].p); else { unsigned char *p = v[i].p; DEALLOC(p); if (p) c.fail("DEALLOC leaves the pointer"); } v.erase(v.begin() + i); }
    else if (op == 4) { size_t i = c.below(v.size()); good(v[i]); Block b = v[i]; v.erase(v.begin() + i); size_t m = size(); h << " resize" << i << "(" << b.n << "," << m << ")"; unsigned char *p = b.p; RESIZE(p, unsigned char, m); b.p = p; b.n = m; fresh(b); v.push_back(b); }
    else if (op == 5) { // grow: only when needed, to twice what is asked for
      size_t i = c.below(v.size()); good(v[i]); Block b = v[i]; v.erase(v.begin() + i); size_t have = b.n, want = c.coin() ? c.below(b.n + 1) : b.n + c.below(5000), extra = c.below(3); unsigned char *p = b.p; h << " grow" << i << "(" << have << "," << want << "+" << extra << ")";
      size_t old = have; GROW(p, unsigned char, have, want + extra); b.p = p; b.n = have; if (want + extra <= old) { if (have != old) c.fail("GROW without need changes the size"); good(b); if (b.n && p != b.p) c.fail("GROW without need moves"); v.push_back(b); } else { if (have < want + extra) c.fail(fmt("GROW to %zu gives %zu", want + extra, have)); fresh(b); v.push_back(b); }
    } else if (op == 6) { // two-dimensional
      size_t d1 = 1 + c.below(12), d2 = c.below(40); h << " alloc2d(" << d1 << "," << d2 << ")"; int **p; ALLOC2D(p, int, d1, d2); if (!p) c.fail("ALLOC2D returned NULL");
      for (size_t i = 0; i < d1; ++i) if (p[i] != p[0] + i * d2) c.fail(fmt("row %zu of ALLOC2D is misplaced", i)); for (size_t i = 0; i < d1; ++i) for (size_t j = 0; j < d2; ++j) p[i][j] = (int)(i * 1000 + j); if (d2 && (malloc_usable_size(p[0]) < d1 * d2 * sizeof(int) || malloc_usable_size(p) < d1 * sizeof(int *))) c.fail("ALLOC2D allocates too little");
      for (size_t i = 0; i < d1; ++i) for (size_t j = 0; j < d2; ++j) if (p[i][j] != (int)(i * 1000 + j)) c.fail("elements of ALLOC2D overlap"); for (auto &q : v) good(q); DEALLOC2D(p); if (p) c.fail("DEALLOC2D leaves the pointer");
    } else if (op == 7) { // SET_ARRAY, COPY_ARRAY, SWAP, IMAX, IMIN, FAPPROX
      int m = (int)c.below(30) + 1, i1 = (int)c.below(m + 1), i2 = (int)c.below(m + 1); vector<int> a(m), b(m), ra, rb; for (int i = 0; i < m; ++i) { a[i] = i; b[i] = 100 + i; } ra = a; rb = b; int val = (int)c.range(-5, 5); h << " arrays";
      for (int i = i1; i < i2; ++i) ra[i] = val; SET_ARRAY(a.data(), i1, i2, val); if (a != ra) c.fail(fmt("SET_ARRAY(%d, %d) of %d", i1, i2, m)); for (int i = i1; i < i2; ++i) rb[i] = ra[i]; COPY_ARRAY(a.data(), b.data(), i1, i2); if (b != rb || a != ra) c.fail(fmt("COPY_ARRAY(%d, %d) of %d", i1, i2, m));
      int x = (int)c.range(-3, 3), y = (int)c.range(-3, 3), p = x, q = y; if (IMAX(x, y) != std::max(x, y) || IMIN(x, y) != std::min(x, y)) c.fail("IMAX / IMIN"); SWAP(p, q, int); if (p != y || q != x) c.fail("SWAP"); double u = c.real(-2, 2), w = c.coin() ? u * (1 + c.real(-2e-3, 2e-3)) : c.real(-2, 2); if (FAPPROX(u, w, 1e-3) != (fabs(u - w) < 1e-3 * fabs(w)) || ABSAPPROX(u, w, 1e-3) != (fabs(u - w) < 1e-3)) c.fail("FAPPROX / ABSAPPROX");
    } else if (c.coin(1, 12)) { // failures end the process with an error and say where
      int t = (int)c.below(6); string msg = gen_name(c, 30), nm = gen_name(c, 12); int ac = (int)c.below(4), ex = (int)c.below(4); bool vb = c.coin(); h << " failing" << t; c.cls(fmt("reports, kind %d", t));
      Child r = in_child(c.dir, [&] {
        if (t == 0) { UTIL_ASSERT(ac == ex, msg.c_str()); } else if (t == 1) { UTIL_FAIL(msg.c_str()); } else if (t == 2) { UTIL_WARN(ac == ex, msg.c_str()); } else if (t == 3) module_startup_c(nm.c_str(), ac, ex, msg.c_str(), vb); else if (t == 4) { void *p = util_malloc_((size_t)1 << 60); printf("%p", p); } else announce_c(nm.c_str()); });
      bool fails = t == 1 || t == 4 || ((t == 0 || t == 3) && ac != ex); if (fails ? r.status == 42 || r.status == 0 || r.status > 255 : r.status != 42) c.fail(fmt("kind %d ended with %d", t, r.status) + h.str());
      if (fails && t != 3 && t != 4 && !(has(r.err, msg) && has(r.err, "lib_sys.cpp"))) c.fail("the report lacks the message or the file: " + r.err); if (t == 2 && (ac != ex) != (has(r.err, "lib_sys.cpp") && has(r.err, msg))) c.fail("warning: " + r.err);
      if (t == 3 && fails && vb != (has(r.err, msg) && has(r.err, "Usage"))) c.fail("usage: " + r.err); if (t == 5 && !has(r.out, nm)) c.fail("announcement: " + r.out); if (t == 3 && !fails && vb && !has(r.out, nm)) c.fail("announcement: " + r.out);
      if (t == 5 && nm.size()) { string bar(nm.size(), '-'); if (!has(r.out, "+-" + bar + "-+\n| " + nm + " |\n+-" + bar + "-+\n")) c.fail("the box of the announcement is off: " + r.out); }
    }
  }
  for (auto &b : v) { good(b); util_free_(b.p); } c.note("ops", h.str()); c.nontrivial(many);
}

// ------------------------------------------------------------------ L21
namespace {
using namespace levels;
struct TypeRow { PDT t; const char *name; size_t size; };
const TypeRow TYPES[] = {{LEVELS_INT8, "INT8", 1}, {LEVELS_UINT8, "UINT8", 1}, {LEVELS_INT16, "INT16", 2}, {LEVELS_UINT16, "UINT16", 2}, {LEVELS_INT32, "INT32", 4}, {LEVELS_UINT32, "UINT32", 4}, {LEVELS_INT64, "INT64", 8}, {LEVELS_UINT64, "UINT64", 8}, {LEVELS_FLOAT32, "FLOAT32", 4}, {LEVELS_FLOAT64, "FLOAT64", 8}, {LEVELS_BOOL, "BOOL", 1}, {LEVELS_STRING, "STRING", 1}};
template <class T> void nat(vp::Ctx &c, const char *name, bool sized = true) {
  if (string(type2typename<T>()) != name) c.fail(string("type2typename of ") + name + " is " + type2typename<T>()); if (sized && ndt2size(nativeType<T>()) != (int)sizeof(T)) c.fail(string("ndt2size of ") + name);
}
template <class T> void pdt(vp::Ctx &c, PDT want, bool sized = true) { if (planckType<T>() != want) c.fail(fmt("planckType gives %d, expected %d", (int)planckType<T>(), (int)want)); if (sized && type2size(planckType<T>()) != (int)sizeof(T)) c.fail(fmt("type2size of type %d is %d", (int)want, type2size(want))); }
struct Quiet { int fd; Quiet() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { fflush(stderr); dup2(fd, 2); close(fd); } };
template <class F> bool refused(F f) { Quiet q; try { f(); } catch (LEVELSError &) { return true; } return false; }
} // namespace
VP_PROP(type_tables) {
  int k = (int)c.below(6); c.cls(fmt("kind %d", k)); c.nontrivial();
  if (k == 0) { const TypeRow &r = TYPES[c.below(12)]; c.note("type", r.name); if (type2size(r.t) != (int)r.size) c.fail(fmt("type2size is %d", type2size(r.t))); if (string(type2string(r.t)) != r.name) c.fail(string("type2string is ") + type2string(r.t)); if (string2type(r.name) != r.t) c.fail("string2type differs"); }
  else if (k == 1) { // a name changed a little is refused
    string s = TYPES[c.below(12)].name; int e = (int)c.below(6); if (e == 0) s += (char)c.range(32, 126); else if (e == 1) s.insert(s.begin(), (char)c.range(32, 126)); else if (e == 2) s[c.below(s.size())] ^= 32; else if (e == 3) s.erase(c.below(s.size()), 1); else if (e == 4) s[c.below(s.size())] = (char)c.range(33, 126); else s = s.substr(0, c.below(s.size()));
    bool known = false; for (auto &r : TYPES) known |= s == r.name; c.note("name", s); if (refused([&] { string2type(s); }) == known) c.fail(known ? "a type name is refused" : "an unknown type name is accepted"); 
  } else if (k == 2) { pdt<int8>(c, LEVELS_INT8); pdt<uint8>(c, LEVELS_UINT8); pdt<int16>(c, LEVELS_INT16); pdt<uint16>(c, LEVELS_UINT16); pdt<int32>(c, LEVELS_INT32); pdt<uint32>(c, LEVELS_UINT32); pdt<int64>(c, LEVELS_INT64); pdt<uint64>(c, LEVELS_UINT64); pdt<float32>(c, LEVELS_FLOAT32); pdt<float64>(c, LEVELS_FLOAT64); pdt<bool>(c, LEVELS_BOOL); pdt<string>(c, LEVELS_STRING, false);
    if (!(std::numeric_limits<int8>::is_signed && !std::numeric_limits<uint8>::is_signed && std::numeric_limits<int16>::is_signed && !std::numeric_limits<uint16>::is_signed && std::numeric_limits<int32>::is_signed && !std::numeric_limits<uint32>::is_signed && std::numeric_limits<int64>::is_signed && !std::numeric_limits<uint64>::is_signed)) c.fail("signedness");
    if (sizeof(int8) != 1 || sizeof(int16) != 2 || sizeof(uint16) != 2 || sizeof(int32) != 4 || sizeof(uint32) != 4 || sizeof(int64) != 8 || sizeof(uint64) != 8 || sizeof(float32) != 4 || sizeof(float64) != 8) c.fail("sizes of the types");
  } else if (k == 3) { nat<signed char>(c, "signed char"); nat<unsigned char>(c, "unsigned char"); nat<short>(c, "short"); nat<unsigned short>(c, "unsigned short"); nat<int>(c, "int"); nat<unsigned int>(c, "unsigned int"); nat<long>(c, "long"); nat<unsigned long>(c, "unsigned long"); nat<long long>(c, "long long"); nat<unsigned long long>(c, "unsigned long long"); nat<float>(c, "float"); nat<double>(c, "double"); nat<long double>(c, "long double"); nat<bool>(c, "bool"); nat<string>(c, "std::string", false);
    std::set<int> s = {nativeType<char>(), nativeType<signed char>(), nativeType<unsigned char>(), nativeType<short>(), nativeType<unsigned short>(), nativeType<int>(), nativeType<unsigned int>(), nativeType<long>(), nativeType<unsigned long>(), nativeType<long long>(), nativeType<unsigned long long>(), nativeType<float>(), nativeType<double>(), nativeType<long double>(), nativeType<bool>(), nativeType<string>()}; if (s.size() != 16) c.fail("two native types share a constant");
  } else if (k == 4) { int t = (int)c.range(-40, 40); c.note("constant", t); bool ok = t >= 0 && t <= 11; bool a = refused([&] { type2size((PDT)t); }), b = refused([&] { type2string((PDT)t); }); if (a == ok || b == ok) c.fail("an unknown type constant is accepted, or a known one refused"); int q = (int)c.range(-3, 40); if (refused([&] { ndt2size((NDT)q); }) != (q < 0 || q > NAT_BOOL)) c.fail(fmt("ndt2size(%d)", q)); }
  else { // errors carry their message, report where they come from, and quiet ones report nothing
    string m = gen_name(c, 60); if (c.coin(1, 4)) { string u = gen_name(c, 40) + "."; size_t n = (size_t)c.skew(60, 20000); while (m.size() < n) m += u; m.resize(n); } int kind = (int)c.below(5); bool cond = c.coin(); c.note("kind", kind).note("message", m); bool thrown = false; string what; 
    fflush(stderr); string fn = c.dir + "/err"; int fd = dup(2), n = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(n, 2); close(n);
    try { if (kind == 0) { if (cond) levels_fail(m); else levels_fail(m.c_str()); } else if (kind == 1) levels_fail_quietly(m); else if (kind == 2) levels_assert(cond, m); else if (kind == 3) { if (cond) throw LEVELSError(m); else throw LEVELSError(m.c_str()); } else { LEVELSError e(m); LEVELSError f(e); throw f; } } catch (LEVELSError &e) { thrown = true; what = e.what(); } catch (...) {}
    std::cerr.flush(); fflush(stderr); dup2(fd, 2); close(fd); string txt; { FILE *h = fopen(fn.c_str(), "r"); int ch; while (h && (ch = fgetc(h)) != EOF) txt += (char)ch; if (h) fclose(h); unlink(fn.c_str()); }
    bool want = !(kind == 2 && cond); if (thrown != want) c.fail("an error was lost or invented"); if (want && what != m) c.fail("the message is \"" + what + "\""); bool loud = want && (kind == 0 || kind == 2); if (loud != !txt.empty()) c.fail("diagnostics: \"" + txt + "\""); if (loud && (!has(txt, m) || !has(txt, "lib_sys.cpp"))) c.fail("the report lacks the message or the place: \"" + txt + "\"");
  }
}

// ------------------------------------------------------------------ L20 (process services)
VP_PROP(services) {
  int k = (int)c.below(3); c.cls(fmt("kind %d", k)); c.nontrivial();
  auto own = [&](const char *key) -> double { FILE *f = fopen("/proc/self/status", "r"); char b[512]; double v = -1; size_t n = strlen(key); while (f && fgets(b, sizeof b, f)) if (!strncmp(b, key, n)) v = atof(b + n) * 1024; if (f) fclose(f); return v; };
  if (k == 0) { // memory in use follows what the process touches
    size_t mb = 1 + c.below(24), n = mb << 20; c.note("MB", mb); double r0 = residentSetSize(), s0 = own("VmRSS:"); if (s0 < 0) return; // no such information here
    const double slack = 3e6; // the kernel's counters are updated in batches per thread
    if (fabs(r0 - s0) > slack) c.fail(fmt("residentSetSize says %.0f, the kernel %.0f", r0, s0));
    char *p = (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return; for (size_t i = 0; i < n; i += 4096) p[i] = 1;
    double r1 = residentSetSize(), s1 = own("VmRSS:"), h1 = VmHWM(); if (fabs(r1 - s1) > slack) c.fail(fmt("residentSetSize says %.0f, the kernel %.0f", r1, s1)); if (fabs(h1 - own("VmHWM:")) > slack) c.fail(fmt("VmHWM says %.0f, the kernel %.0f", h1, own("VmHWM:"))); if (h1 + slack < r1) c.fail("the high-water mark lies below the present size");
    munmap(p, n); double h2 = VmHWM(); if (h2 + slack < h1) c.fail("the high-water mark went down");
  } else if (k == 1) { // clock
    struct timespec a, b, d; clock_gettime(CLOCK_MONOTONIC, &a); double t0 = wallTime(); int us = (int)c.below(3000); if (us) usleep(us); double t1 = wallTime(); clock_gettime(CLOCK_MONOTONIC, &b); (void)d; double outer = (b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec); c.note("us", us);
    if (t1 < t0 || t1 - t0 < .98e-6 * us - 2e-6 || t1 - t0 > outer * 1.02 + 2e-6) c.fail(fmt("wallTime advanced by %.9g s over at least %d us and at most %.9g s", t1 - t0, us, outer));
  } else { // threads share any range
    int nt = 1 + (int)c.below(6); i64 lo = c.coin() ? c.range(-1000, 1000) : c.range(-(1LL << 40), 1LL << 40), len = c.coin() ? c.range(0, 20) : c.range(0, 1LL << 40); c.note("threads", nt).note("lo", lo).note("len", len); vector<long> a(nt, -1), b(nt, -2); int got = 0; bool num = true; omp_set_dynamic(0);
    if (!openmp_enabled()) c.fail("OpenMP is off"); omp_set_num_threads(nt); if (openmp_max_threads() != nt) c.fail("openmp_max_threads"); if (openmp_num_threads() != 1 || openmp_thread_num() != 0) c.fail("thread numbers outside a parallel region");
#pragma omp parallel num_threads(nt)
    { int t = omp_get_thread_num(); if (openmp_thread_num() != t || openmp_num_threads() != omp_get_num_threads())
#pragma omp critical
        num = false;
      levels::int64 x, y; openmp_calc_share(lo, lo + len, x, y); a[t] = x; b[t] = y;
#pragma omp critical
      ++got; }
    omp_set_num_threads(1); if (!num) c.fail("thread numbers inside a parallel region"); if (got != nt) return;
    if (a[0] != lo || b[nt - 1] != lo + len) c.fail("the shares do not cover the range"); for (int i = 0; i < nt; ++i) { if (b[i] < a[i] || (i && a[i] != b[i - 1])) c.fail(fmt("share %d is %ld..%ld", i, a[i], b[i])); i64 q = len / nt; if (b[i] - a[i] < q || b[i] - a[i] > q + 1) c.fail(fmt("share %d of %d has %ld of %ld", i, nt, b[i] - a[i], (long)len)); }
  }
}
VP_MAIN
