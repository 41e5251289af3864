// L11 L12 L13 L14 L15: support code (text, dates, containers and sorts, small helpers, random numbers) against models.
#include "vp.hpp"
#include <fstream>
#include <memory>
#include <ctime>
#include <quadmath.h>
#include "ls_datatypes.h"
#include "ls_string_utils.h"
#include "ls_arr.h"
#include "ls_math_utils.h"
#include "ls_share_utils.h"
#include "ls_safe_cast.h"
#include "ls_rng.h"
#include "time_utils.h"
namespace conviqt {
void hpsort_DL(levels::arr<double> &ra, levels::arr<long> &brr);
void hpsort_arrTheta(levels::arr<double> &ra);
void hpsort_arrTOD(levels::arr<double> &ra);
void hpsort_arrTime(levels::arr<double> &ra);
void hpsort_DDcm(levels::arr<double> &ra, levels::arr<double> &brr);
}
using vp::fmt; using vp::u64; using vp::i64;
using std::string; using std::vector;
typedef long double ld;

namespace {
// the library writes a message to stderr for each error it throws
struct Hush {
  int fd;
  Hush() { fflush(stderr); fd = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); }
  ~Hush() { fflush(stderr); dup2(fd, 2); close(fd); }
};
template <class F> bool throws(F f) { Hush h; try { f(); } catch (...) { return true; } return false; }

string show(const string &s) { return "\"" + vp::jesc(s) + "\""; }
template <class T> string show(T x) { std::ostringstream o; o << std::setprecision(22) << x; return o.str(); }

// ------------------------------------------------------------------ L11
template <class T> T gen_int(vp::Ctx &c) {
  typedef std::numeric_limits<T> L; u64 w = 0;
  switch (c.below(6)) {
    case 0: w = c.below(20); break;
    case 1: w = (u64)L::max() - c.below(5); break;
    case 2: w = (u64)L::min() + c.below(5); break;
    case 3: w = (u64)0 - c.below(20); break;
    case 4: w = ((u64)1 << c.below(64)) - c.below(3); break;
    default: w = c.below(0); break;
  }
  return (T)w;
}
template <class T> T gen_float(vp::Ctx &c) {
  T v = 0; typedef std::numeric_limits<T> L;
  switch (c.below(8)) {
    case 0: v = (T)(double)c.range(-1000, 1000); break;
    case 1: v = (T)c.range(-100000, 100000) / (T)10; break;
    case 2: v = std::ldexp((T)1 + (T)c.below(1ULL << 40) / (T)(1ULL << 40), (int)c.range(L::min_exponent, L::max_exponent - 2)); break;
    case 3: v = L::denorm_min() * (T)(double)(c.below(1000) + 1); break;
    case 4: v = L::max() * ((T)1 - L::epsilon() * (T)(double)c.below(3)); break;
    case 5: v = std::nextafter((T)(double)c.range(-1000, 1000), c.coin() ? L::max() : -L::max()); break;
    case 6: v = (T)pow(10., (double)c.range(-30, 30)) ; break;
    default: { // random digits in every place
      T m = (T)c.below(0); for (int i = 0; i < 2; ++i) m = m / (T)18446744073709551616.0L + (T)c.below(0);
      v = std::ldexp(m, (int)c.range(-130, 40)); }
  }
  if (c.coin(1, 3)) v = -v;
  if (!std::isfinite(v)) v = 1;
  return v;
}
template <class T> void roundtrip(vp::Ctx &c, T v, const char *tn) {
  string s = levels::dataToString(v); T r;
  c.note("type", tn).note("value", show(v)).note("text", show(s)); c.cls(tn);
  bool t = throws([&] { levels::stringToData(s, r); });
  if (t) c.fail(fmt("%s: the text %s of %s is refused", tn, s.c_str(), show(v).c_str()));
  if (!(r == v)) c.fail(fmt("%s: %s became %s via %s", tn, show(v).c_str(), show(r).c_str(), show(s).c_str()));
  if (s != levels::trim(s) || s.empty()) c.fail(fmt("%s: text %s is empty or padded", tn, show(s).c_str()));
  T r2; string pad = string(c.below(3), ' ') + s + string(c.below(3), ' '); // blanks around numbers do not matter
  if (throws([&] { r2 = levels::stringToData<T>(pad); }) || !(r2 == v)) c.fail(fmt("%s: text %s is misread", tn, show(pad).c_str()));
  c.nontrivial(v != 0);
}
VP_PROP(text_roundtrip) {
  switch (c.below(12)) {
    case 0: roundtrip(c, gen_int<short>(c), "short"); break;
    case 1: roundtrip(c, gen_int<unsigned short>(c), "unsigned short"); break;
    case 2: roundtrip(c, gen_int<int>(c), "int"); break;
    case 3: roundtrip(c, gen_int<unsigned>(c), "unsigned"); break;
    case 4: roundtrip(c, gen_int<long>(c), "long"); break;
    case 5: roundtrip(c, gen_int<unsigned long>(c), "unsigned long"); break;
    case 6: roundtrip(c, gen_int<long long>(c), "long long"); break;
    case 7: roundtrip(c, gen_int<unsigned long long>(c), "unsigned long long"); break;
    case 8: roundtrip(c, gen_float<float>(c), "float"); break;
    case 9: roundtrip(c, gen_float<double>(c), "double"); break;
    case 10: roundtrip(c, gen_float<long double>(c), "long double"); break;
    default: {
      bool b = c.coin(), r = !b; string s = levels::dataToString(b); c.cls("bool");
      if (throws([&] { levels::stringToData(s, r); }) || r != b) c.fail("bool does not survive");
      c.nontrivial();
    }
  }
}
string gen_text(vp::Ctx &c, const string &alpha, int maxlen) {
  string s; int n = (int)c.skew(0, maxlen); for (int i = 0; i < n; ++i) s += alpha[c.below(alpha.size())]; return s;
}
// grammar of numbers, independent of the library
bool is_digits(const string &s) { return !s.empty() && s.find_first_not_of("0123456789") == string::npos; }
string strip_ws(const string &s) {
  const char *w = " \t\n\r\v\f"; size_t a = s.find_first_not_of(w); return a == string::npos ? "" : s.substr(a, s.find_last_not_of(w) - a + 1);
}
bool parse_int(const string &t, bool &neg, unsigned __int128 &mag) {
  string s = strip_ws(t); neg = false;
  if (!s.empty() && (s[0] == '+' || s[0] == '-')) { neg = s[0] == '-'; s = s.substr(1); }
  if (!is_digits(s)) return false;
  mag = 0; for (char ch : s) { if (mag > ((unsigned __int128)1 << 100)) continue; mag = mag * 10 + (ch - '0'); }
  return true;
}
bool parse_float_syntax(const string &t) {
  string s = strip_ws(t); size_t i = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  size_t nd = 0; while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++nd;
  if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++nd; }
  if (!nd) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t e = 0; while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++e;
    if (!e) return false;
  }
  return i == s.size();
}
string gen_number_text(vp::Ctx &c) {
  string s;
  switch (c.below(6)) {
    case 0: s = gen_text(c, "0123456789+-.eE xX,aFn", 12); break;
    case 1: s = (c.coin() ? "-" : "") + std::to_string(c.below(0)) + (c.coin(1, 4) ? "." + std::to_string(c.below(1000)) : ""); break;
    case 2: { static const vector<string> v = {"32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "340282346638528859811704183484516925440", "3.5e38", "1e308", "1.8e308", "-1e400", "1e-400", "", " ", "0x10", "nan", "inf", "1.2.3", "1e", "1e+", ".", "-", "+", "--1", "+-1", "1 2", "5 x", "T", "1,5", "1'000", "1_0", "007", "-0", "1e5", "5.", ".5", "1.0"}; s = c.pick(v); } break;
    case 3: { char b[80]; snprintf(b, sizeof b, "%.*g", (int)c.range(1, 20), (c.unit() - .5) * pow(10., (double)c.range(-20, 20))); s = b; } break;
    case 4: s = gen_text(c, "0123456789", 25); break;
    default: s = gen_text(c, "0123456789.", 6) + gen_text(c, " eE+-x", 3) + gen_text(c, "0123456789", 3);
  }
  if (c.coin(1, 4)) s = string(c.below(3), ' ') + s + string(c.below(3), c.coin() ? ' ' : '\t');
  if (s.size() > 2 && c.coin(1, 6)) s[c.below(s.size())] = "0.-+ez "[c.below(7)];
  return s;
}
template <class T> void malformed_int(vp::Ctx &c, const string &s, const char *tn) {
  bool neg; unsigned __int128 mag; bool ok = parse_int(s, neg, mag); T want = 0; typedef std::numeric_limits<T> L;
  if (ok) {
    if (!neg) { ok = mag <= (unsigned __int128)L::max(); want = ok ? (T)mag : 0; }
    else if (mag == 0) { if (!L::is_signed) { c.cls("negative zero"); return; } }
    else { ok = L::is_signed && mag <= (unsigned __int128)((__int128)L::max() + 1); want = ok ? (T)(-(__int128)mag) : 0; }
  }
  T r = 0; bool t = throws([&] { levels::stringToData(s, r); });
  c.cls(ok ? "well-formed" : "malformed");
  if (ok && t) c.fail(fmt("%s: %s is refused", tn, show(s).c_str()));
  if (!ok && !t) c.fail(fmt("%s: malformed or unrepresentable %s is read as %s", tn, show(s).c_str(), show(r).c_str()));
  if (ok && r != want) c.fail(fmt("%s: %s is read as %s", tn, show(s).c_str(), show(r).c_str()));
}
template <class T> void malformed_float(vp::Ctx &c, const string &s, const char *tn) {
  bool ok = parse_float_syntax(s); T want = 0;
  if (ok) {
    string q = strip_ws(s);
    want = sizeof(T) == 4 ? (T)strtof(q.c_str(), 0) : sizeof(T) == 8 ? (T)strtod(q.c_str(), 0) : (T)strtold(q.c_str(), 0);
    if (std::isinf(want)) ok = false;
  }
  T r = 0; bool t = throws([&] { levels::stringToData(s, r); });
  c.cls(ok ? "well-formed" : "malformed");
  if (ok && t) c.fail(fmt("%s: %s is refused", tn, show(s).c_str()));
  if (!ok && !t) c.fail(fmt("%s: malformed or unrepresentable %s is read as %s", tn, show(s).c_str(), show(r).c_str()));
  if (ok && !(r == want)) c.fail(fmt("%s: %s is read as %s", tn, show(s).c_str(), show(r).c_str()));
}
VP_PROP(text_malformed) {
  string s = gen_number_text(c); c.note("text", show(s)); c.nontrivial(s.size() > 1);
  switch (c.below(9)) {
    case 0: malformed_int<short>(c, s, "short"); break;
    case 1: malformed_int<unsigned short>(c, s, "unsigned short"); break;
    case 2: malformed_int<int>(c, s, "int"); break;
    case 3: malformed_int<unsigned>(c, s, "unsigned"); break;
    case 4: malformed_int<long>(c, s, "long"); break;
    case 5: malformed_int<unsigned long>(c, s, "unsigned long"); break;
    case 6: malformed_float<float>(c, s, "float"); break;
    case 7: malformed_float<double>(c, s, "double"); break;
    default: {
      static const std::set<string> tv = {"T", "t", "y", "Y", "true", ".true.", "TRUE", ".TRUE."}, fv = {"F", "f", "n", "N", "false", ".false.", "FALSE", ".FALSE."};
      static const vector<string> pool = {"T", "t", "y", "Y", "true", ".true.", "TRUE", ".TRUE.", "F", "f", "n", "N", "false", ".false.", "FALSE", ".FALSE.", "", "0", "1", "Tr", "truex", "FF", ".T.", "fals"};
      string b = c.coin(3, 4) ? c.pick(pool) : gen_text(c, "TtFfrueals.", 7); c.note("bool", show(b)); bool r = false;
      bool t = throws([&] { levels::stringToData(b, r); }); bool ok = tv.count(b) || fv.count(b);
      if (ok && (t || r != (bool)tv.count(b))) c.fail("bool: " + show(b) + " refused or misread");
      // other words are refused (words that differ from an accepted one only in capitalisation are left open)
      bool cap = false; for (auto &w : pool) if (b.size() == w.size() && !w.empty() && (tv.count(w) || fv.count(w)) && levels::equal_nocase(w, b)) cap = true;
      if (!ok && !cap && !t) c.fail("bool: " + show(b) + " is accepted");
    }
  }
}
// reference for the text helpers
string ref_trim(const string &s) { size_t a = 0, b = s.size(); while (a < b && (s[a] == ' ' || s[a] == '\t')) ++a; while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t')) --b; return s.substr(a, b - a); }
VP_PROP(text_helpers) {
  int k = (int)c.below(6);
  if (k == 0) {
    string s = gen_text(c, "  \tab=#.X", 12); c.note("trim", show(s));
    if (levels::trim(s) != ref_trim(s)) c.fail("trim gives " + show(levels::trim(s)));
    string r; if (throws([&] { r = levels::stringToData<string>(levels::dataToString(s)); }) || r != ref_trim(s)) c.fail("string does not survive conversion");
    c.nontrivial(s.size() > 1);
  } else if (k == 1) {
    string al = c.coin() ? string(",,ab c") : string(":;,x"); char d = al[0]; string s = gen_text(c, al, 14); c.note("tokenize", show(s)).note("delim", d);
    vector<string> l = {"old"}; levels::tokenize(s, d, l); string j; for (size_t i = 0; i < l.size(); ++i) { j += (i ? string(1, d) : "") + l[i]; if (l[i].find(d) != string::npos) c.fail("a token contains the delimiter"); }
    // one token per piece; an empty piece after the last delimiter may be left out
    size_t nd = std::count(s.begin(), s.end(), d); bool last_empty = s.empty() || s.back() == d;
    bool full = l.size() == nd + 1 && j == s, cut = last_empty && l.size() == nd && (nd ? j + d == s : s.empty());
    if (!full && !cut) c.fail(fmt("tokens of %s are %s (%zu)", show(s).c_str(), show(j).c_str(), l.size()));
    c.nontrivial(l.size() > 1);
  } else if (k == 2) {
    int what = (int)c.below(3); vector<string> w; int n = (int)c.below(8); string s;
    vector<int> vi; vector<double> vd; bool bad = false; static const string W = " \t\n";
    for (int i = 0; i < n; ++i) {
      string t;
      if (what == 0) t = gen_text(c, "abc.-+", 6); else if (what == 1) { int v = gen_int<int>(c); vi.push_back(v); t = std::to_string(v); } else { double v = gen_float<double>(c); vd.push_back(v); t = fmt("%.17g", v); }
      if (what && c.coin(1, 20)) { t += "x"; bad = true; }
      if (t.empty()) continue;
      w.push_back(t); for (int q = (int)c.below(3) + (i > 0); q > 0; --q) s += W[c.below(3)]; s += t;
    }
    s += gen_text(c, W, 2); c.note("split", show(s));
    if (what == 0) { vector<string> l; levels::split(s, l); if (l != w) c.fail("split into words differs"); }
    else if (what == 1) { vector<int> l; bool t = throws([&] { levels::split(s, l); }); if (t != bad || (!t && l != vi)) c.fail("split into integers differs"); }
    else { vector<double> l; bool t = throws([&] { levels::split(s, l); }); if (t != bad || (!t && l != vd)) c.fail("split into numbers differs"); }
    c.nontrivial(w.size() > 1);
  } else if (k == 3) {
    string a = gen_text(c, "aAbBzZ09_.[@", 10), b = a; if (c.coin(1, 3)) b = gen_text(c, "aAbBzZ09_.[@", 10);
    for (auto &ch : b) if (c.coin()) { if (ch >= 'a' && ch <= 'z') ch -= 32; else if (ch >= 'A' && ch <= 'Z') ch += 32; }
    if (!b.empty() && c.coin(1, 4)) b[c.below(b.size())] = "aZ0[{@`"[c.below(7)];
    auto low = [](string s) { for (auto &ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; };
    c.note("a", show(a)).note("b", show(b));
    if (levels::tolower(a) != low(a)) c.fail("tolower is wrong"); if (levels::equal_nocase(a, b) != (low(a) == low(b))) c.fail("equal_nocase is wrong");
    c.nontrivial(a != b);
  } else if (k == 4) {
    i64 x = gen_int<i64>(c); if (c.coin()) x %= 100000; size_t w = (size_t)c.range(1, 24); c.note("x", x).note("width", w);
    u64 mag = x < 0 ? (u64)0 - (u64)x : (u64)x; string d = std::to_string(mag); bool fits = d.size() + (x < 0) <= w; string r;
    string want = (x < 0 ? "-" : "") + (fits ? string(w - d.size() - (x < 0), '0') : "") + d;
    bool t = throws([&] { r = levels::intToString(x, w); });
    if (fits && (t || r != want)) c.fail("intToString gives " + show(r) + ", expected " + show(want));
    if (!fits && !t) c.fail("intToString accepts a number that is too wide: " + show(r));
    c.nontrivial();
  } else {
    i64 x = gen_int<i64>(c); string t = levels::dataToString((long long)x); c.note("x", x);
    if (t != std::to_string(x)) c.fail("decimal text of an integer is " + show(t)); c.nontrivial();
  }
}
VP_PROP(text_files) {
  Hush hush; string fn = c.dir + "/par.txt"; int k = (int)c.below(4); std::map<string, string> want, got; got["stale"] = "x";
  static const string KEY = "abK_1.", VAL = "ab 12.=/'";
  if (k == 0) {
    int n = (int)c.below(8); string s;
    for (int i = 0; i < n; ++i) {
      string key = ref_trim(gen_text(c, KEY, 3)), val = ref_trim(gen_text(c, VAL, 6)), ws[4]; for (auto &x : ws) x = gen_text(c, " \t", 2);
      int kind = (int)c.below(8); string line;
      if (kind == 6) line = ws[0] + gen_text(c, "ab c", 5); // no assignment
      else if (kind == 7) line = "";
      else { line = ws[0] + key + ws[1] + "=" + ws[2] + val + ws[3]; }
      bool cr = c.coin(1, 6), cm = c.coin(1, 4); if (cm) line += "#" + gen_text(c, "ab=# ", 6);
      if (cr) line += "\r"; bool last = i == n - 1 && c.coin();
      if (kind < 6 && !key.empty()) want[key] = val;
      s += line + (last ? "" : "\n");
    }
    { std::ofstream o(fn); o << s; } c.note("file", show(s));
    if (c.coin(1, 20)) { unlink(fn.c_str()); if (!throws([&] { levels::parse_file(fn, got); })) c.fail("a missing file is accepted"); return; }
    if (throws([&] { levels::parse_file(fn, got); })) c.fail("parse_file refuses a file");
    c.nontrivial(want.size() > 1);
  } else if (k == 1) {
    vector<string> w, g = {"stale"}; string s; int n = (int)c.below(8);
    for (int i = 0; i < n; ++i) { string t = gen_text(c, "ab#=.1", 5); s += gen_text(c, " \t\n", 3) + (i ? string(1, " \n\t"[c.below(3)]) : "") + t; if (!t.empty()) w.push_back(t); }
    s += gen_text(c, " \n", 2); { std::ofstream o(fn); o << s; } c.note("words", show(s));
    levels::parse_words_from_file(fn, g); if (g != w) c.fail("words differ"); c.nontrivial(w.size() > 1); unlink(fn.c_str());
    if (!throws([&] { levels::parse_words_from_file(fn, g); })) c.fail("a missing file is accepted");
    return;
  } else {
    vector<string> lead, av = {"prog"}; int nl = (int)c.below(3); for (int i = 0; i < nl; ++i) lead.push_back("lead" + std::to_string(i));
    bool bad = false; bool few = c.coin(1, 15); for (int i = 0; i < nl - (few ? 1 : 0); ++i) { string v = gen_text(c, "ab-=", 4); av.push_back(v); want[lead[i]] = v; }
    if (few && nl > 0) bad = true; // too few arguments
    else for (int i = 0, n = (int)c.below(6); i < n; ++i) {
      if (k == 2) {
        string key = "kab"[c.below(3)] + gen_text(c, "ab=1", 3); 
        if (c.coin(1, 20)) { // not a parameter
          if (i > 0 && av.back() != "" && false) {} av.push_back(c.coin() ? "plain" : "-"); 
          // after a flag without value this is that flag's value; make the position unambiguous by a preceding value
          if (av.size() >= 2) { av.insert(av.end() - 1, "-flag"); av.insert(av.end() - 1, "value"); want["flag"] = "value"; bad = true; break; }
        }
        av.push_back("-" + key);
        if (c.coin(2, 3)) { static const vector<string> vals = {"", "-5", "-.5", "value", "a=b", "-", "3"}; string v = c.pick(vals); av.push_back(v); want[key] = v; }
        else want[key] = "true";
      } else {
        string key = ref_trim(gen_text(c, KEY, 3)), val = ref_trim(gen_text(c, VAL, 5));
        if (c.coin(1, 6)) { av.push_back(gen_text(c, "ab ", 4)); continue; }
        av.push_back(gen_text(c, " \t", 1) + key + gen_text(c, " ", 1) + "=" + gen_text(c, " ", 1) + val + gen_text(c, " ", 1)); if (!key.empty()) want[key] = val;
      }
    }
    vector<const char *> p; string d; for (auto &a : av) { p.push_back(a.c_str()); d += show(a) + " "; } c.note(k == 2 ? "classic" : "equalsign", d);
    bool t = throws([&] { if (k == 2) { if (nl) levels::parse_cmdline_classic((int)p.size(), p.data(), lead, got); else levels::parse_cmdline_classic((int)p.size(), p.data(), got); }
                          else { if (nl) levels::parse_cmdline_equalsign((int)p.size(), p.data(), lead, got); else levels::parse_cmdline_equalsign((int)p.size(), p.data(), got); } });
    if (t != bad) c.fail(t ? "a command line is refused" : "a malformed command line is accepted");
    c.nontrivial(want.size() > 1); if (bad) return;
  }
  if (got != want) { string d; for (auto &e : got) d += show(e.first) + "->" + show(e.second) + " "; c.fail("keys and values differ: got " + d); }
}

// ------------------------------------------------------------------ L12
i64 fdiv(i64 a, i64 b) { i64 q = a / b, r = a % b; return r < 0 ? q - 1 : q; }
i64 days_civil(i64 y, i64 m, i64 d) { // days since 1970-01-01 in the proleptic Gregorian calendar, by counting leap years
  i64 ym = y + fdiv(m - 1, 12); m = m - 12 * fdiv(m - 1, 12);
  static const int cum[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  auto leaps = [](i64 Y) { return fdiv(Y, 4) - fdiv(Y, 100) + fdiv(Y, 400); }; // leap years in 1..Y
  i64 n = 365 * (ym - 1970) + leaps(ym - 1) - leaps(1969) + cum[m - 1] + d - 1;
  bool leap = (ym % 4 == 0 && ym % 100 != 0) || ym % 400 == 0;
  if (m > 2 && leap) ++n;
  return n;
}
i64 ref_seconds(i64 y, i64 mo, i64 d, i64 h, i64 mi, i64 s) { return 86400 * (days_civil(y, mo, d) + 4383) + 3600 * h + 60 * mi + s; }
VP_PROP(dates) {
  static const vector<string> tzs = {"", "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "XXX-13:45", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-11>11", "Europe/Berlin"};
  int tz = (int)c.below(tzs.size() + 1); if (tz == (int)tzs.size()) unsetenv("TZ"); else setenv("TZ", tzs[tz].c_str(), 1); tzset();
  time_t probe = 1750000000; struct tm lt0 = *localtime(&probe);
  i64 y, mo, d, h, mi, s; int kind = (int)c.below(7); bool legal = true;
  y = c.range(1958, 2100); mo = c.range(1, 12); d = c.range(1, 28); h = c.range(0, 23); mi = c.range(0, 59); s = c.range(0, 59);
  if (kind == 1) y = c.range(1, 9999);
  else if (kind == 2) { static const vector<i64> ys = {1900, 1904, 1969, 1970, 2000, 2004, 2100, 2400, 1600, 2037, 2038, 2039}; y = c.pick(ys); mo = c.range(2, 3); d = mo == 2 ? 28 : 1; }
  else if (kind == 3) { static const int ml[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; d = ml[mo - 1]; h = 23; mi = 59; s = 59; }
  else if (kind == 4) { y = 1969; mo = 12; d = 31; h = 23; mi = 59; s = c.range(50, 59); }
  else if (kind == 5) { legal = false; mo = c.range(-30, 30); d = c.range(-400, 800); h = c.range(-100, 100); mi = c.range(-1000, 1000); s = c.range(-100000, 100000); }
  else if (kind == 6) { y = c.range(-20000, 300000); }
  c.note("tz", tz).note("date", fmt("%lld-%lld-%lld %lld:%lld:%lld", (long long)y, (long long)mo, (long long)d, (long long)h, (long long)mi, (long long)s));
  i64 want = ref_seconds(y, mo, d, h, mi, s); c.cls(legal ? "calendar date" : "fields out of range"); c.cls(fmt("kind %d", kind));
  i64 got = dateandtime2planck((int)y, (int)mo, (int)d, (int)h, (int)mi, (int)s);
  if (got != want) c.fail(fmt("%lld seconds, expected %lld", (long long)got, (long long)want));
  int Y, M, D, H, I, S; planck2dateandtime(got, &Y, &M, &D, &H, &I, &S);
  if (legal && !(Y == y && M == mo && D == d && H == h && I == mi && S == s)) c.fail(fmt("comes back as %d-%d-%d %d:%d:%d", Y, M, D, H, I, S));
  if (M < 1 || M > 12 || D < 1 || D > 31 || H < 0 || H > 23 || I < 0 || I > 59 || S < 0 || S > 59 || ref_seconds(Y, M, D, H, I, S) != want) c.fail(fmt("%lld comes back as %d-%d-%d %d:%d:%d", (long long)want, Y, M, D, H, I, S));
  i64 t2 = got + (c.coin() ? 1 : c.range(-1000000000, 1000000000)); planck2dateandtime(t2, &Y, &M, &D, &H, &I, &S);
  if (dateandtime2planck(Y, M, D, H, I, S) != t2 || ref_seconds(Y, M, D, H, I, S) != t2) c.fail(fmt("second %lld -> %d-%d-%d %d:%d:%d -> %lld", (long long)t2, Y, M, D, H, I, S, (long long)dateandtime2planck(Y, M, D, H, I, S)));
  // the caller's time zone is left alone
  const char *e = getenv("TZ"); if ((e == nullptr) != (tz == (int)tzs.size()) || (e && tzs[tz] != e)) c.fail("TZ has changed");
  struct tm lt1 = *localtime(&probe); if (lt0.tm_hour != lt1.tm_hour || lt0.tm_min != lt1.tm_min || lt0.tm_isdst != lt1.tm_isdst) c.fail("the local time zone has changed");
  c.nontrivial();
}

// ------------------------------------------------------------------ L13
const u64 HUGE_N = (u64)1 << 58;
#if defined(__SANITIZE_ADDRESS__)
const bool CAN_FAIL = false; // ASan ends the process instead of throwing bad_alloc
#else
const bool CAN_FAIL = true;
#endif
template <class T> T mk(i64 v) { return T(v); }
template <> string mk<string>(i64 v) { return "s" + std::to_string(v) + string(v % 3 ? 0 : 20, 'x'); }

template <class T> struct Cell { T v; bool known; };
template <class T> struct M1 { // model of an array: cells; a view shares them with a buffer
  std::shared_ptr<vector<Cell<T>>> p = std::make_shared<vector<Cell<T>>>(); size_t off = 0, n = 0; bool view = false;
  Cell<T> &at(size_t i) { return (*p)[off + i]; }
  void fresh(size_t k) { p = std::make_shared<vector<Cell<T>>>(k, Cell<T>{T(), false}); off = 0; n = k; view = false; }
  void copy(M1 &o) { if (o.n != n) fresh(o.n); for (size_t i = 0; i < n; ++i) at(i) = o.at(i); }
};
template <class A, class T> void cmp1(vp::Ctx &c, A &a, M1<T> &m, const char *w) {
  if (a.size() != m.n) c.fail(fmt("%s: size %zu, expected %zu", w, (size_t)a.size(), m.n));
  if ((size_t)(a.end() - a.begin()) != m.n) c.fail(fmt("%s: begin/end do not span the array", w));
  for (size_t i = 0; i < m.n; ++i) if (m.at(i).known && (!(a[i] == m.at(i).v) || !(a.begin()[i] == m.at(i).v))) c.fail(fmt("%s: element %zu of %zu differs", w, i, m.n));
}
template <class A, class T> struct Views { static void make(A &a, T *p, size_t n) { A b(p, n); a.transfer(b); } static const bool has = true; };
template <class T, int al> struct Views<levels::arr_align<T, al>, T> { static void make(levels::arr_align<T, al> &, T *, size_t) {} static const bool has = false; };

template <class A, class T> void run_arr(vp::Ctx &c, const char *tn) {
  const int NA = 3; std::unique_ptr<A> a[NA]; M1<T> m[NA]; for (auto &x : a) x.reset(new A);
  const size_t BN = 24; vector<T> buf[2]; M1<T> mb[2];
  for (int b = 0; b < 2; ++b) { buf[b].resize(BN); mb[b].fresh(BN); for (size_t i = 0; i < BN; ++i) { buf[b][i] = mk<T>(900 + i + 50 * b); mb[b].at(i) = {buf[b][i], true}; } }
  int steps = (int)c.range(2, c.big ? 40 : 20); string h = string(tn) + ": "; i64 ctr = 1; bool sorted_once = false;
  auto put = [&](int i) { for (size_t k = 0; k < m[i].n; ++k) if (c.coin(2, 3)) { T v = mk<T>(c.coin() ? c.range(0, 6) : ctr++); (*a[i])[k] = v; m[i].at(k) = {v, true}; } };
  auto putall = [&](int i) { for (size_t k = 0; k < m[i].n; ++k) if (!m[i].at(k).known) { T v = mk<T>(c.range(0, 9)); (*a[i])[k] = v; m[i].at(k) = {v, true}; } };
  auto overlapping = [&](int i, int j) { return m[i].p == m[j].p; };
  for (int st = 0; st < steps; ++st) {
    int i = (int)c.below(NA), j = (int)c.below(NA); size_t n = (size_t)c.skew(0, 17); int op = (int)c.below(20); h += fmt("%d(%d,%d,%zu) ", op, i, j, n);
    switch (op) {
      case 0: a[i]->alloc(n); if (n != m[i].n) m[i].fresh(n); else for (size_t k = 0; k < n; ++k) m[i].at(k).known = m[i].at(k).known && m[i].view; put(i); break;
      case 1: { T v = mk<T>(ctr++); a[i]->allocAndFill(n, v); if (n != m[i].n) m[i].fresh(n); for (size_t k = 0; k < n; ++k) m[i].at(k) = {v, true}; } break;
      case 2: { a[i]->resize(n); if (n != m[i].n) { M1<T> o = m[i]; m[i].fresh(n); for (size_t k = 0; k < std::min(n, o.n); ++k) m[i].at(k) = o.at(k); } put(i); } break;
      case 3: a[i]->dealloc(); m[i].fresh(0); break;
      case 4: if (i == j || !overlapping(i, j) || (m[i].off == m[j].off)) { putall(j); *a[i] = *a[j]; if (i != j) m[i].copy(m[j]); } break; // assignment
      case 5: { putall(j); a[i].reset(new A(*a[j])); M1<T> o = m[j]; m[i].fresh(o.n); for (size_t k = 0; k < o.n; ++k) m[i].at(k) = o.at(k); } break; // copy construction
      case 6: if (i != j) { a[i]->transfer(*a[j]); m[i] = m[j]; m[j].fresh(0); } break;
      case 7: a[i]->swap(*a[j]); std::swap(m[i], m[j]); break;
      case 8: { T v = mk<T>(ctr++); a[i]->fill(v); for (size_t k = 0; k < m[i].n; ++k) m[i].at(k) = {v, true}; } break;
      case 9: { vector<T> v; for (size_t k = 0; k < n; ++k) v.push_back(mk<T>(c.range(0, 50))); a[i]->copyFrom(v); if (n != m[i].n) m[i].fresh(n); for (size_t k = 0; k < n; ++k) m[i].at(k) = {v[k], true}; } break;
      case 10: { vector<T> v(n + 1, mk<T>(7)); for (auto &x : v) x = mk<T>(c.range(0, 50)); a[i]->copyFromPtr(v.data(), n); if (n != m[i].n) m[i].fresh(n); for (size_t k = 0; k < n; ++k) m[i].at(k) = {v[k], true}; } break;
      case 11: { putall(i); vector<T> v(3, mk<T>(1)); a[i]->copyTo(v); if (v.size() != m[i].n) c.fail("copyTo: wrong size"); for (size_t k = 0; k < v.size(); ++k) if (!(v[k] == m[i].at(k).v)) c.fail("copyTo: wrong element"); } break;
      case 12: { putall(i); a[i]->sort(); vector<T> v; for (size_t k = 0; k < m[i].n; ++k) v.push_back(m[i].at(k).v); std::sort(v.begin(), v.end()); for (size_t k = 0; k < v.size(); ++k) m[i].at(k).v = v[k]; sorted_once = true; } break;
      case 13: { putall(i); a[i]->sort(std::greater<T>()); vector<T> v; for (size_t k = 0; k < m[i].n; ++k) v.push_back(m[i].at(k).v); std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); for (size_t k = 0; k < v.size(); ++k) m[i].at(k).v = v[k]; } break;
      case 14: { putall(i); T lo = mk<T>(0), hi = mk<T>(0); bool t = throws([&] { a[i]->minmax(lo, hi); }); if (t != (m[i].n == 0)) c.fail("minmax: exception expected only for an empty array");
          if (!t) { T l = m[i].at(0).v, u = l; for (size_t k = 1; k < m[i].n; ++k) { l = std::min(l, m[i].at(k).v); u = std::max(u, m[i].at(k).v); } if (!(l == lo) || !(u == hi)) c.fail("minmax is wrong"); } } break;
      case 15: { putall(i); T v = mk<T>(c.range(0, 8)); size_t f = 0; while (f < m[i].n && !(m[i].at(f).v == v)) ++f; bool in = f < m[i].n; if (a[i]->contains(v) != in) c.fail("contains is wrong");
          size_t g = 0; bool t = throws([&] { g = a[i]->find(v); }); if (t == in || (in && g != f)) c.fail("find is wrong"); } break;
      case 16: { putall(i); putall(j); bool e = m[i].n == m[j].n; for (size_t k = 0; e && k < m[i].n; ++k) e = m[i].at(k).v == m[j].at(k).v; if (a[i]->contentsEqual(*a[j]) != e) c.fail("contentsEqual is wrong"); } break;
      case 17: if (Views<A, T>::has) { int b = (int)c.below(2); size_t o = c.below(BN - n - 2) + 1; bool dup = false; for (int q = 0; q < NA; ++q) if (q != i && m[q].view) dup = true; if (dup) break;
          Views<A, T>::make(*a[i], &buf[b][o], n); m[i].p = mb[b].p; m[i].off = o; m[i].n = n; m[i].view = true; } break;
      case 18: { T v = mk<T>(ctr++); if (c.coin()) { a[i].reset(new A(n, v)); m[i].fresh(n); for (size_t k = 0; k < n; ++k) m[i].at(k) = {v, true}; } else { a[i].reset(new A(n)); m[i].fresh(n); put(i); } } break;
      case 19: if (CAN_FAIL) { bool rs = c.coin(); if (!throws([&] { if (rs) a[i]->resize(HUGE_N); else a[i]->alloc(HUGE_N); })) c.fail("an impossible allocation succeeded");
          if (a[i]->size() != m[i].n || a[i]->size() == 0) { if (a[i]->size()) c.fail("size is neither kept nor zero after a failed allocation"); m[i].fresh(0); } c.cls("failed allocation"); } break;
    }
    for (int q = 0; q < NA; ++q) cmp1(c, *a[q], m[q], fmt("array %d", q).c_str());
    for (int b = 0; b < 2; ++b) for (size_t k = 0; k < BN; ++k) if (mb[b].at(k).known && !(buf[b][k] == mb[b].at(k).v)) c.fail(fmt("outside buffer %d changed at %zu", b, k));
  }
  (void)sorted_once; c.note("ops", h); c.nontrivial(steps > 3); c.cls(tn);
}
template <class T> struct M2 { size_t s1 = 0, s2 = 0; vector<Cell<T>> v; void dim(size_t a, size_t b) { s1 = a; s2 = b; v.assign(a * b, Cell<T>{T(), false}); } };
template <class A> auto paren(const A &a, size_t i, size_t j, int) -> decltype(a(i, j)) { return a(i, j); }
template <class A> auto paren(const A &a, size_t i, size_t j, long) -> decltype(a[i][j]) { return a[i][j]; } // arr2b
template <class A, class T> void cmp2(vp::Ctx &c, A &a, M2<T> &m) {
  if (a.size1() != m.s1 || a.size2() != m.s2 || a.size() != m.s1 * m.s2) c.fail(fmt("dimensions %zu x %zu (%zu), expected %zu x %zu", (size_t)a.size1(), (size_t)a.size2(), (size_t)a.size(), m.s1, m.s2));
  const A &ca = a;
  for (size_t i = 0; i < m.s1; ++i) for (size_t j = 0; j < m.s2; ++j) { auto &q = m.v[i * m.s2 + j]; if (q.known && (!(a[i][j] == q.v) || !(ca[i][j] == q.v) || !(paren(ca, i, j, 0) == q.v))) c.fail(fmt("element (%zu,%zu) differs", i, j)); }
}
template <class A, class T> void run_arr2(vp::Ctx &c, const char *tn) {
  const int NA = 3; std::unique_ptr<A> a[NA]; M2<T> m[NA]; for (auto &x : a) x.reset(new A);
  int steps = (int)c.range(2, c.big ? 40 : 20); string h = string(tn) + ": "; i64 ctr = 1;
  auto put = [&](int i, bool all) { for (size_t k = 0; k < m[i].s1; ++k) for (size_t l = 0; l < m[i].s2; ++l) { auto &q = m[i].v[k * m[i].s2 + l]; if (all ? !q.known : c.coin(2, 3)) { T v = mk<T>(ctr++); if ((k + l) & 1) (*a[i])[k][l] = v; else (*a[i])(k, l) = v; q = {v, true}; } } };
  for (int st = 0; st < steps; ++st) {
    int i = (int)c.below(NA), j = (int)c.below(NA); size_t n1 = (size_t)c.skew(0, 7), n2 = (size_t)c.skew(0, 7); int op = (int)c.below(13); h += fmt("%d(%d,%d,%zu,%zu) ", op, i, j, n1, n2);
    switch (op) {
      case 0: a[i]->alloc(n1, n2); m[i].dim(n1, n2); put(i, false); break;
      case 1: { T v = mk<T>(ctr++); a[i]->allocAndFill(n1, n2, v); m[i].dim(n1, n2); for (auto &q : m[i].v) q = {v, true}; } break;
      case 2: a[i]->fast_alloc(n1, n2); m[i].dim(n1, n2); put(i, false); break;
      case 3: a[i]->dealloc(); m[i].dim(0, 0); break;
      case 4: { T v = mk<T>(ctr++); a[i]->fill(v); for (auto &q : m[i].v) q = {v, true}; } break;
      case 5: { put(i, true); T f = mk<T>(c.range(-3, 3)); a[i]->scale(f); for (auto &q : m[i].v) q.v *= f; } break;
      case 6: put(j, true); *a[i] = *a[j]; if (i != j) m[i] = m[j]; break;
      case 7: { put(j, true); M2<T> o = m[j]; a[i].reset(new A(*a[j])); m[i] = o; } break;
      case 8: a[i]->swap(*a[j]); std::swap(m[i], m[j]); break;
      case 9: { put(i, true); T lo = 0, hi = 0; bool t = throws([&] { a[i]->minmax(lo, hi); }); if (t != m[i].v.empty()) c.fail("minmax: exception expected only for an empty array");
          if (!t) { T l = m[i].v[0].v, u = l; for (auto &q : m[i].v) { l = std::min(l, q.v); u = std::max(u, q.v); } if (l != lo || u != hi) c.fail("minmax is wrong"); } } break;
      case 10: if (a[i]->conformable(*a[j]) != (m[i].s1 == m[j].s1 && m[i].s2 == m[j].s2)) c.fail("conformable is wrong"); break;
      case 11: { T v = mk<T>(ctr++); if (c.coin()) { a[i].reset(new A(n1, n2, v)); m[i].dim(n1, n2); for (auto &q : m[i].v) q = {v, true}; } else { a[i].reset(new A(n1, n2)); m[i].dim(n1, n2); put(i, false); } } break;
      case 12: if (CAN_FAIL) { bool f = c.coin(); size_t k = HUGE_N >> c.below(30); if (!throws([&] { if (f) a[i]->fast_alloc(k, HUGE_N / k); else a[i]->alloc(k, HUGE_N / k); })) c.fail("an impossible allocation succeeded");
          if (a[i]->size() == 0) m[i].dim(0, 0); if (a[i]->size() == 0 && (a[i]->size1() || a[i]->size2())) m[i].dim(a[i]->size1(), a[i]->size2()); if (a[i]->size() > 100) c.fail("a size is reported after a failed allocation"); c.cls("failed allocation"); } break;
    }
    for (int q = 0; q < NA; ++q) cmp2(c, *a[q], m[q]);
  }
  c.note("ops", h); c.nontrivial(steps > 3); c.cls(tn);
}
template <class T> void run_arr2b(vp::Ctx &c) {
  typedef levels::arr2b<T> A; const int NA = 3; std::unique_ptr<A> a[NA]; M2<T> m[NA]; for (auto &x : a) x.reset(new A);
  int steps = (int)c.range(2, c.big ? 40 : 20); string h = "arr2b: "; i64 ctr = 1;
  auto put = [&](int i, bool all) { for (size_t k = 0; k < m[i].s1; ++k) for (size_t l = 0; l < m[i].s2; ++l) { auto &q = m[i].v[k * m[i].s2 + l]; if (all ? !q.known : c.coin(2, 3)) { T v = mk<T>(ctr++); (*a[i])[k][l] = v; q = {v, true}; } } };
  for (int st = 0; st < steps; ++st) {
    int i = (int)c.below(NA), j = (int)c.below(NA); size_t n1 = (size_t)c.skew(0, 7), n2 = (size_t)c.skew(0, 7); int op = (int)c.below(8); h += fmt("%d(%d,%d,%zu,%zu) ", op, i, j, n1, n2);
    switch (op) {
      case 0: a[i]->alloc(n1, n2); m[i].dim(n1, n2); put(i, false); break;
      case 1: a[i]->dealloc(); m[i].dim(0, 0); break;
      case 2: { T v = mk<T>(ctr++); a[i]->fill(v); for (auto &q : m[i].v) q = {v, true}; } break;
      case 3: put(j, true); *a[i] = *a[j]; if (i != j) m[i] = m[j]; break;
      case 4: { put(j, true); M2<T> o = m[j]; a[i].reset(new A(*a[j])); m[i] = o; } break;
      case 5: a[i].reset(new A(n1, n2)); m[i].dim(n1, n2); put(i, false); break;
      case 6: if (m[i].s1) { T **p = a[i]->p0(); for (size_t k = 0; k < m[i].s1; ++k) for (size_t l = 0; l < m[i].s2; ++l) if (m[i].v[k * m[i].s2 + l].known && !(p[k][l] == m[i].v[k * m[i].s2 + l].v)) c.fail("p0: wrong element"); } break;
      case 7: if (CAN_FAIL) { size_t k = HUGE_N >> c.range(20, 40); if (!throws([&] { a[i]->alloc(k, HUGE_N / k); })) c.fail("an impossible allocation succeeded");
          if (a[i]->size() > 100) c.fail("a size is reported after a failed allocation"); if (a[i]->size() == 0) m[i].dim(a[i]->size1(), a[i]->size2()); c.cls("failed allocation"); } break;
    }
    for (int q = 0; q < NA; ++q) cmp2(c, *a[q], m[q]);
  }
  c.note("ops", h); c.nontrivial(steps > 3); c.cls("arr2b");
}
template <class T> void run_arr3(vp::Ctx &c) {
  typedef levels::arr3<T> A; const int NA = 3; struct M { size_t s[3] = {0, 0, 0}; vector<Cell<T>> v; void dim(size_t a, size_t b, size_t d) { s[0] = a; s[1] = b; s[2] = d; v.assign(a * b * d, Cell<T>{T(), false}); } };
  std::unique_ptr<A> a[NA]; M m[NA]; for (auto &x : a) x.reset(new A); int steps = (int)c.range(2, c.big ? 40 : 20); string h = "arr3: "; i64 ctr = 1;
  auto each = [&](int i, std::function<void(T &, Cell<T> &)> f) { size_t q = 0; for (size_t k = 0; k < m[i].s[0]; ++k) for (size_t l = 0; l < m[i].s[1]; ++l) for (size_t n = 0; n < m[i].s[2]; ++n) f((*a[i])(k, l, n), m[i].v[q++]); };
  auto put = [&](int i, bool all) { each(i, [&](T &x, Cell<T> &q) { if (all ? !q.known : c.coin(2, 3)) { T v = mk<T>(ctr++); x = v; q = {v, true}; } }); };
  for (int st = 0; st < steps; ++st) {
    int i = (int)c.below(NA), j = (int)c.below(NA); size_t n1 = (size_t)c.skew(0, 5), n2 = (size_t)c.skew(0, 5), n3 = (size_t)c.skew(0, 5); int op = (int)c.below(9); h += fmt("%d(%d,%d,%zu,%zu,%zu) ", op, i, j, n1, n2, n3);
    switch (op) {
      case 0: a[i]->alloc(n1, n2, n3); m[i].dim(n1, n2, n3); put(i, false); break;
      case 1: a[i]->dealloc(); m[i].dim(0, 0, 0); break;
      case 2: { T v = mk<T>(ctr++); a[i]->fill(v); for (auto &q : m[i].v) q = {v, true}; } break;
      case 3: put(j, true); *a[i] = *a[j]; if (i != j) m[i] = m[j]; break;
      case 4: { put(j, true); M o = m[j]; a[i].reset(new A(*a[j])); m[i] = o; } break;
      case 5: a[i].reset(new A(n1, n2, n3)); m[i].dim(n1, n2, n3); put(i, false); break;
      case 6: a[i]->swap(*a[j]); std::swap(m[i], m[j]); break;
      case 7: if (a[i]->conformable(*a[j]) != std::equal(m[i].s, m[i].s + 3, m[j].s)) c.fail("conformable is wrong"); break;
      case 8: if (CAN_FAIL) { size_t k = HUGE_N >> c.range(20, 40); if (!throws([&] { a[i]->alloc(k, 2, HUGE_N / k / 2); })) c.fail("an impossible allocation succeeded");
          if (a[i]->size() > 100) c.fail("a size is reported after a failed allocation"); m[i].dim(a[i]->size1(), a[i]->size2(), a[i]->size3()); c.cls("failed allocation"); } break;
    }
    for (int q = 0; q < NA; ++q) {
      if (a[q]->size1() != m[q].s[0] || a[q]->size2() != m[q].s[1] || a[q]->size3() != m[q].s[2] || a[q]->size() != m[q].v.size()) c.fail("dimensions differ");
      each(q, [&](T &x, Cell<T> &z) { if (z.known && !(x == z.v)) c.fail("an element differs"); });
      const A &ca = *a[q]; size_t z = 0; for (size_t k = 0; k < m[q].s[0]; ++k) for (size_t l = 0; l < m[q].s[1]; ++l) for (size_t n = 0; n < m[q].s[2]; ++n, ++z) if (m[q].v[z].known && !(ca((int)k, (int)l, (long)n) == m[q].v[z].v)) c.fail("an element seen through a constant reference differs");
    }
  }
  c.note("ops", h); c.nontrivial(steps > 3); c.cls("arr3");
}
// an element that knows how many of its kind are alive
struct Num { i64 v; u64 magic; static long live; static bool bad; static const u64 ALIVE = 0x5a5a1234beefcafeull;
  Num(i64 w = 0) : v(w), magic(ALIVE) { ++live; } Num(const Num &o) : v(o.v), magic(ALIVE) { if (o.magic != ALIVE) bad = true; ++live; }
  ~Num() { if (magic != ALIVE) bad = true; magic = 0; --live; } Num &operator=(const Num &o) { if (magic != ALIVE || o.magic != ALIVE) bad = true; v = o.v; return *this; }
  Num &operator*=(const Num &o) { v *= o.v; return *this; } bool operator==(const Num &o) const { return v == o.v; } bool operator!=(const Num &o) const { return v != o.v; } bool operator<(const Num &o) const { return v < o.v; } bool operator>(const Num &o) const { return v > o.v; } };
long Num::live = 0; bool Num::bad = false;
template <class F> void counted(vp::Ctx &c, F f) { long n = Num::live; Num::bad = false; f(); if (Num::bad) c.fail("an element was used outside its lifetime"); if (Num::live != n) c.fail(fmt("%ld elements are still alive when all arrays are gone", Num::live - n)); }
VP_PROP(containers) {
  switch (c.below(10)) {
    case 7: counted(c, [&] { run_arr<levels::arr<Num>, Num>(c, "arr<counted>"); }); break;
    case 8: if (c.coin()) counted(c, [&] { run_arr2<levels::arr2<Num>, Num>(c, "arr2<counted>"); }); else if (c.coin()) counted(c, [&] { run_arr2b<Num>(c); }); else counted(c, [&] { run_arr3<Num>(c); }); break;
    case 0: run_arr<levels::arr<int>, int>(c, "arr<int>"); break;
    case 1: run_arr<levels::arr<double>, double>(c, "arr<double>"); break;
    case 2: run_arr<levels::arr<string>, string>(c, "arr<string>"); break;
    case 3: run_arr<levels::arr_align<double, 32>, double>(c, "arr_align<double,32>"); break;
    case 4: run_arr2<levels::arr2<double>, double>(c, "arr2<double>"); break;
    case 5: run_arr2<levels::arr2_align<float, 16>, float>(c, "arr2_align<float,16>"); break;
    case 6: run_arr2b<int>(c); break;
    default: run_arr3<double>(c);
  }
}
VP_PROP(sorts) {
  int k = (int)c.below(5); size_t n = c.coin(1, 8) ? (size_t)c.range(100, c.big ? 20000 : 3000) : (size_t)c.skew(0, 40); vp::Rng r = c.bulk();
  int pat = (int)c.below(6); auto key = [&](size_t i) -> double {
    switch (pat) { case 0: return r.real(-10, 10); case 1: return (double)r.range(-2, 2); case 2: return (double)i; case 3: return -(double)i; case 4: return 3.5; default: return r.coin(.1) ? (r.coin() ? HUGE_VAL : -HUGE_VAL) : r.coin(.1) ? -0. : r.real(-1, 1) * pow(10., r.range(-300, 300)); } };
  static const char *nm[] = {"DL", "arrTheta", "arrTOD", "arrTime", "DDcm"}; c.note("sort", nm[k]).note("n", n).note("pattern", pat); c.cls(nm[k]); c.cls(n == 0 ? "empty" : n == 1 ? "one row" : "rows");
  auto bits = [](double x) { u64 u; memcpy(&u, &x, 8); return u; };
  if (k == 0 || k == 4) {
    levels::arr<double> a(n); levels::arr<long> b(k == 0 ? n : 0); levels::arr<double> b2(k == 4 ? n : 0); vector<std::pair<u64, u64>> before, after;
    for (size_t i = 0; i < n; ++i) { a[i] = key(i); u64 w; if (k == 0) { b[i] = (long)r.next(); w = (u64)b[i]; } else { b2[i] = r.coin(.2) ? NAN : r.gauss(); w = bits(b2[i]); } before.push_back({bits(a[i]), w}); }
    if (k == 0) conviqt::hpsort_DL(a, b); else conviqt::hpsort_DDcm(a, b2);
    if (a.size() != n || (k == 0 ? b.size() : b2.size()) != n) c.fail("sizes have changed");
    for (size_t i = 0; i < n; ++i) { after.push_back({bits(a[i]), k == 0 ? (u64)b[i] : bits(b2[i])}); if (i && a[i] < a[i - 1]) c.fail("keys are not ascending"); }
    std::sort(before.begin(), before.end()); std::sort(after.begin(), after.end()); if (before != after) c.fail("the pairs are not a permutation of the input pairs");
    levels::arr<double> a2(n); levels::arr<long> b3(n + 1); levels::arr<double> b4(n + 1);
    if (!throws([&] { if (k == 0) conviqt::hpsort_DL(a2, b3); else conviqt::hpsort_DDcm(a2, b4); })) c.fail("arrays of different size are accepted");
  } else {
    int col = k == 1 ? 1 : k == 2 ? 3 : 4; levels::arr<double> a(5 * n); vector<vector<u64>> before(n), after(n);
    for (size_t i = 0; i < n; ++i) for (int q = 0; q < 5; ++q) { a[5 * i + q] = q == col ? key(i) : r.coin(.1) ? NAN : r.gauss(); before[i].push_back(bits(a[5 * i + q])); }
    if (k == 1) conviqt::hpsort_arrTheta(a); else if (k == 2) conviqt::hpsort_arrTOD(a); else conviqt::hpsort_arrTime(a);
    if (a.size() != 5 * n) c.fail("the size has changed");
    for (size_t i = 0; i < n; ++i) { for (int q = 0; q < 5; ++q) after[i].push_back(bits(a[5 * i + q])); if (i && a[5 * i + col] < a[5 * i - 5 + col]) c.fail("keys are not ascending"); }
    std::sort(before.begin(), before.end()); std::sort(after.begin(), after.end()); if (before != after) c.fail("the rows are not a permutation of the input rows");
  }
  c.nontrivial(n > 1);
}

// ------------------------------------------------------------------ L14
VP_PROP(shares) {
  i64 n = 0, lo = 0; i64 ns = c.coin() ? c.range(1, 9) : (i64)1 << c.below(30);
  switch (c.below(4)) { case 0: n = c.range(0, 30); break; case 1: n = c.range(0, 1000000); break; case 2: n = (i64)(c.below(0) >> 1); break; default: n = ns * c.range(0, 5) + c.range(0, 3); }
  lo = c.coin() ? 0 : c.coin() ? -(i64)c.below(1000) : (i64)c.below(1ULL << 62) - ((i64)1 << 61);
  if (lo > 0 && n > INT64_MAX - lo) n = INT64_MAX - lo;
  c.note("lo", lo).note("n", n).note("shares", ns); i64 prev = lo; i64 mn = INT64_MAX, mx = 0; std::set<i64> ids; bool full = ns <= 512;
  if (full) for (i64 k = 0; k < ns; ++k) ids.insert(k); else for (int k = 0; k < 40; ++k) { i64 q = c.range(0, ns - 1); ids.insert(q); ids.insert(std::min(q + 1, ns - 1)); ids.insert(0); ids.insert(ns - 1); }
  i64 pk = -1; for (i64 k : ids) { i64 l, h; levels::calcShareGeneral(lo, lo + n, ns, k, l, h); if (l > h || l < lo || h > lo + n) c.fail(fmt("share %ld is [%ld,%ld)", k, l, h));
    if (k == 0 && l != lo) c.fail("the first share does not start the range"); if (k == ns - 1 && h != lo + n) c.fail("the last share does not end the range");
    if (pk == k - 1 && k > 0 && l != prev) c.fail(fmt("share %ld starts at %ld, the one before ended at %ld", k, l, prev)); prev = h; pk = k; mn = std::min(mn, h - l); mx = std::max(mx, h - l); }
  if (mx - mn > 1) c.fail("shares differ by more than one");
  // chunks
  u64 tot = c.coin() ? (u64)c.range(1, 200) : c.coin() ? c.below(0) | 1 : ~(u64)0 - c.below(5), ch = c.coin() ? (u64)c.range(1, 60) : std::max<u64>(1, tot / (u64)c.range(1, 50)); if (c.coin(1, 6)) ch = ~(u64)0 - c.below(3);
  if (tot / ch > 5000) ch = tot / 5000 + 1; c.note("total", tot).note("chunk", ch);
  levels::chunkMaker cm(tot, ch); u64 s, z, off = 0, cnt = 0, nc = cm.nchunks();
  while (cm.getNext(s, z)) { if (s != off || z == 0 || z > ch || z > tot - off) c.fail("a chunk is wrong"); off += z; ++cnt; if (z < ch && off != tot) c.fail("a chunk other than the last is short"); if (cnt > 6000) c.fail("chunks do not end"); }
  if (off != tot) c.fail("the chunks do not cover the range"); if (cnt != nc) c.fail(fmt("nchunks is %lu, but there are %lu", (unsigned long)nc, (unsigned long)cnt)); if (cm.getNext(s, z)) c.fail("a chunk after the last");
  c.nontrivial(n > 1 && ns > 1);
}
template <class I> void chk_isqrt(vp::Ctx &c, const char *tn) {
  I x = gen_int<I>(c); if (x < 0) x = (I)(-(x + 1)); if (c.coin()) { u64 r = c.below((u64)1 << (4 * sizeof(I) - std::numeric_limits<I>::is_signed)); __int128 q = (__int128)r * r + (__int128)c.range(-1, 1); if (q >= 0 && q <= (__int128)std::numeric_limits<I>::max()) x = (I)q; }
  c.note(tn, (u64)x); unsigned __int128 r = levels::isqrt(x), v = (unsigned __int128)(u64)x;
  if (!(r * r <= v && (r + 1) * (r + 1) > v)) c.fail(fmt("isqrt<%s>(%llu) = %llu", tn, (unsigned long long)x, (unsigned long long)r));
  if (x > 0) { int l = levels::ilog2(x); if (l < 0 || l > 63 || ((v >> l) != 1)) c.fail(fmt("ilog2<%s>(%llu) = %d", tn, (unsigned long long)x, l)); }
}
template <class I> void chk_imod(vp::Ctx &c, const char *tn) {
  I a = gen_int<I>(c), b = gen_int<I>(c); if (b < 0) b = (I)(-(b + 1)); if (b == 0) b = 1; I r = levels::imodulo(a, b); __int128 w = (__int128)a % (__int128)b; if (w < 0) w += b;
  c.note("a", show((ld)a)).note("b", show((ld)b)); if ((__int128)r != w) c.fail(fmt("imodulo<%s>(%s,%s) = %s", tn, show((ld)a).c_str(), show((ld)b).c_str(), show((ld)r).c_str()));
}
double gen_mod_double(vp::Ctx &c, double unit) {
  switch (c.below(6)) { case 0: return c.real(-10, 10) * unit; case 1: return (double)c.range(-20, 20) * unit; case 2: return std::nextafter((double)c.range(-20, 20) * unit, c.coin() ? 1e308 : -1e308); case 3: return (c.coin() ? -1 : 1) * unit * pow(10., -(double)c.range(0, 320)); case 4: return gen_float<double>(c); default: return (double)c.range(-1000000, 1000000) * .5; }
}
VP_PROP(helpers) {
  int k = (int)c.below(9); c.nontrivial(); c.cls(fmt("helper %d", k));
  if (k == 0) switch (c.below(6)) { case 0: chk_isqrt<int>(c, "int"); break; case 1: chk_isqrt<unsigned>(c, "unsigned"); break; case 2: chk_isqrt<long>(c, "long"); break; case 3: chk_isqrt<unsigned long>(c, "unsigned long"); break; case 4: chk_isqrt<unsigned char>(c, "uint8"); break; default: chk_isqrt<short>(c, "short"); }
  else if (k == 1) switch (c.below(6)) { case 0: chk_imod<int>(c, "int"); break; case 1: chk_imod<unsigned>(c, "unsigned"); break; case 2: chk_imod<long>(c, "long"); break; case 3: chk_imod<unsigned long>(c, "unsigned long"); break; case 4: chk_imod<signed char>(c, "int8"); break; default: chk_imod<short>(c, "short"); }
  else if (k == 2 || k == 3) {
    double v2 = c.coin() ? 1 : c.coin() ? 2 * 3.14159265358979323846 : c.coin() ? fabs(gen_float<double>(c)) + 1e-300 : (double)c.range(1, 10); double v1 = gen_mod_double(c, v2);
    if (!(v2 > 0) || !std::isfinite(v2) || !std::isfinite(v1)) { v2 = 1; v1 = -.25; } c.note("v1", show(v1)).note("v2", show(v2));
    double r = levels::fmodulo(v1, v2); __float128 w = fmodq((__float128)v1, (__float128)v2); if (w < 0) w += v2;
    if (!(r >= 0) || !(r < v2)) c.fail(fmt("fmodulo gives %.17g", r)); __float128 e = fabsq((__float128)r - w); if (e > v2 / 2) e = v2 - e;
    if (v1 >= 0 ? e != 0 : e > 1.2e-16 * v2) c.fail(fmt("fmodulo gives %.17g, expected %.17g", r, (double)w));
  } else if (k == 4) {
    double x; switch (c.below(5)) { case 0: x = c.real(-1e6, 1e6); break; case 1: x = (double)c.range(-1000, 1000) + .5; break; case 2: x = std::nextafter((double)c.range(-1000, 1000) + (c.coin() ? .5 : 0), c.coin() ? 1e9 : -1e9); break; case 3: x = ldexp((double)(c.below(1ULL << 53)) * (c.coin() ? 1 : -1), (int)c.range(-54, 9)); break; default: x = (double)c.range(-(1LL << 52), 1LL << 52) + .5; }
    c.note("x", show(x)); i64 n = levels::nearest<i64>(x), f = levels::ifloor<i64>(x); __float128 q = x;
    if (fabsq((__float128)n - q) > (__float128).5) c.fail(fmt("nearest gives %lld", (long long)n)); if (!((__float128)f <= q && q < (__float128)f + 1)) c.fail(fmt("ifloor gives %lld", (long long)f));
    if (fabs(x) < 2e9) { int n2 = levels::nearest<int>(x), f2 = levels::ifloor<int>(x); if (n2 != n || f2 != f) c.fail("nearest<int> or ifloor<int> differs"); float xf = (float)x; int n3 = levels::nearest<int>(xf), f3 = levels::ifloor<int>(xf); if (fabs((double)n3 - (double)xf) > .5 || !(f3 <= (double)xf && (double)xf < f3 + 1.)) c.fail("nearest or ifloor of a float is wrong"); }
  } else if (k == 5) {
    int n = (int)c.range(2, 12); vector<double> d; double x = c.real(-10, 10); bool desc = c.coin(); for (int i = 0; i < n; ++i) { d.push_back(x); x += (desc ? -1 : 1) * (c.coin() ? 1 : pow(10., -(double)c.range(0, 5)) * (1 + c.unit())); }
    double v; int w = (int)c.below(n); switch (c.below(5)) { case 0: v = d[w]; break; case 1: v = std::nextafter(d[w], c.coin() ? 1e9 : -1e9); break; case 2: v = d[0] + (desc ? 1 : -1) * c.real(0, 5); break; case 3: v = d[n - 1] + (desc ? -1 : 1) * c.real(0, 5); break; default: v = d[0] + (d[n - 1] - d[0]) * c.unit(); }
    levels::arr<double> a; a.copyFrom(d); levels::tsize idx = 99; double fr = -7; if (desc) a.interpol_helper(v, std::greater<double>(), idx, fr); else a.interpol_helper(v, idx, fr);
    c.note("n", n).note("v", show(v)).note("desc", desc); if (idx > (levels::tsize)(n - 2)) c.fail(fmt("index %zu of %d", (size_t)idx, n));
    double sc = fabs(d[idx + 1] - d[idx]); ld rec = d[idx] + (ld)fr * ((ld)d[idx + 1] - d[idx]); if (fabsl(rec - v) > 1e-14L * (sc * (1 + fabs(fr)))) c.fail("the fraction does not reproduce the value");
    auto before = [&](double p, double q) { return desc ? p > q : p < q; };
    if (before(v, d[0])) { if (idx != 0 || !(fr < 0)) c.fail("below the range: wrong"); } else if (before(d[n - 1], v)) { if (idx != (levels::tsize)(n - 2) || !(fr >= 1)) c.fail("above the range: wrong"); } else { if (before(v, d[idx]) || before(d[idx + 1], v) || fr < 0 || fr > 1) c.fail("inside the range: wrong interval"); }
    levels::arr<double> one(1, 2.); if (!throws([&] { one.interpol_helper(1., idx, fr); })) c.fail("a sequence of one value is accepted");
  } else if (k == 6) {
    double x = gen_float<double>(c); int n = (int)c.range(-9, 9); i64 q = gen_int<i64>(c); c.note("x", show(x)).note("n", n);
    if (levels::sign(x) != (x >= 0 ? 1 : -1)) c.fail("sign of a double"); if (levels::sign(q) != (q >= 0 ? 1 : -1)) c.fail("sign of an integer"); if (levels::xpow(n, x) != ((n % 2) ? -x : x)) c.fail("xpow");
    double y = gen_float<double>(c); double e = c.coin() ? 1e-5 : 0; if (c.coin()) y = x * (1 + c.real(-2e-5, 2e-5)); ld dif = fabsl((ld)x - y), m = e * fabsl((ld)y);
    if (fabsl(dif - m) > 1e-12L * (fabsl((ld)x) + fabsl((ld)y)) && levels::approx(x, y, e) != (dif <= m)) c.fail("approx"); if (fabsl(dif - e) > 1e-12L * (fabsl((ld)x) + fabsl((ld)y)) && levels::abs_approx(x, y, e) != (dif <= (ld)e)) c.fail("abs_approx");
    if (levels::safe_atan2(0., 0.) != 0 || levels::safe_atan2(-0., -0.) != 0) c.fail("safe_atan2 at the origin"); if (x != 0 && levels::safe_atan2(x, y) != atan2(x, y)) c.fail("safe_atan2"); if (levels::safe_atan2(0., x) != (x == 0 ? 0. : atan2(0., x)) || levels::safe_atan2(x, 0.) != (x == 0 ? 0. : atan2(x, 0.))) c.fail("safe_atan2 on an axis");
    int v[6]; for (auto &z : v) z = (int)c.below(2); bool e3 = v[0] == v[1] && v[0] == v[2], e4 = e3 && v[3] == v[0], e5 = e4 && v[4] == v[0], e6 = e5 && v[5] == v[0];
    if (levels::multiequal(v[0], v[1], v[2]) != e3 || levels::multiequal(v[0], v[1], v[2], v[3]) != e4 || levels::multiequal(v[0], v[1], v[2], v[3], v[4]) != e5 || levels::multiequal(v[0], v[1], v[2], v[3], v[4], v[5]) != e6) c.fail("multiequal");
  } else {
    // checked conversion: the same value or an exception
#define SC(T1, T2, gen) { T2 x = gen<T2>(c); c.note(#T2 " to " #T1, show((ld)x)); T1 r = 0; bool t = throws([&] { r = levels::safe_cast<T1>(x); }); \
      __float128 X = x, lo = std::numeric_limits<T1>::lowest(), hi = std::numeric_limits<T1>::max(); bool can = X >= lo && X <= hi && (std::numeric_limits<T1>::is_integer ? truncq(X) == X : (__float128)(T1)x == X); \
      if (t == can) c.fail(t ? "a representable value is refused" : "an unrepresentable value is accepted"); if (!t && (__float128)r != X) c.fail("the value has changed"); }
    if (k == 7) switch (c.below(14)) { case 9: SC(unsigned char, unsigned, gen_int) break; case 10: SC(unsigned, unsigned long, gen_int) break; case 11: SC(unsigned short, unsigned long, gen_int) break; case 12: SC(unsigned long, unsigned char, gen_int) break; case 0: SC(int, long, gen_int) break; case 1: SC(unsigned, long, gen_int) break; case 2: SC(signed char, int, gen_int) break; case 3: SC(unsigned char, int, gen_int) break; case 4: SC(long, unsigned long, gen_int) break; case 5: SC(unsigned long, long, gen_int) break; case 6: SC(int, unsigned, gen_int) break; case 7: SC(short, unsigned char, gen_int) break; case 8: SC(unsigned, int, gen_int) break; default: SC(signed char, unsigned char, gen_int) }
    else switch (c.below(9)) { case 7: SC(unsigned long, float, gen_float) break; case 0: SC(int, double, gen_float) break; case 1: SC(long, double, gen_float) break; case 2: SC(unsigned char, double, gen_float) break; case 3: SC(float, double, gen_float) break; case 4: SC(float, int, gen_int) break; case 5: SC(short, float, gen_float) break; case 6: SC(double, unsigned, gen_int) break; default: SC(int, float, gen_float) }
  }
}

// ------------------------------------------------------------------ L15
struct Xor { uint32_t x, y, z, w; uint32_t next() { uint32_t t = x ^ (x << 11); x = y; y = z; z = w; return w = (w ^ (w >> 19)) ^ (t ^ (t >> 8)); } };
uint32_t inv_l(uint32_t v, int s) { uint32_t r = v; for (int i = 0; i < 32; i += s) r = v ^ (r << s); return r; }
uint32_t inv_r(uint32_t v, int s) { uint32_t r = v; for (int i = 0; i < 32; i += s) r = v ^ (r >> s); return r; }
Xor back(Xor a) { Xor b; b.y = a.x; b.z = a.y; b.w = a.z; uint32_t q = a.w ^ (b.w ^ (b.w >> 19)); b.x = inv_l(inv_r(q, 8), 11); return b; }
uint32_t untwiddle(uint32_t v) { for (int i = 0; i < 9; ++i) { v = inv_l(v, 5); v = inv_r(v, 17); v = inv_l(v, 13); } return v; }
uint32_t gen_seed(vp::Ctx &c) { switch (c.below(4)) { case 0: return (uint32_t)c.below(10); case 1: return 0; case 2: return 0xFFFFFFFFu - (uint32_t)c.below(3); default: return (uint32_t)c.below(1ULL << 32); } }
const uint32_t DEF[4] = {123456789, 362436069, 521288629, 88675123};
levels::planck_rng mkrng(const uint32_t *s) { return levels::planck_rng(s[0], s[1], s[2], s[3]); }
struct Draw { int kind; double d; uint32_t u; bool operator==(const Draw &o) const { return kind == o.kind && u == o.u && !memcmp(&d, &o.d, 8); } };
Draw draw(levels::planck_rng &r, int k) { Draw q{k, 0, 0}; if (k == 0) q.u = r.int_rand_uni(); else if (k == 1) q.d = r.rand_uni(); else if (k == 2) q.d = r.rand_gauss(); else q.d = r.rand_exp(); return q; }
void sane(vp::Ctx &c, const Draw &q) {
  if (q.kind == 1 && !(q.d >= 0 && q.d < 1)) c.fail(fmt("uniform variate %.17g", q.d)); if (q.kind == 3 && !(q.d >= 0 && std::isfinite(q.d))) c.fail(fmt("exponential variate %.17g", q.d)); if (q.kind == 2 && !std::isfinite(q.d)) c.fail(fmt("Gaussian variate %.17g", q.d));
}
VP_PROP(rng_streams) {
  uint32_t s[4]; for (auto &x : s) x = gen_seed(c); int ns = (int)c.below(6); if (ns < 4) for (int i = ns; i < 4; ++i) s[i] = DEF[i];
  bool target = c.coin(1, 3);
  if (target) { // seeds whose first outputs are extreme
    vp::Rng r = c.bulk(); uint32_t want = c.coin() ? 0 : c.coin() ? 0xFFFFFFFFu : (uint32_t)c.below(4); bool ok = false;
    for (int tries = 0; tries < 20 && !ok; ++tries) { Xor a{(uint32_t)r.next(), (uint32_t)r.next(), (uint32_t)r.next(), want}; int adv = 16 + 1 + (int)r.below(3); for (int i = 0; i < adv; ++i) a = back(a); s[0] = untwiddle(a.x); s[1] = untwiddle(a.y); s[2] = untwiddle(a.z); s[3] = untwiddle(a.w); ok = s[0] && s[1] && s[2] && s[3]; }
    ns = 4;
  }
  levels::planck_rng a = ns == 0 ? levels::planck_rng() : ns == 1 ? levels::planck_rng(s[0]) : ns == 2 ? levels::planck_rng(s[0], s[1]) : ns == 3 ? levels::planck_rng(s[0], s[1], s[2]) : mkrng(s);
  c.note("seeds", fmt("%u %u %u %u", s[0], s[1], s[2], s[3])).note("given", ns); c.cls(target ? "extreme outputs" : "ordinary");
  uint32_t z[4]; for (int i = 0; i < 4; ++i) z[i] = s[i] ? s[i] : DEF[i]; levels::planck_rng b = mkrng(z); // zero seeds stand for the defaults
  { // the published way from seeds to state
    uint32_t t[4]; for (int i = 0; i < 4; ++i) { uint32_t v = z[i]; for (int k = 0; k < 9; ++k) { v ^= v << 13; v ^= v >> 17; v ^= v << 5; } t[i] = v; }
    Xor q{t[0], t[1], t[2], t[3]}; for (int i = 0; i < 16; ++i) q.next(); levels::planck_rng f = a; for (int i = 0; i < 6; ++i) if (f.int_rand_uni() != q.next()) c.fail(fmt("draw %d is not that of the published generator with these seeds", i)); }
  int steps = (int)c.range(3, 60); int mode = (int)c.below(5); string h; bool extreme = false;
  for (int i = 0; i < steps; ++i) {
    int k = mode == 4 ? (int)c.below(4) : mode; Draw p = draw(a, k), q = draw(b, k); h += "iuge"[k];
    if (!(p == q)) c.fail(fmt("step %d: generators with the same seeds differ", i)); sane(c, p); if (k == 0 && (p.u == 0 || p.u == 0xFFFFFFFFu)) extreme = true; if (k == 1 && (p.d == 0 || p.d > 1 - 1e-9)) extreme = true;
    if (c.coin(1, 12)) { levels::planck_rng d = a; vp::Ctx *cc = &c; (void)cc; vector<int> ks; int m = (int)c.range(1, 6); for (int w = 0; w < m; ++w) ks.push_back((int)c.below(4)); levels::planck_rng e = a; for (int w : ks) { Draw x = draw(d, w), y = draw(e, w); if (!(x == y)) c.fail("copies of a generator differ"); } h += "c"; }
    if (c.coin(1, 15)) { // re-seeding forgets everything, pending Gaussian variates included
      uint32_t t[4]; for (auto &x : t) x = gen_seed(c); int nt = (int)c.below(5); if (nt == 0) a.seed(); else if (nt == 1) a.seed(t[0]); else if (nt == 2) a.seed(t[0], t[1]); else if (nt == 3) a.seed(t[0], t[1], t[2]); else a.seed(t[0], t[1], t[2], t[3]);
      for (int w = nt; w < 4; ++w) t[w] = DEF[w]; b = mkrng(t); h += "s"; }
  }
  if (extreme) c.cls("extreme output met");
  Xor m; m.x = a.int_rand_uni(); m.y = a.int_rand_uni(); m.z = a.int_rand_uni(); m.w = a.int_rand_uni(); if (!(m.x | m.y | m.z | m.w)) c.fail("the generator is stuck at zero");
  for (int i = 0; i < 30; ++i) { uint32_t w = m.next(); if (i % 3 == 2) { double d = a.rand_uni(); if (d != w / 4294967296.) c.fail("rand_uni is not the scaled integer output"); } else if (a.int_rand_uni() != w) c.fail("the output does not follow xor128"); }
  c.note("draws", h); c.nontrivial();
}
double ks(vector<double> &v, double (*F)(double)) { std::sort(v.begin(), v.end()); double d = 0; size_t n = v.size(); for (size_t i = 0; i < n; ++i) { double f = F(v[i]); d = std::max(d, std::max(fabs(f - (double)i / n), fabs(f - (double)(i + 1) / n))); } return d * sqrt((double)n); }
VP_PROP(rng_distribution) {
  uint32_t s[4]; for (auto &x : s) x = gen_seed(c); levels::planck_rng r = mkrng(s); int k = (int)c.below(4); size_t n = c.big ? 200000 : 20000; c.note("kind", k).note("seeds", fmt("%u %u %u %u", s[0], s[1], s[2], s[3])).note("n", n); c.cls(fmt("kind %d", k));
  bool mix = c.coin(); vector<double> v(n); long bitc[32] = {0};
  for (size_t i = 0; i < n; ++i) {
    if (mix && i % 7 == 3) { if (k == 2) r.rand_uni(); else r.rand_gauss(); }
    if (k == 0) { uint32_t u = r.int_rand_uni(); for (int b = 0; b < 32; ++b) bitc[b] += u >> b & 1; v[i] = (u + .5) / 4294967296.; } else v[i] = k == 1 ? r.rand_uni() : k == 2 ? r.rand_gauss() : r.rand_exp();
  }
  double (*F)(double) = k < 2 ? +[](double x) { return std::min(1., std::max(0., x)); } : k == 2 ? +[](double x) { return .5 * erfc(-x / sqrt(2.)); } : +[](double x) { return x <= 0 ? 0 : -expm1(-x); };
  const double Z = 7.5, mean = k < 2 ? .5 : k == 2 ? 0 : 1, var = k < 2 ? 1 / 12. : 1, m4 = k < 2 ? 1 / 80. : k == 2 ? 3 : 9; double m = 0, q = 0, sc = 0, s2 = 0, y = 0;
  for (size_t i = 0; i < n; ++i) { // correlations of the values mapped to the uniform distribution, which has no tails
    double x = v[i] - mean, u = F(v[i]) - .5; m += x; q += x * x; if (i) { sc += u * y; s2 += (u * u - 1 / 12.) * (y * y - 1 / 12.); } y = u; }
  if (fabs(m) > Z * sqrt(var * n)) c.fail(fmt("mean %.5g", m / n)); if (fabs(q - n * var) > Z * sqrt((m4 - var * var) * n)) c.fail(fmt("variance %.5g", q / n));
  if (fabs(sc) > Z / 12 * sqrt((double)n)) c.fail(fmt("correlation of successive values %.5g", 12 * sc / n)); if (fabs(s2) > Z / 180 * sqrt((double)n)) c.fail(fmt("correlation of successive squares %.5g", 180 * s2 / n));
  if (k == 0) for (int b = 0; b < 32; ++b) if (fabs(bitc[b] - .5 * n) > Z * .5 * sqrt((double)n)) c.fail(fmt("bit %d is set in %ld of %zu", b, bitc[b], n));
  double d = ks(v, F); if (d > 4.2) c.fail(fmt("distribution: scaled Kolmogorov distance %.3g", d)); c.nontrivial();
}
} // namespace
VP_MAIN
