// Common support for the concrete search/replay harnesses: they link the real code of /repo.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <cstdint>
#include <cstring>
#include <complex>
#include <exception>
namespace h {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  int in(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }      // inclusive
  bool coin(int n = 2) { return next() % n == 0; }
  double u() { return double(next() >> 11) / 9007199254740992.0; }
  double real(double lo = -2, double hi = 2) { return lo + (hi - lo) * u(); }
  // small dyadic rationals: exact arithmetic
  double dy(int k = 16) { return in(-4 * k, 4 * k) / double(k); }
  double dynz(int k = 16) { double v; do v = dy(k); while (v == 0); return v; }
};
inline std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}
inline std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
template <class V> std::string vec(const V &v) { std::string o = "["; bool f = true; for (auto &x : v) { if (!f) o += ","; f = false; o += num(double(x)); } return o + "]"; }
extern int nfail;
extern std::string cur;
inline void fail(const std::string &input, const std::string &expected, const std::string &got, const std::string &key = "") {
  if (++nfail > 20) return;
  printf("FAIL {\"test\":\"%s\",\"key\":\"%s\",\"input\":\"%s\",\"expected\":\"%s\",\"got\":\"%s\"}\n", cur.c_str(), esc(key.empty() ? cur : key).c_str(), esc(input).substr(0, 3000).c_str(), esc(expected).substr(0, 800).c_str(), esc(got).substr(0, 800).c_str());
  fflush(stdout);
}
inline bool close(double a, double b, double tol = 1e-10) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return false;
  double m = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
  return std::fabs(a - b) <= tol * m;
}
inline bool same(const std::string &input, const std::string &what, double want, double got, double tol = 1e-10) {
  if (close(want, got, tol)) return true;
  fail(input, what + " = " + num(want), num(got));
  return false;
}
inline void begin(const std::string &in) { printf("BEGIN %s %s\n", cur.c_str(), esc(in).substr(0, 3000).c_str()); fflush(stdout); }
struct Test { std::string name; std::function<long(Rng &, int)> f; };
std::vector<Test> &tests();
struct Reg { Reg(const char *n, std::function<long(Rng &, int)> f) { tests().push_back({n, f}); } };
}
#define TEST(name) static long T_##name(h::Rng &, int); static h::Reg R_##name(#name, T_##name); static long T_##name(h::Rng &rng, int scale)
