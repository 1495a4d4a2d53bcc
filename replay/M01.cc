#include "hmain.hh"
#include "CompressedMatrix.hh"
using namespace dsMath;
typedef std::complex<double> C;
struct Model {
  int n; bool cplx; std::map<std::pair<int,int>, C> v; std::set<std::pair<int,int>> pat;
};
static std::string mname(bool cplx, CompressionType t) { return std::string(cplx ? "complex " : "real ") + (t == CompressionType::CCM ? "CCM" : "CRM"); }
static bool check(const std::string &log, CompressedMatrix<double> &m, Model &d, CompressionType t, h::Rng &rng) {
  const auto &ap = m.GetAp(); const auto &ai = m.GetAi(); const auto &ax = m.GetAx(); const auto &az = m.GetAz();
  int n = d.n;
  if ((int)ap.size() != n + 1 || ap[0] != 0 || ap[n] != (int)ai.size() || ax.size() != ai.size() || (d.cplx && az.size() != ai.size())) { h::fail(log, "offset/value array sizes consistent", "sizes " + std::to_string(ap.size()) + "," + std::to_string(ai.size()) + "," + std::to_string(ax.size())); return false; }
  std::set<std::pair<int,int>> seen;
  for (int c = 0; c < n; ++c) {
    if (ap[c] > ap[c + 1]) { h::fail(log, "monotone offsets", "decreasing"); return false; }
    for (int p = ap[c]; p < ap[c + 1]; ++p) {
      if (p > ap[c] && ai[p - 1] >= ai[p]) { h::fail(log, "minor indices strictly increasing", "not increasing in line " + std::to_string(c)); return false; }
      int i = t == CompressionType::CCM ? ai[p] : c, j = t == CompressionType::CCM ? c : ai[p];
      seen.insert({i, j});
      C w = d.v[{i, j}];
      if (w.real() != ax[p] || (d.cplx && w.imag() != az[p])) { h::fail(log, "entry (" + std::to_string(i) + "," + std::to_string(j) + ")=" + h::num(w.real()) + "+i" + h::num(w.imag()), h::num(ax[p]) + "+i" + (d.cplx ? h::num(az[p]) : "0")); return false; }
    }
  }
  for (auto &e : d.v) if (e.second != C(0) && !seen.count(e.first)) { h::fail(log, "nonzero entry (" + std::to_string(e.first.first) + "," + std::to_string(e.first.second) + ") is stored", "missing"); return false; }
  for (auto &e : d.pat) if (!seen.count(e)) { h::fail(log, "pattern keeps (" + std::to_string(e.first) + "," + std::to_string(e.second) + ")", "missing"); return false; }
  std::vector<double> x(n), y, yt; std::vector<C> xc(n), yc, yct;
  for (int i = 0; i < n; ++i) { x[i] = rng.in(-8, 8); xc[i] = C(rng.in(-8, 8), rng.in(-8, 8)); }
  m.Multiply(x, y); m.TransposeMultiply(x, yt);
  std::vector<C> wr(n), wt(n), wc(n), wct(n);
  for (auto &e : d.v) {
    int i = e.first.first, j = e.first.second;
    wr[i] += e.second.real() * x[j]; wt[j] += e.second.real() * x[i]; wc[i] += e.second * xc[j]; wct[j] += e.second * xc[i];
  }
  if ((int)y.size() != n || (int)yt.size() != n) { h::fail(log, "product length", "wrong"); return false; }
  for (int i = 0; i < n; ++i) {
    if (y[i] != wr[i].real()) { h::fail(log + " x=" + h::vec(x), "(A x)[" + std::to_string(i) + "]=" + h::num(wr[i].real()), h::num(y[i])); return false; }
    if (yt[i] != wt[i].real()) { h::fail(log + " x=" + h::vec(x), "(A^T x)[" + std::to_string(i) + "]=" + h::num(wt[i].real()), h::num(yt[i])); return false; }
  }
  if (d.cplx) {
    m.Multiply(xc, yc); m.TransposeMultiply(xc, yct);
    for (int i = 0; i < n; ++i) {
      if (yc[i] != wc[i]) { h::fail(log, "complex (A x)[" + std::to_string(i) + "]", "differs"); return false; }
      if (yct[i] != wct[i]) { h::fail(log, "complex (A^T x)[" + std::to_string(i) + "]", "differs"); return false; }
    }
  }
  return true;
}
TEST(history) {
  long cases = 0;
  for (int it = 0; it < 3000 * scale; ++it) {
    bool cplx = rng.coin(); auto t = rng.coin() ? CompressionType::CCM : CompressionType::CRM;
    int n = rng.in(1, 6);
    std::string log = mname(cplx, t) + " n=" + std::to_string(n) + ":";
    CompressedMatrix<double> m(n, cplx ? MatrixType::COMPLEX : MatrixType::REAL, t);
    Model d{n, cplx, {}, {}};
    bool open = true, ok = true;
    int ops = rng.in(3, 25);
    h::begin(log);
    for (int k = 0; k < ops && ok; ++k) {
      int r = rng.in(0, n - 1), c = rng.in(0, n - 1), op = rng.in(0, 11);
      double a = rng.in(-3, 3), b = rng.in(-3, 3);
      std::string at = "(" + std::to_string(r) + "," + std::to_string(c) + ")";
      if (op < 5) { log += " AddEntry" + at + "+=" + h::num(a); m.AddEntry(r, c, a); d.v[{r, c}] += a; if (a != 0) { d.pat.insert({r, c}); } }
      else if (op < 7 && cplx) { log += " AddImagEntry" + at + "+=" + h::num(b); m.AddImagEntry(r, c, b); d.v[{r, c}] += C(0, b); if (b != 0) d.pat.insert({r, c}); }
      else if (op == 7 && cplx) { log += " AddEntry" + at + "+=" + h::num(a) + "+i" + h::num(b); m.AddEntry(r, c, C(a, b)); d.v[{r, c}] += C(a, b); if (a != 0 || b != 0) d.pat.insert({r, c}); }
      else if (op == 8) { log += " Clear"; h::begin(log); m.ClearMatrix(); for (auto &e : d.v) e.second = 0; }
      else { log += " Finalize"; h::begin(log); m.Finalize(); ++cases; ok = check(log, m, d, t, rng); }
    }
    if (ok) { log += " Finalize"; h::begin(log); m.Finalize(); ++cases; ok = check(log, m, d, t, rng); }
    if (!ok && h::nfail > 5) return cases;
  }
  return cases;
}
