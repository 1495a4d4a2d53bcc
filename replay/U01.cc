#include "eqn.hh"
#include "Permutation.hh"
#include "dsMathTypes.hh"
using namespace h;
static double rule(int ut, double old, double upd, double &nv) {
  double e = upd;
  if (ut == 1 && std::fabs(upd) > 0.0259) e = (upd > 0 ? 1 : -1) * 0.0259 * std::log(1 + std::fabs(upd) / 0.0259);
  nv = old + e;
  if (ut == 2 && old + upd <= 0) { nv = 0.001 * old; e = nv - old; }
  return e;
}
TEST(update) {
  long n = 0;
  for (int it = 0; it < 60 * scale; ++it) {
    int dim = it % 3 + 1;
    Mesh m = mkmesh(rng, dim); Region *r = m.reg;
    int N = int(m.p.size());
    std::vector<std::string> vars{"u", "v", "w"}; shuffle(vars, rng);
    vars.resize(rng.in(1, 3));
    std::map<std::string, int> ut; std::map<std::string, std::vector<double>> old;
    std::map<std::string, EquationHolder> eq;
    std::string log = m.log;
    for (auto &v : vars) {
      ut[v] = rng.in(0, 2);
      std::vector<double> o(N); for (auto &x : o) x = ut[v] == 2 ? rng.real(1e-3, 2) : rng.real(-2, 2);
      old[v] = o; setnode(m, v, o);
      EquationHolder h(new ExprEquation<double>("eq_" + v, r, v, "", "", "", "", "", "", "", ut[v] == 1 ? EquationEnum::LOGDAMP : ut[v] == 2 ? EquationEnum::POSITIVE : EquationEnum::DEFAULT));
      eq[v] = h; r->AddEquation(h); log += " " + v + ":" + std::to_string(ut[v]);
    }
    int base = rng.in(0, 30); r->SetBaseEquationNumber(base);
    std::vector<double> res(base + N * vars.size()); for (auto &x : res) x = rng.coin(3) ? rng.real(-2, 2) : rng.real(-0.05, 0.05);
    begin(log); ++n;
    r->Update<double>(res);
    double ta = 0, tr = 0;
    for (size_t q = 0; q < vars.size(); ++q) {
      auto &v = vars[q]; auto got = nodevals(m, v); double ma = 0, mr = 0; std::vector<double> A(N), R(N);
      for (int i = 0; i < N; ++i) {
        double nv, e = rule(ut[v], old[v][i], res[base + q * N + i], nv);
        if (!same(log + " old=" + num(old[v][i]) + " update=" + num(res[base + q * N + i]), v + " at node " + std::to_string(i), nv, got[i], 1e-12)) return n;
        A[i] = std::fabs(e); R[i] = A[i] / (std::fabs(nv) + 1e-10); ma = std::max(ma, A[i]); mr = std::max(mr, R[i]);
      }
      ta += ma; tr += mr;
      same(log, "absolute error of " + v, ma, eq[v].GetAbsError<double>());
      same(log, "relative error of " + v, mr, eq[v].GetRelError<double>());
      if (eq[v].GetAbsErrorNodeIndex() >= size_t(N) || !close(A[eq[v].GetAbsErrorNodeIndex()], ma, 1e-12)) fail(log, "a node where the absolute update of " + v + " is " + num(ma), "node " + std::to_string(eq[v].GetAbsErrorNodeIndex()));
      if (eq[v].GetRelErrorNodeIndex() >= size_t(N) || !close(R[eq[v].GetRelErrorNodeIndex()], mr, 1e-12)) fail(log, "a node where the relative update of " + v + " is " + num(mr), "node " + std::to_string(eq[v].GetRelErrorNodeIndex()));
    }
    same(log, "absolute error of the region", ta, r->GetAbsError<double>());
    same(log, "relative error of the region", tr, r->GetRelError<double>());
    std::vector<std::complex<double>> cres(base + N * vars.size()); 
    dsMath::ComplexDoubleVec_t<double> cr;
    for (auto &x : cres) { x = {rng.real(), rng.real()}; cr.push_back(dsMath::ComplexDouble_t<double>(x)); }
    r->ACUpdate<double>(cr);
    std::vector<PermutationEntry> pv; std::vector<int> pr;
    for (size_t i = 0; i < cr.size(); ++i) { pr.push_back(rng.coin(4) ? -1 : rng.in(0, int(cr.size()) - 1)); pv.push_back(PermutationEntry(size_t(pr.back()), rng.coin())); }
    r->NoiseUpdate<double>("out", pv, cr);
    for (size_t q = 0; q < vars.size(); ++q) {
      auto re = nodevals(m, vars[q] + "_Real"), im = nodevals(m, vars[q] + "_Imag"), nr = nodevals(m, "out_eq_" + vars[q] + "_real"), ni = nodevals(m, "out_eq_" + vars[q] + "_imag");
      for (int i = 0; i < N; ++i) {
        size_t row = base + q * N + i; std::complex<double> w = pr[row] < 0 ? 0 : cres[pr[row]];
        if (!same(log, "real part at row", cres[row].real(), re[i]) || !same(log, "imaginary part at row", cres[row].imag(), im[i])) return n;
        if (!same(log, "noise real part", w.real(), nr[i]) || !same(log, "noise imaginary part", w.imag(), ni[i])) return n;
      }
    }
    if (nfail > 5) break;
  }
  return n;
}
// all regions of a device
TEST(device) {
  long n = 0;
  for (int it = 0; it < 40 * scale; ++it) {
    Device *dev = nullptr; int nr = rng.in(1, 4), rows = rng.in(0, 5); std::vector<Mesh> ms; std::vector<int> base; std::vector<bool> has; std::vector<std::vector<double>> old; std::string log = std::to_string(nr) + " regions:"; ++n;
    for (int k = 0; k < nr; ++k) {
      Mesh m = mkmesh(rng, 1, 0, dev, std::string(1, char('a' + rng.in(0, 4))) + std::to_string(k), V3{10.0 * k, 0, 0}); dev = m.dev; ms.push_back(m); size_t N = m.p.size();
      old.push_back(rnd(rng, N)); setnode(m, "u", old.back()); has.push_back(!rng.coin(5)); base.push_back(rows);
      if (has.back()) { EquationHolder h(new ExprEquation<double>("eq", m.reg, "u", "", "", "", "", "", "", "", EquationEnum::DEFAULT)); m.reg->AddEquation(h); m.reg->SetBaseEquationNumber(rows); rows += int(N); }
      log += has.back() ? " solved" : " fixed";
    }
    std::vector<double> res(rows); double s = rng.coin(4) ? 0 : 1; for (auto &x : res) x = s * rng.real(-2, 2) * (rng.coin(4) ? 1 : 0.1);
    begin(log); dev->Update<double>(res); double ma = 0, sr = 0;
    for (int k = 0; k < nr; ++k) {
      auto got = nodevals(ms[k], "u"); double a = 0, r = 0;
      for (size_t i = 0; i < got.size(); ++i) { double e = has[k] ? res[base[k] + i] : 0; if (!same(log, "region " + std::to_string(k) + " u[" + std::to_string(i) + "]", old[k][i] + e, got[i], 1e-12)) return n; a = std::max(a, std::fabs(e)); r = std::max(r, std::fabs(e) / (std::fabs(old[k][i] + e) + 1e-10)); }
      ma = std::max(ma, a); sr += has[k] ? r : 0;
    }
    if (!same(log, "absolute error of the device", ma, dev->GetAbsError<double>()) || !same(log, "relative error of the device", sr, dev->GetRelError<double>())) return n;
    dsMath::ComplexDoubleVec_t<double> cr; std::vector<std::complex<double>> cres; std::vector<PermutationEntry> pv; std::vector<int> pr;
    for (int i = 0; i < rows; ++i) { cres.push_back({rng.real(), rng.real()}); cr.push_back(dsMath::ComplexDouble_t<double>(cres.back())); pr.push_back(rng.in(0, rows - 1)); }
    for (int i = 0; i < rows; ++i) pv.push_back(PermutationEntry(size_t(pr[i]), rng.coin()));
    dev->ACUpdate<double>(cr); dev->NoiseUpdate<double>("out", pv, cr);
    for (int k = 0; k < nr; ++k) if (has[k]) {
      auto re = nodevals(ms[k], "u_Real"), im = nodevals(ms[k], "u_Imag"), a = nodevals(ms[k], "out_eq_real"), b = nodevals(ms[k], "out_eq_imag");
      for (size_t i = 0; i < re.size(); ++i) {
        size_t row = base[k] + i; auto w = cres[pr[row]];
        if (!same(log, "real part", cres[row].real(), re[i]) || !same(log, "imaginary part", cres[row].imag(), im[i]) || !same(log, "noise real part", w.real(), a[i]) || !same(log, "noise imaginary part", w.imag(), b[i])) return n;
      }
    }
  }
  return n;
}
