#include "mesh.hh"
#include "NodeKeeper.hh"
#include "InstanceKeeper.hh"
#include "InstanceModel.hh"
#include "IdealResistor.hh"
#include "IdealCapacitor.hh"
#include "IdealInductor.hh"
#include "IdealVoltage.hh"
#include "IdealCurrent.hh"
#include "Signal.hh"
#include "MatrixEntries.hh"
#include <complex>
#include <map>
using namespace h;
typedef std::map<std::pair<int, int>, double> Mat; typedef std::map<int, double> Vec;
static std::string name_of(int i) { return i < 0 ? std::string(i == -1 ? "0" : "GND") : "n" + std::to_string(i); }
static bool eqm(const std::string &in, const std::string &what, const Mat &w, const dsMath::RealRowColValueVec<double> &g) {
  Mat q; for (auto &x : g) q[{x.row, x.col}] += x.val;
  for (auto *p : {&w, static_cast<const Mat *>(&q)}) for (auto &e : *p) {
    double a = w.count(e.first) ? w.at(e.first) : 0, b = q.count(e.first) ? q.at(e.first) : 0;
    if (std::isnan(b) || std::abs(a - b) > 1e-9 * (1 + std::abs(a))) { fail(in, what + " matrix (" + std::to_string(e.first.first) + "," + std::to_string(e.first.second) + ") = " + num(a), num(b)); return false; }
  }
  return true;
}
static bool eqv(const std::string &in, const std::string &what, const Vec &w, const dsMath::RHSEntryVec<double> &g) {
  Vec q; for (auto &x : g) q[x.first] += x.second;
  for (auto *p : {&w, static_cast<const Vec *>(&q)}) for (auto &e : *p) {
    double a = w.count(e.first) ? w.at(e.first) : 0, b = q.count(e.first) ? q.at(e.first) : 0;
    if (std::isnan(b) || std::abs(a - b) > 1e-9 * (1 + std::abs(a))) { fail(in, what + " row " + std::to_string(e.first) + " = " + num(a), num(b)); return false; }
  }
  return true;
}
struct Wrong { };
static NodeKeeper &fresh_circuit() {
  NodeKeeper::delete_instance(); InstanceKeeper::delete_instance(); NodeKeeper &nk = NodeKeeper::instance();
  nk.AddNode("0", CircuitNodeType::GROUND); nk.AddNode("GND", CircuitNodeType::GROUND); return nk;
}
TEST(elements) {
  long n = 0;
  for (int it = 0; it < 400 * scale; ++it) {
    ++n; NodeKeeper &nk = fresh_circuit(); int N = rng.in(1, 4); for (int i = 0; i < N; ++i) nk.AddNode(name_of(i));
    int a = rng.in(-2, N - 1), b = rng.in(-2, N - 1), kind = rng.in(0, 4); double val = rng.real(0.2, 3) * (rng.coin() ? 1 : -1), re = rng.real(-2, 2), im = rng.real(-2, 2), scl = rng.real(-3, 3);
    const char *kn[] = {"R", "C", "L", "V", "I"}; std::string nm = std::string(kn[kind]) + "1", A = name_of(a), B = name_of(b);
    InstanceModel *m; bool small = rng.coin(); SignalPtr sg(new DCOnly(kind > 2 ? 0.5 : 0.0));
    if (kind == 0) m = new IdealResistor(&nk, nm.c_str(), A.c_str(), B.c_str()); else if (kind == 1) m = new IdealCapacitor(&nk, nm.c_str(), A.c_str(), B.c_str());
    else if (kind == 2) m = new IdealInductor(&nk, nm.c_str(), A.c_str(), B.c_str()); else if (kind == 3) m = small ? new IdealVoltage(&nk, nm.c_str(), A.c_str(), B.c_str(), 0.5, re, im, sg) : new IdealVoltage(&nk, nm.c_str(), A.c_str(), B.c_str(), 0.5, sg);
    else m = new IdealCurrent(&nk, nm.c_str(), A.c_str(), B.c_str(), 0.5, sg);
    InstanceModelPtr hold(m);
    std::string in = nm + " from " + A + " to " + B + " value " + num(val); begin(in);
    double def = kind < 3 ? 1 : 0.5, v = def;
    if (rng.coin(4)) { if (!m->addParam(kn[kind], val)) { fail(in, "parameter accepted", "refused"); return n; } v = val; }
    if (m->addParam("Q", 7.0)) { fail(in, "an unknown parameter is refused", "accepted"); return n; }
    if (kind == 3 && !small) { re = im = 0; if (rng.coin()) { re = 1.5; if (!m->addParam("acreal", re)) { fail(in, "acreal accepted", "refused"); return n; } } if (rng.coin()) { im = -0.5; if (!m->addParam("acimag", im)) { fail(in, "acimag accepted", "refused"); return n; } } }
    nk.SetNodeNumbers(5, false); size_t K = nk.getNumberNodes(); std::vector<double> sol = rnd(rng, K);
    if (size_t(N + (kind == 2 || kind == 3)) != K) { fail(in, std::to_string(N + (kind == 2 || kind == 3)) + " circuit nodes", std::to_string(K)); return n; }
    if (rng.coin(3)) for (auto &y : sol) y = rng.coin() ? 0.0 : 0.75;
    int r[3]; double x[3]; std::string nd[3] = {A, B, nm + ".I"};
    for (int i = 0; i < 3; ++i) { r[i] = int(nk.GetIndexNumber(nd[i])); x[i] = r[i] >= 0 ? sol[r[i]] : 0; }
    Mat dm, tm; Vec dv, tv; auto M = [&](Mat &q, int i, int j, double y) { if (r[i] >= 0 && r[j] >= 0) q[{r[i], r[j]}] += y; }; auto V = [&](Vec &q, int i, double y) { if (r[i] >= 0) q[r[i]] += y; };
    auto two = [&](Mat &q, Vec &p, double g) { V(p, 0, g * (x[0] - x[1])); V(p, 1, -g * (x[0] - x[1])); M(q, 0, 0, g); M(q, 0, 1, -g); M(q, 1, 0, -g); M(q, 1, 1, g); };
    if (kind == 0) two(dm, dv, 1 / v); if (kind == 1) two(tm, tv, scl * v);
    if (kind == 2 || kind == 3) {
      double s = kind == 2 ? -1 : 1; V(dv, 0, x[2]); V(dv, 1, -x[2]); M(dm, 0, 2, 1); M(dm, 1, 2, -1); V(dv, 2, s * (x[0] - x[1]) - (kind == 3 ? v : 0)); M(dm, 2, 0, s); M(dm, 2, 1, -s);
      if (kind == 2) { V(tv, 2, scl * v * x[2]); M(tm, 2, 2, scl * v); }
    }
    if (kind == 4) { V(dv, 0, -v); V(dv, 1, v); }
    dsMath::RealRowColValueVec<double> gm, hm; dsMath::RHSEntryVec<double> gv, hv, hv2; m->assembleDC(sol, gm, gv); m->assembleTran(scl, sol, &hm, hv); m->assembleTran(scl, sol, nullptr, hv2);
    if (!eqm(in, "steady", dm, gm) || !eqv(in, "steady", dv, gv) || !eqm(in, "time", tm, hm) || !eqv(in, "time", tv, hv) || !eqv(in, "time (no matrix)", tv, hv2)) return n;
    std::vector<std::pair<size_t, std::complex<double>>> ac; m->assembleACRHS(ac);
    std::map<size_t, std::complex<double>> w, g; if (kind == 3) w[r[2]] = {re, im}; for (auto &q : ac) g[q.first] += q.second;
    if (w != g) { fail(in, "small-signal source " + num(re) + " + " + num(im) + " i", std::to_string(ac.size()) + " entries"); return n; }
  }
  return n;
}
TEST(solutions) {
  long n = 0;
  for (int it = 0; it < 300 * scale; ++it) {
    ++n; NodeKeeper &nk = fresh_circuit(); int N = rng.in(1, 6); std::vector<std::string> nd; std::vector<int> ut;
    for (int i = 0; i < N; ++i) { int u = rng.in(0, 1); nd.push_back(std::string(1, char('A' + rng.in(0, 25))) + std::to_string(i)); ut.push_back(u); nk.AddNode(nd.back(), CircuitNodeType::DEFAULT, u ? CircuitUpdateType::LOGDAMP : CircuitUpdateType::DEFAULT); }
    std::string in = std::to_string(N) + " nodes, step " + std::to_string(it); begin(in);
    auto p = nk.AddNode(nd[0], CircuitNodeType::INTERNAL, CircuitUpdateType::DEFAULT);
    if (p->getCircuitNodeType() != CircuitNodeType::DEFAULT || int(p->getUpdateType() == CircuitUpdateType::LOGDAMP) != ut[0]) { fail(in, "adding a known node keeps it", "it changed"); return n; }
    int al = rng.in(0, N - 1); nk.AddNodeAlias("alias", nd[al]);
    int first = rng.in(0, 3); nk.SetNodeNumbers(first, false);
    for (const char *s : {"dcop", "other", "re", "im"}) { nk.InitializeSolution(s); }
    if (nk.GetSolutionVector("dcop").size() != size_t(N)) { fail(in, std::to_string(N) + " values", std::to_string(nk.GetSolutionVector("dcop").size())); return n; }
    std::map<std::string, std::vector<double>> w; for (const char *s : {"dcop", "other", "re", "im"}) w[s] = std::vector<double>(N, 0.0);
    auto ix = [&](int i) { return nk.GetIndexNumber(nd[i]); };
    auto check = [&](const std::string &what) {
      for (auto &q : w) for (int i = 0; i < N; ++i) for (const std::string &nm : {nd[i], i == al ? std::string("alias") : nd[i]}) { double g = nk.GetNodeValue(q.first, nm); if (std::isnan(g) || std::abs(g - q.second[i]) > 1e-9 * (1 + std::abs(g))) { fail(in + " after " + what, "solution " + q.first + " node " + nm + " = " + num(q.second[i]), num(g)); return false; } }
      if (nk.GetNodeValue("dcop", "0") != 0 || nk.GetNodeValue("dcop", "none") != 0) { fail(in + " after " + what, "no value for ground", "a value"); return false; }
      return true;
    };
    if (!check("creation")) return n;
    for (int op = 0; op < 12; ++op) {
      int k = rng.in(0, 4); const char *S[] = {"dcop", "other", "re", "im"};
      if (k == 0) {
        int i = rng.in(-2, N - 1); double v = rng.real(-2, 2); const char *s = S[rng.in(0, 3)]; nk.SetNodeValue(s, i == -2 ? std::string("0") : i == -1 ? std::string("alias") : nd[i], v); if (i != -2) w[s][i == -1 ? al : i] = v; if (!check("setting a value")) return n;
      } else if (k == 1) {
        const char *a = S[rng.in(0, 3)], *b = S[rng.in(0, 3)]; if (a == b) continue; nk.CopySolution(a, b); w[b] = w[a]; if (!check("copy")) return n;
      } else if (k == 2) {
        nk.InitializeSolution("dcop"); if (!check("initializing again")) return n;
      } else if (k == 3) {
        const char *s = S[rng.in(0, 3)]; std::vector<double> r = rnd(rng, N + first + rng.in(0, 2)); for (auto &x : r) if (rng.coin()) x *= 0.01; double err = 0, rel = 0;
        for (int i = 0; i < N; ++i) { double u = r[first + ix(i)]; if (ut[i] && std::abs(u) > 0.0259) u = (u > 0 ? 1 : -1) * 0.0259 * std::log(1 + std::abs(u) / 0.0259); w[s][i] += u; err += std::abs(u); rel = std::max(rel, std::abs(u) / (std::abs(w[s][i]) + 1e-10)); }
        nk.UpdateSolution(s, r); if (!check("update")) return n;
        if (std::abs(nk.GetAbsError(s) - err) > 1e-9 * (1 + err)) { fail(in, "absolute error " + num(err), num(nk.GetAbsError(s))); return n; }
        if (std::abs(nk.GetRelError(s) - rel) > 1e-9 * (1 + rel)) { fail(in, "relative error " + num(rel), num(nk.GetRelError(s))); return n; }
      } else {
        std::vector<std::complex<double>> r; for (int i = 0; i < N + first; ++i) r.push_back({rng.real(-2, 2), rng.real(-2, 2)}); nk.ACUpdateSolution("re", "im", r); for (int i = 0; i < N; ++i) { w["re"][i] = r[first + ix(i)].real(); w["im"][i] = r[first + ix(i)].imag(); }
        if (!check("small-signal update")) return n;
      }
    }
  }
  return n;
}
