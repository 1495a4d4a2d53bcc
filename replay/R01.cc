#include "solve.hh"
#include "InstanceModel.hh"
#include "InstanceKeeper.hh"
#include "IdealResistor.hh"
using namespace h;
static void fresh() {
  auto &gd = GlobalData::GetInstance(); std::vector<std::string> del; for (auto &d : gd.GetDeviceList()) del.push_back(d.first);
  for (auto &d : del) gd.DeleteDevice(d);
  NodeKeeper::delete_instance(); TimeData<double>::DestroyInstance(); InstanceKeeper::delete_instance();
}
static std::string str(const float128 &x) { double d = double(x); return num(d) + " + " + num(double(x - float128(d))); }
struct Place { Mesh m; bool ext; std::vector<std::string> var, other; };
struct Sim {
  std::vector<Place> r; bool circuit; std::string log; std::vector<std::string> nodes;
  std::map<std::string, std::vector<float128>> v;
  static std::string key(size_t i, const std::string &n) { return "region " + std::to_string(i) + " " + n; }
  NodeModelPtr model(size_t i, const std::string &n) { return std::const_pointer_cast<NodeModel>(r[i].m.reg->GetNodeModel(n)); }
  std::vector<float128> read(size_t i, const std::string &n) { auto q = model(i, n); if (!q) return {}; if (r[i].ext) return q->GetScalarValues<float128>(); auto w = q->GetScalarValues<double>(); return std::vector<float128>(w.begin(), w.end()); }
  void write(size_t i, const std::string &n, Rng &rng) {
    size_t N = r[i].m.p.size(); std::vector<float128> x; auto q = model(i, n); if (!q) q = CreateNodeSolution(n, r[i].m.reg, NodeModel::DisplayType::SCALAR);
    bool uni = rng.coin(4); for (size_t j = 0; j < N; ++j) { float128 a = rng.real(-3, 3); if (uni && j) a = x[0]; else if (r[i].ext) a += float128(rng.real(-1, 1)) * float128(1e-22); x.push_back(a); }
    v[key(i, n)] = x; if (!r[i].ext) for (auto &a : v[key(i, n)]) a = double(a);
    if (uni && rng.coin()) { if (r[i].ext) q->SetValues(x[0]); else q->SetValues(double(x[0])); }
    else if (r[i].ext) q->SetValues(x); else q->SetValues(std::vector<double>([&] { std::vector<double> y; for (auto &a : x) y.push_back(double(a)); return y; }()));
  }
  // the same without looking at the models: reading one can change how it is stored
  std::map<std::string, std::vector<float128>> known() {
    auto s = v; if (circuit) for (auto &n : nodes) s["circuit node " + n] = {float128(NodeKeeper::instance().GetNodeValue("dcop", n))};
    return s;
  }
  // everything the user can see
  std::map<std::string, std::vector<float128>> state() {
    std::map<std::string, std::vector<float128>> s;
    for (size_t i = 0; i < r.size(); ++i) { for (auto &n : r[i].var) s[key(i, n)] = read(i, n); for (auto &n : r[i].other) s[key(i, n)] = read(i, n); }
    if (circuit) for (auto &n : nodes) s["circuit node " + n] = {float128(NodeKeeper::instance().GetNodeValue("dcop", n))};
    return s;
  }
};
static bool equal(const std::string &in, const std::map<std::string, std::vector<float128>> &w, const std::map<std::string, std::vector<float128>> &g) {
  for (auto &x : w) { auto &y = g.at(x.first); for (size_t j = 0; j < x.second.size(); ++j) if (y.size() != x.second.size() || x.second[j] != y[j]) { fail(in, x.first + "[" + std::to_string(j) + "] = " + str(x.second[j]), y.size() != x.second.size() ? std::to_string(y.size()) + " values" : str(y[j])); return false; } }
  return true;
}
static Sim sim(Rng &rng) {
  fresh(); Sim s; int nd = rng.in(1, 3); s.circuit = rng.coin(); s.log = std::to_string(nd) + " devices" + (s.circuit ? " with a circuit" : "");
  for (int d = 0; d < nd; ++d) {
    Device *dev = nullptr; int nr = rng.in(1, 2);
    for (int k = 0; k < nr; ++k) {
      Place r; r.m = mkmesh(rng, 1, 0, dev, "r" + std::to_string(k), V3{10.0 * k, 0, 0}); dev = r.m.dev; r.ext = rng.coin();
      GlobalData::GetInstance().AddDBEntryOnRegion(r.m.reg, "extended_model", ObjectHolder(r.ext));
      s.r.push_back(r); s.log += std::string(", region") + (r.ext ? " (extended)" : "");
    }
  }
  for (size_t i = 0; i < s.r.size(); ++i) {
    auto &r = s.r[i]; int nv = rng.in(0, 3);
    for (int k = 0; k < nv; ++k) { std::string n = std::string(1, char('u' + k)); r.var.push_back(n); s.write(i, n, rng); EquationHolder eq(new ExprEquation<double>("eq" + n, r.m.reg, n, "f", "", "", "", "", "", "q", EquationEnum::DEFAULT)); r.m.reg->AddEquation(eq); }
    for (const char *n : {"a", "u_init"}) { r.other.push_back(n); s.write(i, n, rng); }
    s.log += " " + std::to_string(nv) + " variables";
  }
  if (s.circuit) { auto &nk = NodeKeeper::instance(); nk.AddNode("0", CircuitNodeType::GROUND); int c = rng.in(1, 3); for (int i = 0; i < c; ++i) { s.nodes.push_back("n" + std::to_string(i)); nk.AddNode(s.nodes.back()); } nk.SetNodeNumbers(0, false); nk.InitializeSolution("dcop"); }
  return s;
}
TEST(backup) {
  long n = 0;
  for (int it = 0; it < 150 * scale; ++it) {
    Sim s = sim(rng); dsMath::Newton<double> nw; ++n;
    for (int k = 0; k < 3; ++k) {
      auto change = [&] {
        for (size_t i = 0; i < s.r.size(); ++i) for (auto &v : s.r[i].var) if (rng.coin(4) == false) s.write(i, v, rng);
        if (s.circuit) for (auto &c : s.nodes) NodeKeeper::instance().SetNodeValue("dcop", c, rng.real(-2, 2));
      };
      change(); std::string in = s.log + ", backup " + std::to_string(k + 1); begin(in);
      auto w = s.known(); nw.BackupSolutions(); if (rng.coin() && !equal(in, w, s.state())) return n;
      int times = rng.in(1, 2); for (int q = 0; q < times; ++q) { change(); nw.RestoreSolutions(); s.v = w; if (!equal(in + ", restored", w, s.state())) return n; }
      if (rng.coin()) { std::string x = "x" + std::to_string(k); size_t i = rng.in(0, int(s.r.size()) - 1); s.r[i].var.push_back(x); s.write(i, x, rng); auto *reg = s.r[i].m.reg; EquationHolder eq(new ExprEquation<double>("eq" + x, reg, x, "f", "", "", "", "", "", "q", EquationEnum::DEFAULT)); reg->AddEquation(eq); s.log += ", one more variable"; }
    }
  }
  return n;
}
// solves that fail at any iteration
TEST(failure) {
  long n = 0; solver_setup();
  for (int it = 0; it < 60 * scale; ++it) {
    Sim s; fresh(); int nd = rng.in(1, 3); s.circuit = rng.coin(); std::vector<Prob> p(2 * nd); std::vector<NodeModelPtr> keep; s.log = std::to_string(nd) + " devices" + (s.circuit ? " with a circuit" : ""); ++n;
    int c = 0;
    for (int d = 0; d < nd; ++d) {
      Device *dev = nullptr; int nr = rng.in(1, 2);
      for (int k = 0; k < nr; ++k, ++c) {
        Place r; r.m = mkmesh(rng, 1, 0, dev, "r" + std::to_string(k), V3{10.0 * k, 0, 0}); dev = r.m.dev; r.ext = rng.coin();
        GlobalData::GetInstance().AddDBEntryOnRegion(r.m.reg, "extended_model", ObjectHolder(r.ext)); size_t N = r.m.p.size();
        p[c].k = std::vector<double>(N, 1); p[c].e = rnd(rng, N); p[c].c = std::vector<double>(N, rng.coin() ? 0.0 : 2.0); p[c].a = p[c].k; p[c].b = std::vector<double>(N, 0);
        for (auto &x : problem(r.m, &p[c])) keep.push_back(x);
        r.var = {"u"}; s.r.push_back(r); s.write(c, "u", rng); s.log += std::string(", region") + (r.ext ? " (extended)" : "");
      }
    }
    if (s.circuit) {
      auto &nk = NodeKeeper::instance(); nk.AddNode("0", CircuitNodeType::GROUND); s.nodes = {"a", "b"}; for (auto &x : s.nodes) nk.AddNode(x);
      auto *i1 = new IdealResistor(&nk, "R1", "a", "b"), *i2 = new IdealResistor(&nk, "R2", "b", "0"), *i3 = new IdealResistor(&nk, "R3", "a", "0"); for (auto *q : {i1, i2, i3}) { q->addParam("R", rng.real(0.5, 2)); InstanceKeeper::instance().addInstanceModel(q); }
    }
    for (int k = 0; k < 3; ++k) {
      Dense ls; dsMath::Newton<double> nw; nw.SetAbsError(1e-12); nw.SetRelError(1e-12); nw.SetMaxAbsError(1e6); nw.SetMaxDiv(20); int mi = rng.in(1, 5); nw.SetMaxIter(mi); ls.bad = rng.coin() ? rng.in(0, 3) : -1;
      std::string in = s.log + ", iterations " + std::to_string(mi) + (ls.bad >= 0 ? ", linear solve " + std::to_string(ls.bad) + " fails" : "") + ", solve " + std::to_string(k + 1); begin(in);
      for (size_t i = 0; i < s.r.size(); ++i) s.write(i, "u", rng);
      if (s.circuit && k) for (auto &x : s.nodes) NodeKeeper::instance().SetNodeValue("dcop", x, rng.real(-2, 2));
      auto w = s.known();
      bool ok = nw.Solve(ls, dsMath::TimeMethods::DCOnly<double>(), nullptr);
      if (!ok && !equal(in + ", failed", w, s.state())) return n;
    }
  }
  return n;
}
