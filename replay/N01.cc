#include "eqn.hh"
#include "NodeKeeper.hh"
#include "CircuitNode.hh"
#define private public
#include "Newton.hh"
#undef private
#include "dsException.hh"
using namespace h;
// histories of adding, replacing and deleting equations against a reference list
TEST(tables) {
  long n = 0;
  for (int it = 0; it < 60 * scale; ++it) {
    Mesh m = mkmesh(rng, 1, rng.in(1, 2)); Region *r = m.reg; ++n;
    std::vector<std::pair<std::string, std::string>> ref;     // index -> (name, variable)
    std::map<std::string, EquationHolder> held; std::string log;
    std::vector<std::string> names{"a", "b", "c", "d"}, vars{"u", "v", "w", "x"};
    for (int s = 0; s < 12; ++s) {
      std::string nm = names[rng.in(0, 3)];
      size_t at = 0; while (at < ref.size() && ref[at].first != nm) ++at;
      if (rng.coin(3)) {
        if (at == ref.size()) continue;
        log += " delete " + nm; begin(log);
        r->DeleteEquation(held[nm]); ref.erase(ref.begin() + at); held.erase(nm);
      } else {
        std::string v = vars[rng.in(0, 3)];
        size_t o = 0; while (o < ref.size() && ref[o].second != v) ++o;
        log += " add " + nm + "(" + v + ")"; begin(log);
        EquationHolder h(new ExprEquation<double>(nm, r, v, "", "", "", "", "", "", "", EquationEnum::DEFAULT));
        bool refused = false;
        try { r->AddEquation(h); } catch (const dsException &) { refused = true; }
        bool want = o < ref.size() && ref[o].first != nm;
        if (refused != want) fail(log, want ? "refused, the variable belongs to another equation" : "accepted", refused ? "refused" : "accepted");
        if (!want) { if (at == ref.size()) ref.push_back({nm, v}); else ref[at].second = v; held[nm] = h; }
        if (refused != want) return n;
      }
      std::set<std::string> got, wantv;
      for (auto &q : r->GetVariableList()) got.insert(q);
      for (size_t i = 0; i < ref.size(); ++i) {
        wantv.insert(ref[i].second);
        if (r->GetEquationIndex(ref[i].first) != i) fail(log, "index of " + ref[i].first + " = " + std::to_string(i), std::to_string(r->GetEquationIndex(ref[i].first)));
        if (r->GetEquationNameFromVariable(ref[i].second) != ref[i].first) fail(log, "equation of variable " + ref[i].second + " is " + ref[i].first, r->GetEquationNameFromVariable(ref[i].second));
      }
      for (auto &v : vars) if (!wantv.count(v) && !r->GetEquationNameFromVariable(v).empty()) fail(log, "no equation for variable " + v, r->GetEquationNameFromVariable(v));
      for (auto &q : names) { bool in = false; for (auto &x : ref) in = in || x.first == q; if (!in && r->GetEquationIndex(q) != size_t(-1)) fail(log, "no index for " + q, std::to_string(r->GetEquationIndex(q))); }
      if (got != wantv || r->GetVariableList().size() != wantv.size()) fail(log, "the solution variables", "another list");
      if (r->GetNumberEquations() != ref.size()) fail(log, "number of equations " + std::to_string(ref.size()), std::to_string(r->GetNumberEquations()));
      if (nfail) return n;
    }
  }
  return n;
}
// rows of all regions, devices and circuit nodes
TEST(rows) {
  long n = 0;
  for (int it = 0; it < 40 * scale; ++it) {
    ++n;
    GlobalData &gd = GlobalData::GetInstance();
    std::vector<std::string> del; for (auto &d : gd.GetDeviceList()) del.push_back(d.first);
    for (auto &d : del) gd.DeleteDevice(d);
    NodeKeeper::delete_instance();
    std::vector<Mesh> ms; std::string log; std::vector<std::pair<Region *, std::vector<std::string>>> rg;
    int nd = rng.in(1, 3);
    for (int d = 0; d < nd; ++d) {
      Device *dev = nullptr; int nr = rng.in(1, 3), dim = rng.in(1, 2);
      for (int q = 0; q < nr; ++q) {
        Mesh m = mkmesh(rng, dim, 0, dev, "r" + std::to_string(rng.in(0, 9)) + std::to_string(q)); dev = m.dev;
        std::vector<std::string> e; int ne = rng.in(0, 3);
        for (int k = 0; k < ne; ++k) { std::string s(1, char('c' - k)); e.push_back(s); EquationHolder h(new ExprEquation<double>(s, m.reg, "v" + s, "", "", "", "", "", "", "", EquationEnum::DEFAULT)); m.reg->AddEquation(h); }
        rg.push_back({m.reg, e}); log += " " + dev->GetName() + "/" + m.reg->GetName() + ":" + std::to_string(ne) + "x" + std::to_string(m.p.size());
      }
    }
    std::vector<std::string> cn, gn; std::map<std::string, std::string> alias;
    NodeKeeper &nk = NodeKeeper::instance();
    if (rng.coin()) {
      int k = rng.in(1, 4); nk.AddNode("0", CircuitNodeType::GROUND); gn.push_back("0");
      if (rng.coin(3)) { nk.AddNode("GND", CircuitNodeType::GROUND); gn.push_back("GND"); }
      for (int i = 0; i < k; ++i) { std::string s(1, char('z' - rng.in(0, 20))); s += std::to_string(i); nk.AddNode(s, rng.coin() ? CircuitNodeType::DEFAULT : CircuitNodeType::MNA); cn.push_back(s); }
      if (rng.coin()) { nk.AddNodeAlias("alias", cn[0]); alias["alias"] = cn[0]; }
      log += " circuit:"; for (auto &s : cn) log += " " + s;
    }
    param("debug_level", "info"); begin(log);
    dsMath::Newton<double> nw;
    size_t dim = nw.NumberEquationsAndSetDimension();
    std::map<size_t, std::string> owner; size_t total = 0;
    auto claim = [&](size_t row, const std::string &who) { ++total; if (row >= dim) fail(log, "a row below " + std::to_string(dim) + " for " + who, std::to_string(row)); if (owner.count(row)) fail(log, "own row for " + who, "row " + std::to_string(row) + " of " + owner[row]); owner[row] = who; };
    for (auto &q : rg) for (auto &e : q.second) for (auto *nd : q.first->GetNodeList()) claim(q.first->GetEquationNumber(q.first->GetEquationIndex(e), nd), q.first->GetName() + "/" + e + "/" + std::to_string(nd->GetIndex()));
    for (auto &s : cn) claim(nk.GetEquationNumber(s), s);
    for (auto &s : gn) if (nk.GetEquationNumber(s) != size_t(-1)) fail(log, "no row for ground", std::to_string(nk.GetEquationNumber(s)));
    for (auto &a : alias) if (nk.GetEquationNumber(a.first) != nk.GetEquationNumber(a.second)) fail(log, "alias and node share a row", "different rows");
    if (total != dim) fail(log, "number of rows " + std::to_string(total), std::to_string(dim));
    if (nfail) return n;
  }
  return n;
}
