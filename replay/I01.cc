#include "eqn.hh"
#include "Contact.hh"
#include "Interface.hh"
#include "Permutation.hh"
#include "ContactEquation.hh"
#include "ContactEquationHolder.hh"
#include "ExprContactEquation.hh"
#include "InterfaceEquation.hh"
#include "InterfaceEquationHolder.hh"
#include "InterfaceExprEquation.hh"
#include "InterfaceNodeModel.hh"
using namespace h;
struct IM : InterfaceNodeModel {
  std::vector<double> v;
  IM(const std::string &n, InterfacePtr i, const std::vector<double> &x) : InterfaceNodeModel(n, i), v(x) {}
  void derived_init() override {}
  void Serialize(std::ostream &) const override {}
  void calcNodeScalarValues() const override { SetValues(v); }
};
TEST(assembly) {
  long n = 0;
  for (int it = 0; it < 120 * scale; ++it) {
    int dim = it % 3 + 1;
    defaults();
    Mesh m[2]; m[0] = mkmesh(rng, dim); m[1] = mkmesh(rng, dim, 0, m[0].dev, "r1", {10, 0, 0});
    std::vector<std::string> order[2]; int base[2]; std::map<std::string, int> ix[2]; std::vector<double> sa[2];
    std::string e[2], en[2];
    std::vector<std::string> all{"u", "v", "w"};
    bool rename = rng.coin();
    for (int k = 0; k < 2; ++k) {
      order[k] = all; shuffle(order[k], rng);
      for (size_t i = 0; i < order[k].size(); ++i) ix[k][order[k][i]] = int(i);
      for (auto &x : order[k]) { setnode(m[k], x, rnd(rng, m[k].p.size())); EquationHolder q(new ExprEquation<double>("eq_" + x, m[k].reg, x, "", "", "", "", "", "", "", EquationEnum::DEFAULT)); m[k].reg->AddEquation(q); }
      base[k] = rng.in(0, 30) + 200 * k; m[k].reg->SetBaseEquationNumber(base[k]);
      sa[k] = rnd(rng, m[k].p.size()); setnode(m[k], "SA", sa[k]);
      e[k] = (rename || k == 0) ? all[rng.in(0, 2)] : e[0];
      en[k] = "eq_" + e[k];
    }
    param("surface_area_model", "SA");
    auto rowof = [&](int k, const std::string &v, int nd) { return base[k] + ix[k][v] * int(m[k].p.size()) + nd; };
    // interfaces: the first is under test, others may share nodes
    int ni = rng.in(1, 3); std::vector<Interface *> in; std::vector<std::vector<int>> nd[2]; std::vector<int> flip;
    for (int i = 0; i < ni; ++i) {
      std::vector<int> a[2]; for (int k = 0; k < 2; ++k) { for (size_t j = 0; j < m[k].p.size(); ++j) a[k].push_back(int(j)); shuffle(a[k], rng); }
      size_t len = rng.in(1, int(std::min(a[0].size(), a[1].size()))); a[0].resize(len); a[1].resize(len);
      ConstNodeList_t l[2]; for (int k = 0; k < 2; ++k) for (int x : a[k]) l[k].push_back(m[k].reg->GetNodeList()[x]);
      bool fl = i > 0 && rng.coin(); flip.push_back(fl);
      for (int k = 0; k < 2; ++k) nd[k].push_back(a[k]);
      in.push_back(new Interface("i" + std::to_string(i), m[fl].reg, m[!fl].reg, l[fl], l[!fl]));
      m[0].dev->AddInterface(in.back());
    }
    std::set<int> taken[2];
    for (int i = 1; i < ni; ++i) {
      if (rng.coin()) continue;
      std::string o0 = "eq_" + all[rng.in(0, 2)], o1 = rng.coin() ? o0 : "eq_" + all[rng.in(0, 2)];
      InterfaceEquationHolder q(new InterfaceExprEquation<double>("x" + std::to_string(i), o0, o1, in[i], "none", InterfaceExprEquationEnum::CONTINUOUS)); in[i]->AddInterfaceEquation(q);
      // o0 is the equation on the interface's first region
      const std::string &on0 = flip[i] ? o1 : o0, &on1 = flip[i] ? o0 : o1;
      if (on0 == en[0]) for (int x : nd[0][i]) taken[0].insert(x);
      if (on1 == en[1]) for (int x : nd[1][i]) taken[1].insert(x);
    }
    int nc = rng.in(0, 2);
    for (int i = 0; i < nc; ++i) {
      int k = rng.in(0, 1); ConstNodeList_t l; std::vector<int> a; for (size_t j = 0; j < m[k].p.size(); ++j) if (rng.coin(3)) { a.push_back(int(j)); l.push_back(m[k].reg->GetNodeList()[j]); }
      Contact *c = new Contact("c" + std::to_string(i), m[k].reg, l, "metal"); m[0].dev->AddContact(c);
      for (auto &v : all) if (rng.coin()) { ContactEquationHolder q(new ExprContactEquation<double>("eq_" + v, "", c, m[k].reg, "", "", "", "", "", "", "", "", "", "", "", "")); c->AddEquation(q); if ("eq_" + v == en[k]) for (int x : a) taken[k].insert(x); }
    }
    int kind = rng.in(1, 3); size_t L = nd[0][0].size();
    auto val = rnd(rng, L); std::shared_ptr<IM> im(new IM("im", in[0], val)); in[0]->AddInterfaceNodeModel(im);
    std::map<std::pair<int, std::string>, std::vector<double>> der;
    for (int k = 0; k < 2; ++k) for (auto &v : all) if (!rng.coin(3)) { auto d = rnd(rng, L); der[{k, v}] = d; std::string nm = "im:" + v + "@r" + std::to_string(k); std::shared_ptr<IM> q(new IM(nm, in[0], d)); in[0]->AddInterfaceNodeModel(q); }
    bool same_ = !rename && rng.coin();
    InterfaceEquationHolder q(new InterfaceExprEquation<double>(same_ ? en[0] : "ie", same_ ? "" : en[0], same_ ? "" : en[1], in[0], "im", InterfaceExprEquationEnum::EquationType(kind)));
    in[0]->AddInterfaceEquation(q);
    Vec F; Mat J; std::map<int, std::pair<int, bool>> P;
    for (size_t i = 0; i < L; ++i) {
      int a = nd[0][0][i], b = nd[1][0][i];
      if (taken[0].count(a) || taken[1].count(b)) continue;
      int r0 = rowof(0, e[0], a), r1 = rowof(1, e[1], b);
      auto put = [&](double x, const std::function<void(int, double)> &f) { if (kind == 1) f(r1, x); if (kind == 2) f(r0, x * sa[0][a]); if (kind > 1) f(r1, -x * sa[1][b]); };
      put(val[i], [&](int r, double x) { F[r] += x; });
      for (auto &d : der) put(d.second[i], [&](int r, double x) { J[{r, rowof(d.first.first, d.first.second, d.first.first ? b : a)}] += x; });
      if (kind != 2) P[r1] = {r0, kind == 3};
    }
    std::string id = m[0].log + " | " + m[1].log + " interface pairs="; for (size_t i = 0; i < L; ++i) id += std::to_string(nd[0][0][i]) + "/" + std::to_string(nd[1][0][i]) + " ";
    id += "taken0="; for (int x : taken[0]) id += std::to_string(x) + " "; id += "taken1="; for (int x : taken[1]) id += std::to_string(x) + " ";
    id += "type " + std::to_string(kind) + " equations " + en[0] + "/" + en[1];
    begin(id);
    for (int t = 0; t < 2; ++t) for (int w = 0; w < 4; ++w) {
      ++n;
      dsMath::RealRowColValueVec<double> mm; dsMath::RHSEntryVec<double> vv; PermutationMap p;
      q.Assemble(mm, vv, p, dsMathEnum::WhatToLoad(w), dsMathEnum::TimeMode(t));
      std::string s = std::string(t ? "time" : "DC") + (w == 0 ? " matrix only" : w == 1 ? " residual only" : w == 2 ? " matrix and residual" : " permutations only");
      cmpv(id, s, t || w == 0 || w == 3 ? Vec() : F, vsum(vv));
      cmpm(id, s, t || w == 1 || w == 3 ? Mat() : J, msum(mm));
      std::map<int, std::pair<int, bool>> got; for (auto &x : p) got[int(x.first)] = {int(x.second.GetRow()), x.second.KeepCopy()};
      auto want = t || w != 3 ? std::map<int, std::pair<int, bool>>() : P;
      if (got != want) fail(id, s + ": " + std::to_string(want.size()) + " rows folded", std::to_string(got.size()) + " rows or other targets");
    }
    if (nfail > 5) break;
  }
  return n;
}
