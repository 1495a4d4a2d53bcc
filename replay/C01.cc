#include "eqn.hh"
#include "Contact.hh"
#include "Permutation.hh"
#include "ContactEquation.hh"
#include "ContactEquationHolder.hh"
#include "ExprContactEquation.hh"
#include "NodeKeeper.hh"
#include "CircuitNode.hh"
using namespace h;
TEST(assembly) {
  long n = 0;
  for (int it = 0; it < 60 * scale; ++it) {
    int dim = it % 3 + 1;
    defaults();
    Mesh m = mkmesh(rng, dim);
    Region *r = m.reg;
    int N = int(m.p.size());
    std::vector<std::string> vars{"u", "v", "w"}, order = vars; shuffle(order, rng);
    std::string me = order[0]; shuffle(order, rng);
    for (auto &x : vars) setnode(m, x, rnd(rng, N));
    for (auto &v : order) { EquationHolder hld(new ExprEquation<double>("eq_" + v, r, v, "", "", "", "", "", "", "", EquationEnum::DEFAULT)); r->AddEquation(hld); }
    int base = rng.in(0, 40); r->SetBaseEquationNumber(base);
    std::map<std::string, int> ix; for (size_t i = 0; i < order.size(); ++i) ix[order[i]] = int(i);
    // circuit
    NodeKeeper::delete_instance();
    NodeKeeper &nk = NodeKeeper::instance();
    bool circuit = rng.coin(), ground = circuit && rng.coin(4);
    std::vector<std::string> cn{"a", "b", "c"}, sorted = cn; shuffle(cn, rng);
    for (auto &x : cn) nk.AddNode(x);
    nk.AddNode("0", CircuitNodeType::GROUND);
    int start = rng.in(0, 60); nk.SetNodeNumbers(start, false);
    std::string cnode; int crow = -1;
    if (circuit) { if (ground) cnode = "0"; else { int k = rng.in(0, 2); cnode = sorted[k]; crow = start + k; } }
    // contacts: the one under test and up to two others which may share nodes
    auto pick = [&]() { std::vector<int> q; int mode = rng.in(0, 3); for (int i = 0; i < N; ++i) if (mode == 0 || rng.coin()) q.push_back(i); if (q.empty()) q.push_back(rng.in(0, N - 1)); shuffle(q, rng); return q; };
    int nc = rng.in(1, 3), mine = rng.in(0, nc - 1);
    // another region of the device on the same coordinates: its contacts never matter
    Region *r2 = new Region("r1", "Si", dim, m.dev); m.dev->AddRegion(r2);
    std::vector<Node *> nd2; for (int i = 0; i < N; ++i) { nd2.push_back(new Node(i, const_cast<CoordinatePtr>(&r->GetNodeList()[i]->GetCoordinate()))); Node *q = nd2.back(); r2->AddNode(q); }
    std::vector<bool> there;
    std::vector<Contact *> cs; std::vector<std::set<int>> on; std::vector<int> mynodes;
    for (int i = 0; i < nc; ++i) {
      auto q = pick(); there.push_back(i != mine && rng.coin(4));
      ConstNodeList_t l; for (int x : q) l.push_back(there[i] ? nd2[x] : r->GetNodeList()[x]);
      on.push_back(std::set<int>(q.begin(), q.end()));
      if (i == mine) mynodes = q;
      cs.push_back(new Contact("ct" + std::to_string((i * 2) % 3), there[i] ? r2 : r, l, "metal"));
      m.dev->AddContact(cs.back());
    }
    // which models the contact equation has
    bool hn = rng.coin(), he = !rng.coin(3), hv = rng.coin(), hl = dim > 1 && !rng.coin(3), h0 = dim > 1 && rng.coin(), twoel = h0 && rng.coin(), cyl = rng.coin(3), cust = rng.coin(3);
    bool nI = rng.coin(), eI = rng.coin(), lI = dim > 1 && rng.coin(), nQ = rng.coin(), eQ = rng.coin(), lQ = dim > 1 && rng.coin();
    std::string en = rng.coin() ? "eq_" + me : "other";
    en = "eq_" + me;
    auto mk = [&](Contact *c, const std::string &name, bool mineq) {
      auto S = [&](bool b, const char *s) { return std::string(mineq && b ? s : ""); };
      return new ExprContactEquation<double>(name, mineq ? cnode : "", c, r, S(hn, "nm"), S(he, "em"), S(hv, "evm"), S(hl, "lm"), S(h0, "l0"), S(h0, twoel ? "l1" : "l0"), S(nI, "nI"), S(eI, "eI"), S(lI, "lI"), S(nQ, "nQ"), S(eQ, "eQ"), S(lQ, "lQ"));
    };
    std::vector<int> has(nc, 0);      // has an equation of the same name
    ContactEquationHolder hm;
    for (int i = 0; i < nc; ++i) {
      if (i == mine) { ContactEquationHolder q(mk(cs[i], en, true)); hm = q; cs[i]->AddEquation(q); has[i] = 1; }
      else {
        for (auto &v : vars) if (rng.coin()) { ContactEquationHolder q(mk(cs[i], "eq_" + v, false)); cs[i]->AddEquation(q); if ("eq_" + v == en) has[i] = 1; }
      }
    }
    // a shared node belongs to the first contact, in the order of the device, which has an equation of that name
    std::vector<int> active;
    for (int x : mynodes) {
      auto &l = m.dev->GetCoordinateIndexToContact().find(r->GetNodeList()[x]->GetCoordinate().GetIndex())->second;
      int first = -1;
      for (auto *c : l) { int i = int(std::find(cs.begin(), cs.end(), c) - cs.begin()); if (has[i] && !there[i]) { first = i; break; } }
      if (first == mine) active.push_back(x);
    }
    std::set<int> aset(active.begin(), active.end());
    if (cyl) { param("edge_node0_volume_model", "EV0"); param("edge_node1_volume_model", "EV1"); param("element_node0_volume_model", "LV0"); param("element_node1_volume_model", "LV1"); }
    if (cust) { param("node_volume_model", "NVc"); param("edge_couple_model", "ECc"); param("element_edge_couple_model", "LCc"); }
    auto W = [&](Kind k, const char *a) { auto v = rnd(rng, nvals(m, k)); setany(m, k, a, v); return v; };
    auto ev0 = W(EDGE, cyl ? "EV0" : "EVs"), ev1 = cyl ? W(EDGE, "EV1") : ev0;
    std::vector<double> lv0, lv1, lc;
    if (!cyl) { param("edge_node0_volume_model", "EVs"); param("edge_node1_volume_model", "EVs"); }
    if (dim > 1) { lv0 = W(ELEM, cyl ? "LV0" : "LVs"); lv1 = cyl ? W(ELEM, "LV1") : lv0; if (!cyl) { param("element_node0_volume_model", "LVs"); param("element_node1_volume_model", "LVs"); } }
    auto nv = cust ? W(NODE, "NVc") : nodevals(m, "NodeVolume"); auto ec = cust ? W(EDGE, "ECc") : edgevals(m, "EdgeCouple");
    if (dim > 1) lc = cust ? W(ELEM, "LCc") : dim == 2 ? trivals(m, "ElementEdgeCouple") : tetvals(m, "ElementEdgeCouple");
    auto row = [&](int nd) { return base + ix[me] * N + nd; };
    auto col = [&](const std::string &v, int nd) { return base + ix[v] * N + nd; };
    Vec F[2]; Mat J[2]; double I[2] = {0, 0};
    auto mkc = [&](Kind k, const std::string &name) { std::vector<double> cd; if (!rng.coin(3)) { cd = rnd(rng, nvals(m, k)); setany(m, k, name + ":" + (cnode.empty() ? "nocircuit" : cnode), cd); } return cd; };
    // circuit: into the row of the circuit node; inner: value integrated for the terminal
    auto stampc = [&](Kind k, const std::string &name, const std::vector<double> &w, double s0, double s1, int t, bool oncirc, bool integral) {
      Data d = mkdata(m, k, name, vars, rng);
      std::vector<double> cd; bool hc = rng.coin();
      if (hc) { cd = rnd(rng, d.v.size()); setany(m, k, name + ":" + (cnode.empty() ? "nocircuit" : cnode), cd); }
      return [=, &m, &F, &J, &I](int part) {
        (void)part;
        for (size_t i = 0; i < d.v.size(); ++i) {
          auto s = slot(m, k, i);
          if (oncirc && k != NODE && s0 == -s1 && aset.count(s[0]) && aset.count(s[1])) continue;
          for (int e = 0; e < (k == NODE ? 1 : 2); ++e) {
            if (!aset.count(s[e])) continue;
            double sg = e ? s1 : s0;
            if (integral) I[t] += sg * d.v[i] * w[i];
            if (oncirc && crow < 0) continue;
            int ro = oncirc ? crow : row(s[e]);
            F[t][ro] += sg * d.v[i] * w[i];
            for (auto &q : d.d) for (size_t j = 0; j < s.size(); ++j) J[t][{ro, col(q.first, s[j])}] += sg * q.second[j][i] * w[i];
            if (hc && crow >= 0) J[t][{ro, crow}] += sg * cd[i] * w[i];
          }
        }
      };
    };
    if (hn) stampc(NODE, "nm", nv, 1, 1, 0, false, false)(0);
    if (he) stampc(EDGE, "em", ec, 1, -1, 0, false, false)(0);
    if (hv) { if (cyl) { /* one model, two weights */
        Data d = mkdata(m, EDGE, "evm", vars, rng); auto cd = mkc(EDGE, "evm");
        for (size_t i = 0; i < d.v.size(); ++i) { auto s = slot(m, EDGE, i); for (int e = 0; e < 2; ++e) if (aset.count(s[e])) { double w = e ? ev1[i] : ev0[i]; F[0][row(s[e])] += d.v[i] * w; for (auto &q : d.d) for (int j = 0; j < 2; ++j) J[0][{row(s[e]), col(q.first, s[j])}] += q.second[j][i] * w; if (crow >= 0 && !cd.empty()) J[0][{row(s[e]), crow}] += cd[i] * w; } }
      } else stampc(EDGE, "evm", ev0, 1, 1, 0, false, false)(0); }
    if (hl) stampc(ELEM, "lm", lc, 1, -1, 0, false, false)(0);
    if (h0) {
      Data d0 = mkdata(m, ELEM, "l0", vars, rng), d1 = twoel ? mkdata(m, ELEM, "l1", vars, rng) : d0;
      auto cd0 = mkc(ELEM, "l0"), cd1 = twoel ? mkc(ELEM, "l1") : cd0;
      for (int e = 0; e < 2; ++e) { auto &d = e ? d1 : d0; auto &w = e ? lv1 : lv0; auto &cd = e ? cd1 : cd0;
        for (size_t i = 0; i < d.v.size(); ++i) { auto s = slot(m, ELEM, i); if (!aset.count(s[e])) continue; F[0][row(s[e])] += d.v[i] * w[i]; for (auto &q : d.d) for (size_t j = 0; j < s.size(); ++j) J[0][{row(s[e]), col(q.first, s[j])}] += q.second[j][i] * w[i]; if (crow >= 0 && !cd.empty()) J[0][{row(s[e]), crow}] += cd[i] * w[i]; } }
    }
    for (int t = 0; t < 2; ++t) {
      if (t ? nQ : nI) { auto f = stampc(NODE, t ? "nQ" : "nI", nv, 1, 1, t, true, true); f(0); }
      if (t ? eQ : eI) { auto f = stampc(EDGE, t ? "eQ" : "eI", ec, 1, -1, t, true, true); f(0); }
      if (t ? lQ : lI) { auto f = stampc(ELEM, t ? "lQ" : "lI", lc, 1, -1, t, true, true); f(0); }
    }
    std::string in = m.log + " contact nodes="; for (int x : mynodes) in += std::to_string(x) + " ";
    in += "active="; for (int x : active) in += std::to_string(x) + " ";
    in += "equation " + en + " base " + std::to_string(base) + " circuit '" + cnode + "' row " + std::to_string(crow) + (hn ? " node" : "") + (he ? " edge" : "") + (hv ? " edge-volume" : "") + (hl ? " element" : "") + (h0 ? " element-volume" : "") + (cyl ? " unequal volumes" : "") + (nI ? " node-current" : "") + (eI ? " edge-current" : "") + (lI ? " element-current" : "") + (nQ ? " node-charge" : "") + (eQ ? " edge-charge" : "") + (lQ ? " element-charge" : "");
    begin(in);
    for (int t = 0; t < 2; ++t) for (int w = 0; w < 4; ++w) {
      ++n;
      dsMath::RealRowColValueVec<double> mm; dsMath::RHSEntryVec<double> vv; PermutationMap p;
      hm.Assemble(mm, vv, p, dsMathEnum::WhatToLoad(w), dsMathEnum::TimeMode(t));
      std::string q = std::string(t ? "time" : "DC") + (w == 0 ? " matrix only" : w == 1 ? " residual only" : w == 2 ? " matrix and residual" : " permutations only");
      cmpv(in, q, w == 0 || w == 3 ? Vec() : F[t], vsum(vv));
      cmpm(in, q, w == 1 || w == 3 ? Mat() : J[t], msum(mm));
      Vec pw, pg;
      if (w == 3 && hn) for (int x : active) pw[row(x)] = 1;
      for (auto &x : p) { pg[int(x.first)] = 1; if (x.second.GetRow() != size_t(-1) || x.second.KeepCopy()) fail(in, q + " row " + std::to_string(x.first) + " dropped", "kept"); }
      if (w == 3) cmpv(in, q + " dropped", pw, pg); else for (auto &x : pg) if (std::find(active.begin(), active.end(), x.first - row(0)) == active.end()) fail(in, q + " no other row dropped", std::to_string(x.first));
    }
    hm.UpdateContact();
    same(in, "current", I[0], hm.GetCurrent<double>());
    same(in, "charge", I[1], hm.GetCharge<double>());
    n += 2;
    if (nfail > 5) break;
  }
  return n;
}
