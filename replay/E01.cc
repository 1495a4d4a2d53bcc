#include "eqn.hh"
using namespace h;
TEST(assembly) {
  long n = 0;
  for (int it = 0; it < 45 * scale; ++it) {
    int dim = it % 3 + 1;
    defaults();
    Mesh m = mkmesh(rng, dim);
    Region *r = m.reg;
    std::vector<std::string> vars{"u", "v", "w"};
    std::vector<std::string> order = vars; shuffle(order, rng);
    std::vector<std::string> nb = order; shuffle(nb, rng);
    std::string me = order[0];
    for (auto &x : vars) setnode(m, x, rnd(rng, m.p.size()));
    // which models the equation has
    bool hn = rng.coin(), he = !rng.coin(3), hv = rng.coin(), hl = dim > 1 && !rng.coin(3), h0 = dim > 1 && rng.coin(), ht = rng.coin();
    bool cyl = rng.coin(3);
    if (cyl) { param("edge_node0_volume_model", "EV0"); param("edge_node1_volume_model", "EV1"); param("element_node0_volume_model", "LV0"); param("element_node1_volume_model", "LV1"); }
    bool cust = rng.coin(3);
    if (cust) { param("node_volume_model", "NVc"); param("edge_couple_model", "ECc"); param("element_edge_couple_model", "LCc"); }
    auto W = [&](Kind k, const char *a) { auto v = rnd(rng, nvals(m, k)); setany(m, k, a, v); return v; };
    auto ev0 = W(EDGE, cyl ? "EV0" : "EVs"), ev1 = cyl ? W(EDGE, "EV1") : ev0;
    std::vector<double> lv0, lv1, lc;
    if (!cyl) { param("edge_node0_volume_model", "EVs"); param("edge_node1_volume_model", "EVs"); }
    if (dim > 1) { lv0 = W(ELEM, cyl ? "LV0" : "LVs"); lv1 = cyl ? W(ELEM, "LV1") : lv0; if (!cyl) { param("element_node0_volume_model", "LVs"); param("element_node1_volume_model", "LVs"); } }
    auto nv = cust ? W(NODE, "NVc") : nodevals(m, "NodeVolume"); auto ec = cust ? W(EDGE, "ECc") : edgevals(m, "EdgeCouple");
    if (dim > 1) lc = cust ? W(ELEM, "LCc") : dim == 2 ? trivals(m, "ElementEdgeCouple") : tetvals(m, "ElementEdgeCouple");
    bool twoel = h0 && rng.coin();
    auto eq = [&](const std::string &v) {
      bool y = v == me;
      return new ExprEquation<double>("eq_" + v, r, v, y && hn ? "nm" : "", y && he ? "em" : "", y && hv ? "evm" : "", y && hl ? "lm" : "", y && h0 ? "l0" : "", y && h0 ? (twoel ? "l1" : "l0") : "", y && ht ? "tm" : "", EquationEnum::DEFAULT);
    };
    EquationHolder mine;
    for (auto &v : order) { EquationHolder hld(eq(v)); if (v == me) mine = hld; r->AddEquation(hld); }
    int base = rng.in(0, 40); r->SetBaseEquationNumber(base);
    int N = int(m.p.size());
    std::map<std::string, int> ix; for (size_t i = 0; i < order.size(); ++i) ix[order[i]] = int(i);
    auto row = [&](int nd) { return base + ix[me] * N + nd; };
    auto col = [&](const std::string &v, int nd) { return base + ix[v] * N + nd; };
    Vec F[2]; Mat J[2];
    Data d;
    if (hn) { d = mkdata(m, NODE, "nm", vars, rng); stamp(m, NODE, d, nv, 1, 1, row, col, F[0], J[0]); }
    if (he) { d = mkdata(m, EDGE, "em", vars, rng); stamp(m, EDGE, d, ec, 1, -1, row, col, F[0], J[0]); }
    if (hv) d = mkdata(m, EDGE, "evm", vars, rng);
    if (hv && he) { stamp(m, EDGE, d, ev0, 1, 0, row, col, F[0], J[0]); stamp(m, EDGE, d, ev1, 0, 1, row, col, F[0], J[0]); }
    if (hl) { d = mkdata(m, ELEM, "lm", vars, rng); stamp(m, ELEM, d, lc, 1, -1, row, col, F[0], J[0]); }
    if (h0) { d = mkdata(m, ELEM, "l0", vars, rng); Data d1 = twoel ? mkdata(m, ELEM, "l1", vars, rng) : d; stamp(m, ELEM, d, lv0, 1, 0, row, col, F[0], J[0]); stamp(m, ELEM, d1, lv1, 0, 1, row, col, F[0], J[0]); }
    if (ht) { d = mkdata(m, NODE, "tm", vars, rng); stamp(m, NODE, d, nv, 1, 1, row, col, F[1], J[1]); }
    std::string in = m.log + " equation for " + me + " (number " + std::to_string(ix[me]) + ", base " + std::to_string(base) + ")" + (hn ? " node" : "") + (he ? " edge" : "") + (hv ? " edge-volume" : "") + (hl ? " element" : "") + (h0 ? " element-volume" : "") + (ht ? " time" : "") + (cyl ? " unequal volumes" : "");
    begin(in);
    for (int t = 0; t < 2; ++t) for (int w = 0; w < 3; ++w) {
      ++n;
      dsMath::RealRowColValueVec<double> mm; dsMath::RHSEntryVec<double> vv;
      mine.Assemble(mm, vv, dsMathEnum::WhatToLoad(w), dsMathEnum::TimeMode(t));
      std::string q = std::string(t ? "time" : "DC") + (w == 0 ? " matrix only" : w == 1 ? " residual only" : " matrix and residual");
      cmpv(in, q, w == 0 ? Vec() : F[t], vsum(vv));
      cmpm(in, q, w == 1 ? Mat() : J[t], msum(mm));
    }
    if (nfail > 5) break;
  }
  return n;
}
