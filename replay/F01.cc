#include "mesh.hh"
#include "EdgeFromNodeModel.hh"
#include "TriangleEdgeFromNodeModel.hh"
#include "TetrahedronEdgeFromNodeModel.hh"
#include "AverageEdgeModel.hh"
using namespace h;
typedef std::vector<double> V;
// Models derived from node models, recomputed after the node models change.
TEST(derived) {
  long n = 0;
  for (int it = 0; it < 60 * scale; ++it) {
    int dim = it % 3 + 1;
    Mesh m = mkmesh(rng, dim);
    begin(m.log);
    size_t N = m.p.size(), E = m.e.size();
    auto pos = [&]() { V v = rnd(rng, N); for (auto &x : v) x = std::fabs(x) + 0.5; return v; };
    setnode(m, "Q", pos()); setnode(m, "Q:V", rnd(rng, N));
    CreateEdgeFromNodeModel("Q@n0", "Q@n1", "Q", m.reg);
    if (dim == 2) CreateTriangleEdgeFromNodeModel("Q@en0", "Q@en1", "Q@en2", "Q", m.reg);
    if (dim == 3) CreateTetrahedronEdgeFromNodeModel("Q@en0", "Q@en1", "Q@en2", "Q@en3", "Q", m.reg);
    namespace A = AverageEdgeModelEnum;
    A::AverageType_t ty[4] = {A::ARITHMETIC, A::GEOMETRIC, A::GRADIENT, A::NEGATIVE_GRADIENT};
    const char *nm[4] = {"ari", "geo", "grad", "neg"};
    for (int a = 0; a < 4; ++a) {
      std::string s = nm[a];
      CreateAverageEdgeModel(s, "Q", ty[a], m.reg);
      CreateAverageEdgeModel(s, "Q", "Q", ty[a], m.reg);
      CreateAverageEdgeModel(s, "Q", "V", ty[a], m.reg);
    }
    V L = edgevals(m, "EdgeLength");
    for (int round = 0; round < 3; ++round) {
      ++n;
      V q = pos(), d = rnd(rng, N);
      if (rng.coin()) { setnode(m, "Q", q); setnode(m, "Q:V", d); }
      else { q = nodevals(m, "Q"); d = nodevals(m, "Q:V"); if (rng.coin()) { d = rnd(rng, N); setnode(m, "Q:V", d); } else { q = pos(); setnode(m, "Q", q); } }
      std::string log = m.log; m.log += " Q=" + vec(q) + " dQ/dV=" + vec(d); begin(m.log);
      V e0(E), e1(E);
      for (size_t i = 0; i < E; ++i) { e0[i] = q[m.e[i][0]]; e1[i] = q[m.e[i][1]]; }
      // dependent models are asked first half of the time
      if (rng.coin()) cmp(m, "edge value at the second node", e1, edgevals(m, "Q@n1"));
      cmp(m, "edge value at the first node", e0, edgevals(m, "Q@n0")); cmp(m, "edge value at the second node", e1, edgevals(m, "Q@n1"));
      if (dim == 2) {
        V v[3]; for (auto &x : v) x.resize(3 * m.t.size());
        for (size_t i = 0; i < m.t.size(); ++i) for (int j = 0; j < 3; ++j) {
          int e = m.te(i, j); v[0][3 * i + j] = q[m.e[e][0]]; v[1][3 * i + j] = q[m.e[e][1]];
          for (int a : m.t[i]) if (a != m.e[e][0] && a != m.e[e][1]) v[2][3 * i + j] = q[a];
        }
        for (int a : {2, 0, 1}) cmp(m, "triangle edge value at node " + std::to_string(a), v[a], trivals(m, "Q@en" + std::to_string(a)));
      }
      if (dim == 3) {
        V v[4]; for (auto &x : v) x.resize(6 * m.k.size());
        V g[4]; for (int a : {3, 0, 1, 2}) g[a] = tetvals(m, "Q@en" + std::to_string(a));
        for (size_t i = 0; i < m.k.size(); ++i) for (int j = 0; j < 6; ++j) {
          int e = m.ke(i, j); size_t x = 6 * i + j; v[0][x] = q[m.e[e][0]]; v[1][x] = q[m.e[e][1]];
          V o; for (int a : m.k[i]) if (a != m.e[e][0] && a != m.e[e][1]) o.push_back(q[a]);
          // the order of the two opposite nodes is the region's
          auto *ed = m.reg->GetTetrahedronToEdgeDataList()[i][j];
          v[2][x] = q[ed->nodeopp[0]->GetIndex()]; v[3][x] = q[ed->nodeopp[1]->GetIndex()];
          if (!((v[2][x] == o[0] && v[3][x] == o[1]) || (v[2][x] == o[1] && v[3][x] == o[0]))) fail(m.log, "opposite nodes of tetrahedron " + std::to_string(i), "others");
        }
        for (int a = 0; a < 4; ++a) cmp(m, "tetrahedron edge value at node " + std::to_string(a), v[a], g[a]);
      }
      for (int a = 0; a < 4; ++a) {
        V w(E), s0(E), s1(E), c0(E), c1(E);
        for (size_t i = 0; i < E; ++i) {
          double x = e0[i], y = e1[i], xd = d[m.e[i][0]], yd = d[m.e[i][1]];
          double dx, dy;
          if (a == 0) { w[i] = (x + y) / 2; dx = dy = 0.5; }
          if (a == 1) { w[i] = std::sqrt(x * y); dx = 0.5 * std::sqrt(y / x); dy = 0.5 * std::sqrt(x / y); }
          if (a >= 2) { double g = (a == 2 ? 1 : -1) / L[i]; w[i] = g * (y - x); dx = -g; dy = g; }
          s0[i] = dx; s1[i] = dy; c0[i] = dx * xd; c1[i] = dy * yd;
        }
        std::string s = nm[a];
        cmp(m, s + " average", w, edgevals(m, s));
        if (rng.coin()) cmp(m, s + " chain derivative n1", c1, edgevals(m, s + ":V@n1"));
        cmp(m, s + " derivative n0", s0, edgevals(m, s + ":Q@n0")); cmp(m, s + " derivative n1", s1, edgevals(m, s + ":Q@n1"));
        cmp(m, s + " chain derivative n0", c0, edgevals(m, s + ":V@n0")); cmp(m, s + " chain derivative n1", c1, edgevals(m, s + ":V@n1"));
      }
      m.log = log;
      if (nfail > 5) return n;
    }
  }
  return n;
}
