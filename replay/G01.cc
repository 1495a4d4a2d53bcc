#include "mesh.hh"
using namespace h;
TEST(geometry) {
  long n = 0;
  for (int it = 0; it < 40 * scale; ++it) {
    int dim = it % 3 + 1;
    Mesh m = mkmesh(rng, dim);
    begin(m.log); ++n;
    size_t N = m.p.size(), E = m.e.size();
    std::vector<double> x(N), y(N), z(N), ni(N);
    for (size_t i = 0; i < N; ++i) { x[i] = m.p[i].x; y[i] = m.p[i].y; z[i] = m.p[i].z; ni[i] = double(i); }
    cmp(m, "x", x, nodevals(m, "x")); cmp(m, "y", y, nodevals(m, "y")); cmp(m, "z", z, nodevals(m, "z")); cmp(m, "node_index", ni, nodevals(m, "node_index"));
    std::vector<double> L(E), IL(E), ux(E), uy(E), uz(E), ei(E);
    for (size_t i = 0; i < E; ++i) { V3 d = m.p[m.e[i][1]] - m.p[m.e[i][0]]; L[i] = d.norm(); IL[i] = 1 / L[i]; ux[i] = d.x / L[i]; uy[i] = d.y / L[i]; uz[i] = d.z / L[i]; ei[i] = double(i); }
    cmp(m, "EdgeLength", L, edgevals(m, "EdgeLength")); cmp(m, "EdgeInverseLength", IL, edgevals(m, "EdgeInverseLength")); cmp(m, "edge_index", ei, edgevals(m, "edge_index"));
    cmp(m, "unitx", ux, edgevals(m, "unitx"));
    if (dim > 1) cmp(m, "unity", uy, edgevals(m, "unity"));
    if (dim > 2) cmp(m, "unitz", uz, edgevals(m, "unitz"));
    std::vector<double> C(E), V(E), NV(N);
    if (dim == 1) for (size_t i = 0; i < E; ++i) { C[i] = 1; V[i] = L[i] / 2; }
    if (dim == 2) {
      std::vector<double> ec(3 * m.t.size()), ev(3 * m.t.size());
      for (size_t i = 0; i < m.t.size(); ++i) for (int j = 0; j < 3; ++j) {
        int e = m.te(i, j); double c = (m.tc(i) - m.mid(e)).norm();
        if (!m.on(e, m.t[i].data(), 3)) fail(m.log, "slot edge lies on triangle " + std::to_string(i), "edge " + std::to_string(e));
        ec[3 * i + j] = c; ev[3 * i + j] = c * L[e] / 4; C[e] += c; V[e] += c * L[e] / 4;
      }
      cmp(m, "triangle ElementEdgeCouple", ec, trivals(m, "ElementEdgeCouple")); cmp(m, "triangle ElementNodeVolume", ev, trivals(m, "ElementNodeVolume"));
    }
    if (dim == 3) {
      std::vector<double> ec(6 * m.k.size()), ev(6 * m.k.size());
      for (size_t i = 0; i < m.k.size(); ++i) for (int j = 0; j < 6; ++j) {
        int e = m.ke(i, j); V3 v0 = m.kc(i) - m.mid(e); double c = 0;
        if (!m.on(e, m.k[i].data(), 4)) fail(m.log, "slot edge lies on tetrahedron " + std::to_string(i), "edge " + std::to_string(e));
        for (int a = 0; a < 4; ++a) {       // the two faces of the tetrahedron that contain the edge
          if (m.k[i][a] == m.e[e][0] || m.k[i][a] == m.e[e][1]) continue;
          V3 f = circum3(m.p[m.e[e][0]], m.p[m.e[e][1]], m.p[m.k[i][a]]);
          c += v0.cross(f - m.kc(i)).norm() / 2;
        }
        ec[6 * i + j] = c; ev[6 * i + j] = c * L[e] / 6; C[e] += c; V[e] += c * L[e] / 6;
      }
      cmp(m, "tetrahedron ElementEdgeCouple", ec, tetvals(m, "ElementEdgeCouple")); cmp(m, "tetrahedron ElementNodeVolume", ev, tetvals(m, "ElementNodeVolume"));
    }
    cmp(m, "EdgeCouple", C, edgevals(m, "EdgeCouple")); cmp(m, "EdgeNodeVolume", V, edgevals(m, "EdgeNodeVolume"));
    for (size_t i = 0; i < E; ++i) { NV[m.e[i][0]] += V[i]; NV[m.e[i][1]] += V[i]; }
    cmp(m, "NodeVolume", NV, nodevals(m, "NodeVolume"));
    if (nfail > 5) break;
  }
  return n;
}
