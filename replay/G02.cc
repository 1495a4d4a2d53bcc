#include "mesh.hh"
using namespace h;
template <class M, class T> static void element(Mesh &m, std::shared_ptr<M> q, const std::vector<double> &v, const std::vector<double> &cp, int per, size_t ne, std::function<int(int, int)> edge, const char *what, Rng &rng) {
  size_t N = m.p.size();
  std::vector<double> s(N), c(N), num(N), den(N), a(N), w(N), el(ne);
  for (size_t i = 0; i < ne; ++i) for (int j = 0; j < per; ++j) {
    el[i] += v[per * i + j] / per;
    for (int k = 0; k < 2; ++k) { int nd = m.e[edge(i, j)][k]; s[nd] += v[per * i + j]; c[nd] += 1; num[nd] += cp[per * i + j] * v[per * i + j]; den[nd] += cp[per * i + j]; }
  }
  for (size_t i = 0; i < N; ++i) { a[i] = c[i] ? s[i] / c[i] : s[i]; w[i] = den[i] > 0 ? num[i] / den[i] : 0; }
  std::vector<double> got(3, 7);
  auto in = m.log;
  m.log += std::string(what) + " values=" + vec(v) + " couplings=" + vec(cp);
  q->template GetScalarValuesOnNodes<double>(M::InterpolationType::SUM, got); cmp(m, std::string(what) + " values on nodes (sum)", s, got);
  q->template GetScalarValuesOnNodes<double>(M::InterpolationType::AVERAGE, got); cmp(m, std::string(what) + " values on nodes (average)", a, got);
  q->template GetScalarValuesOnNodes<double>(M::InterpolationType::COUPLE, got); cmp(m, std::string(what) + " values on nodes (coupling weighted)", w, got);
  q->template GetScalarValuesOnElements<double>(got); cmp(m, std::string(what) + " values on elements", el, got);
  m.log = in;
}
TEST(projection) {
  long n = 0;
  for (int it = 0; it < 60 * scale; ++it) {
    int dim = it % 3 + 1;
    Mesh m = mkmesh(rng, dim);
    begin(m.log); ++n;
    size_t N = m.p.size(), E = m.e.size();
    auto v = rnd(rng, E);
    auto em = setedge(m, "em", v);
    std::vector<double> s(N), c(N);
    std::vector<double> vec[3], cs[3]; for (int d = 0; d < 3; ++d) { vec[d].resize(N); cs[d].resize(N); }
    for (size_t i = 0; i < E; ++i) for (int k = 0; k < 2; ++k) {
      int nd = m.e[i][k]; s[nd] += v[i]; c[nd] += 1;
      V3 u = (m.p[m.e[i][1]] - m.p[m.e[i][0]]) * (1 / m.len(i)); double uu[3] = {u.x, u.y, u.z};
      for (int d = 0; d < dim; ++d) { vec[d][nd] += v[i] * uu[d] * std::fabs(uu[d]); cs[d][nd] += std::fabs(uu[d]); }
    }
    for (size_t i = 0; i < N; ++i) if (c[i]) s[i] /= c[i];
    auto in = m.log; m.log += " edge values=" + h::vec(v);
    cmp(m, "edge values on nodes", s, em->GetScalarValuesOnNodes<double>());
    auto got = em->GetVectorValuesOnNodes<double>();
    for (int d = 0; d < 3; ++d) { std::vector<double> g, w; for (size_t i = 0; i < N; ++i) { g.push_back(d == 0 ? got[i].Getx() : d == 1 ? got[i].Gety() : got[i].Getz()); w.push_back(d < dim && cs[d][i] > 0 ? vec[d][i] / cs[d][i] : 0); } cmp(m, std::string("edge vector on nodes, component ") + "xyz"[d], w, g); }
    m.log = in;
    if (dim == 2) { auto w = rnd(rng, 3 * m.t.size()), cp = rnd(rng, 3 * m.t.size()); for (auto &x : cp) x = std::fabs(x); settri(m, "ElementEdgeCouple", cp); element<TriangleEdgeModel, int>(m, settri(m, "tm", w), w, cp, 3, m.t.size(), [&](int i, int j) { return m.te(i, j); }, "triangle", rng); }
    if (dim == 3) { auto w = rnd(rng, 6 * m.k.size()), cp = rnd(rng, 6 * m.k.size()); for (auto &x : cp) x = std::fabs(x); settet(m, "ElementEdgeCouple", cp); element<TetrahedronEdgeModel, int>(m, settet(m, "km", w), w, cp, 6, m.k.size(), [&](int i, int j) { return m.ke(i, j); }, "tetrahedron", rng); }
    if (nfail > 5) break;
  }
  return n;
}
