#include "mesh.hh"
#include <functional>
#include "lapack.hh"
#include "VectorGradient.hh"
#include "TriangleEdgeFromEdgeModel.hh"
#include "TriangleEdgePairFromEdgeModel.hh"
#include "TriangleEdgeFromEdgeModelDerivative.hh"
#include "TriangleEdgePairFromEdgeModelDerivative.hh"
#include "VectorTriangleEdgeModel.hh"
#include "TetrahedronEdgeFromEdgeModel.hh"
#include "TetrahedronEdgePairFromEdgeModel.hh"
#include "TetrahedronEdgeFromEdgeModelDerivative.hh"
#include "TetrahedronEdgePairFromEdgeModelDerivative.hh"
#include "VectorTetrahedronEdgeModel.hh"
#include "ObjectHolder.hh"
using namespace h;
typedef std::vector<double> V;
static V3 unit(Mesh &m, int e) { V3 d = m.p[m.e[e][1]] - m.p[m.e[e][0]]; return d * (1 / d.norm()); }
static double comp(const V3 &v, int c) { return c == 0 ? v.x : c == 1 ? v.y : v.z; }
static void cmp3(Mesh &m, const std::string &w, const std::vector<V3> &want, const std::function<V(const std::string &)> &get, const std::string &pre, const std::string &suf, int dim) {
  for (int c = 0; c < dim; ++c) { V x; for (auto &q : want) x.push_back(comp(q, c)); std::string nm = pre + (pre == "Q_grad" ? "" : "_") + "xyz"[c] + suf; cmp(m, w + " " + nm, x, get(nm), 1e-6); }
}
// gradient of nodal values on an element
static V3 grad(Mesh &m, const int *nd, int dim, const V &q) {
  V3 a = m.p[nd[0]];
  if (dim == 2) { V3 r1 = m.p[nd[1]] - a, r2 = m.p[nd[2]] - a; return solve3(r1, r2, {0, 0, 1}, q[nd[1]] - q[nd[0]], q[nd[2]] - q[nd[0]], 0); }
  return solve3(m.p[nd[1]] - a, m.p[nd[2]] - a, m.p[nd[3]] - a, q[nd[1]] - q[nd[0]], q[nd[2]] - q[nd[0]], q[nd[3]] - q[nd[0]]);
}
TEST(gradient) {
  long n = 0; lapack();
  for (int it = 0; it < 60 * scale; ++it) {
    int dim = it % 3 + 1; ++n;
    Mesh m = mkmesh(rng, dim);
    bool ext = rng.coin(3); GlobalData::GetInstance().AddDBEntryOnRegion(m.reg, "extended_model", ObjectHolder(ext));
    V q = rnd(rng, m.p.size());
    bool avoid = rng.coin();
    for (auto &x : q) if (rng.coin(3)) x = 0;
    setnode(m, "Q", q);
    CreateVectorGradient(m.reg, "Q", avoid ? VectorGradientEnum::AVOIDZERO : VectorGradientEnum::DEFAULT);
    for (int round = 0; round < 2; ++round) {
      if (round) { q = rnd(rng, m.p.size()); for (auto &x : q) if (rng.coin(4)) x = 0; setnode(m, "Q", q); }
      std::string log = m.log; m.log += std::string(avoid ? " avoiding zero" : "") + (ext ? " extended" : "") + " Q=" + vec(q); begin(m.log);
      std::vector<std::vector<int>> el;
      if (dim == 1) for (auto &x : m.e) el.push_back({x[0], x[1]});
      if (dim == 2) for (auto &x : m.t) el.push_back({x[0], x[1], x[2]});
      if (dim == 3) for (auto &x : m.k) el.push_back({x[0], x[1], x[2], x[3]});
      std::vector<V3> want(m.p.size(), V3{0, 0, 0});
      for (size_t i = 0; i < m.p.size(); ++i) {
        int c = 0; V3 s{0, 0, 0};
        for (auto &x : el) {
          bool touches = false, zero = false;
          for (int a : x) { touches |= a == int(i); zero |= q[a] == 0; }
          if (!touches || (avoid && zero)) continue;
          ++c;
          s = s + (dim == 1 ? V3{(q[x[1]] - q[x[0]]) / (m.p[x[1]].x - m.p[x[0]].x), 0, 0} : grad(m, x.data(), dim, q));
        }
        if (c) want[i] = s * (1.0 / c);
      }
      cmp3(m, "node average of element gradients", want, [&](const std::string &s) { return nodevals(m, s); }, "Q_grad", "", dim);
      m.log = log;
    }
    if (nfail > 5) break;
  }
  return n;
}
// field E with u.E = value on the given edges of an element
static V3 field(Mesh &m, const std::vector<int> &e, const V &v, int dim) {
  V3 a = unit(m, e[0]), b = unit(m, e[1]);
  return dim == 2 ? solve3(a, b, {0, 0, 1}, v[0], v[1], 0) : solve3(a, b, unit(m, e[2]), v[0], v[1], v[2]);
}
// per element edge and end node: the field at that end; val(slot) is the datum of the slot
static void ends(Mesh &m, int dim, int el, const std::function<double(int)> &val, std::vector<std::array<V3, 2>> &out, std::vector<std::array<double, 2>> &wt, const V &ec) {
  int ns = dim == 2 ? 3 : 6;
  out.resize(ns); wt.resize(ns);
  auto edge = [&](int s) { return dim == 2 ? m.te(el, s) : m.ke(el, s); };
  for (int s = 0; s < ns; ++s) for (int h_ = 0; h_ < 2; ++h_) {
    int nd = m.e[edge(s)][h_];
    std::vector<int> e; V v; double w = 1;
    for (int t = 0; t < ns; ++t) if (m.e[edge(t)][0] == nd || m.e[edge(t)][1] == nd) { e.push_back(edge(t)); v.push_back(val(t)); if (dim == 2 && t != s) w = ec[3 * el + t]; }
    out[s][h_] = field(m, e, v, dim); wt[s][h_] = w;
  }
}
TEST(fields) {
  long n = 0; lapack();
  for (int it = 0; it < 40 * scale; ++it) {
    int dim = it % 2 + 2; ++n;
    Mesh m = mkmesh(rng, dim);
    bool ext = rng.coin(3); GlobalData::GetInstance().AddDBEntryOnRegion(m.reg, "extended_model", ObjectHolder(ext));
    size_t E = m.e.size(), NEL = dim == 2 ? m.t.size() : m.k.size(); int ns = dim == 2 ? 3 : 6;
    setedge(m, "F", rnd(rng, E)); setedge(m, "F:V@n0", rnd(rng, E)); setedge(m, "F:V@n1", rnd(rng, E));
    if (dim == 2) {
      settri(m, "T", rnd(rng, 3 * NEL));
      CreateTriangleEdgeFromEdgeModel("F", m.reg); CreateTriangleEdgePairFromEdgeModel("F", m.reg); CreateTriangleEdgeFromEdgeModelDerivative("F", "V", m.reg);
      CreateTriangleEdgePairFromEdgeModelDerivative("F", "V", m.reg); CreateVectorTriangleEdgeModel("T", m.reg);
    } else {
      settet(m, "T", rnd(rng, 6 * NEL));
      CreateTetrahedronEdgeFromEdgeModel("F", m.reg); CreateTetrahedronEdgePairFromEdgeModel("F", m.reg); CreateTetrahedronEdgeFromEdgeModelDerivative("F", "V", m.reg);
      CreateTetrahedronEdgePairFromEdgeModelDerivative("F", "V", m.reg); CreateVectorTetrahedronEdgeModel("T", m.reg);
    }
    auto get = [&](const std::string &s) { return dim == 2 ? trivals(m, s) : tetvals(m, s); };
    V ec; if (dim == 2) {
      // couplings can vanish for right triangles; the average then needs a positive one
      V w(3 * NEL); for (auto &x : w) x = rng.real(0.1, 2); settri(m, "ElementEdgeCouple", w); ec = get("ElementEdgeCouple");
    }
    for (int round = 0; round < 2; ++round) {
      if (round) { setedge(m, "F", rnd(rng, E)); if (rng.coin()) setedge(m, "F:V@n0", rnd(rng, E)); if (rng.coin()) setedge(m, "F:V@n1", rnd(rng, E)); V t = rnd(rng, ns * NEL); if (dim == 2) settri(m, "T", t); else settet(m, "T", t); }
      V f = edgevals(m, "F"), d0 = edgevals(m, "F:V@n0"), d1 = edgevals(m, "F:V@n1"), t = get("T");
      std::string log = m.log; m.log += std::string(ext ? " extended" : "") + " F=" + vec(f) + " F:V@n0=" + vec(d0) + " F:V@n1=" + vec(d1) + " T=" + vec(t) + " couple=" + vec(ec); begin(m.log);
      std::vector<V3> a(ns * NEL), p0(a), p1(a), tv(a); std::vector<std::vector<V3>> da(4, a), dp0(4, a), dp1(4, a);
      for (size_t i = 0; i < NEL; ++i) {
        auto edge = [&](int s) { return dim == 2 ? m.te(i, s) : m.ke(i, s); };
        std::vector<std::array<V3, 2>> o; std::vector<std::array<double, 2>> w;
        auto avg = [&](int s) { return (o[s][0] * w[s][0] + o[s][1] * w[s][1]) * (1 / (w[s][0] + w[s][1])); };
        ends(m, dim, i, [&](int s) { return f[edge(s)]; }, o, w, ec);
        for (int s = 0; s < ns; ++s) { a[ns * i + s] = avg(s); p0[ns * i + s] = o[s][0]; p1[ns * i + s] = o[s][1]; }
        ends(m, dim, i, [&](int s) { return t[ns * i + s]; }, o, w, ec);
        for (int s = 0; s < ns; ++s) tv[ns * i + s] = avg(s);
        const int *nd = dim == 2 ? m.t[i].data() : m.k[i].data();
        for (int q = 0; q < dim + 1; ++q) {       // derivative with respect to node nd[q]
          ends(m, dim, i, [&](int s) { return m.e[edge(s)][0] == nd[q] ? d0[edge(s)] : m.e[edge(s)][1] == nd[q] ? d1[edge(s)] : 0.0; }, o, w, ec);
          for (int s = 0; s < ns; ++s) {
            int der = m.e[edge(s)][0] == nd[q] ? 0 : m.e[edge(s)][1] == nd[q] ? 1 : 2;
            if (der == 2 && dim == 3) der = int(m.reg->GetTetrahedronToEdgeDataList()[i][s]->nodeopp[0]->GetIndex()) == nd[q] ? 2 : 3;
            da[der][ns * i + s] = avg(s); dp0[der][ns * i + s] = o[s][0]; dp1[der][ns * i + s] = o[s][1];
          }
        }
      }
      cmp3(m, "field", a, get, "F", "", dim); cmp3(m, "field at first node", p0, get, "F_node0", "", dim); cmp3(m, "field at second node", p1, get, "F_node1", "", dim); cmp3(m, "field of element values", tv, get, "T", "", dim);
      for (int q = 0; q < dim + 1; ++q) {
        std::string s = ":V@en" + std::to_string(q);
        cmp3(m, "derivative", da[q], get, "F", s, dim); cmp3(m, "derivative", dp0[q], get, "F_node0", s, dim); cmp3(m, "derivative", dp1[q], get, "F_node1", s, dim);
      }
      m.log = log;
    }
    if (nfail > 5) break;
  }
  return n;
}
// a 1D region whose lines branch: more than two edges at one node
TEST(branched) {
  long n = 0;
  for (int it = 0; it < 20 * scale; ++it) {
    ++n;
    Mesh m; m.dim = 1; m.dev = new Device("dev" + std::to_string(counter()++), 1); GlobalData::GetInstance().AddDevice(m.dev);
    int k = rng.in(2, 5);
    m.reg = new Region("r0", "Si", 1, m.dev); m.dev->AddRegion(m.reg);
    std::vector<Node *> nd;
    for (int i = 0; i <= k; ++i) { V3 q{i ? (rng.coin() ? 1 : -1) * rng.real(0.5, 2) : 0, 0, 0}; m.p.push_back(q); auto *c = new Coordinate(q.x, 0, 0); m.dev->AddCoordinate(c); nd.push_back(new Node(i, c)); m.reg->AddNode(nd[i]); }
    ConstEdgeList el;
    for (int i = 1; i <= k; ++i) { m.e.push_back({0, i}); el.push_back(new Edge(i - 1, nd[0], nd[i])); }
    m.reg->AddEdgeList(el); m.reg->FinalizeMesh(); CreateDefaultModels(m.reg);
    V q = rnd(rng, k + 1);
    setnode(m, "Q", q);
    CreateVectorGradient(m.reg, "Q", VectorGradientEnum::DEFAULT);
    m.log = "1D star, leaves at "; for (int i = 1; i <= k; ++i) m.log += num(m.p[i].x) + " "; m.log += "Q=" + vec(q); begin(m.log);
    V w(k + 1);
    for (int i = 1; i <= k; ++i) { w[i] = (q[i] - q[0]) / m.p[i].x; w[0] += w[i] / k; }
    cmp(m, "node average of edge slopes", w, nodevals(m, "Q_gradx"));
    if (nfail > 5) break;
  }
  return n;
}
