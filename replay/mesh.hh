// Random finalized regions built through the real geometry classes.
#pragma once
#ifndef H_PYTHON
#define H_PYTHON
#endif
#include "hmain.hh"
#include "Device.hh"
#include "Region.hh"
#include "Node.hh"
#include "Edge.hh"
#include "EdgeData.hh"
#include "Triangle.hh"
#include "Tetrahedron.hh"
#include "Coordinate.hh"
#include "NodeModel.hh"
#include "EdgeModel.hh"
#include "TriangleEdgeModel.hh"
#include "TetrahedronEdgeModel.hh"
#include "ModelCreate.hh"
#include "NodeSolution.hh"
#include "EdgeSubModel.hh"
#include "TriangleEdgeSubModel.hh"
#include "TetrahedronEdgeSubModel.hh"
#include "GlobalData.hh"
#include <algorithm>
#include <array>
namespace h {
struct V3 { double x, y, z;
  V3 operator-(const V3 &o) const { return {x - o.x, y - o.y, z - o.z}; }
  V3 operator+(const V3 &o) const { return {x + o.x, y + o.y, z + o.z}; }
  V3 operator*(double s) const { return {x * s, y * s, z * s}; }
  double dot(const V3 &o) const { return x * o.x + y * o.y + z * o.z; }
  V3 cross(const V3 &o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
  double norm() const { return std::sqrt(dot(*this)); }
};
// solve the 3x3 system rows r[i].c = b[i]
inline V3 solve3(V3 r0, V3 r1, V3 r2, double b0, double b1, double b2) {
  double D = r0.dot(r1.cross(r2));
  V3 q = (r1.cross(r2)) * b0 + (r2.cross(r0)) * b1 + (r0.cross(r1)) * b2;
  return q * (1 / D);
}
// point equidistant from a,b,c in their plane
inline V3 circum3(V3 a, V3 b, V3 c) {
  V3 n = (b - a).cross(c - a);
  return solve3(b - a, c - a, n, (b.dot(b) - a.dot(a)) / 2, (c.dot(c) - a.dot(a)) / 2, n.dot(a));
}
inline V3 circum4(V3 a, V3 b, V3 c, V3 d) {
  return solve3(b - a, c - a, d - a, (b.dot(b) - a.dot(a)) / 2, (c.dot(c) - a.dot(a)) / 2, (d.dot(d) - a.dot(a)) / 2);
}
struct Mesh {
  int dim; Device *dev; Region *reg;
  std::vector<V3> p;                          // by node index
  std::vector<std::array<int, 2>> e;          // by edge index, head, tail
  std::vector<std::array<int, 3>> t;
  std::vector<std::array<int, 4>> k;
  std::string log;
  V3 mid(int i) const { return (p[e[i][0]] + p[e[i][1]]) * 0.5; }
  double len(int i) const { return (p[e[i][1]] - p[e[i][0]]).norm(); }
  V3 tc(int i) const { return circum3(p[t[i][0]], p[t[i][1]], p[t[i][2]]); }
  V3 kc(int i) const { return circum4(p[k[i][0]], p[k[i][1]], p[k[i][2]], p[k[i][3]]); }
  bool on(int ei, const int *nodes, int n) const { int c = 0; for (int j = 0; j < n; ++j) c += nodes[j] == e[ei][0] || nodes[j] == e[ei][1]; return c == 2; }
  // edge index in slot j of an element, as stored by the region
  int te(int ti, int j) const { return reg->GetTriangleToEdgeList()[ti][j]->GetIndex(); }
  int ke(int ki, int j) const { return reg->GetTetrahedronToEdgeDataList()[ki][j]->edge->GetIndex(); }
};
inline int &counter() { static int c = 0; return c; }
template <class T> void shuffle(std::vector<T> &v, Rng &r) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.in(0, int(i) - 1)]); }
inline Mesh mkmesh(Rng &r, int dim, int size = 0, Device *dev = nullptr, std::string rname = "r0", V3 shift = {0, 0, 0}) {
  Mesh m; m.dim = dim;
  if (!dev) { dev = new Device("dev" + std::to_string(counter()++), dim); GlobalData::GetInstance().AddDevice(dev); }
  m.dev = dev;
  int nx = size ? size : r.in(1, dim == 1 ? 6 : dim == 2 ? 3 : 2), ny = dim > 1 ? r.in(1, dim == 2 ? 3 : 1) : 0, nz = dim > 2 ? 1 : 0;
  std::vector<V3> pt; auto id = [&](int i, int j, int l) { return (l * (ny + 1) + j) * (nx + 1) + i; };
  double jit = dim == 1 ? 0.3 : 0.2;
  bool aligned = r.coin(3);                  // axis aligned geometry exercises the special cases
  for (int l = 0; l <= nz; ++l) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
    V3 q{i + (aligned ? 0 : r.real(-jit, jit)), dim > 1 ? j + (aligned ? 0 : r.real(-jit, jit)) : 0, dim > 2 ? l + (aligned ? 0 : r.real(-jit, jit)) : 0};
    pt.push_back(q + shift);
  }
  std::vector<std::vector<int>> el;
  if (dim == 1) for (int i = 0; i < nx; ++i) el.push_back({i, i + 1});
  if (dim == 2) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    int a = id(i, j, 0), b = id(i + 1, j, 0), c = id(i, j + 1, 0), d = id(i + 1, j + 1, 0);
    if (r.coin()) { el.push_back({a, b, c}); el.push_back({b, c, d}); } else { el.push_back({a, b, d}); el.push_back({a, c, d}); }
  }
  if (dim == 3) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    int c[8]; for (int b = 0; b < 8; ++b) c[b] = id(i + (b & 1), j + ((b >> 1) & 1), (b >> 2) & 1);
    int P[6][2] = {{1, 3}, {1, 5}, {2, 3}, {2, 6}, {4, 5}, {4, 6}};
    for (auto &q : P) el.push_back({c[0], c[q[0]], c[q[1]], c[7]});
  }
  // random node numbering
  std::vector<int> perm(pt.size()); for (size_t i = 0; i < perm.size(); ++i) perm[i] = int(i);
  shuffle(perm, r);
  m.p.resize(pt.size()); for (size_t i = 0; i < pt.size(); ++i) m.p[perm[i]] = pt[i];
  for (auto &x : el) { for (auto &n : x) n = perm[n]; shuffle(x, r); }
  shuffle(el, r);
  std::set<std::vector<int>> es, ts;
  for (auto &x : el) for (size_t a = 0; a < x.size(); ++a) for (size_t b = a + 1; b < x.size(); ++b) {
    es.insert({std::min(x[a], x[b]), std::max(x[a], x[b])});
    if (dim >= 2) for (size_t c = b + 1; c < x.size(); ++c) { std::vector<int> q{x[a], x[b], x[c]}; std::sort(q.begin(), q.end()); ts.insert(q); }
  }
  std::vector<std::vector<int>> ev(es.begin(), es.end()), tv(ts.begin(), ts.end());
  for (auto &x : ev) shuffle(x, r);
  for (auto &x : tv) shuffle(x, r);
  shuffle(ev, r); shuffle(tv, r);
  for (auto &x : ev) m.e.push_back({x[0], x[1]});
  for (auto &x : tv) m.t.push_back({x[0], x[1], x[2]});
  if (dim == 3) for (auto &x : el) m.k.push_back({x[0], x[1], x[2], x[3]});
  m.reg = new Region(rname, "Si", dim, m.dev);
  m.dev->AddRegion(m.reg);
  std::vector<Node *> nd; std::vector<CoordinatePtr> cl;
  for (size_t i = 0; i < m.p.size(); ++i) { auto *c = new Coordinate(m.p[i].x, m.p[i].y, m.p[i].z); m.dev->AddCoordinate(c); nd.push_back(new Node(i, c)); }
  std::vector<int> order = perm; for (int i : order) { Node *q = nd[i]; m.reg->AddNode(q); }
  ConstEdgeList cel; ConstTriangleList ctl; ConstTetrahedronList ckl;
  for (size_t i = 0; i < m.e.size(); ++i) cel.push_back(new Edge(i, nd[m.e[i][0]], nd[m.e[i][1]]));
  for (size_t i = 0; i < m.t.size(); ++i) ctl.push_back(new Triangle(i, nd[m.t[i][0]], nd[m.t[i][1]], nd[m.t[i][2]]));
  for (size_t i = 0; i < m.k.size(); ++i) ckl.push_back(new Tetrahedron(i, nd[m.k[i][0]], nd[m.k[i][1]], nd[m.k[i][2]], nd[m.k[i][3]]));
  shuffle(cel, r);
  if (dim == 3) m.reg->AddTetrahedronList(ckl);
  if (dim >= 2) m.reg->AddTriangleList(ctl);
  m.reg->AddEdgeList(cel);
  m.reg->FinalizeMesh();
  // the region may store the node lists of an element in its own order
  for (size_t i = 0; i < m.e.size(); ++i) { auto *q = m.reg->GetEdgeList()[i]; m.e[i] = {int(q->GetHead()->GetIndex()), int(q->GetTail()->GetIndex())}; }
  for (size_t i = 0; i < m.t.size(); ++i) for (int j = 0; j < 3; ++j) m.t[i][j] = ctl[i]->GetNodeList()[j]->GetIndex();
  for (size_t i = 0; i < m.k.size(); ++i) for (int j = 0; j < 4; ++j) m.k[i][j] = ckl[i]->GetNodeList()[j]->GetIndex();
  CreateDefaultModels(m.reg);
  m.log = std::to_string(dim) + "D region nodes=";
  for (auto &q : m.p) m.log += "(" + num(q.x) + (dim > 1 ? "," + num(q.y) : "") + (dim > 2 ? "," + num(q.z) : "") + ")";
  m.log += " edges="; for (auto &q : m.e) m.log += std::to_string(q[0]) + "-" + std::to_string(q[1]) + " ";
  if (dim >= 2) { m.log += "triangles="; for (auto &q : m.t) m.log += std::to_string(q[0]) + "-" + std::to_string(q[1]) + "-" + std::to_string(q[2]) + " "; }
  if (dim >= 3) { m.log += "tetrahedra="; for (auto &q : m.k) m.log += std::to_string(q[0]) + "-" + std::to_string(q[1]) + "-" + std::to_string(q[2]) + "-" + std::to_string(q[3]) + " "; }
  return m;
}
inline std::vector<double> nodevals(Mesh &m, const std::string &n) { auto q = m.reg->GetNodeModel(n); if (!q) { fail(m.log, "node model " + n, "missing"); return std::vector<double>(m.p.size()); } return q->GetScalarValues<double>(); }
inline std::vector<double> edgevals(Mesh &m, const std::string &n) { auto q = m.reg->GetEdgeModel(n); if (!q) { fail(m.log, "edge model " + n, "missing"); return std::vector<double>(m.e.size()); } return q->GetScalarValues<double>(); }
inline std::vector<double> trivals(Mesh &m, const std::string &n) { auto q = m.reg->GetTriangleEdgeModel(n); if (!q) { fail(m.log, "triangle model " + n, "missing"); return std::vector<double>(3 * m.t.size()); } return q->GetScalarValues<double>(); }
inline std::vector<double> tetvals(Mesh &m, const std::string &n) { auto q = m.reg->GetTetrahedronEdgeModel(n); if (!q) { fail(m.log, "tetrahedron model " + n, "missing"); return std::vector<double>(6 * m.k.size()); } return q->GetScalarValues<double>(); }
inline bool cmp(Mesh &m, const std::string &what, const std::vector<double> &want, const std::vector<double> &got, double tol = 1e-8) {
  if (want.size() != got.size()) { fail(m.log, what + " has " + std::to_string(want.size()) + " values", std::to_string(got.size())); return false; }
  for (size_t i = 0; i < want.size(); ++i) if (!same(m.log, what + "[" + std::to_string(i) + "]", want[i], got[i], tol)) return false;
  return true;
}
inline std::vector<double> rnd(Rng &r, size_t n) { std::vector<double> v(n); for (auto &x : v) x = r.dy(); return v; }
inline NodeModelPtr setnode(Mesh &m, const std::string &n, const std::vector<double> &v) {
  auto q = std::const_pointer_cast<NodeModel>(m.reg->GetNodeModel(n));
  if (!q) q = CreateNodeSolution(n, m.reg, NodeModel::DisplayType::SCALAR);
  q->SetValues(v); return q;
}
inline EdgeModelPtr setedge(Mesh &m, const std::string &n, const std::vector<double> &v) {
  auto q = std::const_pointer_cast<EdgeModel>(m.reg->GetEdgeModel(n));
  if (!q) q = CreateEdgeSubModel(n, m.reg, EdgeModel::DisplayType::SCALAR);
  q->SetValues(v); return q;
}
inline TriangleEdgeModelPtr settri(Mesh &m, const std::string &n, const std::vector<double> &v) {
  auto q = std::const_pointer_cast<TriangleEdgeModel>(m.reg->GetTriangleEdgeModel(n));
  if (!q) q = CreateTriangleEdgeSubModel(n, m.reg, TriangleEdgeModel::DisplayType::SCALAR);
  q->SetValues(v); return q;
}
inline TetrahedronEdgeModelPtr settet(Mesh &m, const std::string &n, const std::vector<double> &v) {
  auto q = std::const_pointer_cast<TetrahedronEdgeModel>(m.reg->GetTetrahedronEdgeModel(n));
  if (!q) q = CreateTetrahedronEdgeSubModel(n, m.reg, TetrahedronEdgeModel::DisplayType::SCALAR);
  q->SetValues(v); return q;
}
}
