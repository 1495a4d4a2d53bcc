// Random equations on random regions, and an independent oracle for what they assemble.
#pragma once
#include "mesh.hh"
#include "dsMathTypes.hh"
#include "MathEnum.hh"
#include "MatrixEntries.hh"
#include "Equation.hh"
#include "EquationHolder.hh"
#include "ExprEquation.hh"
#include "ObjectHolder.hh"
namespace h {
typedef std::map<std::pair<int, int>, double> Mat;
typedef std::map<int, double> Vec;
inline void param(const std::string &n, const std::string &v) { GlobalData::GetInstance().AddDBEntryOnGlobal(n, ObjectHolder(v)); }
inline void defaults() {
  param("node_volume_model", "NodeVolume"); param("edge_couple_model", "EdgeCouple"); param("element_edge_couple_model", "ElementEdgeCouple");
  param("edge_node0_volume_model", "EdgeNodeVolume"); param("edge_node1_volume_model", "EdgeNodeVolume");
  param("element_node0_volume_model", "ElementNodeVolume"); param("element_node1_volume_model", "ElementNodeVolume");
}
inline Mat msum(const dsMath::RealRowColValueVec<double> &m) { Mat r; for (auto &x : m) r[{x.row, x.col}] += x.val; return r; }
inline Vec vsum(const dsMath::RHSEntryVec<double> &v) { Vec r; for (auto &x : v) r[x.first] += x.second; return r; }
inline bool cmpv(const std::string &in, const std::string &what, Vec want, Vec got) {
  for (auto &x : got) want[x.first] += 0;
  for (auto &x : want) if (!same(in, what + " residual row " + std::to_string(x.first), x.second, got[x.first])) return false;
  return true;
}
inline bool cmpm(const std::string &in, const std::string &what, Mat want, Mat got) {
  for (auto &x : got) want[x.first] += 0;
  for (auto &x : want) if (!same(in, what + " matrix row " + std::to_string(x.first.first) + " column " + std::to_string(x.first.second), x.second, got[x.first])) return false;
  return true;
}
struct Data { std::vector<double> v; std::map<std::string, std::vector<std::vector<double>>> d; };   // values and derivatives by variable
enum Kind { NODE, EDGE, ELEM };
inline size_t nvals(Mesh &m, Kind k) { return k == NODE ? m.p.size() : k == EDGE ? m.e.size() : m.dim == 2 ? 3 * m.t.size() : 6 * m.k.size(); }
inline int nder(Mesh &m, Kind k) { return k == NODE ? 1 : k == EDGE ? 2 : m.dim + 1; }
inline void setany(Mesh &m, Kind k, const std::string &n, const std::vector<double> &v) {
  if (k == NODE) setnode(m, n, v); else if (k == EDGE) setedge(m, n, v); else if (m.dim == 2) settri(m, n, v); else settet(m, n, v);
}
inline Data mkdata(Mesh &m, Kind k, const std::string &n, const std::vector<std::string> &vars, Rng &r) {
  Data d; d.v = rnd(r, nvals(m, k)); setany(m, k, n, d.v);
  for (auto &x : vars) {
    if (r.coin(3)) continue;
    for (int i = 0; i < nder(m, k); ++i) { auto v = rnd(r, nvals(m, k)); d.d[x].push_back(v); setany(m, k, k == NODE ? n + ":" + x : n + ":" + x + (k == EDGE ? "@n" : "@en") + std::to_string(i), v); }
  }
  return d;
}
// nodes of slot i: first, second, opposite...
inline std::vector<int> slot(Mesh &m, Kind k, size_t i) {
  if (k == NODE) return {int(i)};
  if (k == EDGE) return {m.e[i][0], m.e[i][1]};
  int per = m.dim == 2 ? 3 : 6, el = int(i) / per, e = m.dim == 2 ? m.te(el, int(i) % per) : m.ke(el, int(i) % per);
  std::vector<int> r{m.e[e][0], m.e[e][1]};
  if (m.dim == 2) { for (int n : m.t[el]) if (n != r[0] && n != r[1]) r.push_back(n); }
  else { auto *ed = m.reg->GetTetrahedronToEdgeDataList()[el][i % per]; for (int q = 0; q < 2; ++q) r.push_back(int(ed->nodeopp[q]->GetIndex())); }
  return r;
}
// control volume contribution of a model: s0 * value * weight to the first node, s1 to the second
template <class Row, class Col>
void stamp(Mesh &m, Kind k, const Data &d, const std::vector<double> &w, double s0, double s1, Row row, Col col, Vec &F, Mat &J) {
  for (size_t i = 0; i < d.v.size(); ++i) {
    auto s = slot(m, k, i);
    F[row(s[0])] += s0 * d.v[i] * w[i];
    if (k != NODE) F[row(s[1])] += s1 * d.v[i] * w[i];
    for (auto &q : d.d) for (size_t j = 0; j < s.size(); ++j) {
      J[{row(s[0]), col(q.first, s[j])}] += s0 * q.second[j][i] * w[i];
      if (k != NODE) J[{row(s[1]), col(q.first, s[j])}] += s1 * q.second[j][i] * w[i];
    }
  }
}
}
