// data holder of a model: random histories of reads and writes in both precisions against a plain list of values
#include "mesh.hh"
#include "ModelDataHolder.hh"
#include "Float128.hh"
using namespace h;
static std::string str(const float128 &x);
static float128 tiny("1e-330");
static double d(const float128 &x) { return static_cast<double>(x); }
static std::string str(const float128 &x) { char b[64]; snprintf(b, 64, "%.17g", d(x)); float128 r = x - d(x); if (r != 0) { char c[64]; snprintf(c, 64, "%+.17g", d(r) != 0 ? d(r) : 0.0); return std::string(b) + (d(r) == 0 ? "+<1e-320" : c); } return b; }
TEST(history) {
  long n = 0;
  for (int it = 0; it < 4000 * scale; ++it) {
    size_t len = rng.in(0, 5);
    ModelDataHolder m(len);
    std::vector<float128> want(len, float128(0.0));
    bool uniform = true; float128 uval = 0;
    std::string in = "data of " + std::to_string(len) + " elements:";
    auto value = [&](bool ext) { static const double c[] = {0, 1, -1, 2.5}; float128 x = rng.coin() ? c[rng.in(0, 3)] : rng.dy(); if (ext && rng.coin()) x += float128(1) / float128(1e25) * rng.in(-2, 2); if (ext && rng.coin(6)) x = tiny; return x; };
    for (int op = 0, e = rng.in(1, 7); op < e; ++op) {
      bool ext = rng.coin();
      const char *p = ext ? "extended" : "double";
      switch (rng.in(0, 6)) {
        case 0: { float128 v = value(ext); in += std::string(" uniform ") + p + " " + str(v); if (ext) m.SetUniformValue(v); else m.SetUniformValue(d(v)); if (!ext) v = d(v); for (auto &w : want) w = v; uniform = true; uval = v; break; }
        case 1: case 2: { size_t k = rng.in(0, int(len)); float128 v = value(ext); if (!ext) v = d(v); in += std::string(" set ") + p + "[" + std::to_string(k) + "] " + str(v); if (ext) m.SetValue(k, v); else m.SetValue(k, d(v)); if (k < len) { want[k] = v; uniform = false; } break; }
        case 3: { in += std::string(" all ") + p; std::vector<float128> w; std::vector<double> wd; for (size_t i = 0; i < len; ++i) { float128 v = value(ext); if (!ext) v = d(v); w.push_back(v); wd.push_back(d(v)); } for (auto &v : w) in += " " + str(v);
          if (ext) { const std::vector<float128> &c = w; m.set_values(c); } else { const std::vector<double> &c = wd; m.set_values(c); } want = w; uniform = false; break; }
        case 4: { in += " read double"; auto &v = m.GetValues<double>(); uniform = false; (void)v; break; }
        case 5: { in += " read extended"; auto &v = m.GetValues<float128>(); uniform = false; (void)v; break; }
        case 6: { if (!rng.coin(3)) break; in += " clear"; m.clear(); for (auto &w : want) w = 0; uniform = true; uval = 0; break; }
      }
    }
    ++n;
    bool z = true, o = true;
    if (m.IsUniform() != uniform) { fail(in, std::string("uniform = ") + (uniform ? "yes" : "no"), m.IsUniform() ? "yes" : "no"); continue; }
    z = uniform && uval == 0; o = uniform && uval == 1;
    if (m.IsZero() != z) { fail(in, std::string("is zero = ") + (z ? "yes" : "no"), m.IsZero() ? "yes" : "no", "iszero"); continue; }
    if (m.IsOne() != o) { fail(in, std::string("is one = ") + (o ? "yes" : "no"), m.IsOne() ? "yes" : "no", "isone"); continue; }
    if (uniform && (d(uval) != m.GetUniformValue<double>() || uval != m.GetUniformValue<float128>())) { fail(in, "uniform value " + str(uval), str(m.GetUniformValue<float128>())); continue; }
    bool first = rng.coin();
    for (int r = 0; r < 2; ++r)
      if (first == (r == 0)) {
        auto &v = m.GetValues<double>();
        if (v.size() != len) { fail(in, std::to_string(len) + " double values", std::to_string(v.size())); break; }
        for (size_t i = 0; i < len; ++i) if (v[i] != d(want[i])) { fail(in, "double value [" + std::to_string(i) + "] = " + num(d(want[i])), num(v[i])); break; }
      } else {
        auto &v = m.GetValues<float128>();
        if (v.size() != len) { fail(in, std::to_string(len) + " extended values", std::to_string(v.size())); break; }
        for (size_t i = 0; i < len; ++i) if (v[i] != want[i]) { fail(in, "extended value [" + std::to_string(i) + "] = " + str(want[i]), str(v[i])); break; }
      }
  }
  return n;
}

// ---- models of a real region: a chain of calculated models above a written one must always give the values of the last write
static int calcs;
#define TWICE(M, CALC, MORE) \
struct Twice##M : public M { \
  std::string dep; \
  Twice##M(const std::string &n, const std::string &d, RegionPtr r) : M(n, r, M::DisplayType::SCALAR), dep(d) {} \
  void derived_init() override { RegisterCallback(dep); } \
  void Serialize(std::ostream &) const override {} \
  MORE \
  void CALC() const override { ++calcs; auto v = GetRegion().Get##M(dep)->template GetScalarValues<double>(); for (auto &q : v) q = 2 * q + 1; SetValues(v); } \
};
TWICE(NodeModel, calcNodeScalarValues, void setInitialValues() override { DefaultInitializeValues(); })
TWICE(EdgeModel, calcEdgeScalarValues, )
TWICE(TriangleEdgeModel, calcTriangleEdgeScalarValues, )
TWICE(TetrahedronEdgeModel, calcTetrahedronEdgeScalarValues, )
template <class M> static void one(M &m, size_t, double, Rng &, std::string &, std::vector<double> &) {}
static void one(NodeModel &m, size_t k, double v, Rng &, std::string &in, std::vector<double> &w) { in += " set [" + std::to_string(k) + "] " + num(v); if (k % 2) m.SetNodeValue(k, v); else m.SetNodeValue(k, float128(v)); w[k] = v; }
template <class M, class T, class ADD> static void chain(Rng &r, const std::string &kind, std::shared_ptr<M> x, RegionPtr rg, ADD add, long &n) {
  size_t len = x->GetLength();
  std::vector<double> w = x->template GetScalarValues<double>();
  std::shared_ptr<M> y = add(std::make_shared<T>("y_" + kind, x->GetName(), rg)), z = add(std::make_shared<T>("z_" + kind, "y_" + kind, rg));
  std::string in = kind + " models x, y = 2x+1, z = 2y+1 of " + std::to_string(len) + " elements:";
  bool ty = false, tz = false; int expect = 0; calcs = 0; std::vector<double> wy;
  auto needy = [&]() { if (ty) return; ++expect; ty = true; wy.resize(len); for (size_t i = 0; i < len; ++i) wy[i] = 2 * w[i] + 1; };
  for (int k = 0; k < 12; ++k) {
    static const double c[] = {0, 1, -2}; double v = r.coin() ? c[r.in(0, 2)] : r.dy();
    switch (r.in(0, 6)) {
      case 0: in += "; x = " + num(v); if (r.coin()) x->SetValues(v); else x->SetValues(float128(v)); w.assign(len, v); ty = tz = false; break;
      case 1: { auto q = rnd(r, len); in += "; x = " + vec(q); if (r.coin()) x->SetValues(q); else { std::vector<float128> e(q.begin(), q.end()); x->SetValues(e); } w = q; ty = tz = false; break; }
      case 2: if (len && std::is_same<M, NodeModel>::value) { one(*x, r.in(0, int(len) - 1), v, r, in, w); ty = tz = false; } break;
      case 3: in += "; mark x"; x->MarkOld(); ty = tz = false; break;
      case 4: { in += "; read y"; bool ext = r.coin(); needy();
        std::vector<double> g; if (ext) for (auto &q : y->template GetScalarValues<float128>()) g.push_back(d(q)); else g = y->template GetScalarValues<double>();
        if (g.size() != len) { fail(in, std::to_string(len) + " values", std::to_string(g.size())); return; }
        for (size_t i = 0; i < len; ++i) if (g[i] != wy[i]) { fail(in, "y[" + std::to_string(i) + "] = " + num(wy[i]), num(g[i])); return; } break; }
      case 5: { in += "; read z"; if (!tz) { ++expect; needy(); } tz = true; auto &g = z->template GetScalarValues<double>();
        if (g.size() != len) { fail(in, std::to_string(len) + " values", std::to_string(g.size())); return; }
        for (size_t i = 0; i < len; ++i) if (!ty) break; else if (g[i] != 2 * wy[i] + 1) { fail(in, "z[" + std::to_string(i) + "] = " + num(2 * wy[i] + 1), num(g[i])); return; } break; }
      case 6: if (len && std::is_same<M, NodeModel>::value) { in += "; y"; needy(); one(*y, r.in(0, int(len) - 1), v, r, in, wy); tz = false; } break;
    }
    auto &g = x->template GetScalarValues<double>();
    bool all0 = len, all1 = len;
    for (size_t i = 0; i < len; ++i) { if (g[i] != w[i]) { fail(in, "x[" + std::to_string(i) + "] = " + num(w[i]), num(g[i])); return; } all0 = all0 && w[i] == 0; all1 = all1 && w[i] == 1; }
    if (x->IsZero() && !all0) { fail(in, "x is not zero", "zero"); return; }
    if (x->IsOne() && !all1) { fail(in, "x is not one", "one"); return; }
    if (calcs != expect) { fail(in, std::to_string(expect) + " calculations", std::to_string(calcs), "calculations"); return; }
  }
  ++n;
}
TEST(models) {
  long n = 0;
  for (int it = 0; it < 40 * scale; ++it) {
    int dim = 1 + it % 3;
    Mesh m = mkmesh(rng, dim, 1);
    chain<NodeModel, TwiceNodeModel>(rng, "node", setnode(m, "x_node", rnd(rng, m.p.size())), m.reg, [&](NodeModelPtr q) { m.reg->AddNodeModel(q); q->derived_init(); return q; }, n);
    chain<EdgeModel, TwiceEdgeModel>(rng, "edge", setedge(m, "x_edge", rnd(rng, m.e.size())), m.reg, [&](EdgeModelPtr q) { m.reg->AddEdgeModel(q); q->derived_init(); return q; }, n);
    if (dim >= 2) chain<TriangleEdgeModel, TwiceTriangleEdgeModel>(rng, "triangle edge", settri(m, "x_tri", rnd(rng, 3 * m.t.size())), m.reg, [&](TriangleEdgeModelPtr q) { m.reg->AddTriangleEdgeModel(q); q->derived_init(); return q; }, n);
    if (dim >= 3) chain<TetrahedronEdgeModel, TwiceTetrahedronEdgeModel>(rng, "tetrahedron edge", settet(m, "x_tet", rnd(rng, 6 * m.k.size())), m.reg, [&](TetrahedronEdgeModelPtr q) { m.reg->AddTetrahedronEdgeModel(q); q->derived_init(); return q; }, n);
  }
  return n;
}
