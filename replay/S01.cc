// vector arithmetic of models: random operation histories against plain lists, and threaded runs against serial ones
#include "mesh.hh"
#include "ScalarData.hh"
#include "ParallelOpEqual.hh"
#include "GetNumberOfThreads.hh"
#include "ObjectHolder.hh"
using namespace h;
static void threads(int n, int task) {
  GlobalData &g = GlobalData::GetInstance();
  g.AddDBEntryOnGlobal("threads_available", ObjectHolder(n));
  g.AddDBEntryOnGlobal("threads_task_size", ObjectHolder(task));
}
template <class V> static long run(const char *name, Rng &r, int n, int task, size_t len) {
  std::vector<double> a = rnd(r, len), b = rnd(r, len), w = a, x = a, y = a;
  double s = r.dynz();
  V op;
  for (size_t i = 0; i < len; ++i) op(w[i], b[i]);
  std::string in = std::string(name) + " of " + std::to_string(len) + " elements, " + std::to_string(n) + " threads, task size " + std::to_string(task);
  SerialVectorVectorOpEqual<V, double> f(x, b, op);
  OpEqualRun(f, len);
  for (size_t i = 0; i < len; ++i) if (x[i] != w[i]) { fail(in + ", vector operand", "[" + std::to_string(i) + "] = " + num(w[i]), num(x[i])); break; }
  w = a; for (auto &q : w) op(q, s);
  SerialVectorScalarOpEqual<V, double> g(y, s, op);
  OpEqualRun(g, len);
  for (size_t i = 0; i < len; ++i) if (y[i] != w[i]) { fail(in + ", scalar operand", "[" + std::to_string(i) + "] = " + num(w[i]), num(y[i])); break; }
  return 2;
}
TEST(threads) {
  long c = 0;
  for (int n = 0; n <= 9; ++n) for (int task : {0, 1, 2, 3, 10, 64}) {
    threads(n, task);
    for (int l = 1; l <= 300; l += l < 24 ? 1 : rng.in(3, scale > 1 ? 9 : 29)) {
      begin(std::to_string(l) + " elements, " + std::to_string(n) + " threads, task size " + std::to_string(task));
      c += run<ScalarDataHelper::times_equal<double>>("product", rng, n, task, l); c += run<ScalarDataHelper::plus_equal<double>>("sum", rng, n, task, l);
    }
  }
  threads(1, 0);
  return c;
}
template <class M> static void one(Rng &r, std::shared_ptr<const M> *m, std::vector<double> *mv, bool *mu, size_t len, const std::string &kind, long &n) {
  typedef ScalarData<M, double> S;
  struct O { S s; std::vector<double> w; };
  std::string in = kind + " models a=" + vec(mv[0]) + (mu[0] ? " (uniform)" : "") + " b=" + vec(mv[1]) + (mu[1] ? " (uniform)" : "") + ":";
  auto mk = [&](int v) -> O {
    int q = r.in(0, 3); std::string nm = "; x" + std::to_string(v) + " = ";
    if (q == 0) { static const double c[] = {0, 1, -2.5}; double x = c[r.in(0, 2)]; in += nm + num(x); return O{S(x, len), std::vector<double>(len, x)}; }
    if (q == 1) { auto w = rnd(r, len); in += nm + vec(w); return O{S(w), w}; }
    in += nm + (q == 2 ? "a" : "b"); return O{S(*m[q - 2]), mv[q - 2]};
  };
  std::vector<O> o; for (int i = 0; i < 3; ++i) o.push_back(mk(i));
  for (int k = 0, e = r.in(1, 7); k < e; ++k) {
    int i = r.in(0, 2), j = r.in(0, 2); O &x = o[i]; std::string nm = "; x" + std::to_string(i);
    static const double c[] = {0, 1, -1, 0.5}; double s = c[r.in(0, 3)];
    switch (r.in(0, 8)) {
      case 0: in += nm + " *= " + num(s); x.s.times_equal_scalar(s); for (auto &q : x.w) q *= s; break;
      case 1: in += nm + " += " + num(s); x.s.plus_equal_scalar(s); for (auto &q : x.w) q += s; break;
      case 2: { int b = r.in(0, 1); in += nm + " *= " + (b ? "b" : "a"); x.s.times_equal_model(*m[b]); for (size_t l = 0; l < len; ++l) x.w[l] *= mv[b][l]; break; }
      case 3: { int b = r.in(0, 1); in += nm + " += " + (b ? "b" : "a"); x.s.plus_equal_model(*m[b]); for (size_t l = 0; l < len; ++l) x.w[l] += mv[b][l]; break; }
      case 4: { in += nm + " *= x" + std::to_string(j); auto w = o[j].w; x.s.times_equal_data(o[j].s); for (size_t l = 0; l < len; ++l) x.w[l] *= w[l]; break; }
      case 5: { in += nm + " += x" + std::to_string(j); auto w = o[j].w; x.s.plus_equal_data(o[j].s); for (size_t l = 0; l < len; ++l) x.w[l] += w[l]; break; }
      case 6: { in += nm + " = x" + std::to_string(j); auto w = o[j].w; if (r.coin()) x.s = o[j].s; else { S t(o[j].s); x.s = t; } x.w = w; break; }
      case 7: if (len) { size_t l = r.in(0, int(len) - 1); in += nm + "[" + std::to_string(l) + "] = " + num(s); x.s[l] = s; x.w[l] = s; } break;
      case 8: in += "; list of x" + std::to_string(i); x.s.GetScalarList(); break;
    }
  }
  ++n;
  for (int i = 0; i < 3; ++i) {
    const S &s = o[i].s;
    if (s.GetLength() != len) { fail(in, "length of x" + std::to_string(i) + " = " + std::to_string(len), std::to_string(s.GetLength())); return; }
    if (s.IsUniform()) for (double q : o[i].w) if (!close(q, s.GetUniformValue())) { fail(in, "x" + std::to_string(i) + " uniform only if all elements are equal: " + vec(o[i].w), "uniform " + num(s.GetUniformValue())); return; }
    for (size_t l = 0; l < len; ++l) if (!close(o[i].w[l], s[l])) { fail(in, "x" + std::to_string(i) + "[" + std::to_string(l) + "] = " + num(o[i].w[l]), num(s[l])); return; }
    const auto &g = s.GetScalarList();
    if (g.size() != len) { fail(in, "list of x" + std::to_string(i) + " has " + std::to_string(len) + " values", std::to_string(g.size())); return; }
    for (size_t l = 0; l < len; ++l) if (!close(o[i].w[l], g[l])) { fail(in, "x" + std::to_string(i) + " list[" + std::to_string(l) + "] = " + num(o[i].w[l]), num(g[l])); return; }
  }
  for (int b = 0; b < 2; ++b) { auto &g = m[b]->template GetScalarValues<double>(); for (size_t l = 0; l < len; ++l) if (g[l] != mv[b][l]) { fail(in, std::string("model ") + (b ? "b" : "a") + " unchanged", "[" + std::to_string(l) + "] = " + num(g[l])); return; } }
}
template <class M, class F> static void both(Rng &r, F set, size_t len, const std::string &kind, long &n) {
  std::shared_ptr<const M> m[2]; std::vector<double> v[2]; bool u[2];
  for (int b = 0; b < 2; ++b) {
    u[b] = r.coin(); static const double c[] = {0, 1, 3};
    v[b] = u[b] ? std::vector<double>(len, c[r.in(0, 2)]) : rnd(r, len);
    auto q = set((std::string(b ? "b_" : "a_") + kind[0] + kind[1]).c_str(), v[b]);
    if (u[b]) q->SetValues(v[b].empty() ? 0.0 : v[b][0]);
    m[b] = q;
  }
  one<M>(r, m, v, u, len, kind, n);
}
TEST(arithmetic) {
  long n = 0;
  for (int it = 0; it < 8 * scale; ++it) for (int dim = 1; dim <= 3; ++dim) {
    Mesh m = mkmesh(rng, dim, 1);
    for (int t = 0; t < 40; ++t) {
      threads(rng.in(0, 3), rng.in(0, 4));
      both<NodeModel>(rng, [&](const char *s, const std::vector<double> &v) { return setnode(m, s, v); }, m.p.size(), "node", n);
      both<EdgeModel>(rng, [&](const char *s, const std::vector<double> &v) { return setedge(m, s, v); }, m.e.size(), "edge", n);
      if (dim >= 2) both<TriangleEdgeModel>(rng, [&](const char *s, const std::vector<double> &v) { return settri(m, s, v); }, 3 * m.t.size(), "triangle edge", n);
      if (dim >= 3) both<TetrahedronEdgeModel>(rng, [&](const char *s, const std::vector<double> &v) { return settet(m, s, v); }, 6 * m.k.size(), "tetrahedron edge", n);
    }
  }
  threads(1, 0);
  return n;
}
