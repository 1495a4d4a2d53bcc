// A row-wise nonlinear problem on a region, and a dense solver for it.
#pragma once
#include "eqn.hh"
#include "NodeKeeper.hh"
#include "CircuitNode.hh"
#define private public
#define protected public
#include "TimeData.hh"
#include "Newton.hh"
#undef private
#undef protected
#include "LinearSolver.hh"
#include "CompressedMatrix.hh"
#include "Preconditioner.hh"
#include "dsException.hh"
namespace h {
// a row-wise nonlinear problem: f(u) = k (u - e) + c (u - e)^3, q(u) = a u + b u^2
struct Prob { std::vector<double> k, e, c, a, b; double f(size_t i, double u) const { double d = u - e[i]; return k[i] * d + c[i] * d * d * d; } double df(size_t i, double u) const { double d = u - e[i]; return k[i] + 3 * c[i] * d * d; } double q(size_t i, double u) const { return a[i] * u + b[i] * u * u; } double dq(size_t i, double u) const { return a[i] + 2 * b[i] * u; } };
struct Fun : NodeModel {
  int w; const Prob *p;
  Fun(const std::string &n, Region *r, int w_, const Prob *p_) : NodeModel(n, r, NodeModel::DisplayType::SCALAR), w(w_), p(p_) {}
  void derived_init() override { RegisterCallback("u"); }
  void Serialize(std::ostream &) const override {}
  template <class T> void calc() const {
    auto um = GetRegion().GetNodeModel("u"); const std::vector<double> u = um->GetScalarValues<double>(); std::vector<T> v(u.size());
    for (size_t i = 0; i < u.size(); ++i) v[i] = w == 0 ? p->f(i, u[i]) : w == 1 ? p->df(i, u[i]) : w == 2 ? p->q(i, u[i]) : p->dq(i, u[i]);
    SetValues(v);
  }
  void calcNodeScalarValues() const override { calc<double>(); }
  void setInitialValues() override { DefaultInitializeValues(); }
};
struct Dense : dsMath::LinearSolver<double> {
  int bad = -1, calls = 0;
  bool SolveImpl(dsMath::Matrix<double> &M, dsMath::Preconditioner<double> &, dsMath::DoubleVec_t<double> &x, dsMath::DoubleVec_t<double> &b) override {
    if (calls++ == bad) return false;
    auto &cm = dynamic_cast<dsMath::CompressedMatrix<double> &>(M); size_t n = b.size(); std::vector<std::vector<double>> A(n, std::vector<double>(n + 1));
    for (size_t j = 0; j < n; ++j) { std::vector<double> u(n), y(n); u[j] = 1; cm.Multiply(u, y); for (size_t i = 0; i < n; ++i) A[i][j] = y[i]; }
    for (size_t i = 0; i < n; ++i) A[i][n] = b[i];
    for (size_t c = 0; c < n; ++c) { size_t p = c; for (size_t i = c; i < n; ++i) if (std::fabs(A[i][c]) > std::fabs(A[p][c])) p = i; std::swap(A[p], A[c]); for (size_t i = 0; i < n; ++i) if (i != c) { double f = A[i][c] / A[c][c]; for (size_t j = c; j <= n; ++j) A[i][j] -= f * A[c][j]; } }
    x.resize(n); for (size_t i = 0; i < n; ++i) x[i] = A[i][n] / A[i][i];
    return true;
  }
  bool ACSolveImpl(dsMath::Matrix<double> &, dsMath::Preconditioner<double> &, dsMath::ComplexDoubleVec_t<double> &, dsMath::ComplexDoubleVec_t<double> &) override { return false; }
  bool NoiseSolveImpl(dsMath::Matrix<double> &, dsMath::Preconditioner<double> &, dsMath::ComplexDoubleVec_t<double> &, dsMath::ComplexDoubleVec_t<double> &) override { return false; }
};
inline void solver_setup() {
  param("debug_level", "info"); param("node_volume_model", "one"); param("direct_solver", "custom");
  PyRun_SimpleString("def cb(**k):\n  return {'matrix_format': 'csc', 'solver_object': 1, 'status': True, 'message': ''}\n");
  GlobalData::GetInstance().AddDBEntryOnGlobal("solver_callback", ObjectHolder((void *)PyObject_GetAttrString(PyImport_AddModule("__main__"), "cb")));
}
inline std::vector<NodeModelPtr> problem(Mesh &m, const Prob *p, const std::string &eqname = "eq") {
  size_t N = m.p.size(); setnode(m, "one", std::vector<double>(N, 1.0)); setnode(m, "u", std::vector<double>(N, 0.0));
  const char *nm[] = {"f", "f:u", "q", "q:u"}; std::vector<NodeModelPtr> keep;
  for (int w = 0; w < 4; ++w) { auto *x = new Fun(nm[w], m.reg, w, p); NodeModelPtr s(x); s->init(); keep.push_back(s); }
  EquationHolder eq(new ExprEquation<double>(eqname, m.reg, "u", "f", "", "", "", "", "", "q", EquationEnum::DEFAULT)); m.reg->AddEquation(eq);
  return keep;
}
}
