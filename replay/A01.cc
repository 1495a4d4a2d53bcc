#include "solve.hh"
#include "Contact.hh"
#include "Permutation.hh"
#include "ContactEquation.hh"
#include "ContactEquationHolder.hh"
#include "ExprContactEquation.hh"
#include "InstanceKeeper.hh"
#include "InstanceModel.hh"
using namespace h;
typedef dsMathEnum::WhatToLoad WL;
typedef dsMathEnum::TimeMode TM;
typedef std::complex<double> C;
typedef std::map<std::pair<int, int>, C> CMat;
typedef std::map<int, C> CVec;
static CMat dense(dsMath::CompressedMatrix<double> &m, size_t n, bool cx) {
  m.Finalize(); CMat r;
  for (size_t j = 0; j < n; ++j) {
    if (cx) { dsMath::ComplexDoubleVec_t<double> u(n), y(n); u[j] = 1; m.Multiply(u, y); for (size_t i = 0; i < n; ++i) if (y[i] != C(0)) r[{int(i), int(j)}] = y[i]; }
    else { dsMath::DoubleVec_t<double> u(n), y(n); u[j] = 1; m.Multiply(u, y); for (size_t i = 0; i < n; ++i) if (y[i] != 0) r[{int(i), int(j)}] = y[i]; }
  }
  return r;
}
static bool cmpc(const std::string &in, CMat want, CMat got) {
  for (auto &x : got) want[x.first] += 0;
  for (auto &x : want) { std::string w = "matrix row " + std::to_string(x.first.first) + " column " + std::to_string(x.first.second); C g = got[x.first]; if (!same(in, w + " real", x.second.real(), g.real()) || !same(in, w + " imaginary", x.second.imag(), g.imag())) return false; }
  return true;
}
template <class T> static bool cmpr(const std::string &in, CVec want, const std::vector<T> &got) {
  for (size_t i = 0; i < got.size(); ++i) { C w = want[int(i)], g = got[i]; if (!same(in, "right hand side row " + std::to_string(i) + " real", w.real(), g.real()) || !same(in, "right hand side row " + std::to_string(i) + " imaginary", w.imag(), g.imag())) return false; }
  return true;
}
struct El : InstanceModel {
  std::vector<CircuitNodePtr> k; std::vector<std::vector<double>> G, Q; std::vector<double> I, D; C src;
  El(NodeKeeper *nk, const char *n) : InstanceModel(nk, n) {}
  void put(const std::vector<std::vector<double>> &A, const std::vector<double> &b, double s, dsMath::RealRowColValueVec<double> *m, dsMath::RHSEntryVec<double> &r) {
    for (size_t i = 0; i < k.size(); ++i) { r.push_back({int(k[i]->getNumber()), s * b[i]}); if (m) for (size_t j = 0; j < k.size(); ++j) m->push_back(dsMath::RealRowColVal<double>(int(k[i]->getNumber()), int(k[j]->getNumber()), s * A[i][j])); }
  }
  void assembleDC_impl(const std::vector<double> &, dsMath::RealRowColValueVec<double> &m, dsMath::RHSEntryVec<double> &r) override { put(G, I, 1, &m, r); }
  void assembleTran_impl(const double s, const std::vector<double> &, dsMath::RealRowColValueVec<double> *m, dsMath::RHSEntryVec<double> &r) override { put(Q, D, s, m, r); }
  void assembleACRHS_impl(std::vector<std::pair<size_t, C>> &x) override { if (src != C(0)) x.push_back({k[0]->getNumber(), src}); }
  bool addParam(const std::string &, double) override { return false; }
};
struct ACDense : Dense {
  std::function<bool(dsMath::CompressedMatrix<double> &, dsMath::ComplexDoubleVec_t<double> &, dsMath::ComplexDoubleVec_t<double> &)> f; int ac = 0, noise = 0;
  bool ACSolveImpl(dsMath::Matrix<double> &M, dsMath::Preconditioner<double> &, dsMath::ComplexDoubleVec_t<double> &x, dsMath::ComplexDoubleVec_t<double> &b) override { ++ac; return f(dynamic_cast<dsMath::CompressedMatrix<double> &>(M), x, b); }
  bool NoiseSolveImpl(dsMath::Matrix<double> &M, dsMath::Preconditioner<double> &, dsMath::ComplexDoubleVec_t<double> &x, dsMath::ComplexDoubleVec_t<double> &b) override { ++noise; return f(dynamic_cast<dsMath::CompressedMatrix<double> &>(M), x, b); }
};
TEST(system) {
  long n = 0; solver_setup();
  for (int it = 0; it < 60 * scale; ++it) {
    ++n; std::vector<std::string> dn; std::vector<Device *> ds; int nd = rng.in(1, 3); std::string in = std::to_string(nd) + " devices";
    for (int d = 0; d < nd; ++d) {
      Mesh m = mkmesh(rng, rng.in(1, 2)); ds.push_back(m.dev); dn.push_back(m.dev->GetName()); size_t N = m.p.size();
      setnode(m, "one", std::vector<double>(N, 1.0));
      for (const char *u : {"u", "w"}) {
        setnode(m, u, rnd(rng, N)); std::string f = std::string("f") + u, q = std::string("q") + u;
        for (auto &x : {f, f + ":u", f + ":w", q, q + ":u"}) setnode(m, x, rnd(rng, N));
        m.reg->AddEquation(*new EquationHolder(new ExprEquation<double>(std::string("eq") + u, m.reg, u, f, "", "", "", "", "", rng.coin() ? q : "", EquationEnum::DEFAULT)));
      }
      int nc = rng.in(0, 2); in += " (" + std::to_string(N) + " nodes, " + std::to_string(nc) + " contacts)";
      for (int c = 0; c < nc; ++c) {
        ConstNodeList_t l; l.push_back(m.reg->GetNodeList()[c == 0 ? 0 : N - 1]);
        Contact *ct = new Contact("c" + std::to_string(c), m.reg, l, "metal"); m.dev->AddContact(ct);
        std::string b = "b" + std::to_string(c); setnode(m, b, rnd(rng, N)); setnode(m, b + ":u", rnd(rng, N));
        ct->AddEquation(*new ContactEquationHolder(new ExprContactEquation<double>("equ", "", ct, m.reg, b, "", "", "", "", "", "", "", "", "", "", "")));
      }
    }
    NodeKeeper::delete_instance(); InstanceKeeper::delete_instance();
    NodeKeeper &nk = NodeKeeper::instance(); int nn = rng.coin(3) ? 0 : rng.in(2, 4), ne = nn ? rng.in(1, 3) : 0; std::vector<CircuitNodePtr> cn;
    for (int i = 0; i < nn; ++i) cn.push_back(nk.AddNode("n" + std::to_string(i)));
    if (nn) nk.AddNode("0", CircuitNodeType::GROUND);
    std::vector<El *> es; std::vector<CircuitNodePtr> un = cn; shuffle(un, rng);
    for (int i = 0; i < ne; ++i) {
      El *e = new El(&nk, ("e" + std::to_string(i)).c_str()); e->k.push_back(i < int(un.size()) ? un[i] : un[0]); if (nn > 1) { auto o = cn[rng.in(0, nn - 1)]; if (o != e->k[0]) e->k.push_back(o); }
      size_t K = e->k.size(); for (size_t a = 0; a < K; ++a) { e->G.push_back(rnd(rng, K)); e->Q.push_back(rnd(rng, K)); } e->I = rnd(rng, K); e->D = rnd(rng, K);
      if (i < int(un.size()) && rng.coin()) e->src = C(rng.real(-2, 2), rng.real(-2, 2));
      es.push_back(e); InstanceKeeper::instance().addInstanceModel(e);
    }
    in += " circuit of " + std::to_string(nn) + " nodes, " + std::to_string(ne) + " elements";
    dsMath::Newton<double> nw; size_t R = nw.NumberEquationsAndSetDimension(); if (nn) nk.InitializeSolution("dcop");
    std::vector<PermutationEntry> id; bool same_ = rng.coin(); if (!same_) in += " permutation"; for (size_t i = 0; i < R; ++i) { bool c = !same_ && rng.coin(); id.push_back(PermutationEntry(same_ || rng.coin() ? i : size_t(rng.in(-1, int(R) - 1)), c)); if (!same_) in += " " + std::to_string(int(id.back().GetRow())) + (c ? "+copy" : ""); }
    PermutationMap all;
    auto parts = [&](TM t, C s, CMat &wm, CVec &wv, bool plain = false) {
      auto addm = [&](int r, int c, double x) { wm[{r, c}] += s * x; }; auto addv = [&](int r, double x) { wv[r] -= s * x; };
      for (auto *d : ds) {
        dsMath::RealRowColValueVec<double> m, b; dsMath::RHSEntryVec<double> v, bv; PermutationMap p; { dsMath::RealRowColValueVec<double> m0; dsMath::RHSEntryVec<double> v0; for (auto &c : d->GetContactList()) for (auto &e : c.second->GetEquationPtrList()) { auto h = e.second; h.Assemble(m0, v0, p, WL::PERMUTATIONSONLY, TM::DC); } }
        for (auto &c : d->GetContactList()) for (auto &e : c.second->GetEquationPtrList()) { auto h = e.second; h.Assemble(m, v, p, WL::MATRIXANDRHS, t); }
        for (auto &r : d->GetRegionList()) for (auto &e : r.second->GetEquationPtrList()) { auto h = e.second; h.Assemble(b, bv, WL::MATRIXANDRHS, t); }
        for (auto &x : p) all[x.first] = x.second;
        for (auto &x : m) addm(x.row, x.col, x.val);
        for (auto &x : v) addv(x.first, x.second);
        auto each = [&](int r, std::function<void(int)> f) { auto x = p.find(r); auto q = x == p.end() ? plain ? PermutationEntry(r, false) : id[r] : x->second; if (q.GetRow() != size_t(-1)) { f(int(q.GetRow())); if (q.KeepCopy()) f(r); } };
        for (auto &x : b) each(x.row, [&](int r) { addm(r, x.col, x.val); });
        for (auto &x : bv) each(x.first, [&](int r) { addv(r, x.second); });
      }
      for (auto *e : es) for (size_t i = 0; i < e->k.size(); ++i) {
        int o = nk.GetMinEquationNumber(), r = int(e->k[i]->getNumber()) + o; addv(r, t == TM::DC ? e->I[i] : e->D[i]);
        for (size_t j = 0; j < e->k.size(); ++j) addm(r, int(e->k[j]->getNumber()) + o, t == TM::DC ? e->G[i][j] : e->Q[i][j]);
      }
    };
    for (int t = 0; t < 2; ++t) for (int what = 0; what < 4; ++what) for (int cx = 0; cx < 2; ++cx) {
      std::string q = in + (t ? " time" : " steady") + " load " + std::to_string(what) + (cx ? " complex" : ""); begin(q);
      C s(rng.real(-2, 2), cx ? rng.real(-2, 2) : 0); CMat wm; CVec wv; parts(t ? TM::TIME : TM::DC, s, wm, wv);
      dsMath::CompressedMatrix<double> mat(R, cx ? dsMath::MatrixType::COMPLEX : dsMath::MatrixType::REAL, dsMath::CompressionType::CCM);
      dsMath::ComplexDoubleVec_t<double> rc(R); dsMath::DoubleVec_t<double> rr(R); auto pv = id;
      TM tm = t ? TM::TIME : TM::DC; WL w = WL(what);
      nw.LoadMatrixAndRHS(mat, rr, pv, WL::PERMUTATIONSONLY, TM::DC, 1.0); if (what == 3) { wm.clear(); wv.clear(); }
      if (cx) nw.LoadMatrixAndRHS(mat, rc, pv, w, tm, s); else nw.LoadMatrixAndRHS(mat, rr, pv, w, tm, s.real());
      if (what != 1 && !cmpc(q, wm, dense(mat, R, cx))) return n;
      if (what != 0 && !(cx ? cmpr(q, wv, rc) : cmpr(q, wv, rr))) return n;
      if (what == 3 && !all.empty()) for (size_t i = 0; i < R; ++i) {
        auto x = all.find(i); PermutationEntry want = x == all.end() ? id[i] : x->second;
        if (pv[i].GetRow() != want.GetRow() || pv[i].KeepCopy() != want.KeepCopy()) { fail(q, "row " + std::to_string(i) + " goes to " + std::to_string(int(want.GetRow())), std::to_string(int(pv[i].GetRow()))); return n; }
      }
    }
    // small signal and noise
    double f = rng.real(0.1, 5); CMat wm; { CVec x; parts(TM::DC, 1.0, wm, x, true); parts(TM::TIME, C(0, 2 * M_PI * f), wm, x, true); }
    ACDense ls; bool ok = !rng.coin(4); std::string q = in + " small signal"; begin(q); std::string nout = nn ? "n" + std::to_string(rng.in(0, nn - 1)) : "n0"; bool noise = false; bool bad = false; std::vector<C> sol;
    auto value = [&](const std::string &u, size_t dv, const std::string &name) { (void)u; auto nm = ds[dv]->GetRegionList().begin()->second->GetNodeModel(name); return nm ? nm->GetScalarValues<double>() : std::vector<double>(); };
    ls.f = [&](dsMath::CompressedMatrix<double> &M, dsMath::ComplexDoubleVec_t<double> &x, dsMath::ComplexDoubleVec_t<double> &b) {
      CVec wv; int o = nk.HaveNodes() ? int(nk.GetMinEquationNumber()) : 0;
      if (noise) wv[int(nk.GetEquationNumber(nout))] = 1; else for (auto *e : es) if (e->src != C(0)) wv[int(e->k[0]->getNumber()) + o] = e->src;
      bad = !cmpc(q, wm, dense(M, R, true)) || !cmpr(q, wv, b); sol.clear(); x.resize(R); for (size_t i = 0; i < R; ++i) { x[i] = C(rng.real(-2, 2), rng.real(-2, 2)); sol.push_back(x[i]); } return ok;
    };
    // every node value of the first variable comes from the solution
    bool r1 = nw.ACSolve(ls, f); if (bad) return n;
    if (r1 != ok || ls.ac != 1) { fail(q, std::string("one solve, outcome ") + (ok ? "true" : "false"), std::to_string(ls.ac) + " solves, " + (r1 ? "true" : "false")); return n; }
    if (ok) for (size_t d = 0; d < ds.size(); ++d) {
      Region *r = ds[d]->GetRegionList().begin()->second; for (const char *u : {"u", "w"}) {
        auto re = value("", d, std::string(u) + "_Real"), im = value("", d, std::string(u) + "_Imag");
        if (re.size() != r->GetNumberNodes()) { fail(q, std::string("solution ") + u, "none"); return n; }
        size_t idx = r->GetEquationIndex(std::string("eq") + u);
        for (size_t i = 0; i < re.size(); ++i) { C w = sol[r->GetEquationNumber(idx, r->GetNodeList()[i])]; if (!same(q, std::string(u) + " real", w.real(), re[i]) || !same(q, std::string(u) + " imaginary", w.imag(), im[i])) return n; }
      }
    }
    noise = true; q = in + " noise at " + nout; begin(q); bool r2 = nw.NoiseSolve(nout, ls, f); if (bad) return n;
    if (r2 != (nn && ok) || ls.noise != (nn ? 1 : 0)) { fail(q, "outcome of the solve", r2 ? "true" : "false"); return n; }
    for (auto &x : dn) GlobalData::GetInstance().DeleteDevice(x);
  }
  NodeKeeper::delete_instance(); InstanceKeeper::delete_instance();
  return n;
}
