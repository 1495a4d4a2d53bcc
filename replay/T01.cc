#include "solve.hh"
using namespace h;
typedef dsMath::TimeMethods::TimeParams<double> TP;
using dsMath::TimeMethods::TimeMethod_t;
static TimePoint_t tp(int i) { return i == 0 ? TimePoint_t::TM0 : i == 1 ? TimePoint_t::TM1 : TimePoint_t::TM2; }
static TP params(int m, double h, double g) {
  if (m == 0) return dsMath::TimeMethods::DCOnly<double>();
  if (m == 1) return dsMath::TimeMethods::TransientDC<double>();
  if (m == 2) return dsMath::TimeMethods::TR<double>(h, g);
  if (m == 3) return dsMath::TimeMethods::BDF1<double>(h, g);
  return dsMath::TimeMethods::BDF2<double>(h, g);
}
static const char *mname[] = {"dc_only", "transient_dc", "tr", "bdf1", "bdf2"};
TEST(methods) {
  long n = 0;
  for (int it = 0; it < 200 * scale; ++it) for (int m = 0; m < 5; ++m) {
    double h = rng.real(0.01, 3), g = rng.coin(3) ? (m == 4 ? 0.5 : 1.0) : rng.real(0.05, 0.95); ++n;
    TP t = params(m, h, g);
    std::string in = std::string(mname[m]) + " step " + num(h) + " gamma " + num(g); begin(in);
    int want[] = {0, 1, 2, 3, 4};
    if (int(t.method) != want[m]) fail(in, "method " + std::to_string(want[m]), std::to_string(int(t.method)));
    same(in, "a0+a1+a2 (scaled)", 0, (t.a0 + t.a1 + t.a2) * h);
    same(in, "b0", 1, t.b0); same(in, "b1", m == 2, t.b1); same(in, "b2", 0, t.b2);
    if (m < 2) { same(in, "a0", 0, t.a0); same(in, "a1", 0, t.a1); continue; }
    if (m == 4) {
      same(in, "derivative of a linear charge", 1, t.a0 * h + t.a1 * g * h);
      same(in, "derivative of a quadratic charge", 2 * h, t.a0 * h * h + t.a1 * g * h * g * h);
      same(in, "projection distance", h - g * h, t.tdelta);
    } else {
      same(in, "derivative of a linear charge", m == 2 ? 2 : 1, t.a0 * g * h); same(in, "a2", 0, t.a2);
      same(in, "projection distance", g * h, t.tdelta);
    }
    if (nfail) return n;
  }
  return n;
}
struct Hist { std::vector<double> I[3], Q[3]; };
static void put(const Hist &x) { auto &t = TimeData<double>::GetInstance(); for (int i = 0; i < 3; ++i) { t.IData[i] = x.I[i]; t.QData[i] = x.Q[i]; } }
static bool check(const std::string &in, const Hist &x, double tol = 0) {
  auto &t = TimeData<double>::GetInstance();
  for (int q = 0; q < 2; ++q) for (int i = 0; i < 3; ++i) {
    auto &w = q ? x.Q[i] : x.I[i]; auto &g = q ? t.QData[i] : t.IData[i];
    bool ok = w.size() == g.size(); for (size_t j = 0; ok && j < w.size(); ++j) ok = std::fabs(w[j] - g[j]) <= tol * (1 + std::fabs(w[j]));
    if (!ok) { fail(in, std::string(q ? "Q" : "I") + std::to_string(i) + " = " + vec(w), vec(g)); return false; }
  }
  return true;
}
static Hist rhist(Rng &rng, size_t n, bool all = false) { Hist x; for (int i = 0; i < 3; ++i) { x.I[i] = rnd(rng, all || rng.coin() ? n : 0); x.Q[i] = rnd(rng, all || rng.coin() ? n : 0); } return x; }
TEST(history) {
  long n = 0; auto &T = TimeData<double>::GetInstance();
  for (int it = 0; it < 300 * scale; ++it) {
    size_t sz = rng.in(1, 6); Hist x = rhist(rng, sz); put(x); std::string log = "history of " + std::to_string(sz) + ":"; ++n;
    for (int s = 0; s < 6; ++s) {
      int a = rng.in(0, 2), b = rng.in(0, 2), op = rng.in(0, 3); bool q = rng.coin(); auto *d = q ? x.Q : x.I;
      log += std::string(op == 0 ? " set" : op == 1 ? " copy" : op == 2 ? " clear" : " assemble") + (q ? "Q " : "I ") + std::to_string(a) + (op == 1 ? "->" + std::to_string(b) : ""); begin(log);
      if (op == 0) { auto v = rnd(rng, rng.in(0, 6)); d[a] = v; q ? T.SetQ(tp(a), v) : T.SetI(tp(a), v); }
      if (op == 1) { q ? T.CopyQ(tp(a), tp(b)) : T.CopyI(tp(a), tp(b)); d[b] = d[a]; }
      if (op == 2) { q ? T.ClearQ(tp(a)) : T.ClearI(tp(a)); d[a].clear(); }
      if (op == 3 && !d[a].empty()) {
        auto v = rnd(rng, d[a].size()), w = v; double sc = rng.real(-3, 3); q ? T.AssembleQ(tp(a), sc, v) : T.AssembleI(tp(a), sc, v);
        for (size_t i = 0; i < w.size(); ++i) if (!same(log, "scale " + num(sc) + " entry " + std::to_string(i), w[i] + sc * d[a][i], v[i])) return n;
      }
      if (T.ExistsI(tp(a)) != !x.I[a].empty() || T.ExistsQ(tp(a)) != !x.Q[a].empty()) { fail(log, "exists iff not empty", "not"); return n; }
      if (!check(log, x)) return n;
    }
  }
  return n;
}
TEST(step) {
  long n = 0; param("debug_level", "info");
  for (int it = 0; it < 300 * scale; ++it) {
    ++n; size_t sz = rng.in(1, 6); int m = rng.in(0, 4); Hist x = rhist(rng, sz, m >= 2 || rng.coin()); put(x);
    TP t = params(m, rng.real(0.1, 2), rng.real(0.2, 0.8)); dsMath::Newton<double> nw;
    std::string in = std::string(mname[m]) + " with a history of " + std::to_string(sz); begin(in);
    if (m >= 2) {
      auto v = rnd(rng, sz), w = v; nw.InitializeTransientAssemble(t, sz, v);
      for (size_t i = 0; i < sz; ++i) if (!same(in, "constant row " + std::to_string(i), w[i] + t.a1 * x.Q[0][i] + t.a2 * x.Q[1][i] + t.b1 * x.I[0][i] + t.b2 * x.I[1][i], v[i])) return n;
      if (!check(in, x)) return n;
      double worst = 0; auto q = rnd(rng, sz);
      for (size_t i = 0; i < sz; ++i) {
        double pr = x.Q[0][i] - t.tdelta * x.I[0][i];
        if (rng.coin()) q[i] = pr * (1 + rng.real(-1e-3, 1e-3)); if (rng.coin(5)) q[i] = 0;
        if (q[i] != 0) worst = std::max(worst, std::fabs(q[i] - pr) / (std::fabs(q[i]) + std::fabs(pr)));
      }
      double lim = rng.coin() ? worst * 1.01 + 1e-12 : worst * 0.99; nw.SetQRelError(lim);
      bool r = nw.CheckTransientProjection(t, q, nullptr);
      if (worst > 0 && r != (worst <= lim)) { fail(in + " worst charge error " + num(worst) + " limit " + num(lim), worst <= lim ? "accepted" : "refused", r ? "accepted" : "refused"); return n; }
      if (!check(in, x)) return n;
    }
    auto ni = rnd(rng, sz), nq = rnd(rng, sz); nw.UpdateTransientCurrent(t, sz, ni, nq);
    for (auto *d : {x.I, x.Q}) {
      if (m < 2) { d[1].clear(); d[2].clear(); }
      else { if (!d[1].empty()) d[2] = d[1]; if (!d[0].empty()) d[1] = d[0]; }
      d[0] = d == x.I ? ni : nq;
    }
    if (!check(in + ": updated", x)) return n;
  }
  return n;
}
TEST(solve) {
  long n = 0;
  solver_setup();
  for (int it = 0; it < 40 * scale; ++it) {
    auto &gd = GlobalData::GetInstance(); std::vector<std::string> del; for (auto &d : gd.GetDeviceList()) del.push_back(d.first);
    for (auto &d : del) gd.DeleteDevice(d);
    NodeKeeper::delete_instance(); TimeData<double>::DestroyInstance();
    Mesh m = mkmesh(rng, 1); size_t N = m.p.size(); Prob p;
    p.k = rnd(rng, N); p.e = rnd(rng, N); p.c = rnd(rng, N); p.a = rnd(rng, N); p.b = rnd(rng, N);
    for (size_t i = 0; i < N; ++i) { p.k[i] = 1 + std::fabs(p.k[i]); p.c[i] = 0.1 * std::fabs(p.c[i]); p.a[i] = 1 + std::fabs(p.a[i]); p.b[i] *= 0.01; }
    auto keep = problem(m, &p);
    std::string log = std::to_string(N) + " rows:"; Hist x; bool hist = false; ++n;
    for (int s = 0; s < 6; ++s) {
      int mt = hist && s ? rng.in(0, 4) : rng.in(0, 1); if (mt == 4 && TimeData<double>::GetInstance().QData[1].empty()) mt = 3;
      TP t = params(mt, rng.real(0.05, 0.5), mt == 4 ? rng.real(0.3, 0.7) : 1.0);
      Dense ls; dsMath::Newton<double> nw; nw.SetAbsError(1e-9); nw.SetRelError(1e-9); nw.SetMaxAbsError(1e6); nw.SetMaxDiv(20);
      int mode = rng.in(0, 5); nw.SetMaxIter(mode == 0 ? 1 : 60); if (mode == 1) ls.bad = rng.in(0, 1); nw.SetQRelError(mode == 2 ? 1e-7 : 1e6);
      if (rng.coin()) for (auto &e : p.e) e += rng.real(-1, 1);
      std::vector<double> old = nodevals(m, "u"); { auto uu = old; if (rng.coin()) for (auto &v : uu) v += rng.real(-0.5, 0.5); old = uu; setnode(m, "u", uu); }
      log += std::string(" ") + mname[mt] + (mode == 0 ? "(1 iteration)" : mode == 1 ? "(linear solve fails)" : mode == 2 ? "(tight charge limit)" : ""); begin(log);
      x = Hist(); { auto &T = TimeData<double>::GetInstance(); for (int i = 0; i < 3; ++i) { x.I[i] = T.IData[i]; x.Q[i] = T.QData[i]; } }
      bool r = nw.Solve(ls, t, nullptr);
      auto u = nodevals(m, "u");
      // reference
      std::vector<double> want(N); double worst = 0;
      for (size_t i = 0; i < N; ++i) {
        auto h = [&](const std::vector<double> &v) { return v.empty() ? 0.0 : -v[i]; };   // right hand sides are stored
        double c = mt < 2 ? 0 : t.a1 * h(x.Q[0]) + t.a2 * h(x.Q[1]) + t.b1 * h(x.I[0]) + t.b2 * h(x.I[1]), z = old[i];
        for (int k = 0; k < 200; ++k) z -= (t.a0 * p.q(i, z) + t.b0 * p.f(i, z) + c) / (t.a0 * p.dq(i, z) + t.b0 * p.df(i, z));
        want[i] = z;
        if (mt >= 2) { double q = p.q(i, z), pr = h(x.Q[0]) - t.tdelta * h(x.I[0]); if (q != 0) worst = std::max(worst, std::fabs(q - pr) / (std::fabs(q) + std::fabs(pr))); }
      }
      bool late = mt >= 2 && mode == 2;
      if (mode == 1 && ls.calls > ls.bad && r) { fail(log, "no success: the linear solve failed", "success"); return n; }
      if (mode > 2 && !r) { fail(log, "success", "failure"); return n; }
      if (late && worst > 2e-7 && r) { fail(log + " charge error " + num(worst), "the step is refused", "accepted"); return n; }
      if (r) {
        for (size_t i = 0; i < N; ++i) if (std::fabs(u[i] - want[i]) > 1e-6 * (1 + std::fabs(want[i]))) { fail(log, "u[" + std::to_string(i) + "] = " + num(want[i]), num(u[i])); return n; }
        if (mt) {
          std::vector<double> qi(N), fi(N); for (size_t i = 0; i < N; ++i) { qi[i] = -p.q(i, want[i]); fi[i] = -p.f(i, want[i]); }
          if (mt == 1) x = Hist(); else for (auto *d : {x.I, x.Q}) { if (!d[1].empty()) d[2] = d[1]; if (!d[0].empty()) d[1] = d[0]; }
          x.Q[0] = qi; x.I[0] = fi; hist = true;
        }
      } else if (u != old) { fail(log, "the old solution " + vec(old), vec(u)); return n; }
      if (!check(log + (r ? ": history" : ": history after a failure"), x, 1e-5)) return n;
    }
  }
  return n;
}
// several devices: success only when every one is solved, otherwise all are restored
TEST(devices) {
  long n = 0; solver_setup();
  for (int it = 0; it < 60 * scale; ++it) {
    auto &gd = GlobalData::GetInstance(); std::vector<std::string> del; for (auto &d : gd.GetDeviceList()) del.push_back(d.first);
    for (auto &d : del) gd.DeleteDevice(d);
    NodeKeeper::delete_instance(); TimeData<double>::DestroyInstance();
    int nd = rng.in(1, 3); std::vector<Mesh> ms; std::vector<Prob> p(nd); std::vector<NodeModelPtr> keep; std::vector<std::vector<double>> old; std::string log = std::to_string(nd) + " devices:"; ++n;
    for (int d = 0; d < nd; ++d) {
      Mesh m = mkmesh(rng, 1); size_t N = m.p.size(); double c = rng.coin() ? 0 : rng.in(1, 3); log += c ? " cubic" : " linear";
      p[d].k = std::vector<double>(N, 1); p[d].e = rnd(rng, N); p[d].c = std::vector<double>(N, c); p[d].a = p[d].k; p[d].b = std::vector<double>(N, 0);
      for (auto &x : problem(m, &p[d])) keep.push_back(x); ms.push_back(m); auto u0 = rnd(rng, N); setnode(m, "u", u0); old.push_back(u0);
    }
    Dense ls; dsMath::Newton<double> nw; nw.SetAbsError(1e-9); nw.SetRelError(1e-9); nw.SetMaxAbsError(1e6); nw.SetMaxDiv(20); int mi = rng.in(1, 60); nw.SetMaxIter(mi);
    log += " iterations " + std::to_string(mi); begin(log);
    bool r = nw.Solve(ls, dsMath::TimeMethods::DCOnly<double>(), nullptr);
    if (!r && mi == 60) { fail(log, "success", "failure"); return n; }
    for (int d = 0; d < nd; ++d) {
      auto u = nodevals(ms[d], "u");
      if (!r && u != old[d]) { fail(log + ", device " + std::to_string(d), "after a failure " + vec(old[d]), vec(u)); return n; }
      if (r) for (size_t i = 0; i < u.size(); ++i) if (std::fabs(u[i] - p[d].e[i]) > 1e-6) { fail(log + ", device " + std::to_string(d), "success with u[" + std::to_string(i) + "] = " + num(p[d].e[i]), num(u[i])); return n; }
    }
  }
  return n;
}
