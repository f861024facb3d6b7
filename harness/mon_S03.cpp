// S03: the SQP direction is the exact regularized Newton step of the current iterate.
#include "common.hpp"
namespace H {
const char* kProperty = "S03";
const char* kRule = "at every SQP callback the optimality conditions of the regularized equality-constrained QP (built from the problem's formulas at the shown trajectory) are evaluated at the shown direction and multipliers, and gains and value function are compared with an independent Riccati recursion; a case is non-trivial when at least one checked direction is non-zero";

static double nrm(const M& a) { double k = 0; for (int i = 0; i < a.size(); ++i) { double v = std::fabs(a.data()[i]); if (!(v <= 1e300)) return INF; k = std::max(k, v); } return k; }

static void check(Ctx& c, const Spec& s, const Snap& n, const std::string& d, int i, bool dense) {
  if (!finite(n.xs) || !finite(n.us) || !finite(n.dx) || !finite(n.du) || mag(n.xs) > 1e5 || mag(n.us) > 1e5 || mag(n.lag) > 1e12) { c.add("skipped_huge"); return; }
  Metrics m = metrics(s, n.xs, n.us, true); if (!m.ok) { c.add("skipped_invalid"); return; }
  int T = s.T; const char* D = d.c_str();
  if (!(n.preg == n.dreg)) c.fail("reg", "callback %d: state and control regularization differ: %g %g [%s]", i, n.preg, n.dreg, D);
  double z0 = ninf(n.dx[0]); if (z0 > (s.manifold() ? 1e-12 : 0)) c.fail("dx0", "callback %d: initial state step %g [%s]", i, z0, D);
  // independent Riccati recursion, also giving the magnitudes for the tolerances
  std::vector<M> Vxx(T + 1), K(T); std::vector<V> Vx(T + 1), k(T); std::vector<double> ev(T + 1, 0), ek(T, 0);   // first-order rounding error of Vxx and of the gains, for cancelling curvatures
 
  double sc = 1, worst = 1; V dn; double big = 1;
  Vxx[T] = m.ev[T].Lxx; Vxx[T].diagonal().array() += n.preg; Vx[T] = m.ev[T].Lx + Vxx[T] * m.fs[T]; big = nrm(Vxx[T]) + ninf(Vx[T]); ev[T] = 1e-16 * (1 + big);
  bool pd = true;
  for (int t = T - 1; t >= 0 && pd; --t) {
    const Eval& e = m.ev[t]; int nu = s.nodes[t].nu;
    V Qx = e.Lx + e.Fx.transpose() * Vx[t + 1]; M Qxx = e.Lxx + e.Fx.transpose() * Vxx[t + 1] * e.Fx;
    big = std::max(big, nrm(Qxx) + ninf(Qx)); V vx = Qx; M vxx = Qxx;
    double fn = nrm(e.Fx) + nrm(e.Fu), eQ = (ev[t + 1] + 1e-16 * nrm(Vxx[t + 1])) * fn * fn + 1e-16 * (nrm(e.Lxx) + nrm(e.Lxu) + nrm(e.Luu) + n.dreg), kn = 0;
    if (nu) {
      V Qu = e.Lu + e.Fu.transpose() * Vx[t + 1]; M Quu = e.Luu + e.Fu.transpose() * Vxx[t + 1] * e.Fu; Quu.diagonal().array() += n.dreg; M Qxu = e.Lxu + e.Fx.transpose() * Vxx[t + 1] * e.Fu;
      Quu = (0.5 * (Quu + Quu.transpose())).eval();
      Eigen::SelfAdjointEigenSolver<M> es(Quu); double lo = es.eigenvalues()[0], hi = es.eigenvalues()[nu - 1];
      if (lo <= 1e-13 * hi) { pd = false; break; }
      worst = std::max(worst, hi / lo); big = std::max(big, nrm(Quu) + nrm(Qxu) + ninf(Qu));
      M inv = es.eigenvectors() * es.eigenvalues().cwiseInverse().asDiagonal() * es.eigenvectors().transpose();
      K[t] = inv * Qxu.transpose(); k[t] = inv * Qu; kn = nrm(K[t]) + ninf(k[t]); eQ += 1e-16 * (hi / lo) * nrm(Quu); ek[t] = eQ / lo * (1 + kn); vx -= K[t].transpose() * Qu; vxx -= Qxu * K[t]; big = std::max(big, nrm(Qxu) * nrm(K[t]) + nrm(Qxu) * ninf(k[t]));
    } else { K[t] = M::Zero(0, s.n); k[t] = V::Zero(0); }
    vxx = (0.5 * (vxx + vxx.transpose())).eval(); vxx.diagonal().array() += n.preg; Vxx[t] = vxx; Vx[t] = vx + vxx * m.fs[t]; ev[t] = eQ * (1 + kn) * (1 + kn) + 1e-16 * nrm(vxx);
  }
  if (!pd || big > 1e9) { c.add("skipped_singular"); return; }
  double dm = std::max(std::max(mag(n.dx), mag(n.du)), m.gapInf); sc = big * (1 + dm) + mag(n.lag);
  double tol = 1e-12 * sc * (worst > 1e6 ? 1e2 : 1);
  auto bad = [&](const char* key, int t, double r, double tl) { c.add("conditions"); c.mx("residual_over_tolerance", r / tl); if (!(r <= tl)) c.fail(key, "callback %d node %d: %s violated by %g (tolerance %g, preg %g) [%s]", i, t, key, r, tl, n.preg, D); };
  for (int t = 0; t <= T; ++t) {
    const Eval& e = m.ev[t]; int nu = t < T ? s.nodes[t].nu : 0;
    V rx = e.Lx + e.Lxx * n.dx[t] + n.preg * n.dx[t] - n.lag[t];
    if (t < T) { rx += e.Fx.transpose() * n.lag[t + 1]; if (nu) rx += e.Lxu * n.du[t]; }
    bad("state stationarity", t, ninf(rx), tol);
    if (t < T) {
      V rd = n.dx[t + 1] - e.Fx * n.dx[t] - m.fs[t + 1]; if (nu) rd -= e.Fu * n.du[t];
      bad("linearized dynamics", t, ninf(rd), 1e-12 * (1 + linf(n.xs) + (1 + nrm(e.Fx) + nrm(e.Fu)) * dm * 10));
      if (nu) { V ru = e.Lu + e.Luu * n.du[t] + n.dreg * n.du[t] + e.Lxu.transpose() * n.dx[t] + e.Fu.transpose() * n.lag[t + 1]; bad("control stationarity", t, ninf(ru), tol);
        V rk = n.du[t] + n.k[t] + n.K[t] * n.dx[t]; bad("feedback law", t, ninf(rk), 1e-12 * (1 + ninf(n.k[t]) + nrm(n.K[t]) * dm * 10)); }
      double tk = 1e-13 * worst * big * 10 + 1e-11 * (1 + nrm(K[t]) + ninf(k[t])) + 50 * ek[t];
      if (worst < 1e7) { bad("gain K", t, n.K[t].rows() == nu && n.K[t].cols() == s.n ? nrm(n.K[t] - K[t]) : INF, tk); bad("gain k", t, n.k[t].size() == nu ? ninf(n.k[t] - k[t]) : INF, tk * (1 + dm)); }
    }
    if (worst < 1e7) { double tv = 1e-13 * worst * big * 10 + 50 * ev[t]; bad("Vxx", t, nrm(n.Vxx[t] - Vxx[t]), tv); bad("Vx", t, ninf(n.Vx[t] - Vx[t]), tv * (1 + dm)); }
  }
  if (dense && worst < 1e6 && n.preg < 1e4) {
    DenseQP Q = denseQP(s, m, n.preg, n.dreg, false); int nv = Q.nv, me = int(Q.A.rows()); M KK = M::Zero(nv + me, nv + me); KK.topLeftCorner(nv, nv) = Q.P; KK.topRightCorner(nv, me) = Q.A.transpose(); KK.bottomLeftCorner(me, nv) = Q.A;
    V rhs(nv + me); rhs << -Q.q, Q.b; V x = KK.fullPivLu().solve(rhs); double er = 0, xm = 1;
    for (int t = 0; t <= T; ++t) { if (t) { er = std::max(er, ninf(n.dx[t] - x.segment(Q.xo[t], s.n))); xm = std::max(xm, ninf(x.segment(Q.xo[t], s.n))); } if (t < T && s.nodes[t].nu) { er = std::max(er, ninf(n.du[t] - x.segment(Q.uo[t], s.nodes[t].nu))); xm = std::max(xm, ninf(x.segment(Q.uo[t], s.nodes[t].nu))); } }
    c.add("dense_comparisons"); if (!(er <= 1e-12 * worst * big * xm * 10 + 1e-9 * xm)) c.fail("dense", "callback %d: direction differs from the dense KKT solution by %g (size %g) [%s]", i, er, xm, D);
  }
  c.add("directions"); if (n.preg > 1e-3) c.add("directions_with_large_regularization"); if (m.gap1 > 1e-6) c.add("directions_with_gaps"); if (dm > 0) c.mark(hashVec(n.dx));
  c.mx("regularization", n.preg);
}
static void run(Ctx& c, Cls cl, bool indefinite) {
  Rng R = c.rng(); Gen gn = genFor(cl, false); gn.maxT = R.b(0.1) ? 14 : 6; gn.p_nu0 = 0.2;
  if (indefinite) gn.strong = R.b();
  Spec s = genSpec(R, gn);
  if (indefinite) for (auto& N : s.nodes) { if (R.b(0.6)) N.hsu = R.u(-3, 1); if (R.b(0.6)) N.hsx = R.u(-3, 1); }
  Cfg g = genCfg(R, SQP); g.maxiter = R.i(1, 12); g.extra = R.b(); if (R.b(0.4)) g.reginit = R.pick({0., 1e-6, 1e-2, 1., 50.});
  VV x = randXs(R, s, R.u(0, 1.5)), u = randUs(R, s, R.u(0, 1.5)); if (R.b(0.2)) x = rollout(s, u);
  auto r = runSolve(SQP, s, g, x, u); int i = 0;
  for (auto& n : r->tr) { check(c, s, n, describe(SQP, s, g), i++, R.b(0.3)); if (c.failed()) return; }
  if (R.b(0.5)) {
    r->sol.prob.spec->x0 = fromTangent(s.circ, R.vec(s.n)); r->sol.prob.sync(); Cfg g2 = genCfg(R, SQP); g2.maxiter = R.i(1, 6); if (g2.alphas.empty()) g2.alphas = {1, .5, .25, .1}; r->sol.configure(g2);
    r->tr.clear(); r->ret = r->threw = false; go(*r); i = 0;
    for (auto& n : r->tr) { check(c, *r->sol.prob.spec, n, "second solve " + describe(SQP, s, g2), i++, false); if (c.failed()) return; }
  }
  c.sample = describe(SQP, s, g) + fmt(" -> %d directions", int(r->tr.size()));
}
static void f_reg(Ctx& c) { Rng R(c.seed + c.id); run(c, pickCls(R), false); }
static void f_indef(Ctx& c) { Rng R(c.seed + c.id); run(c, pickCls(R), true); }
static void f_fail(Ctx& c) { run(c, FAIL, false); }
const std::vector<Scenario> kScenarios = {{"regular", f_reg, 64000, 600000}, {"indefinite", f_indef, 64000, 600000}, {"failing", f_fail, 16000, 100000}};
}  // namespace H
