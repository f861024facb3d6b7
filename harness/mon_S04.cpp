// S04: the QP solved inside a CSQP iteration.
#include "common.hpp"
namespace H {
const char* kProperty = "S04";
const char* kRule = "traced: the QP of an iteration is re-run on identical solvers with its limit set to 1,2,..,q, and every QP iterate is checked against the proximal stationarity conditions, projection, multiplier, residual, tolerance, stopping and penalty rules recomputed from the problem's formulas; outer: certificates at every callback of whole solves; tight: agreement with an interior-point solution; a case is non-trivial when a constraint multiplier was non-zero in some checked iterate";

struct W { Ctx& c; const Spec& s; const Cfg& g; std::string d; };
static double nrm(const M& a) { double k = 0; for (int i = 0; i < a.size(); ++i) { double v = std::fabs(a.data()[i]); if (!(v <= 1e300)) return INF; k = std::max(k, v); } return k; }
static V rowC(const Spec& s, const Eval& e, int t, const V& dx, const V& du) { V r = V::Zero(s.nodes[t].ng); if (t > 0) r += e.Gx * dx; if (t < s.T && s.nodes[t].nu) r += e.Gu * du; return r; }

// conditions every QP iterate satisfies, whatever its accuracy
static bool certificate(W& w, const Snap& n, const Metrics& m, const char* where) {
  const Spec& s = w.s; Ctx& c = w.c; const char* D = w.d.c_str(); bool active = false;
  double dm = 1 + std::max(mag(n.dxt), mag(n.dut));
  if (ninf(n.dxt[0]) > (s.manifold() ? 1e-12 : 0)) c.fail("dx0", "%s: initial state step %g [%s]", where, ninf(n.dxt[0]), D);
  if (dist(n.dx, n.dxt) != 0 || dist(n.du, n.dut) != 0) c.fail("direction", "%s: direction is not the last QP iterate [%s]", where, D);
  for (int t = 0; t < s.T; ++t) { const Eval& e = m.ev[t]; V r = n.dxt[t + 1] - e.Fx * n.dxt[t] - m.fs[t + 1]; if (s.nodes[t].nu) r -= e.Fu * n.dut[t]; double tl = 1e-11 * dm * (1 + nrm(e.Fx) + nrm(e.Fu)) + 1e-12 * linf(n.xs); c.add("dynamics_rows"); if (!(ninf(r) <= tl)) c.fail("dynamics", "%s: linearized dynamics of node %d violated by %g [%s]", where, t, ninf(r), D); }
  double np = 0;
  for (int t = 0; t <= s.T; ++t) {
    const Node& N = s.nodes[t]; const Eval& e = m.ev[t]; if (!N.ng) continue;
    if (n.z[t].size() != N.ng || n.y[t].size() != N.ng || n.rho[t].size() != N.ng) { c.fail("size", "%s: constraint variables of node %d have wrong size [%s]", where, t, D); return false; }
    V Cd = rowC(s, e, t, n.dxt[t], t < s.T ? n.dut[t] : V());
    for (int j = 0; j < N.ng; ++j) {
      double lo = N.lb[j] - e.g[j], hi = N.ub[j] - e.g[j], z = n.z[t][j], y = n.y[t][j], rho = n.rho[t][j]; c.add("constraint_rows");
      double gm = 1 + std::fabs(e.g[j]) + (std::isfinite(lo) ? std::fabs(lo) : 0) + (std::isfinite(hi) ? std::fabs(hi) : 0), tz = 1e-11 * gm;
      if (!(z >= lo - tz && z <= hi + tz)) c.fail("bounds", "%s: auxiliary variable %g of node %d row %d outside its bounds [%g, %g] [%s]", where, z, t, j, lo, hi, D);
      double ty = 1e-10 * (1 + std::fabs(y) + 1e3 * (std::fabs(z) + nrm(n.zrel[t])));
      if (y > ty && !(std::fabs(z - hi) <= tz)) c.fail("complementarity", "%s: node %d row %d: multiplier %g pushes to an inactive upper bound (z=%g, bound %g) [%s]", where, t, j, y, z, hi, D);
      if (y < -ty && !(std::fabs(z - lo) <= tz)) c.fail("complementarity", "%s: node %d row %d: multiplier %g pushes to an inactive lower bound (z=%g, bound %g) [%s]", where, t, j, y, z, lo, D);
      if (std::fabs(y) > 1e-6) { active = true; c.add("active_rows"); }
      np = std::max(np, std::fabs(Cd[j] - z));
      // penalties
      if (!(n.rho_sparse >= 1e-6 * (1 - 1e-12) && n.rho_sparse <= 1e3 * (1 + 1e-12))) c.fail("penalty", "%s: base penalty %g outside its limits [%s]", where, n.rho_sparse, D);
      double want = N.lb[j] == -INF && N.ub[j] == INF ? 1e-6 : std::fabs(N.lb[j] - N.ub[j]) <= 1e-6 ? 1e3 * n.rho_sparse : n.rho_sparse;
      if (!(std::fabs(rho - want) <= 1e-12 * want) || !(rho > 0)) c.fail("penalty", "%s: penalty of node %d row %d is %g, expected %g [%s]", where, t, j, rho, want, D);
      if (!(std::fabs(n.irho[t][j] * want - 1) <= 1e-12)) c.fail("penalty", "%s: inverse penalty of node %d row %d is %g, expected %g [%s]", where, t, j, n.irho[t][j], 1 / want, D);
    }
  }
  if (!(n.qp_iters >= 1 && n.qp_iters <= w.g.max_qp)) c.fail("iterations", "%s: %g QP iterations with a limit of %d [%s]", where, n.qp_iters, w.g.max_qp, D);
  int q = int(n.qp_iters); bool conv = q < w.g.max_qp;
  if (q % w.g.interval == 0) {
    int ng = 0; for (auto& N : s.nodes) ng += N.ng;
    double tl = 1e-10 * (1 + np + dm * 1e0 * (1 + linf(n.z)));
    if (ng) { c.add("residuals"); if (!(std::fabs(n.np - np) <= tl)) c.fail("primal residual", "%s: reported primal residual %g, recomputed %g [%s]", where, n.np, np, D); }
    if (conv && !(n.np <= n.tp && n.nd <= n.td)) c.fail("stopped early", "%s: stopped after %d iterations with residuals %g, %g above their tolerances %g, %g [%s]", where, q, n.np, n.nd, n.tp, n.td, D);
    if (w.g.eps_rel == 0 && (n.tp != w.g.eps_abs || n.td != w.g.eps_abs)) c.fail("tolerance", "%s: tolerances %g, %g with eps_abs %g and no relative part [%s]", where, n.tp, n.td, w.g.eps_abs, D);
    if (ng && (!(n.tp >= w.g.eps_abs) || !(n.td >= w.g.eps_abs))) c.fail("tolerance", "%s: tolerances %g, %g below eps_abs %g [%s]", where, n.tp, n.td, w.g.eps_abs, D);
  } else if (conv) c.fail("stopped early", "%s: stopped after %d iterations, between two residual tests (interval %d) [%s]", where, q, w.g.interval, D);
  if (conv) c.add("converged_qps"); else c.add("limited_qps");
  return active;
}
static bool usable(const Snap& n) { return finite(n.xs) && finite(n.us) && finite(n.dx) && finite(n.y) && finite(n.lag) && mag(n.xs) < 1e4 && mag(n.us) < 1e4 && mag(n.dx) < 1e4 && mag(n.y) < 1e6; }

static Cfg qpCfg(Rng& R) { Cfg g = genCfg(R, CSQP); g.filter = true; g.extra = false; g.remove_reg = R.b(0.2); return g; }

// ---- whole solves ---------------------------------------------------------
static void f_outer(Ctx& c) {
  Rng R = c.rng(); Gen gn = genFor(pickCls(R), true); gn.p_ng0 = R.b(0.3) ? 0.0 : 0.3; Spec s = genSpec(R, gn); Cfg g = qpCfg(R); g.maxiter = R.i(1, 8); if (R.b(0.3)) g.extra = true;
  VV x = randXs(R, s, R.u(0, 1.5)), u = randUs(R, s, R.u(0, 1.5)); bool act = false;
  auto r = runSolve(CSQP, s, g, x, u); W w{c, s, g, describe(CSQP, s, g)}; int i = 0;
  for (auto& n : r->tr) { if (!usable(n)) break; Metrics m = metrics(s, n.xs, n.us, true); if (!m.ok) break; act |= certificate(w, n, m, fmt("callback %d", i++).c_str()); c.add("callbacks"); if (c.failed()) return; }
  if (R.b(0.5) && !r->tr.empty()) {
    r->sol.prob.spec->x0 = fromTangent(s.circ, R.vec(s.n)); r->sol.prob.sync(); Cfg g2 = qpCfg(R); g2.maxiter = R.i(1, 4); g2.reset_y = R.b(); if (g2.alphas.empty()) g2.alphas = {1, .5, .25, .1}; r->sol.configure(g2); r->tr.clear(); r->ret = r->threw = false; go(*r);
    const Spec& s2 = *r->sol.prob.spec; W w2{c, s2, g2, "second solve " + describe(CSQP, s2, g2)}; i = 0;
    for (auto& n : r->tr) { if (!usable(n)) break; Metrics m = metrics(s2, n.xs, n.us, true); if (!m.ok) break; act |= certificate(w2, n, m, fmt("callback %d", i++).c_str()); c.add("callbacks"); if (c.failed()) return; }
  }
  if (act) c.mark(hashVec(r->end.y)); c.sample = w.d + fmt(" -> %d QPs", int(r->tr.size()));
}

// ---- every QP iteration ------------------------------------------------------
static void f_traced(Ctx& c) {
  Rng R = c.rng(); Gen gn = genFor(pickCls(R), true); gn.p_ng0 = R.b(0.4) ? 0.0 : 0.3; gn.maxT = 4; gn.maxn = 3; Spec s = genSpec(R, gn); Cfg g = qpCfg(R);
  int Q = R.b(0.2) ? R.i(26, 52) : R.i(2, 14); if (Q < 26) g.interval = R.b(0.2) ? 25 : R.i(1, 5); else g.interval = R.pick({25, 10, 13}); if (R.b(0.6)) { g.eps_abs = R.lu(1e-6, 1e-2); g.eps_rel = R.b() ? 0 : R.lu(1e-5, 1e-2); }
  g.maxiter = 1; g.reset_y = R.b();
  VV x = randXs(R, s, R.u(0, 1.2)), u = randUs(R, s, R.u(0, 1.2));
  // an optional earlier solve leaves multipliers and a direction behind
  bool pre = R.b(0.5); Cfg gp = qpCfg(R); gp.maxiter = R.i(1, 3); gp.max_qp = R.i(5, 60); VV xp = randXs(R, s, 1), up = randUs(R, s, 1);
  gp.alphas = g.alphas = {1, .5, .1};
  W w{c, s, g, describe(CSQP, s, g) + (pre ? " after an earlier solve" : "")}; const char* D = w.d.c_str();
  VV y0, cx, cu; bool act = false; Snap prev; double rsp = 0.1; int stopped = -1; Metrics m; double prevRhoSparse = 0.1; (void)prevRhoSparse;
  for (int q = 1; q <= Q; ++q) {
    Prob p = makeProb(s); auto r = std::make_shared<Run>(); r->sol = Sol(CSQP, p); p.mon->limit = 4000000;
    if (pre) { r->sol.configure(gp); r->xs0 = xp; r->us0 = up; go(*r); r->tr.clear(); r->ret = r->threw = false; if (!usable(r->end)) return; }
    if (q == 1) { y0 = r->sol.c->get_y(); cx = r->sol.c->get_dx(); cu = r->sol.c->get_du(); if (g.reset_y) for (auto& v : y0) v.setZero(); }
    Cfg gq = g; gq.max_qp = q; r->sol.configure(gq); r->xs0 = x; r->us0 = u; go(*r);
    if (r->tr.empty()) { c.add("no_direction"); return; }
    const Snap& n = r->tr[0]; if (!usable(n)) { c.add("skipped_nonfinite"); return; }
    if (q == 1) {
      m = metrics(s, n.xs, n.us, true); if (!m.ok) return;
      if (n.preg > 1e3) return;
      prev = n; prev.y = y0; for (int t = 0; t <= s.T; ++t) { prev.z[t].setZero(); V& r2 = prev.rho[t]; const Node& N = s.nodes[t]; for (int j = 0; j < N.ng; ++j) r2[j] = N.lb[j] == -INF && N.ub[j] == INF ? 1e-6 : std::fabs(N.lb[j] - N.ub[j]) <= 1e-6 ? 100. : 0.1; }
      if (g.eqguess) { // solution of the unconstrained QP
        DenseQP K = denseQP(s, m, n.preg, n.dreg, false); int nv = K.nv, me = int(K.A.rows()); M KK = M::Zero(nv + me, nv + me); KK.topLeftCorner(nv, nv) = K.P; KK.topRightCorner(nv, me) = K.A.transpose(); KK.bottomLeftCorner(me, nv) = K.A; V rhs(nv + me); rhs << -K.q, K.b; V X = KK.partialPivLu().solve(rhs);
        if (ninf(KK * X - rhs) > 1e-8) return;
        prev.dxt = cx; prev.dut = cu; prev.dxt[0].setZero(); for (int t = 0; t <= s.T; ++t) { if (t) prev.dxt[t] = X.segment(K.xo[t], s.n); if (t < s.T && s.nodes[t].nu) prev.dut[t] = X.segment(K.uo[t], s.nodes[t].nu); }
      } else { prev.dxt = cx; prev.dut = cu; }
      if (mag(prev.dxt) > 1e4) return;
    }
    std::string wh = fmt("QP iteration %d", q); const char* where = wh.c_str();
    if (stopped >= 0) { // converged earlier: a larger limit changes nothing
      if (int(n.qp_iters) != stopped || dist(n.dxt, prev.dxt) != 0 || dist(n.y, prev.y) != 0) { c.fail("stopping", "residuals met their tolerances after %d iterations, but with limit %d the QP ended after %g [%s]", stopped, q, n.qp_iters, D); return; }
      c.add("stops_confirmed"); break;
    }
    w.g.max_qp; Cfg gg = gq; W wq{c, s, gg, w.d}; act |= certificate(wq, n, m, where); if (c.failed()) return;
    if (int(n.qp_iters) != q) { c.fail("stopping", "with limit %d the QP ended after %g iterations although its residuals had not met their tolerances [%s]", q, n.qp_iters, D); return; }
    // proximal stationarity
    double sg = g.sigma, dm = 1 + std::max(mag(n.dxt), mag(n.dut)) + std::max(mag(prev.dxt), mag(prev.dut)), big = 1; V lam(s.n), resid; bool ok = true;
    std::vector<V> w2(s.T + 1);
    for (int t = 0; t <= s.T; ++t) if (s.nodes[t].ng) { V Cd = rowC(s, m.ev[t], t, n.dxt[t], t < s.T ? n.dut[t] : V()); w2[t] = prev.y[t] + prev.rho[t].cwiseProduct(Cd - prev.z[t]); big = std::max(big, ninf(w2[t]) + ninf(prev.rho[t]) * (ninf(Cd) + ninf(prev.z[t]) + (nrm(m.ev[t].Gx) + nrm(m.ev[t].Gu)) * dm) * (1 + nrm(m.ev[t].Gx) + nrm(m.ev[t].Gu))); }
    double fac = 1; std::vector<double> tolu(s.T);
    for (int t = s.T; t >= 0; --t) {
      const Eval& e = m.ev[t]; const Node& N = s.nodes[t]; int nu = t < s.T ? N.nu : 0;
      V l2 = e.Lx + e.Lxx * n.dxt[t] + (n.preg + sg) * n.dxt[t] - sg * prev.dxt[t]; double mg = ninf(e.Lx) + nrm(e.Lxx) * dm + ninf(l2);
      if (t > 0 && N.ng) { l2 += e.Gx.transpose() * w2[t]; mg += nrm(e.Gx) * ninf(w2[t]) * 3; }
      if (t < s.T) { l2 += e.Fx.transpose() * lam; mg += nrm(e.Fx) * ninf(lam) * 3; if (nu) l2 += e.Lxu * n.dut[t]; }
      if (nu) {
        V ru = e.Lu + e.Luu * n.dut[t] + (n.dreg + sg) * n.dut[t] - sg * prev.dut[t] + e.Lxu.transpose() * n.dxt[t] + e.Fu.transpose() * lam; if (N.ng) { ru += e.Gu.transpose() * w2[t]; mg += nrm(e.Gu) * ninf(w2[t]) * 3; }
        mg += ninf(e.Lu) + nrm(e.Luu) * dm + nrm(e.Fu) * ninf(lam) * 3; big = std::max(big, mg);
        double tl = 2e-12 * big * 10; c.add("stationarity_rows"); c.mx("stationarity_over_tolerance", ninf(ru) / tl);
        if (!(ninf(ru) <= tl)) { c.fail("stationarity", "%s: control stationarity of the proximal subproblem at node %d violated by %g (tolerance %g) [%s]", where, t, ninf(ru), tl, D); ok = false; }
      }
      lam = l2; big = std::max(big, mg);
    }
    if (!ok) return;
    // auxiliary variables, multipliers, residuals
    double np = -INF, nd = -INF, npr = -INF, ndr = -INF; double tolm = 1e-11 * big + 1e-12;
    for (int t = 0; t <= s.T; ++t) {
      const Node& N = s.nodes[t]; const Eval& e = m.ev[t]; if (!N.ng) continue;
      V Cd = rowC(s, e, t, n.dxt[t], t < s.T ? n.dut[t] : V()); V zr = g.alpha * Cd + (1 - g.alpha) * prev.z[t]; V z = zr + prev.y[t].cwiseQuotient(prev.rho[t]);
      double zt = 1e-11 * (1 + ninf(z) + ninf(Cd) + ninf(e.g)); 
      for (int j = 0; j < N.ng; ++j) z[j] = std::min(std::max(z[j], N.lb[j] - e.g[j]), N.ub[j] - e.g[j]);
      V y = prev.y[t] + prev.rho[t].cwiseProduct(zr - z);
      if (!(ninf(z - n.z[t]) <= zt)) { c.fail("projection", "%s: auxiliary variable of node %d is off by %g [%s]", where, t, ninf(z - n.z[t]), D); return; }
      double yt = zt * ninf(prev.rho[t]) + 1e-11 * (1 + ninf(prev.y[t]) + ninf(y)); if (!(ninf(y - n.y[t]) <= yt)) { c.fail("multiplier", "%s: multiplier of node %d is off by %g (tolerance %g) [%s]", where, t, ninf(y - n.y[t]), yt, D); return; }
      V dz = prev.rho[t].cwiseProduct(n.z[t] - prev.z[t]); np = std::max(np, ninf(Cd - n.z[t])); npr = std::max(npr, std::max(ninf(Cd), ninf(n.z[t])));
      // the heuristic leaves out the constraint Jacobian
      if (g.heur) { nd = std::max(nd, ninf(dz)); ndr = std::max(ndr, ninf(n.y[t])); }
      else { V a = e.Gx.transpose() * dz, b = e.Gx.transpose() * n.y[t]; nd = std::max(nd, ninf(a)); ndr = std::max(ndr, ninf(b)); if (t < s.T) { V a2 = e.Gu.transpose() * dz, b2 = e.Gu.transpose() * n.y[t]; nd = std::max(nd, ninf(a2)); ndr = std::max(ndr, ninf(b2)); } }
    }
    bool test = q % g.interval == 0; double rs = prev.rho_sparse; if (q == 1) rs = 0.1; double wantR = rs; bool doubt = false;
    if (test && npr >= 0) {
      c.add("residual_tests"); double rt = 1e-9 * (1 + big);
      auto cmp = [&](const char* k, double a, double b) { if (!(std::fabs(a - b) <= rt)) c.fail(k, "%s: reported %s %.12g, recomputed %.12g [%s]", where, k, a, b, D); };
      cmp("primal residual", n.np, np); cmp("dual residual", n.nd, nd);
      cmp("primal tolerance", n.tp, g.eps_abs + g.eps_rel * npr); cmp("dual tolerance", n.td, g.eps_abs + g.eps_rel * ndr);
      double est = std::sqrt((np * ndr) / (nd * npr)) * rs;
      if (np < 1e-12 || nd < 1e-12 || npr < 1e-12 || ndr < 1e-12) doubt = true;
      else { est = std::min(std::max(est, 1e-6), 1e3); double a = est / (rs * g.adapt), b = est * g.adapt / rs; if (std::fabs(a - 1) < 1e-4 || std::fabs(b - 1) < 1e-4) doubt = true; else if (a > 1 || b < 1) { wantR = est; c.add("penalty_updates"); } }
    }
    if (!doubt && !(std::fabs(n.rho_sparse - wantR) <= 1e-5 * wantR)) { c.fail("penalty update", "%s: base penalty %g, expected %g (before %g) [%s]", where, n.rho_sparse, wantR, rs, D); return; }
    if (test && n.np <= n.tp && n.nd <= n.td) stopped = q;
    (void)rsp; prev = n; c.add("qp_iterations");
    if (c.failed()) return;
  }
  if (act) c.mark(hashVec(prev.y)); c.sample = w.d + fmt(" -> %d QP iterations traced", Q);
}

// ---- converged QPs -------------------------------------------------------------
static void f_tight(Ctx& c) {
  Rng R = c.rng(); Gen gn = genFor(R.pick({LQ, CVX, NL, NLM}), true); gn.cost_lo = 0.5; gn.cost_hi = 4; gn.maxT = 5; gn.maxn = 3; gn.p_ng0 = R.b(0.4) ? 0.0 : 0.3; gn.state_only_con_t0 = false; Spec s = genSpec(R, gn);
  Cfg g; g.eps_abs = R.lu(1e-10, 1e-9); g.eps_rel = 0; g.max_qp = 20000; g.interval = R.pick({25, 10, 5, 50}); g.maxiter = 1; g.eqguess = R.b(); g.reset_y = R.b(); g.heur = false; g.alpha = R.b(0.6) ? 1.6 : R.u(0.8, 1.8); if (R.b(0.3)) g.reginit = R.pick({1e-4, 1e-2, 1.});
  bool lin = true; for (auto& N : s.nodes) if (N.con_eps != 0 || N.dyn_eps != 0) lin = false;
  double off = lin ? R.u(0, 1.2) : R.u(0, 0.3); VV x = randXs(R, s, off), u = randUs(R, s, off);
  auto r = runSolve(CSQP, s, g, x, u); if (r->tr.empty() || !usable(r->tr[0])) { c.add("skipped"); return; } const Snap& n = r->tr[0];
  W w{c, s, g, describe(CSQP, s, g)}; Metrics m = metrics(s, n.xs, n.us, true); bool act = certificate(w, n, m, "tight");
  if (n.qp_iters >= g.max_qp) { c.add("not_converged"); return; }
  DenseQP Q = denseQP(s, m, n.preg, n.dreg, true); double lmin = Eigen::SelfAdjointEigenSolver<M>(Q.P).eigenvalues()[0]; if (lmin < 1e-2) { c.add("skipped_conditioning"); return; }
  QPSol S = solveQP(Q); if (!S.ok) { c.add("reference_failed"); return; }
  // residual of the returned point in the QP itself
  double er = 0; V v(Q.nv), y(Q.C.rows()); for (int t = 0; t <= s.T; ++t) { if (t) v.segment(Q.xo[t], s.n) = n.dxt[t]; if (t < s.T && s.nodes[t].nu) v.segment(Q.uo[t], s.nodes[t].nu) = n.dut[t]; if (s.nodes[t].ng) y.segment(Q.co[t], s.nodes[t].ng) = n.y[t]; }
  er = ninf(v - S.v); double cm = 1 + nrm(Q.C) + nrm(Q.P) + nrm(Q.A);
  double tol = 1e-5 * (1 + ninf(S.v)) + 1e2 * std::max(0., std::max(n.np, n.nd)) * cm * cm / lmin + std::sqrt(S.res);
  c.add("qps_compared"); c.mx("distance_over_tolerance", er / tol);
  if (!(er <= tol)) c.fail("solution", "converged QP direction differs from the reference by %g (tolerance %g, size %g, min curvature %g, residuals %g %g, %g iterations) [%s]", er, tol, ninf(S.v), lmin, n.np, n.nd, n.qp_iters, w.d.c_str());
  // multipliers where they are unique
  std::vector<int> rows; bool clear = true; for (int j = 0; j < Q.C.rows(); ++j) { double cv = Q.C.row(j).dot(S.v); double sl = std::min(Q.u[j] - cv, cv - Q.l[j]); if (std::fabs(S.y[j]) > 1e-3) rows.push_back(j); else if (sl < 1e-3) clear = false; if (Q.l[j] == Q.u[j]) clear = clear && std::fabs(S.y[j]) > 1e-3; }
  if (clear && !rows.empty()) { int me = int(Q.A.rows()); M J(me + rows.size(), Q.nv); J.topRows(me) = Q.A; for (size_t k = 0; k < rows.size(); ++k) J.row(me + k) = Q.C.row(rows[k]); double sv = J.rows() <= J.cols() ? Eigen::JacobiSVD<M>(J).singularValues().minCoeff() : 0;
    if (sv > 0.05) { double ye = ninf(y - S.y), yt = 1e-4 * (1 + ninf(S.y)) * cm / sv + 10 * tol * cm / sv; c.add("multipliers_compared"); c.mx("multiplier_over_tolerance", ye / yt); if (!(ye <= yt)) c.fail("multipliers", "converged QP multipliers differ from the reference by %g (tolerance %g, size %g) [%s]", ye, yt, ninf(S.y), w.d.c_str()); } }
  if (act) c.mark(hashVec(n.y)); c.sample = w.d + fmt(" -> %g QP iterations, distance %.1e", n.qp_iters, er);
}
const std::vector<Scenario> kScenarios = {{"outer", f_outer, 12000, 120000}, {"traced", f_traced, 15000, 150000}, {"tight", f_tight, 4500, 50000}};
}  // namespace H
