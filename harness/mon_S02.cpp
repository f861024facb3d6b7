// S02: every figure a solver reports is the one its definition gives at the
// trajectory, direction and multipliers it shows at that moment.
#include "common.hpp"
namespace H {
const char* kProperty = "S02";
const char* kRule = "figures recomputed from the problem's formulas at every callback of SQP/CSQP, after every k of k=1..n of ProxQP solves limited to k iterations, and at the end of successful solves; a case is non-trivial when at least two snapshots with different trajectories were checked";

struct Chk { Ctx& c; Kind k; const Spec& s; const Cfg& g; std::string d;
  void num(const char* key, double got, double want, double scale, const char* where, int i) {
    c.add("figures"); double tol = 1e-10 * (1 + scale);
    if (std::isnan(want) && std::isnan(got)) return; if (got == want) return;
    if (!(std::fabs(got - want) <= tol)) c.fail(key, "%s %d: reported %s = %.17g, recomputed %.17g [%s]", where, i, key, got, want, d.c_str());
    else c.mx("relative_error_e12", std::fabs(got - want) / (1 + scale) * 1e12);
  } };

// figures of the trajectory itself
static void trajFigures(Chk& h, const Snap& n, const Metrics& m, const char* where, int i) {
  double mm = magM(m);
  h.num("cost", n.cost, m.cost, mm, where, i);
  h.num("gap_norm", n.gap, m.gap1, m.gap1 + linf(n.xs), where, i);
  if (h.k != SQP) h.num("constraint_norm", n.con, m.con1, m.con1 + 1, where, i);
}
static double lagInf(const Snap& n) { return std::max(linf(n.lag), linf(n.y)); }
static void dirFigures(Chk& h, const Snap& n, const Metrics& m, const char* where, int i) {
  const Spec& s = h.s; bool y = h.k != SQP;
  KKT q = kkt(s, m, n.lag, y ? &n.y : nullptr);
  h.num("KKT", n.KKT, q.total(true), kktMag(s, m, n.lag, y ? &n.y : nullptr), where, i);
  double ma = m.cost, lg = 0; if (h.k == CSQP && (h.g.mu_dyn < 0 || h.g.mu_con < 0)) lg = lagInf(n);
  ma = meritOf(h.k, h.g, m.cost, m.gap1, m.con1, lg);
  h.num("merit", n.merit, ma, magM(m) + std::fabs(ma - m.cost), where, i);
  h.num("xgrad_norm", n.xg, l1(n.dx) / (s.T + 1), n.xg, where, i);
  h.num("ugrad_norm", n.ug, l1(n.du) / s.T, n.ug, where, i);
  for (int t = 0; t <= s.T; ++t) if (t > 0 || h.k == SQP) { V e = n.fs[t] - m.fs[t]; if (ninf(e) > 1e-11 * (1 + linf(n.xs))) h.c.fail("fs", "%s %d: reported gap of node %d is off by %g [%s]", where, i, t, ninf(e), h.d.c_str()); }
}

static void trace(Ctx& c, Run& r, const char* which) {
  const Spec& s = *r.sol.prob.spec; const Cfg& g = r.sol.cfg; Chk h{c, r.sol.kind, s, g, std::string(which) + " " + describe(r.sol.kind, s, g)};
  int distinct = 0;
  for (size_t i = 0; i < r.tr.size(); ++i) {
    const Snap& n = r.tr[i];
    if (!shapesOk(s, n.xs, n.us)) { c.fail("shape", "callback %d: trajectory has wrong dimensions [%s]", int(i), h.d.c_str()); return; }
    if (!finite(n.xs) || !finite(n.us) || !finite(n.lag) || !finite(n.dx)) { c.add("skipped_nonfinite"); return; }
    if (mag(n.xs) > 1e6 || mag(n.us) > 1e6 || mag(n.lag) > 1e10) { c.add("skipped_huge"); return; }
    Metrics m = metrics(s, n.xs, n.us, true); if (!m.ok) { c.add("skipped_invalid"); return; }
    trajFigures(h, n, m, "callback", int(i)); dirFigures(h, n, m, "callback", int(i));
    c.add("snapshots");
    bool repeated = i > 0 && r.sol.kind == CSQP && g.extra && i + 1 == r.tr.size() && dist(n.xs, r.tr[i - 1].xs) == 0 && dist(n.us, r.tr[i - 1].us) == 0;
    if (n.iter != int(i) && !(repeated && n.iter == int(i) - 1)) c.fail("iter", "callback %d reports iteration %d [%s]", int(i), n.iter, h.d.c_str());
    if (i > 0) {
      const Snap& p = r.tr[i - 1];
      bool moved = dist(n.xs, p.xs) > 0 || dist(n.us, p.us) > 0; if (moved) ++distinct;
      if (moved) {
        VV X = moveX(s, p.xs, p.dx, n.step), U = moveU(p.us, p.du, n.step);
        double e = std::max(dist(X, n.xs), dist(U, n.us));
        if (!(e <= 1e-10 * (1 + mag(n.xs) + mag(n.us) + mag(p.dx) + mag(p.du)))) c.fail("step", "callback %d: reported step length %g does not lead from the previous trajectory to this one (off by %g) [%s]", int(i), n.step, e, h.d.c_str());
        c.add("steps"); if (n.step < 1) c.add("shortened_steps");
      }
    }
    if (r.sol.kind == CSQP) { if (n.qp_iters < 1 || n.qp_iters > g.max_qp) c.fail("qp_iters", "callback %d: reported %g QP iterations, limit %d [%s]", int(i), n.qp_iters, g.max_qp, h.d.c_str()); }
  }
  if (r.ret) {
    if (r.tr.empty()) { c.fail("callback", "success without any callback [%s]", h.d.c_str()); return; }
    const Snap &a = r.tr.back(), &b = r.end; c.add("successful_returns");
    Metrics m = metrics(s, b.xs, b.us, true); trajFigures(h, b, m, "return", -1); dirFigures(h, b, m, "return", -1);
    if (b.iter != a.iter) c.fail("iter", "iteration count changed between last callback (%d) and return (%d) [%s]", a.iter, b.iter, h.d.c_str());
  }
  if (!r.threw) c.add("returns");
  if (distinct >= 1) c.mark(hashVec(r.end.xs));
  // the number of QP iterations, by limiting them on fresh solvers
}

static void one(Ctx& c, Kind k) {
  Rng R = c.rng(); Cls cl = pickCls(R); Gen gn = genFor(cl, k == CSQP && R.b(0.85));
  Spec s = genSpec(R, gn); Cfg g = genCfg(R, k); g.maxiter = R.b(0.2) ? R.i(0, 3) : R.i(3, 15);
  VV x = randXs(R, s, R.u(0, 1.5)), u = randUs(R, s, R.u(0, 1.5));
  auto r = runSolve(k, s, g, x, u); trace(c, *r, "first solve");
  if (k == CSQP && !r->tr.empty() && R.b(0.5)) {
    // count of QP iterations of the first direction
    Snap& n = r->tr[0]; int q = int(n.qp_iters);
    if (finite(n.dx) && finite(n.y)) for (int m = std::max(1, q - 1); m <= q; ++m) {
      Cfg g2 = g; g2.max_qp = m; g2.maxiter = 1; g2.extra = false; auto r2 = runSolve(k, s, g2, x, u); if (r2->tr.empty()) continue;
      Snap& a = r2->tr[0]; c.add("qp_count_replays");
      if (int(a.qp_iters) != m) c.fail("qp_iters", "with a limit of %d QP iterations below the %d used, %g are reported [%s]", m, q, a.qp_iters, describe(k, s, g).c_str());
      if (m == q && (dist(a.dx, n.dx) > 0 || dist(a.du, n.du) > 0 || dist(a.y, n.y) > 0 || dist(a.z, n.z) > 0)) c.fail("qp_iters", "%d QP iterations reported, but a solver limited to that number ends elsewhere [%s]", q, describe(k, s, g).c_str());
    }
  }
  if (R.b(0.5)) {
    // same solver, other instance and settings
    r->sol.prob.spec->x0 = fromTangent(s.circ, R.vec(s.n)); r->sol.prob.sync();
    Cfg g2 = genCfg(R, k); g2.maxiter = R.i(0, 8); if (g2.alphas.empty()) for (int i = 0; i < 10; ++i) g2.alphas.push_back(std::pow(0.5, i));
    r->sol.configure(g2); r->tr.clear(); r->ret = r->threw = false; go(*r); trace(c, *r, "second solve");
  }
  c.sample = describe(k, s, g) + fmt(" -> %d callbacks, cost %.4g, KKT %.2e", int(r->tr.size()), r->end.cost, r->end.KKT);
}
static void f_sqp(Ctx& c) { one(c, SQP); }
static void f_csqp(Ctx& c) { one(c, CSQP); }

// ProxQP: no callbacks; a solve limited to k iterations shows the state at the end
// of iteration k.
static void f_prox(Ctx& c) {
  Rng R = c.rng(); Cls cl = pickCls(R); Gen gn = genFor(cl, R.b(0.85)); gn.state_only_con_t0 = false;
  Spec s = genSpec(R, gn); Cfg g = genCfg(R, PROX, 1e-6, 1e-2);
  VV x = randXs(R, s, R.u(0, 1.0)), u = randUs(R, s, R.u(0, 1.0)); int n = R.i(2, 6);
  Chk h{c, PROX, s, g, describe(PROX, s, g)};
  Snap prev; prev.xs = x; prev.us = u; prev.xs[0] = s.x0; for (int t = 0; t <= s.T; ++t) { prev.lag.push_back(V::Zero(s.n)); prev.y.push_back(V::Zero(s.nodes[t].ng)); }
  int moved = 0;
  for (int kk = 1; kk <= n; ++kk) {
    Cfg g2 = g; g2.maxiter = kk; auto r = runSolve(PROX, s, g2, x, u); Snap& e = r->end;
    if (r->threw) { c.add("threw"); return; }
    if (!finite(e.xs) || !finite(e.us) || !finite(e.lag) || !finite(e.dx) || mag(e.xs) > 1e6 || mag(e.us) > 1e6) { c.add("skipped_nonfinite"); return; }
    Metrics m = metrics(s, prev.xs, prev.us, true); if (!m.ok) return;
    if (e.preg >= 1e9) { c.add("stopped_by_regularization"); return; }
    // figures refer to the iterate at which this iteration began
    trajFigures(h, e, m, "iteration", kk);
    h.num("merit", e.merit, meritOf(PROX, g, m.cost, m.gap1, m.con1, 0), magM(m) + std::fabs(e.merit - e.cost), "iteration", kk);
    KKT q = kkt(s, m, prev.lag, &prev.y); h.num("KKT", e.KKT, q.total(false), kktMag(s, m, prev.lag, &prev.y), "iteration", kk);
    h.num("xgrad_norm", e.xg, l1(e.dx) / (s.T + 1), e.xg, "iteration", kk); h.num("ugrad_norm", e.ug, l1(e.du) / s.T, e.ug, "iteration", kk);
    for (int t = 1; t <= s.T; ++t) if (ninf(e.fs[t] - m.fs[t]) > 1e-11 * (1 + linf(e.xs))) c.fail("fs", "iteration %d: reported gap of node %d is off by %g [%s]", kk, t, ninf(e.fs[t] - m.fs[t]), h.d.c_str());
    c.add("snapshots");
    if (e.iter != (r->ret ? kk - 1 : kk)) c.fail("iter", "after a solve limited to %d iterations (success %d), %d are reported [%s]", kk, int(r->ret), e.iter, h.d.c_str());
    bool mv = dist(prev.xs, e.xs) > 0 || dist(prev.us, e.us) > 0;
    if (r->ret) { c.add("successful_returns"); if (mv) c.fail("moved", "success after moving away from the certified trajectory [%s]", h.d.c_str());
      if (dist(prev.lag, e.lag) > 0 || dist(prev.y, e.y) > 0) c.fail("multipliers", "success, but not with the multipliers of the reported residual [%s]", h.d.c_str());
       if (!(e.KKT <= g.tol)) c.fail("success", "success with KKT %g > %g [%s]", e.KKT, g.tol, h.d.c_str()); break; }
    if (mv) { ++moved; double er = std::max(dist(moveX(s, prev.xs, e.dx, e.step), e.xs), dist(moveU(prev.us, e.du, e.step), e.us));
      if (!(er <= 1e-10 * (1 + mag(e.xs) + mag(e.us) + mag(e.dx) + mag(e.du)))) c.fail("step", "iteration %d: reported step length %g does not match the move (off by %g) [%s]", kk, e.step, er, h.d.c_str()); c.add("steps"); if (e.step < 1) c.add("shortened_steps"); }
    prev = e;
  }
  if (moved) c.mark(hashVec(prev.xs));
  c.sample = h.d;
}
const std::vector<Scenario> kScenarios = {{"sqp", f_sqp, 18000, 300000}, {"csqp", f_csqp, 18000, 300000}, {"proxqp", f_prox, 4800, 60000}};
}  // namespace H
