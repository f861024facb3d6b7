// S01: a reported success is a first-order point.
#include "common.hpp"
namespace H {
const char* kProperty = "S01";
const char* kRule = "random well-formed shooting problems (horizon 1..7, states 1..4, mixed control/constraint dimensions incl. 0, vector and circle states, linear to non-linear, all bound types), random settings and guesses, fresh and reused solvers; a case is non-trivial when a solve reported success after at least one step was taken";

static void checkSuccess(Ctx& c, Kind k, const Spec& s, const Cfg& g, const Snap& e, const char* where) {
  std::string d = describe(k, s, g); const char* D = d.c_str();
  c.add("successes"); c.add(fmt("successes_%s", kname(k)).c_str());
  bool hasy = k != SQP;
  if (!shapesOk(s, e.xs, e.us)) { c.fail("shape", "%s: returned trajectory has wrong dimensions [%s]", where, D); return; }
  if (!finite(e.xs) || !finite(e.us) || !finite(e.lag) || !std::isfinite(e.cost) || !std::isfinite(e.KKT) || (hasy && !finite(e.y))) { c.fail("nonfinite", "%s: success with a non-finite result [%s]", where, D); return; }
  double d0 = 0; for (int j = 0; j < e.xs[0].size(); ++j) d0 = std::max(d0, std::fabs(e.xs[0][j] - s.x0[j]));
  if (d0 > (s.manifold() ? 1e-12 : 0)) c.fail("x0", "%s: success but xs[0] differs from x0 by %g [%s]", where, d0, D);
  Metrics m = metrics(s, e.xs, e.us, true);
  KKT q = kkt(s, m, e.lag, hasy ? &e.y : nullptr);
  double sc = kktMag(s, m, e.lag, hasy ? &e.y : nullptr), tol = g.tol + 1e-11 * sc;
  if (q.gap > tol) c.fail("gap", "%s: success but dynamics gap %g > tol %g [%s]", where, q.gap, g.tol, D);
  if (q.con > tol) c.fail("con", "%s: success but constraint violation %g > tol %g [%s]", where, q.con, g.tol, D);
  if (q.stat_x > tol || q.stat_u > tol) c.fail("stationarity", "%s: success but stationarity residual x %g u %g > tol %g [%s]", where, q.stat_x, q.stat_u, g.tol, D);
  c.mx("residual_over_tol", std::max(std::max(q.gap, q.con), std::max(q.stat_x, q.stat_u)) / g.tol);
  if (hasy) for (int t = 0; t <= s.T; ++t) {
    if (e.y[t].size() != s.nodes[t].ng) { c.fail("shape", "%s: multiplier of node %d has size %d [%s]", where, t, int(e.y[t].size()), D); continue; }
    for (int j = 0; j < s.nodes[t].ng; ++j) {
      double y = e.y[t][j]; double ty = (k == PROX ? 1e-5 : 1e-9) * (1 + linf(e.y));
      if (s.nodes[t].lb[j] == -INF && y < -ty) c.fail("sign", "%s: node %d row %d: multiplier %g pushes to an infinite lower bound [%s]", where, t, j, y, D);
      if (s.nodes[t].ub[j] == INF && y > ty) c.fail("sign", "%s: node %d row %d: multiplier %g pushes to an infinite upper bound [%s]", where, t, j, y, D);
      c.add("multipliers"); if (std::fabs(y) > 1e-6) c.add("active_multipliers");
    }
  }
}

static void one(Ctx& c, Kind k) {
  Rng R = c.rng(); Cls cl = pickCls(R);
  Gen gn = genFor(cl, k != SQP && R.b(0.85)); gn.state_only_con_t0 = false;
  bool single = R.b(0.3); if (single) gn = genFor(LQ, k != SQP && R.b(0.85)), gn.state_only_con_t0 = false;
  auto s = std::make_shared<Spec>(genSpec(R, gn)); if (single && singleBlock(R, *s, false)) c.add("one_block_problems"); Cfg g = genCfg(R, k); g.maxiter = R.i(0, 60);
  if (k == CSQP && R.b(0.7)) { g.eps_abs = R.lu(1e-10, 1e-6); g.eps_rel = 0; g.max_qp = 2000; }
  VV x = randXs(R, *s, R.u(0, 1.5)), u = randUs(R, *s, R.u(0, 1.5)); if (R.b(0.2)) { x = rollout(*s, u); }
  if (R.b(0.3)) x[0] = sInt(*s, x[0], R.vec(s->n));   // guess not starting at x0
  auto r = runSolve(k, *s, g, x, u);
  if (r->ret) { checkSuccess(c, k, *s, g, r->end, "first solve"); if (r->end.iter > 0) c.mark(hashVec(r->end.xs)); }
  if (r->threw) c.add("threw");
  // reuse the object on another instance / guess / tolerance
  int nre = R.i(0, 2);
  for (int j = 0; j < nre; ++j) {
    r->sol.prob.spec->x0 = fromTangent(s->circ, R.vec(s->n)); r->sol.prob.sync();
    if (R.b()) { g.tol = R.lu(1e-8, 1e-1); g.maxiter = R.i(0, 60); r->sol.configure(g); }
    if (R.b()) { r->xs0 = r->end.xs; r->us0 = r->end.us; if (!finite(r->xs0) || !finite(r->us0)) { r->xs0 = x; r->us0 = u; } }
    r->tr.clear(); r->ret = r->threw = false; go(*r);
    if (r->ret) { checkSuccess(c, k, *r->sol.prob.spec, g, r->end, "reused solver"); if (r->end.iter > 0) c.mark(hashVec(r->end.xs)); }
  }
  c.add("solves", 1 + nre);
  c.sample = describe(k, *s, g) + (r->ret ? fmt(" -> success in %d iterations, KKT %.2e", r->end.iter, r->end.KKT) : " -> no success");
}
// a tolerance just below the residual of an iterate (or of one kind of residual at it): no success may be claimed there
static void threshold(Ctx& c) {
  Rng R = c.rng(); Kind k = R.pick({SQP, CSQP, CSQP, PROX}); Gen gn = genFor(pickCls(R), k != SQP && R.b(0.9)); gn.state_only_con_t0 = false; Spec s = genSpec(R, gn); Cfg g = genCfg(R, k); g.maxiter = R.i(1, 8); g.extra = false;
  if (k == CSQP && R.b(0.7)) { g.eps_abs = R.lu(1e-10, 1e-6); g.eps_rel = 0; g.max_qp = 500; }
  VV x = randXs(R, s, R.u(0, 1)), u = randUs(R, s, R.u(0, 1)); if (R.b(0.4)) x = rollout(s, u);
  g.tol = 0; auto r = runSolve(k, s, g, x, u); if (r->threw) return; const Snap* e = &r->end; if (k != PROX) { if (r->tr.empty()) return; e = &r->tr[R.b(0.5) ? r->tr.size() - 1 : R.i(0, int(r->tr.size()) - 1)]; }
  if (!finite(e->xs) || !finite(e->us) || !finite(e->lag) || (k != SQP && !finite(e->y)) || mag(e->xs) > 1e6 || mag(e->us) > 1e6) return;
  Metrics m = metrics(s, e->xs, e->us, true); if (!m.ok) return; KKT q = kkt(s, m, e->lag, k != SQP ? &e->y : nullptr); double v = std::max(std::max(q.gap, q.con), std::max(q.stat_x, q.stat_u)); if (!(v > 1e-8) || !std::isfinite(v)) return;
  c.add(v == q.con ? "thresholds_at_constraint_violation" : v == q.gap ? "thresholds_at_gap" : "thresholds_at_stationarity");
  g.tol = v * R.pick({0.999, 0.9, 0.7, 0.5, 0.3, 0.1}); g.maxiter += 3; auto b = runSolve(k, s, g, x, u); c.add("thresholds"); c.mark(mix(hashVec(b->end.xs), uint64_t(g.tol * 1e9)));
  if (b->ret) checkSuccess(c, k, s, g, b->end, "tolerance below the residual of an iterate"); c.sample = describe(k, s, g) + fmt(", residual %g at an iterate", v);
}
static void f_sqp(Ctx& c) { one(c, SQP); }
static void f_csqp(Ctx& c) { one(c, CSQP); }
static void f_prox(Ctx& c) { one(c, PROX); }
const std::vector<Scenario> kScenarios = {{"sqp", f_sqp, 4000, 40000}, {"csqp", f_csqp, 2500, 40000}, {"proxqp", f_prox, 900, 15000}, {"threshold", threshold, 8000, 80000}};
}  // namespace H
