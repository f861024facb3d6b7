// S06: all solvers find the same optimum on convex problems.
#include "common.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/kkt.hpp"
namespace H {
const char* kProperty = "S06";
const char* kRule = "strictly convex problems with linear dynamics (quadratic or log-cosh costs, linear constraints of every bound type) whose minimizer is computed by an independent dense Newton/interior-point method; every solver is run on it from random guesses; a case is non-trivial when a solver reported success or finished its Newton step away from the guess, and the constrained ones when at least one constraint is active";

static Spec convex(Rng& R, bool con, bool quad) {
  bool single = !quad && R.b(0.5); Gen g = genFor(quad || single ? LQ : CVX, con); g.state_only_con_t0 = false; g.maxT = 7; if (R.b(0.2)) { g.cost_lo = 0.01; g.cost_hi = 100; }
  Spec s = genSpec(R, g); if (single) singleBlock(R, s, true); return s;
}
static std::string dsc(const char* who, const Spec& s, const std::string& more) { return fmt("%s %s %s", who, shape(s).c_str(), more.c_str()); }
static double wellness(const Spec& s, const Ref& ref) { (void)s; return 1 + mag(ref.xs) + mag(ref.us); }

struct Guess { VV x, u; bool feas; };
static Guess guess(Rng& R, const Spec& s) { Guess g; double o = R.u(0, 2); g.x = randXs(R, s, o); g.u = randUs(R, s, o); g.feas = R.b(0.35); if (g.feas) g.x = rollout(s, g.u); return g; }

static void same(Ctx& c, const char* who, const Spec& s, const Ref& ref, const VV& xs, const VV& us, double tol, const std::string& d) {
  if (!shapesOk(s, xs, us)) { c.fail(who, "trajectory with wrong dimensions [%s]", d.c_str()); return; }
  double e = std::max(dist(xs, ref.xs), dist(us, ref.us));
  c.mx("distance", e); c.mx((std::string("distance_over_tolerance_") + who).c_str(), e / tol);
  if (!(e <= tol)) { Metrics m = metrics(s, xs, us, false); c.fail(who, "result is %g away from the minimizer (allowed %g); cost %.12g, minimum %.12g, gap %g, violation %g [%s]", e, tol, m.cost, ref.cost, m.gap1, m.con1, d.c_str()); }
}

// without a success the solve must at least have come to rest next to the minimizer
static void stalled(Ctx& c, const char* who, const Spec& s, const Ref& ref, const VV& xs, const VV& us, const std::string& d) {
  double e = shapesOk(s, xs, us) ? std::max(dist(xs, ref.xs), dist(us, ref.us)) : INF; c.mx("stalled_distance", e);
  if (!(e <= 1e-2 * wellness(s, ref))) c.fail(who, "the solve ends without success %g away from the minimizer [%s]", e, d.c_str());
}
enum Who { W_SQP, W_DDP, W_FDDP, W_KKT };
struct Out { bool ret; VV xs, us; double cost; int iter; };
static Out runUnc(Who w, const Prob& p, Rng& R, const Guess& g, int maxiter, double tol, bool filter, int fs, bool declare_feas) {
  Out o; bool feas = g.feas && declare_feas;
  if (w == W_SQP) { mim_solvers::SolverSQP s(p.problem); s.set_termination_tolerance(tol); s.set_use_filter_line_search(filter); s.set_filter_size(fs); s.set_mu_dynamic(1e3); s.set_reg_min(1e-13); o.ret = s.solve(g.x, g.u, maxiter, feas, 0.); o.xs = s.get_xs(); o.us = s.get_us(); o.cost = s.get_cost(); o.iter = s.get_iter(); }
  if (w == W_DDP) { mim_solvers::SolverDDP s(p.problem); s.set_termination_tolerance(tol); s.set_reg_min(1e-13); o.ret = s.solve(g.x, g.u, maxiter, feas, 0.); o.xs = s.get_xs(); o.us = s.get_us(); o.cost = s.get_cost(); o.iter = s.get_iter(); }
  if (w == W_FDDP) { mim_solvers::SolverFDDP s(p.problem); s.set_termination_tolerance(tol); s.set_use_filter_line_search(filter); s.set_filter_size(fs); s.set_reg_min(1e-13); o.ret = s.solve(g.x, g.u, maxiter, feas, 0.); o.xs = s.get_xs(); o.us = s.get_us(); o.cost = s.get_cost(); o.iter = s.get_iter(); }
  if (w == W_KKT) { mim_solvers::SolverKKT s(p.problem); s.set_termination_tolerance(tol); o.ret = s.solve(g.x, g.u, maxiter, feas, 0.); o.xs = s.get_xs(); o.us = s.get_us(); o.cost = s.get_cost(); o.iter = s.get_iter(); }
  return o;
}
static const char* wname[] = {"SQP", "DDP", "FDDP", "KKT"};

// quadratic cost: the minimizer after a single iteration, and a certified success after a second look
static void f_newton(Ctx& c) {
  Rng R = c.rng(); Spec s = convex(R, false, true); Ref ref = convexRef(s, false); if (!ref.ok || wellness(s, ref) > 1e3) { c.add("reference_failed"); return; }
  double sc = wellness(s, ref);
  for (int w = 0; w < 4; ++w) {
    Guess g = guess(R, s); if (w == W_DDP) { g.x = rollout(s, g.u); g.feas = true; }
    bool df = R.b(); std::string d = dsc(wname[w], s, fmt("%s guess", g.feas ? "feasible" : "infeasible")); Prob p = makeProb(s);
    Out a = runUnc((Who)w, p, R, g, 1, 1e-300, true, 1, df);
    double err0 = std::max(dist(g.x, ref.xs), dist(g.u, ref.us)); c.add("newton_steps"); if (err0 > 1e-3) c.mark(mix(hashVec(a.xs), w));
    same(c, wname[w], s, ref, a.xs, a.us, 1e-7 * sc * (1 + mag(g.x) + mag(g.u)), d + ", after one iteration"); if (c.failed()) return;
    Out b = runUnc((Who)w, p, R, g, 12, 1e-7 * sc, R.b(), R.i(1, 4), df); c.add("solves");
    if (!b.ret) c.fail(wname[w], "no success within 12 iterations on a strictly convex quadratic problem [%s]", d.c_str());
    else { same(c, wname[w], s, ref, b.xs, b.us, 1e-4 * sc, d); c.mx("iterations", b.iter); if (!close(b.cost, ref.cost, 1e-5)) c.fail(wname[w], "reported cost %.12g, minimum %.12g [%s]", b.cost, ref.cost, d.c_str()); }
    if (c.failed()) return;
  }
  c.sample = dsc("newton", s, fmt("minimum %.6g", ref.cost));
}
static void f_convex(Ctx& c) {
  Rng R = c.rng(); Spec s = convex(R, false, false); Ref ref = convexRef(s, false); if (!ref.ok || wellness(s, ref) > 1e3) { c.add("reference_failed"); return; }
  double sc = wellness(s, ref);
  for (int w = 0; w < 4; ++w) {
    Guess g = guess(R, s); if (w == W_DDP) { g.x = rollout(s, g.u); g.feas = true; }
    bool filter = R.b(); std::string d = dsc(wname[w], s, fmt("%s guess, %s", g.feas ? "feasible" : "infeasible", filter ? "filter" : "merit"));
    Out b = runUnc((Who)w, makeProb(s), R, g, 200, 1e-8 * sc, filter, R.i(1, 3), R.b()); c.add("convex_solves"); c.add(fmt("solves_%s_%s", wname[w], filter ? "filter" : "merit").c_str()); if (!b.ret) { c.add(fmt("no_success_%s_%s", wname[w], filter ? "filter" : "merit").c_str()); continue; }
    c.mark(mix(hashVec(b.xs), w)); same(c, wname[w], s, ref, b.xs, b.us, 1e-4 * sc, d); if (c.failed()) return;
    if (!close(b.cost, ref.cost, 1e-5)) c.fail(wname[w], "reported cost %.12g, minimum %.12g [%s]", b.cost, ref.cost, d.c_str());
  }
  c.sample = dsc("convex", s, fmt("minimum %.6g", ref.cost));
}
static void constrained(Ctx& c, Kind k, bool quad) {
  Rng R = c.rng(); Spec s = convex(R, true, quad); Ref ref = convexRef(s, true); if (!ref.ok || wellness(s, ref) > 1e3) { c.add("reference_failed"); return; }
  double sc = wellness(s, ref); Cfg g; g.tol = 1e-7 * sc; g.maxiter = 60; g.eps_abs = 1e-10; g.eps_rel = 0; g.max_qp = k == CSQP ? 20000 : 4000; g.filter = R.b(); g.filter_size = R.i(1, 3); g.mu_dyn = g.mu_con = 1e3; g.interval = R.pick({5, 10, 25, 50}); g.reset_rho = R.b(0.3); g.reset_y = R.b(0.3); g.eqguess = R.b(0.7); g.alpha = R.pick({1.0, 1.6}); g.reginit = 0; g.rmin = 1e-13;
  if (k == CSQP && R.b(0.3)) g.mu_dyn = g.mu_con = -1, g.coef = 10;
  Guess q = guess(R, s); auto r = runSolve(k, s, g, q.x, q.u); std::string d = describe(k, s, g); c.add("constrained_solves"); c.add(fmt("solves_%s_%s", kname(k), quad ? "quadratic" : "convex").c_str()); c.add("active_constraints", ref.active);
  if (!r->ret) {
    // an inner QP that did not converge within its limit excuses the outer loop
    bool stuck = k == CSQP && r->tr.size() && r->tr.back().qp_iters >= g.max_qp; if (stuck) { c.add("qp_limit"); return; }
    // a fixed merit weight below the multipliers is no exact penalty: after a truncated QP the right step may be refused
    bool cut = false; double ymax = 0; for (auto& t : r->tr) { cut |= t.qp_iters >= g.max_qp; ymax = std::max(ymax, std::max(mag(t.y), mag(t.lag))); }
    if (cut && !g.filter && g.mu_con > 0 && ymax > 0.5 * g.mu_con) { c.add("merit_weight_too_small"); return; }
    c.add(fmt("no_success_%s_%s", kname(k), quad ? "quadratic" : "convex").c_str()); if (k == CSQP && quad) stalled(c, kname(k), s, ref, r->end.xs, r->end.us, d); return; }
  if (ref.active) c.mark(hashVec(r->end.xs)); c.mx(fmt("iterations_%s", kname(k)).c_str(), r->end.iter);
  same(c, kname(k), s, ref, r->end.xs, r->end.us, 1e-4 * sc, d);
  // a point within the tolerance of all conditions undercuts the minimum by at most tolerance times multipliers
  double ml = l1(r->end.lag) + l1(r->end.y);
  c.mx("cost_error_over_multipliers_times_tolerance", std::fabs(r->end.cost - ref.cost) / (1e-5 * (1 + std::fabs(ref.cost)) + g.tol * ml));
  if (std::fabs(r->end.cost - ref.cost) > 1e-5 * (1 + std::fabs(ref.cost)) + 2 * g.tol * ml) c.fail(kname(k), "reported cost %.12g, minimum %.12g [%s]", r->end.cost, ref.cost, d.c_str());
  c.sample = d + fmt(" -> minimum %.6g, %d active, %d iterations", ref.cost, ref.active, r->end.iter);
}
static void f_csqp_q(Ctx& c) { constrained(c, CSQP, true); }
static void f_csqp_c(Ctx& c) { constrained(c, CSQP, false); }
static void f_prox_q(Ctx& c) { constrained(c, PROX, true); }
static void f_prox_c(Ctx& c) { constrained(c, PROX, false); }

// CSQP without constraints walks the same iterates as SQP
static void f_same(Ctx& c) {
  Rng R = c.rng(); Gen gn = genFor(pickCls(R), false); Spec s = genSpec(R, gn); Cfg g; g.filter = R.b(); g.filter_size = R.i(1, 5); g.mu_dyn = R.lu(1, 1e3); g.tol = R.lu(1e-9, 1e-4); g.interval = R.i(1, 30); g.eqguess = true; g.extra = R.b(); g.reset_y = R.b(); g.reset_rho = R.b(); g.max_qp = R.b() ? 1000 : R.i(30, 100); g.sigma = R.lu(1e-9, 1e-4);
  if (R.b(0.3)) g.reginit = R.lu(1e-8, 1e-2); int n = R.i(1, 6); g.maxiter = n; VV x = randXs(R, s, 1), u = randUs(R, s, 1);
  auto a = runSolve(SQP, s, g, x, u), b = runSolve(CSQP, s, g, x, u); std::string d = describe(CSQP, s, g);
  size_t m = std::min(a->tr.size(), b->tr.size());
  for (size_t i = 0; i < m; ++i) {
    const Snap &p = a->tr[i], &q = b->tr[i]; if (!finite(p.xs) || mag(p.xs) > 1e4 || mag(p.us) > 1e4 || mag(p.dx) > 1e4) return;
    if (i && (dist(p.xs, a->tr[i - 1].xs) == 0 && dist(p.us, a->tr[i - 1].us) == 0)) break;   // line search rejected everything: SQP carries on with more regularization, CSQP stops
    if (i && p.step != q.step) { c.add("different_steps"); return; }   // decided by S05; a tie here
    double sc = 1 + mag(p.xs) + mag(p.us) + mag(p.dx) + mag(p.du), e = std::max(dist(p.xs, q.xs), dist(p.us, q.us)), e2 = std::max(dist(p.dx, q.dx), dist(p.du, q.du));
    double t = 1e-6 * sc * std::pow(10., double(i)); if (t > 1e-3 * sc) break; c.mx("csqp_vs_sqp", e / sc); c.mx("csqp_vs_sqp_direction", e2 / sc); c.add("iterates_compared");
    if (!(e <= t)) { c.fail("iterates", "iterate %d of CSQP without constraints differs from SQP by %g [%s]", int(i), e, d.c_str()); return; }
    if (!(e2 <= t)) { c.fail("direction", "direction %d of CSQP without constraints differs from SQP by %g [%s]", int(i), e2, d.c_str()); return; }
    if (!close(p.cost, q.cost, 1e-5) || std::fabs(p.gap - q.gap) > 1e-5 * sc) { c.fail("figures", "iterate %d: cost %g / %g, gap %g / %g (SQP / CSQP) [%s]", int(i), p.cost, q.cost, p.gap, q.gap, d.c_str()); return; }
    c.mark(hashVec(p.xs));
  }
  c.sample = d + fmt(" -> %d iterates compared", int(m));
}
const std::vector<Scenario> kScenarios = {{"newton", f_newton, 8000, 100000}, {"convex", f_convex, 12000, 100000}, {"csqp_quadratic", f_csqp_q, 1600, 12000}, {"csqp_convex", f_csqp_c, 1200, 6000}, {"proxqp_quadratic", f_prox_q, 1200, 8000}, {"proxqp_convex", f_prox_c, 800, 4000}, {"csqp_is_sqp", f_same, 5000, 60000}};
}  // namespace H
