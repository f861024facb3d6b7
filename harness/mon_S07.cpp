// S07: results depend on the problem, the guess and the settings only.
#include <cstring>
#include "common.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/kkt.hpp"
namespace H {
const char* kProperty = "S07";
const char* kRule = "a solver object goes through 1-5 solves of other instances (other initial state, references, bounds, guesses, settings, iteration limits, time budgets, failing models, exceptions, reused or stopped half-way) and is then given the instance, guess and settings that a fresh object gets; every observed iteration and the result must agree bit for bit; a case is non-trivial when the earlier solves moved the object";

static bool bs(const VV& a, const VV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (int j = 0; j < a[i].size(); ++j) if (memcmp(&a[i][j], &b[i][j], 8) && !(std::isnan(a[i][j]) && std::isnan(b[i][j]))) return false; } return true; }
static bool bd(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
// the first quantity in which two snapshots differ
static std::string diffSnap(const Snap& a, const Snap& b, bool qp, bool tested = true) {
#define D(m) if (!bd(a.m, b.m)) return fmt(#m " %.17g vs %.17g", double(a.m), double(b.m))
#define W(m) if (!bs(a.m, b.m)) return fmt(#m " by %g", dist(a.m, b.m))
  W(xs); W(us); D(iter); D(cost); D(gap); D(con); W(fs); W(dx); W(du); W(lag); W(y); D(KKT); D(merit); D(xg); D(ug); D(preg); D(dreg); D(qp_iters);
  if (a.timeout != b.timeout) return "time-out flag"; if (a.type != b.type) return "type";
  if (qp) { W(z); W(dxt); W(dut); W(rho); W(irho); D(np); D(nd); if (tested) { D(tp); D(td); } D(rho_sparse); }
#undef D
#undef W
  return "";
}
static void perturb(Rng& R, Spec& s) {
  if (R.b(0.7)) s.x0 = sInt(s, s.x0, R.vec(s.n, R.lu(0.1, 3)));
  for (auto& N : s.nodes) {
    if (R.b(0.5)) N.r += R.vec(N.r.size(), 1); if (R.b(0.3)) N.c += R.vec(N.c.size(), 0.3); if (R.b(0.2)) N.Mx *= R.u(0.5, 1.5);
    for (int j = 0; j < N.ng; ++j) if (R.b(0.3)) { double sh = R.n() * 0.5; N.lb[j] += sh; N.ub[j] += sh; if (N.ub[j] > N.lb[j] && R.b()) N.ub[j] += R.u(); if (R.b(0.1)) { N.lb[j] = -INF; } }
  }
}
static void fixAlphas(Cfg& g) { if (g.alphas.empty()) for (int i = 0; i < 10; ++i) g.alphas.push_back(std::pow(0.5, i)); }
static Spec problem(Rng& R, Kind k) { Gen g = genFor(R.b(0.1) ? FAIL : pickCls(R), k != SQP && R.b(0.8)); g.maxT = 5; g.nl = R.u(0.3, 1.5); return genSpec(R, g); }
static Cfg config(Rng& R, Kind k) { Cfg g = genCfg(R, k, 1e-7, 1e-1); g.maxiter = R.i(0, 8); if (k == CSQP) g.max_qp = std::min(g.max_qp, 200); if (k == PROX) { g.max_qp = R.pick({5, 10, 20}); g.maxiter = std::min(g.maxiter, 4); }   // the library takes for ever on infeasible problems
  fixAlphas(g); return g; }

static void history(Ctx& c, Kind k, bool warm) {
  Rng R = c.rng(); Spec s = problem(R, k); Cfg g = config(R, k); VV x = randXs(R, s, R.u(0.1, 1.5)), u = randUs(R, s, R.u(0.1, 1.5));
  if (k == CSQP && !warm) { g.reset_y = true; g.eqguess = true; }
  if (k == CSQP && warm) { g.reset_y = false; g.eqguess = R.b(0.4); }
  Prob p = makeProb(s); auto r = std::make_shared<Run>(); r->sol = Sol(k, p); p.mon->limit = -1; int n = R.i(1, k == PROX ? 3 : 5); std::string hist; bool moved = false;
  for (int q = 0; q < n; ++q) {
    Cfg h = R.b(0.4) ? g : config(R, k); h.maxiter = R.i(0, 8); if (k == CSQP && R.b(0.15)) h.max_time = R.b() ? 0. : 1e-5;
    *p.spec = s; if (R.b(0.8)) perturb(R, *p.spec); p.sync(); r->sol.configure(h); r->xs0 = randXs(R, s, 1); r->us0 = randUs(R, s, 1); if (R.b(0.3)) { r->xs0 = x; r->us0 = u; } if (q && R.b(0.3) && finite(r->end.xs) && finite(r->end.us)) { r->xs0 = r->end.xs; r->us0 = r->end.us; }
    FaultKind f = F_NONE; long at = 0; if (R.b(0.35)) { f = R.pick({F_THROW, F_NAN_COST, F_NAN_X, F_NAN_G, F_INF_COST}); at = R.i(0, 60); } bool once = R.b(0.6); long base = p.mon->total();
    if (f) p.mon->fault = [=](int, bool, long i) { return (once ? i - base == at : i - base >= at) ? f : F_NONE; };
    r->threw = false; r->ret = false; r->tr.clear(); go(*r); p.mon->fault = nullptr; moved |= r->tr.size() > 0 || k == PROX;
    hist += fmt("%s%d%s%s%s", q ? "," : "", h.maxiter, f ? "f" : "", r->threw ? "x" : r->ret ? "s" : "", h.max_time < INF ? "t" : "");
  }
  *p.spec = s; p.sync(); g.max_time = INF; r->sol.configure(g); r->xs0 = x; r->us0 = u; r->tr.clear(); r->threw = false; r->ret = false; r->what.clear();
  if (k == PROX) r->sol.p->forget();
  auto f = std::make_shared<Run>(); Prob fp = makeProb(s); f->sol = Sol(k, fp); f->sol.configure(g); f->xs0 = x; f->us0 = u; fp.mon->limit = -1;
  if (warm) {
    // the same starting values for the fresh object
    auto cp = [](const VV& a, const VV& b) { VV& o = const_cast<VV&>(b); for (size_t t = 0; t < o.size(); ++t) o[t] = a[t]; };
    auto &o = *r->sol.c, &w = *f->sol.c; cp(o.get_y(), w.get_y()); cp(o.get_dx(), w.get_dx()); cp(o.get_du(), w.get_du());
  }
  go(*r); go(*f); std::string d = fmt("after %d solves (%s; f fault x exception s success t time-out) ", n, hist.c_str()) + describe(k, s, g); c.add("reused_objects"); c.add("earlier_solves", n);
  if (r->threw != f->threw || r->ret != f->ret || r->tr.size() != f->tr.size()) { c.fail("outcome", "the reused solver %s after %zu iterations, the fresh one %s after %zu [%s] %s", r->threw ? "throws" : r->ret ? "succeeds" : "fails", r->tr.size(), f->threw ? "throws" : f->ret ? "succeeds" : "fails", f->tr.size(), d.c_str(), r->what.c_str()); return; }
  for (size_t i = 0; i < r->tr.size(); ++i) { std::string w = diffSnap(r->tr[i], f->tr[i], k == CSQP, r->tr[i].qp_iters >= g.interval); if (!w.empty()) { c.fail("iteration", "iteration %zu differs from a fresh solver: %s [%s]", i, w.c_str(), d.c_str()); return; } if (i && r->tr[i].step != f->tr[i].step) { c.fail("iteration", "iteration %zu: step %g vs %g [%s]", i, r->tr[i].step, f->tr[i].step, d.c_str()); return; } }
  c.add("iterations_compared", r->tr.size());
  // a solve that ended before its first direction leaves directions of the last one behind
  if (k == PROX) {   // no callbacks: the directions in the object may be those of an earlier QP when the last test succeeded
    if (!r->threw && f->end.cost != 0 && g.maxiter > 0 && (r->end.iter != f->end.iter || !bd(r->end.cost, f->end.cost) || !bd(r->end.preg, f->end.preg))) { c.fail("result", "iterations %d/%d cost %.17g/%.17g regularization %g/%g differ from a fresh solver's [%s]", r->end.iter, f->end.iter, r->end.cost, f->end.cost, r->end.preg, f->end.preg, d.c_str()); return; }
  } else if (!r->threw && r->tr.size() && g.maxiter > 0) { bool part = r->tr.back().iter != r->end.iter; std::string w; if (part) { w = bs(r->end.xs, f->end.xs) && bs(r->end.us, f->end.us) ? "" : "trajectory"; if (r->end.preg != f->end.preg) w = "regularization"; if (r->end.iter != f->end.iter) w = "iteration count"; } else w = diffSnap(r->end, f->end, k == CSQP, r->end.qp_iters >= g.interval);
    if (!w.empty()) { c.fail("result", "the result differs from a fresh solver's: %s [%s]", w.c_str(), d.c_str()); return; } }
  if (!bs(r->end.xs, f->end.xs) || !bs(r->end.us, f->end.us)) { c.fail("result", "the trajectory differs from a fresh solver's by %g [%s]", std::max(dist(r->end.xs, f->end.xs), dist(r->end.us, f->end.us)), d.c_str()); return; }
  if (moved) c.mark(mix(hashVec(r->end.xs), n)); c.sample = d + (r->ret ? " -> success" : " -> no success");
}
static void f_sqp(Ctx& c) { history(c, SQP, false); }
static void f_csqp(Ctx& c) { history(c, CSQP, false); }
static void f_warm(Ctx& c) { history(c, CSQP, true); }
static void f_prox(Ctx& c) { history(c, PROX, false); }

// the other solvers of the package
static void f_dev(Ctx& c) {
  Rng R = c.rng(); int w = R.i(0, 2); Gen gp = genFor(w < 2 && R.b(0.1) ? FAIL : pickCls(R), false); gp.maxT = 5; gp.nl = R.u(0.3, 1.5); Spec s = genSpec(R, gp); static const char* nm[] = {"DDP", "FDDP", "KKT"}; double reg = R.b() ? std::nan("") : R.lu(1e-9, 1e-3); int mi = R.i(1, 8); bool filter = R.b(); int fs = R.i(1, 4); bool feas = R.b(0.3);
  auto make = [&](const Prob& p) -> std::shared_ptr<crocoddyl::SolverAbstract> { if (w == 0) return std::make_shared<mim_solvers::SolverDDP>(p.problem); if (w == 1) return std::make_shared<mim_solvers::SolverFDDP>(p.problem); return std::make_shared<mim_solvers::SolverKKT>(p.problem); };
  auto conf = [&](crocoddyl::SolverAbstract& o, bool fl, int fz) { if (w == 1) { auto& q = static_cast<mim_solvers::SolverFDDP&>(o); q.set_use_filter_line_search(fl); q.set_filter_size(fz); } };
  auto run = [&](crocoddyl::SolverAbstract& o, const VV& x, const VV& u, int m, bool fe, double rg) { try { return o.solve(x, u, m, fe, rg) ? 1 : 0; } catch (std::exception&) { return 2; } };
  Prob p = makeProb(s), q = makeProb(s); auto a = make(p), b = make(q); VV u = randUs(R, s, 1), x = feas ? rollout(s, u) : randXs(R, s, 1); int n = R.i(1, 4);
  for (int i = 0; i < n; ++i) { *p.spec = s; if (R.b(0.8)) perturb(R, *p.spec); p.sync(); conf(*a, R.b(), R.i(1, 5)); VV u2 = randUs(R, s, 1), x2 = randXs(R, s, 1); bool f2 = R.b(0.3); if (f2) x2 = rollout(*p.spec, u2);
    long base = p.mon->total(), at = R.i(0, 60); if (R.b(0.25)) p.mon->fault = [=](int, bool, long k) { return k - base == at ? F_THROW : F_NONE; }; run(*a, x2, u2, R.i(0, 6), f2, R.b() ? std::nan("") : R.lu(1e-9, 1e-2)); p.mon->fault = nullptr; }
  *p.spec = s; p.sync(); conf(*a, filter, fs); conf(*b, filter, fs); int ra = run(*a, x, u, mi, feas, reg), rb = run(*b, x, u, mi, feas, reg); std::string d = fmt("%s %s maxiter=%d %s after %d solves", nm[w], shape(s).c_str(), mi, feas ? "feasible guess" : "", n); c.add("other_solvers");
  if (ra != rb) { c.fail(nm[w], "outcome %d, a fresh solver's %d [%s]", ra, rb, d.c_str()); return; } if (ra == 2) return;
  if (!bs(a->get_xs(), b->get_xs()) || !bs(a->get_us(), b->get_us())) { c.fail(nm[w], "result differs from a fresh solver's by %g [%s]", std::max(dist(a->get_xs(), b->get_xs()), dist(a->get_us(), b->get_us())), d.c_str()); return; }
  if (!rb && b->get_cost() == 0) return;   // the guess could not be evaluated: nothing computed yet
  if (a->get_iter() != b->get_iter() || !bd(a->get_cost(), b->get_cost()) || !bd(a->get_preg(), b->get_preg())) c.fail(nm[w], "iterations %zu/%zu cost %.17g/%.17g regularization %g/%g differ from a fresh solver's [%s]", a->get_iter(), b->get_iter(), a->get_cost(), b->get_cost(), a->get_preg(), b->get_preg(), d.c_str());
  c.mark(mix(hashVec(a->get_xs()), w)); c.sample = d;
}

// solving again from the solution
static void f_restart(Ctx& c) {
  Rng R = c.rng(); Kind k = R.b(0.35) ? SQP : R.b(0.7) ? CSQP : PROX; Spec s = problem(R, k); Cfg g = config(R, k); g.maxiter = 100; g.mu_dyn = R.u(10, 200); g.mu_con = R.u(10, 200); g.tol = R.lu(1e-6, 1e-2); g.extra = R.b(0.2); if (R.b(0.6)) { g.reginit = std::nan(""); g.rmin = 1e-9; }
  if (k == CSQP) { g.eps_abs = 1e-4 * g.tol; g.eps_rel = 0; g.max_qp = 5000; g.interval = R.pick({1, 5, 10, 25}); g.alpha = R.u(1, 1.7); g.remove_reg = false; g.sigma = 1e-6; g.heur = false; } if (k == PROX) { g.max_qp = 2000; g.maxiter = 15; }
  VV x = randXs(R, s, 0.7), u = randUs(R, s, 0.7); auto r = runSolve(k, s, g, x, u); if (!r->ret || r->threw) { c.add("not_solved"); return; }
  Snap a = r->end; if (k == CSQP && a.qp_iters >= g.max_qp) return; r->xs0 = a.xs; r->us0 = a.us; r->tr.clear(); std::string d = describe(k, s, g); double p0 = std::isnan(g.reginit) ? g.rmin : g.reginit;
  go(*r); c.add("restarts"); c.mark(hashVec(a.xs)); const Snap& b = r->end;
  if (k == SQP && a.preg != p0) { c.add("restart_with_other_regularization"); return; }
  if (k != CSQP) {
    if (k == PROX) { c.add("proxqp_restarts"); if (!r->ret || b.iter) c.add("proxqp_restarts_not_immediate"); return; }   // its QP's multipliers replace the tested ones before it returns
    if (!r->ret || b.iter != 0) { c.fail("restart", "restarted from its solution the solver %s in iteration %d (KKT %g, first %g) [%s]", r->ret ? "succeeds" : "does not succeed, ends", b.iter, b.KKT, a.KKT, d.c_str()); return; }
    double ex = std::max(dist(a.xs, b.xs), dist(a.us, b.us));   // the initial state is renormalised on a manifold
    if (!(ex <= (s.manifold() ? 1e-14 : 0)) || !close(a.cost, b.cost, s.manifold() ? 1e-12 : 0) || (k == SQP ? !close(a.KKT, b.KKT, s.manifold() ? 1e-9 : 0) : !(b.KKT <= g.tol))) c.fail("restart", "the restarted solve returns another result: trajectory %g cost %.17g/%.17g KKT %.17g/%.17g [%s]", dist(a.xs, b.xs), a.cost, b.cost, a.KKT, b.KKT, d.c_str());
    return;
  }
  c.add("csqp_restarts"); bool stuck = r->tr.size() && r->tr.front().qp_iters >= g.max_qp; if (stuck) { c.add("csqp_restart_qp_limit"); return; }
  if (a.preg != p0) { c.add("restart_with_other_regularization"); return; }
  c.mx("csqp_restart_iterations", b.iter); c.mx("csqp_restart_kkt_over_tolerance", r->tr.size() ? r->tr.front().KKT / g.tol : 0); if (b.iter) c.add("csqp_restarts_not_immediate"); c.mx("csqp_restart_distance_over_tol", std::max(dist(a.xs, b.xs), dist(a.us, b.us)) / g.tol);
  if (!r->ret || b.iter > 2) c.fail("restart", "restarted from its solution the solver %s in iteration %d (KKT %g, first %g) [%s]", r->ret ? "succeeds" : "does not succeed, ends", b.iter, b.KKT, a.KKT, d.c_str());
}
const std::vector<Scenario> kScenarios = {{"history_csqp", f_csqp, 7000, 150000}, {"history_sqp", f_sqp, 7000, 120000}, {"history_warm_csqp", f_warm, 5000, 80000}, {"history_proxqp", f_prox, 2000, 30000}, {"history_ddp_fddp_kkt", f_dev, 6000, 80000}, {"restart", f_restart, 5000, 60000}};
}  // namespace H
