// S11: model failures are contained.
#include "common.hpp"
namespace H {
const char* kProperty = "S11";
const char* kRule = "one model call of a solve (chosen among all calls a healthy run makes, or all calls from it on, or a window, or one node) throws or yields NaN/inf; the solve must end within a bounded number of evaluations, a success must come with a finite trajectory, figures and multipliers, failing trial points must only shorten the step, and the same object must afterwards solve the healthy problem bit for bit like a fresh one; a case is non-trivial when the fault was actually delivered";

static const FaultKind kinds[] = {F_THROW, F_NAN_COST, F_NAN_X, F_NAN_G, F_NAN_DIFF, F_INF_COST};
static const char* fname(FaultKind f) { static const char* n[] = {"none", "exception", "NaN cost", "NaN dynamics", "NaN constraint", "NaN derivative", "infinite cost", "foreign exception"}; return n[f]; }
static Spec problem(Rng& R, Kind k) { Gen g = genFor(pickCls(R), k != SQP && R.b(0.8)); g.maxT = 5; g.nl = R.u(0.3, 1.5); return genSpec(R, g); }
static Cfg config(Rng& R, Kind k) { Cfg g = genCfg(R, k, 1e-7, 1e-1); g.maxiter = R.i(1, 8); if (k == CSQP) g.max_qp = std::min(g.max_qp, 300); g.remove_reg = k == CSQP && R.b(0.1); return g; }
// more evaluations than any sequence of the solver's rules can ask for
static long bound(const Spec& s, const Cfg& g) {
  int na = g.alphas.empty() ? 10 : int(g.alphas.size()); double r0 = std::min(g.rmin, std::isnan(g.reginit) ? g.rmin : std::max(g.reginit, g.rmin));
  long retries = long(std::log(g.rmax / r0) / std::log(g.finc)) + 4; return long(s.T + 1) * (g.maxiter + 2) * (na + 3 + 2 * retries) + 4 * (s.T + 1);
}
static bool fin(double v) { return std::isfinite(v); }
// what a success has to come with
static void success(Ctx& c, Kind k, const Spec& s, const Cfg& g, const Snap& n, bool ret, const std::string& d) {
  if (!ret) return; c.add("successes_after_a_fault");
  if (!finite(n.xs) || !finite(n.us)) { c.fail("trajectory", "success with a trajectory that is not finite [%s]", d.c_str()); return; }
  if (!fin(n.cost) || !fin(n.gap) || !fin(n.KKT) || (k != SQP && !fin(n.con)) || !fin(n.xg) || !fin(n.ug)) { c.fail("figures", "success with cost %g, gap %g, constraint %g, KKT %g (x %g, u %g) [%s]", n.cost, n.gap, n.con, n.KKT, n.xg, n.ug, d.c_str()); return; }
  if (!finite(n.lag) || !finite(n.y)) { c.fail("multipliers", "success with multipliers that are not finite [%s]", d.c_str()); return; }
  (void)g; (void)s;
}
static std::vector<double> alphasOf(const Cfg& g) { if (!g.alphas.empty()) return g.alphas; std::vector<double> a; for (int i = 0; i < 10; ++i) a.push_back(std::pow(0.5, i)); return a; }
static bool bitSame(const VV& a, const VV& b) { return a.size() == b.size() && hashVec(a) == hashVec(b); }

// the same object afterwards
static void recovery(Ctx& c, Kind k, const Spec& s, Cfg g, Run& r, const VV& x, const VV& u, const std::string& d) {
  r.sol.prob.mon->fault = nullptr; r.sol.prob.mon->limit = -1; r.xs0 = x; r.us0 = u; r.tr.clear(); r.threw = false; r.ret = false;
  if (k == PROX) r.sol.p->forget();   // the multipliers of the last QP are a documented warm start
  auto f = runSolve(k, s, g, x, u);
  try { go(r); } catch (OtherFault&) { c.fail("recovery", "foreign exception without a fault"); return; }
  c.add("recoveries");
  const Snap &a = r.end, &b = f->end;
  if (r.threw != f->threw || r.ret != f->ret) { c.fail("recovery", "after a model failure the healthy problem %s, a fresh solver %s (%s) [%s]", r.threw ? "throws" : r.ret ? "is solved" : "is not solved", f->threw ? "throws" : f->ret ? "solves it" : "does not", r.what.c_str(), d.c_str()); return; }
  if (f->threw) return;
  if (!bitSame(a.xs, b.xs) || !bitSame(a.us, b.us)) { c.fail("recovery", "after a model failure the healthy problem is solved differently than by a fresh solver: %g [%s]", std::max(dist(a.xs, b.xs), dist(a.us, b.us)), d.c_str()); return; }
  if (a.iter != b.iter || a.cost != b.cost || a.gap != b.gap || a.con != b.con || a.KKT != b.KKT || a.preg != b.preg || !bitSame(a.lag, b.lag) || !bitSame(a.y, b.y)) { c.fail("recovery", "after a model failure the figures differ from a fresh solver's: iter %d/%d cost %.17g/%.17g gap %g/%g constraint %g/%g KKT %.17g/%.17g reg %g/%g lag %g y %g [%s]", a.iter, b.iter, a.cost, b.cost, a.gap, b.gap, a.con, b.con, a.KKT, b.KKT, a.preg, b.preg, dist(a.lag, b.lag), dist(a.y, b.y), d.c_str()); return; }
}
static void anyFault(Ctx& c, Kind k) {
  Rng R = c.rng(); Spec s = problem(R, k); Cfg g = config(R, k); VV x = randXs(R, s, R.u(0.1, 1.5)), u = randUs(R, s, R.u(0.1, 1.5));
  bool cold = k != CSQP || R.b(0.6); if (k == CSQP && cold) { g.reset_y = true; g.eqguess = true; }
  Prob hp = makeProb(s); auto h = runSolve(k, hp, g, x, u); if (h->threw) return; long N = hp.mon->total(); if (N < 1) return;
  long at = R.i(0, int(N) - 1); if (R.b(0.3)) at = R.i(0, std::min<long>(N - 1, 3 * (s.T + 1)));
  FaultKind f = kinds[R.i(0, 5)]; if (R.b(0.05)) f = F_THROW_OTHER; int mode = R.i(0, 4); long len = R.i(2, 3 * (s.T + 1)); int node = R.i(0, s.T);
  Prob p = makeProb(s); auto r = std::make_shared<Run>(); r->sol = Sol(k, p); r->sol.configure(g); r->xs0 = x; r->us0 = u;
  long B = bound(s, g); p.mon->limit = 3 * B + 100;
  p.mon->fault = [=](int t, bool, long i) { bool on = mode == 0 || mode == 4 ? i == at : mode == 1 ? i >= at : mode == 2 ? i >= at && i < at + len : i >= at && t == node; return on ? f : F_NONE; };
  static const char* mname[] = {"once at", "always from", "for a while from", "at one node from", "once at"};
  std::string d = fmt("%s %s call %ld of %ld; ", fname(f), mname[mode], at, N) + describe(k, s, g);
  bool other = false, inDir = false; long dirFails = 0; Hooks hk; hk.dirBegin = [&] { inDir = false; }; hk.dirEnd = [&](bool t) { inDir = t; dirFails += t; }; hk.step = [&](double) { inDir = false; };
  r->sol.hook(&hk); r->sol.configure(g);
  try { go(*r); } catch (OtherFault&) { other = true; r->end = r->sol.snap(); }
  long del = p.mon->nfault; c.add("faults_delivered", del); if (del) c.mark(mix(hashVec(r->end.xs), at * 8 + f)); if (!del) return;
  if (other) c.add("foreign_exceptions_out"); if (r->threw) c.add("exceptions_out"); c.add(r->ret ? "solved_despite_fault" : "unsolved");
  if (other && f != F_THROW_OTHER) c.fail("exception", "foreign exception came out [%s]", d.c_str());
  c.add("direction_computations_failed", dirFails);
  if (r->threw && f != F_THROW_OTHER && inDir && !(k == CSQP && g.remove_reg)) { c.fail("exception", "a failure during a direction computation came out of the solve: %s [%s]", r->what.c_str(), d.c_str()); return; }
  hk = Hooks();
  // NaN never leaves a solve as an exception of its own making unless the solver has been told not to regularize
  c.mx("evaluations_over_bound", double(p.mon->total()) / B); if (p.mon->total() > B) c.fail("bound", "%ld evaluations, at most %ld can be needed [%s]", p.mon->total(), B, d.c_str());
  if (!r->threw && !other) success(c, k, s, g, r->end, r->ret, d);
  if (c.failed()) return;
  if (cold) recovery(c, k, s, g, *r, x, u, d);
  else {
    // warm start: the retained multipliers must be usable
    p.mon->fault = nullptr; r->tr.clear(); r->threw = false; go(*r); c.add("warm_restarts");
    if (h->ret && !r->ret && (r->threw || !finite(r->end.xs) || !finite(r->end.dx) || !finite(r->end.y))) c.fail("recovery", "after a model failure the warm-started solver cannot solve the healthy problem anymore: %s directions %s multipliers %s [%s]", r->what.c_str(), finite(r->end.dx) ? "finite" : "not finite", finite(r->end.y) ? "finite" : "not finite", d.c_str());
    else success(c, k, s, g, r->end, r->ret, d);
  }
  c.sample = d + (r->ret ? " -> solved" : " -> not solved");
}
static void f_sqp(Ctx& c) { anyFault(c, SQP); }
static void f_csqp(Ctx& c) { anyFault(c, CSQP); }
static void f_prox(Ctx& c) { anyFault(c, PROX); }

// the j-th trial of iteration i fails, once
static void trial(Ctx& c, Kind k) {
  Rng R = c.rng(); Spec s = problem(R, k); Cfg g = config(R, k); g.maxiter = R.i(2, 6); g.remove_reg = false; g.tol = 1e-12; VV x = randXs(R, s, 1), u = randUs(R, s, 1);
  auto h = runSolve(k, s, g, x, u); if (h->threw || h->tr.size() < 2) return; std::vector<double> al = alphasOf(g);
  int i = R.i(0, int(h->tr.size()) - 2); double st = h->tr[i + 1].step; int acc = -1; for (size_t q = 0; q < al.size(); ++q) if (al[q] == st) acc = int(q);
  bool hm = !bitSame(h->tr[i].xs, h->tr[i + 1].xs) || !bitSame(h->tr[i].us, h->tr[i + 1].us); if (acc < 0 || !hm) return;
  for (int q = 0; q <= i; ++q) { const Snap& n = h->tr[q]; if (!finite(n.xs) || !finite(n.dx)) return; }
  int j = R.b(0.7) ? acc : R.i(0, acc), node = R.i(0, s.T); FaultKind f = R.pick({F_THROW, F_NAN_COST, F_NAN_X, F_NAN_G, F_INF_COST});
  if (f == F_NAN_X && node == s.T) f = F_NAN_COST; if (f == F_NAN_G && k == SQP && s.nodes[node].ng) f = F_NAN_COST;
  Prob p = makeProb(s); auto mon = p.mon; long nd = 0, nc = 0; bool done = false; long T1 = s.T + 1;
  // a failed direction repeats no evaluation, so iteration i ends after (i+1) derivative passes
  auto st8 = std::make_shared<std::array<long, 3>>(); (*st8) = {0, 0, 0}; (void)nd; (void)nc; (void)done;
  p.mon->fault = [=](int t, bool diff, long) { auto& a = *st8; if (diff) { a[0]++; a[1] = 0; return F_NONE; } long pass = a[1] / T1; a[1]++; if (!a[2] && a[0] == (i + 1) * T1 && pass == j && t == node) { a[2] = 1; return f; } return F_NONE; };
  auto r = runSolve(k, p, g, x, u); std::string d = fmt("%s at node %d of trial %d (step %g) of iteration %d; ", fname(f), node, j, al[j], i) + describe(k, s, g);
  if (!(*st8)[2]) { c.add("trial_not_reached"); return; }
  c.add("trial_faults"); c.mark(mix(hashVec(r->end.xs), i * 100 + j));
  if (r->threw) { c.fail("trial", "a failing trial point makes solve() throw: %s [%s]", r->what.c_str(), d.c_str()); return; }
  for (int q = 0; q <= i; ++q) if (q >= int(r->tr.size()) || !bitSame(r->tr[q].xs, h->tr[q].xs)) { c.fail("trial", "iterate %d before the fault differs [%s]", q, d.c_str()); return; }
  VV ex = r->end.xs, eu = r->end.us; if (int(r->tr.size()) > i + 1) { ex = r->tr[i + 1].xs; eu = r->tr[i + 1].us; }
  if (j < acc) { // it would have been rejected anyway
    if (!bitSame(r->end.xs, h->end.xs) || !bitSame(r->end.us, h->end.us) || r->end.iter != h->end.iter || r->ret != h->ret) c.fail("trial", "a trial that is rejected anyway changes the result by failing: %g [%s]", dist(r->end.xs, h->end.xs), d.c_str());
    c.add("failed_instead_of_rejected"); return;
  }
  bool moved = !bitSame(ex, r->tr[i].xs) || !bitSame(eu, r->tr[i].us);
  if (!moved) { c.add("no_step_left"); return; }
  double a = inferStep(s, r->tr[i].xs, r->tr[i].us, r->tr[i].dx, r->tr[i].du, ex, eu, al);
  if (mag(r->tr[i].dx) + mag(r->tr[i].du) < 1e-9 * (1 + mag(ex) + mag(eu))) return;
  if (!(a < al[j])) c.fail("trial", "after the failing trial the iterate moved by step %g [%s]", a, d.c_str());
  if (int(r->tr.size()) <= i + 1 && i + 1 < g.maxiter && !r->ret && r->end.preg < g.rmax) { c.fail("trial", "the solve stopped after a failing trial although a shorter step was accepted [%s]", d.c_str()); }
  c.add("shortened_by_fault"); c.sample = d + fmt(" -> step %g", a);
}
static void f_trial_sqp(Ctx& c) { trial(c, SQP); }
static void f_trial_csqp(Ctx& c) { trial(c, CSQP); }
const std::vector<Scenario> kScenarios = {{"any_call_csqp", f_csqp, 28000, 300000}, {"any_call_sqp", f_sqp, 24000, 250000}, {"any_call_proxqp", f_prox, 10000, 80000}, {"trial_sqp", f_trial_sqp, 14000, 120000}, {"trial_csqp", f_trial_csqp, 14000, 120000}};
}  // namespace H
