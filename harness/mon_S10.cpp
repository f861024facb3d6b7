// S10: the CSQP time budget, with a virtual clock that advances with the work done.
#include <chrono>
#include <ctime>
#include "common.hpp"

namespace {
bool g_virtual = false; double g_now = 0; long double g_sub = 0; long g_reads = 0;
}
// every clock the library could read
namespace crocoddyl {
long double Stopwatch::take_time() { if (g_virtual) { ++g_reads; return g_now + g_sub; } struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9L * ts.tv_nsec; }
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { if (g_virtual) { ++g_reads; return time_point(duration(static_cast<long long>(g_now * 1e9))); } struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }
system_clock::time_point system_clock::now() noexcept { if (g_virtual) { ++g_reads; return time_point(duration(static_cast<long long>(g_now * 1e9))); } struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }
} } }

namespace H {
const char* kProperty = "S10";
const char* kRule = "a virtual clock advances with model evaluations and QP iterations and is put at, before and after chosen instants of a solve (all kinds: before the first iteration, inside the derivative pass, between QP iterations, inside the line search, after the last iteration); every QP iteration and outer iteration begun is checked against the budget, the partial direction against a solver limited to as many QP iterations, everything else bit for bit against the solve without a budget; a case is non-trivial when the budget ran out during the solve";

static const double TQP = 1, TCALL = 1. / 64, TEQ = 1. / 16;
struct Iter { int attempts = 0, qp = 0; };
// the solver under test with its virtual steps reported
struct TimedCSQP : public mim_solvers::SolverCSQP {
  explicit TimedCSQP(std::shared_ptr<crocoddyl::ShootingProblem> p) : mim_solvers::SolverCSQP(p) {}
  double budget = INF, t0 = 0; std::vector<Iter> its; std::vector<double> marks; long lateOuter = 0, lateQP = 0; double lateBy = 0; int maxit = 0;
  double el() const { return g_now - t0; }
  bool first = false; void begin() { first = false; its.clear(); marks.clear(); lateOuter = lateQP = 0; lateBy = 0; t0 = g_now; }
  void mark() { if (marks.size() < 4000) marks.push_back(el()); }
  void calc(const bool r) override { bool pre = maxit == 0 && !first; first = true; if (!pre) { if (el() >= budget) { ++lateOuter; lateBy = el() - budget; } its.push_back(Iter()); } mark(); mim_solvers::SolverCSQP::calc(r); mark(); }
  void computeDirection(const bool r) override { if (its.size()) { its.back().attempts++; its.back().qp = 0; } mim_solvers::SolverCSQP::computeDirection(r); mark(); }
  void forwardPass(const double s) override { if (el() >= budget) { ++lateQP; lateBy = el() - budget; } if (its.size()) its.back().qp++; mark(); g_now += TQP; mim_solvers::SolverCSQP::forwardPass(s); }
  void forwardPass_without_constraints() override { g_now += TEQ; mim_solvers::SolverCSQP::forwardPass_without_constraints(); }
  double tryStep(const double s) override { mark(); return mim_solvers::SolverCSQP::tryStep(s); }
};
static TimedCSQP* T_(const Run& r) { return static_cast<TimedCSQP*>(r.sol.c.get()); }
static std::shared_ptr<Run> make(const Spec& s, const Cfg& g, const VV& x, const VV& u) {
  auto r = std::make_shared<Run>(); Prob p = makeProb(s); r->sol.kind = CSQP; r->sol.prob = p; r->sol.c = std::make_shared<TimedCSQP>(p.problem); r->sol.configure(g); r->xs0 = x; r->us0 = u; p.mon->limit = 4000000; p.mon->on_call = [](int, bool) { g_now += TCALL; }; T_(*r)->maxit = g.maxiter; return r;
}
static void timed(Run& r, double budget, double base) {
  auto* q = T_(r); q->set_max_solve_time(budget); q->budget = budget; g_now = base; q->begin(); r.tr.clear(); r.ret = r.threw = false; r.what.clear(); q->maxit = r.sol.cfg.maxiter; g_virtual = true; go(r); g_virtual = false;
}
static bool bs(const VV& a, const VV& b) { return a.size() == b.size() && hashVec(a) == hashVec(b); }
static bool bd(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std::string diffSnap(const Snap& a, const Snap& b, bool flag) {
#define D(m) if (!bd(a.m, b.m)) return fmt(#m " %.17g vs %.17g", double(a.m), double(b.m))
#define W(m) if (!bs(a.m, b.m)) return fmt(#m " by %g", dist(a.m, b.m))
  W(xs); W(us); D(iter); D(cost); D(gap); D(con); W(fs); D(qp_iters); W(dx); W(du); W(dxt); W(dut); W(lag); W(y); W(z); W(rho); D(KKT); D(merit); D(preg); D(dreg); D(np); D(nd); D(rho_sparse);
  if (flag && a.timeout != b.timeout) return "time-out flag"; if (a.type != b.type) return "type";
  return "";
#undef D
#undef W
}
static std::string diffRun(const Run& a, const Run& b, size_t n, bool whole) {
  for (size_t i = 0; i < n; ++i) { std::string w = diffSnap(a.tr[i], b.tr[i], true); if (!w.empty()) return fmt("iteration %zu: ", i) + w; }
  if (!whole) return ""; if (a.tr.size() != b.tr.size()) return "number of iterations"; if (a.ret != b.ret || a.threw != b.threw) return "outcome"; if (!bs(a.end.xs, b.end.xs) || !bs(a.end.us, b.end.us)) return "trajectory"; if (a.end.iter != b.end.iter) return "iteration count"; if (!bd(a.end.cost, b.end.cost) || !bd(a.end.KKT, b.end.KKT)) return "cost or KKT"; if (a.end.timeout != b.end.timeout) return "time-out flag";
  return "";
}
static void judge(Ctx& c, const Spec& s, const Cfg& g, const VV& x, const VV& u, Run& r, Run& base, double budget, double off, const std::string& d) {
  TimedCSQP* q = T_(r); int na = int(g.alphas.size()); bool flag = r.end.timeout; double el = q->el(); c.add("budgets_tried"); c.add("qp_iterations_checked_against_deadline", [&] { double n = 0; for (auto& i : q->its) n += i.qp; return n; }());
  if (q->lateQP) { c.fail("late_qp", "%ld QP iterations begun when the budget %.17g had run out (latest %g after) [%s]", q->lateQP, budget, q->lateBy, d.c_str()); return; }
  if (q->lateOuter) { c.fail("late_iteration", "%ld outer iterations begun when the budget %.17g had run out (latest %g after) [%s]", q->lateOuter, budget, q->lateBy, d.c_str()); return; }
  if (flag && el < budget) { c.fail("flag", "time-out reported after %g of %g [%s]", el, budget, d.c_str()); return; }
  if (!finite(r.end.xs) || !finite(r.end.us)) { if (finite(base.end.xs)) c.fail("finite", "trajectory not finite after the time-out [%s]", d.c_str()); return; }
  if (!flag) {
    c.add("finished_in_time"); std::string w = diffRun(r, base, std::min(r.tr.size(), base.tr.size()), true);
    if (!w.empty()) c.fail("unbudgeted", "no time-out is reported but the solve differs from that without budget: %s [%s]", w.c_str(), d.c_str());
    return;
  }
  c.add("timeouts"); c.mark(mix(hashVec(r.end.xs), uint64_t(budget * 64)));
  if (r.threw) return;
  size_t m = r.tr.size(), full = m; bool partial = m && r.tr.back().timeout;
  if (partial) --full; if (full > base.tr.size()) { c.fail("iterations", "%zu full iterations, %zu without a budget [%s]", full, base.tr.size(), d.c_str()); return; }
  std::string w = diffRun(r, base, full, false); if (!w.empty()) { c.fail("before", "before the deadline: %s [%s]", w.c_str(), d.c_str()); return; }
  if (r.ret && !(m && r.tr.back().KKT <= g.tol)) { c.fail("success", "success after the time-out although KKT is %g, tolerance %g [%s]", m ? r.tr.back().KKT : -1., g.tol, d.c_str()); return; }
  if (!r.ret && m && r.tr.back().KKT <= g.tol) { c.fail("success", "no success although KKT %g is within the tolerance [%s]", r.tr.back().KKT, d.c_str()); return; }
  double after = (el - budget) / TCALL; c.mx("evaluations_after_the_deadline_over_allowed", after / ((na + 2.) * (s.T + 1) + TQP / TCALL + TEQ / TCALL));
  if (after > (na + 2.) * (s.T + 1) + (TQP + 2 * TEQ) / TCALL) { c.fail("prompt", "work worth %g evaluations after the deadline [%s]", after, d.c_str()); return; }
  if (!partial) {
    c.add("timeouts_without_partial_direction");
    const VV* X; const VV* U; Snap st; if (full == 0 && base.tr.size() == 0) return;
    if (full < base.tr.size() && base.tr[full].iter <= g.maxiter) { X = &base.tr[full].xs; U = &base.tr[full].us; } else { X = &base.end.xs; U = &base.end.us; }
    if (!bs(r.end.xs, *X) || !bs(r.end.us, *U)) c.fail("iterate", "without a started direction the result is not the last iterate: %g [%s]", std::max(dist(r.end.xs, *X), dist(r.end.us, *U)), d.c_str());
    return;
  }
  c.add("timeouts_with_partial_direction"); const Iter& it = q->its.back(); const Snap& p = r.tr.back();
  if (it.attempts > 1) { c.add("retried_directions"); return; }
  if (p.qp_iters != it.qp) { c.fail("qp_iters", "%g QP iterations reported, %d executed [%s]", p.qp_iters, it.qp, d.c_str()); return; }
  if (p.qp_iters < 1) { c.fail("qp_iters", "step taken along a direction without a QP iteration [%s]", d.c_str()); return; }
  // a solver whose QP may take just as many iterations
  bool ex = g.extra && m >= 1 && (int(m) > g.maxiter || (m >= 2 && bs(r.tr[m - 1].xs, r.tr[m - 2].xs) && bs(r.tr[m - 1].us, r.tr[m - 2].us))); if (ex) c.add("timeouts_in_the_final_extra_iteration");
  Cfg h = g; if (!ex) { h.maxiter = int(m); h.extra = false; } auto ref = make(s, h, x, u); T_(*ref)->set_max_solve_time(INF);
  if (full == 0) ref->sol.c->set_max_qp_iters(int(p.qp_iters));
  auto rec = std::make_shared<Recorder>(&ref->sol, &ref->tr); auto* rp = ref.get(); rec->hook = [=](Snap&) { if (rp->tr.size() + 1 == full) rp->sol.c->set_max_qp_iters(int(p.qp_iters)); };
  std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> v{rec}; ref->sol.c->setCallbacks(v); g_now = off; g_virtual = true; try { ref->ret = ref->sol.solve(x, u); } catch (std::exception&) { ref->threw = true; } g_virtual = false; v.clear(); ref->sol.c->setCallbacks(v); ref->end = ref->sol.snap();
  if (ref->threw || ref->tr.size() != m) { c.fail("partial", "the solver limited to %g QP iterations makes %zu iterations instead of %zu [%s]", p.qp_iters, ref->tr.size(), m, d.c_str()); return; }
  w = diffSnap(p, ref->tr.back(), false); if (!w.empty()) { c.fail("partial", "the partial direction is not that of %g QP iterations: %s [%s]", p.qp_iters, w.c_str(), d.c_str()); return; }
  c.add("partial_directions_compared");
  if (!bs(r.end.xs, ref->end.xs) || !bs(r.end.us, ref->end.us) || r.ret != ref->ret) { c.fail("step", "the step along the partial direction differs: %g [%s]", std::max(dist(r.end.xs, ref->end.xs), dist(r.end.us, ref->end.us)), d.c_str()); return; }
}
static void deadlines(Ctx& c, bool all) {
  Rng R = c.rng(); Gen gp = genFor(pickCls(R), R.b(0.85)); gp.maxT = all ? 3 : 5; gp.nl = R.u(0.3, 1.5); Spec s = genSpec(R, gp); Cfg g = genCfg(R, CSQP, 1e-7, 1e-1);
  g.maxiter = R.b(0.06) ? 0 : R.i(1, all ? 3 : 7); g.max_qp = R.i(1, all ? 12 : 120); if (R.b(0.5)) g.interval = R.i(1, 8); if (R.b(0.2)) g.tol = 1e-12; g.extra = R.b(0.4);
  bool cold = R.b(0.7); if (cold) { g.reset_y = true; g.eqguess = true; } if (g.alphas.empty()) { g.alphas.clear(); for (int i = 0; i < 10; ++i) g.alphas.push_back(std::pow(0.5, i)); }
  VV x = randXs(R, s, R.u(0.1, 1.5)), u = randUs(R, s, R.u(0.1, 1.5)); double off = R.pick({0, 1, 1000, 1 << 20}) + R.i(0, 63) / 64.;
  auto b = make(s, g, x, u); timed(*b, INF, off); if (b->threw) { c.add("threw"); return; } if (b->end.timeout) { c.fail("flag", "time-out reported without a budget"); return; }
  std::string ds = describe(CSQP, s, g); double E = T_(*b)->el(); std::vector<double> mk = T_(*b)->marks; mk.push_back(E); mk.push_back(0);
  std::vector<double> D; if (all) { D = mk; std::sort(D.begin(), D.end()); D.erase(std::unique(D.begin(), D.end()), D.end()); if (D.size() > 60) { for (size_t i = D.size() - 1; i; --i) std::swap(D[i], D[R.i(0, int(i))]); D.resize(60); } D.push_back(E + 1); }
  else for (int i = 0; i < 3; ++i) { double v = mk[R.i(0, int(mk.size()) - 1)]; if (R.b(0.25)) v += TCALL / 2 * (R.b() ? 1 : -1); if (R.b(0.15)) v = R.u(0, 1.1 * E); if (R.b(0.05)) v = E + 1; D.push_back(std::max(0., v)); }
  // one object for all budgets or a fresh one for each
  bool reuse = cold && R.b(); std::shared_ptr<Run> q;
  for (double v : D) {
    if (!q || !reuse) q = make(s, g, x, u); timed(*q, v, off); std::string d = fmt("budget %.17g of %.17g%s ", v, E, reuse ? " reused" : "") + ds; judge(c, s, g, x, u, *q, *b, v, off, d); c.sample = d; if (c.failed()) return;
    if (cold && R.b(0.3)) { bool fin = R.b(0.6); double bud = fin ? std::ceil(E) + 1 : INF; timed(*q, bud, off + 7 + R.i(0, 3) * (std::ceil(E) + 2)); c.add(fin ? "solves_after_a_timeout_with_an_ample_budget" : "solves_after_a_timeout"); std::string w = diffRun(*q, *b, std::min(q->tr.size(), b->tr.size()), true); if (!w.empty()) { c.fail("next", "a solve with budget %g after the time-out differs from a fresh one: %s [%s]", bud, w.c_str(), d.c_str()); return; } }
  }
}
static void f_all(Ctx& c) { deadlines(c, true); }
static void f_some(Ctx& c) { deadlines(c, false); }
// a budget of zero is spent at once, whatever the clock reads to the nanosecond
static void f_zero(Ctx& c) {
  Rng R = c.rng(); Gen gp = genFor(pickCls(R), R.b()); gp.maxT = 2; Spec s = genSpec(R, gp); Cfg g = genCfg(R, CSQP, 1e-7, 1e-1); g.maxiter = R.i(1, 3); g.max_qp = 5;
  VV x = randXs(R, s, 1), u = randUs(R, s, 1); auto r = make(s, g, x, u); g_sub = std::ldexp((long double)R.i(1, 1 << 20), -32); timed(*r, 0, 1e9 + R.i(0, 1 << 20)); long double sub = g_sub; g_sub = 0; c.add("zero_budgets"); auto* q = T_(*r);
  if (q->lateOuter || q->lateQP || !r->end.timeout || r->ret) c.fail("zero", "with a budget of zero %zu iterations are begun (time-out reported: %d) when the solve starts %.12Lg after a full second [%s]", q->its.size(), int(r->end.timeout), sub, describe(CSQP, s, g).c_str()); else c.mark(mix(hashVec(x), uint64_t(sub * 1e12)));
  c.sample = describe(CSQP, s, g);
}
const std::vector<Scenario> kScenarios = {{"zero_budget", f_zero, 6000, 20000}, {"sampled_deadlines", f_some, 27000, 200000}, {"every_deadline", f_all, 3600, 20000}};
}  // namespace H
