// S09: memory safety and independence of uninitialized memory over random
// sequences of public calls, model changes and destruction orders.
#include <malloc.h>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include "common.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/kkt.hpp"
#include "mim_solvers/utils/callbacks.hpp"
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define VALGRIND_CHECK_MEM_IS_DEFINED(a, b) 0
#define VALGRIND_COUNT_ERRORS 0
#define RUNNING_ON_VALGRIND 0
#endif
#if defined(__SANITIZE_ADDRESS__)
#define ASAN
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN
#endif
#endif
static const bool VG = [] { return RUNNING_ON_VALGRIND && !getenv("S09_SAME_AS_NATIVE"); }();
namespace H {
const char* kProperty = "S09";
const char* kRule = "random programs over the public interface of all six solvers (construction, settings, solves from good, empty and own guesses, single steps, queries, callbacks, model replacement and rotation with other dimensions, destruction in random order) run under AddressSanitizer + UBSan with Eigen assertions, under valgrind memcheck, and twice with differently poisoned heaps whose results must be bit-identical; a case is non-trivial when at least one solve completed after a model change, a callback or another solve";

static const char* nm(int w) { static const char* n[] = {"SQP", "CSQP", "PROXQP", "DDP", "FDDP", "KKT"}; return n[w]; }
struct Null : std::streambuf { int overflow(int c) override { return c; } };
struct Quiet { Null n; std::streambuf *a, *b; Quiet() { a = std::cout.rdbuf(&n); b = std::cerr.rdbuf(&n); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };

struct Play {
  Ctx& c; Rng R; int w; uint64_t h = 1469598103934665603ull; std::string log; long solves = 0, after = 0, undef = 0; bool changed = false, stale = false;
  Prob p; Sol sol; std::shared_ptr<mim_solvers::SolverDDP> d; std::shared_ptr<mim_solvers::SolverKKT> q; std::vector<std::shared_ptr<Spec>> specs; std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>> extra; std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> cbs; std::vector<Snap> trace; Gen g; Cfg f;
  Play(Ctx& c_) : c(c_), R(c_.rng()), w(R.b(0.75) ? R.i(0, 2) : R.i(3, 5)) {}
  crocoddyl::SolverAbstract* a() { return w < 3 ? (crocoddyl::SolverAbstract*)sol.base() : w == 5 ? (crocoddyl::SolverAbstract*)q.get() : d.get(); }
  mim_solvers::SolverDDP* dd() { return w < 3 ? sol.base() : w == 5 ? nullptr : d.get(); }
  void say(const std::string& s) { if (c.verbose) fprintf(stderr, "  %s\n", s.c_str()); log += (log.empty() ? "" : "; ") + s; }
  void bytes(const void* x, size_t n) { if (!n) return; if (VG && VALGRIND_CHECK_MEM_IS_DEFINED(x, n)) ++undef; h = hashBytes(h, x, n); }
  void tag(const char* n) { if (c.verbose) fprintf(stderr, "   %s %016llx\n", n, (unsigned long long)h); }
  void num(double v) { bytes(&v, 8); }
  void vec(const VV& v) { size_t n = v.size(); h = hashBytes(h, &n, 8); for (auto& x : v) { n = x.size(); h = hashBytes(h, &n, 8); bytes(x.data(), 8 * x.size()); } }
  void snap(bool full) {
    if (w >= 3) { auto* s = a(); vec(s->get_xs()); vec(s->get_us()); if (full) { num(s->get_cost()); vec(s->get_fs()); num(double(s->get_iter())); num(s->get_steplength()); num(s->get_preg()); num(s->get_dreg()); } if (full && w < 5) { vec(dd()->get_Vx()); vec(dd()->get_k()); for (auto& K : dd()->get_K()) { M m = K; bytes(m.data(), 8 * m.size()); } for (auto& K : dd()->get_Vxx()) bytes(K.data(), 8 * K.size()); } if (w == 5) { vec(q->get_dxs()); vec(q->get_dus()); vec(q->get_lambdas()); } return; }
    Snap n = sol.snap(); tag("snap"); vec(n.xs); vec(n.us); tag("xu"); for (double v : {n.preg, n.dreg, double(n.iter)}) num(v);
    if (full) { for (double v : {n.cost, n.gap, n.con, n.merit, n.KKT, n.xg, n.ug, n.step, n.np, n.nd, n.tp, n.td, n.qp_iters, n.rho_sparse}) { num(v); tag(fmt("num %.17g", v).c_str()); } vec(n.fs); vec(n.dx); vec(n.du); tag("dxdu"); vec(n.lag); vec(n.y); tag("lag/y"); if (w < 2) { vec(n.Vx); vec(n.k); for (auto& m : n.K) bytes(m.data(), 8 * m.size()); for (auto& m : n.Vxx) bytes(m.data(), 8 * m.size()); } if (w == 1) { vec(n.z); vec(n.zprev); vec(n.zrel); vec(n.rho); vec(n.irho); vec(n.dxt); vec(n.dut); } if (w == 2) { M P, A, C; V qq, b, l, u; sol.p->qp(P, A, C, qq, b, l, u); for (M* m : {&P, &A, &C}) bytes(m->data(), 8 * m->size()); for (V* m : {&qq, &b, &l, &u}) bytes(m->data(), 8 * m->size()); } }
  }
  VV gx(double e) { VV x; auto ms = p.problem->get_runningModels(); V z = V::Zero(p.state->get_ndx()), o(p.state->get_nx()); for (size_t t = 0; t <= ms.size(); ++t) { z = R.vec(int(z.size()), e); p.state->integrate(p.state->zero(), z, o); x.push_back(o); } return x; }
  VV gu(double e) { VV u; for (auto& m : p.problem->get_runningModels()) u.push_back(R.vec(int(m->get_nu()), e)); return u; }
  void create() {
    Cls cl = R.b(0.15) ? FAIL : pickCls(R); g = genFor(cl, w == 1 || w == 2 || R.b(0.3)); if (w == 5) { g.manifold = R.b(0.2); } g.p_nu0 = R.pick({0., 0.12, 0.5}); g.p_ng0 = R.pick({0., 0.3, 0.8}); if (VG) g.maxT = 4;
    Spec s = genSpec(R, g); f = genCfg(R, Kind(std::min(w, 2))); f.maxiter = R.i(0, 6); f.max_qp = w == 2 ? R.i(3, 12) : R.i(1, 60); g.n = s.n; g.T = s.T; p = makeProb(s); p.state->circ = s.circ; specs.push_back(p.spec);
    if (w < 3) { sol = Sol(Kind(w), p); sol.configure(f); } else if (w == 3) d = std::make_shared<mim_solvers::SolverDDP>(p.problem); else if (w == 4) d = std::make_shared<mim_solvers::SolverFDDP>(p.problem); else q = std::make_shared<mim_solvers::SolverKKT>(p.problem);
    p.mon->limit = 200000; say(std::string(nm(w)) + " " + shape(s));
  }
  std::shared_ptr<HModel> model(bool terminal) {
    auto s = std::make_shared<Spec>(genSpec(R, g)); s->circ = p.spec->circ; s->x0 = p.spec->x0; specs.push_back(s); int t = terminal ? s->T : R.i(0, s->T - 1); return std::make_shared<HModel>(p.state, s, t, p.mon.get());
  }
  void solve() {
    VV x, u; double e = R.u(0.1, 2); int k = R.i(0, 9); if (k < 6) { x = gx(e); u = gu(e); } else if (k < 7) { x = gx(e); } else if (k < 8) u = gu(e); int mi = R.b(0.15) ? 0 : R.i(1, 6); bool thr = false, ret = false; bool feas = w >= 3 && R.b(0.2); double rg = R.b(0.2) ? R.lu(1e-9, 1e-2) : std::nan("");
    stale = false; if (k == 8) { say("solve from own trajectory"); try { ret = a()->solve(a()->get_xs(), a()->get_us(), mi, feas, rg); } catch (Monitor::TooMany&) { thr = true; } catch (std::exception&) { thr = true; } }
    else { say(fmt("solve(%d)", mi)); try { ret = a()->solve(x, u, mi, feas, rg); } catch (Monitor::TooMany&) { thr = true; } catch (std::exception&) { thr = true; } }
    h = h * 31 + ret + 2 * thr; if (thr) { say("threw"); c.add("solves_threw"); } else { ++solves; if (changed) { ++after; } changed = true; c.add("solves"); } snap(!thr && mi > 0);
  }
  // what solve does first; calling the parts directly is only defined after it
  void fresh() { if (stale) { say("resizeData"); a()->resizeData(); stale = false; } }
  void op() {
    int k = R.i(0, 19); auto ms = p.problem->get_runningModels(); int T = int(ms.size());
    if (k < 7) solve();
    else if (k == 7 || k == 8) { int t = R.b(0.25) ? T : R.i(0, T - 1); auto m = model(t == T); say(fmt("replace node %d by nu=%d ng=%d", t, int(m->get_nu()), int(m->get_ng()))); if (R.b()) p.problem->updateModel(t, m); else p.problem->updateNode(t, m, m->createData()); stale = true; if (R.b(0.8)) { changed = true; c.add("replacements"); solve(); } }
    else if (k == 9 || k == 10) { auto m = model(false); say(fmt("append node nu=%d ng=%d", int(m->get_nu()), int(m->get_ng()))); if (R.b(0.3)) { auto m0 = ms[0]; auto d0 = p.problem->get_runningDatas()[0]; p.problem->circularAppend(m0, d0); say("(rotation)"); } else if (R.b()) p.problem->circularAppend(m); else p.problem->circularAppend(m, m->createData()); stale = true; changed = true; c.add("rotations"); if (R.b(0.8)) solve(); }
    else if (k == 11 && w < 5) { cbs.clear(); int n = R.i(0, 3); for (int i = 0; i < n; ++i) { if (R.b(0.6)) cbs.push_back(std::make_shared<mim_solvers::CallbackVerbose>(R.i(0, 12))); else if (w < 2) { if (trace.size() > 50) trace.clear(); cbs.push_back(std::make_shared<Recorder>(&sol, &trace)); } } dd()->setCallbacks(cbs); say(fmt("%d callbacks", int(cbs.size()))); changed = true; if (R.b(0.3)) { cbs.clear(); say("dropped"); } }
    else if (k == 12) { V x0 = gx(1)[0]; p.problem->set_x0(x0); say("x0"); }
    else if (k == 13 && w < 3) { Cfg o = genCfg(R, Kind(w)); o.max_qp = f.max_qp; o.maxiter = f.maxiter; sol.configure(o); say("configure"); if (w == 1) { sol.c->setQPCallbacks(R.b(0.3)); sol.c->set_max_solve_time(R.b(0.2) ? -1. : INF); } if (w == 2) sol.p->verbose(R.b(0.3)); }
    else if (k == 14) { say("queries"); fresh(); try { a()->stoppingCriteria(); } catch (std::exception&) {} if (solves) try { a()->expectedImprovement(); } catch (std::exception&) {} if (w < 5) dd()->get_alphas(); snap(false); try { a()->computeDynamicFeasibility(); a()->computeInequalityFeasibility(); a()->computeEqualityFeasibility(); } catch (std::exception&) {} }
    else if (k == 15) { say("single step"); fresh(); try { if (w == 1) sol.c->calc(true); a()->computeDirection(true); a()->tryStep(R.pick({1., 0.5, 0.})); } catch (Monitor::TooMany&) {} catch (std::exception&) {} }
    else if (k == 16) { say("guess only"); fresh(); try { a()->setCandidate(gx(1), gu(1), false); } catch (std::exception&) {} }
    else if (k == 17 && w < 3) { say("filter size"); size_t n = R.i(1, 8); if (w == 0) sol.s->set_filter_size(n); else if (w == 1) sol.c->set_filter_size(n); else sol.p->set_filter_size(n); }
    else if (k == 18) { say("wrong guess"); VV x = gx(1), u = gu(1); if (R.b()) x.pop_back(); else if (R.b()) u.push_back(V::Zero(1)); else x[0] = V::Zero(x[0].size() + 1); try { a()->solve(x, u, 2); } catch (Monitor::TooMany&) {} catch (std::exception&) {} }
    else if (k == 19 && w == 1) { say("parts"); fresh(); auto& s = *sol.c; try { s.calc(true); s.reset_params(); s.reset_rho_vec(); s.backwardPass(); s.forwardPass(); s.update_lagrangian_parameters(1); if (R.b()) s.checkQPSolution(); s.backwardPass_without_rho_update(); s.forwardPass(); s.update_rho_vec(R.i(1, 50)); s.backwardPass_without_constraints(); s.forwardPass_without_constraints(); s.checkKKTConditions(); s.computeMerit(); } catch (Monitor::TooMany&) {} catch (std::exception&) {} }
    p.mon->limit = p.mon->total() + 200000;
  }
  // everything goes away in random order; what is left is used once more
  void destroy() {
    std::vector<int> order{0, 1, 2, 3}; for (int i = 3; i > 0; --i) std::swap(order[i], order[R.i(0, i)]); std::string o; bool haveSolver = true, haveHandle = true;
    for (int k : order) { o += "sPcm"[k]; switch (k) {
      case 0: sol.s.reset(); sol.c.reset(); sol.p.reset(); d.reset(); q.reset(); haveSolver = false; break;
      case 1: sol.prob.problem.reset(); p.problem.reset(); haveHandle = false; break;
      case 2: cbs.clear(); break;
      default: p.models.clear(); sol.prob.models.clear(); p.state.reset(); sol.prob.state.reset(); extra.clear(); }
      if (haveSolver && R.b(0.6) && p.state == nullptr) { try { VV e; a()->solve(e, e, 1); c.add("solves_after_release"); } catch (Monitor::TooMany&) {} catch (std::exception&) {} }
      if (haveSolver && !haveHandle && R.b(0.3)) { auto pr = a()->get_problem(); try { VV e; a()->solve(e, e, 1); c.add("solves_after_release"); } catch (Monitor::TooMany&) {} catch (std::exception&) {} } }
    say("destroy " + o);
  }
  void run() { Quiet qt; create(); int n = R.i(2, VG ? 5 : 9); for (int i = 0; i < n; ++i) op(); destroy(); }
};

static void program(Ctx& c) {
  // progress marker for attributing sanitizer reports (the process ends there)
  fprintf(stderr, "CASE %s %ld\n", c.scen.c_str(), c.id); fflush(stderr);
  long e0 = VALGRIND_COUNT_ERRORS; uint64_t h1, h2; std::string log;
#ifdef ASAN
  { Play p(c); p.run(); h1 = h2 = p.h; log = p.log; if (p.after) c.mark(p.h); }
#else
  if (VG) { Play p(c); p.run(); h1 = h2 = p.h; log = p.log; if (p.after) c.mark(p.h); if (p.undef) c.fail("undefined_result", "%ld reported values depend on uninitialized memory [%s]", p.undef, log.c_str()); if (long(VALGRIND_COUNT_ERRORS) > e0 && !c.failed()) c.fail("memcheck", "memcheck reports %ld errors [%s]", long(VALGRIND_COUNT_ERRORS) - e0, log.c_str()); c.add("memcheck_cases"); }
  else {
    std::string l2; { mallopt(M_PERTURB, 0x11); Play p(c); p.run(); h1 = p.h; log = p.log; if (p.after) c.mark(p.h); } std::map<std::string, double> k = c.cnt;
    { mallopt(M_PERTURB, 0x80); Play p(c); p.run(); h2 = p.h; l2 = p.log; } mallopt(M_PERTURB, 0); c.cnt = k; c.add("poisoned_pairs");
    if (h1 != h2 || log != l2) c.fail("poison", "results depend on the contents of uninitialized memory [%s]", log.c_str()); }
#endif
  c.add(log.substr(0, log.find(' ')).c_str()); c.sample = log.substr(0, 600);
}
const std::vector<Scenario> kScenarios = {{"program", program, 4000, 200000}};
}  // namespace H
