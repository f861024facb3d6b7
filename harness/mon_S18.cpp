// S18: the problem is left alone and its models are evaluated by the protocol.
#include "common.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/kkt.hpp"
namespace H {
const char* kProperty = "S18";
const char* kRule = "every model call of solves with all six solvers is logged and replayed against the protocol: derivatives only right after an evaluation of the same data at the same point, derivatives of the iterate for every direction, each trial evaluated once per node at exactly the trial trajectory, calls per iteration within the stated budget; problem, models, bounds, data and guess are compared before and after; a case is non-trivial when it contains a shortened or rejected step, a failed direction or a repeated solve";

struct Any {
  int w; Prob p; Sol sol; std::shared_ptr<mim_solvers::SolverDDP> d; std::shared_ptr<Hooked<mim_solvers::SolverKKT>> q; crocoddyl::SolverAbstract* a = nullptr; Hooks h; Cfg cfg;
  static const char* nm(int w) { static const char* n[] = {"SQP", "CSQP", "PROXQP", "DDP", "FDDP", "KKT"}; return n[w]; }
  Any(int w_, const Spec& s, const Cfg& c) : w(w_), p(makeProb(s)), cfg(c) {
    if (w < 3) { sol = Sol(Kind(w), p); sol.hook(&h); sol.configure(c); a = sol.base(); }
    else if (w == 3) { auto x = std::make_shared<Hooked<mim_solvers::SolverDDP>>(p.problem); x->h = &h; d = x; if (!c.alphas.empty()) d->set_alphas(c.alphas); d->set_termination_tolerance(c.tol); a = d.get(); }
    else if (w == 4) { auto x = std::make_shared<Hooked<mim_solvers::SolverFDDP>>(p.problem); x->h = &h; x->set_use_filter_line_search(c.filter); x->set_termination_tolerance(c.tol); d = x; if (!c.alphas.empty()) d->set_alphas(c.alphas); a = d.get(); }
    else { q = std::make_shared<Hooked<mim_solvers::SolverKKT>>(p.problem); q->h = &h; q->set_termination_tolerance(c.tol); a = q.get(); }
  }
};
static bool same(const V& a, const V& b) { return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0); }
static bool same(const VV& a, const VV& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
// equal as values (-0 = 0); NaN equals NaN
static bool eq(const V& a, const V& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return true; }

struct ProblemState {
  V x0; size_t T; std::vector<void*> ptr; VV lb, ub, ulb, uub; std::vector<size_t> dims; uint64_t formulas; size_t nthreads;
  static uint64_t spec(const Spec& s) { uint64_t h = hashVec({s.x0}); for (auto& N : s.nodes) { auto ad = [&](const M& m) { h = hashBytes(h, m.data(), sizeof(double) * m.size()); }; ad(N.A); ad(N.B); ad(N.Mx); ad(N.Nu); ad(N.Gx); ad(N.Gu); h = hashVec({N.c, N.r, N.lx, N.lu, N.g0, N.lb, N.ub}, h); } return h; }
  explicit ProblemState(const Prob& p) : x0(p.problem->get_x0()), T(p.problem->get_T()), formulas(spec(*p.spec)), nthreads(p.problem->get_nthreads()) {
    auto ms = p.problem->get_runningModels(); ms.push_back(p.problem->get_terminalModel()); for (auto& m : ms) { ptr.push_back(m.get()); lb.push_back(m->get_g_lb()); ub.push_back(m->get_g_ub()); ulb.push_back(m->get_u_lb()); uub.push_back(m->get_u_ub()); for (size_t k : {m->get_nu(), m->get_ng(), m->get_nh(), m->get_ng_T(), m->get_nh_T(), size_t(m->get_has_control_limits()), m->get_state()->get_nx(), m->get_state()->get_ndx()}) dims.push_back(k); ptr.push_back(m->get_state().get()); }
    for (auto& m : p.problem->get_runningDatas()) ptr.push_back(m.get()); ptr.push_back(p.problem->get_terminalData().get());
  }
  std::string diff(const ProblemState& o) const {
    if (!same(x0, o.x0)) return "the initial state"; if (T != o.T) return "the horizon"; if (ptr != o.ptr) return "a model or data object"; if (dims != o.dims) return "a dimension"; if (!same(lb, o.lb) || !same(ub, o.ub)) return "constraint bounds"; if (!same(ulb, o.ulb) || !same(uub, o.uub)) return "control bounds"; if (formulas != o.formulas) return "the formulas"; if (nthreads != o.nthreads) return "the number of threads"; return ""; }
};

struct Trace {
  Ctx& c; Any& o; std::string d; long ndir = 0, trials = 0, wtrials = 0, rejected = 0, failed = 0; size_t mark = 0, wmark = 0; bool lastAlpha = false, inTrial = false, diffThrew = false; double lastTried = 0; VV prev, prevu; std::vector<std::pair<VV, VV>> tried; bool have = false;
  std::vector<double> alphas; int passes = 1;
  Trace(Ctx& c_, Any& o_, const std::string& d_) : c(c_), o(o_), d(d_) {
    o.p.mon->log = true; if (o.w < 5) alphas = static_cast<mim_solvers::SolverDDP*>(o.a)->get_alphas();
    o.h.dirBegin = [this]() { begin(); }; o.h.dirEnd = [this](bool t) { end(t); };
    o.h.step = [this](double a) { mark = o.p.mon->calls.size(); lastTried = a; inTrial = true; }; o.h.stepEnd = [this](bool t) { trial(t); };
  }
  bool lastOne() const { return alphas.empty() || lastTried == alphas.back(); }
  void start() { wmark = o.p.mon->calls.size(); wtrials = 0; tried.clear(); have = false; diffThrew = false; }
  void begin() {
    if (c.failed() || !have) return; VV x = o.a->get_xs(), u = o.a->get_us();
    if (wtrials) { bool acc = false; for (auto& t : tried) acc |= same(t.first, x) && same(t.second, u); bool still = same(x, prev) && same(u, prevu);
      // the line search ends with its last trial accepted or with the iterate unchanged
      if (!still && !(tried.size() && same(tried.back().first, x) && same(tried.back().second, u))) c.fail("iterate", "the iterate after the line search is %s [%s]", acc ? "not the last trial evaluated" : "none of the evaluated trials", d.c_str());
      if (still) ++rejected; }
  }
  void trial(bool threw) {
    inTrial = false; ++trials; ++wtrials; if (c.failed()) return; auto& cs = o.p.mon->calls; int T = o.p.spec->T; const VV &xt = *o.h.xt, &ut = *o.h.ut; std::vector<int> n(T + 1, 0);
    for (size_t i = mark; i < cs.size(); ++i) { auto& k = cs[i]; if (k.diff) { c.fail("trial", "derivatives requested within a trial step [%s]", d.c_str()); return; } n[k.node]++; bool term = k.node == T;
      bool ok = eq(k.x, xt[k.node]) && (term || k.u.size() == 0 || eq(k.u, ut[k.node])); if (!ok) { c.fail("trial", "node %d is evaluated at another point than the trial's, off by %g [%s]", k.node, k.x.size() == xt[k.node].size() ? ninf(k.x - xt[k.node]) : INF, d.c_str()); return; } }
    for (int t = 0; t <= T; ++t) { if (n[t] > 1) c.fail("trial", "node %d evaluated %d times in one trial step [%s]", t, n[t], d.c_str()); if (!threw && n[t] != 1) c.fail("trial", "node %d evaluated %d times in a completed trial step [%s]", t, n[t], d.c_str()); }
    if (!threw) tried.push_back({xt, ut}); else { ++failed; c.add("trials_failed"); } c.add("trials");
  }
  // called at the end of a direction and of a solve
  void window(bool final) {
    auto& cs = o.p.mon->calls; int T = o.p.spec->T; long nc = 0, nd = 0; for (size_t i = wmark; i < cs.size(); ++i) (cs[i].diff ? nd : nc)++;
    bool reeval = wtrials && (lastOne() || o.w == 5); int ps = passes; long ac = (T + 1) * (wtrials + (reeval ? 1 : 0) + ps), ad = (T + 1) * ps;
    if (!o.p.mon->nfault && !anyThrow()) { if (nc > ac) c.fail("budget", "%ld evaluations in an iteration with %ld trial steps and %d+1 nodes, at most %ld expected [%s]", nc, wtrials, T, ac, d.c_str()); if (nd > ad) c.fail("budget", "%ld derivative evaluations in an iteration with %d+1 nodes [%s]", nd, T, d.c_str()); c.mx("evals_over_budget", double(nc) / ac); c.add("windows"); }
    else c.add("windows_with_model_failures");
  }
  bool anyThrow() const { for (auto& N : o.p.spec->nodes) if (std::isfinite(N.throw_thr)) return true; return false; }
  void end(bool threw) {
    if (c.failed()) return; if (threw) { ++failed; c.add("directions_failed"); return; }
    ++ndir; c.add("directions"); VV x = o.a->get_xs(), u = o.a->get_us(); int T = o.p.spec->T; auto& cs = o.p.mon->calls;
    std::vector<long> last(T + 1, -1); for (size_t i = 0; i < cs.size(); ++i) if (cs[i].diff) last[cs[i].node] = long(i);
    for (int t = 0; t <= T; ++t) { if (last[t] < 0) { c.fail("derivatives", "direction without derivatives of node %d [%s]", t, d.c_str()); return; } auto& k = cs[last[t]]; if (!eq(k.x, x[t]) || (t < T && k.u.size() && !eq(k.u, u[t]))) { c.fail("derivatives", "the direction of iteration %ld uses derivatives of node %d at another point than the iterate, off by %g [%s]", ndir, t, ninf(k.x - x[t]), d.c_str()); return; } }
    window(false); start(); have = true; prev = x; prevu = u;
  }
};

static void protocol(Ctx& c) {
  Rng R = c.rng(); int w = R.b(0.75) ? R.i(0, 2) : R.i(3, 5); Cls cl = R.b(0.25) ? FAIL : pickCls(R); if (w == 5 && cl != FAIL) cl = R.b() ? LQ : NL; Gen g = genFor(cl, w == 1 || w == 2); if (w >= 3) { g.manifold = g.manifold && w < 5; } g.nl = R.u(0.3, 2); if (w == 2) g.maxT = 5;
  Spec s = genSpec(R, g); if (w == 5) for (auto& N : s.nodes) if (0) (void)N; Cfg f = genCfg(R, Kind(std::min(w, 2)), 1e-10, 1e-3); f.maxiter = R.i(0, 12); if (w == 1) f.max_qp = R.i(1, 60); if (w == 2) { f.max_qp = 12; f.maxiter = R.i(0, 5); }
  Any o(w, s, f); std::string d = fmt("%s %s", Any::nm(w), describe(Kind(std::min(w, 2)), s, f).c_str()); o.p.mon->limit = 300000; Trace tr(c, o, d); if (w == 1 && f.maxiter == 0) tr.passes = 2;   // evaluated for the caller, and again by the extra iteration
 
  // injected failures of directions (not of the model) and of trials
  int mode = R.i(0, 3); auto R2 = std::make_shared<Rng>(mix(c.id, 77)); double pf = R.u(0.05, 0.6), cut = R.lu(0.05, 1); long inj = 0; if (w == 1 && f.remove_reg) mode = mode == 1 ? 0 : mode; if (mode == 1 && w < 5) o.h.failDir = [&, R2]() { if (R2->b(pf)) { ++inj; return 2; } return 0; }; if (mode == 2) o.h.failStep = [=](double a) { return a > cut; };
  if (w < 2 && R.b(0.3)) { }
  int n = R.b(0.4) ? 1 : R.i(2, 3); ProblemState before(o.p); bool thrown = false;
  for (int i = 0; i < n && !c.failed(); ++i) {
    double e = R.u(0.2, 3); VV x = randXs(R, s, e), u = randUs(R, s, e); if (R.b(0.15)) { x.clear(); u.clear(); } if (R.b(0.15) && !x.empty()) { x = o.a->get_xs(); u = o.a->get_us(); if (int(x.size()) != s.T + 1) { x.clear(); u.clear(); } } VV xc = x, uc = u;
    tr.start(); o.p.mon->calls.clear(); tr.wmark = 0; bool feas = w >= 3 && R.b(0.2) && w < 5; if (feas && !u.empty()) { x = rollout(s, u); if (!finite(x)) { x = xc; feas = false; } xc = x; }
    try { o.a->solve(x, u, f.maxiter, feas && w >= 3, f.reginit); } catch (Monitor::TooMany&) { c.fail("endless", "more than 300000 evaluations [%s]", d.c_str()); return; } catch (std::exception& ex) { thrown = true; c.add("solves_threw"); }
    c.add("solves"); c.add(Any::nm(w)); if (!c.failed() && tr.have) { tr.begin(); tr.window(true); }
    if (!same(x, xc) || !same(u, uc)) c.fail("guess", "the caller's guess was modified [%s]", d.c_str()); ProblemState after(o.p); std::string df = before.diff(after); if (!df.empty()) c.fail("problem", "solving changed %s of the problem [%s]", df.c_str(), d.c_str());
    auto& m = *o.p.mon; if (m.stale) c.fail("stale", "%ld derivative evaluations at another point than the last evaluation of the same data [%s]", long(m.stale), d.c_str()); if (m.nofirst) c.fail("nofirst", "%ld derivative evaluations of data that was never (successfully) evaluated [%s]", long(m.nofirst), d.c_str()); if (m.baddim) c.fail("baddim", "%ld model calls with vectors of the wrong size [%s]", long(m.baddim), d.c_str()); if (w < 3 && m.shortSig) c.fail("signature", "%ld evaluations of running nodes as if they were terminal [%s]", long(m.shortSig), d.c_str());
    c.add("model_calls", m.calls.size());
    if (i + 1 < n && R.b(0.5)) { s.x0 = sInt(s, s.x0, R.vec(s.n, 0.3)); *o.p.spec = s; o.p.sync(); before = ProblemState(o.p); }
  }
  c.add("rejected_line_searches", tr.rejected); if (tr.rejected || tr.failed || n > 1 || tr.trials > tr.ndir) c.mark(mix(hashVec(o.a->get_xs()), tr.trials * 1000 + tr.ndir)); c.sample = d + fmt(": %ld directions, %ld trials, %ld failed, %ld rejected, %d solves%s", tr.ndir, tr.trials, tr.failed, tr.rejected, n, thrown ? ", threw" : "");
}
const std::vector<Scenario> kScenarios = {{"protocol", protocol, 160000, 1500000}};
}  // namespace H
