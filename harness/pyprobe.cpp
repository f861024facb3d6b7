// Python module `mimprobe`: problems of the monitors' family as Python objects, the
// C++ view of a solver owned by Python, and twins of it driven from C++ alone.
#include <boost/python.hpp>
#include <eigenpy/eigenpy.hpp>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <iostream>
#include <map>
#include "mim_solvers/csqp.hpp"
#include "mim_solvers/csqp_proxqp.hpp"
#include "mim_solvers/ddp.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/sqp.hpp"
#include "mim_solvers/utils/callbacks.hpp"
#include "common.hpp"

namespace bp = boost::python;
using namespace mim_solvers;
using H::V; using H::M; using H::VV;

// ---------------------------------------------------------------- flat values
struct Buf {
  std::string s;
  void d(double v) { s.append((const char*)&v, 8); }
  void put(bool v) { d(v); } void put(int v) { d(v); } void put(std::size_t v) { d(double(v)); } void put(double v) { d(v); }
  template <class D> void put(const Eigen::MatrixBase<D>& m) {
    d(double(m.size())); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) d(m(i, j));   // numpy shows one row as a vector
  }
  template <class T, class A> void put(const std::vector<T, A>& v) { d(double(v.size())); for (const auto& e : v) put(e); }
};
static bp::object bytes(const std::string& s) { return bp::object(bp::handle<>(PyBytes_FromStringAndSize(s.data(), s.size()))); }

enum K { kSQP, kCSQP, kPROX, kDDP, kFDDP };
static K kindOf(const std::string& s) { return s == "SQP" ? kSQP : s == "CSQP" ? kCSQP : s == "PROXQP" ? kPROX : s == "DDP" ? kDDP : kFDDP; }
typedef std::map<std::string, std::function<void(SolverDDP&, Buf&)>> Getters;
#define G(n, e) g[n] = [](SolverDDP& b_, Buf& o) { auto& b = static_cast<S&>(b_); (void)b; o.put(e); };
static Getters ddpGetters() {
  typedef SolverDDP S; Getters g;
  G("xs", b.get_xs()) G("us", b.get_us()) G("fs", b.get_fs()) G("isFeasible", b.get_is_feasible()) G("cost", b.get_cost()) G("merit", b.get_merit()) G("stop", b.get_stop()) G("dV", b.get_dV()) G("dVexp", b.get_dVexp())
  G("feas", b.get_feas()) G("preg", b.get_preg()) G("dreg", b.get_dreg()) G("stepLength", b.get_steplength()) G("th_acceptStep", b.get_th_acceptstep()) G("th_stop", b.get_th_stop()) G("th_gapTol", b.get_th_gaptol()) G("iter", b.get_iter())
  G("Vxx", b.get_Vxx()) G("Vx", b.get_Vx()) G("Qxx", b.get_Qxx()) G("Qxu", b.get_Qxu()) G("Quu", b.get_Quu()) G("Qx", b.get_Qx()) G("Qu", b.get_Qu()) G("K", b.get_K()) G("k", b.get_k())
  G("reg_incFactor", b.get_reg_incfactor()) G("reg_decFactor", b.get_reg_decfactor()) G("reg_min", b.get_reg_min()) G("reg_max", b.get_reg_max()) G("th_stepDec", b.get_th_stepdec()) G("th_stepInc", b.get_th_stepinc()) G("th_grad", b.get_th_grad()) G("alphas", b.get_alphas())
  G("lag_mul", b.lag_mul_) G("KKT", b.get_KKT()) G("termination_tolerance", b.get_termination_tolerance())
  return g;
}
static Getters fddpGetters() {
  typedef SolverFDDP S; Getters g = ddpGetters();
  G("lag_mul", b.lag_mul_) G("KKT", b.get_KKT()) G("termination_tolerance", b.get_termination_tolerance()) G("th_acceptNegStep", b.get_th_acceptnegstep()) G("use_filter_line_search", b.get_use_filter_line_search()) G("filter_size", b.get_filter_size())
  return g;
}
static Getters sqpGetters() {
  typedef SolverSQP S; Getters g = ddpGetters();
  G("xs_try", b.xs_try_) G("us_try", b.us_try_) G("cost_try", b.cost_try_) G("fs_try", b.fs_try_) G("lag_mul", b.lag_mul_) G("dx", b.get_dx()) G("du", b.get_du()) G("KKT", b.get_KKT()) G("merit", b.get_merit())
  G("extra_iteration_for_last_kkt", b.get_extra_iteration_for_last_kkt()) G("mu_dynamic", b.get_mu_dynamic()) G("use_filter_line_search", b.get_use_filter_line_search()) G("termination_tolerance", b.get_termination_tolerance()) G("filter_size", b.get_filter_size())
  return g;
}
static Getters csqpGetters() {
  typedef SolverCSQP S; Getters g = ddpGetters();
  G("xs_try", b.xs_try_) G("us_try", b.us_try_) G("cost_try", b.cost_try_) G("fs_try", b.fs_try_) G("lag_mul", b.lag_mul_)
  G("norm_primal", b.norm_primal_) G("norm_dual", b.norm_dual_) G("norm_dual_rel", b.norm_dual_rel_) G("norm_primal_rel", b.norm_primal_rel_) G("rho_vec", b.rho_vec_) G("y", b.y_) G("z", b.z_)
  G("reset_y", b.reset_y_) G("reset_rho", b.reset_rho_) G("update_rho_with_heuristic", b.update_rho_with_heuristic_) G("remove_reg", b.remove_reg_)
  G("with_qp_callbacks", b.getQPCallbacks()) G("extra_iteration_for_last_kkt", b.get_extra_iteration_for_last_kkt()) G("xs", b.get_xs()) G("us", b.get_us()) G("dx_tilde", b.get_dx_tilde()) G("du_tilde", b.get_du_tilde()) G("dx", b.get_dx()) G("du", b.get_du())
  G("constraint_norm", b.get_constraint_norm()) G("gap_norm", b.get_gap_norm()) G("qp_iters", b.get_qp_iters()) G("KKT", b.get_KKT()) G("merit", b.get_merit()) G("lag_mul_inf_norm_coef", b.get_lag_mul_inf_norm_coef()) G("mu_dynamic", b.get_mu_dynamic()) G("mu_constraint", b.get_mu_constraint())
  G("eps_abs", b.get_eps_abs()) G("eps_rel", b.get_eps_rel()) G("rho_sparse", b.get_rho_sparse()) G("equality_qp_initial_guess", b.get_equality_qp_initial_guess()) G("sigma", b.get_sigma()) G("alpha", b.get_alpha())
  G("use_filter_line_search", b.get_use_filter_line_search()) G("termination_tolerance", b.get_termination_tolerance()) G("max_qp_iters", b.get_max_qp_iters()) G("rho_update_interval", b.get_rho_update_interval()) G("filter_size", b.get_filter_size()) G("adaptive_rho_tolerance", b.get_adaptive_rho_tolerance())
  G("max_solve_time", b.get_max_solve_time()) G("max_solve_time_reached", b.get_max_solve_time_reached())
  return g;
}
static Getters proxGetters() {
  typedef SolverPROXQP S; Getters g = ddpGetters();
  G("xs_try", b.xs_try_) G("us_try", b.us_try_) G("cost_try", b.cost_try_) G("fs_try", b.fs_try_) G("lag_mul", b.get_lag_mul()) G("constraint_norm", b.get_constraint_norm()) G("gap_norm", b.get_gap_norm()) G("qp_iters", b.get_qp_iters()) G("KKT_norm", b.get_KKT()) G("KKT", b.get_KKT()) G("merit", b.get_merit())
  G("with_callbacks", b.getCallbacks()) G("xs", b.get_xs()) G("us", b.get_us()) G("P", b.get_P()) G("A", b.get_A()) G("C", b.get_C()) G("q", b.get_q()) G("b", b.get_b()) G("l", b.get_l()) G("u", b.get_u()) G("dx", b.get_dx()) G("du", b.get_du()) G("y", b.get_y()) G("fs", b.get_fs())
  G("eps_abs", b.get_eps_abs()) G("use_filter_line_search", b.get_use_filter_line_search()) G("termination_tolerance", b.get_termination_tolerance()) G("max_qp_iters", b.get_max_qp_iters())
  return g;
}
static const Getters& getters(K k) { static const Getters a = sqpGetters(), b = csqpGetters(), c = proxGetters(), d = ddpGetters(), e = fddpGetters(); return k == kSQP ? a : k == kCSQP ? b : k == kPROX ? c : k == kDDP ? d : e; }

// ---------------------------------------------------------------- setters
static VV toVV(const bp::object& o) { VV v; for (int i = 0, n = int(bp::len(o)); i < n; ++i) v.push_back(bp::extract<V>(o[i])()); return v; }
static std::vector<double> toD(const bp::object& o) { std::vector<double> v; for (int i = 0, n = int(bp::len(o)); i < n; ++i) v.push_back(bp::extract<double>(o[i])()); return v; }
#define PD(n, e) if (name == n) { double v = bp::extract<double>(o)(); e; return true; }
#define PB(n, e) if (name == n) { bool v = bp::extract<bool>(o)(); e; return true; }
#define PI(n, e) if (name == n) { long v = bp::extract<long>(o)(); e; return true; }
#define PV(n, e) if (name == n) { VV v = toVV(o); e; return true; }
static bool setDDP(SolverDDP& b, const std::string& name, const bp::object& o) {
  PD("reg_incFactor", b.set_reg_incfactor(v)) PD("reg_decFactor", b.set_reg_decfactor(v)) PD("reg_min", b.set_reg_min(v)) PD("reg_max", b.set_reg_max(v)) PD("th_stepDec", b.set_th_stepdec(v)) PD("th_stepInc", b.set_th_stepinc(v)) PD("th_grad", b.set_th_grad(v))
  if (name == "alphas") { b.set_alphas(toD(o)); return true; }
  PV("lag_mul", b.lag_mul_ = v) PD("termination_tolerance", b.set_termination_tolerance(v)) PD("th_acceptStep", b.set_th_acceptstep(v)) PD("th_stop", b.set_th_stop(v)) PD("th_gapTol", b.set_th_gaptol(v)) PD("preg", b.set_preg(v)) PD("dreg", b.set_dreg(v)) PV("xs", b.set_xs(v)) PV("us", b.set_us(v))
  return false;
}
static bool setFDDP(SolverFDDP& b, const std::string& name, const bp::object& o) {
  PV("lag_mul", b.lag_mul_ = v) PD("termination_tolerance", b.set_termination_tolerance(v)) PD("th_acceptNegStep", b.set_th_acceptnegstep(v)) PB("use_filter_line_search", b.set_use_filter_line_search(v)) PI("filter_size", b.set_filter_size(v)) return setDDP(b, name, o);
}
static bool setSQP(SolverSQP& b, const std::string& name, const bp::object& o) {
  PV("xs_try", b.xs_try_ = v) PV("us_try", b.us_try_ = v) PD("cost_try", b.cost_try_ = v) PV("fs_try", b.fs_try_ = v) PV("lag_mul", b.lag_mul_ = v) PB("extra_iteration_for_last_kkt", b.set_extra_iteration_for_last_kkt(v)) PD("mu_dynamic", b.set_mu_dynamic(v)) PB("use_filter_line_search", b.set_use_filter_line_search(v)) PD("termination_tolerance", b.set_termination_tolerance(v)) PI("filter_size", b.set_filter_size(v))
  return setDDP(b, name, o);
}
static bool setCSQP(SolverCSQP& b, const std::string& name, const bp::object& o) {
  PV("xs_try", b.xs_try_ = v) PV("us_try", b.us_try_ = v) PD("cost_try", b.cost_try_ = v) PV("fs_try", b.fs_try_ = v) PV("lag_mul", b.lag_mul_ = v) PD("norm_primal", b.norm_primal_ = v) PD("norm_dual", b.norm_dual_ = v) PD("norm_dual_rel", b.norm_dual_rel_ = v) PD("norm_primal_rel", b.norm_primal_rel_ = v) PV("rho_vec", b.rho_vec_ = v) PV("y", b.y_ = v) PV("z", b.z_ = v)
  PB("reset_y", b.reset_y_ = v) PB("reset_rho", b.reset_rho_ = v) PB("update_rho_with_heuristic", b.update_rho_with_heuristic_ = v) PB("remove_reg", b.remove_reg_ = v) PB("with_qp_callbacks", b.setQPCallbacks(v)) PB("extra_iteration_for_last_kkt", b.set_extra_iteration_for_last_kkt(v))
  PD("lag_mul_inf_norm_coef", b.set_lag_mul_inf_norm_coef(v)) PD("mu_dynamic", b.set_mu_dynamic(v)) PD("mu_constraint", b.set_mu_constraint(v)) PD("eps_abs", b.set_eps_abs(v)) PD("eps_rel", b.set_eps_rel(v)) PD("rho_sparse", b.set_rho_sparse(v)) PB("equality_qp_initial_guess", b.set_equality_qp_initial_guess(v)) PD("sigma", b.set_sigma(v)) PD("alpha", b.set_alpha(v))
  PB("use_filter_line_search", b.set_use_filter_line_search(v)) PD("termination_tolerance", b.set_termination_tolerance(v)) PI("max_qp_iters", b.set_max_qp_iters(int(v))) PI("rho_update_interval", b.set_rho_update_interval(v)) PI("filter_size", b.set_filter_size(v)) PI("adaptive_rho_tolerance", b.set_adaptive_rho_tolerance(v)) PD("max_solve_time", b.set_max_solve_time(v))
  return setDDP(b, name, o);
}
static bool setPROX(SolverPROXQP& b, const std::string& name, const bp::object& o) {
  PV("xs_try", b.xs_try_ = v) PV("us_try", b.us_try_ = v) PD("cost_try", b.cost_try_ = v) PV("fs_try", b.fs_try_ = v) PB("with_callbacks", b.setCallbacks(v)) PD("eps_abs", b.set_eps_abs(v)) PB("use_filter_line_search", b.set_use_filter_line_search(v)) PD("termination_tolerance", b.set_termination_tolerance(v)) PI("max_qp_iters", b.set_max_qp_iters(int(v)))
  if (name == "lag_mul") return false;
  return setDDP(b, name, o);
}

// ---------------------------------------------------------------- problems
static std::map<long, H::Prob> g_probs; static std::map<long, std::weak_ptr<crocoddyl::ShootingProblem>> g_weak; static std::map<long, std::weak_ptr<crocoddyl::ActionModelAbstract>> g_weakm;
static std::vector<std::shared_ptr<H::Monitor>> g_mons; static long g_next = 0;
static H::Prob& prob(long id) { auto it = g_probs.find(id); if (it == g_probs.end()) throw std::runtime_error("no such problem"); return it->second; }
// eigenpy cannot represent every empty array: controls and constraints are kept
static long mkProblem(unsigned long seed, int cls, bool con, int T, int nu0) {
  H::Rng R(seed); H::Gen g = H::genFor(H::Cls(cls), con); if (T > 0) g.T = T; if (!nu0) { g.p_nu0 = 0; }
  H::Spec s = H::genSpec(R, g); H::Prob p = H::makeProb(s); long id = g_next++;
  g_mons.push_back(p.mon); p.mon->limit = 2000000; g_weak[id] = p.problem; g_weakm[id] = p.models[0]; g_probs[id] = p; return id;
}
// the shapes that the Python reference implementations can handle
static long mkPlainProblem(unsigned long seed, int cls, bool con, int maxT, bool noequality) {
  H::Rng R(seed); H::Gen g = H::genFor(H::Cls(cls), con); g.maxT = maxT; g.p_nu0 = 0; g.vary_nu = false; g.minn = g.minnu = g.minng = 2; g.equality = !noequality;
  H::Spec s = H::genSpec(R, g); H::Prob p = H::makeProb(s); long id = g_next++;
  g_mons.push_back(p.mon); p.mon->limit = 2000000; g_weak[id] = p.problem; g_weakm[id] = p.models[0]; g_probs[id] = p; return id;
}
static std::shared_ptr<crocoddyl::ShootingProblem> problemOf(long id) { return prob(id).problem; }
static void dropProblem(long id) { g_probs.erase(id); }
static bool aliveProblem(long id) { return !g_weak[id].expired(); }
static bool aliveModel(long id) { return !g_weakm[id].expired(); }
static std::string shapeOf(long id) { return H::shape(*prob(id).spec); }
static void armFault(long id, int kind, long at, long n) { prob(id).mon->reset(); if (kind == 0) prob(id).mon->fault = nullptr; else prob(id).mon->fault = [kind, at, n](int, bool, long k) { return k >= at && k < at + n ? H::FaultKind(kind) : H::F_NONE; }; }
static bp::list pyVV(const VV& v) { bp::list l; for (auto& e : v) l.append(bp::object(e)); return l; }
static bp::tuple guess(long id, unsigned long seed, double sc) { H::Rng R(seed); auto& s = *prob(id).spec; VV a = H::randXs(R, s, sc), b = H::randUs(R, s, sc); return bp::make_tuple(pyVV(a), pyVV(b)); }
static bp::tuple feasGuess(long id, unsigned long seed, double sc) { H::Rng R(seed); auto& s = *prob(id).spec; VV b = H::randUs(R, s, sc), a = H::rollout(s, b); return bp::make_tuple(pyVV(a), pyVV(b)); }
static long calls(long id) { return prob(id).mon->total(); }

// ---------------------------------------------------------------- C++ views
static std::shared_ptr<SolverDDP> solverOf(const bp::object& o) { return bp::extract<std::shared_ptr<SolverDDP>>(o)(); }
static bp::dict dumpOf(SolverDDP& b, K k) { bp::dict d; for (auto& g : getters(k)) { Buf o; g.second(b, o); d[g.first] = bytes(o.s); } return d; }
static bp::dict peek(const bp::object& o, const std::string& kind) { SolverDDP& b = bp::extract<SolverDDP&>(o)(); return dumpOf(b, kindOf(kind)); }
static bp::list names(const std::string& kind) { bp::list l; for (auto& g : getters(kindOf(kind))) l.append(g.first); return l; }
static std::string dynType(const bp::object& o) {
  crocoddyl::SolverAbstract* b = &bp::extract<crocoddyl::SolverAbstract&>(o)();
  return dynamic_cast<SolverCSQP*>(b) ? "CSQP" : dynamic_cast<SolverPROXQP*>(b) ? "PROXQP" : dynamic_cast<SolverSQP*>(b) ? "SQP" : dynamic_cast<SolverFDDP*>(b) ? "FDDP" : dynamic_cast<SolverDDP*>(b) ? "DDP" : "?";
}
static std::size_t addressOf(const bp::object& o) { return std::size_t(&bp::extract<crocoddyl::SolverAbstract&>(o)()); }

struct Stop : std::runtime_error { Stop() : std::runtime_error("stop from a callback") {} };
struct Rec : CallbackAbstract {
  K k; bp::list out; long stopAt = -1, setAt = -1, n = 0; std::string setName; bp::object setVal; std::string tag;
  std::function<bool(SolverDDP&, const std::string&, const bp::object&)> set;
  void operator()(crocoddyl::SolverAbstract& s, std::string type) override {
    SolverDDP& b = dynamic_cast<SolverDDP&>(s); out.append(bp::make_tuple(tag, type, dumpOf(b, k)));
    if (n == setAt) set(b, setName, setVal);
    if (n++ == stopAt) throw Stop();
  }
  void operator()(crocoddyl::SolverAbstract& s) override { (*this)(s, "none"); }
};

struct Twin {
  K k; std::shared_ptr<SolverDDP> s; std::vector<std::shared_ptr<Rec>> recs;
  Twin(const std::string& kind, long id) : k(kindOf(kind)) {
    auto p = prob(id).problem;
    s = k == kSQP ? std::shared_ptr<SolverDDP>(new SolverSQP(p)) : k == kCSQP ? std::shared_ptr<SolverDDP>(new SolverCSQP(p)) : k == kPROX ? std::shared_ptr<SolverDDP>(new SolverPROXQP(p)) : k == kDDP ? std::make_shared<SolverDDP>(p) : std::shared_ptr<SolverDDP>(new SolverFDDP(p));
  }
  bool setAny(SolverDDP& b, const std::string& n, const bp::object& o) {
    return k == kSQP ? setSQP(static_cast<SolverSQP&>(b), n, o) : k == kCSQP ? setCSQP(static_cast<SolverCSQP&>(b), n, o) : k == kPROX ? setPROX(static_cast<SolverPROXQP&>(b), n, o) : k == kDDP ? setDDP(b, n, o) : setFDDP(static_cast<SolverFDDP&>(b), n, o);
  }
  bool set(const std::string& n, const bp::object& o) { return setAny(*s, n, o); }
  bp::dict dump() { return dumpOf(*s, k); }
  bool solve(const bp::list& a) {
    int n = int(bp::len(a)); VV xs, us; if (n > 0) xs = toVV(a[0]); if (n > 1) us = toVV(a[1]);
    switch (n) {
      case 0: return s->solve();
      case 1: return s->solve(xs);
      case 2: return s->solve(xs, us);
      case 3: return s->solve(xs, us, bp::extract<long>(a[2])());
      case 4: return s->solve(xs, us, bp::extract<long>(a[2])(), bp::extract<bool>(a[3])());
      default: return s->solve(xs, us, bp::extract<long>(a[2])(), bp::extract<bool>(a[3])(), bp::extract<double>(a[4])());
    }
  }
  bp::object call(const std::string& m, const bp::list& a) {
    Buf o; auto D = [&](int i) { return bp::extract<double>(a[i])(); }; int n = int(bp::len(a));
    if (m == "setCandidate") { s->setCandidate(toVV(a[0]), toVV(a[1]), bp::extract<bool>(a[2])()); return bp::object(); }
    if (k == kCSQP) {
      auto& c = static_cast<SolverCSQP&>(*s);
      if (m == "calc") { c.calc(bp::extract<bool>(a[0])()); return bp::object(); }
      if (m == "update_lagrangian_parameters") { c.update_lagrangian_parameters(bp::extract<int>(a[0])()); return bp::object(); }
      if (m == "backwardPass_without_constraints") { c.backwardPass_without_constraints(); return bp::object(); }
      if (m == "backwardPass_without_rho_update") { c.backwardPass_without_rho_update(); return bp::object(); }
      if (m == "update_rho_vec") { c.update_rho_vec(bp::extract<int>(a[0])()); return bp::object(); }
      if (m == "checkKKTConditions") { c.checkKKTConditions(); return bp::object(); }
    }
    if (k == kPROX && m == "calc") { static_cast<SolverPROXQP&>(*s).calc(bp::extract<bool>(a[0])()); return bp::object(); }
    if (k == kFDDP && m == "updateExpectedImprovement") { static_cast<SolverFDDP&>(*s).updateExpectedImprovement(); return bp::object(); }
    if (m == "computeDirection") { if (n) s->computeDirection(bp::extract<bool>(a[0])()); else s->computeDirection(); return bp::object(); }
    if (m == "tryStep") { o.put(n ? s->tryStep(D(0)) : s->tryStep()); return bytes(o.s); }
    if (m == "stoppingCriteria") { o.put(s->stoppingCriteria()); return bytes(o.s); }
    if (m == "expectedImprovement") { o.put(s->expectedImprovement()); return bytes(o.s); }
    if (m == "calcDiff") { o.put(s->calcDiff()); return bytes(o.s); }
    if (m == "backwardPass") { s->backwardPass(); return bp::object(); }
    if (m == "forwardPass") { s->forwardPass(D(0)); return bp::object(); }
    throw std::logic_error("unknown method " + m);
  }
  // n recording callbacks; the first may stop the solve at call `stopAt`, or change a setting at call `setAt`
  void record(int n, long stopAt, long setAt, const std::string& name, const bp::object& val) {
    recs.clear(); std::vector<std::shared_ptr<CallbackAbstract>> v; bp::list out;
    for (int i = 0; i < n; ++i) { auto r = std::make_shared<Rec>(); r->k = k; r->out = out; r->tag = std::to_string(i); if (i == 0) { r->stopAt = stopAt; r->setAt = setAt; r->setName = name; r->setVal = val; r->set = [this](SolverDDP& b, const std::string& m, const bp::object& o) { return setAny(b, m, o); }; } recs.push_back(r); v.push_back(r); }
    s->setCallbacks(v);
  }
  bp::list recorded() { return recs.empty() ? bp::list() : recs[0]->out; }
  void verbose(int precision) { recs.clear(); std::vector<std::shared_ptr<CallbackAbstract>> v; if (precision < 0) v.push_back(std::make_shared<CallbackVerbose>()); else v.push_back(std::make_shared<CallbackVerbose>(precision)); s->setCallbacks(v); }
  void quiet() { recs.clear(); s->setCallbacks({}); }
};

// ---------------------------------------------------------------- watchdog
static int g_fd = -1; static char g_case[200];
static void put(const char* tag, const char* x) { char b[400]; int n = snprintf(b, sizeof b, "%s %s\n", tag, x); if (write(g_fd, b, n) < 0) {} }
static void onProf(int) { put("HANG", g_case); _exit(77); }
static void onCrash(int s) { char b[300]; snprintf(b, sizeof b, "%s signal=%d", g_case, s); put("CRASH", b); signal(s, SIG_DFL); raise(s); }
static void arm(int fd) { g_fd = fd; signal(SIGPROF, onProf); for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, onCrash); }
static void begin(const std::string& c, long cpu) { snprintf(g_case, sizeof g_case, "%s", c.c_str()); struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &tv, nullptr); }
static void flushOut() { std::cout.flush(); fflush(stdout); }
static unsigned long mix(unsigned long a, unsigned long b) { return H::mix(a, b); }

// so that Python code can use the states and models of the harness like crocoddyl's own
static Eigen::VectorXd stInt(H::HState& s, const Eigen::VectorXd& x, const Eigen::VectorXd& d) { Eigen::VectorXd o(s.get_nx()); s.integrate(x, d, o); return o; }
static Eigen::VectorXd stDif(H::HState& s, const Eigen::VectorXd& a, const Eigen::VectorXd& b) { Eigen::VectorXd o(s.get_ndx()); s.diff(a, b, o); return o; }
static void moCalc(H::HModel& m, const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const Eigen::VectorXd& x, const Eigen::VectorXd& u) { m.calc(d, x, u); }
static void moCalcT(H::HModel& m, const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const Eigen::VectorXd& x) { m.calc(d, x); }

BOOST_PYTHON_MODULE(mimprobe) {
  bp::import("crocoddyl"); bp::import("mim_solvers");
  bp::register_ptr_to_python<std::shared_ptr<H::HState>>(); bp::register_ptr_to_python<std::shared_ptr<H::HModel>>();
  bp::class_<H::HState, bp::bases<crocoddyl::StateAbstract>, boost::noncopyable>("HState", bp::no_init).def("integrate", stInt).def("diff", stDif);
  bp::class_<H::HModel, bp::bases<crocoddyl::ActionModelAbstract>, boost::noncopyable>("HModel", bp::no_init).def("calc", moCalc).def("calc", moCalcT);
  bp::def("problem", problemOf); bp::def("make", mkProblem); bp::def("make_plain", mkPlainProblem); bp::def("drop", dropProblem); bp::def("alive", aliveProblem); bp::def("alive_model", aliveModel); bp::def("shape", shapeOf); bp::def("fault", armFault); bp::def("calls", calls);
  bp::def("guess", guess); bp::def("feasible_guess", feasGuess); bp::def("peek", peek); bp::def("names", names); bp::def("dyn_type", dynType); bp::def("address", addressOf); bp::def("arm", arm); bp::def("begin", begin); bp::def("flush", flushOut); bp::def("mix", mix);
  bp::class_<Twin, boost::noncopyable>("Twin", bp::init<std::string, long>()).def("set", &Twin::set).def("dump", &Twin::dump).def("solve", &Twin::solve).def("call", &Twin::call).def("record", &Twin::record).def("recorded", &Twin::recorded).def("verbose", &Twin::verbose).def("quiet", &Twin::quiet);
}
