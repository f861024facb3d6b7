// Uniform access to the solvers under test: configuration, state snapshots,
// recording callbacks.
#pragma once
#include <crocoddyl/core/utils/stop-watch.hpp>
#include "mim_solvers/csqp.hpp"
#include "mim_solvers/ddp.hpp"
#include "mim_solvers/sqp.hpp"
#include "model.hpp"

namespace H {
typedef std::vector<V> VV;
enum Kind { SQP = 0, CSQP = 1, PROX = 2 };
inline const char* kname(Kind k) { return k == SQP ? "sqp" : k == CSQP ? "csqp" : "proxqp"; }

struct Cfg {
  std::vector<double> alphas;            // empty: default
  bool filter = true; int filter_size = 1;
  double mu_dyn = 10, mu_con = 10, coef = 10; double tol = 1e-6; bool extra = false;
  double th_dec = 0.5, th_inc = 0.01, rmin = 1e-9, rmax = 1e9, finc = 10, fdec = 10, reginit = std::nan("");
  int maxiter = 100;
  double eps_abs = 1e-4, eps_rel = 1e-4; int max_qp = 1000, interval = 25; int adapt = 5; double alpha = 1.6, sigma = 1e-6;
  bool eqguess = true, reset_y = false, reset_rho = false, remove_reg = false, heur = false; double max_time = INF;
};

struct Snap {
  std::string type; int iter = 0; double cost = 0, gap = 0, con = 0, merit = 0, KKT = 0, xg = 0, ug = 0, step = 0, preg = 0, dreg = 0;
  double qp_iters = 0, np = 0, nd = 0, tp = 0, td = 0, rho_sparse = 0; bool timeout = false, feas = false;
  VV xs, us, fs, dx, du, lag, y, z, zprev, zrel, rho, irho, dxt, dut, Vx, k; std::vector<M> Vxx, K;
  long calls = 0;
};

// Observation and fault points around the virtual steps of a solver.
struct Hooks {
  std::function<void()> dirBegin; std::function<void(bool)> dirEnd;      // argument: an exception came out
  std::function<int()> failDir;                                          // 1: fail before, 2: fail after the real computation
  std::function<void(double)> step; std::function<void(bool)> stepEnd; std::function<bool(double)> failStep;
  const std::vector<V>*xt = nullptr, *ut = nullptr;                      // the trial
};
template <class S> struct Hooked : public S {
  Hooks* h = nullptr;
  explicit Hooked(std::shared_ptr<crocoddyl::ShootingProblem> p) : S(p) {}
  void computeDirection(const bool r) override {
    if (!h) { S::computeDirection(r); return; }
    h->xt = &this->xs_try_; h->ut = &this->us_try_; if (h->dirBegin) h->dirBegin(); int f = h->failDir ? h->failDir() : 0;
    try { if (f == 1) throw std::runtime_error("injected direction failure"); S::computeDirection(r); if (f == 2) throw std::runtime_error("injected direction failure"); }
    catch (std::exception&) { if (h->dirEnd) h->dirEnd(true); throw; }
    if (h->dirEnd) h->dirEnd(false);
  }
  double tryStep(const double a) override {
    if (!h) return S::tryStep(a);
    h->xt = &this->xs_try_; h->ut = &this->us_try_; if (h->step) h->step(a); double m = 0;
    try { m = S::tryStep(a); if (h->failStep && h->failStep(a)) throw std::runtime_error("injected trial failure"); } catch (std::exception&) { if (h->stepEnd) h->stepEnd(true); throw; }
    if (h->stepEnd) h->stepEnd(false); return m;
  }
};

// ProxQP solver behind an interface: its header is expensive to compile.
struct ProxIface {
  virtual ~ProxIface() {}
  virtual mim_solvers::SolverDDP* base() = 0;
  virtual void configure(const Cfg& c) = 0;
  virtual void snap(Snap& s) = 0;
  virtual void qp(M& P, M& A, M& C, V& q, V& b, V& l, V& u) = 0;
  virtual bool solvable(const M& P, const V& q, const M& A, const V& b, const M& C, const V& l, const V& u, V& x, V& z, int* iters = nullptr, bool* ranOut = nullptr) = 0;   // by the QP library, with the solver's settings
  virtual void set_filter_size(std::size_t n) = 0;
  virtual void verbose(bool) = 0;
  virtual void setHooks(Hooks*) = 0;
  virtual void forget() = 0;                            // clears the retained multipliers
  virtual double get_num(const char* name) = 0;         // named accessor
  virtual void set_num(const char* name, double v) = 0; // named mutator
};
std::shared_ptr<ProxIface> makeProx(std::shared_ptr<crocoddyl::ShootingProblem> p);

struct Sol {
  Kind kind; Prob prob; Cfg cfg;
  std::shared_ptr<mim_solvers::SolverSQP> s; std::shared_ptr<mim_solvers::SolverCSQP> c; std::shared_ptr<ProxIface> p;
  mim_solvers::SolverDDP* base() const { return kind == SQP ? (mim_solvers::SolverDDP*)s.get() : kind == CSQP ? (mim_solvers::SolverDDP*)c.get() : p->base(); }
  Sol() {}
  Sol(Kind k, const Prob& pr) : kind(k), prob(pr) {
    if (k == SQP) s = std::make_shared<mim_solvers::SolverSQP>(pr.problem);
    else if (k == CSQP) c = std::make_shared<mim_solvers::SolverCSQP>(pr.problem);
    else p = makeProx(pr.problem);
  }
  void configure(const Cfg& g) {
    cfg = g; auto* b = base();
    if (!g.alphas.empty()) b->set_alphas(g.alphas);
    b->set_th_stepdec(g.th_dec); b->set_th_stepinc(g.th_inc); b->set_reg_min(g.rmin); b->set_reg_max(g.rmax); b->set_reg_incfactor(g.finc); b->set_reg_decfactor(g.fdec);
    if (kind == SQP) { s->set_use_filter_line_search(g.filter); s->set_filter_size(g.filter_size); s->set_mu_dynamic(g.mu_dyn); s->set_termination_tolerance(g.tol); s->set_extra_iteration_for_last_kkt(g.extra); }
    else if (kind == CSQP) {
      c->set_use_filter_line_search(g.filter); c->set_filter_size(g.filter_size); c->set_mu_dynamic(g.mu_dyn); c->set_mu_constraint(g.mu_con); c->set_lag_mul_inf_norm_coef(g.coef); c->set_termination_tolerance(g.tol); c->set_extra_iteration_for_last_kkt(g.extra);
      c->set_eps_abs(g.eps_abs); c->set_eps_rel(g.eps_rel); c->set_max_qp_iters(g.max_qp); c->set_rho_update_interval(g.interval); c->set_adaptive_rho_tolerance(g.adapt); c->set_alpha(g.alpha); c->set_sigma(g.sigma);
      c->set_equality_qp_initial_guess(g.eqguess); c->reset_y_ = g.reset_y; c->reset_rho_ = g.reset_rho; c->remove_reg_ = g.remove_reg; c->update_rho_with_heuristic_ = g.heur; c->set_max_solve_time(g.max_time);
    } else p->configure(g);
  }
  // replaces the solver by one that reports to `h`
  void hook(Hooks* h) {
    if (kind == SQP) { auto q = std::make_shared<Hooked<mim_solvers::SolverSQP>>(prob.problem); q->h = h; s = q; }
    else if (kind == CSQP) { auto q = std::make_shared<Hooked<mim_solvers::SolverCSQP>>(prob.problem); q->h = h; c = q; }
    else p->setHooks(h);
  }
  bool solve(const VV& xs, const VV& us) { return base()->solve(xs, us, cfg.maxiter, false, cfg.reginit); }
  bool solve(const VV& xs, const VV& us, int maxiter) { return base()->solve(xs, us, maxiter, false, cfg.reginit); }
  Snap snap() const {
    Snap n; auto* b = base();
    n.iter = int(b->get_iter()); n.cost = b->get_cost(); n.step = b->get_steplength(); n.preg = b->get_preg(); n.dreg = b->get_dreg(); n.xs = b->get_xs(); n.us = b->get_us(); n.fs = b->get_fs();
    n.Vx = b->get_Vx(); n.Vxx = b->get_Vxx(); n.k = b->get_k(); for (auto& K : b->get_K()) n.K.push_back(K); n.feas = b->get_is_feasible(); n.calls = prob.mon ? prob.mon->total() : 0;
    if (kind == SQP) { n.gap = s->get_gap_norm(); n.merit = s->get_merit(); n.KKT = s->get_KKT(); n.xg = s->get_xgrad_norm(); n.ug = s->get_ugrad_norm(); n.dx = s->get_dx(); n.du = s->get_du(); n.lag = s->lag_mul_; }
    else if (kind == CSQP) { n.gap = c->get_gap_norm(); n.con = c->get_constraint_norm(); n.merit = c->get_merit(); n.KKT = c->get_KKT(); n.xg = c->get_xgrad_norm(); n.ug = c->get_ugrad_norm(); n.dx = c->get_dx(); n.du = c->get_du(); n.lag = c->lag_mul_;
      n.y = c->get_y(); n.z = c->get_z(); n.zprev = c->z_prev_; n.zrel = c->z_relaxed_; n.rho = c->get_rho_vec(); n.irho = c->inv_rho_vec_; n.dxt = c->get_dx_tilde(); n.dut = c->get_du_tilde(); n.qp_iters = c->get_qp_iters();
      n.np = c->get_norm_primal(); n.nd = c->get_norm_dual(); n.tp = c->get_norm_primal_tolerance(); n.td = c->get_norm_dual_tolerance(); n.timeout = c->get_max_solve_time_reached(); n.rho_sparse = c->get_rho_sparse(); }
    else p->snap(n);
    return n;
  }
};

struct Recorder : public mim_solvers::CallbackAbstract {
  const Sol* sol; std::vector<Snap>* out; int tag = 0; std::vector<int>* order = nullptr; std::function<void(Snap&)> hook;
  Recorder(const Sol* s, std::vector<Snap>* o) : sol(s), out(o) {}
  void operator()(crocoddyl::SolverAbstract&) override { throw std::logic_error("callback invoked without solver type"); }
  void operator()(crocoddyl::SolverAbstract&, std::string type) override { Snap n = sol->snap(); n.type = type; if (hook) hook(n); if (order) order->push_back(tag); if (out) out->push_back(std::move(n)); }
};
inline std::shared_ptr<Recorder> attach(Sol& s, std::vector<Snap>& out) {
  auto r = std::make_shared<Recorder>(&s, &out); std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> v{r}; s.base()->setCallbacks(v); return r;
}
}  // namespace H
