#include "mim_solvers/csqp_proxqp.hpp"
#include "probe.hpp"
#include <cstring>
namespace H {
struct Impl : ProxIface {
  Hooked<mim_solvers::SolverPROXQP> q;
  void setHooks(Hooks* h) override { q.h = h; }
  explicit Impl(std::shared_ptr<crocoddyl::ShootingProblem> p) : q(p) {}
  mim_solvers::SolverDDP* base() override { return &q; }
  void configure(const Cfg& g) override {
    q.set_use_filter_line_search(g.filter); q.set_filter_size(g.filter_size); q.set_mu_dynamic(g.mu_dyn); q.set_mu_constraint(g.mu_con); q.set_termination_tolerance(g.tol);
    q.set_eps_abs(g.eps_abs); q.set_eps_rel(g.eps_rel); q.set_max_qp_iters(g.max_qp);
  }
  void snap(Snap& n) override {
    n.gap = q.get_gap_norm(); n.con = q.get_constraint_norm(); n.merit = q.get_merit(); n.KKT = q.get_KKT(); n.xg = q.get_xgrad_norm(); n.ug = q.get_ugrad_norm(); n.dx = q.get_dx(); n.du = q.get_du(); n.lag = q.lag_mul_; n.y = q.get_y();
    n.qp_iters = q.get_qp_iters(); n.np = q.get_norm_primal(); n.nd = q.get_norm_dual();
    n.cost = q.SolverDDP::get_cost();
  }
  void qp(M& P, M& A, M& C, V& qq, V& b, V& l, V& u) override { P = q.get_P(); A = q.get_A(); C = q.get_C(); qq = q.get_q(); b = q.get_b(); l = q.get_l(); u = q.get_u(); }
  bool solvable(const M& P, const V& qq, const M& A, const V& b, const M& C, const V& l, const V& u, V& x, V& z, int* iters, bool* ranOut) override {
    proxsuite::proxqp::sparse::QP<double, long long> w(P.rows(), A.rows(), C.rows());
    w.init(Eigen::SparseMatrix<double>(P.sparseView()), qq, Eigen::SparseMatrix<double>(A.sparseView()), b, Eigen::SparseMatrix<double>(C.sparseView()), l, u);
    w.settings.eps_abs = q.get_eps_abs(); w.settings.eps_rel = q.get_eps_rel(); w.settings.check_duality_gap = true; w.settings.eps_duality_gap_abs = q.get_eps_abs(); w.settings.eps_duality_gap_rel = q.get_eps_rel(); w.settings.max_iter = w.settings.max_iter_in = q.get_max_qp_iters(); w.solve(); x = w.results.x; z = w.results.z; if (iters) *iters = int(w.results.info.iter); if (ranOut) *ranOut = w.results.info.status == proxsuite::proxqp::QPSolverOutput::PROXQP_MAX_ITER_REACHED;
    return w.results.info.status == proxsuite::proxqp::QPSolverOutput::PROXQP_SOLVED;
  }
  void set_filter_size(std::size_t n) override { q.set_filter_size(n); }
  void forget() override { for (auto& v : q.lag_mul_) v.setZero(); for (auto& v : const_cast<std::vector<V>&>(q.get_y())) v.setZero(); }
  void verbose(bool b) override { q.setCallbacks(b); }
  double get_num(const char* n) override {
    if (!strcmp(n, "mu_dynamic")) return q.get_mu_dynamic(); if (!strcmp(n, "mu_constraint")) return q.get_mu_constraint(); if (!strcmp(n, "tol")) return q.get_termination_tolerance();
    if (!strcmp(n, "filter")) return q.get_use_filter_line_search(); if (!strcmp(n, "filter_size")) return q.get_filter_size(); if (!strcmp(n, "eps_abs")) return q.get_eps_abs(); if (!strcmp(n, "eps_rel")) return q.get_eps_rel(); if (!strcmp(n, "max_qp")) return q.get_max_qp_iters();
    return std::nan(""); }
  void set_num(const char* n, double v) override {
    if (!strcmp(n, "mu_dynamic")) q.set_mu_dynamic(v); else if (!strcmp(n, "mu_constraint")) q.set_mu_constraint(v); else if (!strcmp(n, "tol")) q.set_termination_tolerance(v); else if (!strcmp(n, "filter")) q.set_use_filter_line_search(v != 0);
    else if (!strcmp(n, "filter_size")) q.set_filter_size(std::size_t(v)); else if (!strcmp(n, "eps_abs")) q.set_eps_abs(v); else if (!strcmp(n, "eps_rel")) q.set_eps_rel(v); else if (!strcmp(n, "max_qp")) q.set_max_qp_iters(int(v)); }
};
std::shared_ptr<ProxIface> makeProx(std::shared_ptr<crocoddyl::ShootingProblem> p) { return std::make_shared<Impl>(p); }
}  // namespace H
