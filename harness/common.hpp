// Shared by the monitors: problem classes, random solver settings, traced runs
// and the expected values of reported figures.
#pragma once
#include "probe.hpp"
#include "run.hpp"

namespace H {

// ---- problem classes -----------------------------------------------------
enum Cls { LQ, CVX, NL, NLM, FAIL };   // linear-quadratic, convex, non-linear, non-linear on a manifold, with fail regions
inline Gen genFor(Cls c, bool con) {
  Gen g; g.constraints = con;
  if (c == CVX) g.convex_nonquad = true;
  if (c == NL) { g.nonlinear = true; g.convex_nonquad = true; }
  if (c == NLM) { g.nonlinear = true; g.manifold = true; g.nl = 0.4; }
  if (c == FAIL) { g.nonlinear = true; g.convex_nonquad = true; g.fail_regions = true; }
  return g;
}
inline Cls pickCls(Rng& R) { double p = R.u(); return p < 0.2 ? LQ : p < 0.45 ? CVX : p < 0.75 ? NL : NLM; }

inline Cfg genCfg(Rng& R, Kind k, double tlo = 1e-8, double thi = 1e-1) {
  Cfg c; c.tol = R.lu(tlo, thi); c.filter = R.b(0.6); c.filter_size = R.b(0.4) ? 1 : R.i(2, 6);
  c.mu_dyn = R.lu(0.5, 200); c.mu_con = R.lu(0.5, 200);
  if (k == CSQP && R.b(0.3)) { if (R.b()) c.mu_dyn = -1; else c.mu_con = -1; if (R.b(0.3)) c.mu_dyn = c.mu_con = -1; c.coef = R.u(1, 20); }
  if (R.b(0.3)) { int n = R.i(1, 7); double a = 1; for (int i = 0; i < n; ++i) { c.alphas.push_back(a); a *= R.u(0.1, 0.8); } }
  c.extra = R.b(0.3); c.maxiter = R.b(0.25) ? R.i(0, 4) : R.i(5, 40);
  if (R.b(0.3)) c.reginit = R.lu(1e-9, 1e-3);
  if (R.b(0.2)) { c.rmin = R.lu(1e-12, 1e-6); c.finc = R.u(1.5, 20); c.fdec = R.u(1.5, 20); }
  if (k == CSQP) {
    if (R.b(0.6)) { c.eps_abs = R.lu(1e-9, 1e-3); c.eps_rel = R.b(0.5) ? 0 : R.lu(1e-9, 1e-3); }
    c.interval = R.b(0.4) ? 25 : R.i(1, 12); c.max_qp = R.b(0.4) ? 1000 : R.i(1, 120); c.adapt = R.i(1, 10); c.alpha = R.b(0.5) ? 1.6 : R.u(0.6, 1.9); c.sigma = R.b(0.5) ? 1e-6 : R.lu(1e-9, 1e-3);
    c.eqguess = R.b(0.7); c.reset_y = R.b(0.4); c.reset_rho = R.b(0.3); c.remove_reg = R.b(0.15); c.heur = R.b(0.25);
  }
  if (k == PROX) { c.eps_abs = R.lu(1e-11, 1e-5); c.eps_rel = R.b(0.6) ? 0 : R.lu(1e-11, 1e-6); c.max_qp = R.pick({1000, 4000}); }
  return c;
}

struct Run { Sol sol; std::vector<Snap> tr; bool ret = false, threw = false; std::string what; Snap end; VV xs0, us0; };
inline void go(Run& r) {
  auto v = std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>>();
  if (r.sol.kind != PROX) { auto rec = std::make_shared<Recorder>(&r.sol, &r.tr); v.push_back(rec); r.sol.base()->setCallbacks(v); }
  try { r.ret = r.sol.solve(r.xs0, r.us0); }
  catch (Monitor::TooMany&) { throw std::runtime_error("solver did not stop evaluating the model"); }
  catch (std::exception& e) { r.threw = true; r.what = e.what(); }
  if (r.sol.kind != PROX) { v.clear(); r.sol.base()->setCallbacks(v); }
  r.end = r.sol.snap();
}
inline std::shared_ptr<Run> runSolve(Kind k, const Prob& p, const Cfg& c, const VV& xs0, const VV& us0) {
  auto r = std::make_shared<Run>(); r->sol = Sol(k, p); r->sol.configure(c); r->xs0 = xs0; r->us0 = us0;
  if (p.mon->limit < 0) p.mon->limit = 4000000;
  go(*r); return r;
}
inline std::shared_ptr<Run> runSolve(Kind k, const Spec& s, const Cfg& c, const VV& xs0, const VV& us0) { return runSolve(k, makeProb(s), c, xs0, us0); }

inline std::string describe(Kind k, const Spec& s, const Cfg& c) {
  return fmt("%s %s tol=%.1e maxiter=%d %s%d extra=%d mu=(%.3g,%.3g)%s interval=%d max_qp=%d eps=(%.1e,%.1e) alpha=%.3g sigma=%.1e eqguess=%d reset_y=%d reset_rho=%d remove_reg=%d heur=%d reginit=%g", kname(k), shape(s).c_str(), c.tol, c.maxiter, c.filter ? "filter" : "merit", c.filter ? c.filter_size : 0, int(c.extra), c.mu_dyn, c.mu_con,
             c.alphas.empty() ? "" : " own-alphas", c.interval, c.max_qp, c.eps_abs, c.eps_rel, c.alpha, c.sigma, int(c.eqguess), int(c.reset_y), int(c.reset_rho), int(c.remove_reg), int(c.heur), c.reginit);
}

// ---- expected figures ----------------------------------------------------
inline double l1(const VV& a) { double s = 0; for (auto& v : a) s += v.size() ? v.lpNorm<1>() : 0.; return s; }
inline double linf(const VV& a) { double s = 0; for (auto& v : a) s = std::max(s, ninf(v)); return s; }
inline double magM(const Metrics& m) { double s = 1; for (auto& e : m.ev) { s += std::fabs(e.cost); } return s; }
inline double kktMag(const Spec& s, const Metrics& m, const VV& lag, const VV* y) {
  double k = 1;
  for (int t = 0; t <= s.T; ++t) { const Eval& e = m.ev[t]; k = std::max(k, ninf(e.Lx)); k = std::max(k, ninf(lag[t])); if (t < s.T) k = std::max(k, ninf(e.Fx.cwiseAbs().transpose() * lag[t + 1].cwiseAbs())); if (t < s.T && s.nodes[t].nu) { k = std::max(k, ninf(e.Lu)); k = std::max(k, ninf(e.Fu.cwiseAbs().transpose() * lag[t + 1].cwiseAbs())); } if (y && s.nodes[t].ng) { k = std::max(k, ninf(e.Gx.cwiseAbs().transpose() * (*y)[t].cwiseAbs())); if (s.nodes[t].nu) k = std::max(k, ninf(e.Gu.cwiseAbs().transpose() * (*y)[t].cwiseAbs())); } }
  return k;
}
inline double meritOf(Kind k, const Cfg& c, double cost, double gap, double con, double lagy) {
  if (k == SQP) return cost + c.mu_dyn * gap;
  if (k == CSQP && (c.mu_dyn < 0 || c.mu_con < 0)) return cost + c.coef * lagy * (gap + con);
  return cost + c.mu_dyn * gap + c.mu_con * con;
}
inline bool shapesOk(const Spec& s, const VV& xs, const VV& us) {
  if (int(xs.size()) != s.T + 1 || int(us.size()) != s.T) return false;
  for (int t = 0; t <= s.T; ++t) { if (xs[t].size() != s.nx()) return false; if (t < s.T && us[t].size() != s.nodes[t].nu) return false; }
  return true;
}
inline VV moveX(const Spec& s, const VV& xs, const VV& dx, double a) { VV o(xs.size()); for (size_t t = 0; t < xs.size(); ++t) o[t] = sInt(s, xs[t], a * dx[t]); return o; }
inline VV moveU(const VV& us, const VV& du, double a) { VV o(us.size()); for (size_t t = 0; t < us.size(); ++t) { o[t] = us[t]; if (o[t].size()) o[t] += a * du[t]; } return o; }

// step length along (dx,du) that turns (xs,us) into (xs2,us2); NaN if none fits
inline double inferStep(const Spec& s, const VV& xs, const VV& us, const VV& dx, const VV& du, const VV& xs2, const VV& us2, const std::vector<double>& al) {
  double best = std::nan(""), be = 1e-9;
  for (double a : al) { VV X = moveX(s, xs, dx, a), U = moveU(us, du, a); double e = std::max(dist(X, xs2), dist(U, us2)) / (1 + mag(X) + mag(U)); if (e < be) { be = e; best = a; } }
  return best;
}
}  // namespace H
