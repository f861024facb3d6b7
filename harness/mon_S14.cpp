// S14: parameters and inputs outside their range are rejected, those inside are used.
#include <iostream>
#include <sstream>
#include "common.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/kkt.hpp"
namespace H {
const char* kProperty = "S14";
const char* kRule = "random sequences of setter calls (interior, boundary, out-of-range and infinite values), solves, wrong guesses and unsupported problems on every solver; a shadow copy of all parameters is compared with all getters after every call, rejected calls must throw and change nothing, and changing one parameter must change nothing but that parameter and, over the cases, the solves; a case is non-trivial when it saw both a rejection and an accepted value, or an effect";

struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() { b = std::cerr.rdbuf(o.rdbuf()); } ~Quiet() { std::cerr.rdbuf(b); } };
struct Par { const char* name; std::function<void(double)> set; std::function<double()> get; int dom; };   // domains: 0 any, 1 >1, 2 >=0, 3 (0,1], 4 bool, 5 size>=1
struct Any {
  int w; Prob p; Sol sol; std::shared_ptr<mim_solvers::SolverDDP> d; std::shared_ptr<mim_solvers::SolverKKT> q; std::vector<Par> ps; crocoddyl::SolverAbstract* a = nullptr; mim_solvers::SolverDDP* dd = nullptr;
  void rebind() { if (w < 3) { ps.clear(); dd = sol.base(); a = dd; bind(); } }
  static const char* nm(int w) { static const char* n[] = {"SQP", "CSQP", "PROXQP", "DDP", "FDDP", "KKT"}; return n[w]; }
  Any(int w_, const Spec& s) : w(w_), p(makeProb(s)) {
    if (w < 3) { sol = Sol(Kind(w), p); dd = sol.base(); a = dd; } else if (w == 3) { d = std::make_shared<mim_solvers::SolverDDP>(p.problem); a = dd = d.get(); } else if (w == 4) { d = std::make_shared<mim_solvers::SolverFDDP>(p.problem); a = dd = d.get(); } else { q = std::make_shared<mim_solvers::SolverKKT>(p.problem); a = q.get(); }
    bind();
  }
  void bind() {
#define PAR(o, n, dom) ps.push_back({#n, [=](double v) { o->set_##n(v); }, [=]() { return double(o->get_##n()); }, dom})
    if (dd) { auto* o = dd; PAR(o, reg_incfactor, 1); PAR(o, reg_decfactor, 1); PAR(o, reg_min, 2); PAR(o, reg_max, 2); PAR(o, th_stepdec, 3); PAR(o, th_stepinc, 3); PAR(o, th_grad, 2); }
    if (w == 0) { auto* o = sol.s.get(); PAR(o, mu_dynamic, 0); PAR(o, termination_tolerance, 0); PAR(o, use_filter_line_search, 4); PAR(o, filter_size, 5); PAR(o, extra_iteration_for_last_kkt, 4); }
    if (w == 1) { auto* o = sol.c.get(); PAR(o, mu_dynamic, 0); PAR(o, mu_constraint, 0); PAR(o, lag_mul_inf_norm_coef, 0); PAR(o, termination_tolerance, 0); PAR(o, use_filter_line_search, 4); PAR(o, filter_size, 5); PAR(o, extra_iteration_for_last_kkt, 4); PAR(o, eps_abs, 0); PAR(o, eps_rel, 0); PAR(o, max_qp_iters, 5); PAR(o, rho_update_interval, 5); PAR(o, adaptive_rho_tolerance, 5); PAR(o, alpha, 0); PAR(o, sigma, 0); PAR(o, equality_qp_initial_guess, 4); PAR(o, max_solve_time, 0);
      ps.push_back({"rho_sparse", [=](double v) { o->set_rho_sparse(v); }, [=]() { return o->get_rho_sparse(); }, 6});
      ps.push_back({"reset_y", [=](double v) { o->reset_y_ = v != 0; }, [=]() { return double(o->reset_y_); }, 4}); ps.push_back({"reset_rho", [=](double v) { o->reset_rho_ = v != 0; }, [=]() { return double(o->reset_rho_); }, 4}); ps.push_back({"remove_reg", [=](double v) { o->remove_reg_ = v != 0; }, [=]() { return double(o->remove_reg_); }, 4}); ps.push_back({"update_rho_with_heuristic", [=](double v) { o->update_rho_with_heuristic_ = v != 0; }, [=]() { return double(o->update_rho_with_heuristic_); }, 4}); }
    if (w == 2) { auto* o = sol.p.get(); for (auto pr : {std::make_pair("mu_dynamic", 0), std::make_pair("mu_constraint", 0), std::make_pair("tol", 0), std::make_pair("filter", 4), std::make_pair("filter_size", 5), std::make_pair("eps_abs", 0), std::make_pair("eps_rel", 0), std::make_pair("max_qp", 5)}) { const char* n = pr.first; ps.push_back({n, [=](double v) { o->set_num(n, v); }, [=]() { return o->get_num(n); }, pr.second}); } }
    if (w == 3) { auto* o = dd; PAR(o, termination_tolerance, 0); }
    if (w == 4) { auto* o = static_cast<mim_solvers::SolverFDDP*>(dd); PAR(o, th_acceptnegstep, 2); PAR(o, termination_tolerance, 0); PAR(o, use_filter_line_search, 4); PAR(o, filter_size, 5); }
    if (w == 5) { auto* o = q.get(); PAR(o, termination_tolerance, 0); }
#undef PAR
  }
};
static bool valid(int dom, double v) { return dom == 1 ? v > 1 : dom == 2 ? v >= 0 : dom == 3 ? v > 0 && v <= 1 : true; }
static double value(Rng& R, int dom, double cur) {
  if (dom == 4) return R.b(); if (dom == 5) return R.i(1, 12); double any[] = {0, -0., 1, -1, INF, -INF, 1e-300, -1e-300, 1e300, 5e-324, 1 + 2.2e-16, 1 - 1.1e-16, 2, 0.5, -2}; if (R.b(0.5)) { double v = any[R.i(0, 14)]; if (dom == 0 || dom == 6) return v; return v; }
  switch (dom) { case 1: return R.b(0.3) ? R.u(-3, 1) : R.u(1.0001, 50); case 2: return R.b(0.3) ? -R.lu(1e-12, 10) : R.lu(1e-12, 10); case 3: return R.b(0.3) ? R.u(-2, 3) : R.u(0.001, 1); default: return R.b(0.2) ? cur : R.n() * R.lu(1e-6, 1e3); } }
static bool bs(const VV& a, const VV& b) { return a.size() == b.size() && hashVec(a) == hashVec(b); }
static bool bd(double a, double b) { return memcmp(&a, &b, 8) == 0 || a == b; }
static Spec prob(Rng& R, int w, double nl = 0) { Gen g = genFor(pickCls(R), (w == 1 || w == 2) && R.b(0.85)); g.maxT = 4; g.nl = nl > 0 ? nl : R.u(0.3, 1.2); return genSpec(R, g); }

static void setters(Ctx& c) {
  Rng R = c.rng(); int w = R.i(0, 5); Spec s = prob(R, w); Quiet qt; Any o(w, s); size_t n = o.ps.size(); std::vector<double> cur(n); for (size_t i = 0; i < n; ++i) cur[i] = o.ps[i].get(); std::vector<double> al; if (o.dd) al = o.dd->get_alphas(); long rej = 0, acc = 0; std::string log; bool solved = false;
  int steps = R.i(5, 40);
  for (int k = 0; k < steps && !c.failed(); ++k) {
    double p = R.u();
    if (p < 0.15 && o.dd) {
      std::vector<double> a; int m = R.i(0, 6); bool good = m > 0; double v = R.pick({1., 1., 0.7, 2.}); for (int j = 0; j < m; ++j) { a.push_back(v); v *= R.u(0.1, 0.95); } double e = R.u(); int pos = m ? R.i(0, m - 1) : 0;
      if (m && e < 0.2) { a[pos] = R.pick({0., -0.5, -INF, -1e-300}); good = false; } else if (m > 1 && e < 0.4) { pos = R.i(1, m - 1); a[pos] = a[pos - 1]; good = false; } else if (m > 1 && e < 0.55) { pos = R.i(1, m - 1); a[pos] = a[pos - 1] * R.u(1, 3) + 1e-6; good = false; } else if (m && e < 0.6) { a[0] = INF; }
      bool t = false; try { o.dd->set_alphas(a); } catch (std::exception&) { t = true; } std::string as; for (double x : a) as += fmt("%g ", x);
      if (t == good) { c.fail("alphas", "%s set_alphas(%s) %s", Any::nm(w), as.c_str(), t ? "throws" : "is accepted"); return; } if (good) { al = a; ++acc; } else ++rej; log = "set_alphas(" + as + ")";
    } else if (p < 0.22 && o.dd) {
      // the older names of the same parameters
      auto at = [&](const char* nm) { size_t i = 0; while (strcmp(o.ps[i].name, nm)) ++i; return i; }; int q = R.i(0, 2); size_t i = at(q == 0 ? "reg_incfactor" : q == 1 ? "reg_min" : "reg_max"); double v = value(R, o.ps[i].dom, cur[i]); bool ok = valid(o.ps[i].dom, v), t = false;
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
      try { if (q == 0) o.dd->set_regfactor(v); else if (q == 1) o.dd->set_regmin(v); else o.dd->set_regmax(v); } catch (std::exception&) { t = true; } log = fmt("set_reg%s(%.17g)", q == 0 ? "factor" : q == 1 ? "min" : "max", v);
      if (t == ok) { c.fail("alias", "%s %s %s", Any::nm(w), log.c_str(), t ? "throws" : "is accepted"); return; } if (ok) { cur[i] = v; if (q == 0) cur[at("reg_decfactor")] = v; ++acc; } else ++rej;
      if (!bd(o.dd->get_regfactor(), cur[at("reg_incfactor")]) || !bd(o.dd->get_regmin(), cur[at("reg_min")]) || !bd(o.dd->get_regmax(), cur[at("reg_max")])) { c.fail("alias", "%s after %s: the older getters read %g %g %g", Any::nm(w), log.c_str(), o.dd->get_regfactor(), o.dd->get_regmin(), o.dd->get_regmax()); return; } c.add("aliases");
#pragma GCC diagnostic pop
    } else if (p < 0.32 && o.a) {
      // a solve does not change parameters
      VV x = randXs(R, s, 1), u = randUs(R, s, 1); bool fine = true; if (w == 1) { auto* cc = o.sol.c.get(); cc->set_rho_update_interval(std::max<int>(1, cc->get_rho_update_interval())); fine = cc->get_alpha() > 0 && cc->get_alpha() < 1.9; } if (w == 2) fine = cur[n - 1] <= 20 && o.sol.p->get_num("eps_abs") > 0 && o.sol.p->get_num("eps_rel") >= 0 && o.sol.p->get_num("eps_rel") < 1e3 && o.sol.p->get_num("eps_abs") < 1e3;
      if (o.dd && (o.dd->get_reg_max() > 1e100 || o.dd->get_reg_incfactor() < 1.01 || o.dd->get_reg_max() < 1e-6)) fine = fine && o.dd->get_reg_incfactor() > 1.01; if (fine) { o.p.mon->limit = o.p.mon->total() + 200000; try { o.a->solve(x, u, R.i(0, 4)); } catch (std::exception&) {} catch (Monitor::TooMany&) {} c.add("solves_between"); solved = true; log = "solve"; }
      for (size_t i = 0; i < n; ++i) if (o.ps[i].dom == 6) cur[i] = o.ps[i].get();   // adapted by the solver itself
    } else {
      size_t i = R.i(0, int(n) - 1); Par& P = o.ps[i]; double v = value(R, P.dom, cur[i]); bool ok = valid(P.dom, v), t = false; try { P.set(v); } catch (std::exception&) { t = true; } log = fmt("set_%s(%.17g)", P.name, v);
      if (t == ok) { c.fail(fmt("%s_%s", t ? "refused" : "accepted", P.name), "%s set_%s(%.17g) %s", Any::nm(w), P.name, v, t ? "throws although it is within the documented range" : "is accepted although it is outside the documented range"); return; }
      if (ok) { cur[i] = v; ++acc; } else ++rej;
    }
    for (size_t i = 0; i < n; ++i) { double g = o.ps[i].get(); if (!bd(g, cur[i])) { c.fail(std::string("value_") + o.ps[i].name, "%s after %s: %s reads %.17g, expected %.17g", Any::nm(w), log.c_str(), o.ps[i].name, g, cur[i]); return; } }
    if (o.dd && o.dd->get_alphas() != al) { c.fail("value_alphas", "%s after %s: the step lengths have changed", Any::nm(w), log.c_str()); return; }
  }
  c.add("accepted", acc); c.add("rejected", rej); c.add(Any::nm(w)); if (acc && rej) c.mark(mix(c.id, acc * 64 + rej)); c.sample = fmt("%s: %ld accepted, %ld rejected%s", Any::nm(w), acc, rej, solved ? ", with solves" : "");
}

// every setting is used by the next solve: changing it changes some solves
static void effects(Ctx& c) {
  Rng R = c.rng(); int w = R.i(0, 2); Kind k = Kind(w); Spec s = prob(R, w, R.u(0.3, 3)); if (R.b(0.3)) for (auto& N : s.nodes) { if (R.b(0.4)) N.hsu = -R.lu(1e-2, 1e2); } Quiet qt;
  Any a(w, s), b(w, s); Cfg g = genCfg(R, k, 1e-9, 1e-2); g.maxiter = R.i(3, 12); if (k == CSQP) { g.max_qp = R.i(10, 120); g.eps_abs = R.lu(1e-8, 1e-3); if (g.eps_rel == 0) g.eps_rel = 1e-5; g.remove_reg = false; g.heur = R.b(0.3); g.interval = R.i(2, 20); g.adapt = R.i(2, 8); } if (k == PROX) { g.max_qp = 20; g.maxiter = 8; g.eps_abs = 1e-9; }
  double cut = R.b(0.5) ? R.lu(0.01, 1) : 2; Hooks ha, hb; ha.failStep = hb.failStep = [=](double al) { return al > cut; }; a.sol.hook(&ha); b.sol.hook(&hb); a.rebind(); b.rebind();
  g.rmin = R.lu(1e-8, 1e-2); if (R.b(0.3)) { g.mu_dyn = R.lu(1e-3, 1); g.mu_con = R.lu(1e-3, 1); } if (k == CSQP && R.b(0.3)) g.mu_dyn = -1; a.sol.configure(g); b.sol.configure(g);
  // change one parameter of b
  std::vector<size_t> el; for (size_t i = 0; i < a.ps.size(); ++i) if (strcmp(a.ps[i].name, "th_grad") && strcmp(a.ps[i].name, "max_solve_time") && strcmp(a.ps[i].name, "rho_sparse")) el.push_back(i);
  bool alph = R.b(1. / (el.size() + 1)); std::string name = alph ? "alphas" : ""; double v = 0; size_t i = 0;
  if (alph) { std::vector<double> al; double q = 1; for (int j = 0; j < 5; ++j) { al.push_back(q); q *= R.u(0.2, 0.9); } b.dd->set_alphas(al); }
  else { i = el[R.i(0, int(el.size()) - 1)]; Par& P = b.ps[i]; double cu = P.get(); name = P.name; if (P.dom == 4) v = !cu; else if (P.dom == 5) v = cu == 1 ? R.i(2, 9) : 1; else if (P.dom == 1) v = cu * R.u(2, 5); else if (P.dom == 3) v = cu > 0.3 ? cu * 0.01 : 0.9; else v = cu * R.pick({0.01, 30., 1000.}); if (name == "alpha") v = cu > 1.2 ? 1 : 1.7; if (name == "reg_max") v = g.rmin * 20; if (name == "tol" || name == "termination_tolerance") v = cu > 1e-5 ? 1e-9 : 0.1; P.set(v); if (name.find("filter") != std::string::npos || name == "th_stepdec") { for (Any* o : {&a, &b}) if (k == SQP) o->sol.s->set_use_filter_line_search(name.find("use") == std::string::npos || o == &a); else if (k == CSQP) o->sol.c->set_use_filter_line_search(name.find("use") == std::string::npos || o == &a); else o->sol.p->set_num("filter", name != "filter" || o == &a); } }
  VV x = randXs(R, s, R.u(0.5, 2)), u = randUs(R, s, R.u(0.5, 2)); auto go2 = [&](Any& o, Run& r) { r.sol = o.sol; r.xs0 = x; r.us0 = u; r.sol.cfg.maxiter = g.maxiter; r.sol.cfg.reginit = g.reginit; o.p.mon->limit = 2000000; go(r); };
  Run ra, rb; go2(a, ra); go2(b, rb); bool diff = ra.ret != rb.ret || ra.threw != rb.threw || ra.tr.size() != rb.tr.size() || !bs(ra.end.xs, rb.end.xs) || !bs(ra.end.lag, rb.end.lag) || ra.end.iter != rb.end.iter || ra.end.preg != rb.end.preg;
  for (size_t j = 0; !diff && j < ra.tr.size(); ++j) diff = !bs(ra.tr[j].xs, rb.tr[j].xs) || !bd(ra.tr[j].merit, rb.tr[j].merit) || ra.tr[j].preg != rb.tr[j].preg || !bs(ra.tr[j].lag, rb.tr[j].lag) || ra.tr[j].qp_iters != rb.tr[j].qp_iters || !bs(ra.tr[j].rho, rb.tr[j].rho);
  std::string key = std::string(kname(k)) + "." + name; c.add(("changed:" + key).c_str()); if (diff) { c.add(("effect:" + key).c_str()); c.mark(mix(hashVec(rb.end.xs), i)); } c.sample = key + (diff ? " had an effect" : " had none here");
}

// only the last value of each parameter counts, not how it came about
static void histories(Ctx& c) {
  Rng R = c.rng(); int w = R.i(0, 4); Spec s = prob(R, w, R.u(0.3, 3)); Quiet qt; Any o(w, s), f(w, s); Cfg g = genCfg(R, w < 3 ? Kind(w) : SQP, 1e-9, 1e-2); g.maxiter = R.i(2, 12); if (w == 1) g.max_qp = std::min(g.max_qp, 80); if (w == 2) { g.max_qp = 20; g.maxiter = 6; }
  if (w < 3) f.sol.configure(g);
  size_t n = f.ps.size(); std::vector<double> fin(n); std::vector<double> al = f.dd->get_alphas();
  if (w >= 3) { if (!g.alphas.empty()) al = g.alphas; for (size_t i = 0; i < n; ++i) { Par& P = f.ps[i]; double v = P.get(); if (R.b(0.5)) v = P.dom == 1 ? R.u(1.5, 20) : P.dom == 3 ? R.u(0.01, 1) : P.dom == 5 ? R.i(1, 6) : P.dom == 4 ? R.b() : v * R.lu(0.1, 10); P.set(v); } f.dd->set_alphas(al); }
  for (size_t i = 0; i < n; ++i) fin[i] = f.ps[i].get();
  // the history: anything admissible, then the final values in any order
  int m = R.i(1, 30); std::string log; for (int i = 0; i < m; ++i) { Par& P = o.ps[R.i(0, int(n) - 1)]; double v = value(R, P.dom, P.get()); if (R.b(0.2)) for (Par& Q : o.ps) if (!strcmp(Q.name, "filter_size") && R.b()) { Q.set(R.i(1, 12)); log += fmt("filter_size=%g ", Q.get()); } try { P.set(v); log += fmt("%s=%.3g ", P.name, v); } catch (std::exception&) {} }
  if (R.b(0.3)) { std::vector<double> a2; double q = 1; for (int j = 0; j < R.i(1, 14); ++j) { a2.push_back(q); q *= 0.7; } o.dd->set_alphas(a2); }
  std::vector<size_t> ord(n + 1); for (size_t i = 0; i <= n; ++i) ord[i] = i; for (size_t i = n; i; --i) std::swap(ord[i], ord[R.i(0, int(i))]);
  for (size_t i : ord) { if (i == n) o.dd->set_alphas(al); else o.ps[i].set(fin[i]); } for (size_t i = 0; i < n; ++i) f.ps[i].set(fin[i]);
  for (size_t i = 0; i < n; ++i) if (!bd(o.ps[i].get(), fin[i])) { c.fail("order", "%s: %s reads %.17g, the last value set is %.17g (another parameter's setter changed it) [%s]", Any::nm(w), o.ps[i].name, o.ps[i].get(), fin[i], log.c_str()); return; }
  VV x = randXs(R, s, R.u(0.3, 2)), u = randUs(R, s, R.u(0.3, 2)); std::string d = fmt("%s ", Any::nm(w)) + (w < 3 ? describe(Kind(w), s, g) : shape(s)) + " after " + log; int solves = R.b(0.3) ? 2 : 1;
  for (int q = 0; q < solves; ++q) {
    if (w < 3) {
      Run ra, rb; auto go2 = [&](Any& z, Run& r) { r.sol = z.sol; r.xs0 = x; r.us0 = u; r.sol.cfg = g; z.p.mon->limit = 4000000; go(r); }; go2(o, ra); go2(f, rb);
      bool same = ra.ret == rb.ret && ra.threw == rb.threw && ra.tr.size() == rb.tr.size() && bs(ra.end.xs, rb.end.xs) && bs(ra.end.us, rb.end.us) && bs(ra.end.lag, rb.end.lag) && ra.end.iter == rb.end.iter && bd(ra.end.preg, rb.end.preg); for (size_t j = 0; same && j < ra.tr.size(); ++j) same = bs(ra.tr[j].xs, rb.tr[j].xs) && bd(ra.tr[j].merit, rb.tr[j].merit) && bd(ra.tr[j].KKT, rb.tr[j].KKT) && bs(ra.tr[j].lag, rb.tr[j].lag) && bs(ra.tr[j].rho, rb.tr[j].rho) && ra.tr[j].qp_iters == rb.tr[j].qp_iters;
      if (!same) { c.fail("history", "the solve depends on parameter values set earlier: trajectories differ by %g [%s]", dist(ra.end.xs, rb.end.xs), d.c_str()); return; } if (ra.tr.size() > 1) c.mark(mix(hashVec(ra.end.xs), w));
    } else {
      auto run = [&](Any& z) { z.p.mon->limit = 4000000; try { return z.a->solve(x, u, g.maxiter) ? 1 : 0; } catch (std::exception&) { return 2; } }; int a1 = run(o), a2 = run(f);
      if (a1 != a2 || !bs(o.a->get_xs(), f.a->get_xs()) || !bs(o.a->get_us(), f.a->get_us()) || o.a->get_iter() != f.a->get_iter() || !bd(o.dd->get_preg(), f.dd->get_preg())) { c.fail("history", "the solve depends on parameter values set earlier: trajectories differ by %g [%s]", dist(o.a->get_xs(), f.a->get_xs()), d.c_str()); return; } if (o.a->get_iter()) c.mark(mix(hashVec(o.a->get_xs()), w));
    }
    c.add("histories"); c.sample = d;
  }
}
// guesses of the wrong shape
static void guesses(Ctx& c) {
  Rng R = c.rng(); int w = R.i(0, 5); Spec s = prob(R, w); Quiet qt; Any o(w, s), f(w, s); VV x = randXs(R, s, 1), u = randUs(R, s, 1); if (w == 1) { for (Any* q : {&o, &f}) { q->sol.c->reset_y_ = true; q->sol.c->set_max_qp_iters(50); } } if (w == 2) for (Any* q : {&o, &f}) q->sol.p->set_num("max_qp", 10);
  int T = s.T, m = R.i(1, 4); std::string d;
  if (R.b(0.5)) { try { o.a->solve(x, u, R.i(0, 3)); } catch (std::exception&) {} }
  for (int i = 0; i < m; ++i) {
    VV bx = x, bu = u; int kind = R.i(0, 7), t;
    switch (kind) { case 0: bx.pop_back(); break; case 1: bx.push_back(x[0]); break; case 2: if (T < 2) { bu.push_back(u[0]); } else bu.pop_back(); break; case 3: bu.push_back(u[0]); break;
      case 4: t = R.i(0, T); bx[t] = V::Zero(x[t].size() + R.i(1, 3)); break; case 5: t = R.i(0, T); bx[t] = V::Zero(R.i(0, int(x[t].size()) - 1)); break; case 6: t = R.i(0, T - 1); bu[t] = V::Zero(u[t].size() + R.i(1, 2)); break; default: t = R.i(0, T - 1); if (u[t].size() == 0) { bu[t] = V::Zero(1); } else bu[t] = V::Zero(R.i(0, int(u[t].size()) - 1)); }
    bool thr = false; long before = o.p.mon->total(); try { o.a->solve(bx, bu, 3); } catch (std::exception&) { thr = true; }
    d = fmt("%s %s guess kind %d", Any::nm(w), shape(s).c_str(), kind); if (!thr) { c.fail("guess", "a guess of the wrong shape is accepted [%s]", d.c_str()); return; } if (o.p.mon->total() != before) c.fail("guess", "%ld evaluations with a rejected guess [%s]", o.p.mon->total() - before, d.c_str()); c.add("guesses_rejected");
    if (o.p.mon->baddim) { c.fail("guess", "model called with a vector of the wrong size [%s]", d.c_str()); return; }
  }
  if (w == 2) o.sol.p->forget(); if (w == 2) f.sol.p->forget(); int mi = R.i(1, 4); auto rn = [&](Any& q) { try { return q.a->solve(x, u, mi) ? 1 : 0; } catch (std::exception&) { return 2; } }; int ra = rn(o), rb = rn(f);
  if (ra != rb || !bs(o.a->get_xs(), f.a->get_xs()) || !bs(o.a->get_us(), f.a->get_us()) || (ra != 2 && !bd(o.a->get_cost(), f.a->get_cost()))) c.fail("after", "after rejected guesses the solve differs from a fresh solver's by %g [%s]", dist(o.a->get_xs(), f.a->get_xs()), d.c_str());
  // an empty guess means zero states and controls
  if (R.b(0.3)) { VV z(T + 1), v(T); for (int t = 0; t <= T; ++t) { z[t] = fromTangent(s.circ, V::Zero(s.n)); if (t < T) v[t] = V::Zero(u[t].size()); } Any p1(w, s), p2(w, s); VV e; int m2 = R.i(1, 3); auto r2 = [&](Any& q, const VV& X, const VV& U) { if (w == 1) q.sol.c->set_max_qp_iters(40); if (w == 2) q.sol.p->set_num("max_qp", 10); try { return q.a->solve(X, U, m2) ? 1 : 0; } catch (std::exception&) { return 2; } }; int a1 = r2(p1, e, e), a2 = r2(p2, z, v); c.add("empty_guesses"); if (a1 != a2 || !bs(p1.a->get_xs(), p2.a->get_xs())) c.fail("empty", "an empty guess does not mean zeros: %g [%s]", dist(p1.a->get_xs(), p2.a->get_xs()), d.c_str()); }
  c.mark(mix(hashVec(o.a->get_xs()), w)); c.sample = d;
}

// equality constraints through crocoddyl's own interface
struct NhModel : public HModel {
  NhModel(std::shared_ptr<crocoddyl::StateAbstract> st, std::shared_ptr<Spec> s, int node, Monitor* m, int nh) : HModel(st, s, node, m) { nh_ = nh; }
};
static void unsupported(Ctx& c) {
  Rng R = c.rng(); int w = R.i(1, 2); Spec s = prob(R, w); Quiet qt; Prob p = makeProb(s); int t = R.b(0.4) ? s.T : R.i(0, s.T - 1), nh = R.i(1, 3); bool none = R.b(0.25); if (none) nh = 0;
  std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>> run; for (int i = 0; i <= s.T; ++i) { p.models[i] = i == t ? std::make_shared<NhModel>(p.state, p.spec, i, p.mon.get(), nh) : p.models[i]; if (i < s.T) run.push_back(p.models[i]); }
  p.problem = std::make_shared<crocoddyl::ShootingProblem>(s.x0, run, p.models.back()); bool thr = false; try { Sol x(Kind(w), p); } catch (std::exception&) { thr = true; }
  if (thr == none) c.fail("nh", "%s %s a problem with %d equality constraints at node %d of %d", kname(Kind(w)), thr ? "rejects" : "accepts", nh, t, s.T); c.add(none ? "supported_problems" : "unsupported_problems"); c.mark(mix(c.id, t)); c.sample = fmt("%s nh=%d at %d/%d", kname(Kind(w)), nh, t, s.T);
}
const std::vector<Scenario> kScenarios = {{"setters", setters, 20000, 200000}, {"histories", histories, 24000, 150000}, {"effects", effects, 60000, 180000}, {"guesses", guesses, 6000, 60000}, {"unsupported", unsupported, 1200, 5000}};
}  // namespace H
