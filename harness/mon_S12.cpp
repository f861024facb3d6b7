// S12: regularization rules and termination.
#include "common.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/kkt.hpp"
namespace H {
const char* kProperty = "S12";
const char* kRule = "every computation of a direction, its success or failure and every trial step length of a solve is observed; the regularization in force at each of them, the end of the solve and its outcome are predicted from the rules; failures come from indefinite and singular Hessians (predicted by an independent Riccati recursion), from injected exceptions in the direction or the trial, and from failing models; a case is non-trivial when the regularization changed";

struct Ev { char k; double a = 0; bool threw = false; double p = 0, d = 0; bool same = false, amb = false; int iter = 0; double kkt = 0; VV xs, us; bool inj = false; };   // D direction, S trial, C callback
static Spec problem(Rng& R, Kind k, bool hostile) {
  Gen g = genFor(pickCls(R), k != SQP && R.b(0.7)); g.maxT = 5; g.nl = R.u(0.3, 1.5); if (hostile && R.b(0.4)) g.strong = false; Spec s = genSpec(R, g);
  if (hostile) for (auto& N : s.nodes) { if (R.b(0.4)) N.hsu = -R.lu(1e-3, 1e3); if (R.b(0.3)) N.hsx = -R.lu(1e-3, 1e3); if (R.b(0.05)) { N.Nu.setZero(); N.lc_eps = 0; } }
  return s;
}
static double inc(double p, const Cfg& g) { double v = p > 0 ? p * g.finc : g.rmin > 0 ? g.rmin : 1e-9; return std::min(v, g.rmax); }
static double dec(double p, const Cfg& g) { return std::max(p / g.fdec, g.rmin); }
// 1: the regularized Quu is clearly positive definite everywhere, -1: clearly not, 0: undecided
static int definite(const Spec& s, const Metrics& m, double preg, double dreg) {
  int T = s.T; M V2 = m.ev[T].Lxx; V2.diagonal().array() += preg; double big = V2.norm(); bool sure = true; double amp = 1;
  for (int t = T - 1; t >= 0; --t) {
    const Eval& e = m.ev[t]; int nu = s.nodes[t].nu; M Q = e.Lxx + e.Fx.transpose() * V2 * e.Fx; big = std::max(big, Q.norm()); if (!(big < 1e8)) return 0;
    if (nu) {
      M Quu = e.Luu + e.Fu.transpose() * V2 * e.Fu; Quu.diagonal().array() += dreg; M Qxu = e.Lxu + e.Fx.transpose() * V2 * e.Fu; Quu = (0.5 * (Quu + Quu.transpose())).eval(); big = std::max(big, Quu.norm() + Qxu.norm());
      Eigen::SelfAdjointEigenSolver<M> es(Quu); double lo = es.eigenvalues()[0], tol = std::max(1e-7, 1e-13 * amp) * big; amp *= 1 + std::pow(Qxu.norm() / std::max(std::fabs(lo), 1e-300), 2); if (!(amp < 1e10)) amp = INF;
      if (lo < -tol) return sure ? -1 : 0; if (!(lo >= tol)) return 0; if (amp == INF && t > 0) return 0;
      Q -= Qxu * Quu.ldlt().solve(Qxu.transpose()); big = std::max(big, (Qxu * Quu.ldlt().solve(Qxu.transpose())).norm()); if (!(big < 1e8)) return 0; }
    V2 = 0.5 * (Q + Q.transpose()); V2.diagonal().array() += preg;
  }
  return 1;
}
static void rules(Ctx& c, Kind k, bool hostile) {
  Rng R = c.rng(); Spec s = problem(R, k, hostile); Cfg g = genCfg(R, k, 1e-9, 1e-2); g.maxiter = R.b(0.1) ? 0 : R.i(1, 25); if (k == CSQP) g.max_qp = R.i(1, 40); if (k == PROX) { g.max_qp = R.pick({3, 10}); g.maxiter = std::min(g.maxiter, 8); }
  g.rmin = R.b(0.1) ? 0 : R.lu(1e-12, 1e-4); g.rmax = R.b(0.3) ? g.rmin * R.u(2, 100) + R.lu(1e-9, 1e-3) : R.lu(1e-2, 1e9); g.finc = R.u(1.2, 20); g.fdec = R.u(1.2, 20); double pr = R.u();
  g.reginit = pr < 0.35 ? std::nan("") : pr < 0.5 ? 0 : g.rmin + (g.rmax - g.rmin) * R.lu(1e-9, 1); if (R.b(0.1)) g.reginit = g.rmax; g.th_dec = R.lu(1e-3, 1); g.th_inc = R.lu(1e-4, 0.9); if (R.b(0.3)) g.th_inc = R.pick({1., 0.5, 0.25}); if (R.b(0.3)) g.th_dec = R.pick({1., 0.5, 0.25, 0.125});
  if (g.alphas.empty() && R.b()) for (int i = 0; i < 10; ++i) g.alphas.push_back(std::pow(0.5, i)); g.remove_reg = k == CSQP && R.b(0.12); if (R.b(0.15)) g.tol = 0;
  std::string d = describe(k, s, g) + fmt(" reg in [%g,%g] factors %g %g thresholds %g %g", g.rmin, g.rmax, g.finc, g.fdec, g.th_dec, g.th_inc);
  auto r = std::make_shared<Run>(); Prob p = makeProb(s); r->sol = Sol(k, p); Hooks h; r->sol.hook(&h); r->sol.configure(g); r->xs0 = randXs(R, s, R.u(0.1, 1.5)); r->us0 = randUs(R, s, R.u(0.1, 1.5));
  std::vector<Ev> ev; Sol* S = &r->sol; auto* b = S->base(); std::vector<int> metricsOf; long cap = 20000;
  auto snap = [&](char kind) { Ev e; e.k = kind; e.p = b->get_preg(); e.d = b->get_dreg(); e.iter = int(b->get_iter()); return e; };
  double pf = R.b(0.4) ? R.u(0, 0.6) : 0, ps = R.b(0.4) ? R.u(0, 1) : 0, pstep = 2; Rng RF(R.next()); bool bs0 = R.b(0.3); double run = 0;
  std::vector<double> al = g.alphas; int burst = 0; if (g.remove_reg) pf = 0;
  h.dirBegin = [&] { if (long(ev.size()) > cap) throw Monitor::TooMany(); Ev e = snap('D'); e.xs = b->get_xs(); e.us = b->get_us(); e.same = false; e.same = hashVec(*h.xt) == hashVec(e.xs) && hashVec(*h.ut) == hashVec(e.us); ev.push_back(e); };
  h.failDir = [&]() -> int { int f = 0; if (burst > 0) { --burst; f = 1; } else if (RF.b(pf)) { f = RF.i(1, 2); burst = RF.b(0.3) ? RF.i(0, 12) : 0; } ev.back().inj = f; return f && k != CSQP ? 2 : f; };   // SQP and PROXQP keep the derivatives of an attempt that got that far
  h.dirEnd = [&](bool t) { ev.back().threw = t; }; h.step = [&](double a) { if (long(ev.size()) > cap) throw Monitor::TooMany(); Ev e = snap('S'); e.a = a; ev.push_back(e); if (ev[ev.size() - 2].k != 'S') pstep = RF.b(ps) ? std::pow(RF.u(), 3) * 1.2 : 2; };
  h.failStep = [&](double a) { return a > pstep; }; (void)bs0; (void)run;
  std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> v; if (k != PROX) { auto rec = std::make_shared<Recorder>(S, nullptr); rec->hook = [&](Snap& n) { Ev e = snap('C'); e.kkt = n.KKT; ev.push_back(e); }; v.push_back(rec); b->setCallbacks(v); }
  FaultKind fk = F_NONE; if (R.b(0.15)) { fk = R.pick({F_THROW, F_NAN_COST, F_NAN_X, F_NAN_DIFF}); long at = R.i(0, 80), len = R.i(1, 60); p.mon->fault = [=](int, bool df, long i) { return i >= at && i < at + len && (df || fk != F_NAN_DIFF) ? fk : F_NONE; }; }
  p.mon->limit = 3000000; try { r->ret = S->solve(r->xs0, r->us0); } catch (Monitor::TooMany&) { c.fail("terminate", "the solve does not end: %zu events, %ld evaluations [%s]", ev.size(), p.mon->total(), d.c_str()); } catch (std::exception& e) { r->threw = true; r->what = e.what(); }
  v.clear(); if (k != PROX) b->setCallbacks(v); if (c.failed()) return; Snap end = S->snap(); c.add("solves"); c.sample = d;
  // walk through the events
  double q = g.remove_reg ? 0 : std::isnan(g.reginit) ? g.rmin : g.reginit; double lo = std::min(g.rmin, q), hi = std::max(g.rmax, q); bool over = false; int its = 0, cb = 0; bool changed = false; auto same = [](double a, double b) { return std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); };
  bool direct = false; size_t fail = 0; bool tooSmall = false; double lastA = 0; bool steps = false, amb = false; double qAlt = q;
  auto bad = [&](const char* key, size_t i, const std::string& m) { std::string tr; for (size_t j = i > 12 ? i - 12 : 0; j <= i && j < ev.size(); ++j) tr += fmt(" %c%s%g:%g", ev[j].k, ev[j].threw ? "x" : "", ev[j].a, ev[j].p); c.fail(key, "event %zu: %s; recent events%s [%s]", i, m.c_str(), tr.c_str(), d.c_str()); };
  auto afterSteps = [&](bool accepted, bool unknown) {
    steps = false; amb = false; qAlt = q; double q0 = q;
    if (g.remove_reg) return; 
    double w = q; bool end2 = false; if (lastA > g.th_dec) w = dec(w, g); if (lastA <= g.th_inc) { w = inc(w, g); end2 = w >= g.rmax; }
    if (k == CSQP && unknown) { amb = true; qAlt = w; return; } if (k == CSQP && !accepted) return;
    c.add(lastA > g.th_dec ? lastA <= g.th_inc ? "steps_in_both_thresholds" : "steps_that_decrease" : lastA <= g.th_inc ? "steps_that_increase" : "steps_that_keep"); q = w; over = end2; changed |= q != q0; };
  double qMaxHit = 0; (void)direct; (void)fail; (void)tooSmall; (void)qMaxHit; int retries = 0; uint64_t pd = 0;
  for (size_t i = 0; i < ev.size() && !c.failed(); ++i) {
    Ev& e = ev[i];
    if (e.k == 'D') {
      if (steps) afterSteps(e.same, e.same && pd != 0 && pd == hashVec(e.us, hashVec(e.xs)));   // a trial equal to the iterate: accepted or not
      pd = hashVec(e.us, hashVec(e.xs));
      if (over) { bad("limit", i, "goes on although the regularization has reached its maximum"); return; }
      if (amb) { c.add("zero_steps"); if (same(e.p, qAlt) && !same(e.p, q)) q = qAlt; amb = false; }
      if (!same(e.p, q) || !same(e.d, q)) { bad("value", i, fmt("regularization %.17g (control %.17g), by the rules %.17g", e.p, e.d, q)); return; }
      if (!(e.p >= lo * (1 - 1e-12)) || !(e.p <= hi * (1 + 1e-12))) { bad("range", i, fmt("regularization %g outside [%g, %g]", e.p, lo, hi)); return; } c.add("directions");
      if (!e.inj && !fk && k != PROX) { Metrics m; if (finite(e.xs) && finite(e.us) && mag(e.xs) < 1e4 && mag(e.us) < 1e4) { m = metrics(s, e.xs, e.us, true); if (m.ok) { int w = definite(s, m, q, q);
        if (w < 0 && (k == SQP || g.eqguess)) { c.add("directions_predicted_to_fail"); if (!e.threw) { bad("indefinite", i, "a direction is returned although a control Hessian is not positive definite"); return; } }
        if (w > 0) { c.add("directions_predicted_to_succeed"); if (e.threw) { bad("failure", i, "no direction although all control Hessians are positive definite"); return; } } } } }
      if (e.threw) { c.add("failed_directions"); if (g.remove_reg) { if (i + 1 != ev.size() || !r->threw) bad("remove_reg", i, "solve goes on after a failed direction without regularization"); return; }
        q = inc(q, g); changed = true; ++retries; if (q >= g.rmax) over = true; }
      else { ++its; if (its > g.maxiter + (g.extra ? 1 : 0)) { bad("iterations", i, fmt("%d iterations, at most %d%s requested", its, g.maxiter, g.extra ? " and a final one" : "")); return; } }
    } else if (e.k == 'S') { steps = true; lastA = e.a; if (!same(e.p, q)) { bad("value", i, fmt("regularization %.17g during the line search, by the rules %.17g", e.p, q)); return; } }
    else { ++cb; if (!same(e.p, q) || !same(e.d, q)) { bad("value", i, fmt("regularization %.17g (control %.17g) at a callback, by the rules %.17g", e.p, e.d, q)); return; } }
  }
  if (r->threw) { c.add("exceptions_out"); if (changed) c.mark(hashVec(end.xs)); return; }
  if (steps) { bool un = k == CSQP; afterSteps(true, un); if (un && same(end.preg, qAlt)) { q = qAlt; over = q >= g.rmax; changed |= true; } }
  if (over) { c.add("regularization_limit_reached"); if (r->ret) { c.fail("limit", "success although the regularization has reached its maximum [%s]", d.c_str()); return; } }
  if (!same(end.preg, q) || !same(end.dreg, q)) { bad("value", ev.size(), fmt("regularization %.17g (control %.17g) at the end, by the rules %.17g", end.preg, end.dreg, q)); return; }
  if (end.iter > g.maxiter) { c.fail("iterations", "iteration counter %d, limit %d [%s]", end.iter, g.maxiter, d.c_str()); return; }
  if (k != PROX && cb != its) { c.fail("callbacks", "%d callbacks for %d directions [%s]", cb, its, d.c_str()); return; }
  c.add("regularization_retries", retries); c.mx("retries_in_a_solve", retries); if (changed) c.mark(mix(hashVec(end.xs), ev.size()));
}
static void f_csqp(Ctx& c) { rules(c, CSQP, c.id % 2); }
static void f_sqp(Ctx& c) { rules(c, SQP, c.id % 3 != 0); }
static void f_prox(Ctx& c) { rules(c, PROX, false); }

// the other solvers: termination and range
static void f_dev(Ctx& c) {
  Rng R = c.rng(); int w = R.i(0, 2); static const char* nm[] = {"DDP", "FDDP", "KKT"}; Spec s = problem(R, SQP, R.b(0.7)); double rmin = R.lu(1e-12, 1e-4), rmax = R.lu(1e-3, 1e9), reg = R.b() ? std::nan("") : rmin + (rmax - rmin) * R.lu(1e-9, 1); int mi = R.i(0, 25); bool feas = R.b(0.3);
  Prob p = makeProb(s); std::shared_ptr<crocoddyl::SolverAbstract> o; mim_solvers::SolverDDP* dd = nullptr; if (w == 0) { auto q = std::make_shared<mim_solvers::SolverDDP>(p.problem); dd = q.get(); o = q; } else if (w == 1) { auto q = std::make_shared<mim_solvers::SolverFDDP>(p.problem); dd = q.get(); o = q; } else o = std::make_shared<mim_solvers::SolverKKT>(p.problem);
  if (dd) { dd->set_reg_min(rmin); dd->set_reg_max(rmax); dd->set_reg_incfactor(R.u(1.5, 20)); dd->set_reg_decfactor(R.u(1.5, 20)); } VV u = randUs(R, s, 1), x = feas ? rollout(s, u) : randXs(R, s, 1); if (!dd) reg = std::isnan(reg) ? reg : std::min(reg, 1e-3);
  FaultKind fk = R.b(0.3) ? R.pick({F_THROW, F_NAN_COST, F_NAN_X}) : F_NONE; long at = R.i(0, 60), len = R.b(0.3) ? 1000000 : R.i(1, 50); if (fk) p.mon->fault = [=](int, bool, long i) { return i >= at && i < at + len ? fk : F_NONE; };
  double retr = dd ? std::log(rmax / rmin) / std::log(1.5) + 4 : 60; p.mon->limit = long((s.T + 1) * (mi + 2.) * (30 + 2 * retr)); std::string d = fmt("%s %s maxiter=%d reg=%g in [%g,%g]%s", nm[w], shape(s).c_str(), mi, reg, rmin, rmax, fk ? " failing model" : "");
  bool ret = false; try { ret = o->solve(x, u, mi, feas, reg); } catch (Monitor::TooMany&) { c.fail("terminate", "no end after %ld evaluations [%s]", p.mon->total(), d.c_str()); return; } catch (std::exception&) { c.add("exceptions_out"); return; }
  c.add(nm[w]); if (long(o->get_iter()) > mi) { c.fail("iterations", "iteration counter %zu, limit %d [%s]", o->get_iter(), mi, d.c_str()); return; }
  if (dd && (dd->get_preg() < rmin * (1 - 1e-12) || dd->get_preg() > rmax * (1 + 1e-12) || dd->get_preg() != dd->get_dreg())) c.fail("range", "regularization %g/%g outside [%g, %g] [%s]", dd->get_preg(), dd->get_dreg(), rmin, rmax, d.c_str());
  if (p.mon->total() > 0) c.mark(mix(hashVec(o->get_xs()), w)); c.sample = d; (void)ret;
}
const std::vector<Scenario> kScenarios = {{"rules_csqp", f_csqp, 60000, 200000}, {"rules_sqp", f_sqp, 60000, 200000}, {"rules_proxqp", f_prox, 10000, 30000}, {"termination_ddp_fddp_kkt", f_dev, 40000, 120000}};
}  // namespace H
