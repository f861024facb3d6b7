// S19: the unconstrained solvers DDP, FDDP and KKT: directions, trials, acceptance,
// figures, success and failing models.
#include "common.hpp"
#include "mim_solvers/fddp.hpp"
#include "mim_solvers/kkt.hpp"
namespace H {
const char* kProperty = "S19";
const char* kRule = "every direction and every trial of DDP, FDDP and KKT solves is recorded; value functions, gains and multipliers are recomputed by an independent recursion (KKT: by the dense optimality system), trials by rolling the problem's formulas out, the accepted trial, the figures, the end of the solve and its outcome from the rules; a case is non-trivial when the iterate moved at least once";

static double nrm(const M& a) { double k = 0; for (int i = 0; i < a.size(); ++i) { double v = std::fabs(a.data()[i]); if (!(v <= 1e300)) return INF; k = std::max(k, v); } return k; }
static bool bitSame(const VV& a, const VV& b) { return a.size() == b.size() && hashVec(a) == hashVec(b); }

// D: a direction, S: a trial, C: a callback
struct Ev { char k; bool threw = false; VV xs, us, fs, Vx, kk, lag, xt, ut; std::vector<M> Vxx, K; double p = 0, d = 0, a = 0, cost = 0, ct = 0, gt = 0, KKT = 0, stop = 0; bool feas = false; int iter = 0; };
template <class S> struct Rec : public S {
  std::vector<Ev>* out = nullptr; std::size_t cap = 20000;
  explicit Rec(std::shared_ptr<crocoddyl::ShootingProblem> p) : S(p) {}
  Ev base(char k) { Ev e; e.k = k; e.p = this->preg_; e.d = this->dreg_; e.feas = this->is_feasible_; e.iter = int(this->iter_); e.cost = this->cost_; e.xs = this->xs_; e.us = this->us_; e.stop = this->stop_; e.KKT = this->get_KKT(); return e; }
  Ev dir() { Ev e = base('D'); e.fs = this->fs_; fill(e, static_cast<S*>(this)); return e; }
  void fill(Ev& e, mim_solvers::SolverDDP*) { e.Vx = this->get_Vx(); e.Vxx = this->get_Vxx(); e.kk = this->get_k(); for (auto& q : this->get_K()) e.K.push_back(q); e.lag = lagOf(static_cast<S*>(this)); }
  void fill(Ev& e, mim_solvers::SolverKKT*) { e.Vx = this->get_dxs(); e.kk = this->get_dus(); e.lag = this->get_lambdas(); }
  VV lagOf(mim_solvers::SolverDDP*) { return this->lag_mul_; }
  double gapTry(mim_solvers::SolverFDDP*) { return this->gap_norm_try_; }
  double gapTry(mim_solvers::SolverDDP*) { return 0; }
  double gapTry(mim_solvers::SolverKKT*) { return 0; }
  void computeDirection(const bool r) override {
    if (!out) { S::computeDirection(r); return; }
    if (out->size() > cap) throw Monitor::TooMany();
    try { S::computeDirection(r); } catch (std::exception&) { Ev e = base('D'); e.threw = true; out->push_back(e); throw; }
    out->push_back(dir());
  }
  double tryStep(const double a) override {
    if (!out) return S::tryStep(a);
    if (out->size() > cap) throw Monitor::TooMany();
    Ev e = base('S'); e.a = a; e.xs.clear(); e.us.clear();
    double m = 0; try { m = S::tryStep(a); } catch (std::exception&) { e.threw = true; e.xt = this->xs_try_; e.ut = this->us_try_; out->push_back(e); throw; }
    e.xt = this->xs_try_; e.ut = this->us_try_; e.ct = this->cost_try_; e.gt = gapTry(static_cast<S*>(this)); out->push_back(e); return m;
  }
};
struct CbD : public mim_solvers::CallbackAbstract { typedef mim_solvers::CallbackAbstract Base; std::function<void()> f; void operator()(crocoddyl::SolverAbstract&) override { f(); } void operator()(crocoddyl::SolverAbstract&, std::string) override { f(); } };
struct CbK : public crocoddyl::CallbackAbstract { typedef crocoddyl::CallbackAbstract Base; std::function<void()> f; void operator()(crocoddyl::SolverAbstract&) override { f(); } };

enum Who { W_DDP, W_FDDP, W_KKT };
static const char* wn[] = {"DDP", "FDDP", "KKT"};
struct Set { Who w; bool filter = true; int fsz = 1, maxiter = 20; double tol = 1e-6, acc = 0.1, neg = 2, rmin = 1e-9, reginit = std::nan(""), thStop = 1e-9; std::vector<double> al; bool feas = false; };
struct Res { std::vector<Ev> ev; bool ret = false, threw = false; std::string what; VV xs, us, lag; double cost = 0, KKT = 0, stop = 0; int iter = 0; };

template <class S> static void common(Rec<S>& s, const Set& g) { s.set_termination_tolerance(g.tol); s.set_th_acceptstep(g.acc); s.set_th_stop(g.thStop); }
static void conf(Rec<mim_solvers::SolverKKT>& s, const Set& g) { common(s, g); }
static void conf(Rec<mim_solvers::SolverDDP>& s, const Set& g) { common(s, g); s.set_alphas(g.al); s.set_reg_min(g.rmin); }
static void conf(Rec<mim_solvers::SolverFDDP>& s, const Set& g) { common(s, g); s.set_alphas(g.al); s.set_reg_min(g.rmin); s.set_use_filter_line_search(g.filter); s.set_filter_size(g.fsz); s.set_th_acceptnegstep(g.neg); }
static VV lagR(Rec<mim_solvers::SolverKKT>& s) { return s.get_lambdas(); }
template <class S> static VV lagR(Rec<S>& s) { return s.lag_mul_; }

struct Runner {
  Who w; Prob p; std::shared_ptr<Rec<mim_solvers::SolverDDP>> d; std::shared_ptr<Rec<mim_solvers::SolverFDDP>> f; std::shared_ptr<Rec<mim_solvers::SolverKKT>> k;
  Runner(Who w_, const Prob& p_) : w(w_), p(p_) { if (w == W_DDP) d = std::make_shared<Rec<mim_solvers::SolverDDP>>(p.problem); else if (w == W_FDDP) f = std::make_shared<Rec<mim_solvers::SolverFDDP>>(p.problem); else k = std::make_shared<Rec<mim_solvers::SolverKKT>>(p.problem); }
  template <class S, class Cb> Res one(Rec<S>& s, const Set& g, const VV& x, const VV& u) {
    Res r; conf(s, g); s.out = &r.ev; auto cb = std::make_shared<Cb>(); cb->f = [&] { r.ev.push_back(s.base('C')); };
    std::vector<std::shared_ptr<typename Cb::Base>> v{cb}; s.setCallbacks(v);
    try { r.ret = s.solve(x, u, g.maxiter, g.feas, g.reginit); } catch (std::exception& e) { r.threw = true; r.what = e.what(); }
    v.clear(); s.setCallbacks(v); s.out = nullptr; r.xs = s.get_xs(); r.us = s.get_us(); r.cost = s.get_cost(); r.KKT = s.get_KKT(); r.iter = int(s.get_iter()); r.stop = s.get_stop(); r.lag = lagR(s); return r;
  }
  Res go(const Set& g, const VV& x, const VV& u) { if (w == W_DDP) return one<mim_solvers::SolverDDP, CbD>(*d, g, x, u); if (w == W_FDDP) return one<mim_solvers::SolverFDDP, CbD>(*f, g, x, u); return one<mim_solvers::SolverKKT, CbK>(*k, g, x, u); }
};

static Spec problem(Rng& R) { Gen g = genFor(pickCls(R), false); g.maxT = 6; g.nl = R.u(0.2, 1.2); if (R.b(0.1)) g.fail_regions = true; Spec s = genSpec(R, g); if (R.b(0.15)) { s = Spec(); g = genFor(LQ, false); s = genSpec(R, g); singleBlock(R, s, false); } return s; }
static Set settings(Rng& R, Who w) {
  Set g; g.w = w; g.tol = R.lu(1e-9, 1e-1); g.acc = R.b(0.5) ? 0.1 : R.u(0.01, 0.9); g.neg = R.b(0.5) ? 2 : R.u(0, 4); g.filter = R.b(); g.fsz = R.b(0.4) ? 1 : R.i(2, 5); g.maxiter = R.b(0.2) ? R.i(0, 3) : R.i(3, 20); g.rmin = R.lu(1e-12, 1e-6); g.thStop = R.b(0.6) ? 1e-200 : R.lu(1e-12, 1e-3);
  if (w == W_KKT) { for (int i = 0; i < 10; ++i) g.al.push_back(std::pow(0.5, i)); }
  else { double a = R.b(0.8) ? 1 : R.u(0.3, 1); int n = R.b(0.4) ? 10 : R.i(1, 8); double f = R.u(0.2, 0.8); for (int i = 0; i < n; ++i, a *= f) g.al.push_back(a); if (R.b(0.3)) g.reginit = R.lu(1e-10, 1e-2); }
  return g;
}
static std::string describe(const Set& g, const Spec& s) { return fmt("%s %s tol=%.1e accept=%.3g/%.3g %s%d maxiter=%d rmin=%.1e reginit=%g th_stop=%.1e steps=%zu%s", wn[g.w], shape(s).c_str(), g.tol, g.acc, g.neg, g.filter ? "filter" : "model", g.fsz, g.maxiter, g.rmin, g.reginit, g.thStop, g.al.size(), g.feas ? " feasible" : ""); }

// what the recursion gives at an iterate
struct Ric { bool ok = false; std::vector<M> Vxx, K; VV Vx, k, Qu; double d0 = 0, d1 = 0, dq = 0, dg = 0, big = 1, worst = 1, stop = 0, mag0 = 0; std::vector<double> ev, ek; };
static Ric riccati(const Spec& s, const Metrics& m, double p, double d, bool feas) {
  Ric r; int T = s.T; r.Vxx.resize(T + 1); r.Vx.resize(T + 1); r.K.resize(T); r.k.resize(T); r.Qu.resize(T); r.ev.assign(T + 1, 0); r.ek.assign(T, 0); M V2 = m.ev[T].Lxx; V2.diagonal().array() += p; r.Vxx[T] = V2; r.Vx[T] = m.ev[T].Lx; if (!feas) r.Vx[T] += V2 * m.fs[T];
  r.big = nrm(V2) + ninf(r.Vx[T]); r.ev[T] = 1e-16 * (1 + r.big);
  if (!feas) { double a = r.Vx[T].dot(m.fs[T]), b = m.fs[T].dot(V2 * m.fs[T]); r.dg -= a; r.dq += b; r.mag0 += std::fabs(a) + std::fabs(b); }
  for (int t = T - 1; t >= 0; --t) {
    const Eval& e = m.ev[t]; int nu = s.nodes[t].nu; V Qx = e.Lx + e.Fx.transpose() * r.Vx[t + 1]; M Q = e.Lxx + e.Fx.transpose() * r.Vxx[t + 1] * e.Fx; V vx = Qx; M vxx = Q; r.big = std::max(r.big, nrm(Q) + ninf(Qx)); if (!(r.big < 1e9)) return r;
    double fn = nrm(e.Fx) + nrm(e.Fu), eQ = (r.ev[t + 1] + 1e-16 * nrm(r.Vxx[t + 1])) * fn * fn + 1e-16 * (nrm(e.Lxx) + nrm(e.Lxu) + nrm(e.Luu) + d), kn = 0;
    if (nu) {
      r.Qu[t] = e.Lu + e.Fu.transpose() * r.Vx[t + 1]; M Quu = e.Luu + e.Fu.transpose() * r.Vxx[t + 1] * e.Fu; Quu.diagonal().array() += d; M Qxu = e.Lxu + e.Fx.transpose() * r.Vxx[t + 1] * e.Fu; Quu = (0.5 * (Quu + Quu.transpose())).eval();
      Eigen::SelfAdjointEigenSolver<M> es(Quu); double lo = es.eigenvalues()[0], hi = es.eigenvalues()[nu - 1]; if (lo <= 1e-9 * hi || hi <= 0) return r; r.worst = std::max(r.worst, hi / lo); r.big = std::max(r.big, nrm(Quu) + nrm(Qxu) + ninf(r.Qu[t]));
      M inv = es.eigenvectors() * es.eigenvalues().cwiseInverse().asDiagonal() * es.eigenvectors().transpose(); r.K[t] = inv * Qxu.transpose(); r.k[t] = inv * r.Qu[t]; kn = nrm(r.K[t]) + ninf(r.k[t]); eQ += 1e-16 * (hi / lo) * nrm(Quu); r.ek[t] = eQ / lo * (1 + kn); vx -= r.K[t].transpose() * r.Qu[t]; vxx -= Qxu * r.K[t];
      double a = r.Qu[t].dot(r.k[t]), b = r.k[t].dot(Quu * r.k[t]); r.d0 += a; r.d1 -= b; r.stop += r.Qu[t].squaredNorm(); r.mag0 += std::fabs(a) + std::fabs(b); r.big = std::max(r.big, nrm(Qxu) * (nrm(r.K[t]) + ninf(r.k[t])));
    } else { r.K[t] = M::Zero(0, s.n); r.k[t] = V::Zero(0); r.Qu[t] = V::Zero(0); }
    vxx = (0.5 * (vxx + vxx.transpose())).eval(); vxx.diagonal().array() += p; r.Vxx[t] = vxx; r.Vx[t] = feas ? vx : V(vx + vxx * m.fs[t]); r.ev[t] = eQ * (1 + kn) * (1 + kn) + 1e-16 * nrm(vxx);
    if (!feas) { double a = r.Vx[t].dot(m.fs[t]), b = m.fs[t].dot(vxx * m.fs[t]); r.dg -= a; r.dq += b; r.mag0 += std::fabs(a) + std::fabs(b); }
  }
  r.dg += r.d0; r.dq += r.d1; r.ok = r.big < 1e9; return r;
}
// the residual a success rests on
static double residual(const Spec& s, const Metrics& m, const VV& lag, Who w, bool gaps) {
  double k = 0; double sg = w == W_KKT ? -1 : 1;
  for (int t = 0; t <= s.T; ++t) { const Eval& e = m.ev[t]; V rx = e.Lx - sg * lag[t]; if (t < s.T) { rx += sg * (e.Fx.transpose() * lag[t + 1]); if (s.nodes[t].nu) k = std::max(k, ninf(e.Lu + sg * (e.Fu.transpose() * lag[t + 1]))); } k = std::max(k, ninf(rx)); if (gaps) k = std::max(k, ninf(m.fs[t])); }
  return k;
}

struct Chk { Ctx& c; const Spec& s; const Set& g; std::string d;
  bool bad(const char* key, int i, double r, double tol) { c.add("conditions"); c.mx("residual_over_tolerance", r / tol); if (!(r <= tol)) { c.fail(key, "iteration %d: %s off by %g (allowed %g) [%s]", i, key, r, tol, d.c_str()); return true; } return false; } };

// direction of DDP and FDDP
static bool direction(Chk& h, const Ev& e, const Metrics& m, const Ric& r) {
  const Spec& s = h.s; int T = s.T; double gp = 0; for (int t = 0; t <= T; ++t) gp = std::max(gp, ninf(e.feas ? V(e.fs[t]) : V(e.fs[t] - m.fs[t])));
  if (h.bad("gaps", e.iter, gp, e.feas ? 0 : 1e-11 * (1 + linf(e.xs)))) return false;
  if (e.feas && h.bad("declared feasibility", e.iter, m.gapInf, 1e-10 * (1 + linf(e.xs)))) return false;
  if (h.bad("cost", e.iter, std::fabs(e.cost - m.cost), 1e-10 * (1 + magM(m)))) return false;
  if (!r.ok) { h.c.add("skipped_singular"); return true; }
  double dm = 1 + m.gapInf; h.c.add("directions");
  for (int t = 0; t <= T; ++t) {
    double tv = 1e-13 * r.worst * r.big * 10 + 50 * r.ev[t]; if (h.bad("Vxx", e.iter, nrm(e.Vxx[t] - r.Vxx[t]), tv)) return false; if (h.bad("Vx", e.iter, ninf(e.Vx[t] - r.Vx[t]), tv * dm)) return false;
    if (t < T) { double tk = 1e-13 * r.worst * r.big * 10 + 1e-11 * (1 + nrm(r.K[t]) + ninf(r.k[t])) + 50 * r.ek[t]; if (h.bad("gain K", e.iter, e.K[t].rows() == s.nodes[t].nu ? nrm(e.K[t] - r.K[t]) : INF, tk)) return false; if (h.bad("gain k", e.iter, e.kk[t].size() == s.nodes[t].nu ? ninf(e.kk[t] - r.k[t]) : INF, tk * dm)) return false; }
  }
  return true;
}
// trial of DDP and FDDP: the closed-loop rollout; returns false on a violation. gap: norm of the gaps left open
static bool trialRollout(Chk& h, const Ev& e, const Ev& q, bool fddp, const Metrics& m, double& gapLeft, double& cost) {
  const Spec& s = h.s; int T = s.T; bool close = !fddp || e.feas || q.a == 1; gapLeft = 0; cost = 0; double mm = 1; V next = s.x0; bool must = false, may = false; 
  auto look = [&](double v) { if (!std::isfinite(v) || std::fabs(v) > 1e31) must = true; else if (std::fabs(v) > 1e29) may = true; };
  for (int t = 0; t <= T; ++t) {
    V want = next; if (!close) { want = sInt(s, next, V((q.a - 1) * m.fs[t])); gapLeft += sDiff(s, want, next).lpNorm<1>(); }
    double sc = 1 + ninf(next) + ninf(m.fs[t]); if (!(sc < 1e12)) { h.c.add("trial_blown_up"); return true; }
    if (h.bad("trial state", e.iter, ninf(q.xt[t] - want), 1e-12 * sc)) return false;
    V u; if (t < T) { V dx = sDiff(s, e.xs[t], q.xt[t]); u = q.ut[t]; if (s.nodes[t].nu) { V w = e.us[t] - q.a * e.kk[t] - e.K[t] * dx; double us = 1 + ninf(e.us[t]) + ninf(e.kk[t]) + nrm(e.K[t]) * ninf(dx) * 4; if (!(us < 1e12)) { h.c.add("trial_blown_up"); return true; } if (h.bad("trial control", e.iter, ninf(u - w), 1e-12 * us)) return false; } }
    Eval v = evalNode(s, t, q.xt[t], u, false); if (v.thrown) { must = true; break; } cost += v.cost; mm += std::fabs(v.cost); look(cost); if (t < T) look(ninf(v.xnext)); if (must) break; next = v.xnext;
  }
  h.c.add("trials");
  if (q.threw != must && !may) { h.c.fail("trial evaluation", "iteration %d: step %g %s [%s]", e.iter, q.a, q.threw ? "is given up although it can be evaluated" : "is judged although it cannot be evaluated", h.d.c_str()); return false; }
  if (q.threw) { h.c.add("trials_that_cannot_be_evaluated"); return true; }
  if (h.bad("trial cost", e.iter, std::fabs(q.ct - cost), 1e-11 * mm)) return false; if (fddp && h.bad("trial gaps", e.iter, std::fabs(q.gt - (close ? 0 : gapLeft)), 1e-11 * (1 + gapLeft + linf(q.xt)))) return false;
  return true;
}
static int sign(double v, double tie) { return v > tie ? 1 : v < -tie ? -1 : 0; }

static void walk(Ctx& c, const Spec& s, const Set& g, const Res& r) {
  Chk h{c, s, g, describe(g, s)}; Who w = g.w; bool moved = false; std::vector<std::pair<double, double>> mem; int dirs = 0;
  for (size_t i = 0; i < r.ev.size(); ++i) {
    const Ev& e = r.ev[i]; if (e.k != 'D' || e.threw) continue; size_t j = i + 1; while (j < r.ev.size() && r.ev[j].k == 'S') ++j;
    ++dirs; bool last = j >= r.ev.size(); if (e.iter != dirs - 1) { c.fail("iter", "direction %d is counted as iteration %d [%s]", dirs - 1, e.iter, h.d.c_str()); return; }
    if (!shapesOk(s, e.xs, e.us)) { c.fail("shape", "trajectory with wrong dimensions [%s]", h.d.c_str()); return; }
    if (!finite(e.xs) || !finite(e.us)) { c.fail("finite", "iteration %d starts at a trajectory that is not finite [%s]", e.iter, h.d.c_str()); return; }
    if (mag(e.xs) > 1e5 || mag(e.us) > 1e5) { c.add("skipped_huge"); return; }
    Metrics m = metrics(s, e.xs, e.us, true); if (!m.ok) { c.add("skipped_invalid"); return; }
    Ric ric; M H; V grad, prim; double d0 = 0, d1 = 0, dmag = 1;
    if (w != W_KKT) { ric = riccati(s, m, e.p, e.d, e.feas); if (!direction(h, e, m, ric)) return; d0 = ric.d0; d1 = ric.d1; dmag = ric.mag0; }
    else {
      double sc = 1 + mag(e.Vx) + mag(e.kk) + mag(e.lag), big = 1; for (auto& v : m.ev) big = std::max(big, nrm(v.Lxx) + nrm(v.Luu) + nrm(v.Lxu) + nrm(v.Fx) + nrm(v.Fu) + ninf(v.Lx)); if (!(sc < 1e7)) { c.add("skipped_singular"); return; }
      if (h.bad("cost", e.iter, std::fabs(e.cost - m.cost), 1e-10 * (1 + magM(m)))) return; c.add("directions");
      for (int t = 0; t <= s.T; ++t) { const Eval& v = m.ev[t]; int nu = t < s.T ? s.nodes[t].nu : 0; V hx = v.Lxx * e.Vx[t], rx; if (nu) hx += v.Lxu * e.kk[t]; d0 -= v.Lx.dot(e.Vx[t]); d1 -= hx.dot(e.Vx[t]); dmag += std::fabs(v.Lx.dot(e.Vx[t])) + std::fabs(hx.dot(e.Vx[t]));
        rx = v.Lx + hx + e.lag[t]; if (t < s.T) rx -= v.Fx.transpose() * e.lag[t + 1]; if (h.bad("state stationarity", e.iter, ninf(rx), 1e-9 * big * sc)) return;
        if (t == 0 && h.bad("initial state", e.iter, ninf(e.Vx[0] - m.fs[0]), 1e-10 * sc)) return;
        if (t < s.T) { V rd = e.Vx[t + 1] - v.Fx * e.Vx[t] - m.fs[t + 1]; if (nu) rd -= v.Fu * e.kk[t]; if (h.bad("linearized dynamics", e.iter, ninf(rd), 1e-10 * big * sc)) return; }
        if (nu) { V hu = v.Luu * e.kk[t] + v.Lxu.transpose() * e.Vx[t]; d0 -= v.Lu.dot(e.kk[t]); d1 -= hu.dot(e.kk[t]); dmag += std::fabs(v.Lu.dot(e.kk[t])) + std::fabs(hu.dot(e.kk[t])); V ru = v.Lu + hu - v.Fu.transpose() * e.lag[t + 1]; if (h.bad("control stationarity", e.iter, ninf(ru), 1e-9 * big * sc)) return; } }
    }
    // the residual, as shown when the iteration is over
    double K = residual(s, m, e.lag, w, !(e.feas && w != W_KKT)), shown = last ? r.KKT : r.ev[j].KKT; double ks = 1 + kktMag(s, m, e.lag, nullptr);
    if (h.bad("KKT", e.iter, std::fabs(shown - K), 1e-10 * ks)) return;
    if (last && j == i + 1) {   // the solve ended here
      if (r.threw) return;
      if (r.ret) { c.add("successes"); if (!(K <= g.tol + 1e-10 * ks)) c.fail("success", "success with residual %g, tolerance %g [%s]", K, g.tol, h.d.c_str()); else if (!bitSame(r.xs, e.xs) || !bitSame(r.us, e.us)) c.fail("success", "success at another trajectory than the one judged [%s]", h.d.c_str()); else { double kr = residual(s, m, r.lag, w, true); if (!(kr <= g.tol + 1e-9 * ks)) c.fail("success", "success, but the residual with the returned multipliers is %g, tolerance %g [%s]", kr, g.tol, h.d.c_str()); if (ninf(sDiff(s, r.xs[0], s.x0)) > g.tol) c.fail("success", "success away from the initial state [%s]", h.d.c_str()); } }
      else c.fail("end", "the solve ends after a direction without any trial [%s]", h.d.c_str());
      return;
    }
    if (K < g.tol - 1e-10 * ks) { c.fail("goes on", "goes on at a residual of %g, tolerance %g [%s]", K, g.tol, h.d.c_str()); return; }
    // line search
    mem.push_back({m.cost, m.gap1}); size_t chosen = 0; bool any = false, amb = w != W_KKT && !ric.ok; size_t n = j - i - 1;
    for (size_t q = 0; q < n; ++q) {
      const Ev& t = r.ev[i + 1 + q]; if (any && !amb) { c.fail("first", "iteration %d: step %g is tried after step %g was acceptable [%s]", e.iter, t.a, r.ev[i + 1 + chosen].a, h.d.c_str()); return; }
      if (q >= g.al.size() || t.a != g.al[q]) { c.fail("step list", "iteration %d: trial %zu has step %g, not that of the list [%s]", e.iter, q, t.a, h.d.c_str()); return; }
      double left = 0, cost = 0; int ok = -1;
      if (w == W_KKT) {
        VV X = moveX(s, e.xs, e.Vx, t.a), U = moveU(e.us, e.kk, t.a); Metrics mt = metrics(s, X, U, false); c.add("trials"); if (!(mag(X) < 1e12 && mag(U) < 1e12)) { amb = true; break; }
        double er = 0; for (int k = 0; k <= s.T; ++k) er = std::max(er, ninf(t.xt[k] - X[k])); for (int k = 0; k < s.T; ++k) if (s.nodes[k].nu) er = std::max(er, ninf(t.ut[k] - U[k])); if (!t.threw && h.bad("trial", e.iter, er, 1e-11 * (1 + mag(X) + mag(U)))) return;
        bool thrown = !mt.ok; if (t.threw != thrown) { c.fail("trial evaluation", "iteration %d: step %g wrongly %s [%s]", e.iter, t.a, t.threw ? "given up" : "judged", h.d.c_str()); return; }
        if (!t.threw && std::isfinite(mt.cost) && h.bad("trial cost", e.iter, std::fabs(t.ct - mt.cost), 1e-11 * (1 + magM(mt)))) return; cost = mt.cost;
        if (t.threw) ok = 0;
      } else { if (!trialRollout(h, e, t, w == W_FDDP, m, left, cost)) return; if (t.threw) ok = 0; if (w == W_FDDP && (e.feas || t.a == 1)) left = 0; }
      if (ok < 0) {
        double dV = m.cost - cost, tc = 1e-9 * (1 + magM(m) + std::fabs(cost)), td = 1e-9 * (1e-3 + dmag);
        if (w == W_FDDP && g.filter) { ok = 1; size_t cnt = std::min(mem.size(), size_t(g.fsz)); for (size_t z = 0; z < cnt; ++z) { auto& p = mem[mem.size() - 1 - z]; int a = sign(p.first - cost, tc), b = sign(p.second - left, 1e-10 * (1 + left + p.second)); if (a <= 0 && b <= 0) { if ((a == 0 && p.first != cost) || (b == 0 && p.second != left) || true) { if (a == 0 || b == 0) amb = true; } ok = 0; } } if (amb) ok = 1; }
        else {
          double e0 = d0, e1 = d1; if (w == W_FDDP) { double dv = 0; if (!e.feas) for (int k = 0; k <= s.T; ++k) { double z = m.fs[k].dot(ric.Vxx[k] * sDiff(s, t.xt[k], e.xs[k])); dv -= z; dmag += std::fabs(z); } e0 = ric.dg + dv; e1 = ric.dq - 2 * dv; td = 1e-9 * (1e-3 + dmag); }
          double ex = w == W_KKT ? t.a * e0 + 0.5 * t.a * t.a * e1 : t.a * (e0 + 0.5 * t.a * e1);
          if (w == W_KKT) { int a = sign(1e-12 - e0, td); int b = sign(dV - g.acc * ex, tc + td); if (a > 0 || !e.feas || b > 0) ok = 1; else if (a == 0 || b == 0) amb = true, ok = 1; else ok = 0; }
          else { int pos = sign(ex, td), sm = sign(1e-12 - e0, td), b = sign(dV - g.acc * ex, tc + td);
            if (pos == 0) amb = true, ok = 1; else if (pos > 0) { if (sm > 0 || (w == W_DDP && !e.feas) || b > 0) ok = 1; else if (sm == 0 || b == 0) amb = true, ok = 1; else ok = 0; }
            else if (w == W_DDP) ok = 0; else { int b2 = sign(dV - g.neg * ex, tc + td); if (b2 == 0) amb = true; ok = b2 >= 0; } }
        }
      }
      if (amb) { c.add("ties"); break; }
      if (ok) { any = true; chosen = q; }
    }
    if (last) { if (r.threw) return; if (r.ret && w != W_KKT) { c.fail("end", "success after trials [%s]", h.d.c_str()); return; } }
    VV nx = r.xs, nu = r.us; const Ev* cb = !last && r.ev[j].k == 'C' ? &r.ev[j] : nullptr; if (cb) { nx = cb->xs; nu = cb->us; }
    bool mv = !bitSame(nx, e.xs) || !bitSame(nu, e.us); moved |= mv;
    if (!amb) {
      c.add(any ? "accepted" : "all_rejected"); if (any && chosen) c.add("shortened"); const Ev* t = any ? &r.ev[i + 1 + chosen] : nullptr;
      if (any && (!bitSame(nx, t->xt) || !bitSame(nu, t->ut))) { c.fail("accepted", "iteration %d: the next iterate is not the acceptable trial with step %g (%s) [%s]", e.iter, t->a, mv ? "another point" : "unchanged", h.d.c_str()); return; }
      if (!any && mv) { c.fail("accepted", "iteration %d: the iterate moves although no trial is acceptable [%s]", e.iter, h.d.c_str()); return; }
      if (!any && n != g.al.size()) { c.fail("step list", "iteration %d: only %zu of %zu steps tried, none acceptable [%s]", e.iter, n, g.al.size(), h.d.c_str()); return; }
    }
    // the optimality figure
    if (cb) {
      double st = 0; if (w != W_KKT) st = ric.stop; else { for (int t = 0; t <= s.T; ++t) { const Eval& v = m.ev[t]; V rx = v.Lx + e.lag[t]; if (t < s.T) { rx -= v.Fx.transpose() * e.lag[t + 1]; if (s.nodes[t].nu) st += (v.Lu - v.Fu.transpose() * e.lag[t + 1]).squaredNorm(); } st += rx.squaredNorm() + m.fs[t].squaredNorm(); } }
      double t2 = 1e-9 * (st + std::sqrt(st) * ks * 1e-3) + 1e-20 * ks * ks + (w != W_KKT ? 1e-9 * ric.worst * std::sqrt(st + 1e-20) * 1e-3 * ric.big : 0); if ((w == W_KKT || ric.ok) && h.bad("stop", e.iter, std::fabs(cb->stop - st), t2)) return; c.add("callbacks");
      if (w == W_KKT) { bool acc = any || mv, can = !amb && acc && e.feas; bool end = j + 1 >= r.ev.size(); 
        if (end && r.ret) { c.add("successes_by_stop"); if (!(cb->stop < g.thStop)) c.fail("success", "success with stop %g, threshold %g [%s]", cb->stop, g.thStop, h.d.c_str()); return; }
        (void)can; }
    }
  }
  if (r.ret && dirs == 0) c.fail("success", "success without a direction [%s]", h.d.c_str());
  if (moved) c.mark(hashVec(r.xs)); c.sample = h.d + fmt(" -> %s, %d iterations, cost %.4g, residual %.2e", r.ret ? "success" : "no success", r.iter, r.cost, r.KKT);
}
static void guess(Rng& R, const Spec& s, Set& g, VV& x, VV& u) {
  x = randXs(R, s, R.u(0, 1.5)); u = randUs(R, s, R.u(0, 1.5)); g.feas = false;
  if (R.b(0.3)) { x = rollout(s, u); bool ok = finite(x) && mag(x) < 1e3; if (!ok) x = randXs(R, s, 1), u = randUs(R, s, 1); else g.feas = R.b(0.7); }
}
static void normal(Ctx& c, Who w) {
  Rng R = c.rng(); Spec s = problem(R); Set g = settings(R, w); VV x, u; guess(R, s, g, x, u); Prob p = makeProb(s); p.mon->limit = 2000000; Runner o(w, p);
  Res r = o.go(g, x, u); c.add("solves"); walk(c, s, g, r); if (c.failed()) return;
  if (R.b(0.4)) { // the same object, another instance and settings, compared with a fresh one
    Spec s2 = s; s2.x0 = fromTangent(s.circ, R.vec(s.n)); *p.spec = s2; p.sync(); std::vector<double> al = g.al; Set g2 = settings(R, w); guess(R, s2, g2, x, u); Res a = o.go(g2, x, u); c.add("solves"); walk(c, s2, g2, a); if (c.failed()) return;
    bool dirs = false; for (auto& e : a.ev) dirs |= e.k == 'D' && !e.threw; Runner o2(w, makeProb(s2)); Res b = o2.go(g2, x, u); c.add("repeated_on_a_fresh_solver");
    if (a.ret != b.ret || a.threw != b.threw || a.iter != b.iter || !bitSame(a.xs, b.xs) || !bitSame(a.us, b.us) || (dirs && !std::isnan(a.cost) && a.cost != b.cost) || (dirs && a.KKT != b.KKT && !std::isnan(a.KKT))) c.fail("history", "a solver that has solved another instance differs from a fresh one: success %d/%d, iterations %d/%d, %g apart, cost %.17g/%.17g, residual %.17g/%.17g [%s]", int(a.ret), int(b.ret), a.iter, b.iter, std::max(dist(a.xs, b.xs), dist(a.us, b.us)), a.cost, b.cost, a.KKT, b.KKT, describe(g2, s2).c_str());
  }
}
static void f_ddp(Ctx& c) { normal(c, W_DDP); }
static void f_fddp(Ctx& c) { normal(c, W_FDDP); }
static void f_kkt(Ctx& c) { normal(c, W_KKT); }

// failing models
static void f_fault(Ctx& c) {
  Rng R = c.rng(); Who w = (Who)R.i(0, 2); Spec s = problem(R); Set g = settings(R, w); g.maxiter = R.i(1, 8); if (R.b(0.3)) g.tol = R.lu(1e-2, 1e2); VV x, u; guess(R, s, g, x, u); if (R.b(0.2)) { Ref q = s.manifold() ? Ref() : convexRef(s, false); if (q.ok) x = q.xs, u = q.us, g.feas = false; }
  Prob hp = makeProb(s); Runner h(w, hp); hp.mon->limit = 2000000; Res hr = h.go(g, x, u); long N = hp.mon->total(); if (N < 1) return;
  static const FaultKind kinds[] = {F_THROW, F_NAN_COST, F_NAN_X, F_NAN_DIFF, F_INF_COST}; FaultKind f = kinds[R.i(0, 4)]; long at = R.i(0, int(N) - 1); if (R.b(0.3)) at = R.i(0, std::min<long>(N - 1, 3 * (s.T + 1))); int mode = R.i(0, 3); long len = R.i(2, 3 * (s.T + 1)); int node = R.i(0, s.T);
  Prob p = makeProb(s); Runner o(w, p); double retr = std::log(1e9 / std::min(g.rmin, std::isnan(g.reginit) ? g.rmin : g.reginit)) / std::log(10.) + 6; long B = long((s.T + 1) * (g.maxiter + 2.) * (g.al.size() + 4 + 2 * retr)); p.mon->limit = B;
  p.mon->fault = [=](int t, bool, long i) { bool on = mode == 0 ? i == at : mode == 1 ? i >= at : mode == 2 ? i >= at && i < at + len : i >= at && t == node; return on ? f : F_NONE; };
  std::string d = fmt("fault %d mode %d at call %ld of %ld; ", int(f), mode, at, N) + describe(g, s); Res r; try { r = o.go(g, x, u); } catch (Monitor::TooMany&) { c.fail("bound", "does not end within %ld evaluations [%s]", B, d.c_str()); return; }
  long del = p.mon->nfault; if (!del) return; c.add("faults_delivered", del); c.mark(mix(hashVec(r.xs), at * 8 + f)); c.add(r.threw ? "exceptions_out" : r.ret ? "solved_despite_fault" : "unsolved"); c.sample = d;
  if (r.ret && !r.threw) { if (!finite(r.xs) || !finite(r.us) || !std::isfinite(r.cost) || !std::isfinite(r.KKT) || !finite(r.lag)) { c.fail("success", "success with numbers that are not finite: cost %g, residual %g, trajectory %d, multipliers %d [%s]", r.cost, r.KKT, int(finite(r.xs) && finite(r.us)), int(finite(r.lag)), d.c_str()); return; } }
  for (auto& e : r.ev) if (e.k == 'D' && !e.threw && (!finite(e.xs) || !finite(e.us))) { c.fail("finite", "iteration %d starts at a trajectory that is not finite [%s]", e.iter, d.c_str()); return; }
  // the healthy problem afterwards
  p.mon->fault = nullptr; p.mon->limit = -1; Res a = o.go(g, x, u); c.add("recoveries");
  if (a.ret != hr.ret || a.threw != hr.threw || a.iter != hr.iter || !bitSame(a.xs, hr.xs) || !bitSame(a.us, hr.us) || (a.cost != hr.cost && !std::isnan(a.cost))) c.fail("recovery", "after a model failure the healthy problem is solved differently than by a fresh solver: success %d/%d, iterations %d/%d, %g apart, cost %.17g/%.17g [%s]", int(a.ret), int(hr.ret), a.iter, hr.iter, std::max(dist(a.xs, hr.xs), dist(a.us, hr.us)), a.cost, hr.cost, d.c_str());
}
const std::vector<Scenario> kScenarios = {{"ddp", f_ddp, 20000, 200000}, {"fddp", f_fddp, 20000, 200000}, {"kkt", f_kkt, 16000, 150000}, {"faults", f_fault, 32000, 300000}};
}  // namespace H
