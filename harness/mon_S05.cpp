// S05: the next iterate is the first acceptable step of the configured list.
#include "common.hpp"
namespace H {
const char* kProperty = "S05";
const char* kRule = "for consecutive iterates of a solve every trial step of the configured list is evaluated from the problem's formulas and judged by the filter or merit rule with a memory rebuilt from the earlier iterates of that solve; the predicted step must be the one taken (steps decided by a comparison closer than rounding are skipped); a case is non-trivial when a predicted step was shortened or the whole list was rejected";

struct Mem { double cost, gap, con; };
struct Pred { bool tie = false, found = false; double step = 0; VV xs, us; int nfail = 0, nrej = 0, nzero = 0; };
static int cmp(double a, double b, double sc) { double t = 1e-10 * (1 + sc + std::fabs(a) + std::fabs(b)); return a < b - t ? -1 : a > b + t ? 1 : 0; }
static Pred predict(const Spec& s, Kind k, const Cfg& g, const std::vector<double>& al, const VV& xs, const VV& us, const VV& dx, const VV& du, double merit, double lagy, const std::vector<Mem>& mem, double sc0) {
  Pred P;
  for (double a : al) {
    P.step = a; P.xs = moveX(s, xs, dx, a); P.us = moveU(us, du, a);
    if (!finite(P.xs) || !finite(P.us)) { P.tie = true; return P; }
    Metrics m = metrics(s, P.xs, P.us, false);
    // the border of a region where the model fails may be decided by rounding
    for (int t = 0; t <= s.T; ++t) { const Node& N = s.nodes[t]; if (!N.fw.size()) continue; V phi, J; feat(s, P.xs[t], phi, J); double f = N.fw.head(s.n).dot(phi) + (t < s.T && N.nu ? N.fw.tail(N.nu).dot(P.us[t]) : 0.); if (std::fabs(f - N.nan_thr) < 1e-9 * (1 + std::fabs(f)) || std::fabs(f - N.throw_thr) < 1e-9 * (1 + std::fabs(f))) { P.tie = true; return P; } }
    if (!m.ok) { P.nfail++; continue; }
    double con = k == SQP ? 0 : m.con1;
    if (std::fabs(m.cost) > 1e20 || m.gap1 > 1e20 || con > 1e20) { P.tie = true; return P; }
    double sc = 1; for (auto& e : m.ev) sc += std::fabs(e.cost); sc = std::max(sc, sc0);
    if (g.filter) {
      bool worse = false, tie = false;
      for (int c = 0; c < g.filter_size && c < int(mem.size()); ++c) {
        const Mem& q = mem[mem.size() - 1 - c]; int x = cmp(q.cost, m.cost, sc), y = cmp(q.gap, m.gap1, mag(P.xs) + mag(dx)), z = k == SQP ? -1 : cmp(q.con, con, 1);
        if (q.cost == 0 && m.cost == 0) { x = -1; if (y <= 0 && z <= 0 && y + z < 0) P.nzero++; }
        if (z == 0 && q.con == 0 && con == 0) z = -1;   // both exactly feasible
        if (x > 0 || y > 0 || z > 0) continue; if (x < 0 && y < 0 && z < 0) { worse = true; break; } tie = true;
      }
      if (worse) { P.nrej++; continue; } if (tie) { P.tie = true; return P; }
      P.found = true; return P;
    }
    double mt = meritOf(k, g, m.cost, m.gap1, con, lagy); int r = cmp(mt, merit, sc + std::fabs(mt - m.cost));
    if (r == 0) { P.tie = true; return P; } if (r < 0) { P.found = true; return P; } P.nrej++;
  }
  return P;
}
static bool sane(const Snap& n) { return finite(n.xs) && finite(n.us) && finite(n.dx) && finite(n.du) && finite(n.lag) && finite(n.y) && mag(n.xs) < 1e6 && mag(n.us) < 1e6 && mag(n.dx) < 1e6 && mag(n.du) < 1e6; }

static void judge(Ctx& c, const Spec& s, Kind k, const Cfg& g, const std::vector<double>& al, const Snap& a, const Metrics& m, const VV& xs2, const VV& us2, double step, bool stepKnown, std::vector<Mem>& mem, const std::string& d, int i, bool maybeNone) {
  double lagy = std::max(linf(a.lag), linf(a.y)); double sc = magM(m);
  double merit = meritOf(k, g, m.cost, m.gap1, k == SQP ? 0 : m.con1, lagy);
  Pred P = predict(s, k, g, al, a.xs, a.us, a.dx, a.du, merit, lagy, mem, sc);
  if (P.tie) { c.add("ties_skipped"); return; }
  double tl = 1e-11 * (1 + mag(a.xs) + mag(a.us) + mag(a.dx) + mag(a.du));
  bool same = dist(a.xs, xs2) == 0 && dist(a.us, us2) == 0;
  if (same && maybeNone) { c.add("last_iteration_without_line_search"); return; }
  c.add("line_searches"); c.add("trials_failed", P.nfail); c.add("trials_rejected", P.nrej); c.add("equal_costs_compared", P.nzero);
  if (!P.found) {
    c.add("lists_fully_rejected"); c.mark(hashVec(a.xs)); if (!same) c.fail("moved", "iteration %d: no step of the list is acceptable, but the iterate moved by %g (reported step %g) [%s]", i, std::max(dist(a.xs, xs2), dist(a.us, us2)), step, d.c_str()); return;
  }
  double e = std::max(dist(P.xs, xs2), dist(P.us, us2));
  if (P.step < al[0]) { c.add("shortened"); c.mark(hashVec(xs2)); }
  if (P.nfail) c.add("steps_after_failing_trials");
  if (!(e <= tl)) { double got = inferStep(s, a.xs, a.us, a.dx, a.du, xs2, us2, al); c.fail("step", "iteration %d: the first acceptable step is %g, the iterate moved by step %g (reported %g; %d trials fail, %d are rejected; off by %g) [%s]", i, P.step, got, step, P.nfail, P.nrej, e, d.c_str()); return; }
  if (stepKnown && step != P.step) c.fail("reported", "iteration %d: step %g was taken, %g is reported [%s]", i, P.step, step, d.c_str());
}
static std::vector<double> alphasOf(const Cfg& g) { if (!g.alphas.empty()) return g.alphas; std::vector<double> a; for (int i = 0; i < 10; ++i) a.push_back(std::pow(0.5, i)); return a; }
static Spec problem(Rng& R, Kind k, bool fail) {
  bool zero = R.b(0.1);
  Gen gn = genFor(fail ? FAIL : R.b(0.3) ? CVX : R.b(0.7) ? NL : NLM, k != SQP && R.b(0.85)); gn.nl = zero ? R.u(1, 8) : R.u(0.4, 3); gn.maxT = 5; if (k == PROX) gn.state_only_con_t0 = false; if (fail && R.b(0.3)) gn.manifold = true; Spec s = genSpec(R, gn);
  // nothing to minimize: the costs of all points are equal, gaps and violation decide
  if (zero) for (auto& N : s.nodes) { N.Mx.setZero(); N.Nu.setZero(); N.r.setZero(); N.lx.setZero(); N.lu.setZero(); N.Hs.resize(0, 0); N.lc_eps = 0; N.hsx = N.hsu = 1; }
  return s;
}
static Cfg lsCfg(Rng& R, Kind k) { Cfg g = genCfg(R, k); if (R.b(0.6)) g.tol = R.lu(1e-9, 1e-5); if (R.b(0.5)) g.mu_dyn = R.lu(1e-3, 10); g.filter_size = R.b(0.35) ? 1 : R.i(2, 8); if (k == CSQP) { g.max_qp = std::min(g.max_qp, 200); } g.rmax = 1e9; return g; }

static void trace(Ctx& c, Run& r, const std::string& d) {
  const Spec& s = *r.sol.prob.spec; Kind k = r.sol.kind; const Cfg& g = r.sol.cfg; auto al = r.sol.base()->get_alphas(); std::vector<Mem> mem;
  for (size_t i = 0; i < r.tr.size(); ++i) {
    const Snap& a = r.tr[i]; if (!sane(a)) { c.add("skipped"); return; } Metrics m = metrics(s, a.xs, a.us, false); if (!m.ok) { c.add("skipped"); return; }
    mem.push_back({m.cost, m.gap1, k == SQP ? 0 : m.con1}); bool last = i + 1 == r.tr.size(); const Snap& b = last ? r.end : r.tr[i + 1];
    if (!shapesOk(s, b.xs, b.us)) { c.fail("shape", "trajectory with wrong dimensions [%s]", d.c_str()); return; }
    if (last && r.threw) return;
    if (last && r.ret) { if (dist(a.xs, b.xs) != 0 || dist(a.us, b.us) != 0) c.fail("moved", "the iterate moved after the solver certified it [%s]", d.c_str()); return; }
    // CSQP may evaluate the same iterate again after a rejected list
    judge(c, s, k, g, al, a, m, b.xs, b.us, b.step, true, mem, d, int(i), last && g.extra); if (c.failed()) return;
  }
}
static void one(Ctx& c, Kind k, bool fail) {
  Rng R = c.rng(); Spec s = problem(R, k, fail); Cfg g = lsCfg(R, k); g.maxiter = R.i(1, 15); double off = R.u(0, fail ? 1.0 : 2.0);
  VV x = randXs(R, s, off), u = randUs(R, s, off);
  auto r = runSolve(k, s, g, x, u); trace(c, *r, describe(k, s, g));
  int more = R.i(0, 2);
  for (int j = 0; j < more && !c.failed(); ++j) {
    r->sol.prob.spec->x0 = fromTangent(s.circ, R.vec(s.n)); r->sol.prob.sync(); Cfg g2 = lsCfg(R, k); g2.maxiter = R.i(1, 10); if (g2.alphas.empty()) for (int i = 0; i < 10; ++i) g2.alphas.push_back(std::pow(0.5, i)); if (R.b(0.3)) { g2.filter = g.filter; g2.filter_size = g.filter_size; }
    r->sol.configure(g2); r->xs0 = randXs(R, s, off); r->us0 = randUs(R, s, off); r->tr.clear(); r->ret = r->threw = false; go(*r); trace(c, *r, fmt("solve %d on one solver, %s", j + 2, describe(k, s, g2).c_str()));
  }
  c.sample = describe(k, s, g) + fmt(" -> %d iterates", int(r->tr.size()));
}
static void f_sqp(Ctx& c) { one(c, SQP, false); }
static void f_csqp(Ctx& c) { one(c, CSQP, false); }
static void f_sqp_fail(Ctx& c) { one(c, SQP, true); }
static void f_csqp_fail(Ctx& c) { one(c, CSQP, true); }

// ProxQP: solves limited to k iterations from the same guess show the iterates
static void prox(Ctx& c, bool fail) {
  Rng R = c.rng(); Spec s = problem(R, PROX, fail); Cfg g = lsCfg(R, PROX); g.tol = R.lu(1e-9, 1e-4); int n = R.i(2, 7); double off = R.u(0, 1.5);
  VV x = randXs(R, s, off), u = randUs(R, s, off); Snap prev; prev.xs = x; prev.us = u; prev.xs[0] = s.x0; std::vector<Mem> mem; std::string d = describe(PROX, s, g);
  bool pre = R.b(0.4); Cfg gp = lsCfg(R, PROX); gp.maxiter = R.i(1, 4); if (gp.alphas.empty()) gp.alphas = {1, .5, .25}; if (pre && g.alphas.empty()) g.alphas = {1, .5, .25, .125};
  VV xp = randXs(R, s, off), up = randUs(R, s, off);
  for (int kk = 1; kk <= n; ++kk) {
    Run r; r.sol = Sol(PROX, makeProb(s)); if (pre) { r.sol.configure(gp); r.xs0 = xp; r.us0 = up; go(r); if (r.threw) return; }
    Cfg g2 = g; g2.maxiter = kk; r.sol.configure(g2); r.xs0 = x; r.us0 = u; r.ret = false; go(r); const Snap& e = r.end;
    if (r.threw || !sane(e) || e.preg >= 1e9) { c.add("skipped"); return; }
    if (r.ret) { if (dist(prev.xs, e.xs) != 0 || dist(prev.us, e.us) != 0) c.fail("moved", "iterate moved after being certified [%s]", d.c_str()); break; }
    Metrics m = metrics(s, prev.xs, prev.us, false); if (!m.ok) { c.add("skipped"); return; }
    mem.push_back({m.cost, m.gap1, m.con1}); Snap a = prev; a.dx = e.dx; a.du = e.du; a.lag = e.lag; a.y = e.y; Cfg gm = g;
    judge(c, s, PROX, gm, alphasOf(g), a, m, e.xs, e.us, e.step, true, mem, d, kk, false); if (c.failed()) return;
    prev = e;
  }
  c.sample = d;
}
static void f_prox(Ctx& c) { prox(c, false); }
static void f_prox_fail(Ctx& c) { prox(c, true); }
const std::vector<Scenario> kScenarios = {{"sqp", f_sqp, 15000, 150000}, {"csqp", f_csqp, 12000, 120000}, {"sqp_fail", f_sqp_fail, 9000, 100000}, {"csqp_fail", f_csqp_fail, 9000, 100000}, {"proxqp", f_prox, 3000, 20000}, {"proxqp_fail", f_prox_fail, 1500, 10000}};
}  // namespace H
