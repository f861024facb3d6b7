// S15: the QP of SolverPROXQP is the problem's, and its direction solves it.
#include "common.hpp"
namespace H {
const char* kProperty = "S15";
const char* kRule = "at every direction of SolverPROXQP the exposed P, q, A, b, C, l, u are compared entry by entry with matrices assembled by the harness from the problem's formulas, and direction and multipliers are judged by the residuals of that QP and by an independent interior-point solution; a case is non-trivial when a direction was judged at an iterate that is not a solution, with a QP the harness could solve";

struct QPs { M P, A, C; V q, b, l, u; };
static std::string cmp(const char* n, const M& a, const M& b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return fmt("%s is %ldx%ld, expected %ldx%ld", n, long(a.rows()), long(a.cols()), long(b.rows()), long(b.cols()));
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) { double x = a(i, j), y = b(i, j); if (x == y) continue; if (std::isnan(x) && std::isnan(y)) continue; if (std::isinf(x) || std::isinf(y)) return fmt("%s(%d,%d) is %.17g, expected %.17g", n, i, j, x, y); double sc = 1e-300 + std::max(std::fabs(x), std::fabs(y)); if (!(std::fabs(x - y) <= tol * (sc + (tol > 1e-13 ? 1 : 0)))) return fmt("%s(%d,%d) is %.17g, expected %.17g", n, i, j, x, y); }
  return "";
}
// pattern exact (zero where no block is), values to rounding
static std::string assembled(const QPs& g, const DenseQP& Q) {
  std::string e;
  if (!(e = cmp("P", g.P, Q.P, 1e-12)).empty() || !(e = cmp("A", g.A, Q.A, 1e-12)).empty() || !(e = cmp("C", g.C, Q.C, 1e-12)).empty() || !(e = cmp("q", g.q, Q.q, 1e-12)).empty() || !(e = cmp("b", g.b, Q.b, 1e-12)).empty() || !(e = cmp("l", g.l, Q.l, 1e-12)).empty() || !(e = cmp("u", g.u, Q.u, 1e-12)).empty()) return e;
  return "";
}

struct Watch {
  Ctx& c; Sol& s; std::shared_ptr<Spec> spec; std::string d; Hooks h; long seen = 0, judged = 0; uint64_t sg = 0;
  Watch(Ctx& c_, Sol& s_, const std::string& d_) : c(c_), s(s_), spec(s_.prob.spec), d(d_) {
    h.dirEnd = [this](bool threw) { if (!threw) look(); }; s.hook(&h);
  }
  void look() {
    if (c.failed()) return; ++seen; c.add("directions");
    VV xs = s.base()->get_xs(), us = s.base()->get_us(); if (!finite(xs) || !finite(us) || mag(xs) > 1e8) { c.add("skipped_huge"); return; }
    Metrics m = metrics(*spec, xs, us, true); if (!m.ok) { c.add("skipped_not_evaluable"); return; }
    DenseQP Q = denseQP(*spec, m, 0, 0, true); QPs g; s.p->qp(g.P, g.A, g.C, g.q, g.b, g.l, g.u);
    std::string e = assembled(g, Q); if (!e.empty()) { c.fail("assembly", "at direction %ld %s [%s]", seen, e.c_str(), d.c_str()); return; }
    Snap n = s.snap();
    if (n.dx.empty() || n.dx[0].size() != spec->n || n.dx[0].cwiseAbs().maxCoeff() != 0) { c.fail("dx0", "the direction moves the initial state [%s]", d.c_str()); return; }
    if (n.KKT <= s.cfg.tol) { c.add("converged"); if (n.qp_iters != 0 || linf(n.dx) != 0 || linf(n.du) != 0) c.fail("converged", "a direction at a certified solution [%s]", d.c_str()); return; }
    V v = V::Zero(Q.nv); int nn = spec->n; V y = V::Zero(Q.C.rows()), lm = V::Zero(Q.A.rows());
    for (int t = 0; t <= spec->T; ++t) {
      if (t) { v.segment(Q.xo[t], nn) = n.dx[t]; lm.segment((t - 1) * nn, nn) = n.lag[t]; } if (t < spec->T) { if (n.du[t].size() != spec->nodes[t].nu) { c.fail("size", "du[%d] has %ld elements [%s]", t, long(n.du[t].size()), d.c_str()); return; } v.segment(Q.uo[t], n.du[t].size()) = n.du[t]; }
      if (n.y[t].size() != spec->nodes[t].ng) { c.fail("size", "y[%d] has %ld elements [%s]", t, long(n.y[t].size()), d.c_str()); return; } y.segment(Q.co[t], n.y[t].size()) = n.y[t]; }
    bool fin = v.allFinite() && y.allFinite() && lm.allFinite();
    // residuals of the reported solution
    V r1 = Q.P * v, r2 = Q.A.transpose() * lm, r3 = Q.C.transpose() * y; V rd = r1 + Q.q - r2 + r3; V rp = Q.A * v - Q.b, cv = Q.C * v; double pri = ninf(rp), dua = ninf(rd), comp = 0;
    double sp = std::max(ninf(Q.b), ninf(Q.A * v)), sd = std::max(std::max(ninf(r1), ninf(r2)), std::max(ninf(r3), ninf(Q.q)));
    for (int j = 0; j < cv.size(); ++j) { pri = std::max(pri, std::max(cv[j] - Q.u[j], Q.l[j] - cv[j])); sp = std::max(sp, std::fabs(cv[j])); if (std::isfinite(Q.l[j])) sp = std::max(sp, std::fabs(Q.l[j])); if (std::isfinite(Q.u[j])) sp = std::max(sp, std::fabs(Q.u[j]));
      double sl = y[j] > 0 ? Q.u[j] - cv[j] : cv[j] - Q.l[j]; if (y[j] != 0) comp = std::max(comp, std::isfinite(sl) ? std::min(std::fabs(y[j]), std::fabs(sl)) : std::fabs(y[j])); }
    if (n.qp_iters > 2000) { c.add("library_struggles"); return; }
    // can this QP be solved with these settings?  The library is asked directly.
    V xl, zl; bool ok = s.p->solvable(Q.P, Q.q, Q.A, Q.b, Q.C, Q.l, Q.u, xl, zl); if (!ok) { c.add("library_did_not_solve"); return; }
    c.add("judged");
    if (!fin) { c.fail("nonfinite", "the QP is solvable but direction or multipliers are not finite [%s]", d.c_str()); return; }
    double tp = 2 * (s.cfg.eps_abs + s.cfg.eps_rel * sp) + 1e-12 * (1 + sp) * nn, td = 2 * (s.cfg.eps_abs + s.cfg.eps_rel * sd) + 1e-12 * (1 + sd) * nn;
    c.mx("primal_over_tol", pri / tp); c.mx("dual_over_tol", dua / td); c.mx("comp", comp / (1 + ninf(y)));
    if (pri > 5 * tp) { c.fail("primal", "primal residual %.3e of the direction, requested %.3e (reported %.3e) at direction %ld [%s]", pri, tp, n.np, seen, d.c_str()); return; }
    if (dua > 5 * td) { c.fail("dual", "dual residual %.3e of direction and multipliers, requested %.3e (reported %.3e) at direction %ld [%s]", dua, td, n.nd, seen, d.c_str()); return; }
    if (!(n.np <= 5 * tp)) c.fail("norms", "reported primal residual %.3e, requested %.3e [%s]", n.np, tp, d.c_str());
    if (!(n.nd <= 5 * td)) c.fail("norms", "reported dual residual %.3e, requested %.3e [%s]", n.nd, td, d.c_str());
    double cl = 0; V cvl = Q.C * xl; for (int j = 0; j < cvl.size(); ++j) if (zl[j] != 0) { double sl = zl[j] > 0 ? Q.u[j] - cvl[j] : cvl[j] - Q.l[j]; cl = std::max(cl, std::isfinite(sl) ? std::min(std::fabs(zl[j]), std::fabs(sl)) : std::fabs(zl[j])); }
    if (comp > 1e-3 * (1 + ninf(y)) + 100 * cl) c.fail("complementarity", "a multiplier of an inactive bound, %.3e (the library alone: %.3e) at direction %ld [%s]", comp, cl, seen, d.c_str());
    // independent solution
    if (s.cfg.eps_abs <= 1e-8 && s.cfg.eps_rel == 0) {
      double lmin = 1, lmax = 1; if (Q.nv) { V ev = Eigen::SelfAdjointEigenSolver<M>(Q.P).eigenvalues(); lmin = ev[0]; lmax = ev[ev.size() - 1]; }
      if (lmin > 1e-4 * lmax && lmin > 1e-3) { QPSol S = solveQP(Q); if (S.ok && S.res < 1e-9) { c.add("compared_with_interior_point"); double e2 = ninf(S.v - v), tol = (1 + ninf(S.v)) * std::max(1e-5, 1e5 * s.cfg.eps_abs); if (ninf(S.v - xl) > tol) c.add("library_less_accurate"); else { c.mx("distance_over_tol", e2 / tol);
        if (e2 > 30 * tol) c.fail("solution", "the direction differs by %.3e from the QP's solution (size %.3e, multipliers %.2e) at direction %ld [%s]", e2, ninf(S.v), ninf(S.y), seen, d.c_str()); } } else c.add("interior_point_failed"); } else c.add("not_strictly_convex"); }
    if (ninf(v) > 1e-6) { ++judged; sg = hashVec(n.dx, hashVec(n.y, sg)); }
  }
};
static Gen gg(Rng& R) { Gen g = genFor(pickCls(R), R.b(0.85)); if (R.b(0.7)) g.strong = true; g.maxT = R.b(0.2) ? 12 : 6; return g; }
static Cfg gc(Rng& R) { Cfg f = genCfg(R, PROX, 1e-10, 1e-3); f.max_qp = R.i(20, 50); f.eps_abs = R.b(0.5) ? 1e-9 : R.lu(1e-10, 1e-5); f.eps_rel = R.b(0.7) ? 0 : R.lu(1e-9, 1e-6); f.maxiter = R.b(0.12) ? R.i(8, 22) : R.i(1, 6); if (f.maxiter > 6) f.tol = 1e-14; return f; }
// no state-only constraints that conflict with the dynamics at poor iterates: widen them
static void soften(Rng& R, Spec& s) { if (R.b(0.7)) for (auto& N : s.nodes) for (int j = 0; j < N.ng; ++j) if (N.lb[j] != N.ub[j]) { N.lb[j] -= 2; N.ub[j] += 2; } }

static void solves(Ctx& c) {
  Rng R = c.rng(); Spec sp = genSpec(R, gg(R)); soften(R, sp); Cfg f = gc(R); Prob p = makeProb(sp); Sol s(PROX, p); std::string d = describe(PROX, sp, f); Watch w(c, s, d); s.configure(f); p.mon->limit = 2000000;
  int n = R.b(0.5) ? 1 : R.i(2, 3); for (int i = 0; i < n && !c.failed(); ++i) {
    double e = R.u(0.05, 1); VV x = randXs(R, sp, e), u = randUs(R, sp, e); if (R.b(0.3)) { x.clear(); u.clear(); } try { s.solve(x, u, f.maxiter); } catch (std::exception&) { c.add("threw"); }
    if (i + 1 < n) { sp.x0 = sInt(sp, sp.x0, R.vec(sp.n, 0.2)); *p.spec = sp; p.sync(); } }
  c.add("cases_with_direction", w.seen > 0); if (w.judged) c.mark(w.sg); c.sample = d + fmt(": %ld directions", w.seen);
}
// models replaced between solves, with other control and constraint dimensions
static void replaced(Ctx& c) {
  Rng R = c.rng(); Gen g = gg(R); g.T = R.i(1, 5); g.n = R.i(1, 4); g.manifold = false; Spec sp = genSpec(R, g); soften(R, sp); Cfg f = gc(R); f.maxiter = R.i(1, 3); Prob p = makeProb(sp); Sol s(PROX, p); std::string d = describe(PROX, sp, f); Watch w(c, s, d); s.configure(f); p.mon->limit = 2000000;
  auto go = [&]() { VV x = randXs(R, *p.spec, 0.5), u = randUs(R, *p.spec, 0.5); try { s.solve(x, u, f.maxiter); } catch (std::exception&) { c.add("threw"); } };
  if (R.b(0.8)) go();
  int n = R.i(1, 3); for (int i = 0; i < n && !c.failed(); ++i) {
    Spec o = genSpec(R, g); soften(R, o); int t = R.i(0, sp.T); if (t < sp.T && o.nodes[t].nu == 0 && R.b(0.5)) { continue; }
    p.spec->nodes[t] = o.nodes[t]; if (t < sp.T) p.spec->ur[t] = o.ur[t]; auto m = std::make_shared<HModel>(p.state, p.spec, t, p.mon.get()); p.models[t] = m; s.prob.models = p.models;
    if (R.b(0.5)) p.problem->updateModel(t, m); else p.problem->updateNode(t, m, m->createData()); w.d = d + " then " + shape(*p.spec); c.add("replacements"); if (R.b(0.7)) go(); }
  if (!c.failed()) go(); if (w.judged) c.mark(w.sg); c.sample = w.d + fmt(": %ld directions", w.seen);
}
// precision out of reach: the whole budget of QP iterations, as set last, is used; the count is the library's own
static void budget(Ctx& c) {
  Rng R = c.rng(); Gen g = genFor(pickCls(R), true); g.maxT = 3; g.strong = true; Spec sp = genSpec(R, g); soften(R, sp); Cfg f = gc(R); f.maxiter = 1; f.tol = 1e-14; Prob p = makeProb(sp); Sol s(PROX, p); Hooks h; s.hook(&h); p.mon->limit = 2000000; uint64_t sg = 0; bool any = false;
  int n = R.i(1, 3); for (int i = 0; i < n && !c.failed(); ++i) {
    f.max_qp = R.b(0.5) ? R.i(1, 20) : R.i(20, 120); f.eps_abs = R.b(0.7) ? 0 : R.lu(1e-13, 1e-6); f.eps_rel = 0; s.configure(f); std::string d = describe(PROX, sp, f); VV x = randXs(R, sp, 0.6), u = randUs(R, sp, 0.6);
    bool seen = false;
    h.dirEnd = [&](bool threw) {
      if (threw || c.failed() || seen) return; seen = true; c.add("directions"); Snap m = s.snap(); if (m.KKT <= f.tol) return; QPs q; s.p->qp(q.P, q.A, q.C, q.q, q.b, q.l, q.u); V xl, zl; int it = -1; bool ran = false; s.p->solvable(q.P, q.q, q.A, q.b, q.C, q.l, q.u, xl, zl, &it, &ran);
      if (!ran) { c.add("library_stopped_early"); return; } c.add("budget_exhausted"); any = true; sg = hashVec(m.dx, sg + f.max_qp); if ((m.qp_iters < f.max_qp && it >= f.max_qp) || m.qp_iters > 3. * it + 50) { c.fail("budget", "the solver stopped the QP after %g iterations, the library with the same settings after %d of %d [%s]", m.qp_iters, it, f.max_qp, d.c_str()); } };
    try { s.solve(x, u, 1); } catch (std::exception&) { c.add("threw"); } c.sample = d; }
  if (any) c.mark(sg);
}
const std::vector<Scenario> kScenarios = {{"solves", solves, 7500, 100000}, {"replaced", replaced, 3600, 50000}, {"budget", budget, 1500, 15000}};
}  // namespace H
