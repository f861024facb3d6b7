// S13: callbacks are invoked faithfully and change nothing.
#include <iostream>
#include <sstream>
#include "common.hpp"
#include "mim_solvers/utils/callbacks.hpp"
namespace H {
const char* kProperty = "S13";
const char* kRule = "solves with 0-5 callbacks of all kinds in random order, changed between solves; each invocation is recorded together with the directions and trial steps around it, and its order, number, moment and solver name are checked; the printed lines are parsed and compared with the figures read at that moment; results are compared bit for bit with an unobserved solve; a case is non-trivial when at least two iterations were observed";

struct CoutGuard { std::ostringstream os; std::streambuf* old; CoutGuard() { old = std::cout.rdbuf(os.rdbuf()); } ~CoutGuard() { std::cout.rdbuf(old); } };
struct Ev { char k; int tag = -1, iter = 0; double a = 0; bool threw = false; std::string type; Snap n; };
static bool bs(const VV& a, const VV& b) { return a.size() == b.size() && hashVec(a) == hashVec(b); }
static bool bd(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static std::string diffEnd(Kind k, const Snap& a, const Snap& b) {
#define D(m) if (!bd(a.m, b.m)) return fmt(#m " %.17g vs %.17g", double(a.m), double(b.m))
#define W(m) if (!bs(a.m, b.m)) return fmt(#m " by %g", dist(a.m, b.m))
  W(xs); W(us); D(iter); D(cost); D(gap); D(con); D(KKT); D(merit); W(lag); W(dx); W(du); W(y); D(preg); D(qp_iters); if (k == CSQP) { W(z); D(np); D(nd); W(rho); } return "";
#undef D
#undef W
}
typedef std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> CBs;
// the figures of one printed line
static bool parseLine(const std::string& l, std::vector<double>& o) { o.clear(); std::istringstream is(l); std::string t; while (is >> t) { if (t.find_first_not_of('-') == std::string::npos) { o.push_back(1e301); continue; } char* e; double v = strtod(t.c_str(), &e); if (*e) return false; o.push_back(v); } return !o.empty(); }
static bool shown(double printed, double v, int prec, bool sci) {
  char b[400]; snprintf(b, sizeof b, sci ? "%.*e" : "%.*f", prec, v); double w = strtod(b, nullptr); if (bd(printed, w)) return true; double u = sci ? std::pow(10., -prec) * std::pow(10., std::floor(std::log10(std::fabs(v) + 1e-300))) : std::pow(10., -prec); return std::fabs(printed - v) <= 0.5000001 * u; }

static void observe(Ctx& c, Kind k) {
  Rng R = c.rng(); Gen gp = genFor(pickCls(R), k != SQP && R.b(0.8)); gp.maxT = 4; gp.nl = R.u(0.3, 1.5); Spec s = genSpec(R, gp); auto r = std::make_shared<Run>(); Prob p = makeProb(s); r->sol = Sol(k, p); Hooks h; r->sol.hook(&h); Sol* S = &r->sol; auto* b = S->base();
  int n = R.i(1, 3); std::vector<Ev> ev; Hooks* hp = &h; (void)hp;
  h.dirEnd = [&](bool t) { Ev e; e.k = 'D'; e.threw = t; ev.push_back(e); }; h.step = [&](double a) { Ev e; e.k = 'S'; e.a = a; ev.push_back(e); };
  Snap prevEnd;
  for (int q = 0; q < n && !c.failed(); ++q) {
    Cfg g = genCfg(R, k, 1e-8, 1e-1); g.maxiter = R.i(0, R.b(0.1) ? 25 : 6); if (R.b(0.1)) { g.maxiter = R.i(11, 25); g.tol = 0; } g.extra = R.b(0.5); if (k == CSQP) { g.max_qp = std::min(g.max_qp, 60); g.reset_y = true; g.eqguess = true; } if (g.alphas.empty() && q) for (int i = 0; i < 10; ++i) g.alphas.push_back(std::pow(0.5, i));
    VV x = randXs(R, s, R.u(0.1, 1.2)), u = randUs(R, s, R.u(0.1, 1.2)); if (q && prevEnd.xs.size() && R.b(0.4)) { x = prevEnd.xs; u = prevEnd.us; g.tol = std::isfinite(prevEnd.KKT) ? std::max(g.tol, prevEnd.KKT * R.pick({0.5, 1., 2., 10.})) : g.tol; if (R.b()) g.tol = std::max(g.tol, R.lu(1, 1e4)); c.add("restarts_at_the_last_result"); } else if (R.b(0.1)) g.tol = R.lu(1, 1e6);
    if (k == CSQP && s.T <= 2 && R.b(0.06)) { g.max_qp = R.i(900, 2600); g.eps_abs = g.eps_rel = 0; g.maxiter = std::min(g.maxiter, 2); c.add("solves_with_thousands_of_qp_iterations"); }
    S->configure(g); int nc = R.i(0, 5); CBs v; ev.clear(); std::vector<int> want; int verb = -1, prec = 3; std::shared_ptr<mim_solvers::CallbackVerbose> vb; std::shared_ptr<Recorder> last; int nv = 0;
    for (int i = 0; i < nc; ++i) {
      if (R.b(0.25) && verb < 0) { prec = R.b(0.4) ? 3 : R.i(0, 14); vb = R.b() ? std::make_shared<mim_solvers::CallbackVerbose>(prec) : std::make_shared<mim_solvers::CallbackVerbose>(); vb->set_precision(prec); if (vb->get_precision() != prec) c.fail("precision", "precision %d set, %d read", prec, vb->get_precision()); v.push_back(vb); verb = i; ++nv; continue; }
      if (last && R.b(0.15)) { v.push_back(last); want.push_back(last->tag); continue; }
      auto rec = std::make_shared<Recorder>(S, nullptr); rec->tag = i; rec->hook = [&ev, S, i](Snap& m) { Ev e; e.k = 'C'; e.tag = i; e.iter = int(S->base()->get_iter()); e.type = m.type; e.n = m; ev.push_back(e); }; v.push_back(rec); want.push_back(i); last = rec;
    }
    if (want.empty()) { auto rec = std::make_shared<Recorder>(S, nullptr); rec->tag = 77; rec->hook = [&ev, S](Snap& m) { Ev e; e.k = 'C'; e.tag = 77; e.iter = int(S->base()->get_iter()); e.type = m.type; e.n = m; ev.push_back(e); }; if (R.b(0.85)) { v.push_back(rec); want.push_back(77); } }
    bool qpcb = k == CSQP && R.b(0.4); if (k == CSQP) S->c->setQPCallbacks(qpcb); b->setCallbacks(v); if (b->getCallbacks().size() != v.size()) c.fail("list", "%zu callbacks registered, %zu reported", v.size(), b->getCallbacks().size());
    std::string out; r->ret = r->threw = false; { CoutGuard cg; try { r->ret = S->solve(x, u); } catch (std::exception& e) { r->threw = true; r->what = e.what(); } out = cg.os.str(); }
    Snap end = S->snap(); std::string d = fmt("solve %d with %d callbacks%s%s ", q, int(v.size()), nv ? " and the printer" : "", qpcb ? ", QP printing" : "") + describe(k, s, g); c.sample = d; c.add("observed_solves");
    // an unobserved solver
    auto f = std::make_shared<Run>(); Prob fp = makeProb(s); f->sol = Sol(k, fp); f->sol.configure(g); try { f->ret = f->sol.solve(x, u); } catch (std::exception&) { f->threw = true; } f->end = f->sol.snap();
    if (f->ret != r->ret || f->threw != r->threw) { c.fail("changed", "outcome differs from an unobserved solve [%s]", d.c_str()); return; }
    bool part = g.maxiter == 0 && !g.extra; std::string w = r->threw || part ? (bs(end.xs, f->end.xs) ? "" : "trajectory") : ev.empty() ? "" : diffEnd(k, end, f->end); if (!w.empty()) { c.fail("changed", "the result differs from an unobserved solve: %s [%s]", w.c_str(), d.c_str()); return; }
    if (r->threw) continue;
    if (finite(end.xs) && finite(end.us)) prevEnd = end; if (r->ret && ev.size() && end.iter == 0) c.add("converged_at_the_first_iterate");
    // protocol
    size_t nw = want.size(), i = 0; int it = 0; const char* nm = k == CSQP ? "CSQP" : "SQP"; std::vector<const Snap*> shots; bool lastC = false; int prevIter = -1;
    while (i < ev.size() && !c.failed()) {
      if (ev[i].k == 'D') { lastC = false; if (ev[i].threw) { ++i; continue; } ++i;
        for (size_t j = 0; j < nw; ++j, ++i) {
          if (i >= ev.size() || ev[i].k != 'C') { if (j == 0 && k == CSQP && i >= ev.size() && g.max_qp == 0) break; c.fail("missing", "iteration %d: %zu of %zu callbacks run before %s [%s]", it, j, nw, i >= ev.size() ? "the end" : ev[i].k == 'S' ? "the line search" : "the next direction", d.c_str()); return; }
          if (ev[i].tag != want[j]) { c.fail("order", "iteration %d: callback %d runs in place %zu, expected %d [%s]", it, ev[i].tag, j, want[j], d.c_str()); return; }
          if (ev[i].type != nm) { c.fail("name", "callback gets the name '%s' from %s [%s]", ev[i].type.c_str(), nm, d.c_str()); return; }
          if (j == 0) { int I = ev[i].iter; bool final = g.extra && i + nw >= ev.size(); if (I != prevIter + 1 && !(final && k == CSQP && I == prevIter)) { c.fail("iteration", "callback at iteration %d after iteration %d [%s]", I, prevIter, d.c_str()); return; } prevIter = I; }
          else { std::string z = diffEnd(k, ev[i].n, ev[i - j].n); if (!z.empty()) { c.fail("differs", "two callbacks of iteration %d see different solvers: %s [%s]", it, z.c_str(), d.c_str()); return; } }
          c.add("invocations");
        }
        if (nw) { shots.push_back(&ev[i - nw].n); lastC = true; } ++it; continue; }
      if (ev[i].k == 'C') { c.fail("extra", "callback %d runs outside its place in iteration %d [%s]", ev[i].tag, it, d.c_str()); return; }
      lastC = false; ++i;
    }
    if (c.failed()) return; if (it > g.maxiter + (g.extra ? 1 : 0)) { c.fail("count", "%d iterations observed, %d%s requested [%s]", it, g.maxiter, g.extra ? "+1" : "", d.c_str()); return; }
    if (nw) {
      if (r->ret && !(lastC && shots.back()->KKT <= g.tol)) { c.fail("converged", "success, but the last callback did not see the converged iterate [%s]", d.c_str()); return; }
      for (size_t j = 0; j + 1 < shots.size(); ++j) if (shots[j]->KKT <= g.tol) { c.fail("converged", "goes on after the callback of iteration %zu saw KKT %g <= %g [%s]", j, shots[j]->KKT, g.tol, d.c_str()); return; }
      if (g.extra && !r->ret && it >= 1 && prevIter == g.maxiter - 1 && end.iter == g.maxiter && !lastC) { c.fail("final", "no callback for the extra iteration [%s]", d.c_str()); return; }
      if (r->ret) { c.add("converging_iterations_seen"); } if (it > g.maxiter) c.add("extra_iterations_seen");
      // what the callback saw is the iterate it ended with
      if (r->ret && (!bs(shots.back()->xs, end.xs) || !bd(shots.back()->cost, end.cost) || !bd(shots.back()->KKT, end.KKT) || !bd(shots.back()->merit, end.merit))) { c.fail("converged", "the result is not what the last callback saw [%s]", d.c_str()); return; }
      // the figures belong to the trajectory seen
      for (auto* sh : shots) if (finite(sh->xs) && finite(sh->us) && mag(sh->xs) < 1e4 && mag(sh->us) < 1e4) { Metrics m = metrics(s, sh->xs, sh->us, true); if (!m.ok) continue; double mg = magM(m); if (std::fabs(sh->cost - m.cost) > 1e-10 * mg || std::fabs(sh->gap - m.gap1) > 1e-10 * (1 + m.gap1 + mag(sh->xs))) { c.fail("figures", "at a callback cost %.17g gaps %.17g, those of the iterate are %.17g %.17g [%s]", sh->cost, sh->gap, m.cost, m.gap1, d.c_str()); return; } c.add("figures_checked"); }
      c.mark(mix(hashVec(end.xs), it));
    }
    // the printer
    if (nv) {
      std::istringstream is(out); std::string l; size_t j = 0; bool qpline = qpcb; int headers = 0; std::vector<double> num;
      while (std::getline(is, l)) {
        if (l.compare(0, 4, "iter") == 0) { ++headers; continue; } if (l.find_first_not_of(" \t") == std::string::npos) continue;
        if (!parseLine(l, num)) { if (qpline) continue; c.fail("print", "line not understood: '%s' [%s]", l.c_str(), d.c_str()); return; }
        if (nw == 0) { ++j; continue; }
        if (j >= shots.size()) { c.fail("print", "more lines than iterations: '%s' [%s]", l.c_str(), d.c_str()); return; }
        const Snap& n2 = *shots[j]; bool cv = n2.KKT < g.tol; std::vector<double> e; std::vector<int> sci;   // 1 scientific, 0 fixed, 2 integer, 3 dashes
        auto put = [&](double q2, int kd) { e.push_back(q2); sci.push_back(kd); };
        put(n2.iter, 2); put(n2.merit, 1); put(n2.cost, 1); put(n2.gap, 1);
        if (k == CSQP) { put(n2.con, 1); if (cv) { put(0, 3); put(0, 3); put(n2.KKT, 1); put(0, 3); } else { put((n2.xg + n2.ug) / 2, 1); put(n2.step, 0); put(n2.KKT, 1); put(n2.qp_iters, 2); } }
        else if (cv) { put(0, 3); put(n2.KKT, 1); } else { put(n2.step, 1); put(n2.KKT, 1); }
        if (num.size() != e.size()) { c.fail("print", "%zu columns instead of %zu: '%s' [%s]", num.size(), e.size(), l.c_str(), d.c_str()); return; }
        for (size_t q2 = 0; q2 < e.size(); ++q2) { bool ok = sci[q2] == 3 ? num[q2] == 1e301 : sci[q2] == 2 ? num[q2] == e[q2] : shown(num[q2], e[q2], prec, sci[q2]) || shown(num[q2], e[q2], prec, !sci[q2]); if (!ok) { c.fail("print", "column %zu of '%s' shows %g, the solver reports %.17g (precision %d) [%s]", q2, l.c_str(), num[q2], e[q2], prec, d.c_str()); return; } c.add("printed_figures_checked"); }
        ++j;
      }
      if (nw && j != shots.size()) { c.fail("print", "%zu lines for %zu iterations [%s]", j, shots.size(), d.c_str()); return; }
      if (it && !headers) { c.fail("print", "no header [%s]", d.c_str()); return; }
    } else if (!qpcb && !out.empty()) { c.fail("output", "output without a printer: '%.60s' [%s]", out.c_str(), d.c_str()); return; }
  }
}
static void f_csqp(Ctx& c) { observe(c, CSQP); }
static void f_sqp(Ctx& c) { observe(c, SQP); }

// exceptions of a callback, and callbacks that outlive or do not outlive their owner
static void f_throw(Ctx& c) {
  Rng R = c.rng(); Kind k = R.b() ? SQP : CSQP; Gen gp = genFor(pickCls(R), k != SQP && R.b(0.8)); gp.maxT = 4; Spec s = genSpec(R, gp); Cfg g = genCfg(R, k, 1e-9, 1e-3); g.maxiter = R.i(1, 6); if (k == CSQP) { g.max_qp = std::min(g.max_qp, 60); g.reset_y = true; g.eqguess = true; } VV x = randXs(R, s, 1), u = randUs(R, s, 1);
  auto r = std::make_shared<Run>(); Prob p = makeProb(s); r->sol = Sol(k, p); r->sol.configure(g); r->xs0 = x; r->us0 = u; int at = R.i(0, 3), n = 0, after = 0; struct Own {}; CBs v; std::string d = describe(k, s, g);
  auto a = std::make_shared<Recorder>(&r->sol, nullptr); a->hook = [&](Snap&) { if (n++ == at) throw std::runtime_error("from a callback"); }; auto b2 = std::make_shared<Recorder>(&r->sol, nullptr); b2->hook = [&](Snap&) { ++after; }; v = {a, b2}; r->sol.base()->setCallbacks(v); v.clear(); a.reset(); b2.reset();
  bool thrown = false; try { r->sol.solve(x, u); } catch (std::runtime_error& e) { thrown = std::string(e.what()) == "from a callback"; if (!thrown) return; }
  if (n > at && !thrown) { c.fail("swallowed", "an exception of a callback did not come out [%s]", d.c_str()); return; }
  if (thrown && after != at) { c.fail("order", "after a throwing first callback the second has run %d times instead of %d [%s]", after, at, d.c_str()); return; }
  auto f = runSolve(k, s, g, x, u); r->tr.clear(); r->ret = r->threw = false; go(*r); if (f->ret != r->ret || f->threw != r->threw || !bs(f->end.xs, r->end.xs) || f->tr.size() != r->tr.size()) { c.fail("after", "a solve after an exception of a callback differs from a fresh one [%s]", d.c_str()); return; }
  if (thrown) { c.add("callback_exceptions"); c.mark(hashVec(r->end.xs)); } c.sample = d;
}
const std::vector<Scenario> kScenarios = {{"csqp", f_csqp, 12000, 100000}, {"sqp", f_sqp, 12000, 100000}, {"throwing_callback", f_throw, 3200, 20000}};
}  // namespace H
