// S08: multi-threaded CSQP equals the sequential one and is race-free.
// Built three times: without OpenMP it writes the traces of each case (and of the
// same case with the guess moved by rounding-sized amounts) to $S08_DIR; with
// OpenMP over harness/gomp_shim.cpp it runs the same cases with several thread
// counts and schedules and compares; with ThreadSanitizer it only runs.
#include "common.hpp"
#ifdef _OPENMP
#include "gomp_shim.hpp"
#define HAVE_MT 1
#else
#define HAVE_MT 0
#endif
namespace H {
const char* kProperty = "S08";
const char* kRule = "random shooting problems (horizon 1..12, mixed control and constraint dimensions incl. 0, vector and circle states, nodes that yield NaN outside a half-space), random CSQP settings (penalty update intervals, heuristic update, filter and merit), one to three solves per object, with and without the profiler; thread counts 1,2,3,4,T,T+3,16 under random delays and start orders; a case is non-trivial when a multi-threaded solve of at least one QP iteration was compared (or, under ThreadSanitizer, executed) on two or more threads";

struct Rec { std::vector<double> disc; std::vector<double> val; std::vector<int> len; char tiny = 0; };   // one observed moment
// Remembers whether a QP residual was at rounding level: the penalty is scaled by
// the ratio of the residuals, which is then arbitrary.
struct Watched : mim_solvers::SolverCSQP {
  bool tiny = false;
  explicit Watched(std::shared_ptr<crocoddyl::ShootingProblem> p) : SolverCSQP(p) {}
  void look() { double a = get_norm_primal(), b = get_norm_dual(), m = 1e-11; for (auto* v : {&z_, &y_}) for (auto& w : *v) m = std::max(m, 1e-11 * ninf(w)); if ((a >= 0 && a < m) || (b >= 0 && b < m)) tiny = true; }
  void forwardPass(const double s) override { look(); SolverCSQP::forwardPass(s); }
};
typedef std::vector<Rec> Trace;
static const char* kField[] = {"dx", "du", "dxt", "dut", "lag", "y", "z", "rho", "xs", "us", "fs", "Vx", "k", "K", "norm_primal", "norm_dual", "tol_primal", "tol_dual", "KKT", "cost", "merit", "gap", "con", "xgrad", "ugrad", "rho_sparse"};
static Rec flat(const Snap& s) {
  Rec r; r.disc = {double(s.iter), s.qp_iters, s.step, s.preg, s.dreg, double(s.timeout)};
  auto pv = [&](const VV& v) { int n = 0; for (auto& a : v) for (int j = 0; j < a.size(); ++j) { r.val.push_back(a[j]); ++n; } r.len.push_back(n); };
  auto pd = [&](double d) { r.val.push_back(d < -1e300 ? -INF : d); r.len.push_back(1); };
  for (auto* v : {&s.dx, &s.du, &s.dxt, &s.dut, &s.lag, &s.y, &s.z, &s.rho, &s.xs, &s.us, &s.fs, &s.Vx, &s.k}) pv(*v);
  { int n = 0; for (auto& K : s.K) for (int i = 0; i < K.rows(); ++i) for (int j = 0; j < K.cols(); ++j) { r.val.push_back(K(i, j)); ++n; } r.len.push_back(n); }
  for (double d : {s.np, s.nd, s.tp, s.td, s.KKT, s.cost, s.merit, s.gap, s.con, s.xg, s.ug, s.rho_sparse}) pd(d);
  return r;
}

struct Case { std::shared_ptr<Spec> s; std::vector<Cfg> g; std::vector<V> x0; std::vector<char> warm; VV xs, us; bool profiled = false; };
static Case makeCase(Ctx& c, int what) {
  Rng R = c.rng(); Case k; Cls cl = pickCls(R); Gen gn = genFor(cl, R.b(0.92)); gn.maxT = R.b(0.3) ? 12 : 6; gn.p_ng0 = R.b(0.5) ? 0.3 : 0.05;
  if (what == 1) gn.fail_regions = true;
  k.s = std::make_shared<Spec>(genSpec(R, gn));
  for (auto& N : k.s->nodes) N.throw_thr = INF;
  int n = R.b(0.5) ? 1 : R.i(2, 3);
  for (int j = 0; j < n; ++j) {
    Cfg g = j && R.b(0.5) ? k.g.back() : genCfg(R, CSQP, 1e-6, 1e-2); g.maxiter = R.i(1, 12); g.max_qp = R.b(0.5) ? R.i(1, 60) : 200; g.interval = R.b(0.3) ? 25 : R.i(1, 10); g.max_time = INF; g.sigma = R.lu(1e-7, 1e-3);
    k.g.push_back(g); k.x0.push_back(j ? fromTangent(k.s->circ, R.vec(k.s->n)) : k.s->x0); k.warm.push_back(R.b());
  }
  k.xs = randXs(R, *k.s, R.u(0, 1)); k.us = randUs(R, *k.s, R.u(0, 1));
  k.profiled = what == 2;
  return k;
}
static Trace execute(const Case& k, double noise, uint64_t nseed, const std::vector<int>& nth, bool jitter) {
  auto s = std::make_shared<Spec>(*k.s); Prob p = makeProb(*s); Trace tr; Rng N(nseed);
#if HAVE_MT
  if (jitter) p.mon->on_call = [](int, bool) { shim_jitter(); };
#endif
  if (k.profiled) crocoddyl::getProfiler().enable_profiler();
  Sol sol(CSQP, p); auto w = std::make_shared<Watched>(p.problem); sol.c = w; if (getenv("S08_PRINT")) sol.c->setQPCallbacks(true); std::vector<Snap> sn; std::vector<char> tiny; auto rec = attach(sol, sn); rec->hook = [&](Snap&) { w->look(); tiny.push_back(w->tiny); }; VV xs = k.xs, us = k.us;
  for (auto& x : xs) if (noise > 0 && !s->manifold()) for (int j = 0; j < x.size(); ++j) x[j] += noise * N.u(-1, 1) * (1 + std::fabs(x[j]));
  for (auto& u : us) if (noise > 0) for (int j = 0; j < u.size(); ++j) u[j] += noise * N.u(-1, 1) * (1 + std::fabs(u[j]));
  for (size_t j = 0; j < k.g.size(); ++j) {
    sol.prob.spec->x0 = k.x0[j]; sol.prob.sync(); sol.configure(k.g[j]);
#if HAVE_MT
    p.problem->set_nthreads(nth[j % nth.size()]);
#endif
    sn.clear(); tiny.clear(); bool ret = false, threw = false; VV X = xs, U = us; if (j && k.warm[j]) { Snap e = sol.snap(); if (finite(e.xs) && finite(e.us)) { X = e.xs; U = e.us; } }
    try { ret = sol.solve(X, U); } catch (std::exception&) { threw = true; }
    for (size_t q = 0; q < sn.size(); ++q) { tr.push_back(flat(sn[q])); tr.back().tiny = tiny[q]; }
    w->look(); tr.push_back(flat(sol.snap())); tr.back().tiny = w->tiny; tr.back().disc.push_back(1000 + ret + 2 * threw);
  }
  if (k.profiled) { crocoddyl::getProfiler().disable_profiler(); crocoddyl::getProfiler().reset_all(); }
  return tr;
}
static std::string path(Ctx& c) { const char* d = getenv("S08_DIR"); return std::string(d ? d : "/tmp") + "/" + c.scen + "_" + std::to_string(c.id); }
static void save(FILE* f, const Trace& t) { auto w = [&](const void* p, size_t n) { fwrite(p, 1, n, f); }; size_t n = t.size(); w(&n, 8);
  for (auto& r : t) { for (auto* v : {&r.disc, &r.val}) { n = v->size(); w(&n, 8); w(v->data(), 8 * n); } n = r.len.size(); w(&n, 8); w(r.len.data(), 4 * n); w(&r.tiny, 1); } }
static bool load(FILE* f, Trace& t) { auto rd = [&](void* p, size_t n) { return fread(p, 1, n, f) == n; }; size_t n; if (!rd(&n, 8)) return false; t.resize(n);
  for (auto& r : t) { for (auto* v : {&r.disc, &r.val}) { if (!rd(&n, 8)) return false; v->resize(n); if (n && !rd(v->data(), 8 * n)) return false; } if (!rd(&n, 8)) return false; r.len.resize(n); if (n && !rd(r.len.data(), 4 * n)) return false; if (!rd(&r.tiny, 1)) return false; } return true; }

static const int NP = 4;   // perturbed runs
static bool sameD(const Rec& a, const Rec& b) { if (a.disc.size() != b.disc.size()) return false; for (size_t i = 0; i < a.disc.size(); ++i) if (a.disc[i] != b.disc[i] && !(std::isnan(a.disc[i]) && std::isnan(b.disc[i])) && std::fabs(a.disc[i] - b.disc[i]) > 1e-12 * std::fabs(a.disc[i])) return false; return a.len == b.len; }
// steps at which all reference runs agree in everything discrete
static size_t agreeing(const std::vector<Trace>& ref) { size_t n = 0; for (;; ++n) { for (auto& t : ref) if (n >= t.size() || !sameD(t[n], ref[0][n])) return n; } }
static double adiff(double a, double b) { if (a == b || (std::isnan(a) && std::isnan(b))) return 0; double d = std::fabs(a - b); return std::isnan(d) ? INF : d; }

#if HAVE_MT
static void compare(Ctx& c, const Case& k, const std::vector<Trace>& ref) {
  Rng S(mix(c.seed, 77 + uint64_t(c.id) * 131)); size_t lim = agreeing(ref); int T = k.s->T;
  if (lim < ref[0].size()) c.add("traces_cut_at_rounding_dependent_decision");
  int runs = c.thorough ? 6 : 3; bool compared = false;
  for (int r = 0; r < runs && !c.failed(); ++r) {
    std::vector<int> nth; for (size_t j = 0; j < k.g.size(); ++j) nth.push_back(std::vector<int>{1, 2, 3, 4, T, T + 3, 16, 2, 3}[r == 0 && j == 0 ? 1 + S.i(0, 2) : S.i(0, 8)]);
    int mode = S.i(0, 2); shim_config(mode, S.i(1, 1 << 30), S.i(1, 5)); long reg0 = shim_regions();
    Trace t = execute(k, 0, 0, nth, mode == 1); c.add("runs"); c.add("parallel_regions", double(shim_regions() - reg0)); c.add(fmt("runs_mode%d", mode).c_str()); c.add(fmt("runs_first_solve_threads_%d", nth[0] > 4 ? 5 : nth[0]).c_str());
    uint64_t sched = shim_schedule();
    auto who = [&]() { std::string w; for (int n : nth) w += fmt(" %d", n); return fmt("threads%s, schedule mode %d [%s]", w.c_str(), mode, describe(CSQP, *k.s, k.g[0]).c_str()); };
    for (size_t i = 0; i < lim && !c.failed(); ++i) {
      bool bad = i >= t.size() || !sameD(t[i], ref[0][i]);
      bool tiny = ref[0][i].tiny || (i < t.size() && t[i].tiny);
      if (bad && tiny) { c.add("rounding_dependent_penalties"); break; }
      if (bad) {   // a decision at rounding level?  ask the multi-threaded build with guesses moved by rounding
        bool any = false; for (int j = 0; j < 10 && !any; ++j) { Trace q = execute(k, 1e-13, 1000 + j, nth, false); any = i < q.size(); for (size_t m = 0; any && m <= i; ++m) any = sameD(q[m], ref[0][m]); }
        if (any) { c.add("rounding_dependent_decisions"); break; }
        std::string a, b; for (double d : ref[0][i].disc) a += fmt(" %g", d); if (i < t.size()) for (double d : t[i].disc) b += fmt(" %g", d); else b = " (ended)";
        c.fail("decisions", "observation %zu: iteration, QP iterations, step, regularization... sequential:%s, multi-threaded:%s; %s", i, a.c_str(), b.c_str(), who().c_str()); break;
      }
      size_t o = 0; bool cut = false;
      for (size_t f = 0; f < t[i].len.size(); ++f) {
        double e = 0, mg = 0, no = 0; size_t at = o;
        for (int j = 0; j < t[i].len[f]; ++j, ++o) {
          double a = ref[0][i].val[o], d = adiff(a, t[i].val[o]); if (std::isfinite(a)) mg = std::max(mg, std::fabs(a)); if (d > e) { e = d; at = o; }
          for (int p = 1; p <= NP; ++p) no = std::max(no, adiff(a, ref[p][i].val[o]));
        }
        double tol = 1e-9 * (1 + mg) + 2e3 * no; if (!std::isfinite(tol) || no > 1e-4 * (1 + mg)) { cut = true; continue; }
        c.add("figures_compared", t[i].len[f]); if (e <= tol) c.mx("difference_over_tolerance", e / tol);
        if (e > tol && tiny) { c.add("rounding_dependent_penalties"); cut = true; continue; }
        if (e > tol) { c.fail(std::string("differs_") + kField[f], "observation %zu: %s is %.12g sequentially and %.12g with threads (tolerance %.2e, rounding noise %.1e); %s", i, kField[f], ref[0][i].val[at], t[i].val[at], tol, no, who().c_str()); break; }
      }
      if (cut) { c.add("traces_cut_at_ill_conditioned_iteration"); break; }
      c.add("observations_compared"); compared = true;
    }
    if (!c.failed() && lim == ref[0].size() && t.size() != lim) {   // the end of a solve may be decided by rounding as well
      bool any = false; for (int j = 0; j < 10 && !any; ++j) any = execute(k, 1e-13, 1000 + j, nth, false).size() == lim || execute(k, 1e-13, 2000 + j, std::vector<int>(nth.size(), 1), false).size() == t.size();
      if (any) { c.add("rounding_dependent_decisions"); continue; }
    }
    if (!c.failed() && lim == ref[0].size() && t.size() != lim) c.fail("decisions", "%zu observations sequentially, %zu with threads; %s", lim, t.size(), who().c_str());
    if (compared && shim_regions() > reg0) c.mark(mix(sched, hashVec(k.xs)));
  }
}
#endif

static void one(Ctx& c, int what) {
  Case k = makeCase(c, what); c.sample = describe(CSQP, *k.s, k.g[0]) + fmt(" solves=%d%s", int(k.g.size()), k.profiled ? " profiled" : "");
#if !HAVE_MT
  std::vector<Trace> ref; for (int p = 0; p <= NP; ++p) ref.push_back(execute(k, p ? 1e-13 : 0, 31 * p + 7, {1}, false));
  FILE* f = fopen(path(c).c_str(), "wb"); if (!f) { c.fail("internal", "cannot write %s", path(c).c_str()); return; }
  for (auto& t : ref) save(f, t); fclose(f); c.add("reference_traces"); c.add("reference_observations", double(ref[0].size()));
#elif defined(__SANITIZE_THREAD__)
  fprintf(stderr, "CASE %s %ld\n", c.scen.c_str(), c.id); fflush(stderr);
  Rng S(mix(c.seed, 99 + uint64_t(c.id) * 131)); std::vector<int> nth; for (size_t j = 0; j < k.g.size(); ++j) nth.push_back(std::vector<int>{2, 3, 4, k.s->T + 1, 6}[S.i(0, 4)]);
  shim_config(S.i(0, 1), S.i(1, 1 << 30), 4); long r0 = shim_regions();
  Trace t = execute(k, 0, 0, nth, false); c.add("runs_under_tsan"); c.add("parallel_regions_under_tsan", double(shim_regions() - r0)); c.add("observations_under_tsan", double(t.size()));
  if (shim_regions() > r0) c.mark(mix(shim_schedule(), hashVec(k.xs)));
#else
  std::vector<Trace> ref(NP + 1); FILE* f = fopen(path(c).c_str(), "rb"); bool ok = f; for (auto& t : ref) ok = ok && load(f, t); if (f) fclose(f);
  if (!ok) { c.fail("internal", "no reference trace %s", path(c).c_str()); return; }
  compare(c, k, ref);
#endif
}
static void f_solve(Ctx& c) { one(c, 0); }
static void f_nan(Ctx& c) { one(c, 1); }
static void f_prof(Ctx& c) { one(c, 2); }
const std::vector<Scenario> kScenarios = {{"solve", f_solve, 500, 30000}, {"nan", f_nan, 200, 10000}, {"profiled", f_prof, 60, 2000}};
}  // namespace H
