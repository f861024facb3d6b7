// Problem family used by every monitor: a pure, self-contained description of a
// shooting problem together with its exact evaluation.  Nothing in this file
// uses the library under test, so it can serve as the oracle's view.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <cstdint>
#include <limits>
#include <memory>
#include <string>
#include <vector>

namespace H {
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
static const double INF = std::numeric_limits<double>::infinity();

struct Rng {
  uint64_t s;
  std::vector<V> stash;  // controls belonging to the guess drawn last (see randXs)
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  double lu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  double n() { return std::sqrt(-2 * std::log(1 - u())) * std::cos(6.283185307179586 * u()); }
  int i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }  // inclusive
  bool b(double p = 0.5) { return u() < p; }
  V vec(int k, double sc = 1) { V v(k); for (int j = 0; j < k; ++j) v[j] = sc * n(); return v; }
  M mat(int r, int c, double sc = 1) { M m(r, c); for (int a = 0; a < r; ++a) for (int b2 = 0; b2 < c; ++b2) m(a, b2) = sc * n(); return m; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, int(l.size()) - 1)); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 1000003ull + b); return r.next(); }

struct Node {
  int nu = 0, ng = 0;
  // dynamics (ignored for the terminal node)
  M A, B; V c; double dyn_eps = 0; M D, E;
  // cost
  M Mx, Nu; V r; V lx, lu; M Hs; double lc_eps = 0; M La, Lb;
  double hsx = 0, hsu = 0;   // only added to the reported Hessians
  // constraints
  M Gx, Gu; V g0; double con_eps = 0; M Sx, Su; V lb, ub;
  // region where the model cannot be evaluated
  V fw; double nan_thr = INF, throw_thr = INF; int nan_kind = 0;  // 0 cost, 1 dynamics, 2 constraint
};

struct Spec {
  int T = 1, n = 1;
  std::vector<char> circ;   // coordinate lives on the unit circle
  V x0;
  std::vector<Node> nodes;  // T+1
  int nx() const { int k = n; for (char c : circ) k += c ? 1 : 0; return k; }
  bool manifold() const { for (char c : circ) if (c) return true; return false; }
  // reference trajectory the constraints were built around
  std::vector<V> xr, ur;
};

// ---- state operations ---------------------------------------------------
inline V fromTangent(const std::vector<char>& circ, const V& q) {
  int k = 0; for (char c : circ) k += c ? 2 : 1;
  V x(k); k = 0;
  for (size_t j = 0; j < circ.size(); ++j)
    if (circ[j]) { x[k++] = std::cos(q[j]); x[k++] = std::sin(q[j]); } else x[k++] = q[j];
  return x;
}
template <class A, class B, class C>
inline void stDiff(const std::vector<char>& circ, const A& x0, const B& x1, C&& d) {
  int k = 0;
  for (size_t j = 0; j < circ.size(); ++j)
    if (circ[j]) {
      double c = x0[k] * x1[k] + x0[k + 1] * x1[k + 1], s = x0[k] * x1[k + 1] - x0[k + 1] * x1[k];
      d[j] = std::atan2(s, c); k += 2;
    } else { d[j] = x1[k] - x0[k]; ++k; }
}
template <class A, class B, class C>
inline void stIntegrate(const std::vector<char>& circ, const A& x, const B& dx, C&& out) {
  int k = 0;
  for (size_t j = 0; j < circ.size(); ++j)
    if (circ[j]) {
      double c = std::cos(dx[j]), s = std::sin(dx[j]);
      double a = x[k] * c - x[k + 1] * s, b = x[k] * s + x[k + 1] * c, m = std::sqrt(a * a + b * b);
      out[k] = a / m; out[k + 1] = b / m; k += 2;
    } else { out[k] = x[k] + dx[j]; ++k; }
}
inline V sDiff(const Spec& s, const V& a, const V& b) { V d(s.n); stDiff(s.circ, a, b, d); return d; }
inline V sInt(const Spec& s, const V& a, const V& d) { V o(a.size()); stIntegrate(s.circ, a, d, o); return o; }

// ---- evaluation ---------------------------------------------------------
struct Eval {
  double cost = 0; V xnext, g; bool thrown = false;
  V Lx, Lu; M Lxx, Lxu, Luu, Fx, Fu, Gx, Gu;
};

inline void feat(const Spec& s, const V& x, V& phi, V& J) {
  phi.resize(s.n); J.resize(s.n); int k = 0;
  for (int j = 0; j < s.n; ++j)
    if (s.circ[j]) { phi[j] = x[k + 1]; J[j] = x[k]; k += 2; } else { phi[j] = x[k++]; J[j] = 1; }
}
inline double lcosh(double z) { z = std::fabs(z); return z + std::log1p(std::exp(-2 * z)) - 0.6931471805599453; }

inline Eval evalNode(const Spec& s, int t, const V& x, const V& uin, bool diff) {
  const Node& n = s.nodes[t];
  Eval e; V phi, J; feat(s, x, phi, J);
  const V u = n.nu ? uin : V(V::Zero(0));
  double fz = n.fw.size() ? n.fw.head(s.n).dot(phi) + (n.nu ? n.fw.tail(n.nu).dot(u) : 0.) : 0.;
  if (fz > n.throw_thr) { e.thrown = true; }
  V res = n.Mx * phi - n.r; if (n.nu) res += n.Nu * u;
  e.cost = 0.5 * res.squaredNorm() + n.lx.dot(phi);
  if (n.nu) e.cost += n.lu.dot(u);
  V Hp; if (n.Hs.size()) { Hp = n.Hs * phi; e.cost += 0.5 * phi.dot(Hp); }
  V lz; if (n.lc_eps != 0) { lz = n.La * phi; if (n.nu) lz += n.Lb * u; for (int j = 0; j < lz.size(); ++j) e.cost += n.lc_eps * lcosh(lz[j]); }
  const bool isnan_here = fz > n.nan_thr; const double qnan = std::numeric_limits<double>::quiet_NaN();
  if (isnan_here && (n.nan_kind == 0 || (n.nan_kind == 2 && n.ng == 0) || (n.nan_kind == 1 && t == s.T))) e.cost = qnan;
  V th;
  if (t < s.T) {
    V v = n.A * phi + n.c; if (n.nu) v += n.B * u;
    if (n.dyn_eps != 0) { th = n.D * phi; if (n.nu) th += n.E * u; for (int j = 0; j < s.n; ++j) { th[j] = std::tanh(th[j]); v[j] += n.dyn_eps * th[j]; } }
    e.xnext = sInt(s, x, v);
    if (isnan_here && n.nan_kind == 1) e.xnext[0] = qnan;
  } else e.xnext = x;
  V sz;
  e.g = n.g0;
  if (n.ng) { e.g += n.Gx * phi; if (n.nu) e.g += n.Gu * u;
    if (n.con_eps != 0) { sz = n.Sx * phi; if (n.nu) sz += n.Su * u; for (int j = 0; j < n.ng; ++j) e.g[j] += n.con_eps * std::sin(sz[j]); } }
  if (isnan_here && n.nan_kind == 2 && n.ng) e.g[n.ng - 1] = qnan;
  if (!diff) return e;
  V gp = n.Mx.transpose() * res + n.lx; M hp = n.Mx.transpose() * n.Mx;
  V gu = V::Zero(n.nu); M hu = M::Zero(n.nu, n.nu), hpu = M::Zero(s.n, n.nu);
  if (n.nu) { gu = n.Nu.transpose() * res + n.lu; hu = n.Nu.transpose() * n.Nu; hpu = n.Mx.transpose() * n.Nu; }
  if (n.Hs.size()) { gp += Hp; hp += n.Hs; }
  if (n.lc_eps != 0) {
    V d1(lz.size()), d2(lz.size());
    for (int j = 0; j < lz.size(); ++j) { double th2 = std::tanh(lz[j]); d1[j] = n.lc_eps * th2; d2[j] = n.lc_eps * (1 - th2 * th2); }
    gp += n.La.transpose() * d1; hp += n.La.transpose() * d2.asDiagonal() * n.La;
    if (n.nu) { gu += n.Lb.transpose() * d1; hu += n.Lb.transpose() * d2.asDiagonal() * n.Lb; hpu += n.La.transpose() * d2.asDiagonal() * n.Lb; }
  }
  e.Lx = J.cwiseProduct(gp); e.Lu = gu;
  e.Lxx = J.asDiagonal() * hp * J.asDiagonal(); e.Lxx.diagonal().array() += n.hsx;
  e.Luu = hu; e.Luu.diagonal().array() += n.hsu;
  e.Lxu = J.asDiagonal() * hpu;
  if (t < s.T) {
    M a = n.A; e.Fu = n.nu ? n.B : M(M::Zero(s.n, 0));
    if (n.dyn_eps != 0) { V d(s.n); for (int j = 0; j < s.n; ++j) d[j] = n.dyn_eps * (1 - th[j] * th[j]); a += d.asDiagonal() * n.D; if (n.nu) e.Fu += d.asDiagonal() * n.E; }
    e.Fx = a * J.asDiagonal(); e.Fx.diagonal().array() += 1;
  } else { e.Fx = M::Zero(s.n, s.n); e.Fu = M::Zero(s.n, n.nu); }
  e.Gx = M::Zero(n.ng, s.n); e.Gu = M::Zero(n.ng, n.nu);
  if (n.ng) {
    M gx = n.Gx; if (n.nu) e.Gu = n.Gu;
    if (n.con_eps != 0) { V d(n.ng); for (int j = 0; j < n.ng; ++j) d[j] = n.con_eps * std::cos(sz[j]); gx += d.asDiagonal() * n.Sx; if (n.nu) e.Gu += d.asDiagonal() * n.Su; }
    e.Gx = gx * J.asDiagonal();
  }
  return e;
}

// ---- generation ---------------------------------------------------------
struct Gen {
  int maxT = 6, maxn = 4, maxnu = 3, maxng = 4;
  int T = 0, n = 0;                 // fixed if > 0
  int minn = 1, minnu = 1, minng = 1;
  bool constraints = false, equality = true, neareq = true, infbounds = true, terminal_con = true;
  bool state_only_con_t0 = true;
  double p_nu0 = 0.12, p_ng0 = 0.3;
  bool vary_nu = true;
  bool manifold = false;            // may use circle coordinates
  bool nonlinear = false;           // dynamics / constraints
  bool convex_nonquad = false;      // log-cosh terms
  double nl = 0.5;                  // strength of the non-linearity
  bool strong = true;               // strictly convex running cost
  double cost_lo = 0.1, cost_hi = 10;
  bool fail_regions = false;
  bool linterms = true;
};

inline Spec genSpec(Rng& R, const Gen& o) {
  Spec s;
  s.T = o.T > 0 ? o.T : (R.b(0.15) ? 1 : R.i(1, o.maxT));
  s.n = o.n > 0 ? o.n : R.i(o.minn, o.maxn);
  s.circ.assign(s.n, 0);
  if (o.manifold && R.b(0.6)) for (int j = 0; j < s.n; ++j) s.circ[j] = R.b(0.5);
  V q0 = R.vec(s.n); s.x0 = fromTangent(s.circ, q0);
  int nu_common = R.i(o.minnu, o.maxnu); bool vary = o.vary_nu && R.b(0.7);
  s.nodes.resize(s.T + 1);
  bool any_nu = false;
  for (int t = 0; t <= s.T; ++t) {
    Node& N = s.nodes[t];
    if (t < s.T) {
      N.nu = vary ? R.i(o.minnu, o.maxnu) : nu_common;
      if (vary && R.b(o.p_nu0)) N.nu = 0;
      if (t == s.T - 1 && !any_nu && N.nu == 0) N.nu = 1;
      if (N.nu) any_nu = true;
    }
    int n = s.n, nu = N.nu;
    double dt = R.pick({0.1, 0.3, 1.0});
    N.A = R.mat(n, n, dt * 0.7); N.B = R.mat(n, nu, 1.0); N.c = R.vec(n, 0.3);
    if (o.nonlinear && R.b(0.8)) { N.dyn_eps = o.nl * R.u(0.2, 1); N.D = R.mat(n, n, 1); N.E = R.mat(n, nu, 1); }
    double w = R.lu(o.cost_lo, o.cost_hi), wu = R.lu(o.cost_lo, o.cost_hi);
    int nr = R.i(1, n + nu + 1);
    if (o.strong) nr = n + nu;
    N.Mx = R.mat(nr, n, std::sqrt(w) * 0.6); N.Nu = R.mat(nr, nu, std::sqrt(w) * 0.6); N.r = R.vec(nr, std::sqrt(w));
    N.lx = o.linterms ? R.vec(n, 0.3 * w) : V(V::Zero(n)); N.lu = o.linterms ? R.vec(nu, 0.3 * wu) : V(V::Zero(nu));
    N.Hs = M::Zero(n, n);
    if (o.strong) { N.Hs.diagonal().array() += 0.3 * w;
      // strictly convex in u as well
      M extra = M::Zero(nu, n); N.Mx.conservativeResize(nr + nu, n); N.Mx.bottomRows(nu) = extra;
      N.Nu.conservativeResize(nr + nu, nu); N.Nu.bottomRows(nu) = std::sqrt(0.5 * wu) * M::Identity(nu, nu);
      N.r.conservativeResize(nr + nu); N.r.tail(nu) = R.vec(nu, 0.5); }
    if (o.convex_nonquad && R.b(0.7)) { N.lc_eps = w * R.u(0.2, 1.5); int k = R.i(1, 3); N.La = R.mat(k, n); N.Lb = R.mat(k, nu); }
    if (t == s.T && R.b(0.08)) { N.Mx.setZero(); N.Nu.setZero(); N.r.setZero(); N.lx.setZero(); N.Hs.setZero(); N.lc_eps = 0; }  // no terminal cost
    if (t < s.T && R.b(0.04)) N.B.setZero();  // controls without effect
    N.ng = 0;
    if (o.constraints && !R.b(o.p_ng0) && (t < s.T || o.terminal_con)) N.ng = R.i(o.minng, o.maxng);
    N.Gx = M::Zero(N.ng, n); N.Gu = M::Zero(N.ng, nu); N.g0 = V::Zero(N.ng); N.lb = V::Zero(N.ng); N.ub = V::Zero(N.ng);
    if (o.nonlinear && N.ng && R.b(0.5)) { N.con_eps = 0.3 * o.nl; N.Sx = R.mat(N.ng, n); N.Su = R.mat(N.ng, nu); }
    if (o.fail_regions && R.b(0.6)) {
      N.fw = R.vec(n + nu);
      double thr = N.fw.norm() * R.u(0.3, 2.0);
      if (R.b(0.6)) { N.nan_thr = thr; N.nan_kind = R.b(0.5) ? 0 : R.i(1, 2); } if (R.b(0.4)) N.throw_thr = thr * R.u(0.8, 1.5);
    }
  }
  // reference trajectory and the constraints around it (evaluated without the fail regions)
  std::vector<double> nthr, tthr;
  for (auto& N : s.nodes) { nthr.push_back(N.nan_thr); tthr.push_back(N.throw_thr); N.nan_thr = N.throw_thr = INF; }
  s.xr.resize(s.T + 1); s.ur.resize(s.T);
  s.xr[0] = s.x0;
  for (int t = 0; t <= s.T; ++t) {
    Node& N = s.nodes[t]; int n = s.n, nu = N.nu;
    V u = R.vec(nu, 0.7); if (t < s.T) s.ur[t] = u;
    int neq = 0;
    for (int j = 0; j < N.ng; ++j) {
      bool state_only = R.b(0.3), input_only = R.b(0.3);
      double sc = R.lu(0.3, 3);
      if (!(input_only && nu)) N.Gx.row(j) = R.vec(n, sc).transpose();
      if (nu && !state_only) N.Gu.row(j) = R.vec(nu, sc).transpose();
      N.g0[j] = R.n();
    }
    if (N.ng) {
      Eval e = evalNode(s, t, s.xr[t], u, false);
      for (int j = 0; j < N.ng; ++j) {
        double g = e.g[j];
        bool hasu = nu && N.Gu.row(j).norm() > 0;
        double wlo = R.b(0.3) ? R.u(0, 0.02) : R.u(0.05, 2), whi = R.b(0.3) ? R.u(0, 0.02) : R.u(0.05, 2);
        N.lb[j] = g - wlo; N.ub[j] = g + whi;
        int kind = R.i(0, 9);
        if (kind <= 2) N.lb[j] = -INF; else if (kind <= 5) N.ub[j] = INF;
        else if (kind == 6 && o.infbounds) { N.lb[j] = -INF; N.ub[j] = INF; }
        else if (kind == 7 && o.equality && hasu && neq < nu - (nu > 1 ? 1 : 0) && neq < 2) { N.lb[j] = N.ub[j] = g; ++neq; if (o.neareq && R.b(0.25)) N.ub[j] += R.b(0.7) ? R.lu(1e-10, 9e-7) : R.lu(1.2e-6, 1e-4); }
        if (!o.state_only_con_t0 && t == 0 && !hasu) { N.lb[j] = -INF; N.ub[j] = INF; }
        if (!o.infbounds && N.lb[j] == -INF && N.ub[j] == INF) N.ub[j] = g + 1;
      }
    }
    if (t < s.T) s.xr[t + 1] = evalNode(s, t, s.xr[t], u, false).xnext;
  }
  for (int t = 0; t <= s.T; ++t) { s.nodes[t].nan_thr = nthr[t]; s.nodes[t].throw_thr = tthr[t]; }
  return s;
}

// Makes one block of one node of an otherwise quadratic problem non-quadratic: after a
// full step a single optimality row is left to keep a solver going.
inline bool singleBlock(Rng& R, Spec& s, bool cost_only) {
  int t = R.b(0.3) ? 0 : R.b(0.3) ? s.T : R.i(0, s.T); Node& N = s.nodes[t]; int k = R.i(1, 3), what = cost_only ? R.i(0, 1) : R.i(0, 3);
  if (what == 0 && t) { N.lc_eps = R.lu(0.3, 5); N.La = R.mat(k, s.n); N.Lb = M::Zero(k, N.nu); return true; }
  if (what <= 1 && N.nu) { N.lc_eps = R.lu(0.3, 5); N.La = M::Zero(k, s.n); N.Lb = R.mat(k, N.nu); return true; }
  if (what == 2 && t < s.T) { N.dyn_eps = R.u(0.1, 1); N.D = R.mat(s.n, s.n, 1); N.E = R.mat(s.n, N.nu, 1); if (R.b()) { N.D.bottomRows(s.n - 1).setZero(); N.E.bottomRows(s.n - 1).setZero(); } return true; }
  if (what == 3 && N.ng) { N.con_eps = R.u(0.1, 0.6); N.Sx = R.mat(N.ng, s.n); N.Su = R.mat(N.ng, N.nu); return true; }
  return false;
}

inline std::vector<V> rollout(const Spec& s, const std::vector<V>& us) {
  std::vector<V> xs(s.T + 1); xs[0] = s.x0;
  for (int t = 0; t < s.T; ++t) xs[t + 1] = evalNode(s, t, xs[t], us[t], false).xnext;
  return xs;
}
// A guess: usually the reference plus noise; sometimes exactly feasible (the
// rollout of noisy controls), closed up to the last gap, or the constant x0.
inline std::vector<V> randXs(Rng& R, const Spec& s, double sc) {
  std::vector<V> xs(s.T + 1);
  R.stash.clear();
  double p = R.u();
  if (p < 0.12) {
    for (int t = 0; t < s.T; ++t) R.stash.push_back(s.ur[t] + R.vec(s.nodes[t].nu, sc));
    if (R.b(0.25)) R.stash = s.ur;
    xs = rollout(s, R.stash);
    bool fin = true; for (auto& x : xs) fin = fin && x.allFinite() && x.lpNorm<Eigen::Infinity>() < 1e3;
    if (fin) { if (R.b(0.2)) xs[s.T] = sInt(s, xs[s.T], R.vec(s.n, sc)); return xs; }
    R.stash.clear();
  } else if (p < 0.16) { for (auto& x : xs) x = s.x0; return xs; }
  for (int t = 0; t <= s.T; ++t) xs[t] = sInt(s, s.xr[t], R.vec(s.n, sc));
  return xs;
}
inline std::vector<V> randUs(Rng& R, const Spec& s, double sc) {
  std::vector<V> us(s.T);
  if (int(R.stash.size()) == s.T) {
    bool fits = true; for (int t = 0; t < s.T; ++t) fits = fits && R.stash[t].size() == s.nodes[t].nu;
    us.swap(R.stash); R.stash.clear(); if (fits) return us; us.assign(s.T, V());
  }
  for (int t = 0; t < s.T; ++t) us[t] = s.ur[t] + R.vec(s.nodes[t].nu, sc);
  return us;
}

// ---- metrics of a trajectory -------------------------------------------
struct Metrics {
  bool ok = true;              // no exception, finite cost
  double cost = 0, gap1 = 0, gapInf = 0, con1 = 0;
  std::vector<V> fs; std::vector<Eval> ev;
};
inline double conViol(const Node& n, const V& g) {
  double c = 0;
  for (int j = 0; j < n.ng; ++j) { if (std::isnan(g[j])) return g[j]; c += std::max(0., n.lb[j] - g[j]); c += std::max(0., g[j] - n.ub[j]); }
  return c;
}
inline Metrics metrics(const Spec& s, const std::vector<V>& xs, const std::vector<V>& us, bool diff) {
  Metrics m; m.fs.resize(s.T + 1); m.ev.resize(s.T + 1);
  m.fs[0] = sDiff(s, xs[0], s.x0); m.gap1 = m.fs[0].lpNorm<1>(); m.gapInf = m.fs[0].size() ? m.fs[0].lpNorm<Eigen::Infinity>() : 0;
  for (int t = 0; t <= s.T; ++t) {
    m.ev[t] = evalNode(s, t, xs[t], t < s.T ? us[t] : V(), diff);
    if (m.ev[t].thrown) m.ok = false;
    m.cost += m.ev[t].cost; m.con1 += conViol(s.nodes[t], m.ev[t].g);
    if (t < s.T) { m.fs[t + 1] = sDiff(s, xs[t + 1], m.ev[t].xnext); m.gap1 += m.fs[t + 1].lpNorm<1>(); m.gapInf = std::max(m.gapInf, m.fs[t + 1].lpNorm<Eigen::Infinity>()); }
  }
  if (!std::isfinite(m.cost) || !std::isfinite(m.gap1) || !std::isfinite(m.con1)) m.ok = false;
  return m;
}

// KKT residual of the problem with given multipliers. y may be empty.
struct KKT { double stat_x = 0, stat_x0 = 0, stat_u = 0, gap = 0, con = 0;
  double total(bool with_x0) const { double k = std::max(std::max(stat_x, stat_u), std::max(gap, con)); return with_x0 ? std::max(k, stat_x0) : k; } };
inline double ninf(const V& v) { double m = 0; for (int j = 0; j < v.size(); ++j) { if (!std::isfinite(v[j])) return INF; m = std::max(m, std::fabs(v[j])); } return m; }
inline KKT kkt(const Spec& s, const Metrics& m, const std::vector<V>& lag, const std::vector<V>* y) {
  KKT k; k.gap = std::isfinite(m.gapInf) ? m.gapInf : INF; k.con = y ? m.con1 : 0;
  for (int t = 0; t <= s.T; ++t) {
    const Eval& e = m.ev[t];
    V rx = e.Lx - lag[t];
    if (t < s.T) rx += e.Fx.transpose() * lag[t + 1];
    if (t == 0) { k.stat_x0 = ninf(rx); }
    else { if (y && s.nodes[t].ng) rx += e.Gx.transpose() * (*y)[t]; k.stat_x = std::max(k.stat_x, ninf(rx)); }
    if (t < s.T && s.nodes[t].nu) {
      V ru = e.Lu + e.Fu.transpose() * lag[t + 1];
      if (y && s.nodes[t].ng) ru += e.Gu.transpose() * (*y)[t];
      k.stat_u = std::max(k.stat_u, ninf(ru));
    }
  }
  return k;
}

// ---- dense QP oracle ----------------------------------------------------
// variables [dx1..dxT, du0..du(T-1)]
struct DenseQP { M P, A, C; V q, b, l, u; std::vector<int> xo, uo, co; int nv = 0; };
inline DenseQP denseQP(const Spec& s, const Metrics& m, double preg, double dreg, bool con) {
  DenseQP Q; int n = s.n; Q.xo.assign(s.T + 1, -1); Q.uo.assign(s.T + 1, -1); Q.co.assign(s.T + 2, 0);
  int o = 0; for (int t = 1; t <= s.T; ++t) { Q.xo[t] = o; o += n; }
  for (int t = 0; t < s.T; ++t) { Q.uo[t] = o; o += s.nodes[t].nu; }
  Q.nv = o; int nc = 0; for (int t = 0; t <= s.T; ++t) { Q.co[t] = nc; if (con) nc += s.nodes[t].ng; } Q.co[s.T + 1] = nc;
  Q.P = M::Zero(o, o); Q.q = V::Zero(o); Q.A = M::Zero(n * s.T, o); Q.b = V::Zero(n * s.T); Q.C = M::Zero(nc, o); Q.l = V::Zero(nc); Q.u = V::Zero(nc);
  for (int t = 0; t <= s.T; ++t) {
    const Eval& e = m.ev[t]; int nu = s.nodes[t].nu, xo = Q.xo[t], uo = Q.uo[t];
    if (t > 0) { Q.P.block(xo, xo, n, n) = e.Lxx; Q.P.block(xo, xo, n, n).diagonal().array() += preg; Q.q.segment(xo, n) = e.Lx; }
    if (t < s.T && nu) {
      Q.P.block(uo, uo, nu, nu) = e.Luu; Q.P.block(uo, uo, nu, nu).diagonal().array() += dreg; Q.q.segment(uo, nu) = e.Lu;
      if (t > 0) { Q.P.block(xo, uo, n, nu) = e.Lxu; Q.P.block(uo, xo, nu, n) = e.Lxu.transpose(); }
    }
    if (t < s.T) {
      Q.A.block(t * n, Q.xo[t + 1], n, n).setIdentity();
      if (t > 0) Q.A.block(t * n, xo, n, n) = -e.Fx;
      if (nu) Q.A.block(t * n, uo, n, nu) = -e.Fu;
      Q.b.segment(t * n, n) = m.fs[t + 1];
    }
    if (con && s.nodes[t].ng) {
      int ng = s.nodes[t].ng;
      if (t > 0) Q.C.block(Q.co[t], xo, ng, n) = e.Gx;
      if (t < s.T && nu) Q.C.block(Q.co[t], uo, ng, nu) = e.Gu;
      Q.l.segment(Q.co[t], ng) = s.nodes[t].lb - e.g; Q.u.segment(Q.co[t], ng) = s.nodes[t].ub - e.g;
    }
  }
  return Q;
}

// Primal-dual interior point method for min 1/2 v'Pv+q'v, Av=b, l<=Cv<=u.
// Returns ok only if the optimality residual is verified.
struct QPSol { bool ok = false; V v, lam, y; double res = INF; };
inline QPSol solveQP(const DenseQP& Q) {
  QPSol S; int n = Q.nv;
  // rows: equalities from C (l==u) join A; inequality rows G v <= h
  std::vector<std::pair<int, int>> G; std::vector<int> EQ;
  for (int j = 0; j < Q.C.rows(); ++j) {
    if (Q.l[j] == Q.u[j] && std::isfinite(Q.l[j])) { EQ.push_back(j); continue; }
    if (std::isfinite(Q.u[j])) G.push_back({j, 1});
    if (std::isfinite(Q.l[j])) G.push_back({j, -1});
  }
  int me = int(Q.A.rows()) + int(EQ.size()), mi = int(G.size());
  M A(me, n); V b(me); A.topRows(Q.A.rows()) = Q.A; b.head(Q.A.rows()) = Q.b;
  for (size_t k = 0; k < EQ.size(); ++k) { A.row(Q.A.rows() + k) = Q.C.row(EQ[k]); b[Q.A.rows() + k] = Q.l[EQ[k]]; }
  M Gm(mi, n); V h(mi);
  for (int k = 0; k < mi; ++k) { Gm.row(k) = G[k].second * Q.C.row(G[k].first); h[k] = G[k].second > 0 ? Q.u[G[k].first] : -Q.l[G[k].first]; }
  V v = V::Zero(n), lam = V::Zero(me), z = V::Ones(mi), sl = V::Ones(mi);
  for (int k = 0; k < mi; ++k) sl[k] = std::max(1., h[k]);
  double best = INF;
  for (int it = 0; it < 100; ++it) {
    V rd = Q.P * v + Q.q + A.transpose() * lam; if (mi) rd += Gm.transpose() * z;
    V rp = A * v - b; V ri = mi ? V(Gm * v + sl - h) : V(V::Zero(0));
    double mu = mi ? sl.dot(z) / mi : 0;
    double res = std::max(std::max(ninf(rd), ninf(rp)), std::max(ninf(ri), mu));
    if (res < best) { best = res; S.v = v; S.lam = lam; S.res = res; S.y = V::Zero(Q.C.rows());
      for (size_t k = 0; k < EQ.size(); ++k) S.y[EQ[k]] = lam[Q.A.rows() + k];
      for (int k = 0; k < mi; ++k) S.y[G[k].first] += G[k].second * z[k]; }
    if (res < 1e-12 || (it > 40 && res < 1e-9)) break;
    M K = M::Zero(n + me, n + me);
    K.topLeftCorner(n, n) = Q.P;
    if (mi) K.topLeftCorner(n, n) += Gm.transpose() * (z.cwiseQuotient(sl)).asDiagonal() * Gm;
    K.topRightCorner(n, me) = A.transpose(); K.bottomLeftCorner(me, n) = A;
    Eigen::FullPivLU<M> lu(K);
    auto step = [&](const V& rc, V& dv, V& dl, V& ds, V& dz) {
      V rhs(n + me); V t = -rd; 
      if (mi) t -= Gm.transpose() * ((z.cwiseProduct(ri) - rc).cwiseQuotient(sl));
      rhs.head(n) = t; rhs.tail(me) = -rp;
      V x = lu.solve(rhs); x += lu.solve(rhs - K * x); dv = x.head(n); dl = x.tail(me);
      if (mi) { ds = -ri - Gm * dv; dz = (-rc - z.cwiseProduct(ds)).cwiseQuotient(sl); }
    };
    auto amax = [&](const V& a, const V& d) { double al = 1; for (int k = 0; k < a.size(); ++k) if (d[k] < 0) al = std::min(al, -a[k] / d[k]); return al; };
    V dv, dl, ds(mi), dz(mi), rc = sl.cwiseProduct(z);
    step(rc, dv, dl, ds, dz);
    if (mi) {
      double ap = std::min(amax(sl, ds), amax(z, dz));
      double mua = (sl + ap * ds).dot(z + ap * dz) / mi, sg = std::pow(mua / mu, 3);
      rc = sl.cwiseProduct(z) + ds.cwiseProduct(dz); rc.array() -= sg * mu;
      step(rc, dv, dl, ds, dz);
    }
    double al = mi ? std::min(1., 0.995 * std::min(amax(sl, ds), amax(z, dz))) : 1.;
    if (!std::isfinite(dv.sum()) || !std::isfinite(dl.sum())) break;
    v += al * dv; lam += al * dl; if (mi) { sl += al * ds; z += al * dz; }
  }
  S.ok = S.res < 1e-7;
  return S;
}

// Global minimizer of a convex problem with linear dynamics and constraints on a
// vector state (Newton on the dense QP oracle).
struct Ref { bool ok = false; std::vector<V> xs, us; double cost = 0; int active = 0; double lmin = 0; };
inline Ref convexRef(const Spec& s, bool con) {
  Ref R; R.xs = s.xr; R.us = s.ur;
  for (int it = 0; it < 60; ++it) {
    Metrics m = metrics(s, R.xs, R.us, true);
    DenseQP Q = denseQP(s, m, 0, 0, con); QPSol S = solveQP(Q);
    if (!S.ok) return R;
    double dn = ninf(S.v);
    if (dn < 1e-9) { R.ok = true; R.cost = m.cost;
      for (int j = 0; j < S.y.size(); ++j) if (std::fabs(S.y[j]) > 1e-6) R.active++;
      R.lmin = Eigen::SelfAdjointEigenSolver<M>(Q.P).eigenvalues()[0]; return R; }
    // damped step on the exact penalty-free problem: iterates stay feasible because everything is linear
    double al = 1; double slope = Q.q.dot(S.v);
    for (int k = 0; k < 40; ++k, al *= 0.5) {
      std::vector<V> xs = R.xs, us = R.us;
      for (int t = 0; t <= s.T; ++t) { if (t) xs[t] += al * S.v.segment(Q.xo[t], s.n); if (t < s.T && s.nodes[t].nu) us[t] += al * S.v.segment(Q.uo[t], s.nodes[t].nu); }
      Metrics m2 = metrics(s, xs, us, false);
      if (it == 0 || m2.cost <= m.cost + 1e-4 * al * slope + 1e-13 * (1 + std::fabs(m.cost)) || dn < 1e-7) { R.xs = xs; R.us = us; break; }
    }
  }
  return R;
}

// ---- misc helpers -------------------------------------------------------
inline bool finite(const std::vector<V>& a) { for (auto& v : a) for (int j = 0; j < v.size(); ++j) if (!std::isfinite(v[j])) return false; return true; }
inline double dist(const std::vector<V>& a, const std::vector<V>& b) {
  if (a.size() != b.size()) return INF; double d = 0;
  for (size_t t = 0; t < a.size(); ++t) { if (a[t].size() != b[t].size()) return INF; for (int j = 0; j < a[t].size(); ++j) { double e = std::fabs(a[t][j] - b[t][j]); if (!(e <= 1e300)) { if (std::isnan(a[t][j]) && std::isnan(b[t][j])) continue; if (a[t][j] == b[t][j]) continue; return INF; } d = std::max(d, e); } }
  return d;
}
inline double mag(const std::vector<V>& a) { double d = 0; for (auto& v : a) for (int j = 0; j < v.size(); ++j) d = std::max(d, std::fabs(v[j])); return d; }
inline bool close(double a, double b, double tol) { if (a == b) return true; if (std::isnan(a) && std::isnan(b)) return true; return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); }
inline uint64_t hashBytes(uint64_t h, const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; return h; }
inline uint64_t hashVec(const std::vector<V>& a, uint64_t h = 1469598103934665603ull) { for (auto& v : a) h = hashBytes(h, v.data(), sizeof(double) * v.size()); return h; }
inline std::string shape(const Spec& s) {
  std::string r = "T=" + std::to_string(s.T) + " n=" + std::to_string(s.n) + (s.manifold() ? " manifold" : "") + " nu=[";
  for (int t = 0; t < s.T; ++t) r += (t ? "," : "") + std::to_string(s.nodes[t].nu);
  r += "] ng=["; for (int t = 0; t <= s.T; ++t) r += (t ? "," : "") + std::to_string(s.nodes[t].ng);
  return r + "]";
}
}  // namespace H
