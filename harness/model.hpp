// Instrumented crocoddyl models driven by H::Spec.  They compute derivatives from
// the point stored by the last calc (as robot-dynamics models do), log every
// evaluation, detect violations of the calc/calcDiff protocol and inject faults.
#pragma once
#include <atomic>
#include <crocoddyl/core/action-base.hpp>
#include <crocoddyl/core/optctrl/shooting.hpp>
#include <crocoddyl/core/solver-base.hpp>
#include <crocoddyl/core/state-base.hpp>
#include <functional>

#include "spec.hpp"

namespace H {

class HState : public crocoddyl::StateAbstract {
 public:
  std::vector<char> circ;
  explicit HState(const std::vector<char>& c) : crocoddyl::StateAbstract(count(c), c.size()), circ(c) {}
  static std::size_t count(const std::vector<char>& c) { std::size_t k = 0; for (char x : c) k += x ? 2 : 1; return k; }
  V zero() const override { return fromTangent(circ, V::Zero(circ.size())); }
  V rand() const override { return fromTangent(circ, V::Random(circ.size())); }
  void diff(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& b, Eigen::Ref<V> d) const override { stDiff(circ, a, b, d); }
  void integrate(const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& d, Eigen::Ref<V> o) const override { stIntegrate(circ, x, d, o); }
  void Jdiff(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M> J1, Eigen::Ref<M> J2, const crocoddyl::Jcomponent = crocoddyl::both) const override {
    if (J1.size()) { J1.setZero(); J1.diagonal().array() -= 1; } if (J2.size()) { J2.setZero(); J2.diagonal().array() += 1; } }
  void Jintegrate(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M> J1, Eigen::Ref<M> J2, const crocoddyl::Jcomponent = crocoddyl::both, const crocoddyl::AssignmentOp = crocoddyl::setto) const override {
    if (J1.size()) J1.setIdentity(); if (J2.size()) J2.setIdentity(); }
  void JintegrateTransport(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M>, const crocoddyl::Jcomponent) const override {}
};

enum FaultKind { F_NONE = 0, F_THROW, F_NAN_COST, F_NAN_X, F_NAN_G, F_NAN_DIFF, F_INF_COST, F_THROW_OTHER };
struct OtherFault {};  // not a std::exception

struct Call { int node; bool diff; V x, u; };

// counter shared by threads that orders nothing between them
struct Counter {
  std::atomic<long> v{0};
  Counter() {} Counter(long k) : v(k) {}
  long operator++(int) { return v.fetch_add(1, std::memory_order_relaxed); }
  Counter& operator=(long k) { v.store(k, std::memory_order_relaxed); return *this; }
  Counter& operator=(const Counter& o) { return *this = long(o); }
  operator long() const { return v.load(std::memory_order_relaxed); }
};
struct Monitor {
  Counter ncalc{0}, ndiff{0}, stale{0}, nofirst{0}, baddim{0}, shortSig{0}, nfault{0};
  bool log = false;                      // single-threaded runs only
  std::vector<Call> calls;
  // decides the fault of a call: (node, is_diff, global call index)
  std::function<FaultKind(int, bool, long)> fault;
  std::function<void(int, bool)> on_call;  // e.g. scheduling jitter, clock advance
  long limit = -1;                         // abort the case after this many calls
  struct TooMany {};
  void reset() { ncalc = ndiff = stale = nofirst = baddim = shortSig = nfault = 0; calls.clear(); }
  long total() const { return ncalc + ndiff; }
};

struct HData : public crocoddyl::ActionDataAbstract {
  template <class Mo> explicit HData(Mo* const m) : crocoddyl::ActionDataAbstract(m) {}
  V cx, cu; bool valid = false; bool fin = true;
};

class HModel : public crocoddyl::ActionModelAbstract {
 public:
  std::shared_ptr<Spec> spec; int t; Monitor* mon; bool cached;
  HModel(std::shared_ptr<crocoddyl::StateAbstract> st, std::shared_ptr<Spec> s, int node, Monitor* m, bool cach = true)
      : crocoddyl::ActionModelAbstract(st, s->nodes[node].nu, 1, s->nodes[node].ng, 0, s->nodes[node].ng, 0), spec(s), t(node), mon(m), cached(cach) { refreshBounds(); }
  void refreshBounds() { if (ng_ == 0) return; g_lb_ = spec->nodes[t].lb; g_ub_ = spec->nodes[t].ub; }
  std::shared_ptr<crocoddyl::ActionDataAbstract> createData() override { return std::allocate_shared<HData>(Eigen::aligned_allocator<HData>(), this); }
  bool checkData(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d) override { return std::dynamic_pointer_cast<HData>(d) != nullptr; }

  FaultKind enter(bool diff) {
    long k = mon->ncalc + mon->ndiff;
    if (mon->limit >= 0 && k >= mon->limit) throw Monitor::TooMany();
    (diff ? mon->ndiff : mon->ncalc)++;
    if (mon->on_call) mon->on_call(t, diff);
    FaultKind f = mon->fault ? mon->fault(t, diff, k) : F_NONE;
    if (f == F_THROW) { mon->nfault++; throw std::runtime_error("injected model failure"); }
    if (f == F_THROW_OTHER) { mon->nfault++; throw OtherFault(); }
    if (f != F_NONE) mon->nfault++;
    return f;
  }
  void doCalc(HData* d, const Eigen::Ref<const V>& x, const V& u) {
    FaultKind f = enter(false);
    if (x.size() != spec->nx() || u.size() != spec->nodes[t].nu) mon->baddim++;
    if (mon->log) mon->calls.push_back({t, false, x, u});
    Eval e = evalNode(*spec, t, x, u, false);
    d->cx = x; d->cu = u; d->valid = true; d->fin = true;
    if (e.thrown) { d->valid = false; throw std::runtime_error("model cannot be evaluated here"); }
    d->cost = e.cost; d->xnext = e.xnext; if (spec->nodes[t].ng) d->g = e.g;
    const double q = std::numeric_limits<double>::quiet_NaN();
    if (f == F_NAN_COST) d->cost = q;
    if (f == F_INF_COST) d->cost = INF;
    if (f == F_NAN_X) d->xnext[0] = q;
    if (f == F_NAN_G && d->g.size()) d->g[0] = q; else if (f == F_NAN_G) d->cost = q;
    if (f == F_NAN_DIFF) d->cost = q;
  }
  void doDiff(HData* d, const Eigen::Ref<const V>& x, const V& u) {
    FaultKind f = enter(true);
    if (x.size() != spec->nx() || u.size() != spec->nodes[t].nu) mon->baddim++;
    if (mon->log) mon->calls.push_back({t, true, x, u});
    if (!d->valid) mon->nofirst++;
    else if (d->cx.size() != x.size() || d->cu.size() != u.size() || d->cx != x || d->cu != u) {
      bool nn = false; for (int j = 0; j < x.size(); ++j) nn |= std::isnan(x[j]); for (int j = 0; j < u.size(); ++j) nn |= std::isnan(u[j]);
      if (!nn) mon->stale++;
    }
    Eval e = evalNode(*spec, t, (cached && d->valid) ? d->cx : V(x), (cached && d->valid) ? d->cu : u, true);
    if (e.thrown) throw std::runtime_error("model cannot be differentiated here");
    d->Lx = e.Lx; d->Lxx = e.Lxx; d->Fx = e.Fx;
    if (spec->nodes[t].nu) { d->Lu = e.Lu; d->Luu = e.Luu; d->Lxu = e.Lxu; d->Fu = e.Fu; }
    if (spec->nodes[t].ng) { d->Gx = e.Gx; if (spec->nodes[t].nu) d->Gu = e.Gu; }
    const double q = std::numeric_limits<double>::quiet_NaN();
    if (f == F_NAN_DIFF || f == F_NAN_COST || f == F_INF_COST) { d->Lx[0] = q; }
    if (f == F_NAN_X) d->Fx(0, 0) = q;
    if (f == F_NAN_G) { if (d->Gx.size()) d->Gx(0, 0) = q; else d->Lxx(0, 0) = q; }
  }
  void calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& data, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { doCalc(static_cast<HData*>(data.get()), x, spec->nodes[t].nu ? V(u) : V(V::Zero(0))); }
  void calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& data, const Eigen::Ref<const V>& x) override { if (t < spec->T) mon->shortSig++; doCalc(static_cast<HData*>(data.get()), x, V::Zero(spec->nodes[t].nu)); }
  void calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& data, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { doDiff(static_cast<HData*>(data.get()), x, spec->nodes[t].nu ? V(u) : V(V::Zero(0))); }
  void calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& data, const Eigen::Ref<const V>& x) override { if (t < spec->T) mon->shortSig++; doDiff(static_cast<HData*>(data.get()), x, V::Zero(spec->nodes[t].nu)); }
};

// A shooting problem together with its spec and monitor.
struct Prob {
  std::shared_ptr<Spec> spec; std::shared_ptr<Monitor> mon;
  std::shared_ptr<HState> state; std::vector<std::shared_ptr<HModel>> models; std::shared_ptr<crocoddyl::ShootingProblem> problem;
  void sync() { for (auto& m : models) m->refreshBounds(); problem->set_x0(spec->x0); }  // after editing *spec (same dimensions)
};
inline Prob makeProb(const Spec& s, bool cached = true) {
  Prob p; p.spec = std::make_shared<Spec>(s); p.mon = std::make_shared<Monitor>();
  p.state = std::make_shared<HState>(s.circ);
  std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>> run;
  for (int t = 0; t <= s.T; ++t) { auto m = std::make_shared<HModel>(p.state, p.spec, t, p.mon.get(), cached); p.models.push_back(m); if (t < s.T) run.push_back(m); }
  p.problem = std::make_shared<crocoddyl::ShootingProblem>(s.x0, run, p.models.back());
  return p;
}
}  // namespace H
