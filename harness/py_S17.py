"""S17: the C++ solvers in lock step with the Python reference implementations of /repo/python."""
import sys
sys.path.insert(0, sys.argv.pop(1))
import os, random, warnings
sys.path.insert(1, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python"))
import numpy as np
import crocoddyl
import mim_solvers as ms
import mimprobe as P
import pymain
import csqp as ref_csqp
import sqp as ref_sqp
import sqp_cpp as ref_sqp_cpp

assert os.path.dirname(os.path.dirname(os.path.abspath(ms.__file__))) == os.path.abspath(sys.path[0]), ms.__file__
warnings.filterwarnings("ignore")
np.seterr(all="ignore")

COMMON = ["gap", "cost", "gap_norm", "merit", "dx", "du", "lag_mul", "KKT"]
FAM = {"CSQP": COMMON + ["constraint_norm", "dx_tilde", "du_tilde", "y", "z", "rho_vec", "rho_sparse", "qp_iters", "norm_primal", "norm_dual", "norm_primal_rel", "norm_dual_rel", "K", "k", "Vx", "Vxx"],
       "SQP": COMMON + ["Vxx", "K", "k"], "SQPCPP": ["gap", "cost", "gap_norm", "merit", "dx", "du", "lag_mul", "Vxx", "K", "k"]}


def arr(v):
    if isinstance(v, (list, tuple)) or not np.isscalar(v) and not isinstance(v, np.ndarray):
        return [np.array(e, dtype=float).reshape(-1) for e in v]
    return [np.array(v, dtype=float).reshape(-1)]


def distance(a, b):
    """(largest difference, scale); infinities and NaN must be in the same places"""
    d = s = 0.0
    if len(a) != len(b):
        return np.inf, 1.0
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return np.inf, 1.0
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy) or not np.array_equal(x[~fx], y[~fx], equal_nan=True):
            return np.inf, 1.0
        if fx.any():
            d = max(d, np.max(np.abs(x[fx] - y[fx])))
            s = max(s, np.max(np.abs(x[fx])), np.max(np.abs(y[fx])))
    return d, s


class CppRec(ms.CallbackAbstract):
    def __init__(self, kind, out):
        ms.CallbackAbstract.__init__(self)
        self.kind, self.out = kind, out

    def __call__(self, s, solver_type=None):
        self.out.append(cppState(s, self.kind))


def copies(v):
    return [np.array(e, dtype=float) for e in v]


def cppState(s, kind):
    r = dict(xs=copies(s.xs), us=copies(s.us), preg=s.preg, step=s.stepLength, kkt=float(s.KKT))
    c = "SQP" if kind == "SQPCPP" else kind
    names = FAM[c]
    for n in names:
        if n == "gap_norm":
            continue
        r[n] = arr(copies(s.fs)[1:]) if n == "gap" else arr(getattr(s, n)) if np.isscalar(getattr(s, n)) else arr(copies(getattr(s, n)))
    r["fs"] = copies(s.fs)
    r["gap_norm"] = arr(sum(np.sum(np.abs(g)) for g in r["fs"]))
    return r


class Stop(Exception):
    pass


class Lock:
    """Mixed into a reference class: its KKT_check and acceptStep are the observation points."""

    def lockInit(self, kind, forced):
        self.kind, self.forced, self.n, self.trials, self.pert, self.force = kind, forced, 0, [], None, None

    def snapshot(self):
        r = {}
        for n in FAM[self.kind]:
            v = getattr(self, {"gap": "fs" if self.kind == "SQPCPP" else "gap"}.get(n, n)) if not (self.kind == "SQP" and n in ("Vxx", "K", "k")) else {"Vxx": self.S, "K": [-L for L in self.L], "k": [-l for l in self.l]}[n] if self.kind == "SQP" else None
            r[n] = arr(v) if np.isscalar(v) else arr(copies(v))
            if n == "gap":
                r[n] = r[n][1:] if self.kind == "SQPCPP" else r[n][:self.problem.T]
        return r

    def carry(self):
        names = ["dx", "du", "y", "z"] if self.kind == "CSQP" else ["dx", "du"]
        st = dict((n, copies(getattr(self, n))) for n in names)
        st["xs"], st["us"] = copies(self.xs), copies(self.us)
        if self.kind == "CSQP":
            st["rho_vec"], st["rho_sparse"] = copies(self.rho_vec), self.rho_sparse
        if self.kind != "CSQP":
            st["lag_mul"] = copies(self.lag_mul)
        return st

    def restore(self, st):
        for n, v in st.items():
            if n not in ("xs", "us"):
                setattr(self, n, v if np.isscalar(v) else copies(v))
        self.setCandidate(copies(st["xs"]), copies(st["us"]), False)


def lock(base, kind):
    class Ref(Lock, base):
        def KKT_check(self):
            if self.pert is not None:
                base.KKT_check(self)
                return
            if kind == "SQPCPP":    # checked before the direction: nothing new to see yet
                base.KKT_check(self)
                return
            base.KKT_check(self)
            self.observe()

        def computeUpdates(self):
            base.computeUpdates(self)
            if kind == "SQPCPP" and self.pert is None:
                self.observe()

        def observe(self):
            self.after(self)

        def calc(self, *a):
            if self.pert is None and (not a or a[0]) and not getattr(self, "inside", False):
                if self.forced and self.force:
                    self.setCandidate(copies(self.force[0]), copies(self.force[1]), False)
                self.before = self.carry()
            base.calc(self, *a)

        def computeDirection(self, *a, **k):
            self.shaky = self.inactive = False
            return base.computeDirection(self, *a, **k)

        def update_rho_sparse(self, it):
            if it % self.rho_update_interval == 0 and it > 1 and np.isfinite(self.norm_primal):
                # residuals that are rounding errors, and comparisons that are ties, decide nothing meaningful
                if min(self.norm_primal / max(self.norm_primal_rel, 1e-300), self.norm_dual / max(self.norm_dual_rel, 1e-300)) < 1e-10 or min(self.norm_primal, self.norm_dual, self.norm_primal_rel, self.norm_dual_rel or 1.) < 1e-12:    # no active row: the estimate is exactly zero
                    self.shaky = True
                self.inactive |= self.norm_dual_rel == 0
                est = np.sqrt((self.norm_primal * self.norm_dual_rel) / (self.norm_dual * self.norm_primal_rel)) * self.rho_sparse
                for lim in (self.rho_sparse * self.adaptive_rho_tolerance, self.rho_sparse / self.adaptive_rho_tolerance):
                    if abs(est / lim - 1) < 1e-5:
                        self.shaky = True
                for r, b in ((self.norm_primal, self.eps_abs + self.eps_rel * self.norm_primal_rel), (self.norm_dual, self.eps_abs + self.eps_rel * self.norm_dual_rel)):
                    if abs(r / b - 1) < 1e-5:
                        self.shaky = True
            base.update_rho_sparse(self, it)

        def tryStep(self, alpha):
            base.tryStep(self, alpha)
            self.trials.append((alpha, float(self.cost_try), float(self.gap_norm_try), float(self.merit_try)))

        def acceptStep(self, *a):
            base.acceptStep(self, *a)
            self.accepted(self, self.trials[-1][0])
    Ref.__name__ = "Ref" + kind
    return Ref


REF = {"CSQP": lock(ref_csqp.CSQP, "CSQP"), "SQP": lock(ref_sqp.SQP, "SQP"), "SQPCPP": lock(ref_sqp_cpp.SQP_CPP, "SQPCPP")}


def makePair(c, R, kind):
    cls = R.choice([0, 1, 2, 2, 3])
    seed = R.randrange(1 << 40)
    con = kind == "CSQP" and R.random() < .92
    maxT = R.choice([3, 6, 6, 10])
    noeq = R.random() < .5
    ip, it = P.make_plain(seed, cls, con, maxT, noeq), P.make_plain(seed, cls, con, maxT, noeq)
    ref = REF[kind](P.problem(ip), "StagewiseQP") if kind == "CSQP" else REF[kind](P.problem(ip))
    ref.lockInit(kind, True)
    if kind == "CSQP":
        o = ms.SolverCSQP(P.problem(it))
        o.remove_reg = True
        o.update_rho_with_heuristic = False
        ref.setCandidate([ref.problem.x0.copy()] * (ref.problem.T + 1), [np.zeros(m.nu) for m in ref.problem.runningModels], False)
    else:
        o = ms.SolverSQP(P.problem(it))
        o.reg_min = 0.
        if R.random() < .5:
            o.th_stepInc = 1e-9
    return ip, it, ref, o


def configure(R, kind, ref, o, scen):
    s = {}
    tol = 10 ** R.uniform(-9, -3)
    filt = R.random() < .5
    fs = R.choice([1, 1, 2, 4])
    mu = float(np.exp(R.uniform(-1, 4)))
    s.update(tol=tol, filter=filt, filter_size=fs, mu=mu)
    ref.termination_tolerance = o.termination_tolerance = tol
    ref.use_filter_line_search = o.use_filter_line_search = filt
    ref.filter_size = o.filter_size = fs
    if kind == "CSQP":
        ref.extra_iteration_for_last_kkt = o.extra_iteration_for_last_kkt = R.random() < .3
        mu2 = float(np.exp(R.uniform(-1, 4)))
        if R.random() < .25:
            mu2 = -1.
        coef = R.uniform(1, 12)
        q = dict(eps_abs=10 ** R.uniform(-7, -2), eps_rel=10 ** R.uniform(-7, -2), alpha=R.choice([1.6, R.uniform(.6, 1.9)]), rho_update_interval=R.choice([25, 2, 3, 5, R.randint(2, 30)]), adaptive_rho_tolerance=R.choice([5, 2, 10]),
                 max_qp_iters=R.choice([1, 2, 10, R.randint(3, 60), R.randint(3, 60)]), equality_qp_initial_guess=R.random() < .6, reset_rho=R.random() < .4, reset_y=R.random() < .4)
        for n, v in q.items():
            setattr(ref, n, v)
            setattr(o, n, v)
        ref.sigma_sparse = o.sigma = R.choice([1e-6, 10 ** R.uniform(-8, -3)])
        ref.mu1 = o.mu_dynamic = mu
        ref.mu2 = o.mu_constraint = mu2
        ref.lag_mul_inf_norm_coef = o.lag_mul_inf_norm_coef = coef
        s.update(q, mu2=mu2, coef=coef, sigma=o.sigma)
    else:
        ref.mu = o.mu_dynamic = mu
        if kind == "SQP":
            ref.extra_iteration_for_last_kkt = o.extra_iteration_for_last_kkt = R.random() < .3
    return s


RTOL = 1e-8


def firstDifference(c, kind, py, cc, skip=()):
    worst = None
    for n in FAM[kind]:
        if n in skip:
            continue
        d, s = distance(py[n], cc[n])
        c.add("values_compared", sum(x.size for x in py[n]))
        if not d <= RTOL * (s + 1e-3):
            worst = (n, d, s)
            break
        if s > 0 and np.isfinite(d):
            c.mx("relative_difference_accepted", float(d / (s + 1e-3)))
    return worst


def direction(ref, kind, st, first):
    """one iteration of the reference from a saved state, without observation"""
    ref.pert = True
    try:
        ref.restore(st)
        if kind == "CSQP":
            ref.calc(True)
            if first and not ref.reset_rho:
                ref.reset_rho_vec()
            ref.computeDirection()
            ref.KKT_check()
            ref.calc(False)
        elif kind == "SQP":
            ref.computeDirection()
            ref.KKT_check()
        else:
            ref.computeDirection(False)
        return ref.snapshot()
    finally:
        ref.pert = None


def noise(ref, kind, st, first, base, R, only=None):
    """how much the reference's own results move when the iterate moves by a few rounding errors"""
    out = {}
    r = np.random.RandomState(R.randrange(1 << 30))
    for rep in range(4):
        p = dict((n, v if np.isscalar(v) else copies(v)) for n, v in st.items())
        state = ref.problem.terminalModel.state
        amp = 1e-14
        p["xs"] = [state.integrate(x, amp * r.randn(state.ndx)) if i else x for i, x in enumerate(p["xs"])]
        p["us"] = [u + amp * (1 + np.abs(u)) * r.randn(u.size) for u in p["us"]]
        for n in ("dx", "du", "y"):
            if n in p:
                p[n] = [v + 1e-15 * np.abs(v) * r.randn(*v.shape) for v in p[n]]
        try:
            s = direction(ref, kind, p, first)
        except Exception:
            return None
        for n in base:
            d, _ = distance(base[n], s[n])
            out[n] = max(out.get(n, 0.0), d)
    return out


def run(kind):
    def scenario(c):
        R = random.Random(c.seed)
        ip, it, ref, o = makePair(c, R, kind)
        forced = R.random() < .8
        ref.forced = forced
        ng0 = kind == "CSQP" and ref.problem.runningModels[0].ng > 0
        skip0 = set()
        info = []
        bad = []
        for rep in range(R.choice([1, 2, 2, 3])):
            s = configure(R, kind, ref, o, c)
            info.append(s)
            seed, sc = R.randrange(1 << 40), R.choice([0., .1, .5, 1.])
            xs, us = (P.feasible_guess if R.random() < .3 else P.guess)(ip, seed, sc)
            xs, us = copies(xs), copies(us)
            if R.random() < .15 and rep:
                xs, us = copies(o.xs), copies(o.us)
            maxiter = R.choice([1, 2, 3, 5])
            out = []
            rec = CppRec(kind, out)
            o.setCallbacks([rec])
            y0 = copies(o.y) if kind == "CSQP" else None
            try:
                rc = o.solve(copies(xs), copies(us), maxiter, False, 0.) if kind != "CSQP" else o.solve(copies(xs), copies(us), maxiter)
            except Exception as e:
                rc = e
            final = cppState(o, kind)
            ref.n, ref.trials, ref.force = 0, [], None

            def differ(first, py, d, what):
                n, dist, sc_ = d
                if ref.shaky or ref.inactive and ref.n < len(out) and any(np.any(y) for y in out[ref.n].get("y", [])):
                    c.add("iterations_decided_by_rounding_left_out")
                    raise Stop("ill")
                nz = noise(ref, kind, ref.before, first, py, R)
                ref.restore(ref.before)
                if nz is None or nz.get(n, 0) * 20 >= dist or any(nz.get(m, 0) > 0 and m in ("qp_iters", "rho_sparse") for m in nz):
                    c.add("ill_conditioned_iterations_left_out")
                    raise Stop("ill")
                i = ref.n
                c.fail("%s:%s" % (kind, n), "%s: iteration %d of solve %d: %s differs by %.3g (scale %.3g, the reference's own rounding noise %.2g): Python %s C++ %s; %s; settings %s" % (
                    P.shape(ip), i, rep, n, dist, sc_, nz.get(n, 0), str([x.tolist() for x in py[n]])[:300], str([x.tolist() for x in out[i][n]])[:300], what, s))
                bad.append(n)
                raise Stop("differs")

            def after(self):
                i = self.n
                if i >= len(out):
                    if isinstance(rc, Exception):
                        raise Stop("C++ raised")
                    if i and out[i - 1]["kkt"] <= s["tol"]:
                        c.fail(kind + ":continues", "the reference goes on after iteration %d, C++ stopped with KKT %.17g (tolerance %.17g), reference KKT %.17g" % (i, out[i - 1]["kkt"], s["tol"], self.kktLast)) if self.kktLast > s["tol"] * (1 + 1e-6) + 1e-12 and forced else None
                        raise Stop("C++ stopped earlier")
                    raise Stop("no more C++ iterations")
                rec = out[i]
                before = self.before
                if not forced and i and distance(arr(copies(self.before["xs"])), arr(rec["xs"]))[0] > 1e-9:
                    raise Stop("drifted")
                if kind == "CSQP" and not getattr(self, "pert", None):
                    self.inside = True
                    ref_csqp.CSQP.calc(self, False)      # the merit with the multipliers of this direction, as C++ reports it
                    self.inside = False
                py = self.snapshot()
                if kind != "CSQP" and rec["preg"] != 0:
                    c.add("regularized_iterations_not_compared")
                else:
                    skip = set(skip0)
                    if kind == "CSQP":
                        # C++ also counts the stationarity of the (fixed) first state
                        d0 = self.problem.runningDatas[0]
                        row = np.max(np.abs(d0.Lx + d0.Fx.T @ self.lag_mul[1] - self.lag_mul[0]))
                        py["KKT"] = arr(max(float(self.KKT), float(row)))
                    if kind == "SQPCPP":
                        skip |= {"KKT"}
                    d = firstDifference(c, kind, py, rec, skip)
                    if d:
                        differ(i == 0, py, d, "guess scale %g" % sc)
                    c.add("iterations_compared")
                    if kind == "CSQP":
                        c.add("qp_iterations_compared", int(self.qp_iters))
                        if self.rho_sparse != self.rho_sparse_base:
                            c.add("iterations_with_a_changed_penalty")
                        if self.qp_iters < s["max_qp_iters"]:
                            c.add("converged_qps")
                    c.mark(b"".join(x.tobytes() for x in py["dx"]))
                self.kktLast = float(self.KKT)
                self.trials = []
                if forced:      # the next iteration starts from what C++ has
                    for n in ("dx", "du"):
                        setattr(self, n, copies([x for x in rec[n]]))
                    if kind == "CSQP":
                        for n in ("y", "z"):
                            setattr(self, n, copies(rec[n]))
                        self.rho_vec, self.rho_sparse = copies(rec["rho_vec"]), float(rec["rho_sparse"][0][0])
                self.n += 1
                self.force = (out[self.n]["xs"], out[self.n]["us"]) if self.n < len(out) else (final["xs"], final["us"])

            def accepted(self, alpha):
                if kind == "SQPCPP" and float(self.KKT) < s["tol"]:
                    raise Stop("end")       # this reference makes one more step with its old direction
                i = self.n      # the step that leads to record i
                nxt = out[i] if i < len(out) else final
                stepped = i < len(out) or (not isinstance(rc, Exception))
                if i < len(out):
                    ca = out[i]["step"]
                else:
                    ca = o.stepLength
                    if rc is True or out and out[-1]["kkt"] <= s["tol"]:
                        raise Stop("end")
                if not stepped:
                    raise Stop("C++ raised")
                if alpha != ca:
                    # which rule says what?  Only the merit rule is the same on both sides.
                    ac = [a for a in self.trials if a[0] == ca]
                    near = any(abs(a[3] - float(self.merit)) <= 1e-9 * (1 + abs(a[3])) for a in self.trials)
                    if not s["filter"] and kind != "SQPCPP" and not near and forced and (kind == "SQP" or min(s["mu"], s["mu2"]) > 0) and out[i - 1]["preg"] == 0 and i < len(out):
                        c.fail(kind + ":step", "%s: after iteration %d the reference accepts step %g and C++ %g; merit %.17g, trials %s; settings %s" % (P.shape(ip), i, alpha, ca, float(self.merit), self.trials, s))
                        bad.append("step")
                    c.add("different_line_search_rules")
                    if not forced:
                        raise Stop("step")
                else:
                    c.add("accepted_steps_compared")
                    d, sc_ = distance(arr(copies(self.xs)), arr(nxt["xs"]))
                    e, se = distance(arr(copies(self.us)), arr(nxt["us"]))
                    if i < len(out) or rc is False:
                        if (not d <= 1e-9 * (1 + sc_) or not e <= 1e-9 * (1 + se)) and forced and out[i - 1]["preg"] == 0:
                            c.fail(kind + ":step", "%s: the iterate after step %g of iteration %d differs by %.3g, %.3g; settings %s" % (P.shape(ip), alpha, i, d, e, s))
                            bad.append("xs")
                            if c.verbose:
                                sys.stderr.write("rc %s kkts %s steps %s final %s\n" % (rc, [r["kkt"] for r in out], [r["step"] for r in out], o.stepLength))

            ref.after, ref.accepted, ref.kktLast = after, accepted, np.inf
            try:
                rp = ref.solve(copies(xs), copies(us), maxiter)
                why = "returned"
            except Stop as e:
                rp, why = None, str(e)
            except (np.linalg.LinAlgError, AssertionError) as e:
                rp, why = None, "numerical"
                c.add("reference_fails")
            if bad:
                break
            c.add("solves_" + why.replace(" ", "_"))
            if ref.n < len(out) and why == "returned" and forced and kind != "SQPCPP":
                last = out[ref.n - 1] if ref.n else None
                stricter = last is not None and ref.kktLast < s["tol"] <= last["kkt"] * (1 + 1e-6)
                nomerit = not s["filter"] and rp is False
                if not stricter and not nomerit:
                    c.fail(kind + ":iterations", "%s: the reference ends (%s) after %d directions, C++ goes on to %d; reference KKT %.17g, C++ %.17g; settings %s" % (P.shape(ip), rp, ref.n, len(out), ref.kktLast, last["kkt"] if last else np.nan, s))
                    break
            if why == "returned" and ref.n == len(out) and not isinstance(rc, Exception) and forced and kind != "SQPCPP":
                if rp != rc and abs(ref.kktLast - s["tol"]) > 1e-6 * s["tol"] and not (ref.kktLast < s["tol"] < out[-1]["kkt"]):
                    c.fail(kind + ":result", "%s: the reference returns %s, C++ %s; KKT %.17g, %.17g; settings %s" % (P.shape(ip), rp, rc, ref.kktLast, out[-1]["kkt"] if out else np.nan, s))
                    break
                c.add("results_compared")
            if isinstance(rc, Exception):
                c.add("cpp_raises")
                break
            # the next solve starts from the same state on both sides
            if kind == "CSQP":
                ref.dx, ref.du, ref.y, ref.z = copies(final["dx"]), copies(final["du"]), copies(final["y"]), copies(final["z"])
                ref.rho_vec, ref.rho_sparse = copies(final["rho_vec"]), float(final["rho_sparse"][0][0])
            else:
                ref.dx, ref.du = copies(final["dx"]), copies(final["du"])
        c.sample = "%s %s: %d solves, %d iterations compared, last settings %s" % (kind, P.shape(ip), len(info), c.cnt.get("iterations_compared", 0), info[-1])
        P.drop(ip)
        P.drop(it)
    return scenario


pymain.main([("csqp", run("CSQP"), 1400, 60000), ("sqp", run("SQP"), 1000, 40000), ("sqp_cpp", run("SQPCPP"), 500, 20000)],
            "at least one iteration of both implementations was compared entry by entry")
