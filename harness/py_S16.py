"""S16: the Python classes against C++ twins that are driven without Python."""
import sys
sys.path.insert(0, sys.argv.pop(1))
import ctypes, gc, os, random, re, struct, tempfile, warnings, weakref
import numpy as np
import crocoddyl
import mim_solvers as ms
import mimprobe as P
import pymain

assert os.path.dirname(os.path.dirname(os.path.abspath(ms.__file__))) == os.path.abspath(sys.path[0]), ms.__file__
CLS = dict(SQP=ms.SolverSQP, CSQP=ms.SolverCSQP, PROXQP=ms.SolverPROXQP, DDP=ms.SolverDDP, FDDP=ms.SolverFDDP)
NAMES = {k: list(P.names(k)) for k in CLS}
pk = struct.Struct("d").pack


def flat(v):
    if isinstance(v, (bool, int, float, np.floating, np.integer, np.bool_)):
        return pk(float(v))
    if isinstance(v, np.ndarray):
        return pk(float(v.size)) + np.ascontiguousarray(v, dtype=float).tobytes()
    return pk(float(len(v))) + b"".join(flat(e) for e in v)


def show(b):
    return str([float("%.6g" % x) for x in np.frombuffer(b, dtype=float)[:12]])


def view(o, kind):
    return {n: flat(getattr(o, n)) for n in NAMES[kind]}


def differs(a, b):
    for n in a:
        if a[n] != b.get(n) and not (len(a[n]) == len(b[n]) and np.array_equal(np.frombuffer(a[n]), np.frombuffer(b[n]), equal_nan=True) and a[n].count(b"\0\0\0\0\0\0\0\x80") == b[n].count(b"\0\0\0\0\0\0\0\x80")):
            return n
    return None


def compare(c, o, kind, twin, what):
    try:
        v = view(o, kind)
    except Exception as e:
        c.fail("getter", "reading the properties of Solver%s raises %s: %s (after %s)" % (kind, type(e).__name__, e, what))
        return False
    p = P.peek(o, kind)
    n = differs(v, p)
    if n:
        c.fail("getter:" + n, "Solver%s.%s reads %s in Python, C++ says %s (after %s)" % (kind, n, show(v[n]), show(p[n]), what))
        return False
    t = twin.dump()
    n = differs(p, t)
    if n:
        c.fail("twin:" + n, "after %s, %s of Solver%s is %s, after the same calls in C++ it is %s" % (what, n, kind, show(p[n]), show(t[n])))
        return False
    c.add("properties_compared", len(v))
    return True


def outcome(f):
    try:
        r = f()
        return ("value", None if r is None else flat(r))
    except Exception as e:
        return ("raise", type(e).__name__)


def call(c, o, kind, twin, what, fp, ft):
    """The same call in Python and on the twin."""
    a, b = outcome(fp), outcome(ft)
    if b[0] == "value" and isinstance(b[1], bytes) and len(b[1]) == 8 and a[0] == "value" and a[1] is None:
        b = ("value", None)
    if a != b:
        c.fail("result", "%s of Solver%s gives %s in Python and %s in C++" % (what, kind, str(a)[:200], str(b)[:200]))
        return False
    if a[0] == "raise":
        c.add("calls_that_raise_in_both")
    return compare(c, o, kind, twin, what + (" (which raised)" if a[0] == "raise" else ""))


# ------------------------------------------------------------------ settings
def U(a, b):
    return lambda R: R.uniform(a, b)


def LU(a, b):
    return lambda R: float(np.exp(R.uniform(np.log(a), np.log(b))))


def I(a, b):
    return lambda R: R.randint(a, b)


def B(R):
    return R.random() < .5


def alphas(R):
    if R.random() < .3:
        return R.choice([[], [-1.], [.5, .5], [.5, .7], [1., 0., .2], [1., .5, -.1]])
    n, a, out = R.randint(1, 6), 1.0, []
    for _ in range(n):
        out.append(a)
        a *= R.uniform(.1, .9)
    return out


BASE = dict(reg_incFactor=U(.5, 12), reg_decFactor=U(.5, 12), reg_min=lambda R: R.choice([-1e-9, 0., 1e-12, 1e-6, 1e-3]), reg_max=lambda R: R.choice([-1., 1e3, 1e6, 1e9]), th_stepDec=U(-.3, 1.3), th_stepInc=U(-.3, 1.3),
            th_grad=U(-.2, 2), alphas=alphas, termination_tolerance=LU(1e-10, 1e-1), th_acceptStep=U(-.3, 1.3), th_stop=U(-.2, 1), th_gapTol=U(-.2, 1), preg=U(-.2, 1), dreg=U(-.2, 1))
FILTER = dict(use_filter_line_search=B, filter_size=I(1, 5))
SET = {
    "DDP": BASE,
    "FDDP": dict(BASE, th_acceptNegStep=U(-1, 3), **FILTER),
    "SQP": dict(BASE, cost_try=U(-5, 5), extra_iteration_for_last_kkt=B, mu_dynamic=LU(.1, 100), **FILTER),
    "CSQP": dict(BASE, cost_try=U(-5, 5), norm_primal=U(0, 5), norm_dual=U(0, 5), norm_dual_rel=U(0, 5), norm_primal_rel=U(0, 5), reset_y=B, reset_rho=B, update_rho_with_heuristic=B, remove_reg=B, with_qp_callbacks=B, extra_iteration_for_last_kkt=B,
                 lag_mul_inf_norm_coef=LU(1, 50), mu_dynamic=lambda R: R.choice([-1., 1., 20.]), mu_constraint=lambda R: R.choice([-1., 1., 20.]), eps_abs=LU(1e-9, 1e-2), eps_rel=LU(1e-9, 1e-2), rho_sparse=LU(1e-5, 1e2), equality_qp_initial_guess=B, sigma=LU(1e-9, 1e-3), alpha=U(.6, 1.9),
                 max_qp_iters=I(1, 200), rho_update_interval=I(1, 40), adaptive_rho_tolerance=I(1, 10), max_solve_time=lambda R: R.choice([float("inf"), float("inf"), 0., 1e9]), **FILTER),
    "PROXQP": dict(BASE, cost_try=U(-5, 5), with_callbacks=lambda R: False, eps_abs=LU(1e-11, 1e-5), use_filter_line_search=B, max_qp_iters=I(5, 60)),
}
ARRAYS = {"DDP": ["xs", "us", "lag_mul"], "FDDP": ["xs", "us", "lag_mul"], "SQP": ["xs", "us", "lag_mul", "xs_try", "us_try", "fs_try"], "CSQP": ["xs", "us", "lag_mul", "xs_try", "us_try", "fs_try", "y", "z", "rho_vec"], "PROXQP": ["xs", "us", "xs_try", "us_try", "fs_try"]}
BOOLS = {k: {n for n, g in v.items() if g is B} for k, v in SET.items()}


def perturbed(R, v, positive=False):
    r = np.random.RandomState(R.randrange(1 << 30))
    out = [np.array(e, dtype=float) + .3 * r.randn(*np.shape(e)) for e in v]
    return [np.abs(e) + 1e-3 for e in out] if positive else out


def make(c, R, kind=None, cls=None):
    kind = kind or R.choice(["SQP"] * 3 + ["CSQP"] * 5 + ["PROXQP"] * 2 + ["DDP", "FDDP", "FDDP"])
    cls = cls if cls is not None else R.choice([0, 1, 2, 3])
    con = kind in ("CSQP", "PROXQP")
    seed = R.randrange(1 << 40)
    ip, it = P.make(seed, cls, con, 0, R.random() < .3), P.make(seed, cls, con, 0, True)
    if P.shape(ip) != P.shape(it):
        P.drop(ip)
        ip = P.make(seed, cls, con, 0, True)
    o = CLS[kind](P.problem(ip))
    twin = P.Twin(kind, it)
    o._ids = (ip, it)
    if kind == "PROXQP":        # ProxQP takes up to the square of its limit
        o.max_qp_iters = 40
        twin.set("max_qp_iters", 40)
    return kind, ip, it, o, twin


def solveArgs(R, ip, kind, wrong=.1):
    xs, us = (P.feasible_guess if R.random() < .3 else P.guess)(ip, R.randrange(1 << 40), R.choice([0., .3, 1.]))
    if R.random() < wrong:
        w = R.randint(0, 3)
        if w == 0:
            xs = xs[:-1]
        elif w == 1:
            us = us + [us[-1]]
        elif w == 2:
            xs = [np.append(x, 0.) for x in xs]
        else:
            us = [np.append(u, 0.) for u in us]
    n = R.choice([0, 1, 2, 3, 3, 3, 4, 5, 5])
    a = [xs, us, R.randint(0, 12), R.random() < .2, R.choice([float("nan"), 1e-9, 1e-4, 1.0])][:n]
    kw = R.randint(0, n)    # the last ones by keyword
    names = ["init_xs", "init_us", "maxiter", "isFeasible", "regInit"]
    return a, a[:n - kw], dict(zip(names[n - kw:n], a[n - kw:]))


def methods(R, kind, ip):
    al = R.choice([1., .5, .1])
    m = [("calcDiff", []), ("stoppingCriteria", []), ("expectedImprovement", [])]
    if kind == "CSQP":
        m = [("calc", [R.random() < .7]), ("update_lagrangian_parameters", [R.randint(1, 60)]), ("forwardPass", [al]), ("backwardPass", []), ("backwardPass_without_constraints", []), ("backwardPass_without_rho_update", []), ("update_rho_vec", [R.randint(1, 60)]), ("checkKKTConditions", []), ("computeDirection", [R.random() < .7]), ("tryStep", [al]), ("stoppingCriteria", []), ("expectedImprovement", [])]
    elif kind == "PROXQP":
        m = [("calc", [R.random() < .7]), ("computeDirection", [R.random() < .8]), ("tryStep", [al])]
    elif kind == "SQP":
        m += [("computeDirection", [True]), ("computeDirection", []), ("tryStep", [al]), ("tryStep", []), ("backwardPass", [])]
    else:
        m += [("computeDirection", [True]), ("computeDirection", []), ("backwardPass", []), ("tryStep", [al])]
        if kind == "FDDP":
            m.append(("updateExpectedImprovement", []))
    return R.choice(m)


def programs(c):
    R = random.Random(c.seed)
    kind, ip, it, o, twin = make(c, R)
    missing = [n for n in NAMES[kind] if not hasattr(CLS[kind], n)]
    if missing:
        c.fail("missing", "Solver%s has no property %s" % (kind, missing))
        return
    if not compare(c, o, kind, twin, "construction"):
        return
    prep, log = False, []
    for _ in range(R.randint(5, 22)):
        r = R.random()
        if r < .5:
            n = R.choice(sorted(SET[kind]))
            v = SET[kind][n](R)
            if r < .03:
                v = R.choice(["abc", None, [1, 2, 3]]) if n != "alphas" else "abc"
                if n in BOOLS[kind] or n == "with_callbacks":
                    v = [np.zeros(2)] * 3
                before = P.peek(o, kind)
                try:
                    setattr(o, n, v)
                    c.fail("type", "Solver%s.%s accepts %r" % (kind, n, v))
                    return
                except Exception:
                    c.add("wrong_types_refused")
                if differs(before, P.peek(o, kind)) or not compare(c, o, kind, twin, "%s = %r" % (n, v)):
                    c.fail("type", "refusing %s = %r changed Solver%s" % (n, v, kind))
                    return
                continue
            what = "%s = %r" % (n, v)
            log.append(what)
            if not call(c, o, kind, twin, what, lambda: setattr(o, n, v), lambda: twin.set(n, v) and None):
                return
            c.add("settings_written")
        elif r < .6:
            n = R.choice(ARRAYS[kind])
            try:
                v = perturbed(R, getattr(o, n), n == "rho_vec")
            except Exception as e:
                c.fail("getter", "%s: %s" % (n, e))
                return
            if n in ("xs", "us") and kind in ("CSQP", "PROXQP") and R.random() < .2:   # otherwise crocoddyl's own setter
                v = v[:-1] if R.random() < .5 else v + [v[-1]]
            log.append(n + " = array")
            if not call(c, o, kind, twin, n + " = array", lambda: setattr(o, n, v), lambda: twin.set(n, v) and None):
                return
            c.add("arrays_written")
        elif r < .85 or not prep:
            a, pos, kw = solveArgs(R, ip, kind)
            what = "solve with %d arguments%s" % (len(a), " (%d by keyword)" % len(kw) if kw else "")
            if len(a) < 3 and kind == "PROXQP":
                a, pos, kw = a + [[], []][:max(0, 2 - len(a))] + [4], pos, kw
                pos, kw = a, {}
            log.append(what)
            if not call(c, o, kind, twin, what, lambda: o.solve(*pos, **kw), lambda: twin.solve(a)):
                return
            prep = True
            c.add("solves_compared")
            c.mark(flat(o.xs))
        elif r < .9:
            xs, us = P.guess(ip, R.randrange(1 << 40), .5)
            log.append("setCandidate")
            if not call(c, o, kind, twin, "setCandidate", lambda: o.setCandidate(xs, us, False), lambda: twin.call("setCandidate", [xs, us, False])):
                return
        else:
            m, a = methods(R, kind, ip)
            if m == "backwardPass_without_rho_update":      # needs the factors of an earlier pass
                if not call(c, o, kind, twin, "backwardPass", lambda: o.backwardPass(), lambda: twin.call("backwardPass", [])):
                    return
                if [outcome(lambda: o.backwardPass())[0], outcome(lambda: twin.call("backwardPass", []))[0]] != ["value", "value"]:
                    prep = False
                    continue
            log.append("%s%r" % (m, a))
            fp = lambda: getattr(o, m)(*a)
            before = dict(view(o, kind))
            ra, rb = outcome(fp), outcome(lambda: twin.call(m, a))
            if rb[0] == "value" and rb[1] is not None:      # the twin returns bytes
                rb = ("value", None)
                tb = P.Twin and twin.dump()
            if ra[0] != rb[0] or ra[0] == "raise" and ra != rb:
                c.fail("result", "%s%r of Solver%s gives %s in Python and %s in C++" % (m, a, kind, str(ra)[:200], str(rb)[:200]))
                return
            if not compare(c, o, kind, twin, "%s%r" % (m, a)):
                return
            c.add("methods_called")
            if ra[0] == "raise":
                prep = False
        if c.verbose:
            sys.stderr.write("   %s\n" % log[-1])
        if P.calls(ip) != P.calls(it):
            c.fail("evaluations", "Python causes %d model evaluations, C++ %d (%s)" % (P.calls(ip), P.calls(it), log[-1]))
            return
    c.sample = "Solver%s %s: %s" % (kind, P.shape(ip), "; ".join(log)[:400])
    P.drop(ip)
    P.drop(it)


# ------------------------------------------------------------------ callbacks
class Boom(Exception):
    pass


class PyRec(ms.CallbackAbstract):
    def __init__(self, tag, out, kind, stopAt=-1, setAt=-1, name="", val=None):
        ms.CallbackAbstract.__init__(self)
        self.tag, self.out, self.kind, self.stopAt, self.setAt, self.name, self.val, self.n, self.addr = tag, out, kind, stopAt, setAt, name, val, 0, set()

    def __call__(self, solver, solver_type=None):
        self.out.append((self.tag, solver_type, view(solver, self.kind), type(solver).__name__))
        self.addr.add(P.address(solver))
        if self.n == self.setAt:
            setattr(solver, self.name, self.val)
        self.n += 1
        if self.n - 1 == self.stopAt:
            raise Boom("stop")


LIVE = {"SQP": [("termination_tolerance", 1e3), ("mu_dynamic", 55.), ("use_filter_line_search", False), ("th_stepDec", .9)], "CSQP": [("termination_tolerance", 1e3), ("mu_constraint", 77.), ("max_qp_iters", 3), ("eps_abs", 1e-9), ("alpha", 1.1)],
        "DDP": [("termination_tolerance", 1e3), ("th_stepDec", .9)], "FDDP": [("termination_tolerance", 1e3), ("th_acceptNegStep", .1)]}


def callbacks(c):
    R = random.Random(c.seed)
    kind, ip, it, o, twin = make(c, R, R.choice(["SQP", "CSQP", "CSQP", "DDP", "FDDP"]))
    n, stopAt, setAt = R.randint(1, 3), R.choice([-1, -1, 0, 1, 2]), R.choice([-1, 0, 1, 3])
    name, val = R.choice(LIVE[kind])
    out = []
    cbs = [PyRec(str(i), out, kind, *((stopAt, setAt, name, val) if i == 0 else ())) for i in range(n)]
    o.setCallbacks(cbs)
    got = o.getCallbacks()
    if len(got) != n or any(a is not b for a, b in zip(got, cbs)):
        c.fail("getCallbacks", "getCallbacks does not return the callbacks that were set")
        return
    if R.random() < .5:
        keep = [weakref.ref(x) for x in cbs]
        addr = cbs[0].addr
        del cbs, got
        gc.collect()
        c.add("callbacks_owned_by_the_solver_alone")
    else:
        addr, keep = cbs[0].addr, []
    twin.record(n, stopAt, setAt, name, val)
    tol = 10 ** R.uniform(-9, -2)
    o.termination_tolerance = tol
    twin.set("termination_tolerance", tol)
    for rep in range(2):
        a, pos, kw = solveArgs(R, ip, kind, 0)
        ra = rb = None
        try:
            ra = o.solve(*pos, **kw)
        except Boom:
            ra = "stopped"
        except Exception as e:
            ra = type(e).__name__ + str(e)[:80]
        try:
            rb = twin.solve(a)
        except RuntimeError as e:
            rb = "stopped" if "stop from a callback" in str(e) else "RuntimeError" + str(e)[:80]
        if ra != rb:
            c.fail("result", "Solver%s.solve with Python callbacks gives %s, with the same C++ callbacks %s" % (kind, ra, rb))
            return
        rec = twin.recorded()
        if len(rec) != len(out):
            c.fail("calls", "%d calls of Python callbacks, %d of C++ callbacks (Solver%s)" % (len(out), len(rec), kind))
            return
        for k, (x, y) in enumerate(zip(out, rec)):
            if x[0] != y[0] or x[1] != y[1]:
                c.fail("order", "call %d is of callback %s with %r, in C++ of %s with %r" % (k, x[0], x[1], y[0], y[1]))
                return
            d = differs(x[2], y[2])
            if d:
                c.fail("live:" + d, "in call %d the Python callback sees %s = %s, the C++ one %s" % (k, d, show(x[2][d]), show(y[2][d])))
                return
            if kind not in x[3]:
                c.fail("class", "the callback is given a %s by Solver%s" % (x[3], kind))
                return
        if addr - {P.address(o)}:
            c.fail("identity", "the callback is given another solver")
            return
        if not compare(c, o, kind, twin, "solve with callbacks"):
            return
        c.add("callback_calls_compared", len(rec))
        if ra == "stopped":
            c.add("exceptions_of_python_callbacks")
    if rec:
        c.mark(out[-1][2]["xs"])
    c.sample = "Solver%s %s, %d callbacks, exception at call %d, %s set at call %d" % (kind, P.shape(ip), n, stopAt, name, setAt)
    twin.quiet()
    P.drop(ip)
    P.drop(it)


# ------------------------------------------------------------------ printing
def captured(f):
    P.flush()
    sys.stdout.flush()
    t = tempfile.TemporaryFile()
    old = os.dup(1)
    os.dup2(t.fileno(), 1)
    try:
        r = f()
    finally:
        P.flush()
        os.dup2(old, 1)
        os.close(old)
    t.seek(0)
    return r, t.read().decode()


def printing(c):
    R = random.Random(c.seed)
    kind, ip, it, o, twin = make(c, R, R.choice(["SQP", "CSQP", "CSQP", "PROXQP", "FDDP"]))
    prec = R.choice([-1, 1, 4, 7])
    if kind in ("SQP", "CSQP"):
        cb = ms.CallbackVerbose() if prec < 0 else ms.CallbackVerbose(prec)
        if prec >= 0 and cb.precision != prec:
            c.fail("precision", "CallbackVerbose(%d).precision is %r" % (prec, cb.precision))
            return
        if R.random() < .5 and prec >= 0:
            cb = ms.CallbackVerbose()
            cb.precision = prec
        if R.random() < .8:
            o.setCallbacks([cb])
            twin.verbose(prec)
    for n in ("with_qp_callbacks", "with_callbacks"):
        if n in NAMES[kind] and R.random() < .6:
            setattr(o, n, True)
            twin.set(n, True)
    a, pos, kw = solveArgs(R, ip, kind, 0)
    (ra, ta), (rb, tb) = captured(lambda: outcome(lambda: o.solve(*pos, **kw))), captured(lambda: outcome(lambda: twin.solve(a)))
    strip = lambda s: re.sub(r"\d+(\.\d+)?(e[-+]\d+)? *(ms|us|seconds)", "", s)
    if ra != rb or not compare(c, o, kind, twin, "solve with printing"):
        c.fail("result", "Solver%s.solve with printing gives %s, in C++ %s" % (kind, ra, rb))
        return
    if strip(ta) != strip(tb):
        c.fail("text", "Python prints %r, C++ prints %r" % (ta[-400:], tb[-400:]))
        return
    c.add("characters_compared", len(ta))
    if ta:
        c.mark(ta)
    c.sample = "Solver%s prints %d characters" % (kind, len(ta))
    P.drop(ip)
    P.drop(it)


# ------------------------------------------------------------------ logger
def logger(c):
    R = random.Random(c.seed)
    kind, ip, it, o, twin = make(c, R, R.choice(["SQP", "CSQP"]))
    lg = ms.CallbackLogger()
    out = []
    rec = PyRec("0", out, kind)
    o.setCallbacks([rec, lg] if R.random() < .5 else [lg, rec])
    tol = 10 ** R.uniform(-9, -3)
    o.termination_tolerance = tol
    twin.set("termination_tolerance", tol)
    twin.record(1, -1, -1, "", None)
    for rep in range(R.randint(1, 2)):
        a, pos, kw = solveArgs(R, ip, kind, 0)
        if outcome(lambda: o.solve(*pos, **kw)) != outcome(lambda: twin.solve(a)):
            c.fail("result", "solving with the logger gives another result")
            return
    truth = [x[2] for x in twin.recorded()]
    names = dict(us="us", xs="xs", fs="fs", iter="iter", cost="cost", merit="merit", preg="preg", dreg="dreg", step="stepLength", KKT="KKT")
    if kind == "CSQP":
        names.update(gap_norm="gap_norm", constraint_norm="constraint_norm", qp_iter="qp_iters")
    d = lg.convergence_data
    if truth:
        for key, n in names.items():
            if key not in d or len(d[key]) != len(truth):
                c.fail("entries:" + key, "the logger has %d entries of %s for %d iterations of Solver%s" % (len(d.get(key, [])), key, len(truth), kind))
                return
            for i, (x, y) in enumerate(zip(d[key], truth)):
                if differs({n: flat(x)}, {n: y[n]}):
                    c.fail("value:" + key, "entry %d of %s in the logger is %s, the solver had %s" % (i, key, show(flat(x)), show(y[n])))
                    return
        c.add("logger_entries_compared", len(truth) * len(names))
        c.mark(truth[-1]["xs"])
    for key in d:      # whatever else is logged keeps the pace
        if len(d[key]) != len(truth):
            c.fail("entries:" + key, "the logger has %d entries of %s for %d iterations" % (len(d[key]), key, len(truth)))
    if not compare(c, o, kind, twin, "solve with the logger"):
        return
    c.sample = "Solver%s: %d iterations logged" % (kind, len(truth))
    twin.quiet()
    P.drop(ip)
    P.drop(it)


# ------------------------------------------------------------------ lifetime
def lifetime(c):
    R = random.Random(c.seed)
    kind = R.choice(sorted(CLS))
    seed = R.randrange(1 << 40)
    ip, it = P.make(seed, R.choice([0, 1, 2, 3]), kind in ("CSQP", "PROXQP"), 0, True), None
    sh = P.shape(ip)
    xs, us = P.guess(ip, 7, .3)
    xs2, us2 = P.guess(ip, 8, .3)
    problem = P.problem(ip)
    solvers = [CLS[kind](problem) for _ in range(R.randint(1, 2))]
    o = solvers[0]
    P.drop(ip)
    held, steps, log = {"problem": problem, "solvers": solvers}, [], []
    del problem, solvers
    ref = CLS[kind](held["problem"])
    ref.solve(xs, us, 6)
    want, ref = flat(ref.xs), None
    cbs = None
    if kind != "PROXQP":
        cbs = [PyRec("0", [], kind)]
        o.setCallbacks(cbs)
        cbrefs = [weakref.ref(x) for x in cbs]
    kept = []
    ops = R.sample(["drop_problem", "drop_callbacks", "drop_solvers", "gc", "views", "resolve", "problem_again", "churn"], R.randint(4, 8))
    for op in ops:
        log.append(op)
        if op == "drop_problem":
            held["problem"] = None
        elif op == "drop_callbacks":
            cbs = None
        elif op == "drop_solvers":
            held["solvers"] = None
        elif op == "gc":
            gc.collect()
        elif op == "churn":
            junk = [np.full(R.randint(1, 60), 7.) for _ in range(300)]
            del junk
        elif op == "problem_again" and o is not None:
            q = o.problem
            kept.append((q.T, lambda q=q: q.T, "problem.T"))
        elif op == "views":
            for n in R.sample(NAMES[kind], 8):
                v = getattr(o, n)
                kept.append((flat(v), lambda v=v: flat(v), n))
        elif op == "resolve":
            o.solve(xs, us, 6)
            if flat(o.xs) != want and kind not in ("CSQP", "PROXQP"):
                c.fail("resolve", "solving after %s gives another trajectory" % log)
                return
            kept = [k for k in kept if isinstance(k[0], int)]     # live views of the solver follow it
    if not P.alive(ip):
        c.fail("problem", "the problem died while the solver lives (%s)" % log)
        return
    a = o.solve(xs, us, 6)
    kept = [k for k in kept if isinstance(k[0], int)]
    for n in R.sample(NAMES[kind], R.choice([1, 1, 1, 2, 5])):     # one view must not keep the solver alive for another
        v = getattr(o, n)
        kept.append((flat(v), lambda v=v: flat(v), n))
    if kind != "PROXQP" and (len(o.getCallbacks()) != 1 or cbrefs[0]() is None):
        c.fail("callback", "the callback died while the solver lives (%s)" % log)
        return
    lst = o.getCallbacks() if kind != "PROXQP" and R.random() < .5 else None
    # the solver goes; what was read from it stays
    v = n = None
    o = None
    held["solvers"] = None
    gc.collect()
    for _ in range(200):
        np.full(R.randint(1, 40), 3.)
    for was, now, n in kept:
        got = now()
        if got != was:
            c.fail("view:" + n, "the value read from Solver%s.%s changed when the solver was deleted (%s)" % (kind, n, log))
            return
    c.add("values_read_after_the_solver", len(kept))
    if lst is not None:
        if len(lst) != 1 or not isinstance(lst[0], PyRec):
            c.fail("callback", "the list of callbacks died with the solver")
            return
        lst = None
    now = was = got = q = junk = None
    kept, held["problem"], cbs = None, None, None
    gc.collect()
    if P.alive(ip) or P.alive_model(ip):
        c.add("problems_not_released")
    else:
        c.add("problems_released")
    c.mark((kind, sh, tuple(log)))
    c.sample = "Solver%s %s: %s" % (kind, sh, log)


def bools(*a):
    return a


RULE = "a case counts if a solve (programs, callbacks, logger), printed text or a sequence of deletions was compared; distinct by trajectory, text or sequence"
SC = [("programs", programs, 900, 20000), ("callbacks", callbacks, 250, 5000), ("printing", printing, 150, 3000), ("logger", logger, 150, 3000), ("lifetime", lifetime, 800, 20000)]
if __name__ == "__main__":
    pymain.main(SC, RULE)
