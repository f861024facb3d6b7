"""How each property is checked."""
import concurrent.futures as cf, json, os, subprocess, sys, time
import check as C

MEMCHECK = ["valgrind", "-q", "--show-realloc-size-zero=no", "--num-callers=20", "--undef-value-errors=yes", "--child-silent-after-fork=yes"]
_S08 = {"build": {"prox": False}, "env": {"S08_DIR": os.path.join(C.BUILD, "run", "S08-traces")}}
_S08MT = dict(_S08, build={"prox": False, "extra_sources": ["gomp_shim.cpp"]})
_PY = {"env": {"MALLOC_PERTURB_": "165", "PYTHONMALLOC": "malloc", "PYTHONDONTWRITEBYTECODE": "1"}}
# property -> list of (variant, monitor source, options)
SPEC = {
    "S01": [("plain", "mon_S01.cpp", {})],
    "S02": [("plain", "mon_S02.cpp", {})],
    "S03": [("plain", "mon_S03.cpp", {})],
    "S04": [("plain", "mon_S04.cpp", {})],
    "S05": [("plain", "mon_S05.cpp", {})],
    "S06": [("plain", "mon_S06.cpp", {})],
    "S07": [("plain", "mon_S07.cpp", {})],
    "S08": [("plain", "mon_S08.cpp", dict(_S08, label="reference")), ("mt", "mon_S08.cpp", dict(_S08MT, after="reference")), ("tsan", "mon_S08.cpp", dict(_S08MT, scale=.5, cpu=120))],
    "S09": [("plain", "mon_S09.cpp", {}), ("asan", "mon_S09.cpp", {"time": 25, "cpu": 60, "scale": .7}),
            ("plain", "mon_S09.cpp", {"label": "memcheck", "wrap": MEMCHECK, "scale": .08, "ttime": 900, "time": 25, "cpu": 300})],
    "S10": [("plain", "mon_S10.cpp", {})],
    "S11": [("plain", "mon_S11.cpp", {})],
    "S12": [("plain", "mon_S12.cpp", {})],
    "S13": [("plain", "mon_S13.cpp", {}), ("python", "py_S16.py", dict(_PY, args=["--scenario", "logger"]))],
    "S14": [("plain", "mon_S14.cpp", {})],
    "S15": [("plain", "mon_S15.cpp", {})],
    "S16": [("python", "py_S16.py", _PY)],
    "S17": [("python", "py_S17.py", _PY)],
    "S18": [("plain", "mon_S18.cpp", {})],
    "S19": [("plain", "mon_S19.cpp", {})],
}
LEVEL = {}
ASSUME = {}
NA = {}
_GEN = "Sampled exploration on seeded random problems; trusts the harness's own problem evaluation (spec.hpp), g++ and Eigen."
TECH = {
    "S01": "runtime monitor: independent re-evaluation of KKT residuals at every reported success",
    "S02": "runtime monitor: every reported figure recomputed from the problem's formulas at each callback, each ProxQP iteration and each successful return",
}
TECH.update({
    "S03": "runtime monitor: residuals of the stagewise optimality system evaluated at every observed SQP direction, gains and value function recomputed",
    "S04": "runtime monitor: inner ADMM recursion re-executed and certified at every observed QP, compared with an independent interior-point solution at tight tolerances",
    "S05": "runtime monitor: trace checker that predicts every accepted step from the problem's formulas and a rebuilt filter memory",
})
TECH["S06"] = "runtime monitor: results of seven solver/line-search variants compared with a minimizer computed by an independent Newton/interior-point method; CSQP and SQP iterate traces compared"
TECH["S08"] = "ThreadSanitizer over an own OpenMP runtime (only the ordering OpenMP promises), and traces of multi-threaded runs under chosen thread counts, delays and start orders compared with the sequential build"
TECH["S11"] = "fault injection at chosen model calls (exception, NaN, infinity) with monitors for bounded evaluations, finite success, shortened steps and bit-identical recovery"
TECH["S07"] = "runtime monitor: differential traces, a solver object with a random history of solves, failures, exceptions and time-outs against a fresh object, compared bit for bit at every observed iteration"
TECH["S10"] = "fault injection in time: the clock is interposed and passes the deadline at a chosen reading; monitor of the work started after that, of the result and of the next solve"
TECH["S12"] = "runtime monitor: model of the regularization rules run alongside every solve, with injected direction failures and step lengths and indefinite problems; counters of iterations and evaluations"
TECH["S13"] = "runtime monitor: order and moment of every callback recorded; results with and without observers compared bit for bit; printed figures parsed and compared with the solver's"
TECH["S14"] = "runtime monitor: shadow copy of all parameters compared with all getters after every call of random setter sequences; paired solves that differ in one setting; wrong guesses and unsupported problems"
TECH["S15"] = "runtime monitor: every assembled QP compared entry by entry with matrices built from the problem's formulas; direction and multipliers judged by the residuals of that QP, the QP library itself and an independent interior-point solution"
TECH["S16"] = "runtime monitor: every Python object paired with a C++ twin driven by the same random calls; all properties, callback observations and printed text compared bit for bit; deletions in any order on a poisoned heap"
TECH["S17"] = "runtime monitor: C++ solvers in lock step with the repository's Python reference implementations; every iteration's direction, multipliers, penalties, residuals, gains and step compared entry by entry, differences judged against the reference's own rounding noise"
TECH["S09"] = "AddressSanitizer, UndefinedBehaviorSanitizer, Eigen and libstdc++ assertions, valgrind memcheck and differently poisoned heaps over random programs of public calls"
TECH["S18"] = "runtime monitor: online checker of the evaluation protocol over the log of all model calls, with points compared bit for bit; problem, models, data and guess compared before and after each solve"
TECH["S19"] = "runtime monitor: every direction, gain, trial rollout, accepted step and reported figure of the development solvers recomputed from the problem's formulas; faults injected at chosen model calls"
NOTE = {
    "S19": "Directions whose reduced Hessian is nearly singular and comparisons closer than rounding are skipped and counted. The residual of these solvers uses the multipliers of the direction in hand (one iteration old for DDP and FDDP after the step). " + _GEN,
    "S08": "The multi-threaded build is made from the same sources with CROCODDYL_WITH_MULTITHREADING (the library built by build.sh is sequential). ThreadSanitizer sees the solver, the models and crocoddyl's problem templates, not libcrocoddyl itself. Models that throw inside a parallel loop end the process and are outside. " + _GEN,
    "S09": "Crocoddyl and the other libraries are not instrumented (memcheck sees them, AddressSanitizer sees their heap blocks). Two solvers that share one problem whose models change are outside (crocoddyl's updated flag is read once). " + _GEN,
    "S17": "Shapes that the references support: at least two states and controls, the same number of controls at every node, no node with a single constraint, no regularization, penalty-update interval of at least two. The line-search rules of the two sides differ on purpose (constraint violation in the filter, strictness) and are compared only where they say the same. Iterations whose QP is decided by rounding-level residuals are left out and counted. " + _GEN,
    "S16": "The bindings are rebuilt from the working tree with the harness's flags; properties that crocoddyl's own classes provide are compared too, their setters' own checks are crocoddyl's. " + _GEN,
    "S15": "QPs that the library itself does not solve with the given settings are skipped and counted. " + _GEN,
    "S18": "The budget of evaluations is judged in iterations in which the model did not throw. " + _GEN,
    "S10": "The deadline passes at every kind of clock reading (before the first iteration, between QP iterations, between outer iterations, before the extra iteration). Real elapsed time is not judged. " + _GEN,
    "S12": "Regularization trace predicted exactly (the same floating-point operations). " + _GEN,
    "S13": "Covers C++ callbacks, CallbackVerbose and the Python CallbackLogger. " + _GEN,
    "S14": "NaN arguments are not judged. Five settings whose effect is too rare on random problems (filter_size, ProxQP's reg_decfactor and mu_constraint) are judged by storage only here, by S05 and S12 otherwise. " + _GEN,
    "S07": "Every field readable at the callbacks and at return is compared bit for bit; solves ended before their first direction are compared by trajectory only. SolverPROXQP has no callbacks and is compared by result. " + _GEN,
    "S11": "One faulty call, a window, a node or everything from one call on, at uniformly drawn calls of thousands of solves. " + _GEN,
    "S06": "Success implies the minimizer on every observed run; a missing success is only judged through its rate, far above the usual share (the ProxQP library and CSQP's QP limit can fail legitimately). " + _GEN,
    "S01": "Every success observed on thousands of generated problems, fresh and reused solvers, is re-evaluated from the problem's formulas. " + _GEN,
    "S03": "Direction, multipliers, gains and value function of every observed SQP iteration are checked to rounding (relative to the sizes of the terms). " + _GEN,
    "S04": "Every QP of every observed CSQP iteration; QP-internal states are seen through the public ADMM members. " + _GEN,
    "S05": "Comparisons closer than 1e-10 relative are skipped and counted. " + _GEN,
    "S02": "Figures of each observed snapshot compared to 1e-10 relative; snapshots with non-finite or huge trajectories are skipped and counted. " + _GEN,
}


def rates(res, limits):
    """Share of solves without success per solver; only far above the usual share is an alarm."""
    for what, lim in limits.items():
        n, bad = res.counters.get("solves_" + what, 0), res.counters.get("no_success_" + what, 0)
        if n >= 60 and bad > lim * n:
            res.viol.append(dict(scenario="rates", id=0, key=what, msg="%d of %d solves of %s end without success on strictly convex problems (usual share below %g)" % (bad, n, what, lim / 3), label="plain", exe_args=[]))


def proxRestart(res):
    n, bad = res.counters.get("proxqp_restarts", 0), res.counters.get("proxqp_restarts_not_immediate", 0)
    if n >= 100 and bad > .2 * n:
        res.viol.append(dict(scenario="rates", id=0, key="proxqp_restart", msg="%d of %d restarts of SolverPROXQP from its solution do not succeed at once (usual share below 3%%)" % (bad, n), label="plain", exe_args=[]))


def noEffect(res):
    """A setting that never changes any solve is not used by the solver."""
    rare = {"proxqp.reg_decfactor", "proxqp.filter_size", "sqp.filter_size", "csqp.filter_size", "proxqp.mu_constraint"}
    for k, n in sorted(res.counters.items()):
        if k.startswith("changed:") and k[8:] not in rare and n >= 100 and not res.counters.get("effect:" + k[8:], 0):
            res.viol.append(dict(scenario="effects", id=0, key="unused_" + k[8:], msg="changing %s changed none of %d solves (it usually changes at least 5%%)" % (k[8:], n), label="plain", exe_args=[]))


POST = {
    "S14": noEffect,
    "S07": proxRestart,
    "S06": lambda res: rates(res, {"SQP_filter": .12, "SQP_merit": .3, "DDP_filter": .05, "DDP_merit": .05, "FDDP_filter": .15, "FDDP_merit": .05, "KKT_filter": .05, "KKT_merit": .05,
                                   "csqp_quadratic": .04, "csqp_convex": .15, "proxqp_quadratic": .05, "proxqp_convex": .3}),
}


def make(variant, mon, o):
    return C.build_py(mon) if variant == "python" else C.build(variant, mon, **o.get("build", {}))


def environ(variant, o):
    e = dict(C.VARIANTS.get(variant, {}).get("env") or {}, **o.get("env", {}))
    for k, v in e.items():
        if k.endswith("_DIR"):
            os.makedirs(v, exist_ok=True)
    return e


def run(prop, seed, tier, scale, t0):
    res = C.Result()
    with cf.ThreadPoolExecutor(4) as ex:   # compile all variants at once
        list(ex.map(lambda e: make(*e), {json.dumps([v, m, o.get("build", {})]): (v, m, o) for v, m, o in SPEC[prop]}.values()))
    for variant, mon, o in SPEC[prop]:
        exe = make(variant, mon, o)
        lim = o.get("time", 40) if tier == "quick" else o.get("ttime", 1500)
        C.run_shards(prop, o.get("label", variant), exe, seed, tier, res, env=environ(variant, o), tlimit=lim, args=o.get("args", ()), scale=scale * o.get("scale", 1), cpu=o.get("cpu", 20), wrap=o.get("wrap", ()))
    if prop in POST:
        POST[prop](res)
    return C.finish(prop, LEVEL.get(prop, "exploration"), seed, tier, t0, res, assumptions=ASSUME.get(prop, ()))


def setup():
    bad = 0
    for prop in SPEC:
        for variant, mon, o in SPEC[prop]:
            try:
                make(variant, mon, o)
                print("built", prop, variant, flush=True)
            except C.BuildError as e:
                print("build failed", prop, variant, e, flush=True)
                bad = 1
    return bad


def replay(path):
    v = json.load(open(path))
    need = {v["label"]} | {o["after"] for variant, _, o in SPEC[v["property"]] if o.get("label", variant) == v["label"] and "after" in o}
    for variant, mon, o in SPEC[v["property"]]:
        if o.get("label", variant) not in need:
            continue
        exe = make(variant, mon, o)
        e = dict(C.ENV); e.update(environ(variant, o))
        cmd = list(o.get("wrap", ())) + (exe if isinstance(exe, list) else [exe]) + ["--seed", str(v["seed"]), "--scenario", v["scenario"], "--case", str(v["id"]), "--verbose"] + (["--thorough"] if v["tier"] == "thorough" else []) + v.get("exe_args", [])
        print(" ".join(cmd), flush=True)
        rc = subprocess.run(cmd, env=e).returncode
        if o.get("label", variant) == v["label"]:
            return rc
    return 2
