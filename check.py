#!/usr/bin/env python3
"""Runs the check of one property: builds the monitors against /repo's working
tree, runs them in parallel shards, writes the evidence file and the verdict.

  check.py S01 [--tier quick|thorough] [--scale X]
  check.py --setup               build everything once (warm cache)
  check.py --replay FILE         run one recorded case again, verbosely
"""
import os, sys, json, time, hashlib, subprocess, re, glob, shutil, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
HAR = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
P = "/opt/mim-venv/lib/python3.12/site-packages/cmeel.prefix"
NCPU = max(1, min(8, os.cpu_count() or 1))
COMMON = ["-std=gnu++17", "-DBOOST_MPL_LIMIT_LIST_SIZE=30", "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30",
          "-DMIM_SOLVERS_WITH_PROXQP", "-I" + REPO + "/include", "-isystem", P + "/include",
          "-isystem", P + "/include/eigen3", "-w", "-fPIC"]
LINK = ["-L" + P + "/lib", "-Wl,-rpath," + P + "/lib", "-Wl,-rpath-link," + P + "/lib", "-lcrocoddyl", "-lpinocchio_default"]
ENV = dict(os.environ, LD_LIBRARY_PATH=P + "/lib", OMP_NUM_THREADS="1")

VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O1", "-DNDEBUG"]),
    "asan": dict(cxx="clang++", flags=["-O1", "-g1", "-DNDEBUG", "-DEIGEN_INTERNAL_DEBUGGING", "-D_GLIBCXX_ASSERTIONS", "-include", HAR + "/eigen_assert.h", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
                 env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:handle_abort=1:exitcode=99:strict_init_order=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread", "-fopenmp", "-DCROCODDYL_WITH_MULTITHREADING", "-DCROCODDYL_WITH_NTHREADS=4"],
                 env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=99:report_thread_leaks=0:history_size=4:second_deadlock_stack=0:report_signal_unsafe=0"}, no_gomp=True),
    "pybind": dict(cxx="g++", flags=["-O0", "-DNDEBUG"]),
    "mt": dict(cxx="g++", flags=["-O1", "-DNDEBUG", "-fopenmp", "-DCROCODDYL_WITH_MULTITHREADING", "-DCROCODDYL_WITH_NTHREADS=4"], no_gomp=True),
}


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
_inc = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*[<"]([^">]+)[">]', re.M)
_bytes = {}


def rd(p):
    if p not in _bytes:
        with open(p, "rb") as f:
            _bytes[p] = f.read()
    return _bytes[p]


def closure(src, incdirs):
    seen, todo = {}, [src]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        b = rd(p)
        seen[p] = hashlib.sha256(b).hexdigest()
        for m in _inc.findall(b):
            n = m.decode()
            for d in [os.path.dirname(p)] + incdirs:
                q = os.path.normpath(os.path.join(d, n))
                if os.path.isfile(q):
                    todo.append(q)
                    break
    return seen


class BuildError(Exception):
    pass


def objkey(variant, src, extra):
    v = VARIANTS[variant]
    incs = [REPO + "/include", HAR]
    h = hashlib.sha256()
    h.update(repr([v["cxx"], v["flags"], COMMON, extra]).encode())
    for p, d in sorted(closure(src, incs).items()):
        h.update((p + " " + d + "\n").encode())
    return h.hexdigest()[:32]


def compile_one(variant, src, extra):
    v = VARIANTS[variant]
    key = objkey(variant, src, extra)
    out = os.path.join(BUILD, "obj", variant, os.path.basename(src) + "." + key + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    for attempt in range(3):
        r = subprocess.run([v["cxx"]] + v["flags"] + COMMON + extra + ["-I" + HAR, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode and (attempt == 2 or (r.returncode > 0 and "error:" in r.stdout)):
            raise BuildError("%s (%s):\n%s" % (src, variant, r.stdout[-3000:]))
        if not r.returncode and os.path.exists(tmp):
            break
    os.rename(tmp, out)
    prune(os.path.dirname(out), os.path.basename(src), out)
    return out


def prune(d, base, keep, n=3):
    fs = sorted([os.path.join(d, f) for f in os.listdir(d) if f.startswith(base + ".") and f.endswith(".o")], key=os.path.getmtime)
    for f in fs[:-n]:
        if f != keep:
            try:
                os.remove(f)
            except OSError:
                pass


def repo_sources():
    return [s for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if not re.search(rb"^int\s+main\s*\(", rd(s), re.M)]


def build(variant, mon, extra_sources=(), extra_flags=(), prox=True):
    v = VARIANTS[variant]
    srcs = repo_sources()
    if not prox:
        srcs = [s for s in srcs if "proxqp" not in os.path.basename(s)]
    har = [os.path.join(HAR, "main.cpp"), os.path.join(HAR, mon)]
    har += [os.path.join(HAR, "proxqp_adapter.cpp" if prox else "proxqp_none.cpp")]
    har += [os.path.join(HAR, s) for s in extra_sources]
    # longest first
    allsrc = sorted(srcs + har, key=lambda s: -("proxqp" in s) * 10 - ("csqp" in s) * 3 - ("mon_" in s))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_one(variant, s, list(extra_flags)), allsrc))
    h = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (os.path.splitext(mon)[0], variant, h))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (os.path.splitext(mon)[0], variant))):
            try:
                if time.time() - os.path.getmtime(old) > 600:
                    os.remove(old)
            except OSError:
                pass
        tmp = exe + ".%d.tmp" % os.getpid()
        ld = v.get("ld", LINK)
        fl = [f for f in v["flags"] if f.startswith("-fsanitize") or f == "-fopenmp"]
        if v.get("no_gomp"):
            fl = [f for f in fl if f != "-fopenmp"]
        r = subprocess.run([v["cxx"]] + fl + objs + ld + ["-o", tmp, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("link %s:\n%s" % (mon, r.stdout[-3000:]))
        os.rename(tmp, exe)
    return exe


PY = "/opt/mim-venv/bin/python"
PYFLAGS = ["-I/usr/include/python3.12", "-isystem", "/opt/mim-venv/lib/python3.12/site-packages/numpy/_core/include"]


def link(out, objs, libs, d):
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", "-shared"] + objs + ["-L" + d] + libs + LINK + ["-Wl,-rpath," + d, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("link %s:\n%s" % (out, r.stdout[-3000:]))
    os.rename(tmp, out)


def build_py(script):
    """The library, its Python module and the probe module, from the working tree; returns the command."""
    bind = sorted(glob.glob(REPO + "/bindings/**/*.cpp", recursive=True))
    jobs = [("pybind", s, PYFLAGS + ["-I" + REPO + "/bindings"]) for s in bind + [os.path.join(HAR, "pyprobe.cpp")]] + [("plain", s, []) for s in repo_sources()]
    jobs.sort(key=lambda j: -("proxqp" in j[1]) * 10 - ("probe" in j[1]) * 10 - ("csqp" in j[1]) * 3)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    pyfiles = sorted(glob.glob(REPO + "/bindings/mim_solvers/**/*.py", recursive=True))
    h = hashlib.sha256(("\n".join(sorted(objs))).encode())
    for p in pyfiles:
        h.update(p.encode() + rd(p))
    d = os.path.join(BUILD, "py", h.hexdigest()[:24])
    if not os.path.exists(d + "/ok"):
        for old in glob.glob(os.path.join(BUILD, "py", "*")):
            if time.time() - os.path.getmtime(old) > 600:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d + "/mim_solvers", exist_ok=True)
        lib = [o for o, j in zip(objs, jobs) if j[0] == "plain"]
        mod = [o for o, j in zip(objs, jobs) if j[0] == "pybind" and "pyprobe" not in j[1]]
        prb = [o for o, j in zip(objs, jobs) if "pyprobe" in j[1]]
        link(d + "/libmim_solvers.so", lib, [], d)
        pl = ["-lmim_solvers", "-leigenpy", "-lboost_python312"]
        link(d + "/mim_solvers/mim_solvers_pywrap.so", mod, pl, d)
        link(d + "/mimprobe.so", prb, pl, d)
        for p in pyfiles:
            q = os.path.join(d, os.path.relpath(p, REPO + "/bindings"))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy(p, q)
        open(d + "/ok", "w").close()
    os.utime(d)
    return [PY, "-B", os.path.join(HAR, script), d]


# ---------------------------------------------------------------- running
class Result:
    def __init__(self):
        self.viol, self.samples, self.sigs = [], [], set()
        self.evals = self.nontriv = 0
        self.counters, self.scen = {}, {}
        self.rule, self.errors, self.timeup, self.notes = "", [], False, []


def parse(path):
    out = []
    try:
        with open(path, errors="replace") as f:
            for l in f:
                out.append(l.rstrip("\n"))
    except OSError:
        pass
    return out


def run_shards(prop, label, exe, seed, tier, res, env=None, tlimit=300, shards=NCPU, args=(), scale=1.0, cpu=20, kill=None, wrap=()):
    e = dict(ENV)
    e.update(env or {})
    d = os.path.join(BUILD, "run", prop + "-" + label)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    base = (exe if isinstance(exe, list) else [exe]) + ["--seed", str(seed), "--time", str(tlimit), "--cpu", str(cpu), "--scale", str(scale)] + (["--thorough"] if tier == "thorough" else []) + list(args)
    procs = []
    for i in range(shards):
        out = os.path.join(d, "out%d" % i)
        procs.append((i, out, subprocess.Popen(list(wrap) + base + ["--start", str(i), "--step", str(shards), "--out", out], env=e,
                                               stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err%d" % i), "w"), stdin=subprocess.DEVNULL)))
    deadline = time.time() + (kill or (tlimit + 120))
    for i, out, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        lines = parse(out)
        end = None
        bad = None
        for l in lines:
            t, _, b = l.partition(" ")
            if t == "VIOL":
                v = json.loads(b)
                v["label"] = label
                v["exe_args"] = list(args)
                res.viol.append(v)
            elif t == "SAMPLE":
                smp = json.loads(b)
                key = smp["case"].split()[0]
                if sum(x["case"].split()[0] == key for x in res.samples) < 2 and len(res.samples) < 14:
                    res.samples.append(smp)
            elif t == "SIG":
                res.sigs.add(b)
            elif t == "END":
                end = json.loads(b)
            elif t in ("HANG", "CRASH"):
                bad = (t, b)
        if end:
            res.evals += end["evaluations"]
            res.nontriv += end["nontrivial"]
            res.rule = end["rule"]
            res.timeup |= bool(end["timeup"])
            for k, v in end["counters"].items():
                res.counters[k] = max(res.counters.get(k, v), v) if k.startswith("max_") else res.counters.get(k, 0) + v
            for k, v in end["scenarios"].items():
                res.scen[label + "/" + k] = res.scen.get(label + "/" + k, 0) + v
        if end is None:
            err = "\n".join([l for l in parse(os.path.join(d, "err%d" % i)) if not l.startswith("CASE ")][-60:])
            if bad:
                scen, _, rest = bad[1].partition(" ")
                cid = rest.split()[0]
                again = subprocess.run(list(wrap) + base + ["--scenario", scen, "--case", cid, "--out", os.path.join(d, "again%d" % i)], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=max(120, 6 * cpu))
                lines2 = parse(os.path.join(d, "again%d" % i))
                rep = any(l.startswith(("HANG", "CRASH", "VIOL")) for l in lines2) or again.returncode not in (0,)
                what = "hang" if bad[0] == "HANG" else "crash"
                if rep:
                    res.viol.append(dict(scenario=scen, id=int(cid), key=what, msg="%s: %s" % (bad[0], bad[1]) + " " + err[-800:], label=label, exe_args=list(args)))
                else:
                    res.errors.append("%s in shard %d did not repeat alone: %s" % (what, i, bad[1]))
            elif p.returncode == 99 or "AddressSanitizer" in err or "ThreadSanitizer" in err or "runtime error" in err:
                m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: .*?(?=\n\n  Location|\n\n  Thread|\Z)|[^\n]*runtime error: [^\n]*)", err_all(d, i), re.S if "ThreadSanitizer" in err_all(d, i) else 0)
                what = m.group(1) if m else err[-300:]
                scen, cid = last_case(d, i)
                res.viol.append(dict(scenario=scen, id=cid, key="sanitizer:" + san_key(err_all(d, i)), msg=what[:600], label=label, exe_args=list(args)))
            else:
                res.errors.append("shard %d of %s ended with %s: %s" % (i, label, p.returncode, err[-500:]))


def err_all(d, i):
    return "\n".join(parse(os.path.join(d, "err%d" % i)))


def last_case(d, i):
    last = ("?", -1)
    for l in parse(os.path.join(d, "err%d" % i)):
        if l.startswith("CASE "):
            _, s, c = l.split()[:3]
            last = (s, int(c))
    return last


def san_key(txt):
    m = re.search(r"(?:Address|Thread)Sanitizer: ([\w-]+(?: race)?)", txt) or re.search(r"runtime error: ([^\n]{0,60})", txt)
    fr = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(mim_solvers::[\w:~]+)", txt)
    return (m.group(1) if m else "?") + "@" + (fr.group(1) if fr else "?")


# ---------------------------------------------------------------- findings
def known():
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def finish(prop, level, seed, tier, t0, res, extra=None, assumptions=()):
    kn = {(p, k): w for p, k, w in known()}
    seen_known, real = {}, []
    for v in res.viol:
        k = (prop, v["scenario"] + ":" + v["key"])
        if k in kn:
            seen_known[k] = v
        else:
            real.append(v)
    cov = dict(evaluations=res.evals, distinct_nontrivial=len(res.sigs), rule=res.rule,
               samples=res.samples or ["none"], observed={k: (int(v) if float(v).is_integer() and abs(v) < 1e15 else v) for k, v in sorted(res.counters.items())},
               cases_per_scenario=res.scen)
    if res.timeup:
        cov["stopped_by_time_limit"] = True
    if res.notes:
        cov["notes"] = res.notes
    if extra:
        cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for (p, k), w in kn.items():
        if p == prop:
            log("KNOWN-FINDING: property=%s %s" % (p, w + ("" if (p, k) in seen_known else " (listed; not reproduced in this run)")))
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    if real:
        for n, v in enumerate(real[:5]):
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, re.sub(r"\W", "_", v["scenario"]), v["id"]))
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, seed=seed, tier=tier), f, indent=1)
            if n == 0:
                log("VIOLATION property=%s replay=%s" % (prop, path))
            log("  %s[%s] %s" % (v["scenario"], v["key"], v["msg"][:700]))
        log("%s: %d violations in %d cases (%.1f s)" % (prop, len(real), res.evals, time.time() - t0))
        return 1
    if res.errors:
        for e in res.errors[:5]:
            log("ERROR " + e)
        return 2
    if res.evals == 0 or not res.sigs:
        log("ERROR nothing was explored")
        return 2
    log("%s holds: %d cases, %d distinct non-trivial (%.1f s)" % (prop, res.evals, len(res.sigs), time.time() - t0))
    return 0


def main():
    import props
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale, prop, setup = 1.0, None, False
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 1
        elif a[i] == "--seed":
            seed = int(a[i + 1]); i += 1
        elif a[i] == "--scale":
            scale = float(a[i + 1]); i += 1
        elif a[i] == "--setup":
            setup = True
        elif a[i] == "--replay":
            return props.replay(a[i + 1])
        else:
            prop = a[i]
        i += 1
    os.makedirs(BUILD, exist_ok=True)
    if setup:
        return props.setup()
    t0 = time.time()
    try:
        return props.run(prop, seed, tier, scale, t0)
    except BuildError as e:
        log("ERROR build failed: " + str(e))
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
