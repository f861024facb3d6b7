"""Case runner of the Python monitors; same command line and output as main.cpp."""
import hashlib, json, os, sys, time, traceback


class Ctx:
    def __init__(self, seed, cid, thorough, verbose):
        self.seed, self.id, self.thorough, self.verbose = seed, cid, thorough, verbose
        self.cnt, self.viol, self.sig, self.sample, self.nontrivial = {}, [], hashlib.sha256(), "", False

    def add(self, k, v=1):
        self.cnt[k] = self.cnt.get(k, 0) + v

    def mx(self, k, v):
        k = "max_" + k
        self.cnt[k] = max(self.cnt.get(k, v), v)

    def mark(self, b):
        self.nontrivial = True
        self.sig.update(b if isinstance(b, bytes) else repr(b).encode())

    def fail(self, key, msg):
        if len(self.viol) < 4:
            self.viol.append((key, msg))


def main(scenarios, rule):
    a, o = sys.argv[1:], dict(seed=1, start=0, step=1, case=-1, time=1e9, cpu=20, scale=1.0, thorough=False, verbose=False, out="/dev/stdout", scenario="")
    i = 0
    while i < len(a):
        k = a[i].lstrip("-")
        if k in ("thorough", "verbose"):
            o[k] = True
        else:
            i += 1
            o[k] = type(o[k])(float(a[i])) if isinstance(o[k], (int, float)) and not isinstance(o[k], bool) else a[i]
        i += 1
    import mimprobe as P
    f = os.fdopen(os.dup(1), "w") if o["out"] == "/dev/stdout" else open(o["out"], "w")
    if o["out"] == "/dev/stdout":   # what the solvers print is not part of the report
        os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    P.arm(f.fileno())
    t0, tot, nscen, evals, nontriv, nviol, timeup, sigs = time.time(), {}, {}, 0, 0, 0, 0, []
    for name, fn, quick, thorough in scenarios:
        if o["scenario"] and o["scenario"] != name:
            continue
        n = int((thorough if o["thorough"] else quick) * o["scale"] + .5)
        for cid in [o["case"]] if o["case"] >= 0 else range(o["start"], n, o["step"]):
            if time.time() - t0 > o["time"]:
                timeup = 1
                break
            c = Ctx(P.mix(P.mix(o["seed"], int.from_bytes(hashlib.sha256(name.encode()).digest()[:6], "big")), cid), cid, o["thorough"], o["verbose"])
            P.begin("%s %d" % (name, cid), o["cpu"])
            try:
                fn(c)
            except Exception:
                c.fail("uncaught", "exception escaped: " + traceback.format_exc()[-1500:])
            P.begin("", 0)
            evals += 1
            nscen[name] = nscen.get(name, 0) + 1
            for k, v in c.cnt.items():
                tot[k] = max(tot.get(k, v), v) if k.startswith("max_") else tot.get(k, 0) + v
            if c.nontrivial:
                nontriv += 1
                sigs.append(c.sig.hexdigest()[:16])
            if c.sample and (nscen[name] <= 1 or o["case"] >= 0):
                f.write("SAMPLE " + json.dumps(dict(case="%s %d" % (name, cid), what=c.sample)) + "\n")
            for k, m in c.viol:
                nviol += 1
                f.write("VIOL " + json.dumps(dict(scenario=name, id=cid, key=k, msg=m)) + "\n")
            f.flush()
            if nviol > 20:
                break
        if nviol > 20 or timeup:
            break
    for s in sigs:
        f.write("SIG %s\n" % s)
    f.write("END " + json.dumps(dict(evaluations=evals, nontrivial=nontriv, timeup=timeup, rule=rule, counters=tot, scenarios=nscen)) + "\n")
    f.flush()
    os._exit(1 if nviol else 0)
