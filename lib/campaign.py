"""Runs what a check consists of: models (TLC, exhaustive), replay of generated behaviours, drivers for special situations.

A check collects parts; run() builds what they need from /repo's working tree, lets TLC check the models and generate
the behaviours, executes everything on all cores, and writes evidence/<id>.json. A disagreement between the code and
the specification is reported only after a second run of the same case on a fresh server disagrees as well.
"""
import importlib
import json
import multiprocessing
import os
import random
import shutil
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

import replay
import sut
import tlc

BASE = dict(NConn=3, NTab=2, NKey=3, Hash=[1, 2, 3], BlockMax=4096, Slow=8000, MaxSize=0, ClearNum=1, ClearDen=4,
            KeepFree=256, GcEvery=50, Hold=False,
            Globals=["tick", "gc"], GlobalPct=6,
            Starts=["put", "put", "get", "get", "del", "putT", "getT", "delT"],
            AbortPct=6, Sizes=[1, 10, 4096, 4097, 16384, 70000, 0], Ttls=[0, 0, 0, 1, 2, 5], Ticks=[1, 1, 2, 3],
            PageSizes=[1, 2, 3], Outs=False, FailPct=0, Huge=2000000000, ManyKeys=0, ManySizes=[1], Pre=0, PreSize=0, Depth=40)
SMALL = dict(NConn=2, NTab=1, NKey=1, BlockMax=3, Slow=2, MaxSize=0, ClearNum=1, ClearDen=4, KeepFree=0, GcEvery=1000,
             Hash=[1], Sizes={2}, Ttls={0}, MaxUp=3, MaxNow=0, Hold=False,
             Ops={"putT", "getT", "delT", "deltT", "bulkT", "listT"}, Glob={"gc"})
MC_CFG = "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY %s\nVIEW View\nCHECK_DEADLOCK FALSE\n"
GEN_CFG = "SPECIFICATION Spec\nINVARIANT %sEmit\nCHECK_DEADLOCK FALSE\n"
# models of more than 100 000 states, with up to two uploads instead of three in the quick tier
LARGE = ("evicted while read", "time, restarts", "eviction", "accounting", "restarts", "saves take a while", "stops at any moment", "failing store", "three connections", "time")
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class Check:
    def __init__(self, pid, judged, technique_note=""):
        self.pid = pid
        self.judged = set(judged) | replay.FATAL
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = self.tier == "thorough"
        self.models = []      # (name, module, consts, cfg)
        self.wrong = []       # wrong specifications: (name, module, consts, cfg)
        self.gens = []        # replay parts
        self.drivers = []     # special jobs: (name, module, function, list of args, builds)
        self.assumptions = []
        self.refutations = []
        self.level = "model_checking"
        self.budget = 1500 if self.thorough else 400

    # -- what the check consists of
    def scale(self, quick, thorough=None):
        if self.thorough:
            return thorough if thorough is not None else quick * 12
        return max(50, quick * 9 // 20) if quick > 100 else quick

    def model(self, name, props="Stable Found Precise Frozen Once", module="MC", cfg=None, base=SMALL, defs="", **consts):
        c = dict(base)
        c.update(consts)
        if name in LARGE and not self.thorough:
            c["MaxUp"] = 2
        self.models.append((name, module, c, cfg or (MC_CFG % props), defs))

    def refuted(self, name, module, cfg, **consts):
        """A specification with a mistake, in which TLC must find one."""
        self.wrong.append((name, module, consts, cfg))

    def replay(self, name, n, kind="rel", defs="", opts=None, judged=None, inv=True, extra=0, n_thorough=None, runner="", **consts):
        c = dict(BASE)
        if (opts or {}).get("batch"):
            c["Slow"] = 1000000000      # replies are read as they come
        c.update(consts)
        self.gens.append(dict(name=name, n=self.scale(n, n_thorough), kind=kind, defs=defs, opts=opts or {}, cfg=c, inv=inv,
                              extra=extra, runner=runner, judged=sorted(set(judged) | replay.FATAL if judged else self.judged)))

    def driver(self, name, func, args, builds=(("rel", ""),)):
        """func is 'module:function', called as function(binaries, arg) and returns dict(checks=n[, bad=(kind, text)])."""
        self.drivers.append((name, func, list(args), list(builds)))

    def generated(self, name, func, gen, n, args, builds=(), per=40, n_thorough=None):
        """Behaviours of another specification: gen 'module:function' is called as gen(number, seed, **args) and returns what
        func is called with (see driver)."""
        self.gens.append(dict(name=name, n=self.scale(n, n_thorough), func=func, gen=gen, args=args, builds=list(builds), per=per))

    # -- execution
    def run(self):
        t0 = time.time()
        if os.environ.get("VERIF_PARTS"):       # only parts of that name (to look into one of them)
            part = os.environ["VERIF_PARTS"]
            self.gens = [g for g in self.gens if part in g["name"]]
            self.drivers = [d for d in self.drivers if part in d[0]]
            self.models = [m for m in self.models if part in m[0]]
            self.wrong = [m for m in self.wrong if part in m[0]]
        try:
            rc = self.run1(t0)
        except sut.CheckError as e:
            print("ERROR: %s" % e)
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 2
        sys.stdout.flush()
        # whatever is still running is of no use any more
        self.end()
        os._exit(rc)

    procs = ()

    def end(self):
        for p in self.procs:
            if p.is_alive():
                p.kill()
        me = os.getpid()
        for d in os.listdir("/proc"):
            if d.isdigit() and int(d) != me:
                try:
                    cmd = open("/proc/%s/cmdline" % d, "rb").read()
                except OSError:
                    continue
                if sut.scratch().encode() + b"/" in cmd:
                    try:
                        os.kill(int(d), 9)
                    except OSError:
                        pass
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(sut.scratch(), ignore_errors=True)

    def run1(self, t0):
        sut.scratch()
        builds = sorted({(g["kind"], g["defs"]) for g in self.gens if "gen" not in g} | {b for g in self.gens for b in g.get("builds", ())}
                        | {b for d in self.drivers for b in d[3]})
        # all threads of this step are gone before the workers are forked
        with ThreadPoolExecutor(3) as bex:
            fb = {b: bex.submit(sut.build, b[0], b[1]) for b in builds}
            bins = {b: f.result() for b, f in fb.items()}
        # generation in slices, so that several TLC processes share it
        slices = []
        for gi, g in enumerate(self.gens):
            per = g["per"] if "gen" in g else 150 if not g["extra"] else 25
            left, part = g["n"], 0
            while left > 0:
                slices.append((gi, part, min(per, left)))
                left -= per
                part += 1
        ctx = multiprocessing.get_context("fork")
        inq, outq = ctx.Queue(), ctx.Queue()
        stop = ctx.Value("i", 0)
        procs = []
        for w in range(NPROC):
            p = ctx.Process(target=worker, args=(inq, outq, stop, bins, sut.scratch()), daemon=True)
            p.start()
            procs.append(p)
        self.procs = procs
        ex = ThreadPoolExecutor(6)
        fs = [ex.submit(self.generate, gi, part, n) for gi, part, n in slices]
        total = 0
        for name, func, args, b in self.drivers:
            for i, a in enumerate(args):
                inq.put(dict(type="driver", part=name, func=func, arg=a, index=i, builds=b, judged=sorted(self.judged)))
                total += 1
        state = dict(fed=False, err=None, total=total, traces=0)

        def feed():
            try:
                for f in fs:
                    for job in f.result():
                        inq.put(job)
                        state["total"] += 1
            except Exception as e:     # noqa
                state["err"] = e
            state["fed"] = True
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        mres = []
        fm = None
        if self.models or self.wrong:
            mex = ThreadPoolExecutor(1)
            fm = mex.submit(self.run_models, mres)
        done, checks, per, samples, violation, unconfirmed, findings = 0, 0, {}, [], None, [], []
        skipped = False
        took = {}
        while True:
            if state["err"]:
                raise state["err"]
            if state["fed"] and done >= state["total"]:
                break
            if time.time() - t0 > self.budget:
                skipped = True
                break
            try:
                r = outq.get(timeout=1)
            except Exception:      # queue.Empty
                dead = [p for p in procs if not p.is_alive()]
                if dead:
                    raise sut.CheckError("a worker process ended (%s)" % dead[0].exitcode)
                continue
            done += 1
            if r.get("error"):
                raise sut.CheckError(r["error"])
            checks += r["checks"]
            took[r["part"]] = took.get(r["part"], 0) + r["s"]
            per[r["part"]] = per.get(r["part"], 0) + 1
            if r.get("unconfirmed"):
                unconfirmed.append(r["unconfirmed"])
            if len(samples) < 4 and r.get("sample") and not any(s.get("part") == r["part"] for s in samples):
                samples.append(dict(part=r["part"], case=r["sample"]))
            if r.get("finding"):
                findings.append(r["finding"])
            if r.get("bad"):
                violation = r
                break
        stop.value = 1
        for p in procs:
            p.terminate() if violation or skipped else None
        for _ in procs:
            inq.put(None)
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
        sweep(sut.scratch())
        if violation:
            ex.shutdown(wait=False, cancel_futures=True)
        elif fm:
            fm.result()
        os.makedirs(os.path.join(sut.VERIF, "evidence"), exist_ok=True)
        cov = dict(states=sum(m["distinct"] for m in mres), transitions=sum(m["states"] for m in mres),
                   traces_validated_against_impl=done, samples=samples or [dict(part="none")],
                   comparisons_with_impl=checks, per_part=per,
                   seconds_per_part={k: round(v, 1) for k, v in took.items()},
                   models=[dict(name=m["name"], distinct_states=m["distinct"], states_generated=m["states"], depth=m["depth"],
                                complete=m["complete"], wall_s=m["s"]) for m in mres],
                   wrong_specifications_refuted=[dict(name=m["name"], broken=m["broken"], steps=m["steps"]) for m in self.refutations],
                   cases_not_run=state["total"] - done, disagreements_not_repeatable=len(unconfirmed), not_repeatable=unconfirmed[:5],
                   exhaustive=False)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
        with open(os.path.join(sut.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for x in sorted(set(findings)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, x))
        if violation:
            path = os.path.join(sut.VERIF, "evidence", self.pid + ".replay.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, bad=violation["bad"], job=violation["job"]), f, indent=1)
            print("%s: %s" % tuple(violation["bad"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s: held on %d cases (%s), %d comparisons, %d states of the specification, %.0f s" % (
            self.pid, done, ", ".join("%s %d" % x for x in per.items()), checks, cov["states"], time.time() - t0))
        return 0

    def generate(self, gi, part, n):
        g = self.gens[gi]
        seed = self.seed * 1000003 + gi * 10007 + part * 101 + 17
        if "gen" in g:
            mod, fn = g["gen"].split(":")
            return [dict(type="driver", part=g["name"], func=g["func"], arg=a, builds=g["builds"], judged=sorted(self.judged))
                    for a in getattr(importlib.import_module(mod), fn)(n, seed, **g["args"])]
        traces = tlc.simulate("Gen", g["cfg"], n, g["cfg"]["Depth"], seed, cfg=GEN_CFG % ("Inv " if g["inv"] else ""), extra=g["extra"])
        out = []
        for i, t in enumerate(traces[:n]):
            rng = random.Random(seed * 7919 + i)
            o = {k: (rng.choice(v) if isinstance(v, list) and k not in ("colliding", "table_coll") else v)
                 for k, v in g["opts"].items()}
            out.append(dict(type="replay", part=g["name"], kind=g["kind"], defs=g["defs"], cfg=g["cfg"], trace=t, opts=o,
                            seed=rng.randrange(1 << 30), judged=g["judged"], runner=g["runner"]))
        return out

    def run_models(self, res):
        for name, module, consts, cfg, defs in self.models:
            t1 = time.time()
            r = tlc.check(module, consts, cfg, timeout=3000 if self.thorough else 600, workers=4, defs=defs)
            r.pop("out")
            r["name"] = name
            r["s"] = round(time.time() - t1, 1)
            res.append(r)
        for name, module, consts, cfg in self.wrong if self.thorough else []:
            self.refutations.append(dict(tlc.refute(module, consts, cfg), name=name))


def sweep(scratch):
    """End servers whose worker was stopped in the middle."""
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                exe = os.readlink("/proc/%s/exe" % d)
            except OSError:
                continue
            if exe.startswith(scratch + "/"):
                try:
                    os.kill(int(d), 9)
                except OSError:
                    pass


def execute(job, bins):
    """One case; returns (checks, None or (kind, text), sample)."""
    if job["type"] == "replay":
        b = bins[(job["kind"], job["defs"])]
        opts = dict(job["opts"])
        for k in ("colliding", "table_coll"):
            if opts.get(k):
                opts[k] = [tuple(x.encode("latin1") if isinstance(x, str) else x for x in p) for p in opts[k]]
        if job.get("runner"):
            mod, cl = job["runner"].split(":")
            r = getattr(importlib.import_module(mod), cl)(b, job["cfg"], job["trace"], replay.Options(**opts), job["seed"], set(job["judged"]))
            bad = r.run_all()
            return r.checks, (bad.kind, "%s, %s" % (job["part"], bad)) if bad else None
        r = replay.Replayer(b, job["cfg"], job["trace"], replay.Options(**opts), job["seed"], set(job["judged"]))
        m = r.run()
        return r.checks, (m.kind, "%s, %s" % (job["part"], m)) if m else None
    mod, fn = job["func"].split(":")
    f = getattr(importlib.import_module(mod), fn)
    r = f({k: bins[tuple(k)] for k in map(tuple, job["builds"])}, job["arg"], set(job["judged"]))
    return r.get("checks", 0), tuple(r["bad"]) if r.get("bad") else None


def sample(job):
    if job["type"] == "replay":
        return dict(options=job["opts"], steps=[
            " ".join(str(x) for x in (r["a"], "c%d" % r["c"] if r["c"] else "", "t%d" % r["t"] if r["t"] else "",
                                      "k%d" % r["k"] if r["k"] else "", r["n"] or "", "ttl%d" % r["ttl"] if r["ttl"] else "",
                                      "-> " + json.dumps(r["rep"]) if r["rep"]["kind"] != "none" else "") if x != "")
            for r in job["trace"][:14]])
    return json.loads(json.dumps(job["arg"], default=str)[:1500]) if len(json.dumps(job["arg"], default=str)) < 1500 else json.dumps(job["arg"], default=str)[:800]


def worker(inq, outq, stop, bins, scr):
    sut.set_scratch(scr)
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while not stop.value:
        job = inq.get()
        if job is None:
            return
        out = dict(part=job["part"], checks=0)
        t1 = time.time()
        try:
            n, bad = execute(job, bins)
            out["checks"] = n
            if bad:
                again = None
                for _ in range(4):
                    if stop.value:
                        break
                    n, again = execute(job, bins)
                    if again:
                        break
                if again:
                    out["bad"] = again
                    out["job"] = job
                else:
                    out["unconfirmed"] = "%s: %s: %s" % (job.get("part"), bad[0], str(bad[1])[:300])
            else:
                out["sample"] = sample(job)
        except sut.CheckError as e:
            out["error"] = str(e)
        except BaseException:
            out["error"] = traceback.format_exc()
        out["s"] = time.time() - t1
        outq.put(out)
