"""Run TLC on the specifications in /verif/spec with constants given here."""
import json
import os
import re
import shutil
import subprocess
import tempfile

import sut

SPEC = os.path.join(sut.VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int,)):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<%s>>" % ", ".join(tla(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(tla(x) for x in sorted(v, key=str))
    if isinstance(v, dict):
        return "[%s]" % ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items())
    raise TypeError(v)


def workdir():
    return tempfile.mkdtemp(prefix="tlc-", dir=sut.scratch())


def prepare(module, consts, cfg, defs=""):
    """A directory with a module M that extends `module` and fixes its constants."""
    d = workdir()
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "M.tla"), "w") as f:
        f.write("---- MODULE M ----\nEXTENDS %s\n" % module)
        for k, v in consts.items():
            f.write("c_%s == %s\n" % (k, tla(v)))
        f.write(defs + "\n====\n")
    with open(os.path.join(d, "M.cfg"), "w") as f:
        if consts:
            f.write("CONSTANTS\n")
            for k in consts:
                f.write(" %s <- c_%s\n" % (k, k))
        f.write(cfg)
    return d


def run(d, args, timeout, heap="4g"):
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-cp", JAR, "tlc2.TLC", "-config", "M.cfg",
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"] + args + ["M.tla"]
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return None, out.decode("utf8", "replace") if isinstance(out, bytes) else out
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)


def simulate(module, consts, num, depth, seed, cfg="SPECIFICATION Spec\nINVARIANT Inv Emit\nCHECK_DEADLOCK FALSE\n",
             timeout=600, tag="TRACE ", extra=0):
    """Random behaviours; returns [list of step records]."""
    d = prepare(module, consts, cfg)
    rc, out = run(d, ["-simulate", "num=%d" % num, "-depth", str(depth + 2 + extra), "-seed", str(seed), "-workers", "1"], timeout)
    traces = []
    for m in re.finditer(r'"%s((?:[^"\\]|\\.)*)"' % tag, out):
        traces.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if rc != 0 or not traces:
        at = out.find("Error:")
        raise sut.CheckError("TLC simulation failed (%s): %s" % (rc, out[at:at + 2500] if at >= 0 else out[-2500:]))
    shutil.rmtree(d, ignore_errors=True)
    return traces


def check(module, consts, cfg, timeout=800, workers=8, heap="12g", extra=(), defs=""):
    """Exhaustive check; returns dict(states, distinct, depth). Raises CheckError if the model violates anything."""
    d = prepare(module, consts, cfg, defs)
    rc, out = run(d, ["-workers", str(workers)] + list(extra), timeout, heap)
    if rc is None:
        raise sut.CheckError("TLC did not finish in %ss: %s" % (timeout, out[-500:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if rc != 0 or not m:
        raise sut.CheckError("the specification violates its own properties, or does not run: " + out[max(0, out.find("Error:")):][:4000])
    dep = re.search(r"depth of the complete state graph search is (\d+)", out)
    shutil.rmtree(d, ignore_errors=True)
    return dict(states=int(m.group(1)), distinct=int(m.group(2)), depth=int(dep.group(1)) if dep else 0,
                complete=int(m.group(3)) == 0, out=out)


def refute(module, consts, cfg, timeout=600, workers=4, heap="4g"):
    """A wrong specification: TLC must find what it breaks. Returns dict(states, broken, steps)."""
    d = prepare(module, consts, cfg)
    rc, out = run(d, ["-workers", str(workers)], timeout, heap)
    m = re.search(r"(?:Invariant|property) (\S+) is violated", out)
    if not m:
        raise sut.CheckError("TLC finds nothing wrong in a wrong specification (%s): %s" % (rc, out[-1500:]))
    n = re.search(r"(\d+) states generated", out)
    shutil.rmtree(d, ignore_errors=True)
    return dict(broken=m.group(1), states=int(n.group(1)) if n else 0, steps=len(re.findall(r"(?m)^State \d+:", out)))
