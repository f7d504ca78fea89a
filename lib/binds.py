"""Lists of spec/BindsGen.tla given to the server with -b and -B, and what it listens on then."""
import os
import random
import re
import shutil
import signal
import socket
import struct
import subprocess
import tempfile
import time

import sut
import tlc


def has6():
    try:
        with socket.socket(socket.AF_INET6) as s:
            s.bind(("::1", 0))
        return True
    except OSError:
        return False


def generate(num, seed, items=4, bad=35):
    kinds = ["v4", "v4", "unix"] + (["v6"] if has6() else [])
    out = tlc.simulate("BindsGen", dict(MaxLen=1, MaxItems=items, BadPct=bad, Kinds=kinds), num, 1, seed,
                       cfg="SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    return [dict(trace=t, seed=seed + i) for i, t in enumerate(out)]


class Texts:
    """The texts that stand for the tokens."""
    def __init__(self, rng, d, right):
        self.rng, self.d, self.n = rng, d, 0
        self.right = right      # (two numbers of five digits one after the other are not a port)

    def port(self, fam, a):
        for i in range(200):
            p = self.rng.choice([self.rng.randrange(10000, 30000), self.rng.randrange(10000, 65536), self.rng.randrange(1, 10000) if self.right else 65535, 65535, 32768])
            try:
                with socket.socket(fam) as s:
                    s.bind((a, p))
                return p
            except OSError:
                pass
        raise sut.CheckError("no free port at " + a)

    def render(self, q):
        """(text, what each item is if the list is right)"""
        rng, out, items, fam, addr = self.rng, [], [], None, None
        for i, t in enumerate(q):
            before = q[i - 1] if i else ""
            if t == "A4":
                fam, addr = socket.AF_INET, rng.choice(["127.0.0.1", "0.0.0.0"] + ["127.%d.%d.%d" % (rng.randrange(1, 255), rng.randrange(256), rng.randrange(1, 255)) for j in range(4)])
                out.append(addr)
            elif t == "A6":
                fam, addr = socket.AF_INET6, rng.choice(["::1", "::1", "::", "::ffff:127.%d.0.1" % rng.randrange(1, 255)])
                out.append(rng.choice({"::1": ["::1", "0:0:0:0:0:0:0:1", "0::1"], "::": ["::", "0::0"]}.get(addr, [addr, addr.upper()])))
            elif t == "N":
                p = self.port(fam, addr) if addr else 10001
                items.append((fam, addr, p))
                addr = None
                out.append(str(p))
            elif t == "P":
                self.n += 1
                p = os.path.join(self.d, rng.choice(["a", "m", "t", "u", "a:1", "u:", "[x]:2t", " a", "-b"]) + str(self.n))
                if rng.random() < .3:
                    p += "x" * (rng.choice([107, 106, 50, 64]) - len(p))
                items.append((socket.AF_UNIX, p, 0))
                out.append(p)
            elif t == "X":
                # nothing at all is a mistake only where something is missing then
                alone = before != "]" and (i + 1 == len(q) or q[i + 1] in (",", ":", "]"))
                was = len(out)
                if before == "u:" and i + 1 < len(q) and q[i + 1] != ",":
                    out.append("nowhere")
                elif before == "u:":
                    out.append(rng.choice(["", self.d + "/" + "y" * (108 - len(self.d)), self.d + "/" + "y" * rng.choice([120, 200, 3000])]))
                elif before == "[":
                    out.append(rng.choice(["localhost", "::1::2", "", "12345::1", "127.0.0.1", ":1", "g::1"]))
                elif before == ":":
                    out.append(rng.choice(["", "65536", "70000", "99999999999", "http", "80x", "-1", "4294967376", "0x50"]))
                else:
                    out.append(rng.choice(["localhost", "127.0.0", "256.1.1.1", "1.2.3.4.5", "", "127.0.0.1 ", "*", "127.0.0.1/8"]))
                if not alone and out[was] == "":
                    out[was] = "nowhere"
            else:
                out.append(t)
        return "".join(out), items


def listening(pid):
    """What the process listens on."""
    try:
        return listening1(pid)
    except OSError:     # it has ended
        return []


def listening1(pid):
    own = set()
    for f in os.listdir("/proc/%d/fd" % pid):
        try:
            m = re.match(r"socket:\[(\d+)\]", os.readlink("/proc/%d/fd/%s" % (pid, f)))
        except OSError:
            continue
        if m:
            own.add(m.group(1))
    res = []
    for name, fam in (("tcp", socket.AF_INET), ("tcp6", socket.AF_INET6)):
        try:
            rows = open("/proc/%d/net/%s" % (pid, name)).read().split("\n")[1:]
        except OSError:
            continue
        for r in rows:
            w = r.split()
            if len(w) > 9 and w[3] == "0A" and w[9] in own:
                a, p = w[1].split(":")
                raw = b"".join(struct.pack("=I", int(a[j:j + 8], 16)) for j in range(0, len(a), 8))
                res.append((fam, socket.inet_ntop(fam, raw), int(p, 16)))
    for r in open("/proc/%d/net/unix" % pid).read().split("\n")[1:]:
        w = r.split(None, 7)
        if len(w) > 6 and w[6] in own and int(w[3], 16) & 0x10000:
            res.append((socket.AF_UNIX, w[7] if len(w) > 7 else "", 0))
    return res


def show(ls):
    return ", ".join(sorted("%s:%s" % (a, p) if f != socket.AF_UNIX else "u:" + a for f, a, p in ls)) or "nothing"


def talk(l, data, keep=None):
    fam, a, p = l
    if fam != socket.AF_UNIX and a in ("0.0.0.0", "::"):
        a = "127.0.0.1" if fam == socket.AF_INET else "::1"
    s = socket.socket(fam)
    try:
        s.settimeout(sut.LONG)
        s.connect(a if fam == socket.AF_UNIX else (a, p))
        s.sendall(data)
        got = b""
        while b"\r\n\r\n" not in got and len(got) < 4000:
            x = s.recv(4096)
            if not x:
                break
            got += x
        return got
    except OSError as e:
        raise Wrong("%s: %s" % (show([l]), e))
    finally:
        if keep is not None:
            keep.append(s)
        else:
            s.close()


class Wrong(Exception):
    pass


def case(bins, arg, judged):
    rng = random.Random(arg["seed"])
    t = arg["trace"]
    d = tempfile.mkdtemp(prefix="b", dir=sut.scratch())
    procs = []
    try:
        return perform(next(iter(bins.values())), t, rng, d, procs)
    except Wrong as e:
        return dict(checks=1, bad=("listen", str(e)))
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(d, ignore_errors=True)


def perform(binary, t, rng, d, procs):
    for attempt in range(4):
        refused = t["wb"] == ["refused"] or t["wm"] == ["refused"]
        tx = Texts(rng, d, not refused)
        b, ib = tx.render(t["b"])
        m, im = tx.render(t["m"]) if t["m"] else ("", [])
        os.makedirs(d + "/db", exist_ok=True)
        args = [binary, rng.choice(["-b", "--bind"]), b, "-r", d + "/db/"]
        if t["m"]:
            args[1:1] = [rng.choice(["-B", "--monitor"]), m]
        what = " ".join(repr(x) for x in args[1:])[:600]
        checks = 0
        for life in range(1 if refused else 3):
            err = open(d + "/err", "wb")
            p = subprocess.Popen(args, env={"PATH": os.environ.get("PATH", ""), "ASAN_OPTIONS": "detect_leaks=0"}, stdin=subprocess.DEVNULL, stdout=err, stderr=err, cwd=d, start_new_session=True)
            err.close()
            procs.append(p)
            end = time.monotonic() + sut.LONG
            if refused:
                while p.poll() is None:
                    if time.monotonic() > end:
                        raise Wrong("%s: must be refused, but the server runs, listening on %s" % (what, show(listening(p.pid))))
                    if listening(p.pid) and time.monotonic() > end - sut.LONG + 3:
                        raise Wrong("%s: must be refused, but the server listens on %s" % (what, show(listening(p.pid))))
                    time.sleep(.002)
                if p.returncode == 0:
                    raise Wrong("%s: must be refused, but the exit status is 0" % what)
                if p.returncode < 0:
                    raise Wrong("%s: must be refused, but the server dies of signal %d" % (what, -p.returncode))
                return dict(checks=1)
            want = sorted(ib + im)
            taken = False
            while True:
                got = sorted(listening(p.pid))
                if got == want:
                    break
                if p.poll() is not None:
                    e = open(d + "/err", errors="replace").read()
                    if life == 0 and "in use" in e:
                        taken = True        # somebody else has the port meanwhile: with others
                        break
                    raise Wrong("%s, start %d: the server does not start, status %s: %s" % (what, life + 1, p.returncode, e.strip()[-300:]))
                if len(got) > len(want) or time.monotonic() > end:
                    raise Wrong("%s, start %d: listens on %s, must be %s" % (what, life + 1, show(got), show(want)))
                time.sleep(.002)
            if taken:
                break
            checks += 1
            key = b"/listen/k%d" % life
            keep = []       # connections that the server closes, so that its side keeps the address for a while
            for l in ib:
                r = talk(l, b"PUT %s HTTP/1.1\r\nContent-Length: 2\r\n\r\nok" % key, rng.choice([None, keep]))
                if not r.startswith(b"HTTP/1.1 200"):
                    raise Wrong("%s: an upload at %s is answered %r" % (what, show([l]), r[:60]))
                if l[0] == socket.AF_UNIX and os.stat(l[1]).st_mode & 0o777 != 0o777:
                    raise Wrong("%s: the mode of %s is %o: others can not connect" % (what, l[1], os.stat(l[1]).st_mode & 0o777))
                checks += 1
            for l in im:
                r = talk(l, b"PUT %s HTTP/1.1\r\nContent-Length: 2\r\n\r\nok" % key)
                if r.startswith(b"HTTP/1.1 200"):
                    raise Wrong("%s: the monitoring listener %s takes an upload" % (what, show([l])))
                r = talk(l, b"GET /conn HTTP/1.1\r\n\r\n", rng.choice([None, keep]))
                if not r.startswith(b"HTTP/1.1 200"):
                    raise Wrong("%s: a monitoring request at %s is answered %r" % (what, show([l]), r[:60]))
                checks += 1
            # any end, and a start at once
            if rng.random() < .5:
                p.kill()
                p.wait()
            else:
                p.send_signal(signal.SIGTERM)
                try:
                    if p.wait(sut.LONG) != 0:
                        raise Wrong("%s: exit status %d at SIGTERM" % (what, p.returncode))
                except subprocess.TimeoutExpired:
                    raise Wrong("%s: does not stop" % what)
            for x in keep:
                x.close()
        else:
            return dict(checks=checks)
    return dict(checks=0, skipped="no free ports")
