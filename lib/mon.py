"""Behaviours of spec/Mon.tla (the monitoring port) performed on the server."""
import os
import random
import signal
import time

import sut
import tlc
from sut import Closed, ServerDied, Stall


class Bad(Exception):
    pass


ASKS = dict(conn=[b"GET /conn HTTP/1.1", b"GET /conn HTTP/1.0", b"HEAD /conn HTTP/1.1", b"GET /conn x"], root=[b"GET / HTTP/1.1", b"GET / "], head=[b"HEAD / HTTP/1.1"],
            bad=[b"POST / HTTP/1.1", b"GETTER /conn HTTP/1.1", b"GET conn HTTP/1.1", b"PUT /a/b HTTP/1.1", b"get /conn HTTP/1.1", b"LONGMETHODNAME /conn HTTP/1.1", b" /conn HTTP/1.1",
                 b"GET conn", b"DELETE /conn HTTP/1.1"])
ASKS["404"] = [b"GET /x HTTP/1.1", b"GET /con HTTP/1.1", b"GET /conn2 HTTP/1.1", b"GET /conn/ HTTP/1.1", b"GET //conn HTTP/1.1", b"GET /Conn HTTP/1.1", b"GET /" + b"u" * 700 + b" HTTP/1.1"]
NOISE = [b"x", b"\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"GET /conn HTTP/1.1\r\n\r\n", b"q\n", b"POST / HTTP/1.1\r\n\r\n", b"\0\xff" * 50]


def generate(num, seed, conns=3, depth=50, kind="rel", defs="", tick=35, cache=10, leave=12, conn=55, block=60, ticks=(4, 8, 12, 16, 20, 20, 20, 20, 1, 2, 40, 19, 21), **opts):
    consts = dict(NStr=conns, Period=20, TickPct=tick, CachePct=cache, LeavePct=leave, ConnPct=conn, BlockPct=block, TickSizes=list(ticks), Depth=depth)
    traces = tlc.simulate("MonGen", consts, num, depth, seed, cfg="SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    rng = random.Random(seed)
    o = lambda: {k: rng.choice(v) if isinstance(v, (list, tuple)) else v for k, v in opts.items()}      # noqa
    return [dict(trace=t, seed=seed * 31 + i, kind=kind, defs=defs, opts=o()) for i, t in enumerate(traces)]


class Player:
    def __init__(self, binary, arg, judged):
        self.binary, self.arg, self.judged = binary, arg, judged
        self.rng = random.Random(arg["seed"])
        self.opts = arg["opts"]
        self.checks = 0
        self.at = ""

    def fail(self, kind, text):
        if kind in self.judged:
            raise Bad(kind, text)

    def run(self):
        srv = self.srv = sut.Server(self.binary, mon=True, sndbuf=0, listeners=self.opts.get("listeners", ""), leaks=self.arg["kind"].endswith("asan"))
        try:
            try:
                srv.start()
                self.time(0)
                srv.barrier()
                srv.barrier()
                self.base = len(self.fds())
                self.conns, self.fd, self.part = {}, {}, {}
                for n in ("wcap", "eagain"):
                    srv.shm[n] = self.opts.get(n, 0)
                for i, r in enumerate(self.arg["trace"]):
                    self.at = "step %d (%s %s)" % (i, r["a"], r["c"] or "")
                    self.one(i, r)
                self.at = "at the end"
                sut.released(self)
                return None
            except ServerDied as e:
                self.fail("died", str(e))
            except Stall as e:
                self.fail("stall", str(e))
            except Closed as e:
                time.sleep(.2)
                if not srv.alive():
                    self.fail("died", srv.death())
                self.fail("closed", str(e))
            return None
        except Bad as e:
            return (e.args[0], "%s: %s" % (self.at, e.args[1]))
        finally:
            srv.close()

    def fds(self):
        return {int(f) for f in os.listdir("/proc/%d/fd" % self.srv.p.pid)}

    def time(self, q):
        u = q * 250000 + 137
        self.srv.set_time(sut.T0 + u // 1000000, u % 1000000)

    def settle(self):
        """The timer has run at the present time, and what it set off has been done."""
        shm = self.srv.shm
        n, t = shm["tod_calls"], time.monotonic() + sut.LONG
        while shm["tod_calls"] < n + 2:
            if time.monotonic() > t:
                self.srv.check_alive()
                raise Stall("server does not read the clock")
            time.sleep(.0005)
        for _ in range(3):
            self.srv.barrier()

    def send(self, x, data, wait=True):
        if wait and len(data) > 1 and self.rng.random() < .5:
            k = self.rng.randrange(1, len(data))
            x.send(data[:k])
            x.taken()
            data = data[k:]
        x.send(data)
        if wait:
            x.taken()

    def request(self, kind):
        R = self.rng
        e = R.choice([b"\r\n", b"\r\n", b"\n"])
        h = b"".join(R.choice([b"Host: a", b"X: y:z", b"Accept: */*"]) + e for _ in range(R.choice([0, 0, 1, 3])))
        return R.choice(ASKS[kind]) + e + h + e

    def one(self, i, r):
        srv, a, c = self.srv, r["a"], r["c"]
        if a == "stop":
            self.stop(r)
            return
        if a == "tick":
            self.time(r["now"])
        elif a == "put":
            st = srv.ctl.request(sut.put(b"t", b"k", b"v%d" % r["n"]))[0]
            if st != 200:
                self.fail("cache", "PUT answered %d" % st)
        elif a == "get":
            st, hd, body = srv.ctl.request(sut.get(b"t", b"k"))
            want = (200, b"v%d" % r["val"]) if r["val"] else (404, b"Key not Found\r\n")
            self.checks += 1
            if (st, body) != want:
                self.fail("cache", "GET answered %d %r, must be %r" % (st, body, want))
        elif a == "open":
            old = self.fds()
            self.conns[c] = sut.Conn(srv, mon=True)
            t = time.monotonic() + 10
            while len(self.fds() - old) != 1:
                if time.monotonic() > t:
                    raise Stall("a connection is not accepted")
                time.sleep(.0005)
            self.fd[c] = (self.fds() - old).pop()
            srv.barrier()
        elif a == "part":
            nxt = next((x for x in self.arg["trace"][i + 1:] if x["c"] == c and x["a"] in ("ask", "leave")), None)
            whole = self.request(nxt["k"] if nxt and nxt["a"] == "ask" else "conn")
            if nxt and nxt["a"] == "ask" and nxt["k"] == "bad":        # may be refused before it is complete
                whole = b"\r\n" + whole
                k = self.rng.randint(1, 3)
            else:
                k = self.rng.randrange(1, len(whole))
            self.part[c] = whole[k:]
            self.send(self.conns[c], whole[:k])
        elif a == "ask":
            x = self.conns[c]
            blocked = srv.shm["block"] >> self.fd[c] & 1
            p = self.part.pop(c, None)
            self.send(x, p if p is not None else self.request(r["k"]), wait=r["k"] != "bad" and not blocked)
        elif a == "noise":
            x = self.conns[c]
            blocked = srv.shm["block"] >> self.fd[c] & 1
            x.send(self.rng.choice(NOISE) if blocked or self.rng.random() < .7 else b"n" * 40000)
            if not blocked:
                x.taken()
        elif a == "leave":
            srv.shm["block"] &= ~(1 << self.fd[c])
            self.part.pop(c, None)
            self.conns.pop(c).close()
        elif a == "block":
            srv.shm["block"] |= 1 << self.fd[c]
        elif a == "unblock":
            srv.shm["block"] &= ~(1 << self.fd[c])
        self.settle()
        for o in r["out"]:
            self.got(o)
        if not any(o["kind"] == "cut" for o in r["out"]):
            for d, x in self.conns.items():
                if not x.quiet():
                    self.fail("extra" if x.buf else "closed", "connection %d: %r (end of stream: %s), nothing is due" % (d, x.buf[:80], x.eof))
        # descriptors: nothing stays of those that are gone
        t = time.monotonic() + 5
        while len(self.fds()) != self.base + r["open"] and time.monotonic() < t:
            time.sleep(.002)
        self.checks += 1
        if len(self.fds()) != self.base + r["open"]:
            self.fail("fds", "%d open descriptors, must be %d" % (len(self.fds()), self.base + r["open"]))

    def got(self, o):
        x, kind = self.conns[o["c"]], o["kind"]
        self.checks += 1
        if kind == "cut":
            b = x.read_to_eof(5)
            if b:
                self.fail("extra", "connection %d: %r before the end" % (o["c"], b[:60]))
            self.end(o["c"])
            return
        if kind == "num":
            want = b"%d\n" % o["n"]
            if not x.wait_bytes(len(want), 5) or x.buf[:len(want)] != want:
                self.fail("num", "stream %d: %r, must be %r" % (o["c"], x.buf[:60], want))
            x.buf = x.buf[len(want):]
            return
        st, hd = x.read_head(5)
        want = {"stream": 200, "root": 200, "head": 200, "404": 404, "bad": 400}[kind]
        if st != want:
            self.fail("mon", "connection %d: answered %d, must be %d (%s)" % (o["c"], st, want, kind))
        if kind == "stream":
            if hd.get("content-type") != "text/x-streaming" or hd.get("x-hostname") != os.uname().nodename or hd.get("connection") != "Close" or "content-length" in hd:
                self.fail("mon", "header of stream %d: %r" % (o["c"], hd))
            return
        if (hd.get("connection") == "Keep-Alive") != (kind != "bad"):
            self.fail("mon", "connection %d: header %r in the answer %s" % (o["c"], hd, kind))
        if kind != "head":
            n = int(hd.get("content-length", "-1"))
            if n < 0 or not x.wait_bytes(n, 5):
                raise Closed("connection closed in the body")
            body, x.buf = x.buf[:n], x.buf[n:]
            if kind == "root" and body != b"OK\r\n":
                self.fail("mon", "GET / answered %r" % body)
        if kind == "bad":
            if x.read_to_eof(5):
                self.fail("extra", "more behind an answer that ends the connection")
            self.end(o["c"])

    def end(self, c):
        self.srv.shm["block"] &= ~(1 << self.fd[c])
        self.part.pop(c, None)
        self.conns.pop(c).close()

    def stop(self, r):
        srv = self.srv
        srv.shm["wcap"] = srv.shm["eagain"] = 0
        srv.p.send_signal(self.rng.choice([signal.SIGTERM, signal.SIGINT]))
        rc = srv.wait_exit()
        if rc != 0:
            self.fail("exit" if rc > 0 else "died", srv.death() if rc < 0 else "exit status %d" % rc)
        for o in r["out"]:
            x = self.conns[o["c"]]
            self.checks += 1
            x.pull()
            want = b"q\n" if o["kind"] == "q" else b""
            if not x.eof or x.buf != want:
                self.fail("q", "stream %d ends with %r (end of stream: %s), must be %r" % (o["c"], x.buf[:60], x.eof, want))


def case(bins, arg, judged):
    p = Player(bins[(arg["kind"], arg["defs"])], arg, judged)
    bad = p.run()
    return dict(checks=p.checks, bad=bad) if bad else dict(checks=p.checks)
