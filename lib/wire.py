"""Behaviours of spec/Http.tla (any bytes on any connection) performed on the server."""
import random
import time

import sut
import tlc
from sut import Closed, ServerDied, Stall


class Bad(Exception):
    pass


def tok(*ws):
    return [list(w) for w in ws]


LENGTHS = [b"Content-Length: 5\r\n", b"Content-Length:3\r\n", b"Content-Length: 12\n", b"Content-Length: 1\r\n", b"Content-Length: 40\r\n"]
HEADERS = [b"Content-Length: 5\r\n", b"\r\n", b"\r\n", b"\r\n", b"\r\n", b"\r\n", b"\r\n", b"\r\n", b"\r\n", b"\n",
           b"X-Ttl: 2\r\n", b"x-ttl:1\n", b"X-Limit: 1\r\n", b"X-Start: 1\r\n", b"x-limit: 0\r\n", b"x-start:7\r\n", b"X-Delete: k\r\n", b"x-delete:l\n", b"X-Delete:  m\r\n", b"Host: x:y\r\n",
           b"Accept */*\r\n", b"Content-length: 4\r\n", b"X-TTL: 9\r\n"]
ODD = [b"Content-Length: 0\r\n", b"Content-Length: 00\r\n", b"Content-Length: 5000\r\n", b"Content-Length: -1\r\n", b"Content-Length: 5x\r\n", b"Content-Length: 99999999999\r\n", b"Content-Length:\r\n", b"Content-Length: 2147483648\r\n",
       b"X-Ttl: a\r\n", b"X-Ttl:\r\n", b"X-Ttl: 99999999999999999999\r\n", b"X-Limit: -1\r\n", b"X-Start: 1 \r\n", b"X-Delete:\r\n", b":\r\n", b"::\n", b" \r\n", b"\r", b" :\r\n", b"\r\r\n",
       b"Content-Length : 5\r\n", b" Content-Length: 5\r\n", b"X-Delete : k\r\n", b"\0\r\n", b"\xff\xfe: \x80\r\n"]
METHODS = [b"PUT "] * 5 + [b"GET "] * 4 + [b"GET ", b"GET ", b"GET ", b"PUT ", b"PUT ", b"PUT ", b"PUT ", b"PUT ", b"HEAD ", b"DELETE ", b"BULK ", b"PURGE ", b"DELETE ", b"\r\nGET ", b"\nPUT ", b"\r\n"]
URLS = [b"/t/"] * 8 + [b"/t/", b"/t/", b"/t/", b"/t/", b"/u/", b"/t ", b"/u ", b"/ ", b"//", b"/t"]
KEYS = [b"k "] * 7 + [b"k ", b"k ", b"l ", b"l ", b"m ", b"a/b ", b" ", b"k"]
VERSIONS = [b"HTTP/1.1\r\n", b"HTTP/1.1\r\n", b"HTTP/1.0\r\n", b"HTTP/1.1\n", b"\n", b"\r\n", b" HTTP/1.1 x:y\r\n"]
ANY = [b"ADMIN /gc ", b"ADMIN /x ", b"POST ", b"OPTIONS ", b"get ", b"GETX ", b"G ", b" ", b"\r\n", b"\n\n", b"\r\n\r\n", b"/", b":", b"0", b"\0", b"\xff" * 3, b"k\r\n", b"HTTP/1.1\r\n",
       b"DELETE /t HTTP/1.1\r\n\r\n", b"GET /t/k HTTP/1.1\r\n\r\n", b"PUT /t/k HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", b"VERYLONGMETHOD ", b"BULK /t/k ", b"GET t/k ", b"HEAD /t ", b"PUT /t "]


def generate(num, seed, buffer=16384, conns=2, depth=100, odd=6, mut=4, abort=4, tick=2, long=False, kind="rel", defs="", frag="mix", sndbuf=0, gc=50):
    anyt = ANY + ODD
    if long:
        anyt = anyt + [b"n" * (buffer + 40), b"H: " + b"h" * (buffer + 40), b"/" + b"u" * (buffer // 2), b"h" * (buffer - 30), b"PUT /t/" + b"k" * (buffer + 9), b"X-Ttl: " + b"1" * (buffer + 9),
                       b"X-Delete: " + b"d" * (buffer + 9), b" " * (buffer + 3)]
    consts = dict(NConn=conns, NTab=14, NKey=24, Hash=list(range(1, 25)), BlockMax=4096, Slow=1000000000, MaxSize=0, ClearNum=1, ClearDen=4, KeepFree=256, GcEvery=gc, Hold=False,
                  B=buffer, TokMethod=tok(*METHODS), TokUrl=tok(*URLS), TokKey=tok(*KEYS), TokVersion=tok(*VERSIONS), TokHeader=tok(*HEADERS), TokLength=tok(*LENGTHS), TokAny=tok(*anyt),
                  OddPct=odd, MutPct=mut, AbortPct=abort, TickPct=tick, Depth=depth)
    traces = tlc.simulate("HttpGen", consts, num, depth, seed, cfg="SPECIFICATION GSpec\nINVARIANT Inv Emit\nCHECK_DEADLOCK FALSE\n")
    return [dict(trace=t, seed=seed * 31 + i, kind=kind, defs=defs, frag=frag, sndbuf=sndbuf) for i, t in enumerate(traces)]


def merged(trace, rng):
    """Some of what one connection sends in a row is sent at once."""
    out = []
    for r in trace:
        r = dict(r)
        last = out[-1] if out else None
        if last and r["a"] == "feed" and last["a"] == "feed" and last["c"] == r["c"] and last["ph"] != "dead" and rng.random() < .45:
            last["w"] = last["w"] + r["w"]
            last["out"] = last["out"] + r["out"]
            for k in ("ph", "st", "idle"):
                last[k] = r[k]
        else:
            out.append(r)
    return out


class Player:
    def __init__(self, binary, arg, judged):
        self.binary, self.arg, self.judged = binary, arg, judged
        self.rng = random.Random(arg["seed"])
        self.checks = 0
        self.conns = {}
        self.at = ""

    def fail(self, kind, text):
        if kind in self.judged:
            raise Bad(kind, text)

    def run(self):
        a = self.arg
        srv = self.srv = sut.Server(self.binary, sndbuf=a["sndbuf"], leaks=a["kind"].endswith("asan"))
        try:
            try:
                srv.start()
                srv.barrier()
                self.fds = srv.fds()
                now = 0
                self.sent = {}
                steps = merged(a["trace"], self.rng)
                for i, r in enumerate(steps):
                    c = r["c"]
                    self.at = "step %d" % i
                    if r["a"] == "tick":
                        now += r["n"]
                        srv.set_time(sut.T0 + now)
                    elif r["a"] == "feed":
                        self.feed(r)
                    else:
                        x = self.conns.pop(c)
                        if r["a"] == "half":
                            x.half_close()
                            rest = x.read_to_eof()
                            if rest:
                                self.fail("extra", "%r after the client ended its stream%s" % (rest[:80], self.history(c)))
                        x.close()
                    self.after(r)
                self.at = "at the end"
                sut.released(self)
                return None
            except ServerDied as e:
                self.fail("died", "%s%s" % (e, self.history(c)))
            except Stall as e:
                self.fail("stall", "%s%s" % (e, self.history(c)))
            except Closed as e:
                time.sleep(.2)
                if not srv.alive():
                    self.fail("died", srv.death() + self.history(c))
                self.fail("closed", "%s%s" % (e, self.history(c)))
            return None
        except Bad as e:
            return (e.args[0], "%s, %s" % (self.at, e.args[1]))
        finally:
            srv.close()

    def history(self, c):
        return "; connection %s had sent %r" % (c, bytes(self.sent.get(c, b""))[-300:])

    def pieces(self, data):
        mode = self.arg["frag"]
        if mode == "mix":
            mode = self.rng.choice(["whole", "whole", "cut", "bytes"])
        if mode == "whole" or len(data) < 2:
            return [data]
        if mode == "bytes" and len(data) < 120:
            return [data[i:i + 1] for i in range(len(data))]
        pts = sorted(self.rng.sample(range(1, len(data)), min(len(data) - 1, self.rng.randint(1, 4))))
        return [data[i:j] for i, j in zip([0] + pts, pts + [len(data)])]

    def feed(self, r):
        c = r["c"]
        data = bytes(r["w"])
        if r["new"]:
            self.conns[c] = self.srv.connect()
            self.sent[c] = b""
        self.sent[c] = self.sent.get(c, b"") + data
        x = self.conns[c]
        dead = r["ph"] == "dead"
        try:
            for p in self.pieces(data):
                x.send(p)
                if self.rng.random() < .6:
                    x.taken()
        except Closed:
            if not dead:
                raise
        if not dead:
            x.taken()
            self.srv.barrier()
        for o in r["out"]:
            self.reply(x, o, c)
        if dead:
            rest = x.read_to_eof()
            if rest:
                self.fail("extra", "%r behind the last answer%s" % (rest[:80], self.history(c)))
            self.conns.pop(c)
            x.close()
            self.srv.barrier()
        elif not x.quiet():
            self.fail("extra" if x.buf else "closed", "%r (end of stream: %s), nothing is due%s" % (x.buf[:80], x.eof, self.history(c)))

    def reply(self, x, o, c):
        kind = o["kind"]
        self.checks += 1
        if kind == "cut":
            return
        try:
            st, hd = x.read_head(timeout=5)
        except Stall:
            raise Stall("no answer, must be %s" % kind)
        want = {"val": 200, "head": 200, "ok": 200, "deleted": 200, "bulk": 200, "list": 200, "stats": 200, "404": 404, "400": 400}[kind]
        if st != want:
            self.fail("http", "answered %d, must be %s%s" % (st, kind, self.history(c)))
            raise Closed("answers can not be followed any more")
        closes = kind in ("400", "list")
        if hd.get("connection", "").lower() != ("close" if closes else "keep-alive"):
            self.fail("conn", "Connection: %s in the answer %s" % (hd.get("connection"), kind))
        if kind == "head" or kind == "val":
            if hd.get("content-length") != str(o["n"]) or hd.get("x-ttl") != str(o["ttl"]):
                self.fail("http", "answered length %s, ttl %s, must be %d, %d%s" % (hd.get("content-length"), hd.get("x-ttl"), o["n"], o["ttl"], self.history(c)))
        if kind == "head":
            return
        if kind == "list":
            got = x.read_to_eof().split(b"\r\n")[:-1]
            names = [bytes(w) for w in o["all"]]
            if len(got) != o["n"] or len(set(got)) != len(got) or not set(got) <= set(names):
                self.fail("list", "listed %r, must be %d of %r%s" % (got, o["n"], names, self.history(c)))
            return
        body = b""
        if "content-length" in hd:
            n = int(hd["content-length"])
            if not x.wait_bytes(n):
                raise Closed("connection closed in the body")
            body, x.buf = x.buf[:n], x.buf[n:]
        if kind == "val" and body != bytes(o["v"]):
            self.fail("http", "value %r, must be %r%s" % (body[:80], bytes(o["v"])[:80], self.history(c)))
        if kind in ("ok", "deleted", "bulk", "404") and body != {"ok": b"OK\r\n", "deleted": b"DELETED\r\n", "bulk": b"BULK OK\r\n", "404": b"Key not Found\r\n"}[kind]:
            self.fail("http", "answered %r, must be %s%s" % (body[:60], kind, self.history(c)))

    def after(self, r):
        st = self.srv.stats()
        for k, name in (("keys", "keys"), ("tables", "tables"), ("bytes", "bytes"), ("bused", "bused"), ("ins", "inserts"), ("dels", "deletes"), ("gets", "gets")):
            self.checks += 1
            if st[name] != r["st"][k]:
                self.fail(k, "%s is %d, must be %d%s" % (name, st[name], r["st"][k], self.history(r["c"])))
        if r["idle"]:
            self.srv.wait_flush()
            n = self.srv.fds()
            t = time.monotonic() + 5
            while n != self.fds and time.monotonic() < t:
                time.sleep(.002)
                n = self.srv.fds()
            self.checks += 1
            if n != self.fds:
                self.fail("fds", "%d open descriptors with no connection, must be %d%s" % (n, self.fds, self.history(r["c"])))


def case(bins, arg, judged):
    p = Player(bins[(arg["kind"], arg["defs"])], arg, judged)
    bad = p.run()
    return dict(checks=p.checks, bad=bad) if bad else dict(checks=p.checks)


def model(conns=1, tokens=11, odd=1, buffer=24):
    """Constants of MCHttp."""
    s = lambda *ws: set(tuple(w) for w in ws)      # noqa
    return dict(NConn=conns, NTab=3, NKey=4, Hash=[1, 2, 3, 4], BlockMax=4096, Slow=1000000000, MaxSize=0, ClearNum=1, ClearDen=4, KeepFree=256, GcEvery=1000, Hold=False,
                B=buffer, TMethod=s(b"PUT ", b"GET ", b"DELETE ", b"BULK "), TUrl=s(b"/t/", b"/t "), TKey=s(b"k "), TVersion=s(b"\n"),
                THeader=s(b"Content-Length: 2\n", b"\n", b"X-Delete: k\n"),
                TBody={((97, 98), (10, 10)), ((32, 58), (120, 121))},
                TOdd=s(b"PUT /t/k \nContent-Length:1\n\n", b"\r\n", b"Content-Length: 1x\n", b"::\n", b"ADMIN /gc ", b"x" * (buffer + 1), b"VERYLONG \n"),
                MaxTok=tokens, MaxOdd=odd)


MODEL_CFG = "SPECIFICATION Spec\nINVARIANT Inv OneByOne\nCHECK_DEADLOCK FALSE\n"
