"""Replay behaviours generated from the specification (spec/Gen.tla) into the real server.

Every step is performed on the running server, and what the server answers, what it reports about itself and what it
keeps on disk is compared with what the specification says for that step. Nothing in here decides what is right.
"""
import json
import os
import copy
import random
import time

import sut
from sut import Closed, ServerDied, Stall, value

FAKE = 0x8000000   # identity of the content of uploads the server must not store


class Mismatch(Exception):
    def __init__(self, kind, step, text):
        self.kind, self.step, self.text = kind, step, text
        Exception.__init__(self, "%s at step %s: %s" % (kind, step, text))


# kinds of observations; a check names the ones its property is about
REPLIES = {"status", "value", "ttl", "deleted", "bulk", "ack", "bad", "stats"}
COUNTERS = {"keys", "bytes", "gets", "ins", "dels", "tables", "bused"}
DISK = {"files", "fbytes", "fds"}
SAVES = {"children", "pid", "eof", "q"}
FATAL = {"died", "stall", "closed", "extra", "exit", "conn", "crash"}
ALL = REPLIES | COUNTERS | DISK | FATAL | SAVES | {"list", "failed"}

COUNTER_OF = {"ins": "inserts", "dels": "deletes"}


def names(rng, style, nt, nk, colliding=None, table_coll=None):
    """Table and key names of one behaviour. colliding: pairs of keys; keys 3 and 4 then take one such pair."""
    t, k = [], []
    if style == "plain":
        t = [b"t%d" % (i + 1) for i in range(nt)]
        k = [b"k%d" % (i + 1) for i in range(nk)]
    elif style == "short":
        t = [b"%c" % (97 + i) for i in range(nt)]
        k = [b"%c" % (65 + i) for i in range(nk)]
    elif style == "prefix":
        t = [b"table"[:i + 1] if i < 5 else b"table%d" % i for i in range(nt)]
        k = [(b"k" * (i + 1)) if i < 8 else b"k%d" % i for i in range(nk)]
    elif style == "long":
        n = rng.choice([100, 255, 256, 900, 2000])
        t = [b"T" * (n // 2) + b"%d" % i for i in range(nt)]
        k = [b"K" * n + b"%d" % i for i in range(nk)]
    elif style == "odd":
        alphabet = [bytes([c]) for c in range(256) if c not in (10, 13, 32, 47)]
        while len(t) < nt:
            x = b"".join(rng.choice(alphabet) for _ in range(rng.randint(1, 6)))
            if x not in t:
                t.append(x)
        pool = [b"a/b", b"a", b"a/b/c", b"../x", b"%20", b"?q=1", b"X-Ttl:5", b"Content-Length:", b"t:1", b"e:1:2:3:4:x", b"\t", b"/", b".."]
        rng.shuffle(pool)
        while len(k) < nk:
            x = pool.pop() if pool and rng.random() < 0.6 else \
                b"".join(rng.choice(alphabet) for _ in range(rng.randint(1, 6)))
            if x not in k:
                k.append(x)
    elif style == "mix":
        return names(rng, rng.choice(["plain", "prefix", "long", "odd"]), nt, nk, colliding, table_coll)
    if colliding:
        p = rng.choice(colliding)
        k[2], k[3] = p if rng.random() < .5 else (p[1], p[0])
    if table_coll and nt >= 2:
        p = rng.choice(table_coll)
        t[0], t[1] = p if rng.random() < .5 else (p[1], p[0])
    assert len(set(t)) == nt and len(set(k)) == nk
    return t, k




class Options:
    """How the steps are put on the wire; nothing here may influence any answer."""
    def __init__(self, **kw):
        self.style = "plain"        # names
        self.frag = "mix"           # whole, cut, bytes, mix
        self.sndbuf = 4608
        self.lf = False             # LF instead of CRLF sometimes
        self.noise = False          # other headers in between
        self.wcap = 0
        self.eagain = 0
        self.rcap = 0
        self.wpart = 0
        self.batch = False          # several requests of one connection in one write
        self.half = False           # half close after a batch
        self.check_every = True     # counters after each step
        self.flush_wait = True      # let background saves finish
        self.colliding = None
        self.table_coll = None
        self.end = "kill"           # kill or term
        self.hot = False            # stop the server with connections open and requests half sent
        self.sig = "TERM"           # how the server is stopped: TERM, INT or mix
        self.pidfile = ""           # "", "pid" (removed at the end) or "leave"
        self.sigs = 0               # a signal arrives after every so many calls of the server
        self.daemon = False         # the server puts itself into the background
        self.group = False          # the signal goes to the process group sometimes
        self.ewait = 10             # the server's threads sleep at most so long (ms)
        self.streams = 0            # monitoring streams open while the server is stopped
        self.tail = False           # an aborted connection sends a part of what would come next first
        self.fault = "mix"          # how the store fails
        self.points = 40            # kill points of one behaviour (crash.py)
        self.crowd = 0              # percent of the steps before which more clients connect than the server has descriptors for
        self.wrap = 0               # percent of the uploads to files before which so many others come that the numbers in file names repeat
        self.dbname = "db"          # of the directory of the store; relative if it begins with . or -
        self.listeners = ""         # more places to connect to: u a unix socket, t a TCP port
        self.limit = 10000          # keys of a listing without X-Limit
        self.leaks = False          # at a stop all memory must have been released (asan builds)
        self.stack = 0              # of the server, 0: as it is
        self.unit = 1               # bytes for one of the specification (whose numbers have 32 bits)
        self.few = False            # the server is built to take few events at a time
        self.lazy = 0               # percent of the small values whose reply is left in the socket until later
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


def enlarge(x, unit):
    """All sizes of a behaviour in bytes instead of in units."""
    x.cfg = dict(x.cfg)
    for n in ("BlockMax", "Slow", "MaxSize"):
        x.cfg[n] *= unit
    x.trace = copy.deepcopy(x.trace)
    for r in x.trace:
        for n, acts in (("n", ("put", "putF", "hdr")), ("ttl", ("fill",))):
            if r["a"] in acts:
                r[n] *= unit
        for rep in [r["rep"]] + r["rep"].get("got", []):
            if "n" in rep:
                rep["n"] *= unit
        for n in ("bytes", "fbytes"):
            r["st"][n] *= unit


class Replayer:
    def __init__(self, binary, cfg, trace, opt, seed, judged=ALL):
        self.binary, self.cfg, self.trace, self.opt, self.judged = binary, cfg, trace, opt, judged
        self.rng = random.Random(seed)
        if opt.unit != 1:
            enlarge(self, opt.unit)
            trace = self.trace
        for i, r in enumerate(trace):
            r["busy0"] = i > 0 and trace[i - 1].get("busy", False)
            r["keys0"] = trace[i - 1]["st"]["keys"] if i > 0 else 0
        self.mons = []
        self.t, self.k = names(self.rng, opt.style, cfg["NTab"], cfg["NKey"], opt.colliding, opt.table_coll)
        if opt.style in ("odd", "mix"):
            self.empty_names()
        self.crashed = False
        self.left = {}
        self.checks = 0
        self.step = -1
        self.srv = None

    def empty_names(self):
        """Names with no character at all, where the requests of the behaviour leave room for them: "/" is no table."""
        whole = ("list", "delt", "listT", "deltT", "bulk", "bulkT", "pages")
        named = {r["t"] for r in self.trace if r["a"] in whole}
        free = [i for i in range(1, len(self.t)) if i + 1 not in named]
        if free and not self.opt.table_coll and self.rng.random() < .4:
            self.t[self.rng.choice(free)] = b""
        if not named and not self.opt.colliding and self.rng.random() < .4:
            self.k[self.rng.randrange(len(self.k))] = b""

    # -- wire
    def eol(self):
        return b"\n" if self.opt.lf and self.rng.random() < .5 else b"\r\n"

    def version(self):
        return b" HTTP/1.%d" % self.rng.randint(0, 1) + self.eol()

    def headers(self):
        if not self.opt.noise or self.rng.random() < .4:
            return b""
        if self.opt.noise == "short":       # a header line must fit the buffer of a build with a small one
            return b"".join(self.rng.choice([b"H: a", b"X-Ttlx: 3", b"Content-Lengt: 3", b"X-Empty:", b"y"]) + self.eol()
                            for _ in range(self.rng.randint(1, 2)))
        pool = [b"Host: localhost", b"User-Agent: x:y:z", b"X-Ttlx: 3", b"X-Tt: 9", b"Content-Lengt: 3", b"Content-Lengthy: 7",
                b"Accept: */*", b"Cookie: " + b"c" * self.rng.randint(0, 200), b"X-Empty:", b"Expect : 1",
                b"X-Limitx: 0", b"x: Content-Length: 99", b"Y: X-Delete: " + self.k[0], b"noColonAtAll"]
        return b"".join(self.rng.choice(pool) + self.eol() for _ in range(self.rng.randint(1, 4)))

    def cut(self, data):
        mode = self.opt.frag
        if mode == "mix":
            mode = self.rng.choice(["whole", "whole", "cut", "cut", "bytes"])
        if mode == "whole" or len(data) < 2:
            return [data]
        if mode == "bytes" and len(data) <= 400:
            return [data[i:i + 1] for i in range(len(data))]
        pts = sorted(self.rng.sample(range(1, len(data)), min(len(data) - 1, self.rng.randint(1, 5))))
        # one cut near the start too: that is where the headers are
        if len(data) > 400:
            pts = sorted(set(pts + [self.rng.randint(1, 300)]))
        out, a = [], 0
        for p in pts + [len(data)]:
            out.append(data[a:p])
            a = p
        return out

    def send(self, c, data):
        parts = self.cut(data)
        for i, p in enumerate(parts):
            c.send(p)
            if i + 1 < len(parts):
                c.taken()

    def late(self, c):
        """Read a reply that was left in the socket."""
        rep = self.left.pop(c, None)
        if rep is not None:
            self.read_value(self.conns[c], rep)

    def conn(self, c):
        self.late(c)
        x = self.conns.get(c)
        if x is None:
            self.srv.uncrowd()
            x = self.conns[c] = self.srv.connect()
        return x

    # -- expectations
    def fail(self, kind, text):
        if kind in self.judged:
            raise Mismatch(kind, self.step, text)

    def body_of(self, a):
        """Content of the upload begun by record a (one record per connection and upload)."""
        return value(a["u"] if a["u"] else FAKE + a["step"], a["n"])

    def start_server(self):
        o = self.opt
        self.srv = sut.Server(self.binary, max_size=self.cfg["MaxSize"],
                              clear=100 * self.cfg["ClearNum"] // self.cfg["ClearDen"] if self.cfg["MaxSize"] else None,
                              sndbuf=o.sndbuf, mon=bool(o.streams), dbname=o.dbname, stack=o.stack, leaks=o.leaks, listeners=o.listeners, extra=["--leave-pid"] * (o.pidfile == "leave") + ["-d"] * bool(o.daemon))
        self.pid = os.path.join(self.srv.dir, "pid")
        self.srv.shm["ewait"] = o.ewait
        if o.pidfile:
            self.srv.args += ["-m", self.pid]
        self.srv.start()
        self.started()
        self.set_shim(True)
        self.conns = {}
        self.srv.barrier()
        self.base_fds = self.srv.fds()
        self.now = 0

    def set_shim(self, on):
        o = self.opt
        for n in ("wcap", "eagain", "rcap", "wpart", "sigs"):
            self.srv.shm[n] = getattr(o, n) if on else 0
        self.srv.shm["hold_child"] = 1 if self.cfg.get("Hold") and on else 0

    def run(self):
        try:
            try:
                self.start_server()
                if self.opt.batch:
                    self.run_batched()
                else:
                    for i, r in enumerate(self.trace):
                        self.step = i
                        self.one(i, r)
                        self.after(i, r)
                self.step = "end"
                for c in list(self.left):
                    self.late(c)
                self.srv.uncrowd()
                if self.opt.end == "term":
                    self.finish()
            except ServerDied as e:
                if self.srv and self.srv.p and self.srv.p.poll() is None:
                    pass
                self.fail("died", str(e))
            except Stall as e:
                self.fail("stall", str(e))
            except Closed as e:
                if self.srv.p.poll() is not None:
                    self.fail("died", self.srv.death())
                # the connection may be lost because the process is just going down
                time.sleep(0.2)
                if self.srv.p.poll() is not None:
                    self.fail("died", self.srv.death())
                self.fail("closed", str(e))
            return None
        except Mismatch as m:
            return m
        finally:
            if self.srv:
                self.srv.close()

    def finish(self):
        self.stop()

    def started(self):
        self.uploads, self.number, self.wrapped = 0, {}, False
        if self.opt.pidfile:
            try:
                got = open(self.pid).read().strip()
            except OSError as e:
                got = str(e)
            if got != str(self.srv.p.pid):
                self.fail("pid", "pid file has %r, the server is %d" % (got, self.srv.p.pid))
        self.mons = []
        for _ in range(self.opt.streams):
            m = sut.Conn(self.srv, mon=True)
            m.send(b"GET /conn HTTP/1.1\r\n\r\n")
            self.mons.append(m)

    def stop(self):
        """End the server by a signal; with hot, whatever the connections are doing."""
        import signal
        import threading
        srv = self.srv
        hot = self.opt.hot and self.rng.random() < .8
        if not hot:
            self.drop_all()
            for m in self.mons:
                m.close()
            self.mons = []
        for m in self.mons:
            m.wait_bytes(1)
        sig = self.opt.sig if self.opt.sig != "mix" else self.rng.choice(["TERM", "INT"])
        conns = dict(self.conns)
        # a save that is being written is waited for; it ends a little later
        held = srv.shm["hold_child"] and srv.children()
        if not held:
            srv.shm["hold_child"] = 0
        if not hot:
            srv.drop_conns_handles()
        srv.shm["pid_gone"] = 0
        srv.shm["pid_watch"] = 1 if self.opt.pidfile else 0
        if self.opt.group and self.rng.random() < .5:
            os.killpg(srv.p.pid, getattr(signal, "SIG" + sig))      # as a terminal or a service manager does
        else:
            srv.p.send_signal(getattr(signal, "SIG" + sig))
        if held:
            threading.Timer(.05, lambda: srv.shm.__setitem__("hold_child", 0)).start()
        rc = srv.wait_exit()
        if held:
            time.sleep(.06)
        leaked = srv.leaked() if self.opt.leaks else None
        if leaked is not None:
            if leaked:
                self.fail("memory", "memory is not released: " + leaked)
        elif rc != 0:
            self.fail("exit" if rc > 0 else "died", srv.death() if rc < 0 else "exit status %d after SIG%s" % (rc, sig))
        for c, x in conns.items():
            if hot and x.s is not None:
                x.pull()
                self.checks += 1
                if not x.eof:
                    self.fail("eof", "connection %d is open after the server ended" % c)
        for m in self.mons:
            m.pull()
            self.checks += 1
            if not m.eof or not m.buf.endswith(b"\nq\n"):
                self.fail("q", "stream ends with %r (end of stream: %s) at the stop" % (m.buf[-20:], m.eof))
        if self.opt.pidfile:
            there = os.path.exists(self.pid)
            self.checks += 1
            if there != (self.opt.pidfile == "leave"):
                self.fail("pid", "pid file is %s after the stop" % ("there" if there else "gone"))
            if srv.shm["pid_gone"]:
                self.fail("pid", "the pid file went away before the cache was saved")
        srv.shm["pid_watch"] = 0
        srv.leave()
        srv.drop_conns_handles()
        self.left = {}
        self.drop_all()
        self.mons = []

    # -- steps
    def one(self, i, r):
        a, c = r["a"], r["c"]
        if c == 0 and not (a == "restart" and self.opt.hot) or a in ("pages", "abort"):
            self.srv.uncrowd()
        elif self.rng.random() < self.opt.crowd / 100:
            self.srv.crowd(5)
        if a == "tick":
            self.now += r["n"]
            self.srv.set_time(sut.T0 + self.now)
            return
        if a == "break":
            self.break_disk()
            return
        if a == "heal":
            self.heal(True)
            return
        if a in ("gc", "sig", "gcF"):
            if a == "gcF":
                self.break_save(r)
            if a == "gc" and self.opt.wrap:
                self.numbered(i)
            if a != "sig":
                st, hd, body = self.srv.ctl.request(b"ADMIN /gc HTTP/1.1\r\n\r\n")
                if st != 200:
                    self.fail("stats", "ADMIN /gc answered %d" % st)
            else:
                import signal
                n = self.srv.shm["forks"]
                self.srv.p.send_signal(signal.SIGUSR1)
                t = time.monotonic() + sut.LONG
                while self.srv.shm["forks"] == n:
                    if time.monotonic() > t:
                        self.srv.check_alive()
                        raise Stall("SIGUSR1 has no effect")
                    time.sleep(.001)
                self.srv.barrier()
            if self.opt.flush_wait and not self.cfg.get("Hold"):
                self.srv.wait_flush()
            if a == "gcF":
                self.heal()
            return
        if a in ("flush", "flushF"):
            ch = self.srv.children()
            if a == "flushF" and ch and self.rng.random() < .5:
                for p in ch:
                    os.kill(p, 9)
            elif a == "flushF" and r["busy0"]:
                self.srv.shm["fail_open"] = 1
            self.srv.shm["hold_child"] = 0
            self.srv.wait_flush()
            self.srv.shm["hold_child"] = 1
            self.heal()
            return
        if a in ("restart", "restartF"):
            if a == "restartF":
                self.break_save(r)
            bad = self.broken
            self.stop()
            self.heal(True)
            self.srv.start()
            self.started()
            self.set_shim(True)
            if bad:
                self.break_disk()
            return
        if a == "crash":
            if not self.cfg.get("Hold"):
                self.srv.wait_flush()
            for x in list(self.left):
                self.late(x)
            self.srv.kill()
            self.drop_all()
            self.crashed = True
            bad = self.broken
            self.heal(True)
            self.srv.start()
            if bad:
                self.break_disk()
            return
        if a in ("fill", "unfill"):
            x = self.conn(c)
            for j in range(r["n"]):
                name = self.k[r["k"] + j - 1]
                if a == "fill":
                    st = x.request(sut.put(self.t[r["t"] - 1], name, value(r["up0"] + 1 + j, r["ttl"])))[0]
                    if st != 200:
                        self.fail("ack", "PUT answered %d" % st)
                else:
                    x.request(sut.delete(self.t[r["t"] - 1], name))
            return
        if a == "scan":
            x = self.conn(c)
            got = r["rep"]["got"]
            for j in range(0, len(got), 20):
                x.send(b"".join(sut.get(self.t[r["t"] - 1], self.k[r["k"] + i - 1]) for i in range(j, min(j + 20, len(got)))))
                for i in range(j, min(j + 20, len(got))):
                    self.reply(x, dict(r, a="get", k=r["k"] + i, rep=got[i]), batched=True)
            return
        if a == "stats":
            self.srv.barrier()
            return
        if a == "abort":
            self.late(c)
            x = self.conns.pop(c, None)
            if x:
                if self.opt.tail and self.rng.random() < .7:
                    try:
                        x.send(self.tail_of(c))
                        if self.rng.random() < .5:
                            x.taken()
                    except Closed:
                        pass
                x.close()
            return
        if a == "drain":
            self.read_value(self.conn(c), self.pending.pop(c))
            return
        if a == "pages":
            self.pages(r)
            return
        x = self.conn(c)
        if a == "put":
            self.uploads += 1
            if r["n"] > 4096:
                self.number[(r["t"], r["k"])] = self.uploads
        elif a == "del":
            self.number.pop((r["t"], r["k"]), None)
        data = self.bytes_of(i, r)
        if a.endswith("F"):
            self.fail_soon(i, r, len(data))
        try:
            if a == "bad":
                x.send(data)
            else:
                self.send(x, data)
        except Closed:
            if r["rep"]["kind"] != "closed":
                raise
        if r["rep"]["kind"] == "none":
            x.taken()
        else:
            self.reply(x, r)
        if a.endswith("F"):
            self.heal()

    def numbered(self, i):
        """Uploads are numbered, in the names of files. Before a save that an upload to a file follows, let so many others
        come that a number of 16 bits would be the one of the file of the same key that is in the save."""
        r = self.trace[i + 1] if i + 1 < len(self.trace) else None
        k = r and (r["t"], r["k"])
        if self.wrapped or not r or r["a"] != "put" or r["n"] <= 4096 or k not in self.number or self.rng.random() >= self.opt.wrap / 100:
            return
        # (worth its time only if the save is what the next crash leaves)
        if [x["a"] for x in self.trace[i + 1:] if x["a"] in ("gc", "restart", "crash")][:1] != ["crash"]:
            return
        self.wrapped = True
        more = 65535 - (self.uploads - self.number[k])
        rest = -more % 50
        more -= 1
        x = self.srv.ctl
        while more > 0:
            n = min(more, 400)
            x.send(b"PUT /~filler/k HTTP/1.1\r\nContent-Length: 1\r\n\r\nx" * n)
            for _ in range(n):
                st = x.read_reply()[0]
                if st != 200:
                    self.fail("ack", "PUT answered %d" % st)
            more -= n
        # uploads that are refused (the key is being stored) count for the collections, but are not numbered
        y = sut.Conn(self.srv, control=True)
        y.send(b"PUT /~filler/k HTTP/1.1\r\nContent-Length: 1\r\n\r\n")
        y.taken()
        for _ in range(rest):
            z = sut.Conn(self.srv, control=True)
            z.request(b"PUT /~filler/k HTTP/1.1\r\nContent-Length: 1\r\n\r\nx")
            z.close()
        y.close()
        self.srv.barrier()
        x.request(b"DELETE /~filler HTTP/1.1\r\n\r\n")
        self.uploads = self.number[k] + 65535

    # -- failing storage
    def fail_soon(self, i, r, n):
        """Writes to files fail from one of the next on; it is certain that the step needs that many."""
        if self.broken:
            return
        shm = self.srv.shm
        body = n
        if r["a"] == "putF":
            body = r["n"]
        elif self.cur[r["c"]].get("n"):
            q = self.cur[r["c"]]
            body = q["sent"] if r["a"] == "bodyF" else q["n"] - q["sent"]
        piece = self.opt.wpart or 1 << 20
        sure = max(1, body // piece)
        fresh = r["a"] == "putF"
        mode = self.opt.fault
        if mode == "mix":
            mode = self.rng.choice(["write", "write", "open"])
        if mode == "open" and fresh and r["n"] > self.cfg["BlockMax"]:
            shm["fail_open"] = 1
        else:
            shm["fail_n"] = self.rng.choice([0, 1])
            shm["fail_after"] = shm["file_writes"] + 1 + self.rng.randrange(min(sure, 50))

    def heal(self, all=False):
        """The end of a single failure, or of everything that fails."""
        if self.broken and not all:
            return
        self.broken = False
        for n in ("fail_after", "fail_n", "fail_open", "fail_cp", "fail_trunc"):
            self.srv.shm[n] = 0

    broken = False

    def break_disk(self):
        self.broken = True
        shm = self.srv.shm
        shm["fail_after"] = 1
        shm["fail_cp"] = 1
        shm["fail_open"] = 1
        shm["fail_trunc"] = self.rng.choice([0, 1])

    def break_save(self, r):
        """The next save fails in one way or another."""
        shm = self.srv.shm
        mode = self.rng.choice(["write", "write", "cp", "open"])
        if self.broken:
            return
        keys = r["st"]["keys"] if r["a"] == "gcF" else r["keys0"]
        keys = max(0, keys - self.cfg["NConn"])     # those whose upload is not in progress, at least
        if self.cfg.get("Hold"):
            shm["fail_cp"] = 1
            shm["fail_open"] = 1 if r["a"] == "restartF" else 0
        elif mode == "write" and keys > 0:
            # the index takes a write or more for each part of a name or of an entry
            shm["fail_n"] = self.rng.choice([0, 1])
            shm["fail_after"] = shm["file_writes"] + 1 + self.rng.randrange(3 + 3 * keys)
        elif mode == "open":
            shm["fail_open"] = 1
        else:
            shm["fail_cp"] = 1

    def req(self, c):
        return self.cur.setdefault(c, {})

    def tail_of(self, c):
        """Bytes that do not complete the next step of the connection's request."""
        q = (self.cur or {}).get(c, {})
        R = self.rng
        if q.get("ph") == "T":
            return R.choice([b"", b"k", b"k1", b"kkkkkkkkkkkkkkkkkkkkkkkk", b"k1/k2"])
        if q.get("ph") == "K":
            return (b"" if q.get("line", True) else R.choice([b"", b"H", b"HTTP/1.1", b"HTTP/1.1\r"])) if not q.get("line", True) else \
                R.choice([b"", b"C", b"Content-Len", b"Content-Length", b"Content-Length:", b"Content-Length: 1", b"Content-Length: 12345",
                          b"X-Ttl", b"X-Ttl: 1", b"H: x\r", b"\r", b"a: b\r\nc: d"])
        return b""

    pending = None
    cur = None

    def bytes_of(self, i, r):
        """The bytes of a step, keeping per connection what has been sent of its request."""
        if self.cur is None:
            self.cur, self.pending = {}, {}
        a, c = r["a"], r["c"]
        T = self.t[r["t"] - 1] if r["t"] else None
        K = self.k[r["k"] - 1] if r["k"] else None
        verb = {"get": b"GET", "head": b"HEAD", "del": b"DELETE", "put": b"PUT", "list": b"GET", "delt": b"DELETE",
                "bulk": self.rng.choice([b"BULK", b"PURGE"])}
        if a in ("get", "head", "del"):
            return verb[a] + b" /" + T + b"/" + K + self.version() + self.headers() + self.eol()
        if a in ("put", "putF"):
            q = dict(u=r["rep"]["u"], n=r["n"], step=i)
            return b"PUT /" + T + b"/" + K + self.version() + self.put_headers(r) + self.eol() + self.body_of(q)
        if a in ("list", "delt"):
            return verb[a] + b" /" + T + self.version() + self.headers() + self.eol()
        if a == "bulk":
            return verb[a] + b" /" + T + self.version() + b"".join(
                self.headers() + self.xdelete(self.k[k - 1]) for k in r["ks"]) + self.headers() + self.eol()
        if a == "bad":
            return self.rng.choice(BAD)
        if a in ("getT", "headT", "delT", "putT"):
            self.cur[c] = dict(op=a[:-1], sent=0, ph="T")
            return verb[a[:-1]] + b" /" + T + b"/"
        if a in ("deltT", "listT"):
            self.cur[c] = dict(op=a[:-1])
            return verb[a[:-1]] + b" /" + T + b" "
        if a == "bulkT":
            self.cur[c] = dict(op="bulk")
            return verb["bulk"] + b" /" + T + self.version()
        q = self.cur[c]
        if a == "key":
            q["step"], q["u"], q["key"] = i, r["u"], K
            q["ph"] = "K"
            # the rest of the request line may come now or with the next bytes
            q["line"] = self.rng.random() < .5
            return K + b" " + (b"HTTP/1.1" + self.eol() if q["line"] else b"")
        if a == "x":
            return self.headers() + self.xdelete(K)
        first = b"" if q.get("line", True) else b"HTTP/1.1" + self.eol()
        if q["op"] in ("deltT", "listT", "delt", "list"):
            first = b"HTTP/1.1" + self.eol()
        if a == "hdr":
            q["line"] = True
            q["n"] = r["n"]
            q["ph"] = "H"
            return first + self.put_headers(r)
        if a in ("body", "bodyF"):
            m = self.rng.randint(1, q["n"] - 1)
            b = self.body_of(q)
            q["sent"] = m
            q["eoh"] = True
            return self.eol() + b[:m]
        assert a in ("end", "endF"), a
        if q["op"] == "put":
            if q["n"] == 0:
                return self.eol()
            return (b"" if q.get("eoh") else self.eol()) + self.body_of(q)[q["sent"]:]
        return first + self.headers() + self.eol()

    def xdelete(self, k):
        return self.rng.choice([b"X-Delete: ", b"x-delete: ", b"X-Delete:", b"X-Delete:   "]) + k + self.eol()

    def put_headers(self, r):
        h = []
        if r["ttl"] or self.rng.random() < .2:
            h.append(self.rng.choice([b"X-Ttl: %d", b"x-ttl: %d", b"X-Ttl:%d"]) % r["ttl"] + self.eol())
        if r["n"] or r["a"] in ("put", "putF") and self.rng.random() < .5:
            h.append(self.rng.choice([b"Content-Length: %d", b"Content-Length:%d", b"Content-Length:  %d"]) % r["n"] + self.eol())
        self.rng.shuffle(h)
        return b"".join(self.headers() + x for x in h) + self.headers()

    # -- replies
    def reply(self, x, r, batched=False):
        rep = r["rep"]
        kind = rep["kind"]
        self.checks += 1
        if kind == "val":
            if not batched and rep["n"] > self.cfg["Slow"]:
                x.taken()
                self.pending[r["c"]] = dict(rep, at=self.now) if self.opt.wcap or self.opt.eagain else rep
                return
            if not batched and self.rng.random() * 100 < self.opt.lazy and rep["n"] <= 20000 and not self.opt.sndbuf and not self.opt.wcap and not self.opt.eagain:
                x.taken()
                self.left[r["c"]] = rep
                return
            self.read_value(x, rep)
            return
        if kind == "closed":
            rest = x.read_to_eof()
            if rest:
                self.fail("failed", "answered %r although the value could not be stored" % rest[:40])
            self.conns.pop(r["c"], None)
            x.close()
            return
        st, hd = x.read_head()
        if kind == "head":
            self.check_head(st, hd, rep)
            return
        body = b""
        if "content-length" in hd:
            n = int(hd["content-length"])
            if not x.wait_bytes(n):
                raise Closed("connection closed in the body")
            body, x.buf = x.buf[:n], x.buf[n:]
        if kind == "list":
            self.check_list(x, st, hd, rep, r)
            self.conns.pop(r["c"])
            return
        want = {"ok": (200, b"OK\r\n", "ack"), "404": (404, b"Key not Found\r\n", "status"),
                "deleted": (200, b"DELETED\r\n", "deleted"), "bulk": (200, b"BULK OK\r\n", "bulk"),
                "400": (400, None, "bad"), "bad": (400, None, "bad"), "stats": (200, None, "stats")}[kind]
        k2 = want[2]
        if r["a"] in ("del", "delt") or (self.cur and self.cur.get(r["c"], {}).get("op") in ("del", "delt") and r["a"] in ("end", "endF")):
            k2 = "deleted"
        if st != want[0] or (want[1] is not None and body != want[1]):
            self.fail(k2, "%s: answered %d %r, expected %s" % (self.show(r), st, body[:60], kind))
            if not ("content-length" in hd):
                raise Closed("unexpected kind of answer")
        if want[0] == 400:
            rest = x.read_to_eof()
            if rest:
                self.fail("extra", "%r after the reply 400" % rest[:80])
            self.conns.pop(r["c"], None)
            x.close()
            return
        if hd.get("connection") != "Keep-Alive":
            self.fail("conn", "Connection: %s in reply to %s" % (hd.get("connection"), self.show(r)))

    def show(self, r):
        c = r["c"]
        q = (self.cur or {}).get(c, {}) if r["a"] == "end" else {}
        T = self.t[r["t"] - 1][:40] if r["t"] else b""
        K = self.k[r["k"] - 1][:40] if r["k"] else q.get("key", b"")[:40]
        return "%s %s /%s/%s" % (r["a"], q.get("op", ""), T.decode("latin1"), K.decode("latin1"))

    def check_head(self, st, hd, rep):
        if st != 200:
            self.fail("status", "answered %d for a present key (upload %d, %d bytes)" % (st, rep["u"], rep["n"]))
            return
        if hd.get("content-length") != str(rep["n"]):
            self.fail("value", "Content-Length %s for a value of %d bytes" % (hd.get("content-length"), rep["n"]))
        # a head that is written in pieces says what remains when that line is written: any time since the request
        past = self.now - rep["at"] if "at" in rep and rep["ttl"] else 0
        if hd.get("x-ttl") not in [str(rep["ttl"] - i) for i in range(past + 1)]:
            self.fail("ttl", "X-Ttl %s, %d seconds remain" % (hd.get("x-ttl"), rep["ttl"]))
        if hd.get("connection") != "Keep-Alive":
            self.fail("conn", "Connection: %s" % hd.get("connection"))

    def read_value(self, x, rep):
        st, hd = x.read_head()
        if st == 200 or "content-length" not in hd:
            self.check_head(st, hd, rep)
        n = int(hd.get("content-length", 0))
        if not x.wait_bytes(n):
            if not self.srv.alive():
                raise ServerDied(self.srv.death())
            if "value" in self.judged:
                self.fail("value", "connection closed in the body: %d of %d bytes" % (len(x.buf), n))
            raise Closed("connection closed in the body")
        body, x.buf = x.buf[:n], x.buf[n:]
        if st != 200:
            self.check_head(st, hd, rep)
            return
        want = value(rep["u"], rep["n"])
        if body != want:
            i = next((i for i in range(min(len(body), len(want))) if body[i] != want[i]), min(len(body), len(want)))
            self.fail("value", "body differs from upload %d at byte %d of %d: %r" % (rep["u"], i, rep["n"], body[i & ~15:(i & ~15) + 48]))

    def listed(self, x, st, hd):
        b = x.read_to_eof()
        if st != 200:
            return None
        if b and not b.endswith(b"\r\n"):
            self.fail("list", "listing ends inside a line: %r" % b[-60:])
        ks = b.split(b"\r\n")[:-1]
        if hd.get("connection") != "Close":
            self.fail("list", "listing announces Connection: %s" % hd.get("connection"))
        return ks

    def check_list(self, x, st, hd, rep, r):
        ks = self.listed(x, st, hd)
        if ks is None:
            self.fail("list", "listing answered %d" % st)
            return
        want = sorted(self.k[k - 1] for k in rep["keys"])
        if len(want) > self.opt.limit:
            if len(ks) != self.opt.limit or len(set(ks)) != len(ks) or not set(ks) <= set(want):
                self.fail("list", "listed %d keys (%d different, %d not present) of %d" % (len(ks), len(set(ks)), len(set(ks) - set(want)), len(want)))
        elif sorted(ks) != want:
            self.fail("list", "listed %r, present %r" % (sorted(ks)[:12], want[:12]))
        if hd.get("x-entries") != str(len(want)):
            self.fail("list", "X-Entries %s of %d" % (hd.get("x-entries"), len(want)))

    def pages(self, r):
        """The same listing in pages of n keys, in some order."""
        rep = r["rep"]
        size = r["n"]
        T = self.t[r["t"] - 1]
        if rep["kind"] == "404":
            x = self.srv.connect()
            self.send(x, b"GET /" + T + b" HTTP/1.1\r\nX-Limit: %d\r\nX-Start: 0\r\n\r\n" % size)
            st, hd, body = x.read_reply()
            if st != 404:
                self.fail("list", "listing of a missing table answered %d" % st)
            x.close()
            return
        want = sorted(self.k[k - 1] for k in rep["keys"])
        starts = list(range(0, len(want) + size, size))
        self.rng.shuffle(starts)
        got = []
        for s in starts:
            x = self.srv.connect()
            h = [b"X-Limit: %d" % size + self.eol(), b"X-Start: %d" % s + self.eol()]
            self.rng.shuffle(h)
            self.send(x, b"GET /" + T + self.version() + b"".join(self.headers() + y for y in h) + self.eol())
            st, hd = x.read_head()
            ks = self.listed(x, st, hd)
            x.close()
            self.checks += 1
            if ks is None:
                self.fail("list", "page answered %d" % st)
                return
            n = max(0, min(size, len(want) - s))
            if len(ks) != n:
                self.fail("list", "page from %d of at most %d has %d of %d keys" % (s, size, len(ks), n))
            got += ks
        if sorted(got) != want:
            self.fail("list", "pages of %d give %r, present %r" % (size, sorted(got)[:12], want[:12]))
        # a start without limit, a limit without start, and nothing
        for h, n in ((b"X-Start: 1\r\n", max(0, min(self.opt.limit, len(want) - 1))), (b"X-Limit: 0\r\n", 0), (b"X-Limit: 1\r\n", min(1, len(want)))):
            x = self.srv.connect()
            x.send(b"GET /" + T + b" HTTP/1.1\r\n" + h + b"\r\n")
            st, hd = x.read_head()
            ks = self.listed(x, st, hd)
            x.close()
            if ks is None or len(ks) != n or not set(ks) <= set(want) or len(set(ks)) != len(ks):
                self.fail("list", "listing with %r gives %r of %r" % (h, ks, want[:12]))

    def drop_all(self):
        for c in list(self.left):
            self.late(c)
        for x in list(self.conns.values()):
            x.close()
        self.conns = {}
        self.cur, self.pending = {}, {}

    # -- after a step
    def after(self, i, r, force=False):
        idle = r["idle"]
        if self.cfg.get("Hold") and "children" in self.judged and r["a"] in ("gc", "sig", "flush", "gcF", "put", "key", "restart"):
            n = len(self.srv.children())
            self.checks += 1
            if n != (1 if r["busy"] else 0):
                self.fail("children", "%d saving processes, must be %d (after %s)" % (n, 1 if r["busy"] else 0, self.show(r)))
        if not (self.opt.check_every or force or idle and self.rng.random() < .3):
            return
        st = self.srv.stats()
        if self.opt.few and any(st[COUNTER_OF.get(k, k)] != r["st"][k] for k in COUNTERS & self.judged):
            # few events at a time: the end of a connection may wait behind several others
            self.srv.closed, self.srv.rounds = True, 30
            st = self.srv.stats()
        for k in sorted(COUNTERS & self.judged):
            self.checks += 1
            got = st[COUNTER_OF.get(k, k)]
            if got != r["st"][k]:
                self.fail(k, "%s is %d, must be %d (after %s)" % (k, got, r["st"][k], self.show(r)))
        if idle and not self.crashed and (DISK & self.judged):
            f = self.srv.files()
            self.checks += 1
            if len(f) != r["st"]["files"]:
                self.fail("files", "%d files of large values, must be %d: %s" % (len(f), r["st"]["files"], list(f.items())[:5]))
            if sum(f.values()) != r["st"]["fbytes"]:
                self.fail("fbytes", "files hold %d bytes, must be %d" % (sum(f.values()), r["st"]["fbytes"]))
            if "fds" in self.judged and not self.srv.others:
                want = self.base_fds + len(self.conns)
                n = self.srv.fds()
                t = time.monotonic() + 5
                while n != want and time.monotonic() < t:
                    time.sleep(.002)
                    n = self.srv.fds()
                if n != want:
                    self.fail("fds", "%d open descriptors, must be %d" % (n, want))

    # -- pipelining
    BATCH = ("put", "get", "head", "del", "delt", "bulk", "list", "bad")

    def run_batched(self):
        i = 0
        self.cur, self.pending = {}, {}
        while i < len(self.trace):
            r = self.trace[i]
            if r["a"] not in self.BATCH:
                self.step = i
                self.one(i, r)
                self.after(i, r)
                i += 1
                continue
            c = r["c"]
            j = i
            limit = self.rng.choice([1, 2, 3, 5, 10, 40])
            while j < len(self.trace) and j - i < limit and self.trace[j]["c"] == c and self.trace[j]["a"] in self.BATCH:
                j += 1
                if self.trace[j - 1]["a"] == "list" or self.trace[j - 1]["rep"]["kind"] in ("400", "bad"):
                    break
            self.step = i
            x = self.conn(c)
            half = self.opt.half and self.rng.random() < .5
            data = b"".join(self.bytes_of(q, self.trace[q]) for q in range(i, j))
            closing = self.trace[j - 1]["a"] == "list" and self.trace[j - 1]["rep"]["kind"] == "list" or \
                self.trace[j - 1]["rep"]["kind"] in ("400", "bad")
            if closing and self.rng.random() < .5:
                # bytes behind the request that ends the connection must never run
                data += b"DELETE /" + self.t[0] + b" HTTP/1.1\r\n\r\n"
            try:
                for p in self.cut(data):
                    x.send(p)
                    if self.opt.frag != "whole" and self.rng.random() < .7:
                        x.pull()
            except Closed:
                if not closing:
                    raise
            if half and not x.eof:
                try:
                    x.half_close()
                except OSError:
                    pass
            for q in range(i, j):
                self.step = q
                self.reply(x, self.trace[q], batched=True)
            if c in self.conns:
                if half:
                    rest = x.read_to_eof()
                    if rest:
                        self.fail("extra", "%r after the last reply" % rest[:80])
                    x.close()
                    self.conns.pop(c)
                else:
                    self.srv.barrier()
                    if not x.quiet():
                        self.fail("extra" if x.buf else "closed", "%r (end of stream: %s) after the last reply" % (x.buf[:80], x.eof))
            self.after(j - 1, self.trace[j - 1], force=True)
            i = j


BAD = [b"FOO /t/k HTTP/1.1\r\n\r\n", b"GETX /t HTTP/1.1\r\n\r\n", b"ADMIN /xx HTTP/1.1\r\n\r\n",
       b"HEAD /t HTTP/1.1\r\n\r\n", b"PUT /t HTTP/1.1\r\n\r\n", b"VERYLONGMETHOD / HTTP/1.1\r\n\r\n"]
