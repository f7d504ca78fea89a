"""Kill the server (or only the process that saves) at every file system operation of a behaviour, start it again and
compare what it then serves with what the specification allows for that point (Outcomes in spec/SCache.tla)."""
import os

import replay
import sut
from replay import Mismatch
from sut import Closed, ServerDied, Stall, value


class Killed(Exception):
    pass


class Crasher(replay.Replayer):
    """One behaviour: first undisturbed, counting operations; then once per kill point."""
    kill_at = 0
    child_only = False

    def run_all(self):
        seed = self.rng.getrandbits(32)
        self.rng.seed(seed)
        log, m = self.once(0, False)
        if m:
            return m
        total = self.total
        points = [(n, False) for n in range(1, total + 1)]
        # what the saving child does can also fail alone
        points += [(n, True) for n in range(1, total + 1) if log.get(n, ("", "", ""))[0] not in ("", self.pid0)
                   and log[n][0] not in self.mains]
        limit = self.opt.points
        pick = __import__("random").Random(seed)
        if len(points) > limit:
            # operations of saves, and everything else, in equal parts
            hot = [p for p in points if log.get(p[0], ("", "write", ""))[1] not in ("write", "open")]
            rest = [p for p in points if p not in set(hot)]
            a = pick.sample(hot, min(len(hot), limit // 2))
            points = a + pick.sample(rest, min(len(rest), limit - len(a)))
        for n, child in points:
            self.rng.seed(seed)
            _, m = self.once(n, child)
            if m:
                return m
        return None

    # -- one run
    def once(self, kill_at, child_only):
        self.kill_at, self.child_only, self.hooked = kill_at, child_only, False
        self.mons, self.left, self.crashed, self.step = [], {}, False, -1
        self.cur = self.pending = None
        self.broken = False
        self.srv = None
        self.pid0, self.mains = "", set()
        dead = False
        try:
            try:
                self.start_server()
                for i, r in enumerate(self.trace):
                    self.step = i
                    self.one(i, r)
                    # the server may be dying without having been missed in this step
                    if kill_at and not child_only and self.srv.shm["fs_ops"] >= kill_at:
                        raise Killed()
                    self.after(i, r)
                    if child_only and self.srv.shm["fs_ops"] >= kill_at:
                        self.child_died(i, r)
                        return {}, None
                if kill_at and not child_only:
                    raise Stall("the server was not killed")
                self.srv.barrier()
                self.total = self.srv.shm["fs_ops"]
                if not self.total:
                    raise sut.CheckError("no file system operations seen")
            except (ServerDied, Closed, Stall, ConnectionError, BrokenPipeError, FileNotFoundError, ProcessLookupError, Mismatch, Killed) as e:
                if not (kill_at and not child_only and self.was_killed()):
                    if isinstance(e, Mismatch):
                        raise
                    if isinstance(e, ServerDied):
                        self.fail("died", str(e))
                    if isinstance(e, Stall):
                        self.fail("stall", str(e))
                    if isinstance(e, Closed):
                        self.fail("closed", str(e))
                    raise
                dead = True
            if dead:
                self.recover(max(self.step, 0))
            return self.fslog(), None
        except Mismatch as m:
            m.text += " (killed %s %d: %s)" % ("saving process at operation" if child_only else "at operation", kill_at,
                                               self.fslog().get(kill_at)) if kill_at else ""
            m.args = ("%s at step %s: %s" % (m.kind, m.step, m.text),)
            return {}, m
        except (ServerDied, Closed, Stall) as e:
            try:
                self.fail({"ServerDied": "died", "Closed": "closed", "Stall": "stall"}[type(e).__name__],
                          "%s (after a kill at operation %d: %s)" % (e, kill_at, self.fslog().get(kill_at)))
            except Mismatch as m:
                return {}, m
            raise
        finally:
            if self.srv:
                self.srv.close()
                self.srv = None

    def fslog(self):
        out = {}
        try:
            for l in open(os.path.join(self.srv.dir, "fslog"), errors="replace"):
                p = l.rstrip("\n").split(" ", 3)
                out[int(p[0])] = (p[1], p[2], p[3] if len(p) > 3 else "")
        except (OSError, ValueError):
            pass
        return out

    def was_killed(self):
        try:
            self.srv.p.wait(5)
        except Exception:
            return False
        return self.srv.p.returncode == -9 and self.srv.shm["fs_ops"] >= self.kill_at

    def start_server(self):
        def hook(srv):
            self.hooked = True
            srv.shm["fs_on"] = 1
            srv.shm["log_on"] = 1
            srv.shm["kill_at"] = self.kill_at
            srv.shm["kill_child"] = 1 if self.child_only else 0
        real = sut.Server.start

        def start(srv, wait=True):
            if not self.hooked:
                hook(srv)
            r = real(srv, wait)
            self.mains.add(str(srv.p.pid))
            return r
        sut.Server.start = start
        try:
            super().start_server()
        finally:
            sut.Server.start = real

    def started(self):
        self.mains.add(str(self.srv.p.pid))
        super().started()

    # -- after the kill
    def calm(self):
        for n in ("fs_on", "kill_at", "kill_child", "hold_child"):
            self.srv.shm[n] = 0
        self.heal(True)

    def in_switch(self):
        what = self.fslog().get(self.kill_at, ("", "", ""))[1]
        return what in ("rename", "unlink", "link")

    def recover(self, i, extra=None):
        srv = self.srv
        nothing = self.trace[i]["sw"] and self.in_switch()
        outs = list(self.trace[i]["out"]) if self.step >= 0 else [dict(must=[], may=[])]
        srv.kill()
        self.left = {}
        self.drop_all()
        self.calm()
        srv.start()
        found = self.contents()
        if not any(self.fits(found, o) for o in outs) and not (nothing and not found):
            self.fail("crash", "after the start there are %s; possible were %s%s" % (
                self.names_of(found), " or ".join(self.names_of({(e["t"], e["k"]): (e["u"], e["n"]) for e in o["must"]}) +
                                                  " and maybe " + self.names_of({(e["t"], e["k"]): (e["u"], e["n"]) for e in o["may"]}) for o in outs),
                " or nothing" if nothing else ""))
        self.counted(found)
        self.go_on(found)

    def child_died(self, i, r):
        """The saving process was killed; the server goes on, the next save is complete."""
        srv = self.srv
        srv.check_alive()
        if self.rng.random() < .5 or self.cfg.get("Hold") and srv.children():
            self.recover(i)
            return
        kill = dict(kill_at=self.kill_at)
        self.calm()
        srv.wait_flush()
        if srv.ctl.request(b"ADMIN /gc HTTP/1.1\r\n\r\n")[0] != 200:
            self.fail("stats", "ADMIN /gc not answered with 200")
        srv.wait_flush()
        srv.kill()
        self.left = {}
        self.drop_all()
        srv.start()
        found = self.contents()
        want = {(e["t"], e["k"]): (e["u"], e["n"]) for e in r["cur"] if not (e["exp"] and e["exp"] < self.now)}
        if found != want:
            self.fail("crash", "after a save that follows a failed one there are %s, must be %s" % (self.names_of(found), self.names_of(want)))
        self.counted(found)
        self.go_on(found)

    def names_of(self, m):
        return "{" + ", ".join("t%d/k%d: upload %d (%d bytes)" % (k + v[:2]) for k, v in sorted(m.items())) + "}"

    def contents(self):
        """{(t, k): (upload, size)} of what is served; a value that is no upload of its key is a violation."""
        out = {}
        x = self.srv.connect()
        for t in range(1, self.cfg["NTab"] + 1):
            for k in range(1, self.cfg["NKey"] + 1):
                st, hd, body = x.request(sut.get(self.t[t - 1], self.k[k - 1]))
                self.checks += 1
                if st == 404:
                    continue
                if st != 200:
                    self.fail("crash", "GET answered %d after the start" % st)
                    continue
                for e in self.known(t, k):
                    if body == value(e["u"], e["n"]):
                        out[(t, k)] = (e["u"], e["n"])
                        ttl = e["exp"] - self.now if e["exp"] else 0
                        if hd.get("x-ttl") != str(ttl):
                            self.fail("crash", "X-Ttl %s of t%d/k%d, %d seconds remain" % (hd.get("x-ttl"), t, k, ttl))
                        break
                else:
                    self.fail("crash", "t%d/k%d is answered with a value of %d bytes that is no upload of it that could be there: %r" % (t, k, len(body), body[:48]))
        x.close()
        return out

    def known(self, t, k):
        i = max(self.step, 0)
        seen = []
        for o in list(self.trace[i]["out"]) + [dict(must=self.trace[i]["cur"], may=[])]:
            for e in o["must"] + o["may"]:
                if e["t"] == t and e["k"] == k and e not in seen:
                    seen.append(e)
        return seen

    def fits(self, found, o):
        def live(es):
            return {(e["t"], e["k"]): (e["u"], e["n"]) for e in es if not (e["exp"] and e["exp"] < self.now)}
        must, may = live(o["must"]), live(o["may"])
        return all(found.get(x) == v for x, v in must.items()) and all(must.get(x) == v or may.get(x) == v for x, v in found.items())

    def counted(self, found):
        """Expired values have been read and are gone, so what is counted is what is there."""
        st = self.srv.stats()
        small = [n for _, n in found.values() if n <= self.cfg["BlockMax"]]
        for k, v in (("keys", len(found)), ("bytes", sum(n for _, n in found.values())), ("tables", len({t for t, _ in found})), ("bused", len(small))):
            self.checks += 1
            if st[k] != v:
                self.fail("crash", "%s is %d after the start, must be %d" % (k, st[k], v))

    def go_on(self, found):
        """Store, overwrite, delete, save, crash again: everything must be exact."""
        srv, rng = self.srv, self.rng
        x = srv.connect()
        want = dict(found)
        u = 0x100000 + self.kill_at
        allk = [(t, k) for t in range(1, self.cfg["NTab"] + 1) for k in range(1, self.cfg["NKey"] + 1)]
        self.fresh = {}
        for t, k in rng.sample(allk, min(len(allk), 4)):
            if (t, k) in want and rng.random() < .4:
                st = x.request(sut.delete(self.t[t - 1], self.k[k - 1]))[0]
                if st != 200:
                    self.fail("crash", "DELETE answered %d after the start" % st)
                want.pop((t, k))
            else:
                u += 1
                n = rng.choice([9, 50, 4096, 4097, 9000])
                st = x.request(sut.put(self.t[t - 1], self.k[k - 1], value(u, n)))[0]
                if st != 200:
                    self.fail("crash", "PUT answered %d after the start" % st)
                want[(t, k)] = (u, n)
        if srv.ctl.request(b"ADMIN /gc HTTP/1.1\r\n\r\n")[0] != 200:
            self.fail("stats", "ADMIN /gc not answered with 200")
        srv.wait_flush()
        for again in (False, True):
            if again:
                x.close()
                srv.kill()
                srv.start()
                x = srv.connect()
            for (t, k) in allk:
                st, hd, body = x.request(sut.get(self.t[t - 1], self.k[k - 1]))
                self.checks += 1
                w = want.get((t, k))
                if (st == 200) != (w is not None) or w and body != value(*w):
                    self.fail("crash", "t%d/k%d after further changes%s: %d %r, must be %s" % (
                        t, k, " and another crash" if again else "", st, body[:32], w))
            self.counted(want)
        x.close()
