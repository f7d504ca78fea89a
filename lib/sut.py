"""The system under test: build scache from /repo's working tree, start it on unix sockets, talk to it.

Nothing here knows what the right answer is; the TLA+ specifications do (see replay.py).
"""
import array
import ctypes
import fcntl
import mmap
import resource
import os
import re
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import termios
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIOCOUTQ = termios.TIOCOUTQ


class CheckError(Exception):
    """The machinery (not the system under test) failed."""


class ServerDied(Exception):
    pass


class Stall(Exception):
    """An answer or an effect that must come did not come in time."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="sc-", dir=base)
        import atexit
        owner = os.getpid()

        def clean():
            if os.getpid() == owner and os.environ.get("VERIF_KEEP") != "1":
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def set_scratch(path):
    global _scratch
    _scratch = path


SAN = "-fsanitize=address -fno-omit-frame-pointer"
KINDS = {
    # project's own flags for a release build
    "rel": dict(config="Release", cflags="", lflags=""),
    # release semantics, address sanitizer
    "asan": dict(config="Release", cflags=SAN, lflags="-fsanitize=address"),
    # the project's debug build: assertions on, every insert runs the gc
    "dbg": dict(config="Debug", cflags="", lflags=""),
    "dbgasan": dict(config="Debug", cflags=SAN, lflags="-fsanitize=address"),
}
_builds = {}


PLAIN = r"(?m)^(#define[ \t]+%s[ \t]+)\d+\b"


def scalable(name, top=None):
    """The header in which the configuration gives this number unconditionally."""
    f = os.path.join(top or REPO, "src", "core", "config.h")
    try:
        text = open(f).read()
    except OSError:
        return None
    return f if re.search(PLAIN % name, text) and not re.search(r"#ifndef[ \t]+%s\b" % name, text) else None


def build(kind, defs="", name=None):
    """Compile the server from /repo's current sources with the project's Makefiles; returns the binary."""
    key = (kind, defs)
    if key in _builds:
        return _builds[key]
    k = KINDS[kind]
    d = tempfile.mkdtemp(prefix="b-%s-" % kind, dir=scratch())
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith((".o", ".a")) or f == "scache":
                os.unlink(os.path.join(root, f))
    rest = []
    for x in defs.split():
        n, _, v = x[2:].partition("=")
        f = scalable(n, d)
        if f:       # given without #ifndef: another value in the copy
            text = open(f).read()
            open(f, "w").write(re.sub(PLAIN % n, r"\g<1>" + v, text))
        else:
            rest.append(x)
    defs = " ".join(rest)
    shim = os.path.join(d, "shim.o")
    p = subprocess.run(["gcc", "-O1", "-g", "-c", os.path.join(VERIF, "lib", "shim.c"), "-o", shim],
                       capture_output=True, text=True)
    if p.returncode:
        raise CheckError("shim: " + p.stderr)
    env = dict(os.environ)
    for v in ("MAKEFLAGS", "CFLAGS", "LFLAGS", "CONFIG", "CC"):
        env.pop(v, None)
    args = ["CC=g++", "CONFIG=" + k["config"],
            "CFLAGS=%s %s -w" % (k["cflags"], defs),
            "LFLAGS=%s %s -ldl -lpthread" % (shim, k["lflags"])]
    for sub in ("core", "server"):
        p = subprocess.run(["make", "-j8", "-C", os.path.join(d, "src", sub), "all"] + args,
                           env=env, capture_output=True, text=True)
        if p.returncode:
            raise CheckError("build of /repo failed (%s): %s" % (kind, (p.stdout + p.stderr)[-3000:]))
    b = os.path.join(d, "src", "server", "scache")
    if not os.access(b, os.X_OK):
        raise CheckError("no server binary")
    _builds[key] = b
    return b


CTL = {n: i * 8 for i, n in enumerate(
    "clock_on sec usec tod_calls sndbuf wcap fs_ops kill_at fail_after file_writes hold_child held released "
    "fs_on eagain sock_writes forks wpart flush_done fail_count log_on fail_trunc rcap ewait "
    "fail_cp fail_open kill_child block daemon sigs calls fail_n pid_watch pid_gone".split())}

T0 = 1790000000  # virtual clock at start, seconds


class Shm:
    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)
        self.v = memoryview(self.m).cast("q")      # struct.pack_into writes zeros first, which the server could see

    def __getitem__(self, n):
        return self.v[CTL[n] // 8]

    def __setitem__(self, n, v):
        self.v[CTL[n] // 8] = v

    def close(self):
        self.v.release()
        self.m.close()
        self.f.close()


LONG = float(os.environ.get("VERIF_TIMEOUT", "20"))


def running(pid):
    try:
        return open("/proc/%s/stat" % pid).read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


class Daemon:
    """A server in the background: an orphan, whose parent this process becomes (see Server.start)."""
    def __init__(self, pid):
        self.pid, self.returncode = pid, None

    def poll(self):
        return self.wait(flags=os.WNOHANG)

    def wait(self, timeout=None, flags=0):
        t = time.monotonic() + (timeout or LONG)
        while self.returncode is None:
            try:
                p, st = os.waitpid(self.pid, os.WNOHANG)
            except ChildProcessError:
                # not ours (yet)
                if not running(self.pid):
                    self.returncode = 255
                p = 0
            if p:
                self.returncode = os.waitstatus_to_exitcode(st)
            elif flags:
                return None
            elif time.monotonic() > t:
                raise subprocess.TimeoutExpired("scache", timeout)
            else:
                time.sleep(.001)
        return self.returncode

    def send_signal(self, s):
        if self.poll() is None:
            os.kill(self.pid, s)


def binds(places):
    return ",".join("u:" + x if isinstance(x, str) else "%s:%d" % x for x in places)


class Server:
    _n = 0

    def __init__(self, binary, db=None, max_size=0, clear=None, mon=False, clock=True, pidfile=None, keep_db=False,
                 sndbuf=0, extra=(), name=None, tcp=False, dbname="db", stack=0, leaks=False, listeners=""):
        Server._n += 1
        self.dir = os.path.join(scratch(), name or "s%d-%d" % (os.getpid(), Server._n))
        os.makedirs(self.dir, exist_ok=True)
        self.db = db or os.path.join(self.dir, dbname)
        os.makedirs(self.db, exist_ok=True)
        self.binary = binary
        self.sock = os.path.join(self.dir, "c")
        self.monsock = os.path.join(self.dir, "m")
        self.shm = Shm(os.path.join(self.dir, "shm"))
        self.shm["clock_on"] = 1 if clock else 0
        self.shm["sec"] = T0
        self.shm["usec"] = 0
        self.shm["sndbuf"] = sndbuf
        self.shm["ewait"] = 10      # stop sooner than the 500 ms its threads sleep
        # where clients connect to: the first is a unix socket, then "u" for another one, "t" for a port of an address of its own
        self.places = [self.sock]
        self.monplaces = [self.monsock]
        for i, l in enumerate(listeners):
            for j, ps in enumerate((self.places, self.monplaces)):
                ps.append("%s%d" % (ps[0], i) if l == "u" else
                          ("127.%d.%d.%d" % (1 + os.getpid() // 65536 % 250, os.getpid() // 256 % 256, os.getpid() % 256), 1024 + (Server._n * 16 + i * 2 + j) % 30000))
        self.args = [binary, "-b", binds(self.places), "-r", dbname if dbname[0] in ".-" and not db else self.db]
        if mon:
            self.args += ["-B", binds(self.monplaces)]
        if max_size:
            self.args += ["-s", str(max_size)]
        if clear is not None:
            self.args += ["-l", str(clear)]
        if pidfile:
            self.args += ["-m", pidfile]
        self.args += list(extra)
        self.mon = mon
        self.stack = stack
        self.leaks = leaks
        self.background = "-d" in self.args
        self.p = None
        self.ctl = None
        self.turn = 0
        self.conns = []
        self.others = []
        self.closed = False
        self.rounds = 3             # more if the server takes few events at a time

    def start(self, wait=True):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "SCSHIM": self.shm.path, "SCPID": os.path.join(self.dir, "pid"),
               "SCSHIM_LOG": os.path.join(self.dir, "fslog"),
               "ASAN_OPTIONS": "detect_leaks=%d:abort_on_error=1:allocator_may_return_null=1:log_path=%s" %
               (self.leaks, os.path.join(self.dir, "asan")), "UBSAN_OPTIONS": "print_stacktrace=1"}
        for s in self.places + self.monplaces:
            if isinstance(s, str) and os.path.exists(s):
                os.unlink(s)
        if self.background:
            ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)         # PR_SET_CHILD_SUBREAPER
            self.shm["daemon"] = 1
        self.err = open(os.path.join(self.dir, "err"), "ab")
        self.p = subprocess.Popen(self.args, env=env, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err,
                                  start_new_session=True, cwd=self.dir,
                                  preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_STACK, (self.stack, self.stack))) if self.stack else None)
        if wait:
            self.wait_up()
            if self.background:
                try:
                    rc = self.p.wait(LONG)
                except subprocess.TimeoutExpired:
                    raise Stall("the process that started the daemon does not end")
                if rc != 0:
                    raise ServerDied("exit status %d of the process that started the daemon" % rc)
                self.p = Daemon(struct.unpack("iII", self.ctl.s.getsockopt(socket.SOL_SOCKET, socket.SO_PEERCRED, 12))[0])
                if self.p.poll() is not None:
                    raise ServerDied(self.death())
        return self

    def wait_up(self, timeout=LONG):
        t = time.monotonic() + timeout
        # the connection that succeeds is kept as the control connection: nothing else stays open in the server
        want = (self.monplaces if self.mon else []) + self.places[1:] + [self.sock]
        for w in want:
            while True:
                if self.p.poll() is not None and not (self.background and self.p.returncode == 0):
                    raise ServerDied("server exited during start, status %s" % self.p.returncode)
                try:
                    c = Conn(self, control=True, to=w)
                    break
                except OSError:
                    if time.monotonic() > t:
                        raise Stall("server does not listen")
                    time.sleep(0.002)
            if w == self.sock:
                self.ctl = c
            else:
                c.close()

    def alive(self):
        return self.p is not None and self.p.poll() is None

    def check_alive(self):
        if not self.alive():
            raise ServerDied(self.death())

    def leaked(self):
        """What the leak sanitizer reported at the exit; "" if it could not work here, None if it reported nothing."""
        for f in sorted(os.listdir(self.dir)):
            if f.startswith("asan."):
                t = open(os.path.join(self.dir, f), errors="replace").read()
                if "LeakSanitizer has encountered a fatal error" in t:
                    return ""
                if "LeakSanitizer: detected" in t:
                    fr = re.findall(r"#\d+ \S+ in ([^\n(]+)[^\n]*?([\w.]+:\d+)", t)
                    return " < ".join("%s %s" % x for x in fr[1:5])
        return None

    def death(self):
        s = "server died, status %s" % self.p.returncode
        for f in sorted(os.listdir(self.dir)):
            if f.startswith("asan."):
                t = open(os.path.join(self.dir, f), errors="replace").read()
                m = re.search(r"ERROR: (AddressSanitizer: \S+)", t)
                fr = re.findall(r"#\d+ \S+ in (\S+) [^\n]*?([\w.]+:\d+)", t)[:4]
                s += " (%s at %s)" % (m.group(1) if m else "sanitizer report", " < ".join("%s %s" % x for x in fr))
                break
        else:
            try:
                with open(os.path.join(self.dir, "err"), "rb") as f:
                    f.seek(0, 2)
                    f.seek(max(0, f.tell() - 4000))
                    for l in f.read().decode(errors="replace").splitlines():
                        if "ssertion" in l or "ABORT" in l or "SYSTEM ERROR" in l:
                            s += " (" + l.strip()[:200] + ")"
            except OSError:
                pass
        return s

    # -- lifecycle
    def term(self, timeout=LONG):
        """SIGTERM and wait for a clean exit; returns the exit status."""
        self.drop_conns_handles()
        self.p.send_signal(signal.SIGTERM)
        return self.wait_exit(timeout)

    def wait_exit(self, timeout=LONG):
        import select
        fd = os.pidfd_open(self.p.pid)
        try:
            if not select.select([fd], [], [], timeout)[0]:
                raise Stall("server did not stop after SIGTERM")
        finally:
            os.close(fd)
        return self.p.wait()

    def kill(self):
        if self.p is None:
            return
        ch = []
        try:
            if self.p.poll() is None:
                ch = self.children()
        except (OSError, ServerDied):
            pass
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        # children of the group die with it; wait until none is left
        for _ in range(2000):
            if not any(running(c) for c in ch):
                break
            time.sleep(0.001)
        self.drop_conns_handles()

    def drop_conns_handles(self):
        for c in list(self.conns):
            c.close()
        if self.ctl:
            self.ctl.close()
            self.ctl = None

    def close(self, wipe=True):
        if self.background and not isinstance(self.p, Daemon):
            # a daemon nobody has got to know
            for t in os.listdir("/proc/self/task"):
                for c in open("/proc/self/task/%s/children" % t).read().split():
                    try:
                        if self.db.encode() in open("/proc/%s/cmdline" % c, "rb").read().split(b"\0"):
                            os.kill(int(c), signal.SIGKILL)
                    except OSError:
                        pass
        if self.p is not None and self.p.poll() is None:
            self.kill()
        else:
            self.drop_conns_handles()
            if self.p is not None:
                try:
                    os.killpg(self.p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
        self.err.close()
        self.shm.close()
        if wipe and os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(self.dir, ignore_errors=True)

    # -- driving
    def connect(self):
        try:
            return Conn(self)
        except OSError as e:
            try:
                self.p.wait(2)
            except subprocess.TimeoutExpired:
                raise Stall("can not connect: %s" % e)
            raise ServerDied(self.death())

    def stats(self):
        """GET / on the control connection. Its answer implies that everything sent earlier was processed."""
        if self.closed:
            # epoll may report the request on the control connection in the same batch as, and before, the end of
            # another connection; what is asked next is in a later batch
            self.closed = False
            for i in range(self.rounds):
                self.ctl.request(b"GET / HTTP/1.1\r\n\r\n")
        st, hd, body = self.ctl.request(b"GET / HTTP/1.1\r\n\r\n")
        return parse_stats(body)

    def barrier(self):
        self.stats()

    def set_time(self, sec, usec=0):
        self.shm["usec"] = (sec - T0) * 1000000 + usec
        n = self.shm["tod_calls"]
        t = time.monotonic() + LONG
        while self.shm["tod_calls"] < n + 2:
            if time.monotonic() > t:
                self.check_alive()
                raise Stall("server does not read the clock")
            time.sleep(0.001)

    def fds(self):
        n = 0
        for f in os.listdir("/proc/%d/fd" % self.p.pid):
            n += 1
        return n

    def crowd(self, n):
        """More clients connect than the server has descriptors for (two of them get one)."""
        self.uncrowd()
        have = self.fds()
        self.few = have, resource.prlimit(self.p.pid, resource.RLIMIT_NOFILE)
        resource.prlimit(self.p.pid, resource.RLIMIT_NOFILE, (have + 2, self.few[1][1]))
        for _ in range(n):
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect(self.sock)
            except OSError:
                time.sleep(.2)
                self.check_alive()
                raise
            self.others.append(s)

    def leave(self):
        for s in self.others:
            s.close()
        self.others = []

    def uncrowd(self):
        if not self.others:
            return
        self.leave()
        resource.prlimit(self.p.pid, resource.RLIMIT_NOFILE, self.few[1])
        self.barrier()
        t = time.monotonic() + LONG
        while self.fds() > self.few[0]:
            if time.monotonic() > t:
                self.check_alive()
                raise Stall("connections of clients that are gone stay open")
            time.sleep(.002)

    def children(self):
        """Living children of the server (the saving one)."""
        try:
            ch = open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)).read().split()
        except OSError:
            self.check_alive()
            raise
        return [int(c) for c in ch if running(c)]

    def wait_flush(self, timeout=LONG):
        """Wait until no child of the server is left."""
        t = time.monotonic() + timeout
        while True:
            if not self.children():
                return
            if time.monotonic() > t:
                raise Stall("background save does not finish")
            time.sleep(0.001)

    def files(self):
        """{relative path: size} of the large-value files on disk."""
        out = {}
        root = os.path.join(self.db, "files")
        for d in os.scandir(root):
            if d.is_dir():
                for f in os.scandir(d.path):
                    out[d.name + "/" + f.name] = f.stat().st_size
        return out


def parse_stats(body):
    t = body.decode("latin1")
    out = {}
    for k, pat in (("keys", r"DB Keys: (-?\d+)"), ("tables", r"DB Tables: (-?\d+)"), ("bytes", r"DB Size Bytes: (-?\d+)"),
                   ("deletes", r"DB Stats Deletes: (-?\d+)"), ("gets", r"DB Stats Gets: (-?\d+)"),
                   ("inserts", r"DB Stats Inserts: (-?\d+)")):
        m = re.search(pat, t)
        if not m:
            raise Stall("statistics reply without %s: %r" % (k, t[:200]))
        out[k] = int(m.group(1))
    m = re.search(r"DB Blocks Free: (\d+)/(\d+)", t)
    if not m:
        raise Stall("statistics reply without blocks")
    out["bfree"], out["bexist"] = int(m.group(1)), int(m.group(2))
    out["bused"] = out["bexist"] - out["bfree"]
    return out


class Closed(Exception):
    pass


class Conn:
    def __init__(self, srv, control=False, mon=False, to=None):
        self.srv = srv
        ps = srv.monplaces if mon else srv.places
        srv.turn += 1
        to = to or ps[0] if control else ps[srv.turn % len(ps)]
        self.tcp = isinstance(to, tuple)
        self.s = socket.socket(socket.AF_INET if self.tcp else socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            if self.tcp:
                self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.s.connect(to)
        except OSError:
            self.s.close()
            raise
        self.s.setblocking(False)
        self.buf = b""
        self.eof = False
        if not control:
            srv.conns.append(self)

    def close(self):
        if self.s is not None:
            self.s.close()
            self.s = None
            self.srv.closed = True
            if self in self.srv.conns:
                self.srv.conns.remove(self)

    def half_close(self):
        self.srv.closed = True
        self.s.shutdown(socket.SHUT_WR)

    def outq(self):
        """Bytes sent that the server has not taken."""
        if self.tcp:
            return self.outq_tcp()
        a = array.array("i", [0])
        fcntl.ioctl(self.s.fileno(), SIOCOUTQ, a)
        return a[0]

    def outq_tcp(self):
        a = array.array("i", [0])
        fcntl.ioctl(self.s.fileno(), 0x894b, a)         # SIOCOUTQNSD
        if a[0]:
            return a[0]
        end = ["%08X:%04X" % (struct.unpack("=I", socket.inet_aton(h))[0], p) for h, p in (self.s.getpeername(), self.s.getsockname())]
        for l in open("/proc/net/tcp"):
            f = l.split()
            if f[1:3] == end:
                return int(f[4].split(":")[1], 16)
        return 0

    def send(self, data, timeout=LONG):
        """Send all, and wait until the server has taken every byte out of its socket."""
        view = memoryview(data)
        t = time.monotonic() + timeout
        while view:
            try:
                n = self.s.send(view)
                view = view[n:]
            except BlockingIOError:
                if time.monotonic() > t:
                    self.srv.check_alive()
                    raise Stall("server does not read the request")
                # a server that waits for its answers to be read does not read requests
                if not self.pull():
                    import select
                    select.select([self.s], [self.s], [], 0.05)
                if self.eof:
                    raise Closed("connection closed by server while sending")
            except (BrokenPipeError, ConnectionResetError):
                self.pull()
                self.eof = True
                if not self.srv.alive():
                    raise ServerDied(self.srv.death())
                raise Closed("connection closed by server while sending")

    def taken(self, timeout=LONG):
        """Wait until the server has read all bytes sent so far."""
        t = None
        spins = 0
        while True:
            try:
                if self.outq() == 0:
                    return True
            except OSError:
                return True
            spins += 1
            if spins > 50:
                time.sleep(0.0005)
                if t is None:
                    t = time.monotonic() + timeout
                elif time.monotonic() > t:
                    self.srv.check_alive()
                    raise Stall("server does not read the request")
                if spins % 64 == 0:
                    self.srv.check_alive()
                    self.pull()
                    if self.eof:
                        return True

    def pull(self):
        """Take whatever has arrived, without waiting."""
        got = b""
        while not self.eof:
            try:
                d = self.s.recv(1 << 18)
            except BlockingIOError:
                break
            except ConnectionResetError:
                self.eof = True
                break
            if not d:
                self.eof = True
                break
            got += d
        if got:
            self.buf += got
        return len(got)

    def wait_bytes(self, n, timeout=LONG):
        """Wait for at least n buffered bytes or end of stream."""
        import select
        t = time.monotonic() + timeout
        while len(self.buf) < n and not self.eof:
            if self.pull():
                continue
            if self.eof:
                break
            select.select([self.s], [], [], 0.5)
            if time.monotonic() > t:
                self.srv.check_alive()
                raise Stall("no (complete) answer: have %r of %d bytes" % (self.buf[:120], n))
        return len(self.buf) >= n

    def read_head(self, timeout=LONG):
        import select
        t = time.monotonic() + timeout
        while b"\r\n\r\n" not in self.buf:
            if self.eof:
                if not self.srv.alive():
                    raise ServerDied(self.srv.death())
                raise Closed("connection closed, have %r" % self.buf[:200])
            if self.pull():
                continue
            if self.eof:
                continue
            select.select([self.s], [], [], 0.5)
            if time.monotonic() > t:
                self.srv.check_alive()
                raise Stall("no answer, have %r" % self.buf[:200])
        h, self.buf = self.buf.split(b"\r\n\r\n", 1)
        lines = h.split(b"\r\n")
        m = re.match(rb"HTTP/1\.1 (\d+) ", lines[0])
        if not m:
            raise Closed("malformed status line %r" % lines[0][:100])
        hd = {}
        for l in lines[1:]:
            k, _, v = l.partition(b":")
            k = k.decode("latin1").lower()
            if k in hd:
                raise Closed("duplicate header %s in reply" % k)
            hd[k] = v.strip().decode("latin1")
        return int(m.group(1)), hd

    def read_reply(self, head=False, timeout=LONG):
        st, hd = self.read_head(timeout)
        body = b""
        if "content-length" in hd and not head:
            n = int(hd["content-length"])
            if not self.wait_bytes(n, timeout):
                if not self.srv.alive():
                    raise ServerDied(self.srv.death())
                raise Closed("connection closed in the body: %d of %d bytes" % (len(self.buf), n))
            body, self.buf = self.buf[:n], self.buf[n:]
        return st, hd, body

    def request(self, data, head=False, timeout=LONG):
        self.send(data)
        return self.read_reply(head, timeout)

    def read_to_eof(self, timeout=LONG):
        import select
        t = time.monotonic() + timeout
        while not self.eof:
            if self.pull():
                continue
            if self.eof:
                break
            select.select([self.s], [], [], 0.5)
            if time.monotonic() > t:
                self.srv.check_alive()
                raise Stall("connection is not closed; have %r" % self.buf[-200:])
        b, self.buf = self.buf, b""
        return b

    def quiet(self):
        """No byte and no close pending."""
        self.pull()
        return not self.buf and not self.eof


_vals = {}


def value(i, n):
    """n bytes identifying upload i: every 8-byte word names the upload and its own position."""
    k = (i, n)
    v = _vals.get(k)
    if v is None:
        w = (n + 15) // 16
        v = b"".join(b"%07x:%07x." % (i & 0xfffffff, j) for j in range(w))[:n]
        if len(_vals) > 400:
            _vals.clear()
        _vals[k] = v
    return v


def put(t, k, body, ttl=None, extra=b""):
    h = b"PUT /%s/%s HTTP/1.1\r\n" % (t, k)
    if ttl is not None:
        h += b"X-Ttl: %d\r\n" % ttl
    return h + b"Content-Length: %d\r\n" % len(body) + extra + b"\r\n" + body


def get(t, k):
    return b"GET /%s/%s HTTP/1.1\r\n\r\n" % (t, k)


def delete(t, k):
    return b"DELETE /%s/%s HTTP/1.1\r\n\r\n" % (t, k)


def released(player):
    """The server is stopped, half of the times with its connections open, and must have released its memory."""
    srv = player.srv
    if not srv.leaks:
        return
    if srv.alive():
        if player.rng.random() < .5:
            for c in list(srv.conns):
                if c is not srv.ctl:
                    c.close()
            srv.barrier()
        srv.p.send_signal(signal.SIGTERM)
        srv.wait_exit()
    leak = srv.leaked()
    if leak:
        player.fail("memory", "memory is not released: " + leak)
