"""Helper of the demonstrations: a private server from ./_build on unix sockets in a scratch directory."""
import os, shutil, signal, socket, subprocess, sys, tempfile, time

BIN = os.path.abspath("_build/release/src/server/scache")
if not os.path.exists(BIN):
    for root, _, files in os.walk("."):
        if "scache" in files and os.access(os.path.join(root, "scache"), os.X_OK):
            BIN = os.path.abspath(os.path.join(root, "scache"))
            break

DIR = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(lambda: shutil.rmtree(DIR, ignore_errors=True))


class S:
    def __init__(self, *extra, mon=False, pre=None):
        self.extra, self.mon, self.pre = list(extra), mon, pre
        self.db = os.path.join(DIR, "db")
        os.makedirs(self.db, exist_ok=True)
        self.start()

    def start(self):
        self.sock = os.path.join(DIR, "s")
        self.msock = os.path.join(DIR, "m")
        for s in (self.sock, self.msock):
            if os.path.exists(s):
                os.unlink(s)
        a = [BIN, "-b", "u:" + self.sock, "-r", self.db] + (["-B", "u:" + self.msock] if self.mon else []) + self.extra
        self.p = subprocess.Popen(a, cwd=DIR, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  start_new_session=True, preexec_fn=self.pre)
        for s in [self.sock] + ([self.msock] if self.mon else []):
            for _ in range(2000):
                try:
                    c = socket.socket(socket.AF_UNIX); c.connect(s); c.close()
                    break
                except OSError:
                    time.sleep(.005)
            else:
                fail("server does not start")
        atexit.register(self.kill)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def term(self, timeout=20):
        self.p.send_signal(signal.SIGTERM)
        return self.p.wait(timeout)

    def conn(self, mon=False):
        return C(self.msock if mon else self.sock)

    def req(self, data, head=False):
        c = self.conn()
        try:
            return c.req(data, head)
        finally:
            c.close()

    def put(self, t, k, v, ttl=None):
        return self.req(put(t, k, v, ttl))

    def get(self, t, k):
        return self.req(b"GET /%s/%s HTTP/1.1\r\n\r\n" % (t, k))

    def delete(self, path):
        return self.req(b"DELETE /%s HTTP/1.1\r\n\r\n" % path)

    def stats(self):
        import re
        b = self.req(b"GET / HTTP/1.1\r\n\r\n")[1].decode("latin1")
        return {k: int(v) for k, v in re.findall(r"(DB [\w ]+): (-?\d+)", b)}

    def gc(self, wait=True):
        r = self.req(b"ADMIN /gc HTTP/1.1\r\n\r\n")
        if wait:
            self.settle()
        return r

    def settle(self):
        for _ in range(4000):
            ch = open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)).read().split()
            if not [c for c in ch if state(c) not in "ZX"]:
                return
            time.sleep(.005)

    def alive(self):
        return self.p.poll() is None


def state(pid):
    try:
        return open("/proc/%s/stat" % pid).read().rsplit(")", 1)[1].split()[0]
    except OSError:
        return "X"


class C:
    def __init__(self, path, timeout=10):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.settimeout(timeout)
        self.s.connect(path)
        self.b = b""

    def send(self, d):
        self.s.sendall(d)

    def close(self):
        self.s.close()

    def more(self):
        d = self.s.recv(65536)
        if not d:
            raise EOFError("%d bytes" % len(self.b))
        self.b += d

    def reply(self, head=False):
        while b"\r\n\r\n" not in self.b:
            self.more()
        h, self.b = self.b.split(b"\r\n\r\n", 1)
        st = int(h.split()[1])
        self.hd = {l.split(b":")[0].lower(): l.split(b":", 1)[1].strip() for l in h.split(b"\r\n")[1:] if b":" in l}
        n = 0 if head else int(self.hd.get(b"content-length", b"0"))
        while len(self.b) < n:
            self.more()
        v, self.b = self.b[:n], self.b[n:]
        return st, v

    def req(self, d, head=False):
        self.send(d)
        return self.reply(head)


def put(t, k, v, ttl=None):
    return b"PUT /%s/%s HTTP/1.1\r\n%sContent-Length: %d\r\n\r\n" % (t, k, b"X-Ttl: %d\r\n" % ttl if ttl is not None else b"", len(v)) + v


def fail(text):
    print("FAIL:", text)
    sys.stdout.flush()
    sys.exit(1)


def check(ok, text):
    if not ok:
        fail(text)
