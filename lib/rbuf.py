"""Behaviours of spec/RBuf.tla performed on the input buffer of /repo (compiled on its own)."""
import os
import random
import subprocess
import tempfile

import sut
import tlc

SRC = os.path.join(sut.REPO, "src", "core")
_built = {}


def build(size, san, debug=False):
    """The driver with a buffer of `size` bytes; None if the buffer can not be compiled on its own."""
    key = (size, san, debug)
    if key not in _built:
        d = tempfile.mkdtemp(prefix="rb-", dir=sut.scratch())
        out = os.path.join(d, "driver")
        cmd = ["g++", "-g", "-O1", "-w", "-DBUFFER_SIZE=%d" % size, "-I", SRC, "-fpermissive"]
        cmd += ["-DDEBUG_BUILD"] if debug else ["-DNDEBUG"]
        cmd += ["-fsanitize=address,undefined"] if san else []
        p = subprocess.run(cmd + [os.path.join(sut.VERIF, "lib", "rbuf_driver.cpp"), os.path.join(SRC, "read_buffer.cpp"), "-o", out],
                           capture_output=True, text=True)
        _built[key] = (out, "") if p.returncode == 0 else (None, p.stderr[-600:])
    return _built[key]


DIGIT = {i: 48 + i for i in range(10)}


def byte(v, salt):
    """Model byte to real byte: 0..9 digits, others anything else (never NUL: names and numbers have none)."""
    return DIGIT[v] if v < 10 else (0x20, 0x0d, 0xff, 0x80, 0x3a, 0x2f, 0x61)[(v - 10 + salt) % 7]


def case(bins, arg, judged):
    """arg: a behaviour, the size of the buffer and the number of real bytes for one of the model."""
    size, scale, trace, seed = arg["size"], arg["scale"], arg["trace"], arg["seed"]
    exe, err = build(size, arg["san"], arg.get("debug", False))
    if exe is None:
        return dict(checks=0, skipped="the buffer can not be compiled on its own: " + err)
    rng = random.Random(seed)
    salt = rng.randrange(7)

    def real(s):
        if scale == 1:
            return bytes(byte(v, salt) for v in s)
        return b"".join(bytes((byte(v, salt) + (j * 7) % 91) & 255 or 1 for j in range(scale)) for v in s)

    def h(b):
        return b.hex() or "-"
    lines, want = ["skip %d" % (trace["off"] * scale)], [("skip", "ok")]
    for i, r in enumerate(trace["steps"]):
        lines.append("w " + h(real(r["x"])) if r["a"] == "w" else "r %d" % (r["x"] * scale))
        want.append((i, "ok"))
        lines.append("obs")
        want.append((i, "%d %d %d %d %s" % (r["len"] * scale, r["room"] * scale, r["contig"] * scale, r["roomto"] * scale, h(real(r["all"])))))
        lines.append("copy %d" % (r["n"] * scale))
        want.append((i, "%d %s" % (len(r["copy"]) * scale, h(real(r["copy"])))))
        w = real(r["w"])
        lines.append("cmp " + h(w))
        want.append((i, "equal" if r["eq"] else "different"))
        if scale == 1:
            lines.append("num %d" % r["m"])
            want.append((i, "no" if r["num"] == -1 else str(r["num"])))
    try:
        p = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, text=True, errors="replace", timeout=60,
                           env={"ASAN_OPTIONS": "detect_leaks=0", "PATH": os.environ.get("PATH", "")})
    except subprocess.TimeoutExpired:
        return dict(checks=0, bad=("buffer", "the buffer of %d bytes does not answer" % size))
    got = p.stdout.split("\n")[:-1]
    for j, (i, x) in enumerate(want):
        g = got[j] if j < len(got) else "nothing (%s)" % p.stderr.strip()[-300:]
        if g != x:
            return dict(checks=j, bad=("buffer", "buffer of %d bytes, cursors from %d, step %s, %s: answers %s, must be %s" % (
                size, trace["off"] * scale, i, lines[j][:60], g[:200], x[:200])))
    return dict(checks=len(want))


def generate(num, seed, size, width, depth, scale=1, san=False, debug=False):
    """size, width: of the buffer and how far the cursors count, in units of the model; one unit is `scale` real bytes."""
    starts = {0, 1, width - 1, width - size, width - size + 1, width - 2 * size - 1, width // 2, width // 2 - 1, size - 1}
    traces = tlc.simulate("RBufGen", dict(B=size, W=width, Bytes=set(range(13)), Digits=set(range(10)), Starts={x % width for x in starts}, Depth=depth),
                        num, depth, seed, cfg="SPECIFICATION GSpec\nINVARIANT Agree Emit\nCHECK_DEADLOCK FALSE\n")
    return [dict(size=size * scale, scale=scale, trace=t, seed=seed + i, san=san, debug=debug) for i, t in enumerate(traces)]
