"""Exploration of the real programs (compress, uncompress, preprocess,
postprocess): every case is a complete run of one or two programs under a
controlled environment (how input and output are attached, how the input
arrives, at which point of the run a read or write fails, which command line)
and every run of the enumerated space is executed and judged."""
import fcntl, hashlib, itertools, json, multiprocessing, os, re, resource, select, shutil, signal, socket
import subprocess, tempfile, termios, threading, time
import vlib

EXE = {}
SCRATCH = None
HANG = 60
RUNS = 0


# ---------------------------------------------------------------- inputs
def _noise(n, seed, alpha=None):
    out, c = bytearray(), 0
    while len(out) < n:
        out += hashlib.sha256(b"%d-%d" % (seed, c)).digest()
        c += 1
    b = bytes(out[:n])
    if alpha:
        b = bytes(alpha[x % len(alpha)] for x in b)
    return b


def _pairs(n, rare=0):
    """makes pair replacement replace pairs (a pair needs > 1000 occurrences)"""
    b = b"abcdefgh" * (n // 8)
    return b + bytes((64 + i * 7) & 255 for i in range(rare))


WORDS = b"the quick brown fox jumps over the lazy dog and runs away. "
_inputs = {}


def data(key):
    """key -> bytes; every input is named by a short string"""
    if key in _inputs:
        return _inputs[key]
    kind, _, arg = key.partition(":")
    if kind == "hex":
        r = bytes.fromhex(arg)
    elif kind == "zeros":
        r = bytes(int(arg))
    elif kind == "noise":
        r = _noise(int(arg), 1)
    elif kind == "acgt":
        r = _noise(int(arg), 2, b"ACGT")
    elif kind == "text":
        n = int(arg)
        r = (WORDS * (n // len(WORDS) + 1))[:n]
    elif kind == "count":
        r = bytes(i & 255 for i in range(int(arg)))
    elif kind == "pairs":
        n, _, rare = arg.partition("+")
        r = _pairs(int(n), int(rare or 0))
    elif kind == "mixed":      # pair-rich and incompressible parts
        n = int(arg)
        r = (_pairs(16000) + _noise(3000, 3))
        r = (r * (n // len(r) + 1))[:n]
    else:
        raise KeyError(key)
    if len(_inputs) > 64:
        _inputs.clear()
    _inputs[key] = r
    return r


def h(b):
    return hashlib.sha256(b).hexdigest()[:12]


def describe(b):
    return "%d bytes %s" % (len(b), b.hex() if len(b) <= 24 else b[:24].hex() + "...")


# ---------------------------------------------------------------- running
class Hang(Exception):
    pass


class Result:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def path(name):
    return os.path.join(SCRATCH, name)


def put(name, b):
    p = path(name)
    with open(p, "wb") as f:
        f.write(b)
    return p


def get(name):
    try:
        with open(path(name), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def run(prog, args, stdin=None, stdout=None, fsize=None, wrap=(), timeout=None, close=(), nosigpipe=False, spawned=None, env=None, aspace=None):
    """One run of a real program. stdin/stdout: file objects or descriptors,
    default /dev/null and a pipe."""
    global RUNS
    RUNS += 1

    def pre():
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if aspace is not None:
            resource.setrlimit(resource.RLIMIT_AS, (aspace, aspace))
        if nosigpipe:
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        for fd in close:
            os.close(fd)

    need_pre = fsize is not None or aspace is not None or close or nosigpipe
    with open(path("stderr"), "wb") as ef:
        p = subprocess.Popen(list(wrap) + [EXE[prog]] + list(args), cwd=SCRATCH, stdin=subprocess.DEVNULL if stdin is None else stdin,
                             stdout=subprocess.PIPE if stdout is None else stdout, stderr=ef,
                             env=dict(os.environ, **env) if env else None, preexec_fn=pre if need_pre else None, restore_signals=not need_pre)
        if spawned:
            spawned()
        try:
            out, _ = p.communicate(timeout=timeout or HANG)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Hang("%s %s did not finish within %d s" % (prog, " ".join(args), timeout or HANG))
    return Result(p.returncode, out, get("stderr"))


def feed(fd, pieces):
    try:
        for x in pieces:
            while x:
                n = os.write(fd, x)
                x = x[n:]
    except OSError:
        pass
    finally:
        os.close(fd)


def feed_divided(fd, pieces):
    left = bytearray(4)
    try:
        for x in pieces:
            os.write(fd, x)
            n = 0
            while True:
                fcntl.ioctl(fd, termios.FIONREAD, left)
                if not any(left):
                    break
                n += 1
                time.sleep(0 if n < 200 else 0.0005)
                if n > 200:
                    p = select.poll()
                    p.register(fd, select.POLLERR)
                    if p.poll(0):
                        return           # the program is gone
    except OSError:
        pass
    finally:
        os.close(fd)


class Bad(Exception):
    """the property does not hold in this case"""


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def ok(r, what):
    need(r.rc == 0, "%s: exit status %d, stderr: %s" % (what, r.rc, r.err.decode("latin1").strip()[:300]))


def same(got, want, what):
    if got is None:
        raise Bad("%s: no output file" % what)
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Bad("%s: %s instead of %s, first difference at %d" % (what, describe(got), describe(want), i))


_canon = {}
BACK = {"compress": "uncompress", "preprocess": "postprocess"}


def canonical(prog, key, opts):
    """what prog produces for data(key), file to file"""
    k = (prog, key, opts)
    if k not in _canon:
        if len(_canon) > 200:
            _canon.clear()
        put("canon.in", data(key))
        r = run(prog, list(opts) + ["canon.in", "canon.out"])
        ok(r, "%s %s %s" % (prog, " ".join(opts), key))
        _canon[k] = get("canon.out")
        os.unlink(path("canon.out"))
    return _canon[k]


def source(prog, key, opts):
    """(input bytes, expected output bytes) of prog for this case"""
    if prog in BACK:
        return data(key), canonical(prog, key, opts)
    fwd = {v: k for k, v in BACK.items()}[prog]
    return canonical(fwd, key, opts), data(key)


# ---------------------------------------------------------------- attachments
IN_ATT = ["positional", "option", "option=", "stdin", "-i", "--stdin", "stdin-over-file", "--stdin-over-file"]
OUT_ATT = ["positional", "option", "option=", "stdout", "-c", "--stdout", "stdout-over-file", "--stdout-over-file"]


def attach(ia, oa):
    """argument lists for an attachment of input and output, or None if the
    combination cannot be expressed"""
    a, use_in, use_out = [], False, False
    if ia == "positional":
        a.append("in.dat")
    elif ia == "option":
        a += ["--input-file", "in.dat"]
    elif ia == "option=":
        a.append("--input-file=in.dat")
    else:
        use_in = True
        if ia.endswith("over-file"):
            a += ["other.dat", "--stdin" if ia.startswith("--") else "-i"]
        elif ia != "stdin":
            a.append(ia)
    if oa == "positional":
        if ia in ("stdin", "-i", "--stdin", "option", "option="):
            return None          # the first positional is the input file
        a.append("out.dat")
    elif oa == "option":
        a += ["--output-file", "out.dat"]
    elif oa == "option=":
        a.append("--output-file=out.dat")
    else:
        use_out = True
        if oa.endswith("over-file"):
            a += ["--output-file", "unused.dat", "--stdout" if oa.startswith("--") else "-c"]
        elif oa != "stdout":
            a.append(oa)
    return a, use_in, use_out


def case_attach(c):
    _, prog, key, opts, ia, oa = c
    src, want = source(prog, key, tuple(opts))
    att = attach(ia, oa)
    args, use_in, use_out = att
    put("in.dat", src)
    put("other.dat", b"not the input")
    for n in ("out.dat", "unused.dat"):
        if os.path.exists(path(n)):
            os.unlink(path(n))
    o = list(opts) if prog in BACK else []
    fin = open(path("in.dat"), "rb") if use_in else None
    fout = open(path("stdout"), "wb") if use_out else None
    try:
        r = run(prog, o + args, stdin=fin, stdout=fout)
    finally:
        if fin:
            fin.close()
        if fout:
            fout.close()
    what = "%s %s (input %s, output %s)" % (prog, " ".join(o + args), ia, oa)
    ok(r, what)
    same(get("stdout" if use_out else "out.dat"), want, what)
    if use_out:
        need(get("unused.dat") is None and get("out.dat") is None, what + ": created a file although writing to stdout")
    else:
        need(r.out == b"", what + ": wrote to stdout although output goes to a file: " + describe(r.out or b""))
    same(get("in.dat"), src, what + ": the input file changed")
    return h(want)


def case_opts(c):
    """round trip with given options; the forward result must not depend on spelling"""
    _, prog, key, opts, args = c
    want = canonical(prog, key, tuple(opts))
    put("in.dat", data(key))
    if os.path.exists(path("out.dat")):
        os.unlink(path("out.dat"))
    r = run(prog, args)
    what = "%s %s" % (prog, " ".join(args))
    ok(r, what)
    same(get("out.dat"), want, what)
    return h(want)


def case_round(c):
    _, prog, key, opts = c
    want = data(key)
    put("in.dat", want)
    for n in ("mid.dat", "out.dat"):
        if os.path.exists(path(n)):
            os.unlink(path(n))
    r = run(prog, list(opts) + ["in.dat", "mid.dat"])
    what = "%s %s of %s" % (prog, " ".join(opts), key)
    ok(r, what)
    mid = get("mid.dat")
    r = run(BACK[prog], ["mid.dat", "out.dat"])
    ok(r, BACK[prog] + " after " + what)
    same(get("out.dat"), want, "round trip of " + what)
    return h(mid or b"")


def case_replace(c):
    """an existing output file is fully replaced"""
    _, prog, key, opts, old = c
    src, want = source(prog, key, tuple(opts))
    size = {"empty": 0, "one": 1, "minus": max(len(want) - 1, 0), "same": len(want), "plus": len(want) + 1, "long": len(want) + 200000}[old]
    put("in.dat", src)
    put("out.dat", b"\xa5" * size)
    r = run(prog, (list(opts) if prog in BACK else []) + ["in.dat", "out.dat"])
    what = "%s over an existing file of %d bytes" % (prog, size)
    ok(r, what)
    same(get("out.dat"), want, what)
    return h(want)


def case_verb(c):
    _, prog, key, opts, verb, out = c
    src, want = source(prog, key, tuple(opts))
    put("in.dat", src)
    o = (list(opts) if prog in BACK else []) + ["-v", str(verb)]
    if out == "stdout":
        r = run(prog, o + ["-c", "in.dat"])
        got = r.out
    else:
        r = run(prog, o + ["in.dat", "out.dat"])
        got = get("out.dat")
    what = "%s %s to %s" % (prog, " ".join(o), out)
    ok(r, what)
    same(got, want, what)
    return h(want)


def case_name(c):
    _, prog, name_in, name_out = c
    src, want = source(prog, "text:500", ())
    for n in (name_in, name_out):
        if "/" in n:
            os.makedirs(os.path.join(SCRATCH, os.path.dirname(n)), exist_ok=True)
    put(name_in, src)
    r = run(prog, ["--input-file=" + name_in, "--output-file=" + name_out])
    what = "%s from %r to %r" % (prog, name_in, name_out)
    ok(r, what)
    same(get(name_out), want, what)
    os.unlink(path(name_in))
    os.unlink(path(name_out))
    return h(want)


# ---------------------------------------------------------------- C17
FAR = {"stdout-far31": 0x7ffffff0, "stdout-far32": 0x100000003, "stdin-far31": 0x7ffffff0, "stdin-far32": 0x100000003}
OUT_KINDS = ["file", "stdout-far31", "stdout-far32", "stdout-file", "stdout-append", "stdout-append-nonempty", "stdout-offset", "stdout-rdwr", "pipe", "pipe-small", "fifo", "socket", "dev-stdout-pipe", "dev-fd"]
IN_KINDS = ["file", "stdin-far31", "stdin-far32", "stdin-file", "stdin-offset", "fifo", "dev-stdin"]


def reader(fd, box, step=65536, size=None):
    out = bytearray()
    while True:
        try:
            b = os.read(fd, step)
        except OSError:
            break
        if not b:
            break
        out += b
    os.close(fd)
    box.append(bytes(out))


def case_outkind(c):
    _, prog, key, opts, kind = c
    src, want = source(prog, key, tuple(opts))
    put("in.dat", src)
    o = (list(opts) if prog in BACK else [])
    what = "%s %s of %s into %s" % (prog, " ".join(o), key, kind)
    prefix = b""
    if os.path.lexists(path("out.dat")):
        os.unlink(path("out.dat"))
    if kind == "file":
        r = run(prog, o + ["in.dat", "out.dat"])
        got = get("out.dat")
    elif kind.startswith("stdout"):
        flags = os.O_WRONLY | os.O_CREAT
        if "append" in kind:
            flags |= os.O_APPEND
        if "rdwr" in kind:
            flags = os.O_RDWR | os.O_CREAT
        if "nonempty" in kind or "offset" in kind:
            prefix = b"earlier contents" * 5
            put("out.dat", prefix)
        fd = os.open(path("out.dat"), flags, 0o600)
        if "offset" in kind:
            os.lseek(fd, len(prefix), os.SEEK_SET)
        if kind in FAR:
            os.lseek(fd, FAR[kind], os.SEEK_SET)
        try:
            r = run(prog, o + ["-c", "in.dat"], stdout=fd)
        finally:
            os.close(fd)
        if kind in FAR:
            with open(path("out.dat"), "rb") as f:
                f.seek(FAR[kind])
                got = f.read()
            os.unlink(path("out.dat"))
        else:
            got = get("out.dat")
    else:
        box = []
        if kind == "fifo":
            os.mkfifo(path("out.dat"))
            t = threading.Thread(target=lambda: reader(os.open(path("out.dat"), os.O_RDONLY), box))
            t.daemon = True
            t.start()
            r = run(prog, o + ["in.dat", "out.dat"])
            # release the reader if the program never opened the pipe
            try:
                os.close(os.open(path("out.dat"), os.O_WRONLY | os.O_NONBLOCK))
            except OSError:
                pass
        else:
            if kind == "socket":
                a, b = socket.socketpair()
                rd, wr = a.detach(), b.detach()
            else:
                rd, wr = os.pipe()
                if kind == "pipe-small":
                    fcntl.fcntl(wr, 1031, 4096)     # F_SETPIPE_SZ
            t = threading.Thread(target=reader, args=(rd, box, 61 if kind == "pipe-small" and len(want) < 20000 else 4093))
            t.daemon = True
            t.start()
            try:
                if kind == "dev-stdout-pipe":
                    r = run(prog, o + ["in.dat", "/dev/stdout"], stdout=wr)
                elif kind == "dev-fd":
                    global RUNS
                    RUNS += 1
                    with open(path("stderr"), "wb") as ef:
                        p = subprocess.run([EXE[prog]] + o + ["in.dat", "/dev/fd/%d" % wr], cwd=SCRATCH, stdin=subprocess.DEVNULL, pass_fds=[wr], stderr=ef, timeout=HANG)
                    r = Result(p.returncode, None, get("stderr"))
                else:
                    r = run(prog, o + ["-c", "in.dat"], stdout=wr)
            finally:
                os.close(wr)
        t.join(HANG)
        got = box[0] if box else b""
        if kind == "fifo":
            os.unlink(path("out.dat"))
    ok(r, what)
    same(got, prefix + want, what)
    return h(want)


def case_inkind(c):
    """input attached in different ways; pieces: how it arrives"""
    _, prog, key, opts, kind, pieces = c
    src, want = source(prog, key, tuple(opts))
    o = (list(opts) if prog in BACK else [])
    what = "%s %s of %s from %s %s" % (prog, " ".join(o), key, kind, pieces)
    if os.path.lexists(path("in.dat")):
        os.unlink(path("in.dat"))
    if os.path.lexists(path("out.dat")):
        os.unlink(path("out.dat"))
    if isinstance(pieces, int):
        parts = [src[i:i + pieces] for i in range(0, len(src), pieces)]
    elif pieces:
        parts, i = [], 0
        for n in pieces:
            parts.append(src[i:i + n])
            i += n
        assert i == len(src)
    else:
        parts = [src]
    outargs = ["--output-file=out.dat"]
    if kind == "file":
        put("in.dat", src)
        r = run(prog, o + ["in.dat"] + outargs)
    elif kind in FAR:
        with open(path("in.dat"), "wb") as f:
            f.seek(FAR[kind])
            f.write(src)
            if not src:
                f.truncate()
        with open(path("in.dat"), "rb", 0) as f:
            f.seek(FAR[kind])
            r = run(prog, o + ["-i"] + outargs, stdin=f)
        os.unlink(path("in.dat"))
    elif kind in ("stdin-file", "stdin-offset", "dev-stdin"):
        prefix = b"skip this" if kind == "stdin-offset" else b""
        put("in.dat", prefix + src)
        with open(path("in.dat"), "rb", 0) as f:
            f.seek(len(prefix))
            r = run(prog, o + (["/dev/stdin"] if kind == "dev-stdin" else ["-i"]) + outargs, stdin=f)
    elif kind == "fifo":
        os.mkfifo(path("in.dat"))
        t = threading.Thread(target=lambda: feed(os.open(path("in.dat"), os.O_WRONLY), parts))
        t.daemon = True
        t.start()
        r = run(prog, o + ["in.dat"] + outargs)
        os.unlink(path("in.dat"))
    elif kind == "pipe":
        rd, wr = os.pipe()
        if len(src) < 60000:
            # fits the pipe; the pieces are merged by the kernel
            feed(wr, parts)
            t = None
        else:
            t = threading.Thread(target=feed, args=(wr, parts))
            t.daemon = True
            t.start()
        try:
            r = run(prog, o + ["-i"] + outargs, stdin=rd)
        finally:
            os.close(rd)
    elif kind == "divided":
        # no read sees more than one piece: the next one is written only after
        # the program has taken the whole piece before it
        rd, wr = os.pipe()
        t = threading.Thread(target=feed_divided, args=(wr, parts))
        t.daemon = True
        t.start()
        r = run(prog, o + ["-i"] + outargs, stdin=rd, spawned=lambda: os.close(rd))
        t.join(HANG)
    ok(r, what)
    same(get("out.dat"), want, what)
    return h(want)


# ---------------------------------------------------------------- C16
def case_fsize(c):
    """the output device is full after exactly k bytes"""
    _, prog, key, opts, mode, k = c
    src, want = source(prog, key, tuple(opts))
    put("in.dat", src)
    o = (list(opts) if prog in BACK else [])
    what = "%s %s of %s into a %s limited to %d of %d bytes" % (prog, " ".join(o), key, mode, k, len(want))
    if os.path.exists(path("out.dat")):
        os.unlink(path("out.dat"))
    if mode == "file":
        r = run(prog, o + ["in.dat", "out.dat"], fsize=k)
        got = get("out.dat")
    else:
        # the limit hits only what goes through a file of its own
        flags = os.O_WRONLY | os.O_CREAT | (os.O_APPEND if mode == "append" else 0)
        if mode in ("stdout", "append"):
            fd = os.open(path("out.dat"), flags, 0o600)
            try:
                r = run(prog, o + ["-c", "in.dat"], stdout=fd, fsize=k)
            finally:
                os.close(fd)
            got = get("out.dat")
        else:
            r = run(prog, o + ["-c", "in.dat"], fsize=k)
            got = r.out
    if r.rc == 0:
        same(got, want, what + ": exit status 0")
    else:
        need(k < len(want), what + ": exit status %d although everything fits: %s" % (r.rc, r.err.decode("latin1")[:200]))
    return "%s-%d" % (mode, r.rc)


def case_rdfail(c):
    """standard input delivers k bytes and then fails"""
    _, prog, key, opts, k = c
    src, want = source(prog, key, tuple(opts))
    o = (list(opts) if prog in BACK else [])
    what = "%s %s of %s, input fails after %d of %d bytes" % (prog, " ".join(o), key, k, len(src))
    if os.path.exists(path("out.dat")):
        os.unlink(path("out.dat"))
    a, b = socket.socketpair()
    rd, wr = a, b
    if k:
        wr.sendall(src[:k])
    rd.sendall(b"x")           # unread by the peer: closing it resets the connection
    wr.close()
    try:
        r = run(prog, o + ["-i", "--output-file=out.dat"], stdin=rd.fileno())
    finally:
        rd.close()
    if prog in BACK:
        need(r.rc != 0, what + ": exit status 0")
    elif r.rc == 0:
        # a reader that knows where its data ends need not touch the failing part
        same(get("out.dat"), want, what + ": exit status 0")
    return "rd-%d" % r.rc


def case_dev(c):
    """devices and descriptors that always fail"""
    _, prog, key, opts, kind = c
    src, want = source(prog, key, tuple(opts))
    put("in.dat", src)
    o = (list(opts) if prog in BACK else [])
    what = "%s %s of %s: %s" % (prog, " ".join(o), key, kind)
    if os.path.isdir(path("dir")) is False:
        os.mkdir(path("dir"))
    if os.path.exists(path("out.dat")):
        os.unlink(path("out.dat"))
    expect_fail = True
    if kind == "full-stdout":
        with open("/dev/full", "wb") as f:
            r = run(prog, o + ["-c", "in.dat"], stdout=f)
        expect_fail = len(want) > 0
    elif kind == "full-file":
        r = run(prog, o + ["in.dat", "/dev/full"])
        expect_fail = len(want) > 0
    elif kind == "full-append":
        fd = os.open("/dev/full", os.O_WRONLY | os.O_APPEND)
        r = run(prog, o + ["-c", "in.dat"], stdout=fd)
        os.close(fd)
        expect_fail = len(want) > 0
    elif kind in ("broken-pipe", "broken-pipe-default"):
        rd, wr = os.pipe()
        os.close(rd)
        r = run(prog, o + ["-c", "in.dat"], stdout=wr, nosigpipe=kind == "broken-pipe")
        os.close(wr)
        expect_fail = len(want) > 0
    elif kind == "broken-pipe-later":
        # more data than the reader takes and the pipe holds
        rd, wr = os.pipe()
        fcntl.fcntl(wr, 1031, 4096)
        t = threading.Thread(target=lambda: (os.read(rd, 100), os.close(rd)))
        t.start()
        p = ["/bin/sh", "-c", "trap '' PIPE; exec \"$@\"", "sh"]
        r = run(prog, o + ["-c", "in.dat"], stdout=wr, wrap=p)
        os.close(wr)
        t.join(HANG)
        expect_fail = len(want) > 5000
    elif kind == "closed-stdout":
        r = run(prog, o + ["-c", "in.dat"], close=(1,))
        expect_fail = len(want) > 0
    elif kind == "readonly-stdout":
        with open(path("in.dat"), "rb") as f:
            r = run(prog, o + ["-c", "in.dat"], stdout=f)
        expect_fail = len(want) > 0
    elif kind == "closed-stdin":
        r = run(prog, o + ["-i", "--output-file=out.dat"], close=(0,))
    elif kind == "writeonly-stdin":
        with open(path("wo.dat"), "wb") as f:
            r = run(prog, o + ["-i", "--output-file=out.dat"], stdin=f)
    elif kind == "directory-input":
        r = run(prog, o + ["dir", "out.dat"])
    elif kind == "directory-stdin":
        fd = os.open(path("dir"), os.O_RDONLY)
        r = run(prog, o + ["-i", "--output-file=out.dat"], stdin=fd)
        os.close(fd)
    elif kind == "missing-input":
        r = run(prog, o + ["missing.dat", "out.dat"])
    elif kind == "missing-directory":
        r = run(prog, o + ["in.dat", "nowhere/out.dat"])
    elif kind == "directory-output":
        r = run(prog, o + ["in.dat", "dir"])
    elif kind == "memory-input":
        # /proc/self/mem fails at once with EIO
        r = run(prog, o + ["/proc/self/mem", "out.dat"])
    if expect_fail:
        need(r.rc != 0, what + ": exit status 0")
    return "%s-%d" % (kind, r.rc)


STRACE = shutil.which("strace")
CLASSES = {
    "read": "read,pread64,readv,preadv",
    "write": "write,pwrite64,writev,pwritev",
    "close": "close",
    "lseek": "lseek",
    "any": "read,pread64,readv,preadv,write,pwrite64,writev,pwritev,lseek",
}


def traced(prog, args, sel, inject=None, stdin=None, stdout=None):
    w = [STRACE, "-qq", "-o", path("trace")] + sel
    if inject:
        w += ["-e", "inject=" + inject]
    return run(prog, args, wrap=w, stdin=stdin, stdout=stdout)


def trace_lines():
    t = get("trace") or b""
    return [l for l in t.decode("latin1").splitlines() if "(" in l and not l.startswith("+++") and not l.startswith("---")]


def syscall_setup(prog, key, opts, side):
    src, want = source(prog, key, tuple(opts))
    put("in.dat", src)
    o = (list(opts) if prog in BACK else [])
    if os.path.exists(path("out.dat")):
        os.unlink(path("out.dat"))
    put("out.dat", b"")
    fin = fout = None
    if side in ("in", "out"):
        args = o + [path("in.dat"), path("out.dat")]
    elif side == "stdin":
        args = o + ["-i", "--output-file=" + path("out.dat")]
        fin = open(path("in.dat"), "rb", 0)
    elif side in ("stdout", "spool"):
        args = o + ["-c", path("in.dat")]
        if side == "stdout":
            fout = open(path("out.dat"), "wb", 0)
    if side == "spool":
        sel = ["-y"]
    elif side in ("in", "stdin"):
        sel = ["-P", path("in.dat")]
    else:
        sel = ["-P", path("out.dat")]
    return src, want, args, sel, fin, fout


def case_syscall(c):
    """the n-th system call of a class on the input or output fails; every n of
    the run is a case of its own, found out by tracing an undisturbed run"""
    _, prog, key, opts, side, cls, err = c
    if not STRACE:
        return "no-strace"
    names = CLASSES[cls]
    src, want, args, sel, fin, fout = syscall_setup(prog, key, opts, side)
    seen = []
    n = 1
    while True:
        if fin:
            fin.seek(0)
        if fout:
            fout.truncate(0)
            fout.seek(0)
        what = "%s %s of %s, %s call number %d on %s fails with %s" % (prog, " ".join(opts), key, cls, n, side, err)
        for attempt in (1, 2):
            if os.path.exists(path("trace")):
                os.unlink(path("trace"))
            r = traced(prog, args, ["-e", "trace=" + names] + sel, "%s:error=%s:when=%d" % (names, err, n), stdin=fin, stdout=fout)
            ls = trace_lines()
            if r.rc == 0 or ls or get("trace") is not None:
                break
        inj = [l for l in ls if "(INJECTED)" in l]
        if not inj:
            if r.rc != 0 and not ls:
                return "strace-unusable"
            break
        if cls == "lseek":
            if r.rc == 0:
                same(r.out if side == "spool" else get("out.dat"), want, what + ": exit status 0")
        else:
            need(r.rc != 0, what + ": exit status 0; " + inj[0])
        seen.append(r.rc)
        n += 1
        need(n < 3000, "too many calls")
    for f in (fin, fout):
        if f:
            f.close()
    same(r.out if side == "spool" else get("out.dat"), want, "undisturbed traced run of %s" % prog)
    need(r.rc == 0, "undisturbed traced run of %s: exit status %d" % (prog, r.rc))
    return "%d-%s" % (len(seen), sorted(set(seen)))


# ---------------------------------------------------------------- C19
def packed(b, i):
    v, s = 0, 0
    while True:
        x = b[i]
        v |= (x & 127) << s
        i += 1
        s += 7
        if not x & 128:
            return v, i


def packed_len(n):
    k = 1
    while n >> (7 * k):
        k += 1
    return k


def case_prep(c):
    _, key, block, prepr, extra = c
    want = data(key)
    put("in.dat", want)
    for n in ("mid.dat", "out.dat"):
        if os.path.exists(path(n)):
            os.unlink(path(n))
    args = ["--block", str(block), "--prepr", prepr] + list(extra) + ["in.dat", "mid.dat"]
    if prepr == "":
        args = ["--block", str(block)] + list(extra) + ["in.dat", "mid.dat"]
    r = run("preprocess", args)
    what = "preprocess %s of %s" % (" ".join(args), key)
    ok(r, what)
    mid = get("mid.dat")
    bs = max(block, 1) * 1024
    sizes = [min(bs, len(want) - i) for i in range(0, len(want), bs)]
    # the parts the output may add: per block its size and the marker of an
    # empty grammar, and the end marker
    bound = len(want) + sum(packed_len(s) + 1 for s in sizes) + 1
    if prepr == "":
        i, parts = 0, []
        try:
            while True:
                n, i = packed(mid, i)
                if n == 0:
                    break
                need(mid[i] == 0, "%s: block %d has a grammar without preprocessing" % (what, len(parts)))
                parts.append(mid[i + 1:i + 1 + n])
                i += 1 + n
        except IndexError:
            raise Bad("%s: output ends inside a block" % what)
        need(i == len(mid), "%s: %d bytes behind the end marker" % (what, len(mid) - i))
        need([len(p) for p in parts] == sizes, "%s: blocks of %s bytes instead of %s" % (what, [len(p) for p in parts][:8], sizes[:8]))
        same(b"".join(parts), want, what + ": stored payload")
    need(len(mid) <= bound, "%s: %d bytes from %d, more than the block headers allow" % (what, len(mid), len(want)))
    r = run("postprocess", ["mid.dat", "out.dat"])
    ok(r, "postprocess after " + what)
    same(get("out.dat"), want, "round trip of " + what)
    return h(mid)


# ---------------------------------------------------------------- C20
def case_invalid(c):
    """an invalid command line: rejected, output untouched"""
    _, prog, args, pre, place = c
    src, _ = source(prog, "text:300", ())
    put("in.dat", src)
    if os.path.exists(path("out.dat")):
        os.unlink(path("out.dat"))
    before = None
    if pre:
        before = b"precious contents"
        put("out.dat", before)
    args = list(args)
    if place == "before":
        a = args + ["in.dat", "out.dat"]
    elif place == "after":
        a = ["in.dat", "out.dat"] + args
    elif place == "middle":
        a = ["in.dat"] + args + ["out.dat"]
    else:
        a = ["--input-file=in.dat", "--output-file=out.dat"] + args
    r = run(prog, a)
    what = "%s %s" % (prog, " ".join(repr(x) if x == "" or " " in x else x for x in a))
    need(r.rc != 0, what + ": accepted")
    need(r.rc > 0, what + ": died from signal %d instead of reporting an error" % -r.rc)
    need(r.err.strip() != b"", what + ": no error message")
    got = get("out.dat")
    need(got == before, "%s: output file %s" % (what, "changed" if pre else "created"))
    same(get("in.dat"), src, what + ": input file")
    return "%s-%d" % (prog, r.rc)


def first_block(c):
    """(original size, slices) stored for the first block of a compressed file"""
    n, i = packed(c, 1)
    if n == 0:
        return 0, 0, None
    s, i = packed(c, i)
    return n, s, i


def case_valid(c):
    _, what_kind, value, key = c
    src = data(key)
    put("in.dat", src)
    if os.path.exists(path("out.dat")):
        os.unlink(path("out.dat"))
    opt = {"enc": ["--enc", value], "e": ["-e", value], "starts": ["--starts", value], "s": ["-s", value], "bwt": ["--bwt", value],
           "prepr": ["--prepr", value], "mem": ["--mem", value], "m": ["-m", value], "verb": ["--verb", value], "v": ["-v", value]}[what_kind]
    what = "compress %s of %s" % (" ".join(opt), key)
    r = run("compress", opt + ["in.dat", "out.dat"])
    ok(r, what)
    got = get("out.dat")
    need(got is not None and len(got) > 0, what + ": no output")
    if what_kind in ("enc", "e"):
        need(got[:1] == value.encode("latin1"), "%s: stored coder is %r" % (what, got[:1]))
    else:
        need(got[:1] == b"B", "%s: stored coder is %r although B is the default" % (what, got[:1]))
    n, slices, i = first_block(got)
    if what_kind in ("starts", "s") and len(src) > 256:
        # grammar (empty: one byte), 48-bit length, then the number of starting points - 1
        need(got[i + 1 + 6] == int(value) - 1, "%s: %d starting points stored" % (what, got[i + 1 + 6] + 1))
    elif what_kind != "prepr" and len(src) > 256:
        need(got[i + 1 + 6] == 7, "%s: %d starting points stored, default is 8" % (what, got[i + 1 + 6] + 1))
    if what_kind in ("mem", "m"):
        need(n <= max(int(value), 1) * 1000000, "%s: block of %d bytes with a memory limit of %s MB" % (what, n, value))
    if what_kind == "prepr":
        need((got[i] != 0) == (value != ""), "%s: grammar marker %d" % (what, got[i]))
    if what_kind in ("bwt", "verb", "v"):
        same(got, canonical("compress", key, ()), what)
    r = run("uncompress", ["out.dat", "back.dat"])
    ok(r, "uncompress after " + what)
    same(get("back.dat"), src, "round trip of " + what)
    return h(got)


def case_pvalid(c):
    _, args, key = c
    src = data(key)
    put("in.dat", src)
    what = "preprocess " + " ".join(args)
    r = run("preprocess", list(args) + ["in.dat", "mid.dat"])
    ok(r, what)
    r = run("postprocess", ["mid.dat", "out.dat"])
    ok(r, "postprocess after " + what)
    same(get("out.dat"), src, "round trip of " + what)
    return h(get("mid.dat"))


CASES = {"attach": case_attach, "opts": case_opts, "round": case_round, "replace": case_replace, "verb": case_verb, "name": case_name,
         "outkind": case_outkind, "inkind": case_inkind, "fsize": case_fsize, "rdfail": case_rdfail, "dev": case_dev, "syscall": case_syscall,
         "prep": case_prep, "invalid": case_invalid, "valid": case_valid, "pvalid": case_pvalid}


# ---------------------------------------------------------------- the spaces
def space_c02(T):
    fam = {}
    ins = ["hex:", "hex:61", "hex:00", "text:3000", "zeros:70000", "noise:66000", "pairs:12000"]
    optsets = [(), ("-e", "H"), ("--prepr", "p", "-e", "M")]
    if T:
        ins += ["noise:65536", "acgt:140000", "mixed:400000", "count:256"]
        optsets = [()] + [("-e", e) for e in "HmMub"] + [("--prepr", "pp", "-m", "1"), ("--bwt", "s", "-s", "256")]
    l = []
    for prog in ("compress", "uncompress"):
        for k in ins:
            for o in optsets:
                for ia in IN_ATT:
                    for oa in OUT_ATT:
                        if attach(ia, oa):
                            l.append(("attach", prog, k, o, ia, oa))
    fam["attachment of input and output"] = l
    # all orders of five options and all positions of the two files among them
    l = []
    chosen = [[("-e", "H"), ("-eH",), ("--enc", "H"), ("--enc=H",)], [("--bwt", "s"), ("--bwt=s",)],
              [("-s", "3"), ("-s3",), ("--starts", "3"), ("--starts=3",)], [("-m", "2"), ("-m2",), ("--mem", "2"), ("--mem=2",)],
              [("--prepr", "p"), ("--prepr=p",)]]
    canon = ("-e", "H", "--bwt", "s", "-s", "3", "-m", "2", "--prepr", "p")
    for n, perm in enumerate(itertools.permutations(range(5))):
        for m, (i, j) in enumerate(itertools.combinations(range(7), 2)):
            a, it, f = [], iter(perm), iter(["in.dat", "out.dat"])
            for x in range(7):
                if x in (i, j):
                    a.append(next(f))
                else:
                    q = next(it)
                    a += chosen[q][(n + m + q) % len(chosen[q])]
            l.append(("opts", "compress", "pairs:9000+30", canon, a))
    for sp in itertools.product(*chosen):          # all spellings
        l.append(("opts", "compress", "pairs:9000+30", canon, [y for x in sp for y in x] + ["in.dat", "out.dat"]))
        l.append(("opts", "compress", "pairs:9000+30", canon, ["--output-file", "out.dat"] + [y for x in sp for y in x] + ["--input-file=in.dat"]))
    fam["order and spelling of options"] = l
    l = [("round", "compress", "hex:%02x" % b, ()) for b in range(256)]
    for n in range(0, 8 if not T else 11):
        for t in itertools.product("ab", repeat=n):
            l.append(("round", "compress", "hex:" + "".join(t).encode().hex(), ()))
    for n in (255, 256, 257, 65535, 65536, 65537, 131071, 131072, 131073, 185000, 185001, 370001):
        for kind in ("noise", "zeros", "text"):
            l.append(("round", "compress", "%s:%d" % (kind, n), ("-m", "1")))
    for e in "HmMubB":
        for b in "ads":
            for s in ("1", "2", "8", "255", "256"):
                for p in ((), ("--prepr", "p"), ("--prepr", "ppp")):
                    for k in ("text:2000", "mixed:60000", "count:300"):
                        if not T and k != "mixed:60000" and p:
                            continue
                        l.append(("round", "compress", k, ("-e", e, "--bwt", b, "-s", s) + p))
    for e in "HmMubB":
        for m in ("0", "1", "2", "20", "1000", "11000", "12000", "100000"):
            for p in ((), ("--prepr", "pp")):
                if p and int(m) > 20000:
                    continue
                l.append(("round", "compress", "mixed:400000" if int(m) < 3 else "text:3000", ("-e", e, "-m", m) + p))
    fam["round trip of inputs and options"] = l
    l = []
    for prog in ("compress", "uncompress"):
        for k in ("hex:", "hex:61", "text:3000", "noise:140000"):
            for old in ("empty", "one", "minus", "same", "plus", "long"):
                l.append(("replace", prog, k, (), old))
        for v in (-1, 0, 1, 2, 3, 5, 100):
            for out in ("stdout", "file"):
                for k in ("text:3000", "pairs:12000"):
                    l.append(("verb", prog, k, ("--prepr", "p"), v, out))
                    l.append(("verb", prog, k, ("-e", "H"), v, out))
        for a in ("a b", "\u00fc\u4e2d.dat", "stdin", "-x", "sub/dir/x", "x" * 200, "*.dat", "a=b"):
            for b in ("o u t", "stdout", "-c", "sub/y", "o" * 200):
                l.append(("name", prog, a, b))
    fam["existing outputs, verbosity and file names"] = l
    return fam


def compositions(n):
    for m in range(1 << (n - 1)):
        r, cur = [], 1
        for i in range(n - 1):
            if m >> i & 1:
                r.append(cur)
                cur = 1
            else:
                cur += 1
        yield r + [cur]


def space_c17(T):
    fam = {}
    l = []
    jobs = []
    for k in ("hex:", "hex:61", "text:300", "noise:66000", "zeros:70000"):
        jobs += [("compress", k, ()), ("uncompress", k, ()), ("preprocess", k, ()), ("postprocess", k, ())]
    for k in ("noise:200000", "mixed:600000", "zeros:600000"):
        for o in (("-m", "1"), ("-m", "1", "-e", "H", "--prepr", "p")):
            jobs += [("compress", k, o), ("uncompress", k, o)]
        for o in (("-b", "64"), ("-b", "100", "--prepr", "p")):
            jobs += [("preprocess", k, o), ("postprocess", k, o)]
    for e in "HmMub":
        jobs.append(("compress", "text:5000", ("-e", e)))
    if T:
        for e in "HmMubB":
            for k in ("noise:400000", "acgt:1200000"):
                for p in ((), ("--prepr", "p")):
                    o = ("-e", e, "-m", "1") + p
                    jobs += [("compress", k, o), ("uncompress", k, o)]
    for prog, k, o in jobs:
        for kind in OUT_KINDS:
            l.append(("outkind", prog, k, o, kind))
    fam["kind of output"] = l
    l = []
    for prog, k, o in jobs:
        for kind in IN_KINDS:
            l.append(("inkind", prog, k, o, kind, None))
        for step in (1, 7, 4095, 4096, 4097, 65535, 65536, 65537):
            if step < 4000 and len(data(k)) > 5000:
                continue
            l.append(("inkind", prog, k, o, "divided", step))
        for step in (4096, 65535, 65536, 65537):
            l.append(("inkind", prog, k, o, "pipe", step))
    fam["kind of input and size of partial reads"] = l
    l = []
    n1 = 8 if T else 7
    for prog, k in (("compress", "text:%d" % n1), ("preprocess", "text:%d" % n1), ("postprocess", "text:%d" % (n1 - 1))):
        src_len = n1 if prog in BACK else n1 - 1 + 3
        for comp in compositions(src_len):
            l.append(("inkind", prog, k, (), "divided", comp))
    # decompression: all divisions into up to three (thorough: four) reads
    for e in "HB" if not T else "HmMubB":
        n = len(canonical("compress", "text:6", ("-e", e)))
        for parts in range(1, 4 if not T or e not in "H" else 5):
            for cut in itertools.combinations(range(1, n), parts - 1):
                pts = (0,) + cut + (n,)
                l.append(("inkind", "uncompress", "text:6", ("-e", e), "divided", [b - a for a, b in zip(pts, pts[1:])]))
    fam["all divisions of short inputs into reads"] = l
    return fam


def space_c16(T):
    fam = {}
    l = []
    small = [("hex:", ()), ("hex:6162", ()), ("text:60", ()), ("text:60", ("-e", "H"))]
    psmall = [("hex:", ()), ("hex:6162", ()), ("text:60", ())]
    for prog, jobs in (("compress", small), ("uncompress", small), ("preprocess", psmall), ("postprocess", psmall)):
        for k, o in jobs:
            n = len(source(prog, k, o)[1])
            for mode in ("file", "stdout", "append", "pipe"):
                for x in range(0, n + 2):
                    l.append(("fsize", prog, k, o, mode, x))
    big = [("noise:200000", ("-m", "1")), ("mixed:400000", ("-m", "1", "--prepr", "p"))]
    pbig = [("noise:200000", ("-b", "64")), ("mixed:400000", ("-b", "100", "--prepr", "p"))]
    for prog, jobs in (("compress", big), ("uncompress", big), ("preprocess", pbig), ("postprocess", pbig)):
        for k, o in jobs:
            n = len(source(prog, k, o)[1])
            pts = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, n - 7, n - 6, n - 2, n - 1, n, n + 1}
            for b in range(4096, n + 4097, 4096 if T else 16384):
                pts |= {b - 1, b, b + 1}
            for mode in ("file", "stdout", "append", "pipe"):
                for x in sorted(p for p in pts if 0 <= p <= n + 1):
                    l.append(("fsize", prog, k, o, mode, x))
    fam["output full after k bytes, every k"] = l
    l = []
    for prog, jobs in (("compress", small), ("uncompress", small), ("preprocess", psmall), ("postprocess", psmall)):
        for k, o in jobs:
            n = len(source(prog, k, o)[0])
            for x in range(0, n + 1):
                l.append(("rdfail", prog, k, o, x))
    for prog, jobs in (("compress", big), ("uncompress", big), ("preprocess", pbig), ("postprocess", pbig)):
        for k, o in jobs:
            n = len(source(prog, k, o)[0])
            pts = {0, 1, 2, n - 1, n}
            for b in range(4096, n, 4096 if T else 16384):
                pts |= {b - 1, b, b + 1}
            for x in sorted(p for p in pts if p < 160000 and 0 <= p <= n):
                l.append(("rdfail", prog, k, o, x))
    fam["input fails after k bytes, every k"] = l
    l = []
    kinds = ["full-stdout", "full-file", "full-append", "broken-pipe", "broken-pipe-default", "broken-pipe-later", "closed-stdout", "readonly-stdout",
             "closed-stdin", "writeonly-stdin", "directory-input", "directory-stdin", "missing-input", "missing-directory", "directory-output", "memory-input"]
    for prog, jobs in (("compress", small + big), ("uncompress", small + big), ("preprocess", psmall + pbig), ("postprocess", psmall + pbig)):
        for k, o in jobs:
            for kind in kinds:
                l.append(("dev", prog, k, o, kind))
    for e in "HmMub":
        for kind in kinds:
            l.append(("dev", "compress", "text:5000", ("-e", e), kind))
    fam["devices and descriptors that fail"] = l
    l = []
    for prog, jobs in (("compress", small + big), ("uncompress", small + big), ("preprocess", psmall + pbig), ("postprocess", psmall + pbig)):
        for k, o in jobs:
            for side, cls in (("in", "read"), ("stdin", "read"), ("out", "write"), ("stdout", "write"), ("out", "close"), ("out", "lseek"), ("stdout", "lseek"), ("spool", "lseek")):
                for err in ("EIO", "ENOSPC") if cls == "write" and T else ("EIO",):
                    l.append(("syscall", prog, k, o, side, cls, err))
    fam["every system call on input and output failing in turn"] = l
    return fam


def space_c19(T):
    fam = {}
    l = []
    preprs = ["", "p", "pp", "ppp"] if not T else ["p" * i for i in range(0, 9)]
    blocks = [0, 1, 2, 3, 16, 64, 100, 100000]
    ins = ["hex:", "hex:00", "hex:ff", "hex:6162", "hex:616263", "hex:61626364", "count:1023", "count:1024", "count:1025", "count:2048", "count:2049",
           "text:5000", "pairs:20000", "pairs:20000+40", "mixed:70000", "noise:66000", "zeros:66000", "noise:200000", "mixed:300000", "zeros:300000"]
    for k in ins:
        for b in blocks:
            for p in preprs:
                l.append(("prep", k, b, p, ()))
    # block sizes around 2^31 and 2^32 bytes: the memory is only reserved
    for b in (2097151, 2097152, 2097153, 4194303, 4194304, 4194305, 8388608):
        for k in ("hex:61", "text:5000", "pairs:20000+40", "noise:66000", "zeros:300000"):
            for p in ("", "p"):
                l.append(("prep", k, b, p, ()))
    fam["inputs x block sizes x preprocessing"] = l
    l = []
    for p in ("", "p"):
        for n in range(0, 7 if not T else 10):
            for t in itertools.product("ab", repeat=n):
                l.append(("prep", "hex:" + "".join(t).encode().hex(), 1, p, ()))
        for b in range(256):
            l.append(("prep", "hex:%02x" % b, 1, p, ()))
        # the last block of every small length, and lengths around packed-size steps
        for n in list(range(1020, 1060)) + list(range(2040, 2080)) + [126, 127, 128, 129, 16383, 16384, 16385]:
            l.append(("prep", "text:%d" % n, 1, p, ()))
        for n in (16383, 16384, 16385, 65535, 65536, 65537, 131072):
            l.append(("prep", "noise:%d" % n, 64, p, ()))
            l.append(("prep", "pairs:%d+3" % n, 64, p, ()))
    fam["all short inputs and block length boundaries"] = l
    l = []
    for k in ("text:3000", "mixed:70000", "hex:"):
        for o in ((), ("-b", "3", "--prepr", "p")):
            for prog in ("preprocess", "postprocess"):
                for ia in IN_ATT:
                    for oa in OUT_ATT:
                        if attach(ia, oa):
                            l.append(("attach", prog, k, o, ia, oa))
                for old in ("empty", "one", "minus", "same", "plus", "long"):
                    l.append(("replace", prog, k, o, old))
                for v in (0, 1, 2, 3):
                    for out in ("stdout", "file"):
                        l.append(("verb", prog, k, o, v, out))
    fam["attachment, replacement and verbosity"] = l
    return fam


VALUED = {"compress": ["-m", "--mem", "-s", "--starts", "-v", "--verb", "--bwt", "--prepr", "-e", "--enc", "--input-file", "--output-file"],
          "uncompress": ["-v", "--verb", "--input-file", "--output-file"],
          "preprocess": ["-b", "--block", "-v", "--verb", "--escape", "--prepr", "--input-file", "--output-file"],
          "postprocess": ["-v", "--verb", "--input-file", "--output-file"]}
SHORT = {"compress": "hicmsve", "uncompress": "hicv", "preprocess": "hicbv", "postprocess": "hicv"}


def space_c20(T):
    fam = {}
    l = []
    places = ["before", "after", "middle", "options"]

    def inv(prog, args, few=False):
        pl = ["before", "after"] if few else places
        for place in pl:
            # values given as a separate word could be taken from the file names
            for pre in (True, False):
                l.append(("invalid", prog, tuple(args), pre, place))

    chars = [chr(c) for c in range(33, 127)]
    odd = ["", "\x01", "\x7f", "\n"]
    for prog in ("compress",):
        for c in chars + odd:
            if c not in "HmMubB" or c == "":
                inv(prog, ["--enc=" + c], few=True)
                if c and c != "-":
                    inv(prog, ["-e", c], few=True)
            if c not in "ads" or c == "":
                inv(prog, ["--bwt=" + c], few=True)
        for s in ("BB", "Bx", "xB", "HB", "mm", "ub"):
            inv(prog, ["--enc=" + s])
        for s in ("as", "aa", "da", "sd", "auto"):
            inv(prog, ["--bwt=" + s])
        for s in ["0", "257", "258", "300", "511", "512", "513", "1000", "65535", "65536", "65537", "2147483648", "4294967295", "4294967296", "4294967297",
                  "18446744073709551616", "18446744073709551617", "-1", "-8", "-255", "-256", "abc", "", "8x", "x8", "1.5", "0x10", "1e2", "8,8", "--"] + [str(x) for x in range(257, 301)]:
            inv(prog, ["--starts=" + s], few=s.isdigit())
        for s in ["-1", "-100", "abc", "", "1.5", "10x", "0x10", "1e3", "18446744073709551616", "18446744073709551615", "288230376151711744", "18446744073710"]:
            inv(prog, ["--mem=" + s])
    for prog in ("compress", "preprocess"):
        for c in chars + odd[1:]:
            if c != "p":
                inv(prog, ["--prepr=" + c], few=True)
        for n in range(2, 4 if not T else 5):
            for t in itertools.product("pPq0 ", repeat=n):
                if set(t) != {"p"}:
                    inv(prog, ["--prepr=" + "".join(t)], few=True)
        for n in (5, 8, 16):
            for i in range(n):
                inv(prog, ["--prepr=" + "p" * i + "c" + "p" * (n - 1 - i)], few=True)
    for s in ["-1", "abc", "", "1.5", "10x", "18014398509481984", "18446744073709551615", "18446744073709551616"]:
        inv("preprocess", ["--block=" + s])
    for s in ["2", "maybe", "", "tru", "-1"]:
        inv("preprocess", ["--escape=" + s])
    for prog in EXE:
        for s in ["abc", "", "1x", "99999999999", "1.5"]:
            inv(prog, ["--verb=" + s])
        for c in (chr(x) for x in range(33, 127)):
            if c not in SHORT[prog] and c not in "-":
                inv(prog, ["-" + c], few=True)
        for s in ("--foo", "--unknown=3", "--zip", "--threads", "--level=9", "--no-such-option"):
            inv(prog, [s])
        # the options of the other programs
        for s in sorted({x for v in VALUED.values() for x in v} - set(VALUED[prog])):
            if s.startswith("--") and any(y.startswith(s) for y in VALUED[prog]):
                continue
            inv(prog, [s + "=1" if s.startswith("--") else s])
        inv(prog, ["third.dat", "fourth.dat"])
        for s in VALUED[prog]:
            for pre in (True, False):
                if s in ("--input-file", "--output-file"):
                    continue
                l.append(("invalid", prog, (s,), pre, "after"))
                l.append(("invalid", prog, (s,), pre, "options"))
    fam["invalid command lines"] = l
    l = []
    for k in ("text:3000", "hex:", "hex:61"):
        for e in "HmMubB":
            l += [("valid", "enc", e, k), ("valid", "e", e, k)]
        for b in "ads":
            l.append(("valid", "bwt", b, k))
        for v in ("-1", "0", "1", "2", "3", "10"):
            l += [("valid", "verb", v, k)] + ([("valid", "v", v, k)] if v != "-1" else [])
        for m in ("0", "1", "2", "3", "7", "50", "100", "1000", "11608", "11609", "11610", "12000", "20000", "100000"):
            l += [("valid", "mem", m, k), ("valid", "m", m, k)]
    for s in range(1, 257):
        l += [("valid", "starts", str(s), "text:257"), ("valid", "s", str(s), "noise:2000")]
    for n in range(0, 9):
        l.append(("valid", "prepr", "p" * n, "pairs:40000"))
    for m in ("0", "1", "2", "4"):
        l.append(("valid", "mem", m, "zeros:1200000"))
    for b in ("0", "1", "2", "100", "100000", "1000000"):
        for p in ("", "p", "pp"):
            for e in ("0", "1", "true", "false", "yes", "no", "on", "off"):
                l.append(("pvalid", ("-b", b, "--prepr", p, "--escape", e), "mixed:40000"))
    fam["documented values and their effect"] = l
    return fam


def case_cross(c):
    """one version's output restored by the other"""
    _, prog, key, opts = c
    want = data(key)
    put("in.dat", want)
    res = []
    for fwd, bwd in (("", "ref-"), ("ref-", "")):
        for n in ("mid.dat", "out.dat"):
            if os.path.exists(path(n)):
                os.unlink(path(n))
        r = run(fwd + prog, list(opts) + ["in.dat", "mid.dat"])
        what = "%s %s of %s by the %s version" % (prog, " ".join(opts), key, "earlier" if fwd else "current")
        ok(r, what)
        mid = get("mid.dat")
        r = run(bwd + BACK[prog], ["mid.dat", "out.dat"])
        what += ", restored by the %s version" % ("earlier" if bwd else "current")
        ok(r, what)
        same(get("out.dat"), want, what)
        res.append(h(mid))
    return tuple(res)


CASES["cross"] = case_cross


def space_c22(T):
    fam = {}
    l = []
    ins = ["hex:", "hex:61", "hex:00", "hex:6161", "text:3000", "zeros:70000", "noise:66000", "pairs:12000+60", "mixed:140000", "acgt:60000", "count:1000"]
    for k in ins:
        for e in "HmMubB":
            for p in ((), ("--prepr", "pp")):
                l.append(("cross", "compress", k, ("-e", e) + p))
        l.append(("cross", "compress", k, ()))
        for s in ("1", "2", "7", "255", "256"):
            l.append(("cross", "compress", k, ("-s", s)))
        for b in ("0", "1", "2", "64", "100000"):
            for p in ((), ("--prepr", "p"), ("--prepr", "pppp")):
                l.append(("cross", "preprocess", k, ("-b", b) + p))
    for k in ("noise:400000", "mixed:600000", "zeros:600000"):
        for e in "HB":
            l.append(("cross", "compress", k, ("-m", "1", "-e", e)))
            l.append(("cross", "compress", k, ("-m", "1", "-e", e, "--prepr", "p")))
        l.append(("cross", "preprocess", k, ("-b", "64", "--prepr", "p")))
    fam["programs of both versions"] = l
    return fam


# ---------------------------------------------------------------- C23
def cut_points(n, T):
    if n < (6000 if T else 1500):
        return list(range(n + 1))
    near = {x + d for x in range(0, n + 1, 65536) for d in (-2, -1, 0, 1, 2)}
    near |= set(range(40)) | set(range(n - 30, n + 1)) | set(range(0, n, max(1, n // (1500 if T else 250))))
    return sorted(x for x in near if 0 <= x <= n)


def case_trunc(c):
    """restoring the first k bytes of a stored form"""
    _, prog, key, opts, k, via = c
    z, want = canonical(prog, key, tuple(opts)), data(key)
    back = BACK[prog]
    put("in.dat", z[:k])
    if os.path.exists(path("out.dat")):
        os.unlink(path("out.dat"))
    limit = HANG // 3
    if via == "file":
        r = run(back, ["in.dat", "out.dat"], timeout=limit)
        got = get("out.dat") or b""
    elif via == "stdin":
        with open(path("in.dat"), "rb") as f:
            r = run(back, ["-i", "-c"], stdin=f, timeout=limit)
        got = r.out
    else:
        rd, wr = os.pipe()
        t = threading.Thread(target=feed, args=(wr, [z[:k]]))
        t.daemon = True
        t.start()
        try:
            r = run(back, ["-i", "-c"], stdin=rd, timeout=limit)
        finally:
            os.close(rd)
        got = r.out
        t.join(5)
    what = "%s of the first %d of %d bytes of %s %s of %s (%s)" % (back, k, len(z), prog, " ".join(opts), key, via)
    if k == len(z):
        ok(r, what)
        same(got, want, what)
        return ("whole", len(z))
    need(r.rc != 0, what + ": exit status 0 although the data is incomplete")
    need(r.rc > 0, what + ": ended by signal %d" % -r.rc)
    need(r.err.strip() != b"", what + ": no error message")
    need(want.startswith(got), what + ": wrote %s, which is not how the original starts" % describe(got))
    return (r.rc, len(got), len(want))


def space_c23(T):
    fam = {}

    def add(l, prog, key, opts, vias):
        n = len(canonical(prog, key, opts))
        for k in cut_points(n, T):
            for v in vias(k):
                l.append(("trunc", prog, key, opts, k, v))

    small = ["hex:", "hex:61", "hex:00ff00", "text:300", "noise:300", "zeros:5000", "count:600", "pairs:9000+30"] + (["acgt:3000", "noise:1500", "text:60000"] if T else [])
    l = []
    for key in small:
        for e in "HmMubB":
            add(l, "compress", key, ("-e", e), lambda k: ["file", "pipe"][k % 2:][:1] if not T else ["file", "pipe", "stdin"])
        add(l, "compress", key, ("--prepr", "pp"), lambda k: ["file"])
        add(l, "compress", key, ("--prepr", "pp", "-e", "H", "-s", "256"), lambda k: ["stdin"])
        for s in ("1", "255", "256"):
            add(l, "compress", key, ("-s", s), lambda k: ["file"])
    fam["every prefix of small archives"] = l
    l = []
    for key in small:
        for o in ((), ("--prepr", "pp"), ("-b", "1"), ("-b", "2", "--prepr", "p")):
            add(l, "preprocess", key, o, lambda k: [["file", "pipe", "stdin"][k % 3]])
    fam["every prefix of small preprocessed files"] = l
    l = []
    for key in ("mixed:400000", "noise:300000", "zeros:900000"):
        for e in "HB" if not T else "HmMubB":
            for p in ((), ("--prepr", "p")):
                add(l, "compress", key, ("-m", "1", "-e", e) + p, lambda k: ["file" if k % 4 else "pipe"])
        for o in (("-b", "64"), ("-b", "100", "--prepr", "p"), ("-b", "1000", "--prepr", "pp")):
            add(l, "preprocess", key, o, lambda k: ["file" if k % 4 else "pipe"])
    fam["prefixes of archives of several blocks"] = l
    return fam


CASES["trunc"] = case_trunc

# ---------------------------------------------------------------- C24, C25
def case_space(c):
    """a run within a limited address space, which does not depend on the
    length of the input"""
    _, prog, key, opts, mb, via = c
    if prog in BACK:
        src, want = data(key), None
    else:
        src, want = canonical({v: k for k, v in BACK.items()}[prog], key, tuple(opts)), data(key)
    put("in.dat", src)
    o = (list(opts) if prog in BACK else [])
    if via == "file":
        r = run(prog, o + ["in.dat", "out.dat"], aspace=mb << 20)
        got = get("out.dat")
    else:
        with open(path("in.dat"), "rb") as f:
            r = run(prog, o + ["-i", "-c"], stdin=f, aspace=mb << 20)
        got = r.out
    what = "%s %s of %s within %d MB (%s)" % (prog, " ".join(o), key, mb, via)
    ok(r, what)
    same(got, canonical(prog, key, tuple(opts)) if want is None else want, what)
    return h(got)


def space_c24(T):
    fam = {}
    l = []
    for key in ("mixed:6000000", "mixed:24000000") + (("mixed:96000000", "noise:24000000") if T else ()):
        for via in ("file", "stdin"):
            for e in "H" + ("mMubB" if T or key == "mixed:6000000" else ""):
                for p in ((), ("--prepr", "p")):
                    for m in ("2",) + (("10",) if T else ()):
                        o = ("-e", e, "-m", m) + p
                        l.append(("space", "compress", key, o, 20 + 3 * int(m) // 2, via))
                        l.append(("space", "uncompress", key, o, 20 + 2 * int(m), via))
            for p in ((), ("--prepr", "p")):
                l.append(("space", "preprocess", key, ("-b", "500") + p, 20, via))
                l.append(("space", "postprocess", key, ("-b", "500") + p, 20, via))
    fam["programs in a limited address space"] = l
    return fam


FAIL_SO = None


def oom_run(prog, args, k, mode):
    log = path("failed")
    if os.path.exists(log):
        os.unlink(log)
    r = run(prog, args, env={"LD_PRELOAD": FAIL_SO, "MC_FAIL_AT": str(k), "MC_FAIL_MODE": mode, "MC_FAIL_LOG": log})
    return r, os.path.exists(log) and os.path.getsize(log) > 0


def oom_args(prog, opts, out):
    o = list(opts) if prog in BACK else []
    return o + (["in.dat", "out.dat"] if out == "file" else ["-c", "in.dat"])


def case_oom(c):
    """allocation number k of the run fails (or all from there on)"""
    _, prog, key, opts, out, mode, k = c
    src, want = source(prog, key, tuple(opts))
    put("in.dat", src)
    if os.path.exists(path("out.dat")):
        os.unlink(path("out.dat"))
    args = oom_args(prog, opts, out)
    r, hit = oom_run(prog, args, k, mode)
    what = "%s %s of %s with allocation %d failing (%s)" % (prog, " ".join(args), key, k, mode)
    if r.rc == 0:
        same(get("out.dat") if out == "file" else r.out, want, what + ": exit status 0")
        return ("ok", hit)
    need(r.rc > 0 or r.rc == -signal.SIGABRT, what + ": ended by signal %d" % -r.rc)
    need(r.err.strip() != b"", what + ": no error message")
    return (r.rc, hit, r.err[:40])


def oom_count(prog, key, opts, out):
    """how many allocations the undisturbed run makes"""
    put("in.dat", source(prog, key, tuple(opts))[0])
    args = oom_args(prog, opts, out)
    hi = 256
    while oom_run(prog, args, hi, "once")[1]:
        hi *= 2
    lo = 0
    while lo + 1 < hi:
        m = (lo + hi) // 2
        if oom_run(prog, args, m, "once")[1]:
            lo = m
        else:
            hi = m
    return lo


def space_c25(T):
    fam = {}
    jobs = [("compress", "hex:", (), "file"), ("compress", "hex:61", ("-e", "H"), "file"), ("compress", "text:300", ("-e", "H"), "stdout"),
            ("compress", "text:300", ("-e", "B", "--bwt", "s"), "file"), ("compress", "noise:2000", ("-e", "H", "-s", "256"), "file"),
            ("compress", "pairs:20000+40", ("--prepr", "pp", "-e", "H"), "file"), ("compress", "mixed:70000", ("-e", "H", "--bwt", "s", "--prepr", "p"), "file"),
            ("compress", "noise:300000", ("-e", "H", "-m", "1"), "file"), ("compress", "zeros:70000", ("-e", "m"), "file"),
            ("preprocess", "pairs:20000+40", ("--prepr", "ppp"), "file"), ("preprocess", "mixed:70000", ("-b", "16", "--prepr", "p"), "stdout"), ("preprocess", "text:3000", (), "file")]
    if T:
        for key in ("text:300", "noise:200", "pairs:20000+40", "mixed:70000"):
            for e in "HmMubB":
                for b in "ds":
                    for p in ((), ("--prepr", "ppp")):
                        jobs.append(("compress", key, ("-e", e, "--bwt", b) + p, "file"))
    l = []
    for fwd, key, opts, out in jobs:
        for prog in (fwd, BACK[fwd]):
            n = oom_count(prog, key, opts, out)
            for mode in ("once", "from"):
                for k in range(1, n + 1):
                    l.append(("oom", prog, key, opts, out, mode, k))
    fam["every allocation failing"] = l
    return fam


CASES["space"] = case_space
CASES["oom"] = case_oom


# ---------------------------------------------------------------- C18
def case_reported(c):
    """the sizes a program prints (-v 1) are those of its files"""
    _, prog, key, opts, via = c
    src, want = source(prog, key, tuple(opts))
    put("in.dat", src)
    o = (list(opts) if prog in BACK else []) + ["-v", "1"]
    r = run(prog, o + (["in.dat", "out.dat"] if via == "file" else ["-c", "in.dat"]))
    what = "%s %s of %s (%s)" % (prog, " ".join(o), key, via)
    ok(r, what)
    got = get("out.dat") if via == "file" else r.out
    text = r.err.decode("latin1") + ("" if via == "stdout" else r.out.decode("latin1"))
    said = []
    for label, m in (("compressed size", re.search(r"Compressed size is (\d+)", text)), ("total size", re.search(r"Total size:? *(\d+)", text)), ("blocks", re.search(r"Read (\d+) block", text))):
        if not m:
            continue
        n = int(m.group(1))
        if label == "compressed size":
            true = len(got)
        elif label == "total size":
            true = len(data(key))
        else:
            bs = 1024 * max(1, int(opts[opts.index("-b") + 1])) if "-b" in opts else 100000 * 1024
            true = -(-len(data(key)) // bs)
        need(n == true, "%s: reports %s %d, which is %d" % (what, label, n, true))
        said.append(label)
    return (tuple(said), len(got))


def space_c18(T):
    l = []
    keys = ["hex:", "hex:61", "hex:6161", "text:300", "noise:3000", "zeros:70000", "count:1024", "count:1025", "pairs:20000+40", "mixed:70000", "noise:66000"]
    for via in ("file", "stdout"):
        for k in keys + ["mixed:400000", "noise:400000"]:
            for e in "HmMubB":
                for p in ((), ("--prepr", "pp")):
                    l.append(("reported", "compress", k, ("-e", e, "-m", "1") + p, via))
            for b in ("1", "3", "64", "100", "1000"):
                for p in ((), ("--prepr", "p")):
                    for prog in ("preprocess", "postprocess"):
                        l.append(("reported", prog, k, ("-b", b) + p, via))
    return {"sizes the programs print": l}


CASES["reported"] = case_reported
SPACES = {"C18": space_c18, "C25": space_c25, "C24": space_c24, "C23": space_c23, "C22": space_c22, "C02": space_c02, "C16": space_c16, "C17": space_c17, "C19": space_c19, "C20": space_c20}

# ---------------------------------------------------------------- C26
SAME_NAMES = ["plain", "dot", "absolute", "up", "out-symlink", "in-symlink", "both-symlinks", "chain", "hardlink", "dir-symlink", "stdin", "-i", "-i-symlink", "-i-hardlink", "dev-stdin", "proc-fd", "options"]


def put_alone(name, b):
    """a fresh file, whatever was there before"""
    p = path(name)
    if os.path.lexists(p):
        os.unlink(p)
    return put(name, b)


def link(target, name):
    p = path(name)
    if os.path.lexists(p):
        os.unlink(p)
    os.symlink(target, p)
    return name


def case_samefile(c):
    """input and output lead to the same file: refused, nothing lost"""
    _, prog, key, opts, how = c
    src, _ = source(prog, key, tuple(opts))
    put_alone("in.dat", src)
    os.makedirs(path("sub"), exist_ok=True)
    o = list(opts) if prog in BACK else []
    fin, i, u = None, "in.dat", "in.dat"
    if how == "dot":
        u = "./in.dat"
    elif how == "absolute":
        u = path("in.dat")
    elif how == "up":
        i = "sub/../in.dat"
    elif how == "out-symlink":
        u = link("in.dat", "link.dat")
    elif how == "in-symlink":
        i = link("in.dat", "link.dat")
    elif how == "both-symlinks":
        i, u = link("in.dat", "link.dat"), link(path("in.dat"), "sub/link.dat")
    elif how == "chain":
        link("in.dat", "link.dat")
        u = link("../link.dat", "sub/link2.dat")
    elif how.endswith("hardlink"):
        if os.path.lexists(path("hard.dat")):
            os.unlink(path("hard.dat"))
        os.link(path("in.dat"), path("hard.dat"))
        u = "hard.dat"
    elif how == "dir-symlink":
        u = link(".", "here") + "/in.dat"
    elif how == "-i-symlink":
        u = link("in.dat", "link.dat")
    elif how == "dev-stdin":
        i = "/dev/stdin"
    elif how == "proc-fd":
        i = "/proc/self/fd/0"
    if how == "stdin" or how.startswith("-i"):
        a = ([] if how == "stdin" else ["-i"]) + ["--output-file", u]
    elif how == "options":
        a = ["--output-file=" + u, "--input-file=" + i]
    else:
        a = [i, u]
    what = "%s %s where both are %s (%s)" % (prog, " ".join(o + a), key, how)
    if how in ("stdin", "dev-stdin", "proc-fd") or how.startswith("-i"):
        with open(path("in.dat"), "rb") as f:
            r = run(prog, o + a, stdin=f)
    else:
        r = run(prog, o + a)
    same(get("in.dat"), src, what + ": the input file was changed")
    need(r.rc > 0, what + ": exit status %d" % r.rc)
    need(r.err.strip() != b"", what + ": no error message")
    need(r.out == b"", what + ": wrote to stdout")
    return "%s-%d" % (prog, r.rc)


BYSTANDERS = ["in", "in.dat~", "in.dat.bwtc", "in.dat.bwt", "in.dat.tmp", "in.dat.out", "in.dat.orig", "in.dat.bak", "out", "out.dat~", "out.dat.tmp", "out.dat.part", "out.dat.bak", "out.dat.orig",
              "out.dat.in", ".out.dat.swp", "tmp", "temp", "core", "bwtc.tmp", "compress", "a.out", "-", "stdin", "stdout", "0", "1", "in.da", "out.dat0"]


def snapshot():
    r = {}
    for top, ds, fs in os.walk(path("tree")):
        for n in ds + fs:
            p = os.path.join(top, n)
            s = os.lstat(p)
            b = os.readlink(p).encode() if os.path.islink(p) else (open(p, "rb").read() if os.path.isfile(p) else b"")
            # no access time: reading is what the programs are for
            r[os.path.relpath(p, path("tree"))] = (s.st_mode, s.st_nlink, s.st_uid, s.st_mtime_ns if not os.path.isdir(p) else 0, s.st_ino, b)
    return r


def make_tree(src, out):
    """a directory with the input, files with names programs like to use, and
    an output file (None: no output file)"""
    if os.path.isdir(path("tree")):
        shutil.rmtree(path("tree"))
    os.mkdir(path("tree"))
    for n in BYSTANDERS:
        put("tree/" + n, b"bystander " + n.encode())
    os.mkdir(path("tree/empty"))
    put("tree/in.dat", src)
    os.chmod(path("tree/in.dat"), 0o444)
    os.utime(path("tree/in.dat"), (1000000000, 1000000000))
    if out is not None:
        put("tree/out.dat", out)
    return snapshot()


def unchanged(before, after, but, what):
    for n in sorted(set(before) | set(after)):
        if n in but:
            continue
        need(n in after, "%s: the file %s is gone" % (what, n))
        need(n in before, "%s: left a file %s" % (what, n))
        if before[n] != after[n]:
            k = ["mode", "links", "owner", "modification time", "inode", "contents"][next(i for i in range(6) if before[n][i] != after[n][i])]
            raise Bad("%s: %s of %s changed" % (what, k, "the input file" if n == "in.dat" else n))


def tree_args(prog, opts, ia, oa):
    o = list(opts) if prog in BACK else []
    if ia == "file" and oa == "file":
        return o + ["in.dat", "out.dat"]
    return o + (["--input-file=in.dat"] if ia == "file" else ["-i"]) + (["--output-file=out.dat"] if oa == "file" else ["-c"])


def tree_run(prog, opts, ia, oa, wrap=(), wrote=None):
    fin = open(path("tree/in.dat"), "rb") if ia == "stdin" else None
    fout = open(path("tree/out.dat"), "wb") if oa == "redirected" else None
    try:
        return run(prog, tree_args(prog, opts, ia, oa), stdin=fin, stdout=fout, wrap=["/usr/bin/env", "-C", path("tree"), "--"] + list(wrap))
    finally:
        for f in (fin, fout):
            if f:
                f.close()


def created_paths():
    """paths the traced run created or renamed to"""
    r = set()
    for l in trace_lines():
        m = re.match(r"\d*\s*(\w+)\((.*)", l)
        if not m or " = -1 " in l:
            continue
        if m.group(1) in ("open", "openat", "creat", "mknod", "mknodat", "link", "linkat", "symlink", "symlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat"):
            if m.group(1).startswith("open") and "O_CREAT" not in m.group(2):
                continue
            for q in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2)):
                r.add(os.path.join(path("tree"), q))
    return r


def case_leave(c):
    """a run changes nothing but its output file"""
    _, prog, key, opts, ia, oa, old, trace = c
    src, want = source(prog, key, tuple(opts))
    before = make_tree(src, {"none": None, "some": b"old contents"}[old] if oa == "file" else None)
    what = "%s %s (input %s, output %s)" % (prog, " ".join(tree_args(prog, opts, ia, oa)), ia, oa)
    if trace and STRACE:
        r = tree_run(prog, opts, ia, oa, wrap=[STRACE, "-f", "-qq", "-o", path("trace"), "-e", "trace=file"])
        new = created_paths()
    else:
        r = tree_run(prog, opts, ia, oa)
        new = set()
    after = snapshot()
    ok(r, what)
    unchanged(before, after, ("out.dat",), what)
    need(("out.dat" in after) == (oa != "pipe"), what + (": no output file" if oa != "pipe" else ": created the file out.dat"))
    same(r.out if oa == "pipe" else after["out.dat"][5], want, what)
    for p in sorted(new):
        if p != path("tree/out.dat") and not p.startswith(("/dev/", "/proc/")):
            need(not os.path.lexists(p), "%s: left the file %s" % (what, p))
    return h(want)


NOINPUT = ["missing", "missing-directory", "file-as-directory", "dangling-link", "link-loop", "long-name", "newline", "open-EACCES", "open-EMFILE", "open-EIO", "open-ENOMEM"]


def case_noinput(c):
    """an input that cannot be opened: reported, the output stays as it was"""
    _, prog, opts, kind, old, order = c
    src, _ = source(prog, "text:300", tuple(opts))
    before = make_tree(src, {"none": None, "some": b"old contents"}[old])
    name, wrap = "in.dat", []
    if kind == "missing":
        name = "missing.dat"
    elif kind == "missing-directory":
        name = "nowhere/in.dat"
    elif kind == "file-as-directory":
        name = "in.dat/in.dat"
    elif kind == "dangling-link":
        os.symlink("missing.dat", path("tree/link"))
        name = "link"
    elif kind == "link-loop":
        os.symlink("link", path("tree/link"))
        name = "link"
    elif kind == "long-name":
        name = "n" * 300
    elif kind == "newline":
        name = "in.dat\n"
    else:
        if not STRACE:
            return "no-strace"
        name = path("tree/in.dat")
        wrap = [STRACE, "-qq", "-o", path("trace"), "-P", name, "-e", "trace=open,openat", "-e", "inject=open,openat:error=%s" % kind[5:]]
    before = snapshot()
    o = list(opts) if prog in BACK else []
    a = ["--input-file=" + name, "--output-file=out.dat"] if order == "options" else [name, "out.dat"]
    r = run(prog, o + a, wrap=["/usr/bin/env", "-C", path("tree"), "--"] + wrap)
    what = "%s %s (%s)" % (prog, " ".join(o + a), kind)
    if wrap and "(INJECTED)" not in (get("trace") or b"").decode("latin1"):
        return "strace-unusable"
    need(r.rc > 0, what + ": exit status %d" % r.rc)
    need(r.err.strip() != b"", what + ": no error message")
    unchanged(before, snapshot(), (), what)
    return "%s-%d" % (kind, r.rc)


def case_killed(c):
    """the program is killed at (or told of an error by) every system call of
    the run in turn: the input and the other files stay as they were"""
    _, prog, key, opts, ia, oa, how = c
    if not STRACE:
        return "no-strace"
    src, want = source(prog, key, tuple(opts))
    n, hit = 1, 0
    names = "read,write,pread64,pwrite64,readv,writev,lseek,open,openat,creat,close,stat,fstat,lstat,newfstatat,statx,fcntl,ftruncate,truncate,unlink,unlinkat,rename,renameat,renameat2,link,linkat,symlink,symlinkat,chmod,fchmod,fchmodat,utimensat,fsync,fdatasync,fallocate,copy_file_range,sendfile,exit_group"
    if how != "kill":
        names = names.replace(",exit_group", "")
    while True:
        before = make_tree(src, b"old contents" if oa == "file" else None)
        if os.path.exists(path("trace")):
            os.unlink(path("trace"))
        # 'env' has run before strace starts, the program is the traced one
        r = tree_run(prog, opts, ia, oa, wrap=[STRACE, "-qq", "-o", path("trace"), "-e", "trace=" + names, "-e", "inject=%s:%s:when=%d" % (names, "signal=KILL" if how == "kill" else "error=" + how, n)])
        t = (get("trace") or b"").decode("latin1")
        what = "%s %s (input %s, output %s), %s at system call %d" % (prog, " ".join(tree_args(prog, opts, ia, oa)), ia, oa, how, n)
        if not t:
            return "strace-unusable"
        unchanged(before, snapshot(), ("out.dat",), what)
        if "killed by SIGKILL" not in t and "(INJECTED)" not in t:
            break
        hit += 1
        n += 1
        need(n < 5000, "too many calls")
    ok(r, "undisturbed traced run: " + what)
    return "%s-%d" % (how, hit)


LAYER = {"compress": "C", "preprocess": "P"}
UNLAYER = {"uncompress": "C", "postprocess": "P"}
_layers = {}


def layered(key, s):
    """data(key) after the programs named by s, one after the other"""
    if (key, s) not in _layers:
        if not s:
            return data(key)
        put_alone("layer.in", layered(key, s[:-1]))
        r = run({"C": "compress", "P": "preprocess"}[s[-1]], ["layer.in", "layer.out"])
        ok(r, "making " + s)
        _layers[key, s] = get("layer.out")
        os.unlink(path("layer.out"))
    return _layers[key, s]


def dir_step(state, op, most):
    """model of a directory: what each of the files holds (None: no file,
    otherwise the programs that made it from the original). Returns the
    successor and if the program must succeed; None if nothing is said."""
    prog, i, o = op
    if state[i] is None or i == o:
        return state, False
    s = state[i]
    if prog in LAYER:
        if len(s) == most:
            return None
        s = s + LAYER[prog]
    else:
        if s[-1:] != UNLAYER[prog]:
            return None          # not an archive: no promise
        s = s[:-1]
    return state[:o] + (s,) + state[o + 1:], True


def dir_states(files, most):
    """every reachable state and every transition of the model"""
    start = ("",) + (None,) * (files - 1)
    seen, todo, steps = {start}, [start], []
    ops = [(p, i, o) for p in ("compress", "uncompress", "preprocess", "postprocess") for i in range(files) for o in range(files)]
    while todo:
        s = todo.pop()
        for op in ops:
            r = dir_step(s, op, most)
            if r is None:
                continue
            steps.append((s, op))
            if r[0] not in seen:
                seen.add(r[0])
                todo.append(r[0])
    return seen, steps


def case_dirop(c):
    """a transition of the directory model, carried out by the real program"""
    _, key, state, op, most = c
    want, succeeds = dir_step(state, op, most)
    d = path("dir3")
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    names = ["f%d" % i for i in range(len(state))]
    for n, s in zip(names, state):
        if s is not None:
            put("dir3/" + n, layered(key, s))
    prog, i, o = op
    r = run(prog, [names[i], names[o]], wrap=["/usr/bin/env", "-C", d, "--"])
    what = "%s %s %s in a directory with %s" % (prog, names[i], names[o], ", ".join("%s=%s(%s)" % (n, s, key) for n, s in zip(names, state) if s is not None))
    if succeeds:
        ok(r, what)
    else:
        need(r.rc > 0 and r.err.strip() != b"", "%s: exit status %d, stderr %r" % (what, r.rc, r.err[:100]))
    extra = set(os.listdir(d)) - set(names)
    need(not extra, "%s: created %s" % (what, sorted(extra)))
    for n, s in zip(names, want):
        got = get("dir3/" + n)
        if s is None:
            need(got is None, "%s: created %s" % (what, n))
        else:
            same(got, layered(key, s), "%s: %s afterwards" % (what, n))
    return str((state, op, want))


def case_distinct(c):
    """files that merely look alike are not taken for the same file"""
    _, prog, key, opts, how = c
    src, want = source(prog, key, tuple(opts))
    os.makedirs(path("other"), exist_ok=True)
    put_alone("in.dat", src)
    for n in ("out.dat", "other/in.dat", "link.dat"):
        if os.path.lexists(path(n)):
            os.unlink(path(n))
    o = list(opts) if prog in BACK else []
    i, u, res = "in.dat", "out.dat", "out.dat"
    if how == "copy":
        put("out.dat", src)
    elif how == "same-name":
        u = res = "other/in.dat"
        put(res, src)
    elif how == "link-to-other":
        put("out.dat", b"target")
        u = link("out.dat", "link.dat")
    elif how == "link-to-nothing":
        u = link("out.dat", "link.dat")
    elif how == "case":
        u = res = "IN.DAT"
        put_alone(res, src)
    elif how == "null":
        i = u = "/dev/null"
        src = want = None
    elif how == "same-pipe":
        # standard input and output are not files at all
        rd, wr = os.pipe()
        os.write(wr, src[:60000])
        os.close(wr)
        try:
            r = run(prog, o + ["-i", "--output-file=out.dat"], stdin=rd)
        finally:
            os.close(rd)
    if how != "same-pipe":
        r = run(prog, o + [i, u])
    what = "%s %s (%s)" % (prog, " ".join(o + [i, u]), how)
    if how == "null":
        # nothing to read: fine when compressing, incomplete when restoring
        need((r.rc == 0) == (prog in BACK), what + ": exit status %d: %s" % (r.rc, r.err.decode("latin1")[:200]))
        return "null-%d" % r.rc
    ok(r, what)
    same(get(res), want, what)
    same(get("in.dat"), src, what + ": the input file")
    need(os.path.islink(path("link.dat")) == how.startswith("link"), what + ": the link was replaced")
    return h(want)


CASES.update(samefile=case_samefile, leave=case_leave, noinput=case_noinput, killed=case_killed, dirop=case_dirop, distinct=case_distinct)


def space_c26(T):
    fam = {}
    progs = ("compress", "uncompress", "preprocess", "postprocess")
    jobs = {"compress": [("hex:", ()), ("hex:61", ()), ("text:3000", ()), ("text:3000", ("-e", "H", "--prepr", "p")), ("noise:200000", ("-m", "1")), ("mixed:400000", ("-m", "1", "--prepr", "p"))],
            "preprocess": [("hex:", ()), ("hex:61", ()), ("text:3000", ()), ("noise:200000", ("-b", "64")), ("mixed:400000", ("-b", "100", "--prepr", "p"))]}
    jobs["uncompress"], jobs["postprocess"] = jobs["compress"], jobs["preprocess"]
    l = []
    for prog in progs:
        for k, o in jobs[prog]:
            for how in SAME_NAMES:
                l.append(("samefile", prog, k, o, how))
            for how in ("copy", "same-name", "link-to-other", "link-to-nothing", "case", "null", "same-pipe"):
                if how != "same-pipe" or not k.startswith(("noise", "mixed")):
                    l.append(("distinct", prog, k, o, how))
    for e in "HmMubB":
        for v in ((), ("-v", "3"), ("-s", "1"), ("--bwt", "s")):
            for how in SAME_NAMES:
                l.append(("samefile", "compress", "text:500", ("-e", e) + v, how))
    fam["names of one file and of different ones"] = l
    l = []
    for prog in progs:
        for k, o in jobs[prog] + [("text:3000", ("-v", "3"))]:
            for ia in ("file", "stdin"):
                for oa in ("file", "pipe", "redirected"):
                    for old in ("none", "some") if oa == "file" else ("none",):
                        l.append(("leave", prog, k, o, ia, oa, old, True))
    for e in "HmMub":
        for k in ("text:3000", "noise:200000"):
            for oa in ("file", "pipe"):
                for pr in ((), ("--prepr", "pp")):
                    l.append(("leave", "compress", k, ("-e", e, "-m", "1") + pr, "file", oa, "none", True))
                    l.append(("leave", "uncompress", k, ("-e", e, "-m", "1") + pr, "file", oa, "none", True))
    fam["everything around the output stays as it was"] = l
    l = []
    for prog in progs:
        for o in ((), ("-e", "H"), ("--prepr", "p")) if prog == "compress" else ((),):
            for kind in NOINPUT:
                for old in ("none", "some"):
                    for order in ("positional", "options"):
                        l.append(("noinput", prog, o, kind, old, order))
    fam["input that cannot be opened"] = l
    l = []
    for prog in progs:
        for k, o in jobs[prog] if T else jobs[prog][1:3] + jobs[prog][-1:]:
            for ia in ("file", "stdin"):
                for oa in ("file", "redirected"):
                    for how in ("kill", "EIO") if not T else ("kill", "EIO", "EINTR", "ENOSPC"):
                        l.append(("killed", prog, k, o, ia, oa, how))
    fam["killed or failing at every system call"] = l
    most = 2
    seen, steps = dir_states(3, most)
    fam["every transition of the directory model"] = [("dirop", "text:300", s, op, most) for s, op in steps]
    if T:
        seen, steps = dir_states(2, 4)
        fam["every transition with two files and more layers"] = [("dirop", k, s, op, 4) for s, op in steps for k in ("text:300", "hex:", "pairs:5000+30", "noise:70000")]
    return fam


SPACES["C26"] = space_c26



# ---------------------------------------------------------------- driver
def init_worker(exe, base):
    global EXE, SCRATCH, RUNS
    EXE, RUNS = exe, 0
    SCRATCH = tempfile.mkdtemp(dir=base)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # programs that would run on for ever although nobody waits for them
    resource.setrlimit(resource.RLIMIT_CPU, (3600, 3600))


def hang_guard(c):
    try:
        return CASES[c[0]](c)
    except Hang:
        # once more with much more time before calling it a hang
        global HANG
        old, HANG = HANG, 150
        try:
            return CASES[c[0]](c)
        except Hang as e:
            raise Bad("hang: %s" % e)
        finally:
            HANG = old


def once(c):
    """runs a case; a failure is confirmed by a second run from scratch"""
    for attempt in (1, 2):
        try:
            return hang_guard(c), None
        except Bad as e:
            msg = str(e)
        except (OSError, subprocess.SubprocessError) as e:
            if attempt == 2:
                raise
            time.sleep(1)
            msg = None
        _canon.clear()
    if msg is None:
        return None, None
    return None, msg


def work(chunk):
    global RUNS
    RUNS = 0
    res = set()
    for i, c in chunk:
        r, msg = once(c)
        if msg:
            return RUNS, res, (i, c, msg), i
        res.add((c[0], r))
    return RUNS, res, None, None


def chunks(l, n):
    # interleave: expensive neighbours go to different workers, while cases
    # that share a canonical result stay together
    for i in range(0, len(l), n):
        yield [(j, l[j]) for j in range(i, min(i + n, len(l)))]


def programs_for(prop):
    global FAIL_SO
    exe = dict(vlib.build_programs())
    if prop == "C25":
        FAIL_SO = vlib.build_preload("failmalloc")
    if prop == "C22":
        for m, p in vlib.build_ref()[1].items():
            exe["ref-" + m] = p
    return exe


def check(prop, tier, before=None):
    """before: coverage of an exploration of the library that came first"""
    chk = vlib.Check(prop, tier)
    exe = programs_for(prop)
    base = tempfile.mkdtemp(prefix="bwtc-%s-" % prop)
    rules = json.load(open(os.path.join(vlib.VERIF, "mc", "rules.json")))
    info = rules.get(prop, {})
    fams, viol, states, runs, cases, samples = [], None, set(), 0, 0, []
    notes = list(info.get("assumptions", []))
    try:
        init_worker(exe, base)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        try:
            space = SPACES[prop](tier == "thorough")
        except (Bad, Hang) as e:          # not even the undisturbed runs work
            viol = {"case": None, "message": str(e), "family": "preparation"}
            space = {}
        with multiprocessing.get_context("fork").Pool(8, init_worker, (exe, base)) as pool:
            for name, l in space.items():
                t0 = time.time()
                n = max(4, min(40, len(l) // 64 + 1))
                fr, fs = 0, set()
                for r, res, bad, _ in pool.imap_unordered(work, chunks(l, n)):
                    fr += r
                    fs |= res
                    if bad and viol is None:
                        viol = {"case": bad[1], "message": bad[2], "family": name}
                    if viol:
                        break
                runs += fr
                cases += len(l)
                states |= fs
                fams.append({"family": name, "cases": len(l), "program_runs": fr, "distinct_outcomes": len(fs), "completed": viol is None, "wall_s": round(time.time() - t0, 1)})
                samples += [str(l[0]), str(l[len(l) // 2])]
                if viol:
                    pool.terminate()
                    break
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if prop == "C26" and not viol and any(x[1] in ("no-strace", "strace-unusable") for x in states):
        notes.append("strace could not be used in this run: runs killed or failing at single system calls were not explored")
    if prop == "C16" and not viol:
        if any(x[1] in ("no-strace", "strace-unusable") for x in states):
            notes.append("strace could not be used in this run: the failing of single system calls was not explored, only full outputs, failing inputs and failing devices")
        else:
            notes.append("system calls failed in turn by strace's fault injection, confirmed in its trace")
    cov = {"states": len(states), "transitions": runs, "traces_validated_against_impl": cases, "exhaustive": viol is None,
           "rule": info.get("rule", ""), "families": fams, "samples": samples}
    if before:
        chk.t0 -= before["wall_s"]
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov[k] += before[k]
        cov["exhaustive"] = cov["exhaustive"] and before["exhaustive"]
        cov["families"] = before["families"] + cov["families"]
        cov["samples"] = before["samples"] + cov["samples"]
        cov["counters"] = before["counters"]
        notes = before["notes"]
    chk.evidence("model_checking", cov, notes, 1 if viol else 0)
    if viol:
        chk.violation(dict(viol, property=prop, tier=tier))
        return 1
    print("%s held on %d cases (%d program runs, %d distinct outcomes)" % (prop, cov["traces_validated_against_impl"], runs, cov["states"]))
    return 0


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


def replay(v):
    base = tempfile.mkdtemp(prefix="bwtc-replay-")
    try:
        init_worker(programs_for(v["property"]), base)
        if v["case"] is None:
            try:
                SPACES[v["property"]](False)
            except (Bad, Hang) as e:
                print("violated: %s" % e)
                return 1
            print("held")
            return 0
        c = tuplify(v["case"])
        r, msg = once(c)
        print("violated: " + msg if msg else "held: %s" % (r,))
        return 1 if msg else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
