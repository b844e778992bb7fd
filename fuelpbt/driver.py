"""Talking to the C++ driver: one worker process per Python process."""
import os
import select
import signal
import struct
import subprocess
import tempfile
import time

NRES = 11
FIELDS = ("status", "message", "line", "start", "stop", "module", "stack",
          "dump", "text", "out", "cout")


class Crash(Exception):
    """The driver process died while it handled a request."""

    def __init__(self, what, stderr=""):
        Exception.__init__(self, what)
        self.what = what
        self.stderr = stderr


class Hang(Exception):
    """No answer within the (very generous) time limit."""


class Result(object):
    __slots__ = FIELDS + ("_value",)

    def __init__(self, fields):
        for n, v in zip(FIELDS, fields):
            setattr(self, n, v)
        self._value = None

    @property
    def ok(self):
        return self.status == "ok"

    @property
    def value(self):
        if self._value is None:
            self._value = decode(self.dump)
        return self._value

    def brief(self):
        if self.ok:
            return "value %s  output %r" % (self.dump if len(self.dump) < 300 else self.dump[:300] + "...", self.out)
        return "%s error %r (line %s, module %r)  output %r" % (self.status, self.message, self.line, self.module, self.out)


# ---- decoded values -------------------------------------------------------
# ('i',n) ('d',float) ('b',bool) ('n',) ('u',) ('s',str) ('y',str) ('l',(..))
# ('f',signature) ('D',((k,v),..)) ('e',msg) ('?',what)

def decode(s):
    v, pos = _dec(s, 0)
    if pos != len(s):
        raise ValueError("trailing data in dump: %r" % s[pos:])
    return v


def _dec(s, p):
    c = s[p]
    if c == "i":
        e = s.index(";", p)
        return ("i", int(s[p + 1:e])), e + 1
    if c == "d":
        return ("d", struct.unpack(">d", bytes.fromhex(s[p + 1:p + 17]))[0]), p + 18
    if c == "b":
        return ("b", s[p + 1] == "t"), p + 2
    if c == "n":
        return ("n",), p + 1
    if c == "u":
        return ("u",), p + 1
    if c in "syfe?":
        e = s.index(":", p)
        n = int(s[p + 1:e])
        return (c, s[e + 1:e + 1 + n]), e + 1 + n
    if c == "(":
        p += 1
        items = []
        while s[p] != ")":
            v, p = _dec(s, p)
            items.append(v)
        return ("l", tuple(items)), p + 1
    if c == "D":
        e = s.index("{", p)
        n = int(s[p + 1:e])
        p = e + 1
        items = []
        for _ in range(n):
            k, p = _dec(s, p)
            v, p = _dec(s, p)
            items.append((k, v))
        assert s[p] == "}"
        return ("D", tuple(items)), p + 1
    raise ValueError("bad dump at %d: %r" % (p, s[p:p + 20]))


def _preexec():
    import resource
    lim = 1 << 30
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (lim, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Worker(object):
    """Restartable driver process.  Text goes over the pipe as latin-1, so a
    Python str of code points < 256 is exactly the byte string the interpreter
    sees."""

    def __init__(self, binary, cwd=None, restart_every=1500, timeout=40.0, env=None):
        self.binary = binary
        self.cwd = cwd
        self.dir = None             # where the last chdir request went: also the place of a restarted process
        self.restart_every = restart_every
        self.timeout = timeout
        self.proc = None
        self.count = 0
        self.total = 0
        self.history = []
        self.extra_env = env or {}
        self.errfile = tempfile.TemporaryFile()

    def start(self):
        self.stop()
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent",
               "ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=8:hard_rss_limit_mb=3000:handle_abort=0:"
                               "allocator_may_return_null=0:detect_stack_use_after_return=0:symbolize=1:exitcode=66",
               "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67"}
        env.update(self.extra_env)
        self.errfile.seek(0)
        self.errfile.truncate()
        self.proc = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=self.errfile, cwd=self.dir or self.cwd, env=env, preexec_fn=_preexec,
                                     bufsize=0, close_fds=True)
        self.count = 0
        self.history = []

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.proc = None

    def _stderr(self):
        self.errfile.seek(0)
        return self.errfile.read().decode("latin-1")[-6000:]

    def _fail(self, what):
        rc = None
        if self.proc is not None:
            try:
                rc = self.proc.wait(timeout=20)
            except subprocess.TimeoutExpired:
                pass
        err = self._stderr()
        self.proc_stop_keep_history()
        raise Crash("%s (exit status %s)" % (what, rc), err)

    def proc_stop_keep_history(self):
        h = self.history
        self.stop()
        self.last_history = h
        self.history = []

    def _read(self, n, deadline):
        fd = self.proc.stdout.fileno()
        parts = []
        while n > 0:
            left = deadline - time.monotonic()
            if left <= 0:
                self.proc_stop_keep_history()
                raise Hang("no answer within %.0f s" % self.timeout)
            r, _, _ = select.select([fd], [], [], min(left, 5.0))
            if not r:
                continue
            b = os.read(fd, min(n, 1 << 16))
            if not b:
                self._fail("the interpreter process ended")
            parts.append(b)
            n -= len(b)
        return b"".join(parts)

    def raw(self, fields):
        if self.proc is None or self.count >= self.restart_every:
            self.start()
        if fields[0] == "chdir":
            self.dir = fields[1]
        self.count += 1
        self.total += 1
        self.history.append(list(fields))
        enc = [f if isinstance(f, bytes) else f.encode("latin-1") for f in fields]
        msg = struct.pack("<I", len(enc)) + b"".join(struct.pack("<I", len(b)) + b for b in enc)
        try:
            off = 0
            while off < len(msg):
                off += self.proc.stdin.write(msg[off:])
        except (BrokenPipeError, OSError):
            self._fail("the interpreter process ended")
        deadline = time.monotonic() + self.timeout
        n, = struct.unpack("<I", self._read(4, deadline))
        out = []
        for _ in range(n):
            l, = struct.unpack("<I", self._read(4, deadline))
            out.append(self._read(l, deadline).decode("latin-1"))
        return out

    def _results(self, fields):
        r = self.raw(fields)
        if len(r) % NRES:
            raise RuntimeError("bad answer from driver: %r" % (r[:3],))
        return [Result(r[i:i + NRES]) for i in range(0, len(r), NRES)]

    def session(self, frags, module="main", flags="", inp=""):
        return self._results(["session", module, flags, inp] + list(frags))

    def eval(self, code, module="main", flags="", inp=""):
        return self.session([code], module, flags, inp)[0]

    def multi(self, n, steps):
        f = ["multi", str(n)]
        for i, c in steps:
            f += [str(i), c]
        return self._results(f)

    def save(self, code, module="main", flags="", inp=""):
        return self._results(["save", module, flags, inp, code])[0]

    def main(self, args, inp=""):
        return self._results(["main", inp] + list(args))[0]

    def tokens(self, code):
        r = self.raw(["tokens", code])
        if r[0] != "ok":
            return r[0], r[1]
        t = r[1:]
        return "ok", [(int(t[i]), t[i + 1], int(t[i + 2]), int(t[i + 3]), int(t[i + 4])) for i in range(0, len(t), 5)]
