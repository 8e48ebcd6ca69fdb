"""Helper processes: remote workers (RPC over pipes) and a kernel lock prober living in another process."""
import fcntl
import os
import pickle
import select
import signal
import struct
import sys
import time

from core import HarnessError, set_pdeathsig

_os_read, _os_write, _os_close, _os_open = os.read, os.write, os.close, os.open  # before any instrumentation


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<I", len(data)) + data
    while data:
        n = _os_write(fd, data)
        data = data[n:]


def _recv_exact(fd, n):
    out = b""
    while len(out) < n:
        chunk = _os_read(fd, n - len(out))
        if not chunk:
            raise EOFError("peer is gone")
        out += chunk
    return out


def _recv(fd):
    (n,) = struct.unpack("<I", _recv_exact(fd, 4))
    return pickle.loads(_recv_exact(fd, n))


class Remote(object):
    """A forked child executing handler(request) for each request; replies may come later (asynchronous calls)."""

    def __init__(self, make_handler):
        a, b = os.pipe()
        c, d = os.pipe()
        self.ppid = os.getpid()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                set_pdeathsig()
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                _os_close(b)
                _os_close(c)
                handler = make_handler()
                while True:
                    try:
                        req = _recv(a)
                    except EOFError:
                        break
                    if req == ("__exit__",):
                        break
                    _send(d, handler(req))
            except BaseException:
                import traceback

                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        _os_close(a)
        _os_close(d)
        self.pid = pid
        self.w, self.r = b, c
        self.busy = False
        self.dead = False

    def send(self, req):
        assert not self.busy
        _send(self.w, req)
        self.busy = True

    def ready(self, timeout=0.0):
        return bool(select.select([self.r], [], [], timeout)[0])

    def recv(self):
        try:
            rep = _recv(self.r)
        except EOFError:
            self.dead = True
            raise HarnessError("worker %d died" % self.pid)
        self.busy = False
        return rep

    def call(self, req):
        self.send(req)
        return self.recv()

    def kill(self, sig=signal.SIGKILL):
        if not self.dead:
            try:
                os.kill(self.pid, sig)
            except ProcessLookupError:
                pass
            self.dead = True
            try:
                os.waitpid(self.pid, 0)
            except ChildProcessError:
                pass
            for fd in (self.w, self.r):
                try:
                    _os_close(fd)
                except OSError:
                    pass


# ------------------------------------------------------------------------------------ kernel lock map

OFFSET_MAX = (1 << 63) - 1
_FLOCK = "hhqqi4x"  # struct flock on x86_64/aarch64 linux: type, whence, start, len, pid


def getlk(fd, ltype, start, length):
    """First lock of another process conflicting with (ltype, start, length), or None."""
    data = fcntl.fcntl(fd, fcntl.F_GETLK, struct.pack("hhqqi4x", ltype, 0, start, length, 0))
    t, w, s, l, pid = struct.unpack("hhqqi4x", data)
    if t == fcntl.F_UNLCK:
        return None
    return (t, s, l, pid)


def lockmap_fd(fd):
    """[(start, end or None, 'x' or 's')] : what other processes hold, merged; as seen by the calling process."""
    found = []

    def scan(lo, hi):  # hi None: infinity
        stack = [(lo, hi)]
        while stack:
            lo, hi = stack.pop()
            if hi is not None and lo >= hi:
                continue
            r = getlk(fd, fcntl.F_WRLCK, lo, 0 if hi is None else hi - lo)
            if r is None:
                continue
            t, s, l, pid = r
            e = None if l == 0 or s + l > OFFSET_MAX else s + l
            cs = max(s, lo)
            ce = hi if e is None else e if hi is None else min(e, hi)
            found.append((cs, ce, "x" if t == fcntl.F_WRLCK else "s"))
            if cs > lo:
                stack.append((lo, cs))
            if ce is not None and ce != hi:
                stack.append((ce, hi))
            if len(found) > 1000:
                raise HarnessError("runaway lock scan")

    scan(0, None)
    return normalise(found)


def normalise(segments):
    """Merges [(start, end, kind)] into maximal segments, 'x' winning over 's'."""
    points = set()
    for s, e, k in segments:
        points.add(s)
        if e is not None:
            points.add(e)
    points = sorted(points)
    out = []
    for i, p in enumerate(points):
        q = points[i + 1] if i + 1 < len(points) else None
        kinds = {k for s, e, k in segments if s <= p and (e is None or e > p)}
        if not kinds:
            continue
        k = "x" if "x" in kinds else "s"
        if out and out[-1][1] == p and out[-1][2] == k:
            out[-1] = (out[-1][0], q, k)
        else:
            out.append((p, q, k))
    return out


def _prober_handler():
    def handle(path):
        try:
            fd = os.open(path, os.O_RDWR)
        except OSError as e:
            return ("error", e.errno)
        try:
            return lockmap_fd(fd)
        finally:
            os.close(fd)

    return handle


_prober = None


def lockmap(path):
    """Lock map of `path` as seen from another process (a helper forked once, before any lock is taken)."""
    global _prober
    if _prober is None or _prober.ppid != os.getpid() or _prober.dead:
        _prober = Remote(_prober_handler)
    r = _prober.call(path)
    if isinstance(r, tuple) and r and r[0] == "error":
        raise OSError(r[1], "prober")
    return r


def start_prober():
    global _prober
    if _prober is None or _prober.ppid != os.getpid():
        _prober = Remote(_prober_handler)


def fds():
    """Set of the process's open descriptor numbers (the one used for listing excluded)."""
    out = set()
    for name in os.listdir("/proc/self/fd"):
        out.add(int(name))
    alive = set()
    for fd in out:
        try:
            os.fstat(fd)
            alive.add(fd)
        except OSError:
            pass
    return alive
