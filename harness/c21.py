"""C21: sync() and synchronized streams push all written data to the device (order of recorded system calls, injected failures)."""
import errno
import fcntl
import os

import procs  # binds the real os functions first
import syscalls

syscalls.install()

import gen as st
from core import Part, Violation
from procs import fds
from streams import Raised, call, rsfile, short
from syscalls import REAL, Override, hooks

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with recorded and fault-injected system calls: generated histories with sync() calls, oracle = model of the content compared at the instant of the last successful synchronization request"
RULE = ("Cases are (layer, mode, options, history, fault schedule of the synchronization calls). When sync() returns normally, a successful fsync (or fdatasync when metadata is not requested, or "
        "F_FULLFSYNC) must have been issued on the descriptor, and the file content read by the checker at that instant must already be the model's. When every attempted request fails, or one fails to write data (EIO, ENOSPC), "
        "OSError is required. Non-trivial: at least one sync() with data written (possibly still buffered) since the previous one, or a failing request.")
ASSUMPTIONS = ["The kernel honours fsync/fdatasync/O_SYNC.", "Synchronization requests go through the os and fcntl modules."]

F_FULLFSYNC = 51


class Recorder(object):
    """Records writes and synchronization requests per descriptor."""

    def __init__(self, schedule=(), fullsync=False):
        self.schedule = list(schedule)
        self.fullsync = fullsync  # simulates a system supporting F_FULLFSYNC
        self.log = []  # (kind, fd, ok, content or None)
        self.faults = 0
        self.lost = 0  # failures to write data, which systems report only once

    def before(self, name, args):
        kind = self.kind(name, args)
        if kind in ("fsync", "fdatasync", "full", "globalsync"):
            if kind == "full" and not self.fullsync:
                return None
            err = self.schedule.pop(0) if self.schedule else None
            if err:
                self.faults += 1
                self.lost += err in (errno.EIO, errno.ENOSPC)
                raise OSError(err, os.strerror(err))
            if kind == "full":
                return Override(0)

    def kind(self, name, args):
        if name in ("fsync", "fdatasync"):
            return name
        if name == "sync":
            return "globalsync"
        if name == "fcntl.fcntl" and len(args) > 1 and args[1] == F_FULLFSYNC:
            return "full"
        if name in ("write", "pwrite", "writev", "pwritev", "ftruncate", "posix_fallocate"):
            return "write"
        return None

    def after(self, name, args, res, exc):
        k = self.kind(name, args)
        if k is None:
            return
        fd = args[0] if args else None
        content = None
        if k != "write" and exc is None and fd is not None:
            content = self.read(fd)
        self.log.append((k, fd, exc is None, content))

    def read(self, fd):
        try:
            real = REAL["open"]("/proc/self/fd/%d" % fd, os.O_RDONLY)
        except OSError:
            return None
        try:
            out = []
            while True:
                b = REAL["read"](real, 1 << 20)
                if not b:
                    return b"".join(out)
                out.append(b)
        finally:
            REAL["close"](real)


def verify(rec, fd, metadata, expected, what):
    """After a normal return of sync(): the last successful request on fd must come after the last write on it."""
    good = None
    for i, (k, d, ok, content) in enumerate(rec.log):
        if ok and (d == fd or k == "globalsync") and (k in ("fsync", "full", "globalsync") or k == "fdatasync" and not metadata):
            good = i
    if good is None:
        raise Violation("nosync", "%s returned without a suitable successful synchronization request; calls: %s" % (what, [(k, ok) for k, d, ok, c in rec.log]))
    late = [k for k, d, ok, c in rec.log[good + 1:] if k == "write" and d == fd]
    if late:
        raise Violation("order", "%s: data written after the synchronization request" % what)
    c = rec.log[good][3]
    if c is not None and expected is not None and c != expected:
        raise Violation("unflushed", "%s: at the time of the synchronization the file had %d bytes (%s), instead of %d (%s)" % (what, len(c), short(c), len(expected), short(expected)))


def sync_args():
    b = st.booleans()
    return st.one_of(st.just(((), ())), st.tuples(st.tuples(b), st.just(())), st.tuples(st.tuples(b, b), st.just(())), st.tuples(st.just(()), st.tuples(st.tuples(st.just("metadata"), b))),
                     st.tuples(st.just(()), st.tuples(st.tuples(st.just("full_flush"), b))), st.tuples(st.just(()), st.tuples(st.tuples(st.just("metadata"), b), st.tuples(st.just("full_flush"), b))))


FAULT = st.weighted((6, st.just(0)), (2, st.sampled_from([errno.EIO, errno.EINVAL, errno.ENOSPC, errno.EROFS, errno.ENOSYS])))


@st.composite
def strategy(draw):
    t, j = st.tuples, st.just
    n = st.one_of(st.integers(0, 40), st.sampled_from([0, 4096, 8192, 20000]))
    op = st.weighted((6, t(j("write"), n)), (1, t(j("writelines"), st.lists(n, 0, 3))), (2, t(j("seek"), st.integers(0, 60))), (1, t(j("seekend"))), (1, t(j("truncate"), st.integers(0, 60))),
                     (1, t(j("flush"))), (5, t(j("sync"), sync_args())), (1, t(j("lockctx"))), (1, t(j("size"))), (1, t(j("read"), st.integers(0, 20))))
    layer = draw(st.sampled_from(["raw", "buffered", "buffered", "text", "text"]))
    return (layer, draw(st.sampled_from(["RW", "RW", "W", "A", "RA", "RWS", "WS"])), draw(st.sampled_from([None, 1, 5, 64])), draw(st.booleans()), draw(st.booleans()),
            draw(st.lists(op, 1, 14)), draw(st.lists(FAULT, 0, 10)), draw(st.booleans()))


def run(case, env):
    layer, access, buf, ts, locking, ops, faults, fullsync = case
    rs = rsfile()
    text = layer == "text"
    path = env.path("f")
    with open(path, "wb") as g:
        g.write(b"initial content " * 3)
    kw = dict(thread_safe=ts, locking=locking)
    if layer == "raw":
        kw["buffering"] = 0
    elif buf is not None and (text or buf != 1):
        kw["buffering"] = buf
    if text:
        kw.update(encoding="ascii", newline="\n")
    rec = Recorder(faults, fullsync)
    with hooks(rec.before, rec.after):
        f = rs.rsopen(path, access + ("T" if text else "B"), **kw)
        env.defer(f.close)
        fd = f.fileno()
        flags = fcntl.fcntl(fd, fcntl.F_GETFL)
        if ("S" in access) != (flags & os.O_SYNC == os.O_SYNC):  # (O_SYNC includes the bit of O_DSYNC)
            raise Violation("osync", "mode %s: O_SYNC is %s" % (access, flags & os.O_SYNC == os.O_SYNC))
        model = bytearray(b"initial content " * 3)
        append = "A" in access
        pos = len(model) if append else 0
        counter = 0
        dirty = False

        def put(n):
            nonlocal pos, counter
            counter += 1
            data = ("%d." % counter * n)[:n].encode()
            if append:
                pos = len(model)
            if len(model) < pos and n:
                model.extend(b"\0" * (pos - len(model)))
            model[pos:pos + n] = data
            pos += n
            return data.decode() if text else data

        for op in ops:
            env.steps += 1
            kind = op[0]
            del rec.log[:]
            if kind == "write":
                d = put(op[1])
                f.write(d)
                dirty = dirty or op[1] > 0
            elif kind == "writelines":
                f.writelines([put(n) for n in op[1]])
                dirty = dirty or any(op[1])
            elif kind == "seek":
                pos = f.seek(op[1])
            elif kind == "seekend":
                pos = f.seek(0, 2)
            elif kind == "truncate":
                f.truncate(op[1])
                if len(model) < op[1]:
                    model.extend(b"\0" * (op[1] - len(model)))
                del model[op[1]:]
                dirty = True
            elif kind == "flush":
                f.flush()
            elif kind == "size":
                f.size()
            elif kind == "lockctx":
                r = call(f.lock_file, timeout=0, offset=1 << 40, length=1)
                if not isinstance(r, Raised):
                    with r:
                        pass
            elif kind == "read":
                if "R" in access and not append:
                    if text:
                        f.seek(f.tell())
                    d = f.read(op[1])
                    pos += len(d)
                    f.seek(pos)
            elif kind == "sync":
                nfaults, nlost = rec.faults, rec.lost
                args, kws = op[1]
                r = call(f.sync, *args, **dict(kws))
                metadata = args[0] if args else dict(kws).get("metadata", True)
                if isinstance(r, Raised):
                    if "OSError" not in r.families:
                        raise Violation("error-type", "sync() raised %r" % r)
                    if rec.faults == nfaults:
                        raise Violation("spurious", "sync%r raised %r without any fault" % (op[1], r))
                    env.nontrivial = True
                elif rec.lost > nlost:
                    raise Violation("hidden", "%s sync%r returned normally though a synchronization request reported the failure to write some data" % (layer, op[1]))
                else:
                    verify(rec, fd, metadata, bytes(model), "%s sync%r" % (layer, op[1]))
                    env.nontrivial = env.nontrivial or dirty or rec.faults > nfaults
                    env.label("metadata:%s" % metadata, "dirty:%s" % dirty)
                    dirty = False
        f.close()
    with open(path, "rb") as g:
        c = g.read()
    if c != bytes(model):
        raise Violation("content", "final content is %s instead of %s" % (short(c), short(bytes(model))))
    env.label("layer:" + layer)


# ------------------------------------------------------------ utilities


@st.composite
def util_strategy(draw):
    return (draw(st.sampled_from(["write", "append"])), draw(st.booleans()), draw(st.sampled_from([0, 1, 100, 8192, 30000])), draw(st.sampled_from([None, 0, 3, 100])), draw(st.booleans()),
            draw(st.booleans()), draw(st.lists(FAULT, 0, 3)), draw(st.booleans()), draw(st.booleans()))


def util_run(case, env):
    what, text, n, buf, locking, sync, faults, fullsync, exists = case
    rs = rsfile()
    path = env.path("f")
    old = b""
    if exists:
        old = b"old"
        with open(path, "wb") as g:
            g.write(old)
    data = ("x%d" % n * n)[:n]
    kw = dict(locking=locking, sync=sync)
    if buf is not None and not (text and buf == 0):
        kw["buffering"] = buf
    rec = Recorder(faults, fullsync)
    opened = []
    released = []

    def after(name, args, res, exc):
        rec.after(name, args, res, exc)
        if name == "open" and exc is None:
            opened.append(res)
        u = syscalls.unlock_request(name, args)
        if exc is None and (u or name == "close" and args and args[0] in opened):
            released.append(len(rec.log))

    with hooks(rec.before, after):
        r = call(rs.write_to_file if what == "write" else rs.append_to_file, path, data if text else data.encode(), **kw)
    if isinstance(r, Raised):
        if "OSError" not in r.families or not rec.faults:
            raise Violation("spurious", "%s raised %r" % (what, r))
        env.nontrivial = True
        return
    if rec.lost:
        raise Violation("hidden", "%s_to_file returned normally though a synchronization request reported the failure to write some data" % what)
    expected = (old if what == "append" else b"") + data.encode()
    if sync:
        fd = [d for k, d, ok, c in rec.log if ok and k in ("fsync", "full", "fdatasync")]
        if not fd:
            raise Violation("nosync", "%s_to_file(sync=True) returned without a synchronization request" % what)
        verify(rec, fd[-1], False, expected, "%s_to_file(sync=True)" % what)
        last = max(i for i, (k, d, ok, c) in enumerate(rec.log) if ok and k in ("fsync", "full", "fdatasync"))
        if released and min(released) <= last:
            raise Violation("order", "lock or descriptor released before the synchronization")
        env.nontrivial = n > 0
    with open(path, "rb") as g:
        c = g.read()
    if c != expected:
        raise Violation("content", "content is %s" % short(c))
    env.steps += 1


# ------------------------------------------------------------ streams which can't be synchronized


@st.composite
def pipe_strategy(draw):
    return (draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.sampled_from(["pipe", "closed", "socket", "readonly", "tty"])), draw(sync_args()), draw(st.booleans()))


def pipe_run(case, env):
    layer, kind, args, ts = case
    rs = rsfile()
    text = layer == "text"
    kw = dict(thread_safe=ts)
    if layer == "raw":
        kw["buffering"] = 0
    m = "T" if text else "B"
    if kind == "pipe":
        r, w = os.pipe()
        env.defer(os.close, r)
        f = rs.rsopen(fileno=w, mode="W" + m, **kw)
    elif kind == "tty":
        r, w = os.openpty()
        env.defer(os.close, r)
        f = rs.rsopen(fileno=w, mode="W" + m, **kw)
    elif kind == "socket":
        import socket

        a, b = socket.socketpair()
        env.defer(a.close)
        f = rs.rsopen(fileno=b.detach(), mode="W" + m, **kw)
    else:
        path = env.path("f")
        with open(path, "wb") as g:
            g.write(b"0123")
        f = rs.rsopen(path, "R" + m, **kw)
    env.defer(f.close)
    if kind == "closed":
        f.close()
    rec = Recorder()
    with hooks(rec.before, rec.after):
        fd = None if f.closed else f.fileno()
        r = call(f.sync, *args[0], **dict(args[1]))
    if kind == "closed":
        if not isinstance(r, Raised) or "ValueError" not in r.families:
            raise Violation("closed", "sync() of a closed stream gave %r" % (r,))
    elif kind == "readonly":
        if isinstance(r, Raised):
            raise Violation("spurious", "sync() raised %r on a read-only stream" % r)
        verify(rec, fd, args[0][0] if args[0] else dict(args[1]).get("metadata", True), b"0123", "sync")
    elif not isinstance(r, Raised) or "OSError" not in r.families:
        raise Violation("nosync", "sync() of a %s gave %r" % (kind, r))
    env.nontrivial = True
    env.steps += 1
    env.label("kind:" + kind)


def pipe_cases(tier):
    b = (False, True)
    argsets = [((), ())] + [((x,), ()) for x in b] + [((x, y), ()) for x in b for y in b] + [((), ((k, x),)) for k in ("metadata", "full_flush") for x in b]
    return [(l, k, a, ts) for l in ("raw", "buffered", "text") for k in ("pipe", "closed", "socket", "readonly", "tty") for a in argsets for ts in b]


PARTS = [Part("histories", strategy, run, quick=35200, thorough=400000),
         Part("utilities", util_strategy, util_run, quick=11000, thorough=50000),
         Part("unsyncable", None, pipe_run, quick=1, enumerate_cases=pipe_cases)]
