"""C11: no descriptor is leaked or closed twice."""
import errno
import gc
import io
import os
import warnings

import procs  # binds the real os functions first
import syscalls

syscalls.install()

import gen as st
from core import Part, Violation
from streams import Raised, call, rsfile
from syscalls import REAL, hooks

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "stateful property-based testing: generated histories of (failing) opens, wraps, locks, detaches and closes, with exact accounting of the process's descriptors after each step"
RULE = ("Histories of openings (path, fileno, handle, opener; many failing ones), locks, unlocks, detach, utilities, close/double close/destruction over 6 slots and 2 files. "
        "After each step the set of open descriptors must be exactly the base ones, those of live streams, those of the test, and those of closed streams on files "
        "still locked by the process; every close() call is recorded and must target an open descriptor owned by rsfile. Non-trivial: a failing open, a deferred close, "
        "a detach, or closefd=False.")
ASSUMPTIONS = ["Whether a failed wrapping closes the wrapped descriptor (closefd=True) is left open, like in the standard library where it depends on the failure.",
               "Destruction is forced by gc.collect()."]

MODES = ["RB", "RWB", "WB", "AB", "RAB", "rb", "r+b", "wb", "a+b", "RT", "RWT", "r", "r+", "w", "a", "RWEIB", "RWSB"]
BAD = ["missing", "dir", "text0", "encoding", "newline", "mode", "modeB", "opener_raise", "opener_neg", "opener_bad", "opener_none", "badfd", "negfd", "both", "nul", "long",
       "errors", "locked", "locked_fd", "dirfd", "dirfd_noclose", "exists", "closefd", "none", "buffering", "mutex", "opener_text0", "opener_encoding", "fd_encoding", "permissions",
       "fd_mode", "empty"]
UTILS = ["read", "readb", "write", "append", "read_enc", "write_enc", "read_missing", "must_create", "write_type"]
t, j, i5 = st.tuples, st.just, st.integers(0, 5)
OP = st.weighted(
    (4, t(j("open"), i5, st.integers(0, 1), st.sampled_from(MODES), st.sampled_from([-1, -1, 0, 16]), st.booleans(), st.booleans())),
    (3, t(j("wrap"), i5, st.integers(0, 1), st.sampled_from(MODES), st.sampled_from([-1, 0, 16]), st.booleans(), st.sampled_from(["fileno", "handle", "name", "opener"]), st.booleans(), st.booleans())),
    (4, t(j("bad"), i5, st.sampled_from(BAD), st.booleans(), st.integers(0, 1))),
    (4, t(j("lock"), i5, st.integers(0, 9), st.sampled_from([1, 2, None]), st.sampled_from([None, True, False]))),
    (3, t(j("unlock"), st.integers(0, 9))),
    (2, t(j("detach"), i5)),
    (1, t(j("util"), st.sampled_from(UTILS), st.integers(0, 1))),
    (3, t(j("close"), i5, st.sampled_from(["close", "close", "double", "with", "del", "unflushed", "unflushed_del"]))),
    (1, t(j("same"), i5, i5)),
)


def strategy():
    return st.lists(OP, 3, 25)


class Rec(object):
    """A live stream: object to close, descriptor, ownership."""

    def __init__(self, f, fd, owned, file, user_fd):
        self.f, self.fd, self.owned, self.file, self.user_fd = f, fd, owned, file, user_fd
        self.locks = []


class World(object):
    def __init__(self, env, rs):
        self.env, self.rs = env, rs
        self.paths = []
        for k in range(2):
            p = env.path("file%d" % k)
            with io.open(p, "wb") as f:
                f.write(b"0123456789")
            self.paths.append(p)
        os.mkdir(env.path("dir"))
        self.slots = {}
        self.user = set()  # descriptors opened by the test and not handed over
        self.deferred = {0: set(), 1: set()}
        self.maybe = {0: set(), 1: set()}
        self.trace = []
        self.problems = []
        gc.collect()
        self.base = procs.fds()
        self.alive = set()  # opened through os.open/dup since the start and not closed
        self.foreign = set()  # descriptors rsfile must not close

    def fail(self, key, msg):
        raise Violation(key, "%s\n  after %s" % (msg, self.trace[-10:]))

    # -- recording
    def after(self, name, args, res, exc):
        if name == "close":
            fd = args[0]
            if exc is not None:
                self.problems.append("close(%r) failed: %r" % (fd, exc))
            elif fd in self.foreign:
                self.problems.append("close(%r) though rsfile doesn't own that descriptor" % fd)

    def rs_call(self, func, *a, **kw):
        with hooks(after=self.after):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return call(func, *a, **kw)

    def locked(self, file):
        return any(r.locks for r in self.slots.values() if r.file == file)

    def settle(self):
        for f in (0, 1):
            if not self.locked(f):
                self.deferred[f] = set()
                for fd in self.maybe[f]:  # descriptors of failed wrappings: left to the caller, or closed at last
                    if self.is_open(fd):
                        self.user.add(fd)
                self.maybe[f] = set()

    def check(self, op):
        self.settle()
        expected = self.base | self.user | {r.fd for r in self.slots.values()} | self.deferred[0] | self.deferred[1] | self.maybe[0] | self.maybe[1]
        now = procs.fds()
        if self.problems:
            self.fail("bad-close", "; ".join(self.problems))
        if now - expected:
            self.fail("fd-leak", "extra descriptors %r (%r)" % (sorted(now - expected), [os.readlink("/proc/self/fd/%d" % x) for x in now - expected]))
        if expected - now:
            self.fail("fd-lost", "descriptors %r are closed, they should be open: streams %r, test's %r, deferred %r" %
                      (sorted(expected - now), {r.fd for r in self.slots.values()}, self.user, self.deferred))

    def gone(self, slot):
        """The stream of this slot is now closed."""
        self.gone_(slot)
        self.settle()

    def gone_(self, slot):
        r = self.slots.pop(slot)
        r.locks = []
        if r.owned:
            if self.locked(r.file):
                self.deferred[r.file].add(r.fd)
                self.env.nontrivial = True
                self.env.label("deferred")
        else:
            self.foreign.discard(r.fd)
            self.user.add(r.fd)
            if not self.is_open(r.fd):
                self.fail("closefd-false", "descriptor %d was closed" % r.fd)

    def is_open(self, fd):
        try:
            os.fstat(fd)
            return True
        except OSError:
            return False

    def step(self, op):
        kind = op[0]
        self.trace.append(op)
        self.env.steps += 1
        getattr(self, "op_" + kind)(*op[1:])
        self.problems and None
        self.check(op)

    def op_open(self, slot, file, mode, buffering, ts, locking):
        if slot in self.slots:
            self.op_close(slot, "close")
        if buffering == 0 and ("T" in mode or (mode.islower() and "b" not in mode)):
            buffering = -1
        f = self.rs_call(self.rs.rsopen, self.paths[file], mode, buffering=buffering, thread_safe=ts, locking=locking, timeout=0)
        if isinstance(f, Raised):
            if not f.text.startswith("LockingException"):
                self.fail("open", repr(f))
            self.env.nontrivial = True
            self.env.label("fail:conflict")
            f = None
            self.absorb(file)
            return
        r = self.slots[slot] = Rec(f, f.fileno(), True, file, None)
        if locking:
            r.locks.append((0, None))

    def op_wrap(self, slot, file, mode, buffering, ts, how, closefd, locking):
        if slot in self.slots:
            self.op_close(slot, "close")
        if buffering == 0 and ("T" in mode or (mode.islower() and "b" not in mode)):
            buffering = -1
        if how == "name" and not mode.islower():
            how = "fileno"
        fd = REAL["open"](self.paths[file], os.O_RDWR)
        kw = dict(buffering=buffering, thread_safe=ts, locking=locking, timeout=0)
        if how == "opener":
            closefd = True
            f = self.rs_call(self.rs.rsopen, "whatever", mode, opener=lambda n, fl: fd, **kw)
        elif how == "name":
            f = self.rs_call(self.rs.rsopen, fd, mode, closefd=closefd, **kw)
        else:
            kw[how] = fd
            if not closefd:
                self.foreign.add(fd)
            f = self.rs_call(self.rs.rsopen, mode=mode, closefd=closefd, **kw)
        if isinstance(f, Raised):
            if not f.text.startswith("LockingException"):
                self.fail("wrap", repr(f))
            self.env.nontrivial = True
            self.failed_wrap(fd, closefd, file)
            return
        if not closefd:
            self.env.nontrivial = True
            self.foreign.add(fd)
        r = self.slots[slot] = Rec(f, fd, closefd, file, fd)
        if f.fileno() != fd:
            self.fail("fileno", "%r instead of %r" % (f.fileno(), fd))
        if locking:
            r.locks.append((0, None))

    def failed_wrap(self, fd, closefd, file=None):
        self.foreign.discard(fd)
        if not closefd:
            if not self.is_open(fd):
                self.fail("closefd-false", "descriptor %d closed by a failed wrapping" % fd)
            self.user.add(fd)
            return
        gc.collect()
        if file is not None and self.locked(file) and self.is_open(fd):
            self.maybe[file].add(fd)  # deferred, or left to the caller: indistinguishable until the unlock
        elif self.is_open(fd):
            self.user.add(fd)

    def op_bad(self, slot, what, ts, file):
        rs, env, p = self.rs, self.env, self.paths[file]
        env.nontrivial = True
        env.label("bad:" + what)
        kw = dict(thread_safe=ts, locking=False)
        fd = None
        closefd = True
        unflagged = None
        if what in ("locked_fd", "fd_encoding", "fd_mode", "opener_text0", "opener_encoding"):
            fd = REAL["open"](p, os.O_RDWR)
        elif what in ("dirfd", "dirfd_noclose"):
            fd = REAL["open"](env.path("dir"), os.O_RDONLY)
            self.foreign.add(fd)  # disowned
        args = {
            "missing": ((env.path("nope"), "RNB"), {}),
            "dir": ((env.path("dir"), "RB"), {}),
            "text0": ((p, "RWT"), dict(buffering=0)),
            "encoding": ((p, "r+"), dict(encoding="no-such")),
            "newline": ((p, "r+"), dict(newline="x")),
            "errors": ((p, "r+b"), dict(errors="strict")),
            "mode": ((p, "rw"), {}),
            "modeB": ((p, "RBT"), {}),
            "opener_raise": ((p, "rb"), dict(opener=lambda n, f: 1 // 0)),
            "opener_neg": ((p, "rb"), dict(opener=lambda n, f: -1)),
            "opener_bad": ((p, "rb"), dict(opener=lambda n, f: 987)),
            "opener_none": ((p, "rb"), dict(opener=lambda n, f: None)),
            "badfd": ((), dict(fileno=987, mode="RB")),
            "negfd": ((), dict(fileno=-3, mode="RB")),
            "both": ((p,), dict(fileno=0, mode="RB")),
            "nul": ((p + "\0x", "rb"), {}),
            "long": ((p + "x" * 300, "wb"), {}),
            "locked": ((p, "WEB"), dict(locking=True, timeout=0)),
            "locked_fd": ((), dict(fileno=fd, mode="RWB", locking=True, timeout=0)),
            "fd_encoding": ((), dict(fileno=fd, mode="RT", encoding="no-such")),
            "fd_mode": ((), dict(fileno=fd, mode="Q")),
            "dirfd": ((), dict(fileno=fd, mode="RB")),
            "dirfd_noclose": ((), dict(fileno=fd, mode="RB", closefd=False)),
            "exists": ((p, "xb"), {}),
            "closefd": ((p, "rb"), dict(closefd=False)),
            "none": ((None, "rb"), {}),
            "buffering": ((p, "rb"), dict(buffering="a")),
            "mutex": ((env.path("dir"), "wb"), dict(mutex=5)),
            "opener_text0": ((p, "r"), dict(opener=lambda n, f: fd, buffering=0)),
            "opener_encoding": ((p, "r"), dict(opener=lambda n, f: fd, encoding="no-such")),
            "permissions": ((env.path("dir") + "/new", "wb"), dict(permissions="a")),
            "empty": (("", "rb"), {}),
        }[what]
        if what in ("locked", "locked_fd"):
            if not self.locked(file):
                if fd is not None:
                    self.user.add(fd)
                return
        kw.update(args[1])
        f = self.rs_call(rs.rsopen, *args[0], **kw)
        if not isinstance(f, Raised):
            self.rs_call(f.close)
            self.fail("accepted", "%s: %r" % (what, f))
        f = None
        self.rs_call(gc.collect)
        if fd is None:
            self.absorb(file)
        else:
            if what.startswith("dirfd"):
                self.foreign.discard(fd)
                if not self.is_open(fd):
                    self.fail("dirfd-closed", "descriptor of a directory closed by its failed wrapping")
                self.user.add(fd)
            else:
                self.failed_wrap(fd, True, file)

    def op_lock(self, slot, offset, length, shared):
        r = self.slots.get(slot)
        if r is None:
            return
        x = self.rs_call(r.f.lock_file, timeout=0, offset=offset, length=length, shared=shared)
        if isinstance(x, Raised):
            self.env.label("lock-refused")
        else:
            r.locks.append((offset, length))

    def op_unlock(self, k):
        rs = [(r, l) for r in self.slots.values() for l in r.locks]
        if not rs:
            return
        r, l = rs[k % len(rs)]
        x = self.rs_call(r.f.unlock_file, offset=l[0], length=l[1])
        if isinstance(x, Raised):
            self.fail("unlock", repr(x))
        r.locks.remove(l)
        self.settle()

    def op_detach(self, slot):
        r = self.slots.get(slot)
        if r is None:
            return
        x = self.rs_call(lambda: r.f.detach())
        if isinstance(x, Raised):
            return  # raw streams have no detach()
        self.env.nontrivial = True
        self.env.label("detach")
        old = r.f
        r.f = x
        del old
        self.rs_call(gc.collect)

    def op_same(self, a, b):
        """Another stream on the very descriptor of a stream, with closefd=False."""
        r = self.slots.get(a)
        if r is None:
            return
        f = self.rs_call(self.rs.rsopen, mode="RB", fileno=r.fd, closefd=False, locking=False, thread_safe=False, buffering=0)
        if isinstance(f, Raised):
            self.fail("wrap", repr(f))
        self.env.label("wrap-of-wrap")
        had = r.fd in self.foreign
        self.foreign.add(r.fd)
        try:
            # closing it releases nothing of the other one unless they share lock ownership (unspecified)
            if r.locks:
                f._closefd_test = True
                self.foreign.discard(r.fd) if not had else None
                self.keep = getattr(self, "keep", []) + [f]
                return
            x = self.rs_call(f.close)
            if isinstance(x, Raised):
                self.fail("close", repr(x))
        finally:
            if not had:
                self.foreign.discard(r.fd)

    def op_util(self, what, file):
        rs, p = self.rs, self.paths[file]
        kw = dict(locking=False)
        if what == "read":
            self.rs_call(rs.read_from_file, p, **kw)
        elif what == "readb":
            self.rs_call(rs.read_from_file, p, binary=True, **kw)
        elif what == "write":
            self.rs_call(rs.write_to_file, p, b"0123456789", **kw)
        elif what == "append":
            self.rs_call(rs.append_to_file, p, u"a", sync=True, **kw)
        elif what == "read_enc":
            self.rs_call(rs.read_from_file, p, encoding="utf-16", **kw)
        elif what == "write_enc":
            self.rs_call(rs.append_to_file, p, u"\xe9", encoding="ascii", **kw)
        elif what == "read_missing":
            self.rs_call(rs.read_from_file, p + "missing", **kw)
        elif what == "must_create":
            self.rs_call(rs.write_to_file, p, b"x", must_create=True, **kw)
        else:
            self.rs_call(rs.write_to_file, p, 5, **kw)
        self.absorb(file)

    def absorb(self, file):
        """A stream may just have been created and closed by rsfile while the process has locks on the file."""
        now = procs.fds()
        expected = self.base | self.user | {r.fd for r in self.slots.values()} | self.deferred[0] | self.deferred[1] | self.maybe[0] | self.maybe[1]
        extra = now - expected
        if len(extra) > 1:
            self.fail("fd-leak", "%d descriptors left by a utility" % len(extra))
        if extra and self.locked(file):
            self.deferred[file] |= extra

    def op_close(self, slot, how):
        r = self.slots.get(slot)
        if r is None:
            return
        f = r.f
        if how.startswith("unflushed"):
            # the descriptor becomes unusable for writing: the flush of close() fails, the descriptor must be closed nonetheless
            if how == "unflushed":
                call(lambda: f.write(b"zz" if not hasattr(f, "encoding") else "zz"))
            how = "close" if how == "unflushed" else "del"
        if how == "close":
            x = self.rs_call(f.close)
        elif how == "double":
            x = self.rs_call(f.close)
            y = self.rs_call(f.close)
            x = x if isinstance(x, Raised) else y
        elif how == "with":
            def fn():
                with f:
                    pass
            x = self.rs_call(fn)
        else:
            r.f = None
            hold = [f]
            f = None

            def fn():
                hold.clear()
                gc.collect()
            x = self.rs_call(fn)
        if isinstance(x, Raised):
            self.fail("close", repr(x))
        self.gone(slot)


def run(case, env):
    rs = rsfile()
    w = World(env, rs)
    try:
        for op in case:
            w.step(op)
        for slot in list(w.slots):
            w.step(("close", slot, "close"))
        w.keep = None
        w.rs_call(gc.collect)
        w.check("end")
    finally:
        for r in w.slots.values():
            call(r.f.close) if r.f is not None else None
        w.slots.clear()
        for fd in w.user:
            try:
                REAL["close"](fd)
            except OSError:
                pass
        gc.collect()


PARTS = [Part("history", strategy, run, quick=5000, thorough=200000, hang=40)]
