"""C30: signals interrupt blocked operations cleanly, or not at all when their handlers return normally."""
import errno
import fcntl
import gc
import mmap
import os
import signal
import threading
import time

import gen as st
import procs
from core import HarnessError, Part, Violation
from procs import Remote, fds, lockmap
from streams import Raised, call, rsfile, short

ID = "C30"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing with injected signals: a peer process watches the scheduling state of the tested thread, sends signals only while it is really blocked, then lets the "
             "operation complete; oracle = the undisturbed result when handlers return, the very exception of the handler and an unchanged state of locks, descriptors and data when one raises")
RULE = ("Cases are (blocking operation, layer, what it waits for, number of signals whose handler returns, end of the story: a handler raises, the obstacle disappears, or the timeout elapses). Operations: lock "
        "requests through every API against another process or another stream, reads and writes on pipes, openings of FIFOs, waits for the mutex of thread-safe streams. Non-trivial: at least one "
        "signal was handled while the operation was blocked.")
ASSUMPTIONS = ["Exceptions raised by handlers between two bytecodes of a running operation are out of scope (signals are sent to blocked threads).",
               "Handlers don't raise the errors by which systems report lock contention or would-block conditions."]


class MyBase(BaseException):
    pass


class MyError(Exception):
    pass


EXCEPTIONS = {"KeyboardInterrupt": lambda: KeyboardInterrupt(), "base": lambda: MyBase("x"), "error": lambda: MyError("x"), "TimeoutError": lambda: TimeoutError("handler"),
              "OSError": lambda: OSError(errno.EIO, "handler"), "Interrupted": lambda: InterruptedError(errno.EINTR, "handler"), "SystemExit": lambda: SystemExit(3), "ValueError": lambda: ValueError("handler"),
              "RuntimeError": lambda: RuntimeError("handler"), "IOError-bare": lambda: IOError("only a message"), "Connection": lambda: ConnectionError(errno.ECONNRESET, "handler"),
              "EINVAL": lambda: OSError(errno.EINVAL, "handler"), "EBADF": lambda: OSError(errno.EBADF, "handler")}

LIMIT = 20.0

# ------------------------------------------------------------ peer process

_shared = None
_peer = None


def shared():
    global _shared
    if _shared is None:
        _shared = mmap.mmap(-1, 64)
    return _shared


class Blocked(object):
    """In the peer: waits until the observed thread sleeps in the kernel."""

    def __init__(self, pid, tid):
        self.status = "/proc/%d/task/%d/status" % (pid, tid)

    def sample(self):
        with open(self.status) as f:
            t = f.read()
        state = t.split("State:")[1].split()[0]
        return state, t.split("voluntary_ctxt_switches:")[1].split()[0]

    def wait(self, mem):
        end = time.monotonic() + LIMIT
        last, same = None, 0
        while time.monotonic() < end:
            if mem[1]:
                return False  # the operation is already over
            if mem[0]:
                s = self.sample()
                if s[0] == "S" and s == last:
                    same += 1
                    if same >= 3:
                        return True
                else:
                    same = 0
                last = s
            time.sleep(0.001)
        return False


def make_peer():
    mem = _shared
    held = {}

    def handle(req):
        kind = req[0]
        if kind == "lock":
            fd = os.open(req[1], os.O_RDWR)
            fcntl.lockf(fd, fcntl.LOCK_EX, req[2], req[3])
            held[req[1]] = fd
            return True
        if kind == "unlock":
            os.close(held.pop(req[1]))
            return True
        if kind == "tell":  # writes to a named FIFO
            return True
        if kind == "script":
            pid, tid, steps = req[1:]
            b = Blocked(pid, tid)
            out = []
            files = {}
            for step in steps:
                k = step[0]
                if k == "blocked":
                    out.append(b.wait(mem))
                elif k == "signal":
                    n = mem[2]
                    if not mem[1]:
                        os.kill(pid, signal.SIGUSR1)
                        end = time.monotonic() + LIMIT
                        while mem[2] == n and time.monotonic() < end:
                            time.sleep(0.0003)
                elif k == "unlock":
                    fd = held.pop(step[1], None)
                    if fd is not None:
                        os.close(fd)
                elif k == "ready":
                    mem[3] = 1
                elif k == "open":
                    files[step[1]] = os.open(step[2], step[3])
                elif k == "write":
                    d = step[2]
                    while d:
                        n = os.write(files[step[1]], d)
                        d = d[n:]
                elif k == "drain":  # everything up to EOF
                    parts = []
                    while True:
                        x = os.read(files[step[1]], 65536)
                        if not x:
                            break
                        parts.append(x)
                    out.append(b"".join(parts))
                elif k == "read":
                    need, got = step[2], b""
                    while len(got) < need:
                        x = os.read(files[step[1]], need - len(got))
                        if not x:
                            break
                        got += x
                    out.append(got)
                elif k == "close":
                    os.close(files.pop(step[1]))
            for fd in files.values():
                os.close(fd)
            return out
        raise AssertionError(kind)

    return handle


def peer():
    global _peer
    shared()
    if _peer is None or _peer.dead or _peer.ppid != os.getpid():
        _peer = Remote(make_peer)
    return _peer


class Session(object):
    """The signal handler of the tested (main) thread, and the script of the peer."""

    def __init__(self, env, returns, exc):
        self.env, self.returns, self.exc = env, returns, exc
        self.handled = 0
        self.raised = None
        self.mem = shared()
        self.mem[0] = self.mem[1] = self.mem[2] = 0
        self.peer = peer()
        self.busy = False
        self.old = signal.signal(signal.SIGUSR1, self.handler)
        env.defer(self.finish)

    def handler(self, signum, frame):
        self.handled += 1
        self.mem[2] = self.mem[2] + 1 & 255
        if self.handled > self.returns and self.exc is not None:
            e, self.exc = self.exc, None
            self.raised = e
            raise e

    def signals(self):
        steps = [("blocked",)]
        for _ in range(self.returns + (self.exc is not None)):
            steps += [("signal",), ("blocked",)]
        return steps

    def play(self, steps, ready=False):
        self.mem[3] = 0
        self.peer.send(("script", os.getpid(), threading.main_thread().native_id, steps))
        self.busy = True
        while ready and not self.mem[3]:
            time.sleep(0.0005)

    def run(self, func, *args, **kwargs):
        """The blocking call: ('returned', value) or ('raised', exception)."""
        self.mem[0] = 1
        try:
            try:
                return ("returned", func(*args, **kwargs))
            except BaseException as e:
                if type(e).__name__ == "HangError":
                    raise
                return ("raised", e)
        finally:
            self.mem[1] = 1

    def replies(self):
        if self.busy:
            self.busy = False
            return self.peer.recv()

    def finish(self):
        self.mem[1] = 1
        if self.busy:
            try:
                if self.peer.ready(2.0):
                    self.replies()
                else:
                    self.peer.kill()
            except HarnessError:
                pass
        signal.signal(signal.SIGUSR1, self.old)


def describe(r):
    return "%s %s" % (r[0], short(repr(r[1])))


def expect_exc(s, r, exc, what):
    if exc is None:
        return
    if s.handled <= s.returns:
        return  # it finished before the signal
    if r[0] != "raised" or r[1] is not exc:
        raise Violation("exception", "%s: the signal handler raised %r but the operation %s" % (what, exc, describe(r)))


def conditions():
    gc.collect()
    return sum(type(o) is threading.Condition for o in gc.get_objects())


# ------------------------------------------------------------ locks


@st.composite
def lock_strategy(draw):
    api = draw(st.sampled_from(["lock_file", "lock_file", "lock_file", "with", "rsopen", "rsopen", "read_from_file", "write_to_file", "append_to_file"]))
    layer = draw(st.sampled_from(["raw", "buffered", "text"]))
    holder = draw(st.sampled_from(["process", "stream"]))
    end = draw(st.weighted((3, st.just("raise")), (2, st.just("release")), (1, st.just("timeout"))))
    timeout = draw(st.sampled_from([0.05, 0.12])) if end == "timeout" else draw(st.sampled_from([None, None, 8.0]))
    return (api, layer, draw(st.booleans()), holder, end, timeout, draw(st.sampled_from([None, None, None, 15.0])), draw(st.integers(0, 3)), draw(st.sampled_from(sorted(EXCEPTIONS))),
            draw(st.booleans()), draw(st.booleans()), draw(st.booleans()), draw(st.booleans()))


def lock_run(case, env):
    api, layer, ts, holder, end, timeout, enforced, returns, excname, pending, subrange, waiter, shared_lock = case
    rs = rsfile()
    text = layer == "text"
    m = "T" if text else "B"
    path = env.path("f")
    with open(path, "wb") as g:
        g.write(b"0123456789")
    util = api.endswith("_file") and api != "lock_file"
    opening = api == "rsopen" or util
    start, length = (0, None) if opening else (10, 100)
    waiter = waiter and end != "timeout" and timeout is None and enforced is None
    before = fds()
    nconds = conditions() if end == "raise" else None
    rs.set_rsfile_options(enforced_locking_timeout_value=enforced, default_spinlock_delay=0.03)
    env.defer(lambda: rs.set_rsfile_options(enforced_locking_timeout_value=None, default_spinlock_delay=0.1))
    exc = EXCEPTIONS[excname]() if end == "raise" else None
    s = Session(env, returns, exc)
    kw = dict(thread_safe=ts)
    if layer == "raw":
        kw["buffering"] = 0
    if text:
        kw.update(encoding="ascii", newline="\n")
    f = other = wstream = None
    got = []
    if not opening:
        f = rs.rsopen(path, "RW" + m, locking=False, **kw)
        env.defer(f.close)
        if pending:
            f.write("abc" if text else b"abc")
        if subrange:
            f.lock_file(length=5, offset=0, timeout=0)
    release_r, release_w = os.pipe()
    env.defer(os.close, release_r)
    threads = []
    if holder == "process":
        peer().call(("lock", path, 0 if length is None else length, start))
        steps_release = [("unlock", path)]
    else:
        other = rs.rsopen(path, "RWB", buffering=0, locking=False)
        env.defer(other.close)
        other.lock_file(length=length, offset=start, timeout=0)
        fifo = env.path("fifo")
        os.mkfifo(fifo)

        def releaser():
            os.read(release_r, 1)
            other.unlock_file(length=length, offset=start)

        t = threading.Thread(target=releaser, daemon=True)
        t.start()
        threads.append(t)
        steps_release = [("open", "rel", "/proc/%d/fd/%d" % (os.getpid(), release_w), os.O_WRONLY), ("write", "rel", b"x"), ("close", "rel")]
    if waiter:
        wstream = rs.rsopen(path, "RWB", buffering=0, locking=False)
        env.defer(wstream.close)

        def wait():
            with wstream.lock_file(length=length, offset=start):
                got.append(True)

        t = threading.Thread(target=wait, daemon=True)
        t.start()
        threads.append(t)
        time.sleep(0.004)

    def body():
        kw2 = dict(kw)
        if api == "lock_file":
            return f.lock_file(timeout=timeout, length=length, offset=start, shared=shared_lock or None)
        if api == "with":
            with f.lock_file(timeout=timeout, length=length, offset=start, shared=shared_lock or None):
                return True
        if api == "rsopen":
            return rs.rsopen(path, ("R" if shared_lock else "RW") + m, timeout=timeout, **kw2)
        kw2.pop("thread_safe")
        kw2.pop("newline", None)
        kw2.pop("encoding", None)
        if text:
            kw2["encoding"] = "ascii"
        if api == "read_from_file":
            return rs.read_from_file(path, not text, timeout=timeout, **kw2)
        return (rs.write_to_file if api == "write_to_file" else rs.append_to_file)(path, "new" if text else b"new", timeout=timeout, **kw2)

    world = [] if holder == "stream" else [(start, None if length is None else start + length, "x")]
    mine = [(0, 5, "x")] if subrange and not opening else []
    held_by_stream = [(start, None if length is None else start + length, "x")] if holder == "stream" else []
    reference = sorted(world + mine + held_by_stream, key=lambda x: x[0])
    steps = s.signals()[:-1]
    if end == "release":
        steps += [("blocked",)] + steps_release
    s.play(steps)
    t0 = time.monotonic()
    r = s.run(body)
    elapsed = time.monotonic() - t0
    s.replies()
    env.steps += 1
    what = "%s (%s, waiting for a %s, timeout %s%s, %d handled signals)" % (api, layer, holder, timeout, "" if enforced is None else ", enforced timeout", s.handled)
    env.nontrivial = s.handled > 0
    env.label("api:" + api, "end:" + end, "holder:" + holder)

    def release():
        if holder == "process":
            peer().call(("unlock", path))
        else:
            os.write(release_w, b"x")

    if end == "timeout":
        if r[0] != "raised" or not isinstance(r[1], rs.LockingException):
            raise Violation("timeout", "%s: %s instead of a LockingException" % (what, describe(r)))
        if elapsed < timeout - 0.02:
            raise Violation("early", "%s: gave up after %.3f s" % (what, elapsed))
        if elapsed > timeout + 6:
            raise Violation("late", "%s: gave up after %.3f s" % (what, elapsed))
    elif end == "raise":
        if s.handled <= returns:
            raise HarnessError("%s: no signal could be sent: %s" % (what, describe(r)))
        expect_exc(s, r, exc, what)
    else:
        if r[0] != "returned":
            raise Violation("disturbed", "%s: %s though the lock was released" % (what, describe(r)))
    if end != "release":
        lm = lockmap(path)
        if lm != reference:
            raise Violation("locks", "%s: the kernel locks are then %r instead of %r" % (what, lm, reference))
        release()
    for t in threads:
        if end == "release" and api in ("lock_file", "rsopen") and t is threads[-1] and waiter:
            continue  # it waits for the lock we have
        t.join(LIMIT / 2)
        if t.is_alive():
            raise Violation("starved", "%s: another thread waiting for the lock did not get it once released" % what) if waiter else HarnessError("%s: the lock could not be released" % what)
        elif t is threads[-1] and waiter and not got:
            raise Violation("starved", "%s: another thread waiting for the lock failed" % what)
    # what follows behaves as if nothing had happened
    if f is not None:
        if end == "release" and api == "lock_file":
            lm = lockmap(path)
            want = sorted(mine + [(start, start + length, "s" if shared_lock else "x")])
            if lm != want:
                raise Violation("locks", "%s: the kernel locks are then %r instead of %r" % (what, lm, want))
            f.unlock_file(length=length, offset=start)
            for t in threads:
                t.join(LIMIT / 2)
                if t.is_alive():
                    raise Violation("starved", "%s: another thread did not get the lock" % what)
            if waiter and not got:
                raise Violation("starved", "%s: another thread waiting for the lock failed" % what)
        a = call(f.lock_file, timeout=0, length=length, offset=start)
        if isinstance(a, Raised):
            raise Violation("relock", "%s: the released lock can't be taken afterwards: %r" % (what, a))
        lm = lockmap(path)
        want = sorted(mine + [(start, start + length, "x")])
        if lm != want:
            raise Violation("locks", "%s: after a new lock, the kernel locks are %r instead of %r" % (what, lm, want))
        f.unlock_file(length=length, offset=start)
        lm = lockmap(path)
        if lm != mine:
            raise Violation("locks", "%s: after unlocking, the kernel locks are %r instead of %r" % (what, lm, mine))
        f.close()
    elif end == "release" and api == "rsopen":
        r[1].close()
        for t in threads:
            t.join(LIMIT / 2)
            if t.is_alive():
                raise Violation("starved", "%s: another thread did not get the lock" % what)
    body = f = None
    value = r[1]
    r = exc = s.exc = s.raised = None
    for x in (other, wstream):
        if x is not None:
            x.close()
    lm = lockmap(path)
    if lm:
        raise Violation("locks", "%s: everything closed, the kernel locks are %r" % (what, lm))
    with open(path, "rb") as g:
        c = g.read()
    want = b"0123456789"
    if not opening and pending:
        want = b"abc3456789"
    if end == "release" and api == "write_to_file":
        want = b"new"
    elif end == "release" and api == "append_to_file":
        want += b"new"
    if c != want:
        raise Violation("content", "%s: the file contains %s instead of %s" % (what, short(c), short(want)))
    if end == "release" and api == "read_from_file" and value != (want.decode() if text else want):
        raise Violation("content", "%s: gave %r" % (what, value))
    value = None
    os.close(release_w)
    os.close(release_r)
    env._cleanups = [c for c in env._cleanups if c[0] is not os.close]
    lost = fds() - before - {peer().r, peer().w}
    if lost:
        raise Violation("fd", "%s: descriptors %r left open" % (what, sorted(lost)))
    if nconds is not None:
        threads = t = None
        other = wstream = None
        env._cleanups = [c for c in env._cleanups if c[0] == s.finish or getattr(c[0], "__name__", "") == "<lambda>"]
        n = conditions()
        if n > nconds:
            raise Violation("leak", "%s: everything closed, there are %d synchronization objects more than before" % (what, n - nconds))


# ------------------------------------------------------------ pipes


READS = ["read", "read_all", "readline", "readinto", "readlines", "next", "peek", "read1"]


@st.composite
def read_strategy(draw):
    data = draw(st.lists(st.sampled_from([b"a", b"bc\n", b"\n", b"d" * 50, b"e" * 3000 + b"\n"]), 0, 5))
    return (draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.booleans()), draw(st.sampled_from(READS)), draw(st.integers(1, 60)), tuple(data), draw(st.booleans()), draw(st.integers(0, 3)),
            draw(st.sampled_from(sorted(EXCEPTIONS))), draw(st.booleans()))


def read_run(case, env):
    layer, ts, how, n, data, raising, returns, excname, between = case
    rs = rsfile()
    text = layer == "text"
    fifo = env.path("p")
    os.mkfifo(fifo)
    before = fds()
    exc = EXCEPTIONS[excname]() if raising else None
    s = Session(env, returns, exc)
    rfd = os.open(fifo, os.O_RDONLY | os.O_NONBLOCK)
    wfd = os.open(fifo, os.O_WRONLY)
    os.set_blocking(rfd, True)
    kw = dict(thread_safe=ts)
    if layer == "raw":
        kw["buffering"] = 0
    if text:
        kw.update(encoding="ascii", newline="\n")
    f = rs.rsopen(fileno=rfd, mode="R" + ("T" if text else "B"), **kw)
    env.defer(f.close)
    all_ = b"".join(data)
    steps = [("open", "w", fifo, os.O_WRONLY), ("ready",)]
    steps += s.signals()[:-1]
    tail = []
    for d in data:
        tail.append(("write", "w", d))
        if between and not raising:
            tail += [("blocked",), ("signal",)]
    tail.append(("close", "w"))
    steps += tail

    buf = bytearray(n)

    def body():
        if how == "read":
            return f.read(n)
        if how == "read_all":
            return f.read()
        if how == "readline":
            return f.readline()
        if how == "readlines":
            return f.readlines()
        if how == "next":
            try:
                return f.__next__()
            except StopIteration as e:
                if e is s.raised:
                    raise
                return None
        if how == "readinto" and not text:
            k = f.readinto(buf)
            return bytes(buf[:k])
        if how == "peek" and layer == "buffered":
            return f.peek(n)
        if how == "read1" and layer == "buffered":
            return f.read1(n)
        return f.read(n)

    if raising:
        s.play(s.signals()[:-1])
        r = s.run(body)
        s.replies()
    else:
        s.play(steps, ready=True)  # our own write end must be closed for the end of file to come, but only once the peer has its own
        os.close(wfd)
        wfd = None
        r = s.run(body)
        s.replies()
    env.steps += 1
    env.nontrivial = s.handled > 0
    what = "%s of a pipe (%s, %d handled signals)" % (how, layer, s.handled)
    env.label("how:" + how, "raising:%s" % raising)
    uni = (lambda x: x.encode()) if text else (lambda x: x)
    if raising:
        if s.handled <= returns:
            raise HarnessError("%s: no signal could be sent: %s" % (what, describe(r)))
        expect_exc(s, r, exc, what)
        r = None
        t = threading.Thread(target=lambda: [os.write(wfd, d) for d in data], daemon=True)
        t.start()
        t.join()
        os.close(wfd)
        rest = uni(f.read()) if layer != "raw" else f.readall()
        if rest != all_:
            raise Violation("lost", "%s: interrupted by an exception, the data read afterwards is %s instead of %s" % (what, short(rest), short(all_)))
    else:
        if r[0] != "returned":
            raise Violation("disturbed", "%s: %s" % (what, describe(r)))
        v = r[1]
        first = all_.split(b"\n")[0] + b"\n" if b"\n" in all_ else all_
        if how == "readlines":
            v = [uni(x) for x in v]
            if v != all_.splitlines(True):
                raise Violation("result", "%s: %s instead of %s" % (what, short(v), short(all_.splitlines(True))))
            consumed = all_
        elif how == "next":
            if (None if v is None else uni(v)) != (first or None):
                raise Violation("result", "%s: %s instead of %s" % (what, short(v), short(first)))
            consumed = first
        else:
            if v is None:
                raise Violation("result", "%s: None from a blocking pipe" % what)
            v = uni(v)
            if how == "readline":
                ok = v == first
            elif how == "read_all":
                ok = v == all_
            elif layer == "raw" or how in ("peek", "read1"):
                ok = all_.startswith(v) and (bool(v) or not all_) and (len(v) <= n or how == "peek")
            else:
                ok = v == all_[:n]
            if not ok:
                raise Violation("result", "%s (%d): %s, the data being %s" % (what, n, short(v), short(all_)))
            consumed = b"" if how == "peek" and layer == "buffered" else v
        rest = uni(f.read()) if layer != "raw" else f.readall()
        if consumed + rest != all_:
            raise Violation("lost", "%s: then the remaining data is %s, instead of %s" % (what, short(rest), short(all_[len(consumed):])))
    f.close()
    lost = fds() - before - {peer().r, peer().w}
    if lost:
        raise Violation("fd", "%s: descriptors %r left open" % (what, sorted(lost)))


@st.composite
def write_strategy(draw):
    return (draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.booleans()), draw(st.sampled_from(["write", "flush", "close", "with", "writelines", "bigwrite"])), draw(st.integers(1, 3000)),
            draw(st.booleans()), draw(st.integers(0, 3)), draw(st.sampled_from(sorted(EXCEPTIONS))))


def write_run(case, env):
    layer, ts, how, n, raising, returns, excname = case
    rs = rsfile()
    text = layer == "text"
    fifo = env.path("p")
    os.mkfifo(fifo)
    before = fds()
    exc = EXCEPTIONS[excname]() if raising else None
    s = Session(env, returns, exc)
    rfd = os.open(fifo, os.O_RDONLY | os.O_NONBLOCK)
    wfd = os.open(fifo, os.O_WRONLY)
    fcntl.fcntl(wfd, 1031, 4096)  # F_SETPIPE_SZ
    os.set_blocking(wfd, False)
    filler = b""
    try:
        while True:
            k = os.write(wfd, b"F" * 4096)
            filler += b"F" * k
    except BlockingIOError:
        pass
    os.set_blocking(wfd, True)
    kw = dict(thread_safe=ts)
    if layer == "raw":
        kw["buffering"] = 0
    else:
        kw["buffering"] = 4096
    if text:
        kw.update(encoding="ascii", newline="\n")
    f = rs.rsopen(fileno=wfd, mode="W" + ("T" if text else "B"), **kw)
    env.defer(f.close)
    old = b"" if layer == "raw" else b"old" * 5
    payload = (b"%d|" % n * n)[:n]
    if how == "bigwrite":
        payload = payload * 5 + b"end" * 2000
    dec = (lambda x: x.decode()) if text else (lambda x: x)
    if old:
        f.write(dec(old))

    def body():
        if layer == "raw":
            if how == "writelines":
                return f.writelines([payload])
            return f.write(payload)
        if how == "flush":
            return f.flush()
        if how == "close":
            return f.close()
        if how == "with":
            with f:
                return None
        if how == "writelines":
            f.writelines([dec(payload)])
            return f.flush()
        f.write(dec(payload))
        return f.flush()

    closing = how in ("close", "with") and layer != "raw"
    if raising and not closing:
        s.play(s.signals()[:-1])
        r = s.run(body)
        s.replies()
    else:  # (closing a text stream flushes twice)
        s.play([("open", "r", fifo, os.O_RDONLY), ("ready",)] + s.signals()[:-1] + [("blocked",), ("drain", "r")], ready=True)
        r = s.run(body)
    env.steps += 1
    env.nontrivial = s.handled > 0
    what = "%s on a full pipe (%s, %d handled signals)" % (how, layer, s.handled)
    env.label("how:" + how, "raising:%s" % raising)
    if raising:
        if s.handled <= returns:
            raise HarnessError("%s: no signal could be sent: %s" % (what, describe(r)))
        expect_exc(s, r, exc, what)
        r = None
        if closing != f.closed:
            raise Violation("closed", "%s: interrupted by an exception, the stream is %s" % (what, "closed" if f.closed else "not closed"))
        if not closing:
            s.play([("open", "r", fifo, os.O_RDONLY), ("ready",), ("drain", "r")], ready=True)
            f.close()
        got = s.replies()[-1]
        choices = [filler + old]
        if closing:
            choices = [filler, filler + old]
        elif layer != "raw" and how in ("write", "writelines", "bigwrite"):
            choices.append(filler + old + payload)
        if got not in choices:
            raise Violation("data", "%s: interrupted by an exception, the data finally received is %s instead of %s" % (what, short(got), " or ".join(short(c) for c in choices)))
    else:
        if r[0] != "returned":
            raise Violation("disturbed", "%s: %s" % (what, describe(r)))
        f.close()
        got = s.replies()[-1]
        want = filler + old
        if layer == "raw":
            k = len(payload) if how == "writelines" else r[1]
            if k is None or k > len(payload):
                raise Violation("result", "%s: %s" % (what, describe(r)))
            want += payload[:k]
        elif how in ("write", "writelines", "bigwrite"):
            want += payload
        if got != want and not (layer == "raw" and how == "writelines" and want.startswith(got)):
            raise Violation("data", "%s: the data received is %s (%d bytes) instead of %s (%d bytes)" % (what, short(got), len(got), short(want), len(want)))
    os.close(rfd)
    lost = fds() - before - {peer().r, peer().w}
    if lost:
        raise Violation("fd", "%s: descriptors %r left open" % (what, sorted(lost)))


# ------------------------------------------------------------ openings of FIFOs


@st.composite
def fifo_strategy(draw):
    return (draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.booleans()), draw(st.sampled_from(["R", "W", "A", "r", "w", "ab", "rb"])), draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 3)),
            draw(st.sampled_from(sorted(EXCEPTIONS))))


def fifo_run(case, env):
    layer, ts, mode, raising, locking, returns, excname = case
    rs = rsfile()
    text = layer == "text"
    fifo = env.path("p")
    os.mkfifo(fifo)
    before = fds()
    exc = EXCEPTIONS[excname]() if raising else None
    s = Session(env, returns, exc)
    kw = dict(thread_safe=ts, locking=locking)
    if layer == "raw":
        kw["buffering"] = 0
    mode = mode.replace("b", "")
    mode += ("t" if text else "b") if mode.islower() else ("T" if text else "B")
    reading = mode[0] in "rR"
    steps = s.signals()[:-1]
    if not raising:
        steps.append(("blocked",))
        if reading:
            steps += [("open", "x", fifo, os.O_WRONLY), ("write", "x", b"hello"), ("close", "x")]
        else:
            steps += [("open", "x", fifo, os.O_RDONLY), ("drain", "x")]
    s.play(steps)
    r = s.run(rs.rsopen, fifo, mode, **kw)
    env.steps += 1
    env.nontrivial = s.handled > 0
    what = "opening of a FIFO (%s, %s, %d handled signals)" % (mode, layer, s.handled)
    if raising:
        s.replies()
        if s.handled <= returns:
            raise HarnessError("%s: no signal could be sent: %s" % (what, describe(r)))
        expect_exc(s, r, exc, what)
        r = None
    else:
        if r[0] != "returned":
            raise Violation("disturbed", "%s: %s" % (what, describe(r)))
        f = r[1]
        if reading:
            d = f.read() if layer != "raw" else f.readall()
            s.replies()
            if d != ("hello" if text else b"hello"):
                raise Violation("data", "%s: read %r" % (what, d))
            f.close()
        else:
            f.write("hello" if text else b"hello")
            f.close()
            d = s.replies()[-1]
            if d != b"hello":
                raise Violation("data", "%s: %r received" % (what, d))
    lost = fds() - before - {peer().r, peer().w}
    if lost:
        raise Violation("fd", "%s: descriptors %r left open" % (what, sorted(lost)))


# ------------------------------------------------------------ mutex of thread-safe streams


@st.composite
def mutex_strategy(draw):
    return (draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.sampled_from(["read", "readline", "flush", "size", "isatty-read", "truncate", "unlock_file", "with-mutex"])), draw(st.booleans()),
            draw(st.integers(0, 3)), draw(st.sampled_from(sorted(EXCEPTIONS))))


def mutex_run(case, env):
    layer, how, raising, returns, excname = case
    rs = rsfile()
    text = layer == "text"
    rfd, wfd = os.pipe()
    writer = os.fdopen(wfd, "wb", 0)
    exc = EXCEPTIONS[excname]() if raising else None
    s = Session(env, returns, exc)
    kw = {}
    if layer == "raw":
        kw["buffering"] = 0
    if text:
        kw.update(encoding="ascii", newline="\n")
    f = rs.rsopen(fileno=rfd, mode="R" + ("T" if text else "B"), thread_safe=True, **kw)
    env.defer(f.close)
    env.defer(writer.close)
    results = []
    started = threading.Event()

    def reader():
        started.set()
        results.append(f.read(5))

    t = threading.Thread(target=reader, daemon=True)
    t.start()
    started.wait()
    status = "/proc/self/task/%d/status" % t.native_id
    end = time.monotonic() + LIMIT
    same = 0
    while same < 2 and time.monotonic() < end:
        with open(status) as g:
            same = same + 1 if g.read().split("State:")[1].split()[0] == "S" else 0
        time.sleep(0.001)

    def body():
        if how == "read":
            return f.read(3)
        if how == "readline":
            return f.readline()
        if how == "with-mutex":
            with f.mutex:
                return None
        if how == "isatty-read":
            return f.isatty(), f.read(3)
        try:
            {"flush": f.flush, "size": f.size, "truncate": f.truncate, "unlock_file": f.unlock_file}[how]()
        except (IOError, ValueError) as e:
            if e is s.raised:
                raise

    steps = s.signals()[:-1]
    if not raising:
        steps += [("blocked",), ("open", "w", "/proc/%d/fd/%d" % (os.getpid(), wfd), os.O_WRONLY), ("write", "w", b"01234abc\nxyz")]
    s.play(steps)
    r = s.run(body)
    s.replies()
    env.steps += 1
    env.nontrivial = s.handled > 0
    what = "%s of a thread-safe stream used by another thread (%s, %d handled signals)" % (how, layer, s.handled)
    if raising:
        if s.handled <= returns:
            raise HarnessError("%s: no signal could be sent: %s" % (what, describe(r)))
        expect_exc(s, r, exc, what)
        writer.write(b"01234abc\nxyz")
    elif r[0] != "returned":
        raise Violation("disturbed", "%s: %s" % (what, describe(r)))
    writer.close()
    t.join(LIMIT)
    if t.is_alive():
        raise Violation("stuck", "%s: the other thread doesn't finish" % what)
    first = results[0]
    done = threading.Thread(target=lambda: results.append(f.read() if layer != "raw" else f.readall()), daemon=True)
    done.start()
    done.join(LIMIT)
    if done.is_alive():
        raise Violation("stuck", "%s: the stream is unusable from other threads afterwards" % what)
    uni = (lambda x: x.encode()) if text else (lambda x: x)
    mid = b""
    if not raising and r[0] == "returned":
        v = r[1]
        if isinstance(v, tuple):
            v = v[1]
        if isinstance(v, (bytes, str)):
            mid = uni(v)
    got = uni(first) + mid + uni(results[1])
    if got != b"01234abc\nxyz":
        raise Violation("data", "%s: the data read is %s" % (what, short(got)))
    f.close()


def setup():
    procs.start_prober()
    peer()


PARTS = [Part("locks", lock_strategy, lock_run, quick=1800, thorough=40000, setup=setup),
         Part("pipe reads", read_strategy, read_run, quick=1600, thorough=40000, setup=setup),
         Part("pipe writes", write_strategy, write_run, quick=1200, thorough=30000, setup=setup),
         Part("fifos", fifo_strategy, fifo_run, quick=800, thorough=15000, setup=setup),
         Part("mutex", mutex_strategy, mutex_run, quick=600, thorough=15000, setup=setup)]
