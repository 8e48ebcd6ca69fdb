"""C28: killed processes and abandoned streams lose only unflushed data; failed creations have no side effects later."""
import errno
import gc
import os
import signal
import stat
import subprocess
import sys
import threading
import time
import weakref

import procs  # binds the real os functions first
import syscalls

syscalls.install()

import gen as st
from core import SRC, HarnessError, Part, Violation, set_pdeathsig
from procs import Remote, _recv, _send, fds, lockmap, start_prober
from streams import Raised, call, rsfile, short
from syscalls import REAL, Override, S, hooks

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with crash injection: generated operation histories whose process gets killed at a generated system call (before, after, or in the middle of it), operation or instant; generated ways to abandon streams; generated failures of stream creations"
RULE = ("Part 'kill': a child process runs a history of operations on 1 to 3 files (writes, seeks, flushes, truncations, locks, closings...) and gets SIGKILL at the n-th system call (before/after it, or after a part of a write); its last reported "
        "operation tells what must be in the files (everything flushed, then any prefix of the rest), all locks must have vanished and processes waiting for them must proceed. 'kill-async': same, killed at a random instant. 'abandon': "
        "streams dropped in various ways without close(). 'exit': interpreters ending with opened streams. 'failed': creations failing because of arguments, files, locks or injected system errors, then destroyed while other descriptors were opened. "
        "Non-trivial: data was flushed and either more was pending or locks were held at death ('kill'), data was buffered or locks held when abandoned, the creation failed ('failed').")
ASSUMPTIONS = ["SIGKILL loses no data given to the kernel (no power failure).", "Streams caught in reference cycles may be destroyed in any order (as in the standard library): only their locks and descriptors are checked.",
               "System call failures are injected in the os/fcntl functions used by the backend."]


# ------------------------------------------------------------------------------------------------ model

def token(slot, i, size):
    base = b"%d:%d;\n" % (slot, i)
    return (base * (size // len(base) + 1))[:size]


def apply(content, item):
    if item[0] == "t":
        return (content + b"\0" * (item[1] - len(content)))[:item[1]]
    _, off, d = item
    if not d:
        return content
    content += b"\0" * (off - len(content))
    return content[:off] + d + content[off + len(d):]


def reachable(durable, pending, content):
    """Is content the durable one plus a prefix of the pending changes (the last one being possibly partial)?"""
    cur = durable
    for item in pending:
        if content == cur:
            return True
        if item[0] == "w":
            _, off, d = item
            c = cur + b"\0" * (off - len(cur))
            k = 0
            if len(content) > off and d:
                tail = content[off:]
                if tail.startswith(d):
                    k = len(d)
                else:
                    k = next((i for i, (x, y) in enumerate(zip(tail, d)) if x != y), min(len(tail), len(d)))
            if k and content == c[:off] + d[:k] + c[off + k:]:
                return True
        elif item[1] > len(cur) and content[:len(cur)] == cur and len(content) <= item[1] and not content[len(cur):].strip(b"\0"):
            return True
        cur = apply(cur, item)
    return content == cur


class Slot(object):
    """What is known of one file and of its stream."""

    def __init__(self, spec, content):
        self.layer, self.access, self.buf, self.ts, self.locking = spec
        self.text = self.layer == "text"
        self.durable, self.pending = content, []
        self.pos = 0
        self.locks = set()
        self.open = False

    def full(self):
        c = self.durable
        for item in self.pending:
            c = apply(c, item)
        return c

    def sync(self):
        self.durable, self.pending = self.full(), []

    def write(self, d):
        off = len(self.full()) if "A" in self.access else self.pos
        if d:
            self.pending.append(("w", off, d))
            self.pos = off + len(d)


def open_slot(rs, path, slot):
    kw = dict(thread_safe=slot.ts, locking=slot.locking)
    if slot.layer == "raw":
        kw["buffering"] = 0
    elif slot.buf is not None and (slot.text or slot.buf != 1):
        kw["buffering"] = slot.buf
    if slot.text:
        kw.update(encoding="ascii", newline="\n")
    return rs.rsopen(path, slot.access + ("T" if slot.text else "B"), **kw)


# ------------------------------------------------------------------------------------------------ killed processes

def kill_ops(n):
    t, j = st.tuples, st.just
    who = st.integers(0, n - 1)
    size = st.one_of(st.integers(0, 40), st.integers(0, 40), st.sampled_from([100, 4096, 8192, 8193, 20000]))
    off = st.one_of(st.integers(0, 40), st.sampled_from([100, 5000]))
    rng = t(st.sampled_from([0, 0, 10, 1000]), st.sampled_from([None, 5, 10, 100]))
    return st.weighted((10, t(j("write"), who, size)), (5, t(j("flush"), who)), (1, t(j("sync"), who)), (1, t(j("size"), who)), (3, t(j("seek"), who, off)), (2, t(j("read"), who, st.integers(0, 30))), (2, t(j("truncate"), who, off)),
                       (4, t(j("lock"), who, rng, st.booleans())), (2, t(j("unlock"), who, rng)), (2, t(j("withlock"), who, size)), (1, t(j("close"), who)), (2, t(j("reopen"), who)), (3, t(j("waiter"), who, rng, st.booleans())))


@st.composite
def kill_strategy(draw):
    n = draw(st.integers(1, 3))
    specs = [(draw(st.sampled_from(["raw", "buffered", "buffered", "text"])), draw(st.sampled_from(["W", "RW", "RW", "A", "RA", "WE", "RWE"])), draw(st.sampled_from([None, None, 1, 16, 64, 1000])), draw(st.booleans()), draw(st.sampled_from([False, False, True])))
             for _ in range(n)]
    ops = draw(st.lists(kill_ops(n), 2, 16))
    when = draw(st.one_of(st.tuples(st.just("sys"), st.integers(0, 60), st.sampled_from(["before", "after", "torn", "torn"])), st.tuples(st.just("write"), st.integers(0, 8), st.sampled_from(["before", "after", "torn", "torn"])),
                          st.tuples(st.just("op"), st.integers(0, 16), st.just(""))))
    return (specs, ops, when, draw(st.sampled_from([b"", b"0123456789", b"x" * 6000])))


@st.composite
def async_strategy(draw):
    specs, ops, _, init = draw(kill_strategy())
    return (specs, ops * draw(st.integers(1, 6)), ("time", draw(st.integers(0, 8000)), ""), init)


def child(rs, paths, specs, ops, when, out, ack):
    die = lambda: os.kill(os.getpid(), signal.SIGKILL)
    kind, nth, how = when
    state = dict(n=0)

    def hit(name):
        if kind == "write" and name not in ("write", "pwrite", "writev"):
            return False
        if kind not in ("sys", "write"):
            return False
        state["n"] += 1
        return state["n"] - 1 == nth

    def before(name, args):
        if how == "after":
            return None
        if hit(name):
            if how == "torn" and name == "write" and len(args[1]) > 1:
                REAL["write"](args[0], bytes(args[1])[:len(args[1]) // 2])
            die()

    def after(name, args, res, exc):
        if how == "after" and hit(name):
            die()

    slots = [Slot(s, b"") for s in specs]
    files = [None] * len(slots)
    with hooks(before, after):
        for i, op in enumerate([("open", s) for s in range(len(slots))] + ops):
            name, s = op[0], op[1]
            slot, f = slots[s], files[s]
            if name == "op" or kind == "op" and i - len(slots) == nth:
                die()
            _send(out, ("start", i))
            info = None
            enc = (lambda d: d.decode()) if slot.text else (lambda d: d)
            if name in ("open", "reopen"):
                if f is None or f.closed:
                    r = call(open_slot, rs, paths[s], slot)
                    if isinstance(r, Raised):
                        info = r
                    else:
                        files[s] = r
                        info = "opened"
            elif f is None or f.closed:
                pass
            elif name == "write":
                info = call(f.write, enc(token(s, i, op[2])))
            elif name in ("flush", "sync", "size", "close"):
                info = call(getattr(f, name))
            elif name == "seek" and not slot.text:
                info = call(f.seek, op[2])
            elif name == "read" and "R" in slot.access and not slot.text:
                r = call(f.read, op[2])
                info = r if isinstance(r, Raised) or r is None else len(r)
            elif name == "truncate" and not slot.text:
                info = call(f.truncate, op[2])
            elif name == "lock":
                (start, length), shared = op[2], op[3]
                if "R" not in slot.access:
                    shared = False
                r = call(f.lock_file, timeout=0, shared=shared, offset=start, length=length)
                info = r if isinstance(r, Raised) else True
            elif name == "unlock":
                start, length = op[2]
                info = call(f.unlock_file, offset=start, length=length)
            elif name == "withlock":
                def go():
                    with f.lock_file(timeout=0, offset=1 << 40, length=7):
                        return f.write(enc(token(s, i, op[2])))
                info = call(go)
            elif name == "waiter":
                _send(out, ("waiter", i))
                os.read(ack, 1)
            f = files[s]
            pos = f.tell() if f is not None and not f.closed and not slot.text else None
            _send(out, ("done", i, info, pos))
        die()


def waiter_handler():
    rs = rsfile()

    def handle(req):
        path, (start, length), shared = req
        try:
            with rs.rsopen(path, "RWB", 0, locking=False, thread_safe=False) as f:
                f.lock_file(timeout=None, shared=shared, offset=start, length=length)
                f.unlock_file(offset=start, length=length)
            return "ok"
        except Exception as e:
            return Raised(e)

    return handle


_waiter = None


def waiter():
    global _waiter
    if _waiter is None or _waiter.dead or _waiter.ppid != os.getpid():
        _waiter = Remote(waiter_handler)
    return _waiter


def kill_run(case, env):
    specs, ops, when, init = case
    rs = rsfile()
    d = env.dir
    paths = [os.path.join(d, "f%d" % i) for i in range(len(specs))]
    slots = [Slot(s, init) for s in specs]
    for p in paths:
        with open(p, "wb") as f:
            f.write(init)
    wait = waiter()
    a, b = os.pipe()
    c, e = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            set_pdeathsig()
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(30)
            os.close(a)
            os.close(e)
            child(rs, paths, specs, ops, when, b, c)
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(3)
    os.close(b)
    os.close(c)
    waiting = None
    try:
        if when[0] == "time":
            killer = threading.Timer(when[1] / 1e6, os.kill, (pid, signal.SIGKILL))
            killer.start()
        all_ops = [("open", s) for s in range(len(slots))] + ops
        current = None
        while True:
            try:
                msg = _recv(a)
            except EOFError:
                break
            if msg[0] == "start":
                current = msg[1]
            elif msg[0] == "waiter":
                op = all_ops[msg[1]]
                if waiting is not None and wait.ready():
                    waiting = check_waiter(wait)
                if waiting is None:
                    wait.send((paths[op[1]], op[2], op[3]))
                    waiting = op
                    wait.ready(0.002)
                try:
                    os.write(e, b"x")
                except BrokenPipeError:
                    pass
            else:
                done(slots, all_ops, *msg[1:])
                current = None
        if when[0] == "time":
            killer.join()
        _, status = os.waitpid(pid, 0)
    finally:
        os.close(a)
        os.close(e)
    if not os.WIFSIGNALED(status) or os.WTERMSIG(status) != signal.SIGKILL:
        raise HarnessError("the child ended with status %r" % status)
    if current is not None:
        begin(slots, all_ops, current)
    what = "killed %s" % ("in %r" % (all_ops[current],) if current is not None else "between operations")
    if waiting is not None:
        if not wait.ready(10):
            wait.kill()
            raise Violation("waiter", "%s: a process waiting for %r still waits" % (what, waiting))
        check_waiter(wait)
        env.label("waited")
    held = False
    for i, (p, slot) in enumerate(zip(paths, slots)):
        with open(p, "rb") as f:
            content = f.read()
        if not reachable(slot.durable, slot.pending, content):
            full = slot.full()
            raise Violation("content", "%s: the file of %r has %d bytes %s; flushed: %d bytes %s, pending %s" % (what, specs[i], len(content), short(content, 200), len(slot.durable), short(slot.durable, 200), short(slot.pending, 300)))
        m = lockmap(p)
        if m:
            raise Violation("lock", "%s: still locked: %r" % (what, m))
        r = call(rs.rsopen, p, "RWB", 0, timeout=0)
        if isinstance(r, Raised):
            raise Violation("lock", "%s: can't be opened with locking: %r" % (what, r))
        r.close()
        held = held or slot.locks or slot.open and slot.locking
        env.label("layer:" + slot.layer)
        if slot.pending and slot.durable != init:
            env.nontrivial = True
            env.label("pending")
    if sorted(os.listdir(d)) != sorted(os.path.basename(p) for p in paths):
        raise Violation("debris", "%s: the directory contains %r" % (what, os.listdir(d)))
    if held:
        env.nontrivial = True
        env.label("locked")
    env.steps += len(ops)


def check_waiter(wait):
    r = wait.recv()
    if r != "ok":
        raise Violation("waiter", "the waiting process got %r" % (r,))


def begin(slots, ops, i):
    """The operation was in progress at death."""
    op = ops[i]
    slot = slots[op[1]]
    if op[0] in ("open", "reopen"):
        if not slot.open and "E" in slot.access:
            slot.pending.append(("t", 0))
    elif not slot.open:
        pass
    elif op[0] in ("write", "withlock"):
        slot.write(token(op[1], i, op[2]))
    elif op[0] == "truncate" and not slot.text:
        slot.pending.append(("t", op[2]))


def done(slots, ops, i, info, pos):
    op = ops[i]
    name, slot = op[0], slots[op[1]]
    if name in ("open", "reopen"):
        if info == "opened":
            slot.open = True
            slot.pos = 0
            if "E" in slot.access:
                slot.durable, slot.pending = b"", []
        elif isinstance(info, Raised) and not ("LockingException" in info.families and slot.locking):
            raise Violation("open", "%r gave %r" % (op, info))
    elif not slot.open:
        return
    elif name in ("write", "withlock"):
        t = token(op[1], i, op[2])
        if isinstance(info, Raised):
            if name == "write" or not ("RuntimeError" in info.families or "LockingException" in info.families):
                raise Violation("error", "%r gave %r" % (op, info))
        else:
            slot.write(t[:info])
            if slot.layer == "raw" or name == "withlock":
                slot.sync()
    elif name in ("flush", "sync", "size", "close"):
        if isinstance(info, Raised):
            raise Violation("error", "%r gave %r" % (op, info))
        slot.sync()
        if name == "close":
            slot.open = False
            slot.locks = set()
    elif name == "truncate" and not slot.text:
        if isinstance(info, Raised):
            raise Violation("error", "%r gave %r" % (op, info))
        slot.pending.append(("t", op[2]))
        slot.sync()
    elif name == "lock":
        if info is True:
            slot.locks.add(op[2])
    elif name == "unlock":
        if not isinstance(info, Raised):
            slot.locks.discard(op[2])
    if pos is not None:
        slot.pos = pos


# ------------------------------------------------------------------------------------------------ abandoned streams

WAYS = ["del", "rebind", "frame", "list", "exception", "generator", "thread", "method", "iterator", "closure", "context", "buffer-first", "cycle", "attribute"]


@st.composite
def abandon_strategy(draw):
    t, j = st.tuples, st.just
    layer = draw(st.sampled_from(["raw", "buffered", "buffered", "text", "text"]))
    size = st.one_of(st.integers(0, 40), st.sampled_from([100, 8192, 20000]))
    off = st.integers(0, 40)
    op = st.weighted((8, t(j("write"), size)), (2, t(j("flush"))), (2, t(j("seek"), off)), (2, t(j("read"), st.integers(0, 20))), (1, t(j("readline"))), (2, t(j("lock"), st.integers(0, 3), st.booleans())), (1, t(j("unlock"), st.integers(0, 3))), (1, t(j("size"))), (1, t(j("tell"))),
                     (1, t(j("next"))), (1, t(j("truncate"), off)), (1, t(j("failing"), st.integers(0, 3))))
    return ((layer, draw(st.sampled_from(["R", "W", "RW", "RW", "A", "RA", "WE"])), draw(st.sampled_from([None, None, 1, 16, 64])), draw(st.booleans()), draw(st.booleans())), draw(st.sampled_from(["path", "path", "fileno", "fileno", "keepfd", "opener"])),
            draw(st.lists(op, 0, 10)), draw(st.sampled_from(WAYS)), draw(st.sampled_from([None, None, "plain", "locked"])), draw(st.sampled_from([b"", b"line one\nline two\n", b"0123456789" * 1000])))


class Unraisable(object):
    """Collects the exceptions lost in destructors."""

    def __enter__(self):
        self.old = sys.unraisablehook
        self.got = []
        sys.unraisablehook = lambda u: self.got.append("%s: %s (%s)" % (getattr(u.exc_type, "__name__", u.exc_type), u.exc_value, u.err_msg))
        return self

    def __exit__(self, *a):
        sys.unraisablehook = self.old


def abandon_run(case, env):
    spec, how, ops, way, keeper, init = case
    rs = rsfile()
    path = env.path()
    with open(path, "wb") as f:
        f.write(init)
    slot = Slot(spec, init)
    if "E" in spec[1] and how in ("path", "opener"):
        slot.durable = b""
    before = fds()
    kf = None
    if keeper:
        kf = rs.rsopen(path, "RWB", 0, locking=False, thread_safe=False)
        env.defer(kf.close)
        if keeper == "locked":
            if spec[4]:
                kf.close()
                kf = None
            else:
                kf.lock_file(timeout=0, offset=5000, length=5)
    wrapped = None
    kw = dict(thread_safe=slot.ts, locking=slot.locking, timeout=0)
    if slot.layer == "raw":
        kw["buffering"] = 0
    elif slot.buf is not None and (slot.text or slot.buf != 1):
        kw["buffering"] = slot.buf
    if slot.text:
        kw.update(encoding="ascii", newline="\n")
    mode = slot.access + ("" if slot.text else "B")
    if how == "path":
        f = rs.rsopen(path, mode, **kw)
    elif how == "opener":
        f = rs.rsopen(path, mode, opener=lambda p, flags: os.open(p, flags), **kw)
    else:
        flags = os.O_RDWR if "R" in slot.access and ("W" in slot.access or "A" in slot.access) else os.O_RDONLY if slot.access == "R" else os.O_WRONLY
        wrapped = os.open(path, flags | (os.O_APPEND if "A" in slot.access else 0))
        f = rs.rsopen(None, mode.replace("E", ""), fileno=wrapped, closefd=how != "keepfd", **kw)
    slot.open = True
    slot.pos = 0 if slot.text else f.tell()
    writable = slot.access != "R"
    readable = "R" in slot.access
    kept = []
    mixed = False
    for i, op in enumerate(ops):
        env.steps += 1
        kind = op[0]
        if kind == "write":
            d = token(0, i, op[1])
            if not writable:
                r = call(f.write, d.decode() if slot.text else d)
                if not isinstance(r, Raised):
                    raise Violation("error", "write() accepted by a read-only stream")
                continue
            if mixed:
                f.seek(f.tell())
                mixed = False
            if slot.text and "A" not in slot.access:
                p = f.tell()
                slot.pos = p
            r = f.write(d.decode() if slot.text else d)
            slot.write(d[:r])
            continue
        if kind in ("flush", "size"):
            getattr(f, kind)()
        elif kind == "seek":
            f.seek(0 if slot.text else op[1])
            mixed = False
        elif kind in ("read", "readline", "next"):
            if not readable:
                if not isinstance(call(getattr(f, "read" if kind == "next" else kind)), Raised):
                    raise Violation("error", "%s() accepted by a write-only stream" % kind)
                continue
            f.flush()
            if kind == "next":
                call(next, f)
            else:
                call(getattr(f, kind), *op[1:])
            mixed = slot.text
            if slot.text:
                f.seek(0)  # re-enables tell()
                mixed = False
        elif kind == "lock":
            k, shared = op[1], op[2]
            r = call(f.lock_file, timeout=0, offset=k * 100, length=50, shared=(slot.access == "R" or shared and readable))
            if not isinstance(r, Raised):
                slot.locks.add(k)
                if way == "context":
                    kept.append(r)
            r = None
        elif kind == "unlock":
            if not isinstance(call(f.unlock_file, offset=op[1] * 100, length=50), Raised):
                slot.locks.discard(op[1])
        elif kind == "tell":
            f.tell()
        elif kind == "truncate" and writable:
            f.truncate(op[1])
            slot.pending.append(("t", op[1]))
            if slot.text:
                f.seek(0)
        elif kind == "failing":
            bad = [lambda: f.write(None), lambda: f.seek(-5), lambda: f.read("x"), lambda: f.lock_file(length=-1)][op[1]]
            if not isinstance(call(bad), Raised):
                raise Violation("error", "bad call %d succeeded" % op[1])
        if not slot.text:
            slot.pos = f.tell()
    expected = slot.full()
    on_disk = os.stat(path).st_size
    with Unraisable() as lost:
        holder = [f]
        del f
        drop(way, holder, kept)
        kept.clear()
        gc.collect()
    if lost.got:
        raise Violation("unraisable", "destruction after %r: %s" % (way, lost.got))
    if isinstance(holder[0], weakref.ref) and holder[0]() is not None:
        raise Violation("kept", "the stream is still alive, referred to by %s" % short([type(x).__name__ + repr(x)[:200] for x in gc.get_referrers(holder[0]())], 600))
    r = os.open(path, os.O_RDONLY) if kf is None else kf.fileno()
    content = os.pread(r, 1 << 20, 0)
    if kf is None:
        os.close(r)
    if content != expected and way != "cycle":
        raise Violation("data", "abandoned (%s) with %d bytes on disk: the file has %d bytes %s instead of %d bytes %s" % (way, on_disk, len(content), short(content, 200), len(expected), short(expected, 200)))
    m = lockmap(path)
    want = [(5000, 5005, "x")] if keeper == "locked" and kf is not None else []
    if m != want:
        raise Violation("lock", "abandoned (%s): lock map is %r instead of %r" % (way, m, want))
    if kf is not None:
        kf.write(b"")
        kf.close()
    left = fds() - before
    if how == "keepfd":
        if wrapped not in left:
            raise Violation("closefd", "the wrapped descriptor was closed")
        left.discard(wrapped)
        os.close(wrapped)
    if left:
        raise Violation("descriptor", "abandoned (%s): descriptors %r are still open" % (way, sorted(left)))
    if lockmap(path):
        raise Violation("lock", "abandoned (%s): lock map is %r" % (way, lockmap(path)))
    r = call(rs.rsopen, path, "RWB", 0, timeout=0)
    if isinstance(r, Raised):
        raise Violation("lock", "the file can't be locked again: %r" % r)
    r.close()
    env.nontrivial = on_disk != len(expected) or bool(slot.locks) or slot.locking
    env.label("way:" + way, "layer:" + slot.layer, "how:" + how)


def drop(way, holder, kept):
    """Abandons holder[0] in the given way; holder keeps only a weak reference."""
    def swap():
        f = holder[0]
        holder[0] = weakref.ref(f)
        return f

    if way == "del":
        f = swap()
        del f
    elif way == "rebind":
        f = swap()
        f = None
    elif way == "frame":
        def inner():
            g = swap()
            return 5
        inner()
    elif way == "list":
        x = [swap(), {"k": [1]}]
        x.clear()
    elif way == "exception":
        def inner():
            g = swap()
            raise KeyError("x")
        try:
            inner()
        except KeyError as e:
            e = None
    elif way == "generator":
        def inner():
            g = swap()
            yield 1
            g.flush()
        it = inner()
        next(it)
        del it
    elif way == "thread":
        t = threading.Thread(target=lambda: swap() and None)
        t.start()
        t.join()
    elif way == "method":
        w = holder[0].flush
        swap()
        del w
    elif way == "iterator":
        w = iter(holder[0])
        swap()
        del w
    elif way == "closure":
        f = swap()
        g = lambda: f
        del f, g
    elif way == "context":
        swap()
        kept.clear()
    elif way == "buffer-first":
        f = swap()
        b = getattr(f, "buffer", None) or getattr(f, "raw", None)
        f = None
        b = None
    elif way == "cycle":
        f = swap()
        call(setattr, f, "myself", f)
        x = [f]
        x.append(x)
        del f, x
    elif way == "attribute":
        class K(object):
            pass
        k = K()
        k.f = swap()
        k = None


# ------------------------------------------------------------------------------------------------ interpreter exit

@st.composite
def exit_strategy(draw):
    specs = draw(st.lists(st.tuples(st.tuples(st.sampled_from(["raw", "buffered", "text"]), st.sampled_from(["W", "RW", "A", "WE"]), st.sampled_from([None, 16]), st.booleans(), st.booleans()), st.integers(0, 20), st.sampled_from(["global", "list", "attribute", "thread-local", "default", "function", "lock-context", "atexit"])), 1, 8))
    return (specs, draw(st.sampled_from(["end", "sys.exit(3)", "1/0", "raise SystemExit", "thread"])))


PROLOGUE = """
import sys, threading, atexit
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import rsfile
class K(object): pass
store = []
tl = threading.local()
def use(f, size, text, place):
    f.write("y" * size if text else b"y" * size)
"""


def exit_run(case, env):
    specs, ending = case
    paths = []
    lines = [PROLOGUE % SRC]
    for i, (spec, size, place) in enumerate(specs):
        slot = Slot(spec, b"")
        path = env.path("f%d" % i)
        open(path, "wb").close()
        paths.append((path, size))
        args = "thread_safe=%r, locking=%r" % (slot.ts, slot.locking)
        if slot.layer == "raw":
            args += ", buffering=0"
        elif slot.buf:
            args += ", buffering=%d" % slot.buf
        if slot.text:
            args += ", encoding='ascii'"
        lines.append("f = rsfile.rsopen(%r, %r, %s)" % (path, slot.access + ("" if slot.text else "B"), args))
        lines.append("use(f, %d, %r, 0)" % (size, slot.text))
        lines.append({"global": "g%d = f" % i, "list": "store.append([f])", "attribute": "K.f%d = f" % i, "thread-local": "tl.f%d = f" % i, "default": "def fun%d(x=f): return x" % i, "function": "def fun%d():\n  x = f\n  yield x\nz%d = fun%d(); next(z%d)" % (i, i, i, i),
                      "lock-context": "c%d = f.lock_file(timeout=0, offset=1<<30, length=5)" % i if not slot.locking else "c%d = f" % i, "atexit": "atexit.register(f.flush)"}[place])
    if ending == "thread":
        lines.append("def run(x=f):\n  import time; time.sleep(0.02); x.flush()\nthreading.Thread(target=run).start()")
    lines.append("del f")
    if ending not in ("end", "thread"):
        lines.append(ending)
    p = subprocess.run([sys.executable, "-B", "-c", "\n".join(lines)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    err = p.stderr.decode("utf-8", "replace")
    if "Exception ignored" in err or ending != "1/0" and err.strip():
        raise Violation("unraisable", "ending with %r: %s" % (ending, err[-1500:]))
    if p.returncode != {"sys.exit(3)": 3, "1/0": 1}.get(ending, 0):
        raise Violation("status", "the interpreter ended with %r: %s" % (p.returncode, err[-1500:]))
    for (path, size), (spec, _, place) in zip(paths, specs):
        with open(path, "rb") as f:
            c = f.read()
        if c != b"y" * size:
            raise Violation("data", "%r in %r, ending with %r: the file has %s instead of %d bytes" % (spec, place, ending, short(c), size))
        if lockmap(path):
            raise Violation("lock", "still locked: %r" % lockmap(path))
    env.nontrivial = any(size and spec[0] != "raw" for spec, size, _ in specs)
    env.label("ending:" + ending)


# ------------------------------------------------------------------------------------------------ failed creations

CAUSES = ["missing", "directory", "exists", "mode", "badfd", "hugefd", "opener-raises", "opener-negative", "opener-type", "opener-closed", "locked", "buffering", "encoding", "newline", "errors", "fault", "fault", "fault", "direct", "new", "new", "wrapper", "wrapper", "wrongmode-fd", "closed-fd-later"]


@st.composite
def failed_strategy(draw):
    return (draw(st.sampled_from(CAUSES)), (draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.sampled_from(["R", "W", "RW", "A", "RA", "WE", "RWE"])), None, draw(st.booleans()), draw(st.booleans())),
            draw(st.sampled_from(["path", "fileno", "keepfd", "opener"])), draw(st.integers(0, 12)), draw(st.sampled_from([errno.EIO, errno.ENOMEM, errno.ENXIO, errno.ENOLCK, errno.EACCES])), draw(st.integers(0, 10)))


def failed_run(case, env):
    cause, spec, how, nth, err, variant = case
    rs = rsfile()
    layer, access, _, ts, locking = spec
    path = env.path()
    with open(path, "wb") as f:
        f.write(b"content")
    canary_path = env.path("canary")
    with open(canary_path, "wb") as f:
        f.write(b"canary")
    text = layer == "text"
    kw = dict(thread_safe=ts, locking=locking, timeout=0)
    kw["buffering"] = 0 if layer == "raw" else 64
    if text:
        kw.update(encoding="ascii")
    mode = access + ("" if text else "B")
    before = fds()
    owned = []  # descriptors which belong to the caller
    target = path
    blocker = None
    holder = []

    def real_open(p, flags):
        return os.open(p, flags)

    if how == "opener":
        kw["opener"] = real_open
    if how in ("fileno", "keepfd") and cause not in ("badfd", "hugefd"):
        fd = os.open(path, os.O_RDWR)
        owned.append(fd)
        kw.update(fileno=fd, closefd=how == "fileno")
        target = None
        mode = mode.replace("E", "")
    build = lambda: rs.rsopen(target, mode, **kw)
    fault = None
    if cause == "missing":
        if target is not None:
            target = path + ".missing"
        mode = mode.replace("A", "W").replace("W", "W") + "N" if "W" in mode or "A" in mode else mode
        if how in ("fileno", "keepfd"):
            kw["buffering"] = -7 if variant % 2 else "x"
    elif cause == "directory":
        if target is not None:
            target = os.path.dirname(path)
            if "opener" in kw:
                kw["opener"] = lambda p, flags: real_open(p, os.O_RDONLY)
        else:
            os.close(owned.pop())
            fd = os.open(os.path.dirname(path), os.O_RDONLY)
            owned.append(fd)
            kw["fileno"] = fd
    elif cause == "exists":
        mode = mode.replace("E", "") + "C"
    elif cause == "mode":
        mode = [mode + "Q", "", "RR", "EN", mode + "CN", "rw", "U"][variant % 7]
    elif cause == "badfd":
        fd = os.open(path, os.O_RDWR)
        os.close(fd)
        kw.pop("opener", None)
        kw.update(fileno=fd)
        target = None
    elif cause == "hugefd":
        kw.pop("opener", None)
        kw.update(fileno=[1 << 40, -1, -5, 99999, "x", 3.5][variant % 6])
        target = None
    elif cause.startswith("opener"):
        kw.pop("fileno", None)
        kw.pop("closefd", None)
        target = path

        def opener(p, flags):
            if cause == "opener-raises":
                raise KeyError("opener")
            if cause == "opener-negative":
                return -1
            if cause == "opener-type":
                return [None, "x", 2.5, object()][variant % 4]
            fd = os.open(p, os.O_RDONLY)
            os.close(fd)
            return fd

        kw["opener"] = opener
    elif cause == "locked":
        kw["locking"] = True
        blocker = Remote(lambda: locker(path))
        blocker.call("lock")
    elif cause == "buffering":
        kw["buffering"] = [-7, "x", 1.5, 1 << 70, 0 if text else -3][variant % 5]
    elif cause == "encoding":
        kw["encoding"] = ["nope", 5, "hex"][variant % 3]
        if not text:
            kw["buffering"] = 64
    elif cause == "newline":
        kw["newline"] = ["x", 5, "\n\n"][variant % 3]
    elif cause == "errors":
        kw["errors"] = ["nope", 5, b"strict"][variant % 3]
    elif cause == "fault":
        fault = nth
    elif cause == "direct":
        kw2 = {k: v for k, v in kw.items() if k in ("fileno", "closefd")}
        args = dict(read="R" in access, write="R" not in access or "W" in access, append="A" in access)
        junk = [dict(bogus=1), dict(must_create=True, must_not_create=True), dict(path=5.5), dict(path=None, fileno=None, handle=None), dict(read=False, write=False, append=False), dict(fileno=0, path=path), dict(permissions="x"), dict(inheritable=object(), path=path, must_create=True), dict(closefd=False, path=path), dict(handle=1 << 70),
                dict(path="nul\0byte")][variant % 11]
        args.update(kw2 if kw2 else dict(path=path))
        args.update(junk)
        build = lambda: rs.RSFileIO(**args)
    elif cause == "new":
        classes = [rs.RSFileIO, rs.RSBufferedReader, rs.RSBufferedWriter, rs.RSBufferedRandom, rs.RSTextIOWrapper, rs.RSThreadSafeWrapper]
        cls = classes[variant % len(classes)]

        def build():
            holder.append(cls.__new__(cls))
            if nth % 3 == 0:
                call(cls.__init__, holder[0])
            if nth % 3 == 1:
                for m in ("close", "fileno", "read", "write", "flush", "unlock_file"):
                    call(lambda: getattr(holder[0], m)())
            raise KeyError("never initialized")
    elif cause == "wrapper":
        class Bad(object):
            def __getattr__(self, name):
                raise AttributeError(name)

        def build():
            raw = rs.RSFileIO(path=path, read=True, write=nth % 2 == 0)
            holder.append(raw)
            v = variant % 8
            if v == 0:
                return rs.RSBufferedWriter(raw, -5)
            if v == 1:
                return rs.RSBufferedRandom(raw, buffer_size=0)
            if v == 2:
                return rs.RSTextIOWrapper(rs.RSBufferedReader(raw), encoding="nope")
            if v == 3:
                return rs.RSTextIOWrapper(rs.RSBufferedReader(raw), newline="zz")
            if v == 4:
                return rs.RSBufferedReader(Bad())
            if v == 5:
                return rs.RSTextIOWrapper(Bad())
            if v == 6:
                return rs.RSThreadSafeWrapper(Bad(), 5)
            return rs.RSBufferedReader(raw, "x")
    elif cause == "wrongmode-fd":
        for fd in owned:
            os.close(fd)
        owned[:] = []
        fd = os.open(path, os.O_RDONLY)
        owned.append(fd)
        kw.pop("opener", None)
        kw.update(fileno=fd, closefd=how != "keepfd", locking=True)
        mode = "WB" if not text else "W"
        target = None
    elif cause == "closed-fd-later":
        for fd in owned:
            os.close(fd)
        owned[:] = []
        fd = os.open(path, os.O_RDWR)
        kw.pop("opener", None)
        kw.update(fileno=fd, closefd=True, locking=True)
        target = None
        mode = mode.replace("E", "")
        base = build

        def build():
            state = dict(n=0)

            def before(name, args):
                if args and args[0] == fd and name in ("fstat", "lseek", "fcntl.lockf", "fcntl.fcntl"):
                    state["n"] += 1
                    if state["n"] == nth % 4 + 1:
                        REAL["close"](fd)
            with hooks(before):
                return base()
    count = [0]
    fired = []
    sticky = variant % 2  # the same call fails from then on

    def before_call(name, args):
        if fault is None or name in ("close", "set_blocking") or how == "opener" and name == "open":
            return None
        if count[0] == fault or sticky and fired and name == fired[0]:
            count[0] += 1
            fired.append(name)
            raise OSError(err, os.strerror(err))
        count[0] += 1

    exc = None
    canaries = []
    r = None
    with Unraisable() as lost:
        try:
            if fault is not None:
                with hooks(before_call):
                    r = build()
            else:
                r = build()
        except Exception as e:
            exc = e
        if exc is None:
            call(lambda: r.close())
            r = None
            env.label("succeeded:" + cause)
        else:
            env.nontrivial = True
            env.label("cause:" + cause)
        name = type(exc).__name__
        tb = exc.__traceback__ if exc is not None else None
        init_failed = False  # the creation of the raw stream itself failed
        while tb is not None:
            init_failed = init_failed or tb.tb_frame.f_code.co_name == "__init__" and type(tb.tb_frame.f_locals.get("self")).__name__ == "RSFileIO"
            tb = tb.tb_next
        # other parts of the program open files now, then the remnants get destroyed
        now = fds()
        for _ in range(12):
            canaries.append(os.open(canary_path, os.O_RDONLY))
        exc = None
        del holder[:]
        base = build = kw = None
        gc.collect()
        dead = []
        ino = os.stat(canary_path).st_ino
        for fd in canaries:
            try:
                if os.fstat(fd).st_ino != ino:
                    dead.append(fd)
            except OSError:
                dead.append(fd)
        for fd in canaries:
            if fd not in dead:
                os.close(fd)
    if dead:
        raise Violation("foreign", "the destruction of a stream which failed (%s) closed descriptors %r of others" % (name, dead))
    if lost.got:
        raise Violation("unraisable", "destruction after a failure (%s): %s" % (name, lost.got))
    after = fds()
    if blocker is not None:
        blocker.kill()
        after = fds()
    left = after - before - set(owned)
    if left:
        raise Violation("leak", "descriptors %r are still open after a failure (%s)" % (sorted(left), name))
    for fd in owned:
        if fd in after:
            os.close(fd)
        elif how == "keepfd" or init_failed:
            raise Violation("closefd", "descriptor %d was closed (%s)" % (fd, name))
    if lockmap(path):
        raise Violation("lock", "the file is locked after a failure (%s)" % name)
    if gc.garbage:
        raise HarnessError("gc.garbage: %r" % gc.garbage)


def locker(path):
    import fcntl

    def handle(req):
        fd = os.open(path, os.O_RDWR)
        fcntl.lockf(fd, fcntl.LOCK_EX | fcntl.LOCK_NB, 1, 0)
        return "ok"

    return handle


def setup():
    import warnings

    rsfile()
    warnings.simplefilter("ignore")
    start_prober()
    waiter()


PARTS = [Part("kill", kill_strategy, kill_run, quick=3800, thorough=80000, setup=setup, hang=40), Part("kill-async", async_strategy, kill_run, quick=600, thorough=12000, setup=setup, deterministic=False, hang=40),
         Part("abandon", abandon_strategy, abandon_run, quick=6000, thorough=100000, setup=setup), Part("exit", exit_strategy, exit_run, quick=32, thorough=1500, setup=setup, hang=70),
         Part("failed", failed_strategy, failed_run, quick=6000, thorough=100000, setup=setup)]
