"""C13: thread-safe streams serialise every call of every thread."""
import contextlib
import inspect
import os
import sys
import threading
import time
import warnings

import procs  # binds the real os functions first
import syscalls

syscalls.install()

import gen as st
from core import Part, Violation
from streams import Raised, call, rsfile, short

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing with instrumented mutexes and streams: generated programs (sequential, then multi-threaded with injected pre-emption points), "
             "the oracle being mutex ownership at each entry into the wrapped stream, absence of overlap, and conservation of the data")
RULE = ("Part 'mutex': generated sequences of all public calls through one thread with a user mutex: each entry into the wrapped stream layers (methods, iteration steps, system calls on the "
        "descriptor) must occur with the mutex held, and it must be free after each call, even failing ones. Part 'overlap': 2-4 threads start together on a fresh stream with the default or a "
        "user mutex, entries are slowed down, no two threads may be inside. Part 'data': concurrent writes/reads/transactions, no torn, lost or duplicated data. "
        "Non-trivial: at least 2 distinct kinds of calls entered the stream ('mutex'), at least 2 threads entered it (other parts).")
ASSUMPTIONS = ["Entries are observed by instrumenting the concrete stream classes and the os/fcntl functions of the process."]

NOT_CALLS = {"register", "mro"}


# ---------------------------------------------------------------- instrumentation

_track = {}  # id(stream) -> Tracker
_record = None
_ready = False


class Tracker(object):
    def __init__(self, mutex=None, pauses=()):
        self.mutex = mutex  # SpyMutex or None
        self.inside = {}  # thread id -> depth
        self.guard = threading.Lock()
        self.problems = []
        self.entries = {}
        self.threads = set()
        self.pauses = list(pauses)

    def enter(self, name):
        me = threading.get_ident()
        with self.guard:
            self.entries[name] = self.entries.get(name, 0) + 1
            self.threads.add(me)
            others = [t for t, d in self.inside.items() if d and t != me]
            if others:
                self.problems.append(("overlap", "%s() entered while another thread is inside (%s)" % (name, sorted(self.entries))))
            if self.mutex is not None and self.mutex.owner != me:
                self.problems.append(("escaped", "%s() entered without holding the mutex" % name))
            self.inside[me] = self.inside.get(me, 0) + 1
            pause = self.pauses.pop() if self.pauses and self.inside[me] == 1 else None
        if pause is not None:
            time.sleep(pause)

    def leave(self):
        with self.guard:
            self.inside[threading.get_ident()] -= 1

    def check(self):
        if self.problems:
            raise Violation(*self.problems[0])


def wrap_method(func, name):
    def method(self, *args, **kwargs):
        t = _track.get(id(self))
        if t is None:
            return func(self, *args, **kwargs)
        t.enter(name)
        try:
            return func(self, *args, **kwargs)
        finally:
            t.leave()
    method._spy = True
    method.__name__ = name
    return method


def wrap_init(func):
    def __init__(self, *args, **kwargs):
        func(self, *args, **kwargs)
        if _record is not None and not any(o is self for o in _record):
            _record.append(self)
    __init__._spy = True
    return __init__


def instrument():
    global _ready
    if _ready:
        return
    _ready = True
    rs = rsfile()
    import tempfile

    fd, path = tempfile.mkstemp()
    os.close(fd)
    classes = []
    for mode, kw in (("RWB", {}), ("RB", {}), ("WB", {}), ("RWT", {}), ("RWB", dict(buffering=0))):
        with rs.rsopen(path, mode, thread_safe=False, **kw) as f:
            for o in (f, getattr(f, "buffer", None), getattr(f, "raw", None), getattr(getattr(f, "buffer", None), "raw", None)):
                if o is not None and type(o) not in classes:
                    classes.append(type(o))
    os.unlink(path)
    for cls in classes:
        for name in dir(cls):
            if name in NOT_CALLS or name.startswith("_") and name != "__next__":
                continue
            static = inspect.getattr_static(cls, name)
            if inspect.isfunction(static) and not hasattr(static, "_spy"):
                setattr(cls, name, wrap_method(static, name))
        if not hasattr(cls.__init__, "_spy"):
            cls.__init__ = wrap_init(cls.__init__)


class SpyMutex(object):
    """A re-entrant mutex usable like those of threading."""

    def __init__(self):
        self._lock = threading.RLock()
        self.owner = None
        self.depth = 0
        self.total = 0

    def acquire(self, blocking=True, timeout=-1):
        r = self._lock.acquire(blocking, timeout)
        if r:
            self.owner = threading.get_ident()
            self.depth += 1
            self.total += 1
        return r

    def release(self):
        self.depth -= 1
        if not self.depth:
            self.owner = None
        self._lock.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def open_tracked(tracker, path, layer, access, mutex=None, direct=False, **kw):
    """A thread-safe stream whose layers are tracked (from the very first call made by the user)."""
    global _record
    rs = rsfile()
    instrument()
    text = layer == "text"
    if layer == "raw":
        kw["buffering"] = 0
    mode = access + ("T" if text else "B")
    _record = []
    try:
        if direct:
            f = rs.rsopen(path, mode, thread_safe=False, **kw)
            f = rs.RSThreadSafeWrapper(f, mutex=mutex)
        elif mutex is not None:
            f = rs.rsopen(path, mode, thread_safe=True, mutex=mutex, **kw)
        else:
            f = rs.rsopen(path, mode, thread_safe=True, **kw)
        created = _record
    finally:
        _record = None
    if len(created) != {"raw": 1, "buffered": 2, "text": 3}[layer]:
        raise Violation("layers", "%d layers were created" % len(created))
    for o in created:
        _track[id(o)] = tracker
    return f, created


def untrack(created):
    for o in created:
        _track.pop(id(o), None)


# ---------------------------------------------------------------- part mutex


def args_for(name, text):
    """Strategies of argument tuples of each method."""
    t, j = st.tuples, st.just
    none = t()
    n = st.integers(0, 30)
    data = st.sampled_from(["", "ab", "line\nother\n", "x" * 50, "y" * 9000])
    rng = st.one_of(none, t(n), t(n, n))
    table = dict(
        read=st.one_of(none, t(n)), readline=st.one_of(none, t(n)), readlines=none, write=t(data), writelines=t(st.lists(data, 0, 3)), seek=st.one_of(t(j(0)), t(n), t(j(0), j(2)), t(j(-5))),
        tell=none, truncate=st.one_of(none, t(n), t(n, st.booleans()), t(j(-1))), flush=none, fileno=none, isatty=none, readable=none, writable=none, seekable=none, size=none, times=none,
        unique_id=none, uid=none, handle=none, sync=st.one_of(none, t(st.booleans(), st.booleans())), unlock_file=rng, peek=t(n), read1=t(n), readinto=t(n), readinto1=t(n), readall=none,
        close=none, detach=none, reconfigure=none, lock_file=st.one_of(t(j(0)), t(j(0), n, n), t(j(-1))))
    return table[name]


NAMES_B = ["read", "readline", "readlines", "write", "write", "writelines", "seek", "tell", "truncate", "flush", "fileno", "isatty", "readable", "writable", "seekable", "size", "times", "unique_id",
           "handle", "sync", "unlock_file", "lock_file", "readinto", "peek", "read1", "readinto1", "readall"]
NAMES_T = ["read", "readline", "readlines", "write", "write", "writelines", "seek", "tell", "truncate", "flush", "fileno", "isatty", "readable", "writable", "seekable", "size", "times", "unique_id",
           "handle", "sync", "unlock_file", "lock_file", "reconfigure"]


@st.composite
def callop(draw, text):
    name = draw(st.sampled_from(NAMES_T if text else NAMES_B))
    return ("call", name, draw(args_for(name, text)))


def anyop(text):
    t, j = st.tuples, st.just
    c = callop(text)
    return st.weighted((10, c), (2, t(j("iter"), st.integers(1, 4))), (1, t(j("for"), st.integers(0, 3))),
                       (3, t(j("lockctx"), st.one_of(t(j(0), st.integers(1, 9), st.integers(0, 50)), t(j(0))), st.lists(c, 0, 2), st.booleans())), (1, t(j("nested"), st.lists(c, 1, 3))),
                       (1, t(j("keep"), st.sampled_from(["write", "tell", "size", "flush"]))), (1, t(j("genwrite"))), (1, t(j("closed_with"))))


OPS = {False: st.lists(anyop(False), 1, 8), True: st.lists(anyop(True), 1, 8)}


@st.composite
def mutex_strategy(draw):
    layer = draw(st.sampled_from(["raw", "buffered", "text"]))
    return (layer, draw(st.sampled_from(["RW", "RW", "R", "W", "RA", "RWI"])), draw(st.booleans()), draw(st.booleans()), draw(OPS[layer == "text"]),
            draw(st.sampled_from(["close", "with", "with_exc", "del"])))


def do_call(f, name, args, text):
    args = list(args)
    if name == "write" and not text:
        args = [args[0].encode()]
    elif name == "writelines" and not text:
        args = [[x.encode() for x in args[0]]]
    elif name in ("readinto", "readinto1"):
        args = [bytearray(args[0])]
    return call(lambda: getattr(f, name)(*args))


def mutex_run(case, env):
    layer, access, locking, direct, ops, ending = case
    text = layer == "text"
    path = env.path("f")
    with open(path, "wb") as g:
        g.write(b"line 1\nline 22\nline 333\n" * 30)
    m = SpyMutex()
    tracker = Tracker(m)
    f, created = open_tracked(tracker, path, layer, access, mutex=m, direct=direct, locking=locking)
    fd = f.fileno()
    if f.mutex is not m:
        raise Violation("mutex", "the mutex attribute isn't the provided mutex")
    kept = {}
    active = [True]

    def before(name, args):
        if active[0] and args and args[0] == fd and type(args[0]) is int and m.owner != threading.get_ident():
            tracker.problems.append(("escaped", "system call %s() on the descriptor without holding the mutex" % name))

    def step(op):
        env.steps += 1
        kind = op[0]
        if kind == "call":
            do_call(f, op[1], op[2], text)
        elif kind == "iter":
            for i in range(op[1]):
                call(next, f)
        elif kind == "for":
            def loop():
                for i, line in enumerate(f):
                    if i >= op[1]:
                        break
            call(loop)
        elif kind == "lockctx":
            r = call(f.lock_file, *op[1])
            if not isinstance(r, Raised):
                done(op)
                try:
                    with r:
                        done(op)
                        for o in op[2]:
                            step(o)
                            done(o)
                        if op[3]:
                            raise KeyError("x")
                except KeyError:
                    pass
                except (OSError, ValueError, RuntimeError):
                    pass  # e.g. unlocked inside
        elif kind == "nested":
            with f.mutex:
                for o in op[1]:
                    do_call(f, o[1], o[2], text)
                if m.depth != 1:
                    raise Violation("leak", "mutex depth is %d inside a with-block on the mutex, after %r" % (m.depth, op[1]))
        elif kind == "keep":  # a method obtained once and called later
            if op[1] in kept:
                call(kept[op[1]], *(["z" if text else b"z"] if op[1] == "write" else []))
            else:
                kept[op[1]] = getattr(f, op[1])
        elif kind == "genwrite":
            def gen():
                for i in range(3):
                    if m.owner != threading.get_ident():
                        tracker.problems.append(("escaped", "generator of writelines() run without the mutex"))
                    yield "g" if text else b"g"
            call(f.writelines, gen())

    def done(op):
        tracker.check()
        if m.depth or m.owner is not None:
            raise Violation("leak", "mutex still held after %r" % (op,))

    try:
        with syscalls.hooks(before):
            for op in ops:
                if op[0] == "closed_with":
                    continue
                step(op)
                done(op)
                if f.closed:
                    break
            del kept
            if ending == "close":
                call(f.close)
            elif ending in ("with", "with_exc"):
                try:
                    with f:
                        if ending == "with_exc":
                            raise KeyError("x")
                except (KeyError, ValueError, OSError):
                    pass
            if ending != "del":
                done((ending,))
                if not f.closed:
                    raise Violation("close", "stream not closed")
                for op in ops[:3]:
                    if op[0] in ("call", "iter", "for"):
                        step(op)
                        done(op)
    finally:
        active[0] = False
        untrack(created)
        call(created[-1].close)
    env.nontrivial = len(tracker.entries) >= 2
    env.label("layer:" + layer, *("entered:" + n for n in tracker.entries))


# ---------------------------------------------------------------- part overlap


def thread_op(text):
    t, j = st.tuples, st.just
    return st.weighted((6, callop(text)), (2, t(j("iter"), st.integers(1, 2))), (2, t(j("lockctx"), t(j(0), st.integers(1, 5), st.integers(0, 50)))), (1, t(j("with"))))


@st.composite
def overlap_strategy(draw):
    layer = draw(st.sampled_from(["raw", "buffered", "text"]))
    text = layer == "text"
    nthreads = draw(st.integers(2, 4))
    same = draw(st.booleans())  # all threads start with the same call
    first = draw(thread_op(text))
    progs = []
    for i in range(nthreads):
        p = draw(st.lists(thread_op(text), 0, 3))
        progs.append(([first] if same or not p else []) + p)
    return (layer, draw(st.sampled_from(["RW", "RW", "R", "RA", "RWI"])), draw(st.sampled_from([None, None, "user", "user_lock", "mp"])), draw(st.booleans()), progs,
            draw(st.lists(st.sampled_from([0, 0, 1, 5, 20]), 2, 8)))


def run_threads(funcs, barrier_timeout=20):
    barrier = threading.Barrier(len(funcs))
    errors = []

    def main(func):
        try:
            barrier.wait(barrier_timeout)
            func()
        except Violation as v:
            errors.append(v)
        except BaseException as e:
            errors.append(e)

    threads = [threading.Thread(target=main, args=(x,), daemon=True) for x in funcs]
    for t in threads:
        t.start()
    deadline = time.monotonic() + 25
    for t in threads:
        t.join(max(0.01, deadline - time.monotonic()))
    if any(t.is_alive() for t in threads):
        raise Violation("deadlock", "threads are blocked")
    if errors:
        raise errors[0]


def overlap_run(case, env):
    layer, access, kind, direct, progs, pauses = case
    text = layer == "text"
    path = env.path("f")
    with open(path, "wb") as g:
        g.write(b"line 1\nline 22\nline 333\n" * 300)
    tracker = Tracker(None, [x / 10000.0 for x in pauses])
    import multiprocessing

    mutex = {None: None, "user": threading.RLock(), "user_lock": threading.Lock(), "mp": multiprocessing.RLock() if kind == "mp" else None}[kind]
    f, created = open_tracked(tracker, path, layer, access, mutex=mutex, direct=direct, locking=False)

    def prog(ops):
        def run():
            for op in ops:
                if op[0] == "call":
                    do_call(f, op[1], op[2], text)
                elif op[0] == "iter":
                    for i in range(op[1]):
                        call(next, f)
                elif op[0] == "lockctx":
                    r = call(f.lock_file, *op[1])
                    if not isinstance(r, Raised):
                        call(lambda: r.__enter__())
                        call(lambda: r.__exit__(None, None, None))
                else:
                    def use():
                        with f:
                            pass
                    call(use)
        return run

    env.steps += sum(map(len, progs))
    try:
        run_threads([prog(p) for p in progs])
        tracker.check()
    finally:
        untrack(created)
        call(created[-1].close)
    env.nontrivial = len(tracker.threads) > 1
    env.label("layer:" + layer, "mutex:%s" % kind)


# ---------------------------------------------------------------- part data

CELL = 8


@st.composite
def data_strategy(draw):
    layer = draw(st.sampled_from(["raw", "buffered", "buffered", "text", "text"]))
    n = draw(st.integers(2, 5))
    what = draw(st.sampled_from(["writers", "writers", "readers", "rmw", "iter", "seekread"]))
    sizes = [draw(st.lists(st.sampled_from([1, 2, 3, 10, 100, 700, 1500]), 1, 10)) for i in range(n)]
    return (what, layer, draw(st.sampled_from([None, 16, 64, 1000])), draw(st.sampled_from([None, None, "user"])), draw(st.booleans()), sizes,
            draw(st.lists(st.sampled_from([0, 0, 0, 1, 3]), 0, 12)))


def cells(first, count):
    return "".join("%07x\n" % (first + i) for i in range(count))


def data_run(case, env):
    what, layer, buf, kind, locking, sizes, pauses = case
    text = layer == "text"
    path = env.path("f")
    total = 4000
    with open(path, "wb") as g:
        if what in ("readers", "iter", "seekread"):
            g.write(cells(0, total).encode())
        elif what == "rmw":
            g.write(b"%08d" % 0)
    tracker = Tracker(None, [x / 10000.0 for x in pauses])
    kw = dict(locking=locking)
    if layer != "raw" and buf:
        kw["buffering"] = buf
    if text:
        kw.update(encoding="ascii", newline="\n")
    f, created = open_tracked(tracker, path, layer, {"writers": "RW", "rmw": "RW", "readers": "R", "iter": "R", "seekread": "RW"}[what], mutex=threading.RLock() if kind else None, **kw)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    results = [[] for s in sizes]
    env.steps += sum(map(len, sizes))

    def conv(s):
        return s if text else s.encode("ascii")

    def back(s):
        return s if text else s.decode("ascii")

    def worker(i):
        def writer():
            for k, n in enumerate(sizes[i]):
                s = "<%d.%d:%s>" % (i, k, chr(97 + i) * n * 3)
                if k % 5 == 4 and layer != "raw":
                    f.writelines(conv(x) for x in (s[:2], s[2:5], s[5:]))
                else:
                    r = f.write(conv(s))
                    if r != len(s):
                        raise Violation("result", "write of %d returned %r" % (len(s), r))
                if k % 3 == 2:
                    f.flush()

        def reader():
            while True:
                for n in sizes[i]:
                    if layer == "buffered" and n % 2:
                        b = bytearray(n * CELL)
                        r = f.readinto(b)
                        s = bytes(b[:r]).decode("ascii")
                    else:
                        s = back(f.read(n * CELL))
                    if not s:
                        return
                    results[i].append(s)

        def iterate():
            if i % 2:
                for line in f:
                    results[i].append(back(line))
            else:
                while True:
                    line = f.readline()
                    if not line:
                        return
                    results[i].append(back(line))

        def rmw():
            for k in range(3 + len(sizes[i])):
                with f.mutex:
                    f.seek(0)
                    v = int(f.read(8))
                    f.seek(0)
                    f.write(conv("%08d" % (v + 1)))

        def seekread():
            for n in sizes[i]:
                with f.mutex:
                    f.seek(n * CELL)
                    s = back(f.read(3 * CELL))
                if s != cells(n, 3):
                    raise Violation("atomicity", "seek+read under the mutex gave %s instead of the cells at %d" % (short(s), n))

        return dict(writers=writer, readers=reader, iter=iterate, rmw=rmw, seekread=seekread)[what]

    try:
        run_threads([worker(i) for i in range(len(sizes))])
    finally:
        sys.setswitchinterval(old)
        untrack(created)
        call(f.close)
    with open(path, "rb") as g:
        content = g.read().decode("ascii", "replace")
    if what == "writers":
        expected = {}
        for i, ns in enumerate(sizes):
            for k, n in enumerate(ns):
                expected["<%d.%d:%s>" % (i, k, chr(97 + i) * n * 3)] = (i, k)
        order = [[] for s in sizes]
        p = 0
        while p < len(content):
            e = content.find(">", p)
            s = content[p:e + 1] if e >= 0 else content[p:]
            if s not in expected:
                raise Violation("torn", "unexpected data at %d: %s" % (p, short(s)))
            i, k = expected.pop(s)
            order[i].append(k)
            p += len(s)
        if expected:
            raise Violation("lost", "missing: %s" % short(sorted(expected)))
        if any(o != sorted(o) for o in order):
            raise Violation("order", "writes of a thread were reordered: %r" % (order,))
    elif what in ("readers", "iter"):
        seen = []
        for r in results:
            last = -1
            for s in r:
                c = [s[x:x + CELL] for x in range(0, len(s), CELL)]
                try:
                    c = [int(x[:7], 16) for x in c if x[7] == "\n" or 1 / 0]
                except (ValueError, ZeroDivisionError, IndexError):
                    raise Violation("torn", "a reader got %s" % short(s)) from None
                if c != list(range(c[0], c[0] + len(c))) or c[0] <= last:
                    raise Violation("torn", "a reader got cells %s" % short(c))
                last = c[-1]
                seen += c
        if sorted(seen) != list(range(total)):
            raise Violation("delivery", "%d cells delivered instead of %d" % (len(seen), total))
    elif what == "rmw":
        n = sum(3 + len(s) for s in sizes)
        if int(content) != n:
            raise Violation("atomicity", "%s after %d increments under the mutex" % (content, n))
    tracker.check()
    env.nontrivial = len(tracker.threads) > 1
    env.label("what:" + what, "layer:" + layer)


PARTS = [Part("mutex", mutex_strategy, mutex_run, quick=7000, thorough=150000),
         Part("overlap", overlap_strategy, overlap_run, quick=3500, thorough=60000, deterministic=False, hang=60),
         Part("data", data_strategy, data_run, quick=1200, thorough=25000, deterministic=False, hang=60)]
