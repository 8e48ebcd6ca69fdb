"""C26: arbitrary arguments give a result or a clean error, never corruption."""
import array
import fcntl
import io
import os
import decimal
import fractions
import pathlib
import threading
import types
import warnings

import gen as st
import procs
from core import Part, Violation
from streams import Raised, call, mk, read_file, rsfile, same_outcome, short

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: argument fuzzing of rsopen, of the raw constructor and of the stream methods, judged by a metamorphic relation (a call which fails because of its arguments is a no-op: a twin stream which only received the other calls must be in the same state)"
RULE = ("Part 'methods': histories mixing proper calls and calls with arbitrary arguments (wrong types, extreme magnitudes, hostile objects, wrong arities) on every kind of stream, including wrong modes; failed calls are skipped on the twin. "
        "Part 'closed': every operation, with proper or arbitrary arguments, on closed streams. Part 'open': arbitrary arguments to rsopen() and to RSFileIO(). "
        "Non-trivial: at least one call was refused ('methods', 'open'), or at least 3 operations were tried ('closed').")
ASSUMPTIONS = ["LookupError for unknown codecs, OverflowError/MemoryError for huge numbers and AttributeError for methods that the kind of stream doesn't have are clean errors too, like in the standard library.",
               "Text positions which were not returned by tell() are undefined behaviour of the standard library: only the type of errors is checked for them."]

F_OFD_GETLK = 36


class Hostile(object):
    """Raises ValueError from every conversion."""

    def _no(self, *a):
        raise ValueError("hostile")

    __index__ = __int__ = __float__ = __len__ = __iter__ = __bool__ = __fspath__ = __lt__ = __gt__ = __le__ = __ge__ = __bytes__ = _no


class Index(object):
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n


class PathLike(object):
    def __init__(self, v):
        self.v = v

    def __fspath__(self):
        return self.v


class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


OBJECTS = dict(
    none=lambda: None, true=lambda: True, false=lambda: False, str=lambda: "abc", empty=lambda: "", bytes=lambda: b"abc", emptybytes=lambda: b"", bytearray=lambda: bytearray(b"xyz"), list=lambda: [], intlist=lambda: [65, 66],
    strlist=lambda: ["q\n", "r"], byteslist=lambda: [b"q\n", b"r"], badlist=lambda: [5], mixedlist=lambda: [None, b"q", "r"], tuple=lambda: (1, 2), dict=lambda: {"a": 1}, set=lambda: {1}, object=object, hostile=Hostile,
    type=lambda: int, func=lambda: (lambda *a: None), gen=lambda: (x for x in ()), cplx=lambda: 2j, idx3=lambda: Index(3), idxneg=lambda: Index(-5), intsub=lambda: IntSub(4), strsub=lambda: StrSub("zz"),
    surrogate=lambda: "\udcff", nul=lambda: "a\0b", arr=lambda: array.array("H", b"12345678"), roview=lambda: memoryview(b"readonly"), strided=lambda: memoryview(bytearray(b"a1b2c3"))[::2], bigview=lambda: memoryview(array.array("d", [0.0, 1.0])),
    buf4=lambda: bytearray(4), buf0=lambda: bytearray(0), stringio=lambda: io.StringIO("s"), bytesio=lambda: io.BytesIO(b"s"), path=lambda: pathlib.Path("p"), range=lambda: range(3), exc=lambda: ValueError("e"), notimpl=lambda: NotImplemented,
    fraction=lambda: fractions.Fraction(1, 2), fraction3=lambda: fractions.Fraction(3), decimal=lambda: decimal.Decimal(1), decimalneg=lambda: decimal.Decimal(-1), floatsub=lambda: FloatSub(0.5),
    ellipsis=lambda: Ellipsis, lock=threading.RLock, slice=lambda: slice(1), bool_bytes=lambda: b"\0",
)
INTS = [0, 1, 2, 3, 5, 10, 40, -1, -2, -3, -100, 7, 2 ** 63, 2 ** 64, 2 ** 64 + 3, -2 ** 31, -2 ** 63, -2 ** 63 - 1, -2 ** 64, 2 ** 100, -2 ** 100]
FLOATS = [0.0, 1.0, 0.5, -1.0, 1e300, float("inf"), float("-inf"), float("nan"), -0.0]

WEIRD = st.weighted((5, st.sampled_from(sorted(OBJECTS)).map(lambda n: ("obj", n))), (4, st.sampled_from(INTS).map(lambda n: ("int", n))), (2, st.sampled_from(FLOATS).map(lambda x: ("float", repr(x)))))


def val(token):
    kind, v = token
    if kind == "obj":
        return OBJECTS[v]()
    return float(v) if kind == "float" else v


# name -> (list of proper argument lists, for binary ; for text)
SMALL = [("int", n) for n in (0, 1, 2, 3, 7, 20)]
O = lambda n: ("obj", n)
METHODS = {
    "read": ([], [("int", 3)], [("int", -1)], [O("none")], [("int", 0)], [("int", 50)]),
    "readline": ([], [("int", 4)], [("int", -1)]),
    "readlines": ([], [("int", 5)]),
    "readall": ([],),
    "read1": ([("int", 4)], []),
    "peek": ([("int", 1)], []),
    "readinto": ([O("buf4")], [O("buf0")], [O("arr")]),
    "readinto1": ([O("buf4")],),
    "write": ([O("bytes")], [O("str")], [O("bytearray")], [O("emptybytes")], [O("empty")], [O("arr")]),
    "writelines": ([O("byteslist")], [O("strlist")], [O("list")]),
    "seek": ([("int", 0)], [("int", 5)], [("int", 0), ("int", 2)], [("int", 0), ("int", 1)], [("int", 4), ("int", 0)]),
    "tell": ([],),
    "truncate": ([], [("int", 6)], [("int", 30)], [O("none")], [("int", 9), O("true")], [("int", 9), O("false")]),
    "flush": ([],),
    "sync": ([], [O("true"), O("false")]),
    "size": ([],),
    "times": ([],),
    "unique_id": ([],),
    "uid": ([],),
    "fileno": ([],),
    "handle": ([],),
    "isatty": ([],),
    "readable": ([],),
    "writable": ([],),
    "seekable": ([],),
    "lock_file": ([("int", 0)], [("int", 0), ("int", 5), ("int", 2)], [("int", 0), ("int", 3), ("int", 8)], [("float", "0.0"), O("none"), ("int", 4)]),
    "unlock_file": ([], [("int", 5), ("int", 2)], [("int", 3), ("int", 8)], [O("none"), ("int", 4)]),
    "__iter__": ([],),
    "__next__": ([],),
    "__enter__": ([],),
    "detach": ([],),
    "close": ([],),
}
NAMES = sorted(set(METHODS) - {"close", "detach"}) + ["read", "write", "seek", "truncate", "lock_file", "unlock_file", "readinto", "writelines"] * 3 + ["readline", "readlines", "read1", "peek", "readinto1", "sync", "tell"]
KEYWORDS = {
    "lock_file": ["timeout", "length", "offset", "whence", "shared", "bogus"],
    "unlock_file": ["length", "offset", "whence", "bogus"],
    "truncate": ["size", "zero_fill", "bogus"],
    "seek": ["whence"],
    "sync": ["metadata", "full_flush", "bogus"],
    "read": ["bogus"],
}


@st.composite
def a_call(draw, weird=None):
    name = draw(st.sampled_from(NAMES))
    if weird is None:
        weird = draw(st.integers(0, 9)) < 6
    kw = []
    if not weird:
        args = draw(st.sampled_from(METHODS[name]))
    else:
        base = list(draw(st.sampled_from(METHODS[name])))
        how = draw(st.integers(0, 9))
        if how < 5 and base:  # one of the arguments is arbitrary
            base[draw(st.integers(0, len(base) - 1))] = draw(WEIRD)
        elif how < 8:
            base = draw(st.lists(WEIRD, 0 if how == 7 else 1, 3))
        elif how == 8:
            base = draw(st.lists(WEIRD, 0, 7))
        if name in KEYWORDS and draw(st.integers(0, 2)) == 0:
            base = base[:draw(st.integers(0, 1))]
            kw = draw(st.lists(st.tuples(st.sampled_from(KEYWORDS[name]), WEIRD), 1, 3))
        args = base
    return (name, list(args), [list(x) for x in sorted(dict(kw).items())])


MODES = ["RB", "RB", "WB", "RWB", "RWB", "RWB", "AB", "RAB", "R", "W", "RW", "RW", "RA", "A"]


@st.composite
def methods_strategy(draw):
    mode = draw(st.sampled_from(MODES))
    binary = "B" in mode
    buffering = draw(st.sampled_from([-1, -1, 5, 16] + ([0, 0, 0] if binary else [])))
    n = draw(st.integers(2, 14))
    return (mode, buffering, draw(st.booleans()), draw(st.sampled_from(["utf-8", "ascii", "latin-1"])) if not binary else None, draw(st.integers(0, 60)), draw(st.integers(0, 8)), draw(st.lists(a_call(), n, n)))


ALLOWED = {"ValueError", "TypeError", "OSError"}


def clean(exc, name, args, kw):
    if exc.families & ALLOWED:
        return True
    if name in ("lock_file", "unlock_file") and "RuntimeError" in exc.families:
        return True
    huge = any(a[0] == "int" and abs(a[1]) > 2 ** 30 or a[0] == "float" and abs(val(a)) > 1e9 for a in list(args) + [v for _, v in kw])
    if huge and exc.families & {"OverflowError", "MemoryError"} or "OverflowError" in exc.families and any(a[0] == "float" for a in args):
        return True
    if name == "__next__" and "StopIteration" in exc.families:
        return True
    return False


def lockmap_ofd(fd):
    """What the locks of this very process look like, through another open file description (left open, else they'd vanish)."""
    import struct

    out, pos = [], 0
    while len(out) < 40:
        data = fcntl.fcntl(fd, F_OFD_GETLK, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, pos, 0, 0))
        t, w, start, length, pid = struct.unpack("hhqqi4x", data)
        if t == fcntl.F_UNLCK:
            break
        # the kernel returns the first conflicting lock in its list (sorted by owner then start)
        out.append((t, start, length))
        if length == 0:
            break
        pos = start + length
    return out


def content_of(fd):
    """Without opening and closing the file, which would drop the locks of this process."""
    return os.pread(fd, 1 << 20, 0)


class Twin(object):
    def __init__(self, env, name, mode, buffering, ts, enc, init):
        rs = rsfile()
        self.path = env.path(name)
        with io.open(self.path, "wb") as f:
            f.write(init)
        kw = {} if enc is None else dict(encoding=enc, newline="\n")
        self.f = rs.rsopen(self.path, mode, buffering, locking=False, thread_safe=ts, **kw)
        env.defer(self.f.close)
        self.probe = os.open(self.path, os.O_RDONLY)
        env.defer(os.close, self.probe)
        self.gone = False
        self.locks = []  # contexts are kept, for their destruction not to change anything

    def do(self, name, args, kw):
        a = [val(x) for x in args]
        k = {n: val(v) for n, v in kw}
        f = self.f
        if name in ("__iter__", "__next__", "__enter__"):
            r = call(getattr(f, name), *a, **k)
            return "stream" if r is f or hasattr(r, "wrapped_stream") or isinstance(r, io.IOBase) else r
        r = call(getattr(f, name), *a, **k)
        if name == "lock_file" and not isinstance(r, Raised):
            self.locks.append(r)
            return "locked"
        if name.startswith("readinto") and a and not isinstance(r, Raised):
            return (r, bytes(memoryview(a[0]).cast("B")))
        if name == "peek":
            return r if isinstance(r, Raised) else r[:1]
        if name in ("fileno", "handle"):
            return r if isinstance(r, Raised) else "fd" if r == f.fileno() else ("bad", r)
        if name in ("times", "unique_id", "uid") and not isinstance(r, Raised):
            return name
        return r


def methods_run(case, env):
    mode, buffering, ts, enc, size, pos, calls = case
    rsfile()
    init = ("".join("l%d\n" % i for i in range(40))[:size]).encode(enc or "ascii")
    before = len(procs.fds())
    a = Twin(env, "a", mode, buffering, ts, enc, init)
    b = Twin(env, "b", mode, buffering, ts, enc, init)
    nfds = len(procs.fds())
    text = enc is not None
    if not text and "A" not in mode:
        a.f.seek(pos), b.f.seek(pos)
    refused = 0
    label = "raw" if buffering == 0 else "text" if text else "buffered"
    env.label(label, "mode:" + mode)
    cookies, writing = [0], False
    for name, args, kw in calls:
        if name not in ("lock_file", "unlock_file") and isinstance(call(getattr, a.f, name), Raised):
            continue  # this kind of stream hasn't this method
        if name == "lock_file" and not bounded_lock(args, kw):
            continue
        if text and name in ("read1", "peek", "readinto1") or buffering and name == "readall":
            continue  # these are forwarded to the layers below, behind the back of the text layer
        kind = name.startswith("write") or name == "truncate"
        if text and kind != writing:
            writing = kind
            for t in (a, b):  # what text streams require
                p = call(t.f.tell)
                if not isinstance(p, Raised):
                    t.f.seek(p)
        undefined = text and name == "seek" and args and args[0][0] in ("int", "obj") and isinstance(val(args[0]), (int, Index)) and not (args[0] == ("int", 0) or args[0] in [("int", c) for c in cookies]) \
            and int(val(args[0]) if isinstance(val(args[0]), int) else val(args[0]).n) > 0
        what = "%s(%s%s)" % (name, ", ".join(map(repr, args)), "".join(", %s=%r" % tuple(x) for x in kw))
        x = a.do(name, args, kw)
        if isinstance(x, Raised):
            refused += 1
            if not clean(x, name, args, kw):
                raise Violation("exception", "%s on %r/%d: %s gave %r" % (label, mode, buffering, what, x))
            env.label("refused:" + name)
            if undefined:
                return finish(env, a, b, refused, None, label)
            if len(procs.fds()) != nfds:
                raise Violation("descriptors", "%s on %r/%d: %d descriptors instead of %d after failed %s" % (label, mode, buffering, len(procs.fds()), nfds, what))
            if name == "writelines":
                return finish(env, a, b, refused, None, label)  # the first lines might have been written
        else:
            if must_refuse(name, args, kw, mode, text):
                raise Violation("accepted", "%s on %r/%d: %s gave %s, it should have been refused" % (label, mode, buffering, what, short(x)))
            if undefined:
                return finish(env, a, b, refused, None, label)
            if name in ("read1", "readinto1"):  # the length of their result depends on the data read in advance
                n = len(x) if name == "read1" else x[0]
                y = call(b.f.read, n)
                x = x if name == "read1" else x[1][:n]
            else:
                y = b.do(name, args, kw)
            if not same_outcome(x, y) and not (x != x and y != y):
                raise Violation("twin", "%s on %r/%d: %s gave %s, but %s on a stream which didn't receive the failed calls: %r" % (label, mode, buffering, what, short(x), short(y), calls))
            if name == "tell" and text and isinstance(x, int):
                cookies.append(x)
        env.steps += 1
        if text and name in ("__next__", "readlines"):
            a.f.seek(0), b.f.seek(0)  # even failed iterations disable tell(), and flushing meanwhile is a known mess of the stdlib
        if name == "truncate" and buffering and not text and not isinstance(x, Raised):
            for t in (a, b):
                t.f.seek(t.f.tell())  # drops the data read in advance, possibly obsolete
        if "A" in mode and name.startswith("write"):
            call(a.f.flush), call(b.f.flush)  # the position is only known once data has been appended
        if lockmap_ofd(a.probe) != lockmap_ofd(b.probe):
            raise Violation("locks", "%s on %r/%d: locks %r instead of %r after %s" % (label, mode, buffering, lockmap_ofd(a.probe), lockmap_ofd(b.probe), what))
        if not text and (buffering == 0 or name in ("write", "truncate", "readinto", "seek")):
            x, y = call(a.f.tell), call(b.f.tell)
            if x != y and not (isinstance(x, Raised) and isinstance(y, Raised)):
                raise Violation("position", "%s on %r/%d: position %r instead of %r after %s" % (label, mode, buffering, x, y, what))
    finish(env, a, b, refused, (mode, buffering, calls), label)


SIGNATURES = dict(lock_file=["timeout", "length", "offset", "whence", "shared"], unlock_file=["length", "offset", "whence"], truncate=["size", "zero_fill"], seek=["offset", "whence"], write=["data"], sync=["metadata", "full_flush"])


def must_refuse(name, args, kw, mode, text):
    """Documented constraints whose violation must be reported, rather than giving some arbitrary result."""
    reads, writes = "R" in mode, "W" in mode or "A" in mode
    if name in ("read", "readline", "readlines", "readinto", "read1", "peek", "readinto1", "__next__") and not reads or name in ("write", "truncate") and not writes:
        return not args or name not in ("read", "readline", "readlines", "readinto", "readinto1", "read1")
    if name not in SIGNATURES:
        return False
    names = SIGNATURES[name]
    if len(args) > len(names) or set(dict(kw)) - set(names) and name in ("lock_file", "unlock_file", "truncate", "sync"):
        return True
    d = {n: val(v) for n, v in list(zip(names, args)) + [tuple(x) for x in kw] if n in names}
    num = (int, float, fractions.Fraction, decimal.Decimal)  # (whence and shared are only compared with allowed values)
    if name in ("lock_file", "unlock_file"):
        length, offset, whence = d.get("length"), d.get("offset"), d.get("whence", 0)
        if length is not None and (not isinstance(length, int) or length < 0) or offset is not None and not isinstance(offset, int):
            return True
        if not isinstance(whence, num) or whence not in (0, 1, 2):
            return True
        if name == "unlock_file":
            return False
        if whence == 0 and offset is not None and offset < 0:
            return True
        timeout, shared = d.get("timeout"), d.get("shared")
        if timeout is not None and (not isinstance(timeout, (int, float)) or timeout < 0):
            return True
        if not (shared is None or isinstance(shared, num) and shared in (0, 1)):
            return True
        return shared is not None and (not reads if shared else not writes)
    if name == "truncate":
        size = d.get("size")
        return size is not None and not (isinstance(size, (int, Index)) and (size if isinstance(size, int) else size.n) >= 0)
    if name == "seek":
        if "offset" not in d:
            return True
        offset, whence = d["offset"], d.get("whence", 0)
        if not isinstance(offset, (int, Index) + (num if text else ())):
            return True
        if isinstance(whence, Index):
            return False
        return not isinstance(whence, num) or whence not in (0, 1, 2, 3, 4) or whence == 0 and isinstance(offset, num) and offset < 0
    if name == "write":
        return not args or isinstance(d["data"], str) != text or d["data"] is None
    return False


def bounded_lock(args, kw):
    """A NaN or endless timeout is only used when it's not meaningful: everything here is uncontended or refused."""
    names = ["timeout", "length", "offset", "whence", "shared"]
    d = dict(zip(names, args))
    d.update(kw)
    t = d.get("timeout", ("obj", "none"))
    return not (t[0] == "float" and not val(t) <= 1) and not (t[0] == "int" and t[1] > 0) and t not in (("obj", "none"), ("obj", "true"), ("obj", "intsub"))


def finish(env, a, b, refused, compare, label):
    if compare:
        say = lambda t: "%s: %s (calls %r)" % (label, t, compare)
        # the stream is still usable
        for name, args in (("tell", []), ("read", [("int", 5)]), ("tell", []), ("seek", [("int", 0)]), ("read", []), ("seek", [("int", 0), ("int", 2)]), ("write", [("obj", "str" if label == "text" else "bytes")]), ("tell", []), ("flush", [])):
            x, y = a.do(name, args, []), b.do(name, args, [])
            if not same_outcome(x, y):
                raise Violation("usable", say("at the end, %s%r gave %s instead of %s" % (name, args, short(x), short(y))))
        ca, cb = content_of(a.probe), content_of(b.probe)
        if ca != cb:
            raise Violation("content", say("content %s instead of %s" % (short(ca), short(cb))))
    x, y = call(a.f.close), call(b.f.close)
    if compare and not same_outcome(x, y):
        raise Violation("close", say("close() gave %r instead of %r" % (x, y)))
    if not a.f.closed:
        raise Violation("close", "%s: still open after close(), which gave %r" % (label, x))
    if compare and lockmap_ofd(a.probe):
        raise Violation("locks", say("locks %r after close()" % lockmap_ofd(a.probe)))
    env.nontrivial = refused > 0


# ------------------------------------------------------------------------------------------------ closed streams

@st.composite
def closed_strategy(draw):
    mode = draw(st.sampled_from(MODES))
    binary = "B" in mode
    buffering = draw(st.sampled_from([-1, 5] + ([0] if binary else [])))
    how = draw(st.sampled_from(["close", "close", "exit", "close-raw", "twice", "wrapped-close"]))
    warm = draw(st.lists(a_call(False), 0, 3))
    n = draw(st.integers(3, 20))
    return (mode, buffering, draw(st.booleans()), draw(st.sampled_from(["fileno", "path", "path"])), how, warm, draw(st.lists(st.weighted((2, a_call(False)), (1, a_call())), n, n)))


def closed_run(case, env):
    mode, buffering, ts, origin, how, warm, calls = case
    rs = rsfile()
    path = env.path()
    with io.open(path, "wb") as f:
        f.write(b"line 1\nline 2\n")
    fd = os.open(path, os.O_RDWR)
    env.defer(os.close, fd)
    if origin == "path":
        f = rs.rsopen(path, mode, buffering, thread_safe=ts, locking=False)
    else:
        f = rs.rsopen(None, mode, buffering, fileno=fd, closefd=False, thread_safe=ts, locking=False)
    env.defer(f.close)
    for name, args, kw in warm:
        if not (name == "lock_file" and not bounded_lock(args, kw)):
            call(lambda: getattr(f, name)(*[val(x) for x in args]))  # so that thread-safe accessors get cached
    content = None
    if how in ("close", "twice"):
        f.close()
    if how == "twice":
        f.close()
    elif how == "exit":
        f.__exit__(None, None, None)
    elif how == "close-raw":
        call(f.flush)
        raw = f
        while True:
            nxt = raw.__dict__.get("wrapped_stream") or raw.__dict__.get("_buffer") or raw.__dict__.get("_raw")
            if nxt is None:
                break
            raw = nxt
        raw.close()
    elif how == "wrapped-close":
        (f.wrapped_stream if ts else f).close()
    content = read_file(path)
    n = 0
    for name, args, kw in calls:
        attr = call(getattr, f, name)
        what = "%s(%s%s) after %s" % (name, ", ".join(map(repr, args)), "".join(", %s=%r" % tuple(x) for x in kw), how)
        if isinstance(attr, Raised):
            if "AttributeError" not in attr.families and "ValueError" not in attr.families:
                raise Violation("closed-attr", "%s on %r/%d: %r" % (what, mode, buffering, attr))
            continue
        proper = args in [list(x) for x in METHODS[name]] and not kw
        r = call(attr, *[val(x) for x in args], **{k: val(v) for k, v in kw})
        n += 1
        if not isinstance(r, Raised):
            if name == "readline" and r in (b"", "") and args:
                continue  # a request for nothing doesn't reach the stream
            if name in ("readable", "writable") and r is False:
                continue  # these answers of the stdlib are constants, in streams with a single direction
            if how == "close-raw" and name in ("__iter__", "__enter__"):
                continue
            raise Violation("closed", "%s on %r/%d (thread_safe=%r) gave %r" % (what, mode, buffering, ts, r))
        if proper and "ValueError" not in r.families and not (name in ("readinto", "write", "writelines") and "TypeError" in r.families):
            raise Violation("closed-error", "%s on %r/%d (thread_safe=%r) gave %r" % (what, mode, buffering, ts, r))
        if not proper and not clean(r, name, args, kw):
            raise Violation("closed-error", "%s on %r/%d (thread_safe=%r) gave %r" % (what, mode, buffering, ts, r))
    if read_file(path) != content:
        raise Violation("closed-content", "content changed through a closed stream")
    for _ in range(2):
        r = call(f.close)
        if r is not None:
            raise Violation("closed-close", "close() of a closed stream gave %r" % (r,))
    if f.closed is not True:
        raise Violation("closed-flag", "closed is %r" % (f.closed,))
    r = call(repr, f)
    if isinstance(r, Raised):
        raise Violation("closed-repr", "repr() gave %r" % r)
    os.fstat(fd)
    env.nontrivial = n >= 3
    env.label("how:" + how)
    env.steps += n


# ------------------------------------------------------------------------------------------------ open

OPEN_PROPER = dict(
    mode=["r", "RB", "RWB", "wb", "a+", "WE", "RWEB", "x", "RC", "RWN", "RAB", "r+b", "WB"],
    buffering=[-1, 0, 1, 16], encoding=[None, "utf-8", "latin-1"], errors=[None, "strict", "ignore"], newline=[None, "", "\n", "\r\n"], closefd=[True], opener=[None], locking=[True, False], timeout=[None, 0, 0.5], thread_safe=[True, False],
    mutex=[None], permissions=[0o644, 0o777], fileno=[None], handle=[None])
ORDER = ["mode", "buffering", "encoding", "errors", "newline", "fileno", "handle", "closefd", "opener", "locking", "timeout", "thread_safe", "mutex", "permissions"]
RAW_PROPER = dict(read=[True, False], write=[True, False], append=[True, False], must_create=[False], must_not_create=[True, False], synchronized=[False, True], inheritable=[False, True], permissions=[0o644], closefd=[True], fileno=[None], handle=[None])
FLAGCHARS = "rwaxbt+URWACNSIEBT-z \0é"


@st.composite
def open_strategy(draw):
    raw = draw(st.integers(0, 4)) == 0
    table = RAW_PROPER if raw else OPEN_PROPER
    kw = {}
    for k in sorted(table):
        if draw(st.integers(0, 2)) == 0 or k == "mode":
            kw[k] = ("val", draw(st.sampled_from(table[k])))
    bad = draw(st.lists(st.sampled_from(sorted(table) + ["mode"] * (0 if raw else 3)), 0 if draw(st.integers(0, 3)) == 0 else 1, 3))
    for k in bad:
        if k == "mode" and draw(st.integers(0, 3)):
            kw[k] = ("val", draw(st.text(FLAGCHARS, max_size=5)))
        elif k in ("fileno", "handle"):
            kw[k] = draw(st.one_of(st.sampled_from([("fd", "rw"), ("fd", "r"), ("fd", "w"), ("fd", "dir"), ("fd", "closed"), ("fd", "pipe")]), WEIRD))
        else:
            kw[k] = draw(WEIRD)
    name = draw(st.one_of(st.just(("path", "str")), st.just(("path", "str")), st.sampled_from([("path", "bytes"), ("path", "pathlike"), ("path", "missing"), ("path", "dir"), ("path", "pathnul"), ("path", "long"), ("path", "slash"), ("path", "absent"), ("path", "fspath-int")]), WEIRD))
    return (raw, name, sorted(kw.items()), draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 30)))


def open_run(case, env):
    raw, name, kw, positional, contended, size = case
    rs = rsfile()
    d = env.dir
    path = os.path.join(d, "f")
    init = (b"0123456789" * 4)[:size]
    with io.open(path, "wb") as f:
        f.write(init)
    os.mkdir(os.path.join(d, "dir"))
    os.chdir(d)  # relative names stay in the scratch directory
    env.defer(os.chdir, "/")
    # another stream, which mustn't be disturbed
    other = rs.rsopen(path, "RWB", 0, locking=False, thread_safe=False)
    env.defer(other.close)
    other.seek(3)
    locked = False
    if contended:
        other.lock_file(timeout=0, length=3, offset=100, shared=False)
        locked = True
    probe = os.open(path, os.O_RDONLY)
    env.defer(os.close, probe)
    mine = []

    def fd_value(token):
        k, v = token
        if k == "fd":
            if v == "closed":
                return 951
            if v == "pipe":
                r, w = os.pipe()
                mine.extend([r, w])
                return r
            fd = os.open(os.path.join(d, "dir") if v == "dir" else path, {"rw": os.O_RDWR, "r": os.O_RDONLY, "w": os.O_WRONLY, "dir": os.O_RDONLY}[v])
            mine.append(fd)
            return fd
        x = val(token)
        if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 900 or isinstance(x, bool) or isinstance(x, float) and 0 <= x < 900 or isinstance(x, Index) and x.n >= 0:
            return 952  # never a descriptor of the harness
        return x

    target = {"str": path, "bytes": os.fsencode(path), "pathlike": pathlib.Path(path), "missing": os.path.join(d, "nodir", "f"), "dir": os.path.join(d, "dir"), "pathnul": path + "\0", "long": "x" * 5000, "slash": path + "/", "absent": None,
              "fspath-int": PathLike(5)}
    first = target[name[1]] if name[0] == "path" else fd_value(name)
    args = {}
    for k, v in kw:
        args[k] = v[1] if v[0] == "val" else fd_value(v) if k in ("fileno", "handle") else val(v)
    if True:
        t = args.get("timeout")
        if t is None or isinstance(t, (int, float)) and (t != t or t > 1) and not isinstance(t, bool):
            args["timeout"] = 0  # no endless waiting here
    if raw:
        args.pop("timeout", None)
    pos = []
    if positional and not raw:
        for k in ORDER:
            if k not in args:
                break
            pos.append(args.pop(k))
    before = procs.fds()
    locks = lockmap_ofd(probe)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if raw:
            f = call(rs.RSFileIO, first, **args)
        else:
            f = call(rs.rsopen, first, *pos, **args)
    say = lambda t: "%s(%r, %s) %s: %s" % ("RSFileIO" if raw else "rsopen", name, kw, "positional" if positional else "", t)
    mode = dict(kw).get("mode", ("val", "r"))
    late = any(k in ("encoding", "errors", "newline", "buffering", "timeout", "mutex", "thread_safe", "locking") for k, _ in kw)
    after = procs.fds()
    content = content_of(probe)
    truncating = not raw and mode[0] == "val" and isinstance(mode[1], str) and ("w" in mode[1] or "E" in mode[1])
    if content != init and not (content == b"" and truncating):
        raise Violation("content", say("the file now contains %s" % short(content)))
    if isinstance(f, Raised):
        env.nontrivial = True
        env.label("refused")
        allowed = ALLOWED | {"OverflowError"} | ({"LookupError"} if any(k in ("encoding", "errors") for k, _ in kw) else set())
        if not f.families & allowed:
            raise Violation("exception", say("raised %r" % f))
        if content != init and not late and not contended:
            raise Violation("late", say("failed with %r after having truncated the file" % f))
        new = set(after) - set(before)
        if new and not locked:
            raise Violation("leak", say("failed with %r but left descriptors %r" % (f, new)))
        gone = set(before) - set(after) - set(mine)
        if gone:
            raise Violation("stolen", say("failed with %r and closed descriptors %r" % (f, gone)))
        if lockmap_ofd(probe) != locks:
            raise Violation("locks", say("failed with %r and changed locks from %r to %r" % (f, locks, lockmap_ofd(probe))))
    else:
        env.label("accepted")
        full = dict(args)
        full.update(zip(ORDER, pos))
        m = full.get("mode", "r")
        why = None
        if not raw:
            if not isinstance(m, str):
                why = "mode"
            else:
                low = m == m.lower()
                if not low and m != m.upper():
                    why = "mixed case"
                elif set(m) - set("rwaxbt+" if low else "RWACNSIEBT+-") or len(set(m)) != len(m):
                    why = "flags"
                elif low and sum(c in m for c in "rwax") != 1 or not low and not set(m) & set("RWA"):
                    why = "access flags"
                elif {"b", "t"} <= set(m.lower()):
                    why = "binary and text"
                elif "C" in m and "N" in m or "E" in m and not set(m) & set("WA"):
                    why = "inconsistent flags"
                binary = "b" in m.lower()
                if binary and any(full.get(k) is not None for k in ("encoding", "errors", "newline")):
                    why = "text options in binary mode"
                if not binary and full.get("buffering") == 0:
                    why = "unbuffered text"
            for k, types_ in (("buffering", int), ("encoding", str), ("errors", str), ("newline", str)):
                if full.get(k) is not None and not isinstance(full[k], types_):
                    why = k
            if full.get("newline") not in (None, "", "\n", "\r", "\r\n"):
                why = "newline"
            if sum(x is not None for x in (first, full.get("fileno"), full.get("handle"))) != 1:
                why = "number of targets"
        elif all(call(bool, full.get(k, False)) is False for k in ("read", "write", "append")):
            why = "no access"
        elif sum(x is not None for x in (first, full.get("fileno"), full.get("handle"))) != 1:
            why = "number of targets"
        if why:
            raise Violation("accepted", say("accepted despite wrong %s" % why))
        if args.get("mutex") is not None and hasattr(f, "wrapped_stream"):
            f = f.wrapped_stream  # arbitrary mutexes are only refused when they get used
        fd = call(f.fileno)
        if isinstance(fd, Raised) or not isinstance(fd, int):
            raise Violation("fileno", say("fileno() gave %r" % fd))
        for m in ("readable", "writable", "seekable"):
            r = call(getattr(f, m))
            if not isinstance(r, bool) and not raw:
                raise Violation("attribute", say("%s() gave %r" % (m, r)))
        r = call(f.close)
        if isinstance(r, Raised):
            raise Violation("close", say("close() gave %r" % r))
        new = set(procs.fds()) - set(before)
        if new and not locked and dict(kw).get("closefd", ("val", True)) == ("val", True):
            raise Violation("leak", say("descriptors %r left after close()" % new))
    x = call(other.tell), call(other.read, 4)
    if x[0] != 3 or x[1] != content[3:7]:
        raise Violation("disturbed", say("another stream at position 3 now gives %r" % (x,)))
    if locked:  # descriptors had to be left open, until the release of the other stream's locks
        ofd = other.fileno()
        other.close()
        new = set(procs.fds()) - set(before)
        if new and dict(kw).get("closefd", ("val", True)) == ("val", True):
            raise Violation("leak", say("descriptors %r left after all streams got closed" % new))
        if ofd in procs.fds():
            raise Violation("leak", say("other stream not closed"))
    for fd in mine:
        call(os.close, fd)


def setup():
    rsfile()


PARTS = [Part("methods", methods_strategy, methods_run, quick=24000, thorough=500000, setup=setup), Part("closed", closed_strategy, closed_run, quick=6000, thorough=100000, setup=setup), Part("open", open_strategy, open_run, quick=16000, thorough=300000, setup=setup)]
