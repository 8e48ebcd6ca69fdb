"""Operation interpreter shared by the differential checks: same op sequence on an rsfile stream and a stdlib stream."""
import array
import ctypes
import errno
import io
import os
import _pyio

from core import Violation, import_repo

_rs = None


def rsfile():
    global _rs
    if _rs is None:
        import_repo()
        import rsfile as m

        assert os.path.realpath(m.__file__).startswith(os.path.realpath(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))), m.__file__
        _rs = m
    return _rs


# ------------------------------------------------------------------------------------ data

_BASE = bytes((i * 37 + (i >> 8) * 11 + (i >> 16) * 5) & 0xFF for i in range(1 << 17))
_LINES = b"".join(b"line %d %s\n" % (i, b"x" * (i * i % 53)) for i in range(4000))


def mk(spec):
    """Data spec -> bytes.  A bytes literal, or ("P", kind, start, length)."""
    if isinstance(spec, (bytes, bytearray)):
        return bytes(spec)
    _, kind, start, length = spec
    src = _LINES if kind == "l" else _BASE
    start %= 50000
    while len(src) < start + length:
        src = src + src
    return src[start:start + length]


class _Exporter(object):
    pass


def bytes_like(data, kind):
    if kind == "bytes":
        return data
    if kind == "bytearray":
        return bytearray(data)
    if kind == "memoryview":
        return memoryview(b"##" + data + b"#")[2:2 + len(data)]
    if kind == "memoryview_strided":
        inter = bytearray(2 * len(data))
        inter[::2] = data
        return memoryview(inter)[::2]
    if kind == "array":
        return array.array("B", data)
    if kind == "array_H":
        return array.array("H", data[: len(data) // 2 * 2])
    if kind == "view_I":
        return memoryview(array.array("I", data[: len(data) // 4 * 4]))
    if kind == "ctypes":
        return (ctypes.c_char * len(data))(*[data[i:i + 1] for i in range(len(data))])
    if kind == "ctypes_int":
        return (ctypes.c_int * (len(data) // 4)).from_buffer_copy(data[: len(data) // 4 * 4]) if len(data) >= 4 else b""
    raise AssertionError(kind)


BYTES_KINDS = ("bytes", "bytes", "bytes", "bytearray", "memoryview", "array", "ctypes")


def buffer_for(kind, n):
    if kind == "bytearray":
        return bytearray(b"\xee" * n)
    if kind == "memoryview":
        return memoryview(bytearray(b"\xee" * n))
    if kind == "array":
        return array.array("B", b"\xee" * n)
    if kind == "array_H":
        return array.array("H", b"\xee" * (n // 2 * 2))
    if kind == "ctypes":
        return (ctypes.c_char * n)(*([b"\xee"] * n))
    if kind == "readonly":
        return b"\xee" * n
    raise AssertionError(kind)


# ------------------------------------------------------------------------------------ outcomes

FAMILIES = (("ValueError", ValueError), ("TypeError", TypeError), ("OSError", OSError), ("OverflowError", OverflowError),
            ("StopIteration", StopIteration), ("AttributeError", AttributeError), ("LookupError", LookupError),
            ("RuntimeError", RuntimeError), ("MemoryError", MemoryError), ("AssertionError", AssertionError),
            ("EOFError", EOFError), ("NotImplementedError", NotImplementedError), ("BufferError", BufferError))


class Raised(object):
    def __init__(self, exc):
        self.families = frozenset(n for n, c in FAMILIES if isinstance(exc, c)) or frozenset([type(exc).__name__])
        self.errno = exc.errno if isinstance(exc, OSError) else None
        self.text = "%s(%s)" % (type(exc).__name__, str(exc)[:200])
        self.blocking = getattr(exc, "characters_written", None) if isinstance(exc, BlockingIOError) else None

    def __repr__(self):
        return "<raised %s>" % self.text


def call(func, *args, **kwargs):
    try:
        return func(*args, **kwargs)
    except Exception as e:
        return Raised(e)


def same_outcome(actual, expected):
    if isinstance(expected, Raised) or isinstance(actual, Raised):
        if not (isinstance(expected, Raised) and isinstance(actual, Raised)):
            return False
        if not (actual.families & expected.families):
            return False
        if actual.errno is not None and expected.errno is not None and actual.errno != expected.errno:
            return False
        return True
    if type(actual) is not type(expected):
        # numbers may be bool/int subclasses; sequences must match exactly
        if not (isinstance(actual, int) and isinstance(expected, int)):
            return False
    return actual == expected


def short(x, n=160):
    r = repr(x)
    return r if len(r) <= n else "%s...(%d chars)" % (r[:n], len(r))


BIG = 1 << 20  # above this size, unbounded reads are bounded by the interpreter


def read_file(path, limit=BIG):
    """Content fingerprint through an independent descriptor (sparse-friendly)."""
    fd = os.open(path, os.O_RDONLY)
    try:
        size = os.fstat(fd).st_size
        if size <= limit:
            out = []
            while True:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    break
                out.append(chunk)
            return b"".join(out)
        windows = []
        pos = 0
        while pos < size and len(windows) < 64:  # only data extents
            try:
                start = os.lseek(fd, pos, os.SEEK_DATA)
            except OSError as e:
                if e.errno == errno.ENXIO:
                    break
                raise
            end = os.lseek(fd, start, os.SEEK_HOLE)
            end = min(end, start + (1 << 18))
            data = os.pread(fd, end - start, start)
            if data.strip(b"\0"):
                lead = len(data) - len(data.lstrip(b"\0"))
                data2 = data.strip(b"\0")
                windows.append((start + lead, data2))
            pos = end
        return ("sparse", size, windows)
    finally:
        os.close(fd)


# ------------------------------------------------------------------------------------ interpreter


class Driver(object):
    """Runs ops on one stream. `bounded` must be decided identically for both streams (by the caller)."""

    def __init__(self, stream, path):
        self.f = stream
        self.path = path
        self.cookies = []

    def size_hint(self):
        try:
            return os.stat(self.path).st_size
        except OSError:
            return 0

    def do(self, op, big=False):
        return call(getattr(self, "op_" + op[0]), big, *op[1:])

    # --- reads
    def op_read(self, big, n=None):
        if big and (n is None or n < 0):
            n = 3000
        return self.f.read() if n is None else self.f.read(n)

    def op_read_none(self, big):
        return self.f.read(3000 if big else None)

    def op_readall(self, big):
        if big:
            return self.f.read(3000)
        return self.f.readall()

    def op_read1(self, big, n):
        return self.f.read1(3000 if big and n < 0 else n)

    def op_peek(self, big, n):
        return bytes(self.f.peek(n))

    def op_readinto(self, big, n, kind):
        buf = buffer_for(kind, n)
        r = call(self.f.readinto, buf)
        return r if isinstance(r, Raised) else (r, bytes(memoryview(buf)))

    def op_readinto1(self, big, n, kind):
        buf = buffer_for(kind, n)
        r = call(self.f.readinto1, buf)
        return r if isinstance(r, Raised) else (r, bytes(memoryview(buf)))

    def op_readline(self, big, n=None):
        if big and (n is None or n < 0):
            n = 500
        return self.f.readline() if n is None else self.f.readline(n)

    def op_readlines(self, big, n=None):
        if big:
            return self.f.readline(500)
        return self.f.readlines() if n is None else self.f.readlines(n)

    def op_next(self, big):
        if big:
            return self.f.readline(500)
        try:
            return next(self.f)
        except StopIteration:
            return "STOP"

    def op_iter(self, big, k):
        if big:
            return self.f.readline(500)
        out = []
        for line in self.f:
            out.append(line)
            if len(out) >= k:
                break
        return out

    # --- writes
    def op_write(self, big, spec, kind="bytes"):
        return self.f.write(bytes_like(mk(spec), kind))

    def op_writelines(self, big, specs, kind="bytes"):
        return self.f.writelines([bytes_like(mk(s), kind) for s in specs])

    def op_writegen(self, big, specs):
        return self.f.writelines(mk(s) for s in specs)

    def op_tell(self, big):
        return self.f.tell()

    def op_seek(self, big, off, whence=0):
        return self.f.seek(off, whence)

    def op_truncate(self, big, n=None):
        return self.f.truncate() if n is None else self.f.truncate(n)

    def op_truncate_none(self, big):
        return self.f.truncate(None)

    def op_flush(self, big):
        return self.f.flush()

    def op_close(self, big):
        return self.f.close()

    def op_with(self, big):
        """Enter the context manager and leave it with an exception."""
        try:
            with self.f as g:
                ok = g is self.f
                raise KeyError("inside")
        except KeyError:
            return (ok, self.f.closed)

    def op_enter(self, big):
        return self.f.__enter__() is self.f

    def op_attr(self, big, name):
        v = getattr(self.f, name)
        return v() if callable(v) else v

    def op_fileno(self, big):
        fd = self.f.fileno()
        return os.fstat(fd).st_ino != 0 and os.path.samestat(os.fstat(fd), os.stat(self.path))

    def op_raw_tell(self, big):
        return self.f.raw.tell()

    def op_disk(self, big):
        return read_file(self.path)

    # --- text
    def op_twrite(self, big, text):
        return self.f.write(mktext(text))

    def op_twritelines(self, big, texts):
        return self.f.writelines([mktext(t) for t in texts])

    def op_ttell(self, big):
        c = self.f.tell()
        self.cookies.append(c)
        return c

    def op_tseek(self, big, i):
        if not self.cookies:
            return self.f.seek(0)
        return self.f.seek(self.cookies[i % len(self.cookies)])

    def op_reconfigure(self, big, kw):
        return self.f.reconfigure(**dict(kw))

    def op_bufattr(self, big, name):
        v = getattr(self.f.buffer, name)
        return v() if callable(v) else v


_TEXT = "Abc déf ∀x∈ℝ 日本語 \U0001F600 ñandú\nline two\r\nthird\rmore\n\n€uro ß ü—end\n"


def mktext(spec):
    if isinstance(spec, str):
        return spec
    _, kind, start, length = spec
    base = {"a": "plain ascii text line\nsecond line here\r\nthird\r", "u": _TEXT, "l": "short\n" * 7 + "y" * 90 + "\n",
            "w": "éàü¿ñ latin one\nçedille\n", "n": "no newline at all "}[kind]
    n = start + length
    return (base * (n // len(base) + 1))[start:start + length]
