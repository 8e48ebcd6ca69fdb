"""C24: the Windows backend maps stream operations to the right Win32 calls (on a simulated Win32 API)."""
import errno
import gc
import os
import warnings

import gen as st
import winsim
from core import Part, Violation
from streams import Raised, call, mk, short

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: stateful histories on a simulated Win32 API (in-memory files with undefined gaps, handles, mandatory range locks, injected errors) against a reference model, for the pywin32 and ctypes backends"
RULE = ("The package is loaded as on Windows on top of a simulated kernel32/msvcrt (through real ctypes prototypes) or pywin32. Part 'history': operations on one or two streams (paths, handles, descriptors), offsets around 2^31, "
        "2^32, 2^40, injected Win32 errors and short transfers, against a byte model where the bytes that the API leaves undefined are unknown; part 'open': modes and options against CreateFile arguments and results; part "
        "'locks': lock histories on several handles against a range-lock model and the lock table of the simulated kernel. Every case ends by checking that each handle was closed exactly once. Non-trivial: a history "
        "with a write, a truncation or a lock, an open that creates/erases/fails.")
ASSUMPTIONS = ["No Windows host is available: the simulation (harness/winsim.py) stands for the Win32 API as documented by Microsoft; LockFileEx ranges ending beyond 2^64 are accepted by it.",
               "The slots of the C runtime's descriptor table aren't counted as resources (a descriptor opened on a handle can't be freed without closing the handle)."]

BACKENDS = ("pywin32", "ctypes")
ERRORS = [2, 3, 4, 5, 6, 8, 17, 19, 32, 33, 87, 109, 112, 145, 183, 206, 1450, 1816]
BIG = [2 ** 31 - 3, 2 ** 31, 2 ** 32 - 5, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 7, 2 ** 33 + 1, 2 ** 40 + 12345]


class Model(object):
    """Content of a file: the bytes that nobody defined are unknown (None)."""

    def __init__(self, data=b""):
        self.size = 0
        self.segs = []
        self.write(0, data)

    def write(self, pos, data):
        if not data:
            return
        if pos > self.size:
            self.segs.append((self.size, pos - self.size, "zero"))
        self.segs.append((pos, len(data), data))
        self.size = max(self.size, pos + len(data))

    def truncate(self, size, zero):
        if size > self.size:
            self.segs.append((self.size, size - self.size, "zero" if zero else "undef"))
        self.size = size

    def read(self, pos, n):
        n = max(0, min(n, self.size - pos))
        out = [None] * n
        for s, length, data in self.segs:
            a, b = max(s, pos), min(s + length, pos + n)
            for i in range(a, b):
                out[i - pos] = 0 if data == "zero" else None if data == "undef" else data[i - s]
        return out

    def matches(self, data, pos):
        return all(m is None or m == d for m, d in zip(self.read(pos, len(data)), data))


def near(draw, model_size):
    kind = draw(st.integers(0, 9))
    if kind < 6:
        return draw(st.integers(0, 120))
    if kind < 8:
        return ("end", draw(st.integers(-30, 60)))
    return draw(st.sampled_from(BIG)) + draw(st.integers(-3, 3))


@st.composite
def history_strategy(draw):
    layer = draw(st.sampled_from(["raw", "raw", "raw", "buffered", "buffered1", "thread"]))
    nstreams = draw(st.integers(1, 2)) if layer == "raw" else 1
    content = draw(st.one_of(st.binary(0, 60), st.tuples(st.just("P"), st.just("b"), st.integers(0, 99), st.integers(0, 20000))))
    big = draw(st.one_of(st.just(None), st.just(None), st.sampled_from(BIG)))
    opens = [(draw(st.sampled_from(["path", "path", "path", "handle", "fileno", "fd0"])), draw(st.sampled_from(["R", "RW", "RW", "W", "A", "RA", "RWE", "WE", "RAE", "RWN", "RWS", "RWI"])),
              draw(st.booleans()), draw(st.integers(0, 40)), draw(st.booleans())) for _ in range(nstreams)]
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        i = draw(st.integers(0, nstreams - 1))
        k = draw(st.sampled_from(["read", "read", "readinto", "readall", "write", "write", "write", "seek", "seek", "seek", "truncate", "truncate", "truncate", "tell", "size", "times", "uid", "fileno", "handle", "sync",
                                  "flush", "lock", "close", "settimes"]))
        if k in ("read", "readinto"):
            arg = draw(st.integers(0, 70))
        elif k == "write":
            arg = draw(st.one_of(st.binary(0, 40), st.tuples(st.just("P"), st.just("b"), st.integers(0, 99), st.integers(0, 20000))))
        elif k == "seek":
            whence = draw(st.integers(0, 2))
            arg = (near(draw, 0) if whence == 0 else draw(st.one_of(st.integers(-50, 50), st.sampled_from(BIG))), whence)
        elif k == "truncate":
            arg = (draw(st.one_of(st.just(None), st.just("near"))), draw(st.sampled_from([None, True, True, False])))
            if arg[0] is not None:
                arg = (near(draw, 0), arg[1])
        elif k == "settimes":
            arg = (draw(st.integers(0, 4 * 10 ** 9 * 4)) / 4.0, draw(st.integers(0, 4 * 10 ** 9 * 8)) / 8.0)
        else:
            arg = None
        fault = None
        if draw(st.integers(0, 5)) == 0:
            api = {"read": ["ReadFile"], "readinto": ["ReadFile"], "readall": ["ReadFile"], "write": ["WriteFile", "WriteFile", "SetFilePointer", "GetFileSize"], "seek": ["SetFilePointer"], "tell": ["SetFilePointer"],
                   "truncate": ["SetEndOfFile", "SetFilePointer", "GetFileSize", "WriteFile"], "size": ["GetFileSize"], "uid": ["GetFileInformationByHandle"], "times": ["GetFileInformationByHandle"], "sync": ["FlushFileBuffers"],
                   "lock": ["LockFileEx"], "close": ["CloseHandle"]}.get(k)
            if api:
                api = draw(st.sampled_from(api))
                code = draw(st.sampled_from(ERRORS))
                if api in ("WriteFile", "ReadFile") and draw(st.booleans()):
                    code = ("short", draw(st.integers(0, 7)))
                fault = (api, draw(st.integers(0, 1)), code)
        ops.append((i, k, arg, fault))
    return (draw(st.sampled_from(BACKENDS)), layer, content, big, opens, ops, draw(st.integers(0, 99)))


class S(object):
    pass


def where(text, ops):
    return "%s (after %s)" % (text, short(ops, 900))


def check_handles(sim, expected, label, done):
    if sim.anomalies:
        raise Violation("handle-misuse", where(sim.anomalies[0], done))
    if set(sim.handles) != set(expected):
        raise Violation("handle-leak", where("%s: the live handles are %r instead of %r" % (label, sorted(sim.handles), sorted(expected)), done))


def history_run(case, env):
    backend, layer, content, big, opens, ops, salt = case
    rs = winsim.load(backend)
    winsim.W.sim = sim = winsim.Sim(salt)
    content = mk(content)
    node = sim.add_file("C:\\dir\\file", content, index=(salt << 33) + 5, serial=0xF0000000 + salt)
    m = Model(content)
    if big is not None:
        node.resize(big)
        m.truncate(big, False)
    streams, keep, done = [], [], []
    for n, (kind, mode, closefd, pos, default_buf) in enumerate(opens):
        x = S()
        x.raw = layer == "raw"
        kw = dict(buffering=0 if x.raw else 16 if layer == "buffered1" else -1, locking=False, thread_safe=layer == "thread")
        x.kind, x.read, x.write, x.append = kind, "R" in mode, "W" in mode or "A" in mode, "A" in mode
        if kind == "path":
            f = rs.rsopen("C:\\dir\\file", mode + "B", **kw)
            x.handle, x.fd, closefd = None, None, True
            x.pos = 0
            if "E" in mode:
                m.truncate(0, True)
        else:
            access = (winsim.GENERIC_READ if x.read else 0) | (winsim.GENERIC_WRITE if x.write else 0)
            x.handle = sim.new_handle(node, access)
            sim.handles[x.handle].pos = x.pos = pos
            x.fd = None
            if kind == "handle":
                if not closefd:
                    keep.append(x.handle)
                f = rs.rsopen(None, mode + "B", handle=x.handle, closefd=closefd, **kw)
            else:
                if kind == "fd0" and 0 not in sim.fds:
                    sim.fds[0] = x.handle
                    x.fd = 0
                else:
                    x.fd = sim.open_osfhandle(x.handle, 0)
                if not closefd:
                    keep.append(x.handle)
                f = rs.rsopen(None, mode + "B", fileno=x.fd, closefd=closefd, **kw)
            if f.closefd is not closefd:
                raise Violation("closefd", where("closefd is %r" % f.closefd, opens))
        if x.append:
            x.pos = m.size
        x.f = f
        x.fds = set() if x.fd is None else {x.fd}
        x.closefd = closefd
        x.origin = kind if kind in ("path", "handle") else "fileno"
        if f.origin != x.origin or f.name != ("C:\\dir\\file" if kind == "path" else x.handle if kind == "handle" else x.fd):
            raise Violation("origin", where("name %r, origin %r" % (f.name, f.origin), opens))
        if (f.readable(), f.writable(), f.seekable()) != (x.read, x.write, True):
            raise Violation("abilities", where("readable/writable/seekable %r" % ((f.readable(), f.writable(), f.seekable()),), opens))
        streams.append(x)
    uid = None
    for step, (i, k, arg, fault) in enumerate(ops):
        x = streams[i]
        f = x.f
        if f.closed:
            continue
        env.steps += 1
        raw = x.raw
        # preparation of arguments, skipping what would be too big to run
        if k == "seek":
            off, whence = arg
            if isinstance(off, tuple):
                off = max(0, m.size + off[1])
            if whence == 0 and off < 0:
                continue
            if not raw and whence and off + (x.pos if whence == 1 else m.size) < 0:
                continue  # the position of the standard library's buffered streams is unspecified after that
            arg = (off, whence)
        if k == "truncate":
            size, zero = arg
            if isinstance(size, tuple):
                size = max(0, m.size + size[1])
            target = x.pos if size is None else size
            if zero is not False and target - m.size > 60000:
                zero = False
            arg = (size, zero)
        if k == "readall" and m.size - x.pos > 100000:
            continue
        if k == "write" and not x.append and x.pos - m.size > 60000:
            continue
        if k == "write" and x.append and not raw and m.size - 0 < 0:
            continue
        done.append((i, k, arg, fault))
        say = lambda text: where("%s, %s, %s: %s" % (backend, layer, opens[i], text), done)
        sim.faults = {}
        if fault:
            plan = [None] * fault[1] + [fault[2]]
            sim.faults = {fault[0]: plan}
        before_size, before_pos = node.size, x.pos
        closing_kept = False
        extra = ()
        if k == "read":
            r = call(f.read, arg)
        elif k == "readinto":
            buf = bytearray(b"\xee" * arg)
            r = call(f.readinto, buf)
        elif k == "readall":
            r = call(f.read)
        elif k == "write":
            data = mk(arg)
            r = call(f.write, data)
            if not raw and not isinstance(r, Raised):
                extra = (r,)
                r2 = call(f.flush)
                r = r2 if isinstance(r2, Raised) else r
        elif k == "seek":
            r = call(f.seek, *arg)
        elif k == "truncate":
            kw = {} if arg[1] is None else dict(zero_fill=arg[1])
            r = call(f.truncate, *([] if arg[0] is None else [arg[0]]), **kw)
        elif k == "settimes":
            node.atime, node.mtime = arg
            continue
        elif k == "lock":
            r = call(f.lock_file, timeout=0, length=10 + i, offset=2 ** 45 + 100 * i)
            if not isinstance(r, Raised):
                want = [(l[1] == f.handle(), l[2], l[3], l[4]) for l in sim.locks]
                if want != [(True, 2 ** 45 + 100 * i, 2 ** 45 + 100 * i + 10 + i, x.write)]:
                    raise Violation("lock", say("kernel locks %r" % want))
                call(f.unlock_file, length=10 + i, offset=2 ** 45 + 100 * i)
                if sim.locks:
                    raise Violation("unlock", say("kernel locks %r" % (sim.locks,)))
                r = None
        else:
            r = call({"tell": f.tell, "size": f.size, "times": f.times, "uid": f.unique_id, "fileno": f.fileno, "handle": f.handle, "sync": f.sync, "flush": f.flush, "close": f.close}[k])
        plan = sim.faults.get(fault[0]) if fault else None
        hit = fault is not None and not plan
        err = hit and isinstance(fault[2], int)
        sim.faults = {}
        if err:
            env.label("fault:" + fault[0])
            code = fault[2]
            if k in ("read", "readinto", "readall") and code == 109:
                pass  # a broken pipe reads like an end of file
            elif k == "close":
                if not isinstance(r, Raised) or "OSError" not in r.families or not f.closed:
                    raise Violation("fault-unreported", say("close() gave %r with error %d, closed=%r" % (r, code, f.closed)))
                # the simulated CloseHandle failed, so the handle is still alive
                value = [h for h in sim.handles if h not in [y.f.handle() for y in streams if not y.f.closed]]
                for h in value:
                    if h not in keep:
                        del sim.handles[h]
            else:
                if not isinstance(r, Raised) or "OSError" not in r.families:
                    raise Violation("fault-unreported", say("error %d of %s gave %r" % (code, fault[0], r)))
                if r.errno != winsim.winerrno(code):
                    raise Violation("fault-errno", say("error %d of %s gave errno %r instead of %r" % (code, fault[0], r.errno, winsim.winerrno(code))))
            keepn = min(before_size, node.size)
            if k not in ("write", "truncate") and (node.size != m.size) and raw:
                raise Violation("fault-size", say("failed call changed the size"))
            if k == "write":
                keepn = min(keepn, m.size if x.append else before_pos)
            if k == "truncate" and arg[0] is not None:
                keepn = min(keepn, arg[0])
            got = node.read(0, min(keepn, 30000))
            if not m.matches(got, 0):
                raise Violation("fault-content", say("failed call altered the content"))
            # whatever a failed call left is now the reference
            if f.closed:
                continue
            if not raw:
                call(f.close)
                if sim.anomalies:
                    raise Violation("handle-misuse", say(sim.anomalies[0]))
                m.segs = []  # (single stream) what it managed to write isn't known
                m.truncate(node.size, False)
                continue
            m.truncate(min(m.size, keepn), True) if k in ("write", "truncate") else None
            if m.size != node.size:
                m.truncate(node.size, False)
            r = call(f.seek, 0)
            if r != 0:
                raise Violation("seek", say("seek(0) gave %r after a fault" % (r,)))
            for y in streams:
                if y.handle == x.handle and y.handle is not None:
                    y.pos = 0
            x.pos = 0
            continue
        if hit:
            env.label("short")
        # ---- oracles
        if k in ("read", "readinto", "readall"):
            n = m.size if k == "readall" else arg
            if not x.read:
                if not isinstance(r, Raised) or not r.families & {"ValueError", "OSError"}:
                    raise Violation("read", say("non-readable stream gave %r" % (r,)))
                continue
            if isinstance(r, Raised):
                raise Violation("read", say("raised %r" % r))
            if k == "readinto":
                r = bytes(buf[:r])
            want = max(0, min(n, m.size - x.pos))
            if len(r) != want and not (hit and raw and 0 < len(r) < want):
                raise Violation("read", say("%d bytes read at %d instead of %d" % (len(r), x.pos, want)))
            if not m.matches(r, x.pos):
                raise Violation("read", say("wrong bytes read at %d: %s" % (x.pos, short(r))))
            x.pos += len(r)
        elif k == "write":
            if not x.write:
                if not isinstance(r, Raised) or not r.families & {"ValueError", "OSError"}:
                    raise Violation("write", say("non-writable stream gave %r" % (r,)))
                continue
            env.nontrivial = True
            if isinstance(r, Raised):
                raise Violation("write", say("raised %r" % r))
            if r != len(data) and not (hit and raw and isinstance(r, int) and 0 < r < len(data)):
                raise Violation("write", say("returned %r instead of %d" % (r, len(data))))
            if x.append:
                x.pos = m.size if data or raw else x.pos
            m.write(x.pos, data[:r])
            x.pos += r
        elif k == "seek":
            pos = arg[0] + (0, x.pos, m.size)[arg[1]]
            if pos < 0:
                if not isinstance(r, Raised) or not r.families & {"ValueError", "OSError"}:
                    raise Violation("seek", say("gave %r instead of an error" % (r,)))
                r = call(f.seek, x.pos)
                pos = x.pos
            if r != pos:
                raise Violation("seek", say("gave %r instead of %d" % (r, pos)))
            x.pos = pos
        elif k == "truncate":
            if not x.write:
                if not isinstance(r, Raised) or not r.families & {"ValueError", "OSError"}:
                    raise Violation("truncate", say("non-writable stream gave %r" % (r,)))
                continue
            env.nontrivial = True
            size = x.pos if arg[0] is None else arg[0]
            if r != size:
                raise Violation("truncate", say("gave %r instead of %d" % (r, size)))
            m.truncate(size, arg[1] is not False)
            if not raw:
                if call(f.tell) != x.pos:
                    raise Violation("position", say("position %r instead of %d" % (call(f.tell), x.pos)))
                f.seek(x.pos)  # drops what was read in advance, as with the standard library
        elif k == "tell":
            if r != x.pos:
                raise Violation("tell", say("gave %r instead of %d" % (r, x.pos)))
        elif k == "size":
            if r != m.size:
                raise Violation("size", say("gave %r instead of %d" % (r, m.size)))
        elif k == "times":
            if isinstance(r, Raised) or abs(r.access_time - node.atime) > 2e-6 or abs(r.modification_time - node.mtime) > 2e-6:
                raise Violation("times", say("gave %r instead of %r, %r" % (r, node.atime, node.mtime)))
        elif k == "uid":
            if isinstance(r, Raised) or (uid is not None and uid != r):
                raise Violation("unique_id", say("gave %r, %r before" % (r, uid)))
            uid = r
        elif k == "fileno":
            if isinstance(r, Raised) or sim.fds.get(r) != f.handle() or x.fd is not None and kind_fd(x) and sim.fds.get(r) != x.handle:
                raise Violation("fileno", say("gave %r" % (r,)))
            x.fds.add(r)
        elif k == "handle":
            if r not in sim.handles or sim.handles[r].node is not node or x.handle is not None and r != x.handle:
                raise Violation("handle", say("gave %r" % (r,)))
        elif k == "sync":
            if not x.write:
                if isinstance(r, Raised) and "OSError" not in r.families:
                    raise Violation("sync", say("gave %r" % (r,)))
            elif isinstance(r, Raised) or node.unsynced:
                raise Violation("sync", say("gave %r with %d unsynced changes" % (r, node.unsynced)))
        elif k == "lock":
            if isinstance(r, Raised):
                raise Violation("lock", say("gave %r" % (r,)))
        elif k in ("flush", "close"):
            if isinstance(r, Raised):
                raise Violation(k, say("raised %r" % (r,)))
        if raw and not f.closed:
            t = call(f.tell)
            if t != x.pos:
                raise Violation("position", say("position %r instead of %d" % (t, x.pos)))
        if raw and node.size != m.size:
            raise Violation("content", say("the file has %d bytes instead of %d" % (node.size, m.size)))
    for x in streams:
        call(x.f.close)
        if not x.f.closed:
            raise Violation("close", where("stream not closed", done))
    check_handles(sim, keep, "%s, %s, %r" % (backend, layer, opens), done)
    for x in streams:
        for fd in x.fds:
            if (fd in sim.fds) != (not x.closefd):
                raise Violation("descriptor", where("%s, %s, %r: descriptor %d open=%r at the end" % (backend, layer, opens, fd, fd in sim.fds), done))
    if node.size != m.size:
        raise Violation("content", where("%s, %s, %r: the file has %d bytes instead of %d" % (backend, layer, opens, node.size, m.size), done))
    for pos in sorted({0, max(0, m.size - 3000)} | {max(0, s - 5) for s, _, _ in m.segs}):
        got = node.read(pos, 3000 if m.size > 100000 else 100000)
        if not m.matches(got, pos):
            raise Violation("content", where("%s, %s, %r: wrong content around %d" % (backend, layer, opens, pos), done))
    env.label(backend, layer, *("origin:" + o[0] for o in opens))
    if m.size > 2 ** 31:
        env.label("big")


def kind_fd(x):
    return x.kind in ("fileno", "fd0")


# --------------------------------------------------------------------------------------- open

@st.composite
def open_strategy(draw):
    if draw(st.booleans()):
        flags = draw(st.sampled_from(["R", "W", "RW", "A", "RA", "RWA"]))
        flags += draw(st.sampled_from(["", "", "C", "N", "-", "+"])) + draw(st.sampled_from(["", "", "E"])) + draw(st.sampled_from(["", "S"])) + draw(st.sampled_from(["", "I"]))
        mode = flags + "B"
        if "E" in mode and flags.startswith("R") and "W" not in mode and "A" not in mode:
            mode = mode.replace("E", "")
    else:
        mode = draw(st.sampled_from(["r", "w", "a", "x", "r+", "w+", "a+", "x+"])) + "b"
    target = draw(st.sampled_from(["missing", "file", "file", "readonly", "directory", "locked", "badpath"]))
    return (draw(st.sampled_from(BACKENDS)), mode, target, draw(st.sampled_from([0o777, 0o777, 0o666, 0o444, 0o400, 0o555, 0o200, 0o000, 0o600, 0o466, 0o422, 0o055]) if draw(st.booleans()) else st.integers(0, 0o777)), draw(st.booleans()), draw(st.booleans()),
            draw(st.sampled_from([0, -1, 20])), draw(st.booleans()), draw(st.one_of(st.just(0), st.sampled_from(ERRORS))), draw(st.sampled_from(["CreateFile", "CreateFile", "SetFilePointer", "LockFileEx", "SetEndOfFile", "GetFileSize"])),
            draw(st.tuples(st.integers(1, 3), st.integers(0, 2), st.integers(1, 3), st.integers(1, 3), st.integers(0, 2), st.integers(1, 3))))


def open_run(case, env):
    backend, mode, target, permissions, thread_safe, locking, buffering, bytes_path, fault, fault_api, ids = case
    rs = winsim.load(backend)
    winsim.W.sim = sim = winsim.Sim(7)
    content = b"some content"
    path = "C:\\données\\f.txt"
    if mode.islower() or mode[0] in "rwax":
        read = "r" in mode or "+" in mode
        append = "a" in mode
        write = append or "w" in mode or "x" in mode or "+" in mode
        create = "C" if "x" in mode else "N" if "r" in mode else ""
        erase, sync, inherit = "w" in mode, False, False
    else:
        read, append, erase, sync, inherit = "R" in mode, "A" in mode, "E" in mode, "S" in mode, "I" in mode
        write = append or "W" in mode
        create = "C" if "C" in mode or "-" in mode else "N" if "N" in mode or "+" in mode else ""
    if erase and create == "C":
        erase = False
    node = other = None
    if target in ("file", "readonly", "locked"):
        node = sim.add_file(path, content, index=ids[0] + (ids[1] << 32), serial=ids[2], readonly=target == "readonly")
    elif target == "directory":
        sim.add_file(path, directory=True)
    other_handles = []
    if target == "locked":
        h = sim.new_handle(node, winsim.GENERIC_READ | winsim.GENERIC_WRITE)
        other_handles.append(h)
        sim.LockFileEx(h, 2 | 1, 1, 0, 5, 0)
    outcome = None
    if fault and fault_api == "CreateFile":
        outcome = winsim.winerrno(fault)
    elif target == "directory":
        outcome = errno.EEXIST if False else errno.EACCES
    elif create == "C" and node is not None:
        outcome = errno.EEXIST
    elif create == "N" and node is None:
        outcome = errno.ENOENT
    elif target == "readonly" and write:
        outcome = errno.EACCES
    elif target == "locked" and locking:
        outcome = "lock"
    p = path.encode("utf-8") if bytes_path else path
    if fault:
        sim.faults = {fault_api: [fault]}
    r = call(rs.rsopen, p, mode, buffering=buffering, locking=locking, timeout=0, thread_safe=thread_safe, permissions=permissions)
    hit = bool(fault) and not sim.faults[fault_api]
    sim.faults = {}
    say = lambda text: "%r: %s" % (case, text)
    if hit and outcome in (None, "lock"):
        outcome = winsim.winerrno(fault)
    gc.collect()
    if len(sim.creates) != 1:
        raise Violation("createfile", say("CreateFile called %d times" % len(sim.creates)))
    c = sim.creates[0]
    want = dict(path=path, access=(winsim.GENERIC_READ if read else 0) | (winsim.GENERIC_WRITE if write else 0), share=7, inherit=inherit,
                disposition={"C": winsim.CREATE_NEW, "N": winsim.OPEN_EXISTING, "": winsim.OPEN_ALWAYS}[create])
    for k, v in want.items():
        if c[k] != v:
            raise Violation("createfile", say("%s is %r instead of %r" % (k, c[k], v)))
    if bool(c["flags"] & winsim.WRITE_THROUGH) != sync or bool(c["flags"] & 1) != (not permissions & 0o200) or c["flags"] & ~(winsim.WRITE_THROUGH | 1 | 128):
        raise Violation("createfile", say("flags %x" % c["flags"]))
    final = sim.files.get(path)
    if outcome is not None:
        env.nontrivial = True
        if not isinstance(r, Raised) or "OSError" not in r.families or outcome == "lock" and not r.text.startswith("LockingException") or outcome != "lock" and r.errno != outcome:
            raise Violation("open-error", say("gave %r instead of error %r" % (r, outcome)))
        del r
        gc.collect()
        check_handles(sim, other_handles, "failed open", case)
        if node is not None and not (hit and fault_api in ("SetFilePointer", "GetFileSize")) and (node.size != len(content) or node.read(0, 99) != content):
            raise Violation("open-content", say("failed open changed the file: %r" % node.read(0, 99)))
        env.label("fails")
        return
    if isinstance(r, Raised):
        raise Violation("open", say("raised %r" % r))
    if final is None or final.size != (0 if erase or node is None else len(content)):
        raise Violation("open-content", say("the file has %r bytes" % (final and final.size)))
    if (r.readable(), r.writable(), r.seekable(), r.name, r.origin) != (read, write, True, p, "path"):
        raise Violation("attributes", say("%r" % ((r.readable(), r.writable(), r.seekable(), r.name, r.origin),)))
    if r.tell() != (final.size if append else 0):
        raise Violation("position", say("starts at %r" % r.tell()))
    mine = [l for l in sim.locks if l[1] == r.handle()]
    if locking:
        if len(mine) != 1 or mine[0][2] != 0 or mine[0][3] < 2 ** 63 or mine[0][4] != write:
            raise Violation("lock", say("kernel locks %r" % (mine,)))
    elif mine:
        raise Violation("lock", say("kernel locks %r" % (mine,)))
    # identity
    twin = sim.add_file("C:\\twin", index=ids[3] + (ids[4] << 32), serial=ids[5])
    if node is not None:
        with rs.rsopen("C:\\twin", "RB") as g, rs.rsopen(path, "RB", locking=False) as h:
            same = (ids[0], ids[1], ids[2]) == (ids[3], ids[4], ids[5])
            if (g.unique_id() == r.unique_id()) != same or h.unique_id() != r.unique_id():
                raise Violation("unique_id", say("%r, %r, %r for %r" % (g.unique_id(), r.unique_id(), h.unique_id(), ids)))
    if erase or node is None:
        env.nontrivial = True
    r.close()
    del r
    check_handles(sim, other_handles, "open", case)
    if [l for l in sim.locks if l[1] not in other_handles]:
        raise Violation("lock-left", say("%r" % (sim.locks,)))
    env.label("opens", backend)
    env.steps += 1


# --------------------------------------------------------------------------------------- locks

@st.composite
def locks_strategy(draw):
    streams = [(draw(st.integers(0, 1)), draw(st.sampled_from(["RW", "RW", "RW", "R", "W"])), draw(st.sampled_from([False, False, False, True]))) for _ in range(draw(st.integers(1, 4)))]
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        base = draw(st.sampled_from([0, 0, 0, 2 ** 31 - 4, 2 ** 32 - 4, 2 ** 40]))
        ops.append((draw(st.sampled_from(["lock", "lock", "lock", "unlock", "unlock", "unlock-held", "unlock-held", "with", "close", "lock-held"])), draw(st.integers(0, len(streams) - 1)),
                    draw(st.one_of(st.just(None), st.integers(0, 6), st.sampled_from([2 ** 31, 2 ** 32 + 3]))), base + draw(st.integers(0, 9)), draw(st.integers(0, 2)), draw(st.sampled_from([None, None, True, False])),
                    draw(st.integers(0, 9))))
    return (draw(st.sampled_from(BACKENDS)), streams, ops, draw(st.integers(0, 40)))


def locks_run(case, env):
    backend, specs, ops, size = case
    rs = winsim.load(backend)
    winsim.W.sim = sim = winsim.Sim(3)
    nodes = [sim.add_file("f%d" % i, b"x" * size) for i in range(2)]
    model = []  # (stream index, start, end or None, exclusive)
    streams = []
    done = []

    def overlap(a, b, c, d):
        return (d is None or a < d) and (b is None or c < b)

    def conflicts(i, start, end, exclusive):
        return any(specs[j][0] == specs[i][0] and j != i and (exclusive or x) and overlap(start, end, s, e) for j, s, e, x in model)

    def check(label):
        got = sorted((nodes.index(n), [j for j, y in enumerate(streams) if y and not y.closed and y.handle() == h], s, min(e, 2 ** 63), x) for n, h, s, e, x in sim.locks)
        want = sorted((specs[j][0], [j], s, 2 ** 63 if e is None else min(e, 2 ** 63), x) for j, s, e, x in model)
        if got != want:
            raise Violation("kernel-locks", where("%s: kernel locks %r instead of %r" % (label, got, want), [backend, specs, done]))

    def take(label, i, r, start, end, exclusive, timeout0=True):
        own = any(j == i and overlap(start, end, s, e) for j, s, e, x in model)
        if own:
            ok = isinstance(r, Raised) and ("RuntimeError" in r.families or conflicts(i, start, end, exclusive) and r.text.startswith("LockingException"))
        elif conflicts(i, start, end, exclusive):
            ok = isinstance(r, Raised) and r.text.startswith("LockingException")
        else:
            ok = not isinstance(r, Raised)
            model.append((i, start, end, exclusive))
        if not ok:
            raise Violation("verdict", where("%s gave %r" % (label, r), [backend, specs, done]))

    for i, (n, mode, locking) in enumerate(specs):
        done.append(("open", i))
        r = call(rs.rsopen, "f%d" % n, mode + "B", locking=locking, timeout=0, buffering=0)
        if locking:
            take("open", i, r, 0, None, "W" in mode)
        elif isinstance(r, Raised):
            raise Violation("open", where("%r" % r, [backend, specs, done]))
        streams.append(None if isinstance(r, Raised) else r)
        check("open")
    for op in ops:
        k, i, length, offset, whence, shared, pick = op
        f = streams[i]
        if f is None or f.closed:
            continue
        done.append(op)
        env.steps += 1
        exclusive = "W" in specs[i][1] if shared is None else not shared
        allowed = ("W" if exclusive else "R") in specs[i][1]
        mine = [l for l in model if l[0] == i]
        if whence == 1:
            pos = f.seek(pick)
            start = pos + offset
        elif whence == 2:
            start = size + offset
        else:
            start = offset
        if k in ("unlock-held", "lock-held") and mine:
            _, start, end, _x = mine[pick % len(mine)]
            whence, offset = 0, start
            length = None if end is None else end - start
        end = start + length if length else None
        if k in ("lock", "with", "lock-held"):
            r = call(f.lock_file, timeout=0, length=length, offset=offset, whence=whence, shared=shared)
            if not allowed:
                if not isinstance(r, Raised) or "OSError" not in r.families:
                    raise Violation("verdict", where("lock of the wrong kind gave %r" % (r,), [backend, specs, done]))
            else:
                env.nontrivial = True
                take(k, i, r, start, end, exclusive)
                check(k)
                if k == "with" and not isinstance(r, Raised):
                    f.seek(pick + 1)
                    with r:
                        check("inside with")
                    model.remove((i, start, end, exclusive))
        elif k in ("unlock", "unlock-held"):
            r = call(f.unlock_file, length=length, offset=offset, whence=whence)
            match = [l for l in mine if l[1] == start and l[2] == end]
            if match:
                if isinstance(r, Raised):
                    raise Violation("verdict", where("unlock gave %r" % (r,), [backend, specs, done]))
                model.remove(match[0])
            else:
                if not isinstance(r, Raised) or not r.families & {"RuntimeError", "OSError"}:
                    raise Violation("verdict", where("unlock of a free range gave %r" % (r,), [backend, specs, done]))
                sim.anomalies = []
        elif k == "close":
            f.close()
            model[:] = [l for l in model if l[0] != i]
        check(k)
    for f in streams:
        if f is not None:
            f.close()
    model[:] = []
    check("end")
    check_handles(sim, [], "locks", [backend, specs, done])
    env.label(backend)


def setup():
    warnings.simplefilter("ignore")
    for b in BACKENDS:
        winsim.load(b)


PARTS = [Part("history", history_strategy, history_run, quick=18000, thorough=600000, setup=setup),
         Part("open", open_strategy, open_run, quick=8000, thorough=150000, setup=setup),
         Part("locks", locks_strategy, locks_run, quick=6000, thorough=150000, setup=setup)]
