"""C20: I/O errors and partial transfers are reported, never silently losing data (fault injection at each system call)."""
import errno
import gc
import os
import weakref

import procs  # binds the real os functions first
import syscalls

syscalls.install()

import gen as st
from core import Part, Violation
from procs import fds, lockmap, start_prober
from streams import Raised, call, rsfile, short
from syscalls import REAL, Override, hooks

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with fault injection: generated operation histories and generated fault schedules on the system calls, against a model of accepted and delivered data"
RULE = ("Cases are (layer, mode, buffer size, options, operation list, fault schedule); a fault schedule gives, for the n-th write/read/ftruncate/lockf/close... call on the file, a short count or an errno. "
        "Part 'writes' tells whether delivered bytes are exactly the accepted ones, in order, and whether each failure was reported; 'reads' that data come complete and in order "
        "under short reads; 'closing' that close() always releases descriptor and locks. Non-trivial: at least one fault really fired during the history.")
ASSUMPTIONS = ["Faults are injected by replacing the os/fcntl functions used by the backend.", "The data of a call which raised may be partly delivered, as with stdlib streams."]

ERRS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]


def faults():
    return st.weighted((5, st.just(None)), (4, st.tuples(st.just("short"), st.sampled_from([1, 2, 5, 50, 1000]))), (2, st.tuples(st.just("err"), st.sampled_from(ERRS))),
                       (1, st.tuples(st.just("err"), st.just(errno.EAGAIN))))


@st.composite
def write_strategy(draw):
    layer = draw(st.sampled_from(["raw", "buffered", "buffered", "buffered", "text", "text"]))
    t, j = st.tuples, st.just
    size = st.one_of(st.integers(0, 30), st.integers(0, 30), st.sampled_from([100, 4096, 8192, 8193, 20000]))
    op = st.weighted((8, t(j("write"), size)), (3, t(j("flush"))), (2, t(j("writelines"), st.lists(size, 0, 3))), (1, t(j("size"))), (1, t(j("tell"))), (1, t(j("sync"))), (1, t(j("seekend"))),
                     (1, t(j("lock"))), (1, t(j("unlock"))), (1, t(j("withlock"), size)))
    return (layer, draw(st.sampled_from(["W", "RW", "A", "RA", "WE"])), draw(st.sampled_from([None, 1, 2, 7, 16, 64, 1000])), draw(st.booleans()), draw(st.booleans()),
            draw(st.lists(op, 1, 14)), draw(st.lists(faults(), 0, 30)), draw(st.sampled_from(["close", "close", "with", "with_exc", "del"])))


class Token(object):
    """Unique data: every byte sequence written in a case can be recognised."""

    def __init__(self):
        self.n = 0

    def data(self, size):
        out = []
        total = 0
        while total < size:
            self.n += 1
            s = "%x." % self.n
            out.append(s)
            total += len(s)
        self.n += 1
        return "".join(out)[:size]


def lcp(content, i, data, hi):
    if content.startswith(data[:hi], i):
        return hi
    n = 0
    while n < hi and i + n < len(content) and content[i + n] == data[n]:
        n += 1
    return n


def match(content, log):
    """log: [(data, lo, hi)], the delivered prefix of each item being between lo and hi bytes. -> (explained length, last item
    which has to be delivered yet or None): all the ways to explain the content are tried."""
    states = {0}
    best = 0
    complete = True
    for data, lo, hi in log:
        nxt = set()
        for i in states:
            n = lcp(content, i, data, hi)
            best = max(best, i + n)
            nxt.update(range(i + lo, i + n + 1))
        states = nxt
        if not states:
            return best, data
    return max(states | {best}), None if len(content) in states else log[-1][0] if log else None


def write_run(case, env):
    layer, access, buf, ts, locking, ops, schedule, ending = case
    rs = rsfile()
    path = env.path("f")
    init = b"INITIAL!"
    with open(path, "wb") as f:
        f.write(init)
    base = init if "A" in access else b""
    text = layer == "text"
    kw = dict(thread_safe=ts, locking=locking)
    if layer == "raw":
        kw["buffering"] = 0
    elif buf is not None and (text or buf != 1):
        kw["buffering"] = buf
    if text:
        kw.update(encoding="ascii", newline="\n")
    if access in ("W", "RW"):
        os.truncate(path, 0)
    before_fds = fds()
    f = rs.rsopen(path, access + ("T" if text else "B"), **kw)
    fd = f.fileno()
    tok = Token()
    schedule = list(schedule)
    state = dict(fired=[], total=0)
    log = []
    cyclic = False

    def before(name, args):
        if name == "write" and args[0] == fd and schedule and len(args[1]):
            x = schedule.pop(0)
            if x is None:
                return None
            if x[0] == "short":
                if x[1] < len(args[1]):
                    state["total"] += 1
                    return Override(REAL["write"](fd, bytes(args[1])[:x[1]]))
                return None
            state["fired"].append(x[1])
            state["total"] += 1
            raise OSError(x[1], os.strerror(x[1]))

    def content():
        with open(path, "rb") as g:
            c = g.read()
        if c[:len(base)] != base:
            raise Violation("content", "initial data overwritten: %s" % short(c))
        return c[len(base):].decode("latin-1")

    def check(what, complete):
        c = content()
        n, k = match(c, log)
        if n != len(c):
            raise Violation("corrupt", "%s: file has %s after the %d explained bytes (accepted: %s)" % (what, short(c[n:n + 30]), n, short(log, 300)))
        if complete and k is not None:
            raise Violation("lost", "%s returned normally but %s isn't (completely) in the file, which has %d bytes" % (what, short(k), len(c)))

    def enc(s):
        return s if text else s.encode("ascii")

    cm = []
    with hooks(before):
        for op in ops:
            env.steps += 1
            state["fired"] = []
            kind = op[0]
            complete = False
            if kind == "write" or kind == "withlock":
                data = tok.data(op[1])
                if kind == "withlock":
                    def go():
                        with f.lock_file(timeout=0, length=7, offset=1 << 40):
                            return f.write(enc(data))
                    before_n = len(content())
                    r = call(go)
                    if isinstance(r, Raised) and "RuntimeError" in r.families and locking:
                        continue  # the stream already holds a lock on the whole file
                    if not isinstance(r, Raised):
                        complete = True  # flushed before the lock is released
                else:
                    r = call(f.write, enc(data))
                if isinstance(r, Raised):
                    if layer == "raw":
                        log.append((data, 0, len(data)))
                    elif r.blocking is not None and kind == "write" and not text:
                        log.append((data, r.blocking, r.blocking))
                    else:
                        log.append((data, 0, len(data)))
                elif r is None:
                    if layer != "raw" or errno.EAGAIN not in state["fired"]:
                        raise Violation("result", "write() returned None")
                    log.append((data, 0, 0))
                else:
                    if not isinstance(r, int) or not 0 <= r <= len(data) or layer != "raw" and r != len(data):
                        raise Violation("result", "write() of %d bytes returned %r" % (len(data), r))
                    log.append((data, r, r))
                if layer == "raw":
                    complete = True
            elif kind == "writelines":
                if layer == "raw":
                    continue  # partial writes are not reported by IOBase.writelines()
                datas = [tok.data(n) for n in op[1]]
                r = call(f.writelines, [enc(d) for d in datas])
                for d in datas:
                    log.append((d, 0 if isinstance(r, Raised) else len(d), len(d)))
            elif kind == "flush":
                r = call(f.flush)
                complete = True
            elif kind == "sync":
                r = call(f.sync)
                complete = True
            elif kind == "size":
                r = call(f.size)
                complete = True
                if not isinstance(r, Raised) and r != os.stat(path).st_size:
                    raise Violation("size", "size() gave %r" % r)
            elif kind == "tell":
                r = call(f.tell)
            elif kind == "seekend":
                r = call(f.seek, 0, 2)
                complete = True
            elif kind == "lock":
                r = call(f.lock_file, timeout=0, length=3, offset=1 << 41)
                if not isinstance(r, Raised):
                    complete = True
                elif "RuntimeError" in r.families:
                    r = None
            else:
                r = call(f.unlock_file, 3, 1 << 41)
                if not isinstance(r, Raised):
                    complete = True
                elif "RuntimeError" in r.families:
                    r = None
            hard = [e for e in state["fired"] if e != errno.EAGAIN]
            if isinstance(r, Raised):
                if "RuntimeError" in r.families and kind == "withlock":
                    raise Violation("spurious", "%r raised %r" % (op, r))
                if "OSError" not in r.families:
                    raise Violation("error-type", "%r raised %r" % (op, r))
                if not state["fired"]:
                    raise Violation("spurious", "%r raised %r without any fault" % (op, r))
                if r.errno not in state["fired"]:
                    raise Violation("error-type", "%r raised %r, faults were %r" % (op, r, state["fired"]))
                complete = False
            elif hard:
                raise Violation("swallowed", "%r returned %r although write() failed with %s" % (op, r, [errno.errorcode[e] for e in hard]))
            check(op[0], complete)
        # end of the stream
        state["fired"] = []
        r = None
        if ending == "close":
            r = call(f.close)
        elif ending in ("with", "with_exc"):
            def leave():
                with f:
                    if ending == "with_exc":
                        raise KeyError("x")
            try:
                leave()
            except KeyError:
                if state["fired"]:
                    raise Violation("swallowed", "error of the last flush lost") from None
            except Exception as e:
                r = Raised(e)
        else:
            closed_by_del = True
            cm.clear()
            call(f.close) if any(x for x in schedule if x) else None
            alive, x = [], f
            while x is not None:
                alive.append(weakref.ref(x))
                x = x.__dict__.get("wrapped_stream") or x.__dict__.get("_buffer") or x.__dict__.get("_raw")
            del f
            if state["total"] and any(x() is not None for x in alive):
                # exceptions (chained by contextlib) and frames refer to each other: like for all streams, data which is still
                # buffered may be lost when a garbage collection has to destroy the layers in an arbitrary order
                cyclic = True
                gc.collect()
        faulty = list(state["fired"])
    if isinstance(r, Raised):
        if "OSError" not in r.families or r.errno not in faulty:
            raise Violation("error-type", "close raised %r, faults were %r" % (r, faulty))
        check("close", False)
    elif ending != "del":
        if faulty and (layer == "raw" or not text):
            raise Violation("swallowed", "close() returned normally although write() failed with %r" % (faulty,))
        check("close", True)
    elif not faulty:
        check("destruction", not cyclic)
    if ending != "del" and not f.closed:
        raise Violation("close", "stream not closed")
    if fds() - before_fds:
        raise Violation("descriptor", "descriptor not closed (%r)" % (sorted(fds() - before_fds),))
    m = lockmap(path)
    if m:
        raise Violation("lock", "still locked after close(): %r" % (m,))
    env.nontrivial = state["total"] > 0
    env.label("layer:" + layer, "ending:" + ending)


# ------------------------------------------------------------ reads


@st.composite
def read_strategy(draw):
    t, j = st.tuples, st.just
    n = st.one_of(st.integers(0, 20), st.integers(0, 300), st.sampled_from([-1, 4096, 8192, 10000]))
    op = st.weighted((5, t(j("read"), n)), (2, t(j("readinto"), st.integers(0, 50))), (3, t(j("readline"))), (1, t(j("readall"))), (2, t(j("seek"), st.integers(0, 400))), (1, t(j("read1"), st.integers(1, 50))))
    fault = st.weighted((4, st.just(None)), (6, t(j("short"), st.sampled_from([1, 2, 3, 10, 100, 1000]))), (1, t(j("err"), st.sampled_from([errno.EIO, errno.EBADMSG]))))
    return (draw(st.sampled_from(["raw", "buffered", "buffered", "text"])), draw(st.sampled_from(["R", "RW", "RA"])), draw(st.sampled_from([None, 2, 16, 100])), draw(st.booleans()),
            draw(st.sampled_from([0, 10, 300, 9000, 20000])), draw(st.lists(op, 1, 12)), draw(st.lists(fault, 0, 40)))


def read_run(case, env):
    layer, access, buf, ts, size, ops, schedule = case
    rs = rsfile()
    path = env.path("f")
    data = Token().data(size).replace(".a", "\n")
    with open(path, "w", newline="") as g:
        g.write(data)
    size = len(data)
    text = layer == "text"
    kw = dict(thread_safe=ts)
    if layer == "raw":
        kw["buffering"] = 0
    elif buf is not None:
        kw["buffering"] = buf
    if text:
        kw.update(encoding="ascii", newline="")
    f = rs.rsopen(path, access + ("T" if text else "B"), **kw)
    env.defer(f.close)
    fd = f.fileno()
    f.seek(0)
    schedule = list(schedule)
    fired = []
    total = [0]

    def before(name, args):
        if name in ("read", "readinto") and args[0] == fd and schedule:
            x = schedule.pop(0)
            if x is None:
                return None
            total[0] += 1
            if x[0] == "short":
                if name == "readinto":
                    return Override(REAL["readinto"](fd, memoryview(args[1]).cast("B")[:x[1]]))
                return Override(REAL["read"](fd, min(args[1], x[1])))
            fired.append(x[1])
            raise OSError(x[1], os.strerror(x[1]))

    pos = 0
    with hooks(before):
        for op in ops:
            env.steps += 1
            kind = op[0]
            del fired[:]
            if kind == "seek":
                r = call(f.seek, op[1])
                if r != op[1]:
                    raise Violation("seek", repr(r))
                pos = op[1]
                continue
            if kind in ("readinto", "read1", "readall") and (text or kind == "readall" and layer != "raw" or kind == "read1" and layer == "raw"):
                continue
            if kind == "readinto":
                b = bytearray(op[1])
                r = call(f.readinto, b)
                if not isinstance(r, Raised):
                    r = bytes(b[:r])
            else:
                r = call(getattr(f, kind), *op[1:])
            if isinstance(r, Raised):
                if "OSError" not in r.families or not fired or r.errno != fired[-1]:
                    raise Violation("error-type", "%r raised %r, faults were %r" % (op, r, fired))
                call(f.seek, 0)
                pos = 0
                continue
            if fired:
                raise Violation("swallowed", "%r returned %s although read() failed" % (op, short(r)))
            if not text:
                r = r.decode("ascii")
            n = op[1] if kind in ("read", "readinto", "read1") else -1
            rest = data[pos:]
            if rest[:len(r)] != r:
                raise Violation("data", "%r at %d gave %s instead of %s" % (op, pos, short(r), short(rest[:len(r) + 5])))
            if kind == "readline":
                line = rest.split("\n", 1)[0] + ("\n" if "\n" in rest else "")
                if r != line:
                    raise Violation("partial", "readline() at %d gave %s instead of %s" % (pos, short(r), short(line)))
            elif n >= 0:
                if len(r) > n:
                    raise Violation("data", "%r returned %d bytes" % (op, len(r)))
                if n and rest and not r:
                    raise Violation("partial", "%r signals the end of file at %d/%d" % (op, pos, size))
                if layer != "raw" and kind == "read" and len(r) != min(n, len(rest)):
                    raise Violation("partial", "%r at %d returned %d bytes only, %d available" % (op, pos, len(r), len(rest)))
            elif r != rest:
                raise Violation("partial", "%r at %d returned %d characters instead of %d" % (op, pos, len(r), len(rest)))
            pos += len(r)
            if not text:
                p = f.tell()
                if p != pos:
                    raise Violation("position", "tell() is %d instead of %d after %r" % (p, pos, op))
    env.nontrivial = total[0] > 0
    env.label("layer:" + layer)


# ------------------------------------------------------------ failures of the other system calls; closing

CLOSING_ERRS = [errno.EIO, errno.ENOSPC, errno.EDQUOT]


@st.composite
def closing_strategy(draw):
    rng = st.tuples(st.integers(0, 30), st.integers(1, 9))
    return (draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.booleans()), draw(st.booleans()), draw(st.lists(rng, 0, 3)), draw(st.sampled_from([0, 5, 300])),
            draw(st.sampled_from(["write", "write", "close", "unlock", "write+close", "write+unlock", "none"])), draw(st.sampled_from(CLOSING_ERRS)),
            draw(st.sampled_from(["close", "with", "with_exc"])), draw(st.lists(st.sampled_from(["truncate", "extend", "lock", "seek", "tell", "size", "sync", "lockctx"]), 0, 4)),
            draw(st.booleans()))


def closing_run(case, env):
    layer, ts, closefd, ranges, pending, which, err, ending, mid, other = case
    rs = rsfile()
    path = env.path("f")
    with open(path, "wb") as g:
        g.write(b"0123456789")
    before_fds = fds()
    kw = dict(thread_safe=ts, locking=False)
    text = layer == "text"
    if layer == "raw":
        kw["buffering"] = 0
    fd0 = None
    if closefd:
        f = rs.rsopen(path, "RW" + ("T" if text else "B"), **kw)
    else:
        fd0 = REAL["open"](path, os.O_RDWR)
        f = rs.rsopen(mode="RW" + ("T" if text else "B"), fileno=fd0, closefd=False, **kw)
    fd = f.fileno()
    g2 = None
    if other:  # another stream of the process with a lock elsewhere, its lock must stay
        g2 = rs.rsopen(path, "RWB", buffering=0, locking=False)
        g2.lock_file(timeout=0, offset=1000, length=5)
        rs.rsopen(path, "RB", buffering=0, locking=False).close()  # deferred too
        env.defer(g2.close)
    # failing operations in the middle
    for m in mid:
        fired = []

        def before(name, args):
            hit = {"truncate": "ftruncate", "extend": "ftruncate", "lock": "fcntl.lockf", "lockctx": "fcntl.lockf", "seek": "lseek", "tell": "lseek", "size": "fstat", "sync": "fsync"}[m]
            if args and args[0] == fd and (name == hit or m == "sync" and name in ("fdatasync", "fcntl.fcntl")):
                fired.append(name)
                raise OSError(err, os.strerror(err))

        size = os.stat(path).st_size
        with hooks(before):
            if m == "truncate":
                r = call(f.truncate, 2)
            elif m == "extend":
                r = call(f.truncate, size + 50)
            elif m in ("lock", "lockctx"):
                r = call(f.lock_file, timeout=0, offset=500, length=10)
            elif m == "seek":
                r = call(f.seek, 3) if layer == "raw" else None
            elif m == "tell":
                r = call(f.tell) if layer == "raw" else None
            elif m == "size":
                r = call(f.size)
            else:
                r = call(f.sync)
        if fired:
            if not isinstance(r, Raised) or "OSError" not in r.families:
                raise Violation("swallowed", "%s returned %r although %s failed" % (m, r, fired))
            if m in ("truncate", "extend") and os.stat(path).st_size != size:
                raise Violation("residue", "failed truncate() changed the size")
            if m in ("lock", "lockctx"):
                if any(s < 510 and (e is None or e > 500) for s, e, k in lockmap(path)):
                    raise Violation("residue", "failed lock_file() left %r" % (lockmap(path),))
                r = call(f.lock_file, timeout=0, offset=500, length=10)
                if isinstance(r, Raised):
                    raise Violation("residue", "range not lockable after a failed attempt: %r" % r)
                f.unlock_file(length=10, offset=500)
    taken = 0
    for i, (s, n) in enumerate(ranges):
        r = call(f.lock_file, timeout=0, offset=s * 10 + 2000 * i, length=n)
        taken += not isinstance(r, Raised)
    data = "x" * pending
    if pending:
        f.seek(0)
        f.write(data if text else data.encode("ascii"))
    fired = []
    done = []

    def before(name, args):
        if not args or args[0] != fd:
            return None
        if name == "write" and "write" in which:
            fired.append(name)
            raise OSError(err, os.strerror(err))
        if name == "close" and "close" in which:
            fired.append(name)
            REAL["close"](fd)
            raise OSError(err, os.strerror(err))
        if "unlock" in which and syscalls.unlock_request(name, args):
            fired.append("unlock")
            raise OSError(errno.ENOLCK, os.strerror(errno.ENOLCK))

    with hooks(before):
        try:
            if ending == "close":
                f.close()
            else:
                with f:
                    if ending == "with_exc":
                        raise KeyError("x")
            r = None
        except KeyError as e:
            r = None
            if fired:
                raise Violation("swallowed", "failure of %s lost" % fired)
        except Exception as e:
            r = Raised(e)
            e = None
    if fired:
        if not isinstance(r, Raised) or "OSError" not in r.families:
            raise Violation("swallowed", "close() gave %r although %s failed" % (r, fired))
    elif isinstance(r, Raised):
        raise Violation("spurious", "close() raised %r" % r)
    if not f.closed:
        raise Violation("close", "stream isn't closed after a failing close()")
    call(f.close)
    if g2 is not None:
        if lockmap(path) != [(1000, 1005, "x")] and which != "unlock" and "unlock" not in which:
            raise Violation("lock", "lock map is %r after close(), instead of the other stream's lock" % (lockmap(path),))
        late = []

        def before(name, args):
            if which == "close" and name == "close" and not late:
                late.append(args[0])
                REAL["close"](args[0])
                raise OSError(err, os.strerror(err))

        with hooks(before):  # the descriptors whose closing was deferred are closed now
            call(g2.close)
        if not g2.closed:
            raise Violation("close", "stream isn't closed after a failing close()")
    if fd0 is not None:
        if "close" in fired:
            raise Violation("closefd", "wrapped descriptor was closed")
        REAL["close"](fd0)
    if fds() - before_fds:
        raise Violation("descriptor", "descriptor still open after a failing close (%r)" % (sorted(fds() - before_fds),))
    if lockmap(path):
        raise Violation("lock", "still locked after close(): %r" % (lockmap(path),))
    h = call(rs.rsopen, path, "RWB", buffering=0, timeout=0)
    if isinstance(h, Raised):
        raise Violation("lock", "file can't be locked again: %r" % h)
    h.close()
    env.nontrivial = bool(fired) or bool(mid)
    env.label("which:" + which)


PARTS = [Part("writes", write_strategy, write_run, quick=7000, thorough=250000, setup=start_prober),
         Part("reads", read_strategy, read_run, quick=4000, thorough=120000),
         Part("closing", closing_strategy, closing_run, quick=3500, thorough=80000, setup=start_prober)]
