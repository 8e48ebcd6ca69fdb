"""C22: pipes, FIFOs, sockets, terminals and non-blocking descriptors behave like with the standard library."""
import errno
import fcntl

import os
import socket
import termios
import threading
import time
import tty
import warnings

import gen as st
from core import Part, Violation
from refio import ref
from streams import Raised, call, rsfile, same_outcome, short

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: differential scripts on twin channels (rsfile / standard library on each), explicit non-seekable laws, and conservation of the data flow under concurrent peers"
RULE = ("Part 'twins': the same generated script (stream operations interleaved with reads, writes and closings at the other end) is run on an rsfile stream and on a standard library stream, on a pipe, FIFO, "
        "socket or pseudo-terminal, blocking or not; outcomes and data at the other end must be the same. Part 'laws': non-seekable operations fail with an error, initial locking/truncation are ignored. "
        "Part 'flow': a writer and a reader run concurrently (blocking or polling), all data must arrive in order exactly once. Non-trivial: data went through the channel and, in 'twins', at least one "
        "would-block, partial, EOF or broken pipe condition occurred or 3 successful transfers.")
ASSUMPTIONS = ["The standard library stream (_pyio with its readinto() defect repaired) is the reference of 'twins'."]


class Channel(object):
    """One end is wrapped by a stream, the other one (peer) is driven by plain system calls."""

    def __init__(self, kind, direction, env, capacity):
        self.kind = kind
        self.dir = direction  # 'r': the stream reads
        self.path = None
        self.peer_open = True
        if kind == "pipe":
            r, w = os.pipe()
        elif kind == "fifo":
            self.path = env.path()
            os.mkfifo(self.path)
            if direction == "r":
                r = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
                w = os.open(self.path, os.O_WRONLY)
            else:
                r = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
                w = os.open(self.path, os.O_WRONLY)
        elif kind == "socket":
            a, b = socket.socketpair()
            r, w = a.detach(), b.detach()
        else:
            m, s = os.openpty()
            tty.setraw(s)
            if direction == "r":
                r, w = s, m
            else:
                r, w = m, s
        self.mine, self.peer = (r, w) if direction == "r" else (w, r)
        if capacity and kind in ("pipe", "fifo"):
            fcntl.fcntl(r, 1031, capacity)  # F_SETPIPE_SZ
        os.set_blocking(self.peer, False)
        env.defer(self.close_peer)
        self.got = b""

    def close_peer(self):
        if self.peer_open:
            self.peer_open = False
            os.close(self.peer)

    def peer_write(self, data):
        try:
            return os.write(self.peer, data)
        except OSError as e:
            return -e.errno

    def peer_read(self, n):
        try:
            d = os.read(self.peer, n)
        except OSError as e:
            return -e.errno
        self.got += d
        return len(d)


def payload(n, seed):
    base = b"%d: line\nanother, longer line of text\n" % seed
    return (base * (n // len(base) + 1))[:n]


@st.composite
def twins_strategy(draw):
    t, j = st.tuples, st.just
    kind = draw(st.sampled_from(["pipe", "pipe", "pipe", "fifo", "socket"]))  # terminals deliver data asynchronously
    direction = draw(st.sampled_from("rw"))
    layer = draw(st.sampled_from(["raw", "buffered", "buffered", "text"]))
    size = st.one_of(st.integers(0, 40), st.integers(0, 300), st.sampled_from([1000, 4096, 5000, 8192, 20000, 70000]))
    if direction == "r":
        n = st.one_of(st.integers(0, 30), st.sampled_from([-1, 300, 4096, 9000]))
        op = st.weighted((8, t(j("pw"), size)), (1, t(j("pc"))), (5, t(j("read"), n)), (2, t(j("readinto"), st.integers(0, 50))), (2, t(j("readline"))), (1, t(j("readline"), st.integers(0, 20))),
                         (1, t(j("readall"))), (1, t(j("read1"), st.integers(0, 30))), (1, t(j("peek"), st.integers(0, 30))), (1, t(j("next"))), (1, t(j("readlines"))), (1, t(j("readinto1"), st.integers(0, 50))),
                         (1, t(j("tell"))), (1, t(j("seek"), st.integers(0, 5))), (1, t(j("attr"), st.sampled_from(["seekable", "isatty", "readable", "writable", "fileno_ok", "closed"]))), (1, t(j("write"), size)))
    else:
        op = st.weighted((8, t(j("write"), size)), (4, t(j("flush"))), (5, t(j("pr"), st.one_of(size, st.just(100000)))), (1, t(j("pc"))), (1, t(j("writelines"), st.lists(size, 0, 3))),
                         (1, t(j("tell"))), (1, t(j("seek"), st.integers(0, 5))), (1, t(j("truncate"))), (1, t(j("read"), st.integers(0, 10))),
                         (1, t(j("attr"), st.sampled_from(["seekable", "isatty", "readable", "writable", "fileno_ok", "closed"]))))
    return (kind, direction, layer, draw(st.sampled_from([None, 1, 2, 16, 100, 5000])), draw(st.booleans()), draw(st.sampled_from([0, 4096])), draw(st.lists(op, 1, 16)))


def stream_args(layer, buf, text_encoding="ascii"):
    kw = {}
    if layer == "raw":
        kw["buffering"] = 0
    elif buf is not None and (layer == "text" or buf != 1):
        kw["buffering"] = buf
    if layer == "text":
        kw.update(encoding=text_encoding, newline="")
    return kw


def twins_run(case, env):
    kind, direction, layer, buf, ts, capacity, ops = case
    rs = rsfile()
    text = layer == "text"
    chans = [Channel(kind, direction, env, capacity) for i in range(2)]
    kw = stream_args(layer, buf)
    mode = direction + ("" if text else "b")
    files = []
    for ch, opener in zip(chans, (rs.rsopen, ref.open)):
        os.set_blocking(ch.mine, False)
        if opener is rs.rsopen:
            f = call(opener, ch.mine, mode, thread_safe=ts, **kw)
        else:
            f = call(opener, ch.mine, mode, **kw)
        files.append(f)
        if not isinstance(f, Raised):
            env.defer(call, f.close)
        else:
            env.defer(os.close, ch.mine)
    if any(isinstance(f, Raised) for f in files):
        if not all(isinstance(f, Raised) for f in files):
            raise Violation("open", "rsfile: %r, stdlib: %r" % tuple(files))
        return
    events = 0
    transfers = 0
    sent = 0
    broken = False
    for op in ops:
        env.steps += 1
        k = op[0]
        if k == "pw":
            if not chans[0].peer_open:
                continue
            sent += 1
            rets = [ch.peer_write(payload(op[1], sent)) for ch in chans]
            if rets[0] != rets[1]:
                raise Violation("channel", "the other end could write %d bytes, and %d with the stdlib stream" % tuple(rets))
            continue
        if k == "pr":
            if not chans[0].peer_open:
                continue
            rets = [ch.peer_read(op[1]) for ch in chans]
            if rets[0] != rets[1] or chans[0].got != chans[1].got:
                raise Violation("delivered", "the other end could read %d bytes (total %d), and %d (total %d) with the stdlib stream" % (rets[0], len(chans[0].got), rets[1], len(chans[1].got)))
            continue
        if k == "pc":
            [ch.close_peer() for ch in chans]
            continue
        if k in ("readall",) and layer != "raw" or k in ("read1", "peek", "readinto1") and layer != "buffered" or k == "readinto" and text:
            continue
        if layer == "raw" and k in ("writelines",):
            continue
        if text and k == "seek" and direction == "w" and broken:
            continue
        res = []
        for f, ch in zip(files, chans):
            if k in ("write", "writelines"):
                if k == "write":
                    arg = payload(op[1], len(ops))
                    arg = arg.decode() if text else arg
                else:
                    arg = [payload(n, i) for i, n in enumerate(op[1])]
                    arg = [a.decode() for a in arg] if text else arg
                r = call(getattr(f, k), arg)
            elif k in ("readinto", "readinto1"):
                b = bytearray(op[1])
                r = call(getattr(f, k), b)
                r = (r, bytes(b)) if not isinstance(r, Raised) else r
            elif k == "next":
                r = call(next, f)
            elif k == "attr":
                r = f.fileno() == ch.mine if op[1] == "fileno_ok" else f.closed if op[1] == "closed" else call(getattr(f, op[1]))
            else:
                r = call(getattr(f, k), *op[1:])
            res.append(r)
        a, b = res
        if not same_outcome(a, b) or isinstance(a, Raised) and (a.errno != b.errno and "ValueError" not in a.families or a.blocking != b.blocking):
            if layer != "raw" and k == "readinto" and {repr(a)[:5], repr(b)[:5]} == {"(None", "(0, b"}:
                pass  # would-block conditions of buffered readinto(): both exist in the stdlib
            else:
                raise Violation("outcome", "op %r: rsfile gave %s (blocking %r), stdlib gave %s (blocking %r)" % (op, short(a), getattr(a, "blocking", None), short(b), getattr(b, "blocking", None)))
        if isinstance(b, Raised) or b is None or b in (b"", ""):
            events += 1
        elif k in ("read", "readinto", "readline", "write", "next", "readall"):
            transfers += 1
        if isinstance(b, Raised) and text and direction == "r" and "OSError" not in b.families and "StopIteration" not in b.families:
            break  # text reads on a would-block condition: the decoder got None
        if isinstance(b, Raised) and b.errno == errno.EPIPE:
            broken = True
    # end: everything still buffered
    rets = [call(f.close) for f in files]
    if not same_outcome(rets[0], rets[1]) or isinstance(rets[0], Raised) and rets[0].errno != rets[1].errno:
        raise Violation("close", "close(): rsfile gave %r, stdlib gave %r" % tuple(rets))
    if not files[0].closed:
        raise Violation("close", "not closed")
    for ch in chans:
        while direction == "w" and ch.peer_open and ch.peer_read(100000) > 0:
            pass
    if chans[0].got != chans[1].got:
        raise Violation("delivered", "the other end got %d bytes, instead of %d with the stdlib stream" % (len(chans[0].got), len(chans[1].got)))
    env.nontrivial = events > 0 or transfers >= 3
    env.label("kind:" + kind, "layer:" + layer, "dir:" + direction)


# ------------------------------------------------------------ laws


@st.composite
def laws_strategy(draw):
    t, j = st.tuples, st.just
    op = st.sampled_from([("seek", 0), ("seek", 3), ("seek", 0, 1), ("seek", 0, 2), ("tell",), ("truncate",), ("truncate", 0), ("truncate", 10), ("lock_file",), ("lock_file", 0), ("lock_file", 0, 3, 2),
                          ("unlock_file",), ("unlock_file", 3, 2), ("seekable",), ("size",), ("times",), ("unique_id",)])
    direction = draw(st.sampled_from("rw"))
    return (draw(st.sampled_from(["pipe", "fifo", "socket", "tty"])), direction, draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.booleans()), draw(st.sampled_from([None, True, False])),
            draw(st.sampled_from(["R", "r"] if direction == "r" else ["W", "WE", "A", "w", "a", "AE"])), draw(st.booleans()), draw(st.integers(0, 50)), draw(st.lists(op, 1, 6)),
            draw(st.sampled_from(["name", "fileno", "handle", "path"])))


def laws_run(case, env):
    kind, direction, layer, ts, locking, mode, closefd, pending, ops, how = case
    rs = rsfile()
    text = layer == "text"
    ch = Channel(kind, direction, env, 0)
    if direction == "r" and pending:
        ch.peer_write(payload(pending, 1))
    kw = dict(stream_args(layer, None), thread_safe=ts)
    if locking is not None:
        kw["locking"] = locking
    fl = fcntl.fcntl(ch.mine, fcntl.F_GETFL)
    m = mode + (("t" if text else "b") if mode.islower() else ("T" if text else "B"))
    if how == "path" and kind == "fifo":
        f = rs.rsopen(ch.path, m, **kw)
        os.close(ch.mine)
        ch.mine = f.fileno()
        closefd = True
    elif how in ("fileno", "handle"):
        f = rs.rsopen(mode=m, closefd=closefd, **{how: ch.mine}, **kw)
    else:
        if mode.isupper():
            f = rs.rsopen(mode=m, fileno=ch.mine, closefd=closefd, **kw)
        else:
            f = rs.rsopen(ch.mine, m, closefd=closefd, **kw)
    env.defer(call, f.close)
    if f.seekable():
        raise Violation("seekable", "a %s is said to be seekable" % kind)
    if how != "path" and fcntl.fcntl(ch.mine, fcntl.F_GETFL) != fl:
        raise Violation("flags", "flags of the descriptor changed")
    for op in ops:
        env.steps += 1
        r = call(getattr(f, op[0]), *op[1:])
        if op[0] == "seekable":
            if r is not False:
                raise Violation("seekable", repr(r))
        elif op[0] == "unique_id":
            s = os.fstat(ch.mine)
            if r != (s.st_dev, s.st_ino):
                raise Violation("unique_id", "%r instead of %r" % (r, (s.st_dev, s.st_ino)))
        elif op[0] in ("size", "times"):
            if isinstance(r, Raised) and "OSError" not in r.families:
                raise Violation("error-type", "%r raised %r" % (op, r))
        elif not isinstance(r, Raised):
            raise Violation("accepted", "%r on a %s gave %r" % (op, kind, r))
        elif "OSError" not in r.families and "ValueError" not in r.families:
            raise Violation("error-type", "%r on a %s raised %r" % (op, kind, r))
    # data still flows
    if direction == "r":
        if ch.peer_write(b"hello\n") != 6:
            raise Violation("flow", "other end can't write anymore")
        want = payload(pending, 1) + b"hello\n"
        got = b""
        while len(got) < len(want):
            d = f.read(len(want) - len(got))
            if not d:
                break
            got += d.encode() if text else d
        if got != want:
            raise Violation("data", "%s instead of %s" % (short(got), short(want)))
    else:
        import select

        f.write("hello" if text else b"hello")
        if kind == "tty" and text:  # terminals are line-buffered
            f.write("\n")
            want = b"hello\n"
        else:
            f.flush()
            want = b"hello"
        while len(ch.got) < len(want) and select.select([ch.peer], [], [], 3)[0] and ch.peer_read(100) > 0:
            pass
        if ch.got != want:
            raise Violation("data", "other end got %s" % short(ch.got))
    f.close()
    try:
        os.fstat(ch.mine)
        alive = True
    except OSError:
        alive = False
    if alive == closefd:
        raise Violation("closefd", "closefd=%r but descriptor is %s" % (closefd, "open" if alive else "closed"))
    if alive:
        os.close(ch.mine)
    env.nontrivial = True
    env.label("kind:" + kind, "layer:" + layer)


# ------------------------------------------------------------ concurrent flow


@st.composite
def flow_strategy(draw):
    size = st.sampled_from([1, 2, 5, 37, 100, 1000, 4096, 9000, 70000])
    return (draw(st.sampled_from(["pipe", "pipe", "fifo", "socket", "tty"])), draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.sampled_from(["raw", "buffered", "text"])),
            draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([None, 16, 1000])), draw(st.lists(size, 1, 10)), draw(st.lists(size, 1, 6)), draw(st.sampled_from(["read", "readinto", "readline", "iter", "readall", "readall"])),
            draw(st.booleans()), draw(st.sampled_from([0, 0, 0.001, 0.004])))


def flow_run(case, env):
    kind, wl, rl, wblock, rblock, buf, wsizes, rsizes, how, ts, pause = case
    rs = rsfile()
    if kind == "tty":
        wsizes = [min(n, 1000) for n in wsizes]
    ch = Channel(kind, "r", env, 4096)
    ch.peer_open = False  # owned by the streams
    os.set_blocking(ch.mine, rblock or rl == "text")
    os.set_blocking(ch.peer, wblock)
    w = rs.rsopen(ch.peer, "w" if wl == "text" else "wb", thread_safe=ts, **stream_args(wl, buf))
    r = rs.rsopen(ch.mine, "r" if rl == "text" else "rb", thread_safe=ts, **stream_args(rl, buf))
    env.defer(call, w.close)
    env.defer(call, r.close)
    total = b"".join(payload(n, i) for i, n in enumerate(wsizes))
    errors = []
    stop = []

    def poll(f, what):
        import select

        (select.select([f], [], [], 5) if what == "r" else select.select([], [f], [], 5))

    def writer():
        try:
            for i, n in enumerate(wsizes):
                data = payload(n, i)
                if wl == "text":
                    data = data.decode()
                while data and not stop:
                    if wl == "raw":
                        k = w.write(data)
                        if k is None:
                            poll(ch.peer, "w")
                            continue
                        data = data[k:]
                    elif wl == "buffered":
                        try:
                            w.write(data)
                            data = None
                        except BlockingIOError as e:
                            data = data[e.characters_written:]
                            poll(ch.peer, "w")
                    elif wblock:
                        w.write(data)
                        data = None
                    else:
                        # text streams can't tell what was written: send small pieces, flushed
                        while not stop:
                            try:
                                w.flush()
                                break
                            except BlockingIOError:
                                poll(ch.peer, "w")
                        try:
                            w.write(data[:10])
                        except BlockingIOError as e:
                            pass  # buffered in full, as 10 characters were less than the buffer size
                        data = data[10:]
                if pause:
                    call(w.flush)
                    time.sleep(pause)
            while not stop:
                try:
                    w.flush()
                    break
                except BlockingIOError:
                    poll(ch.peer, "w")
            if kind != "tty":
                w.close()
        except BaseException as e:
            import traceback

            errors.append(traceback.format_exc()[-1200:])
            stop.append(1)
            call(w.close)

    got = []

    def reader():
        n = 0
        i = 0
        fd = ch.mine
        while n < len(total) and not stop:
            size = rsizes[i % len(rsizes)]
            i += 1
            if kind == "tty":
                size = min(size, len(total) - n)  # a terminal has no end of file as long as the other end is open
            blocking = rblock or rl == "text"
            if how == "readline" or how == "iter" and rl != "text":
                d = r.readline(size) if kind == "tty" else r.readline()
            elif how == "readinto" and rl != "text":
                b = bytearray(size)
                k = r.readinto(b)
                d = None if k is None else bytes(b[:k])
            elif how == "readall" and kind != "tty":
                d = r.readall() if rl == "raw" and i % 2 else r.read()
                if blocking:  # everything until the end of the stream
                    d = d.encode() if isinstance(d, str) else d
                    got.append(d)
                    return
            elif how == "iter" and kind != "tty":
                d = next(r, "")
            else:
                d = r.read(size)
            if d is None or not d and not blocking:
                if d is not None and not alive():
                    d2 = r.read(100000)
                    if not d2:
                        break
                    d = d2
                else:
                    poll(fd, "r")
                    continue
            if not d:
                break
            d = d.encode() if isinstance(d, str) else d
            got.append(d)
            n += len(d)

    t = threading.Thread(target=writer, daemon=True)

    def alive():
        return t.is_alive()

    t.start()
    try:
        reader()
    finally:
        stop.append(1) if b"".join(got) != total else None
        t.join(10)
    data = b"".join(got)
    if errors:
        raise Violation("exception", errors[0])
    if data != total:
        n = 0
        while n < min(len(data), len(total)) and data[n] == total[n]:
            n += 1
        raise Violation("data", "%d bytes received instead of %d, identical up to %d" % (len(data), len(total), n))
    env.nontrivial = len(total) > 0
    env.steps += len(wsizes) + len(got)
    env.label("writer:%s:%s" % (wl, "blocking" if wblock else "nonblocking"), "reader:%s:%s" % (rl, "blocking" if rblock else "nonblocking"))


PARTS = [Part("twins", twins_strategy, twins_run, quick=14000, thorough=350000),
         Part("laws", laws_strategy, laws_run, quick=5000, thorough=60000),
         Part("flow", flow_strategy, flow_run, quick=2500, thorough=50000, deterministic=False, hang=40)]
