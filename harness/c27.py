"""C27: append streams always write at the end of the file."""
import os
import select
import threading
import time
import warnings

import gen as st
import procs
from core import HarnessError, Part, Violation
from streams import Raised, call, mk, read_file, rsfile, short

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: model-based histories over several append streams and foreign modifications of the same file, and concurrent appenders (threads and processes) whose records must survive, whole and in order"
RULE = ("Part 'model': histories of writes, seeks, reads, flushes, truncations, closings on 1 to 4 append streams (all layers and ways to open), interleaved with foreign overwrites, appends and truncations; after each step the file must be "
        "what the model says, plus a prefix of the data that the stream has accepted but not pushed yet. Part 'concurrent': threads and processes append records at the same time, while others read, seek, overwrite other "
        "regions or query the file. Non-trivial: a push happened while the position of the stream wasn't the end of the file ('model'), or at least 2 writers interleaved their records ('concurrent').")
ASSUMPTIONS = ["The kernel's O_APPEND is atomic on the scratch filesystem.", "Foreign modifications don't happen while a stream's operation is in progress, in 'model'."]

HOW = ["adv", "adv", "std", "std", "fileno", "opener", "replacement", "utility"]


@st.composite
def model_strategy(draw):
    t, j = st.tuples, st.just
    n = draw(st.integers(1, 4))
    streams = []
    for _ in range(n):
        layer = draw(st.sampled_from(["raw", "buffered", "buffered", "text"]))
        streams.append((layer, draw(st.booleans()), draw(st.sampled_from(HOW[:-1])), draw(st.booleans()), draw(st.sampled_from([-1, -1, 4, 16, 100, 1])), draw(st.sampled_from([None, "", "\n", "\r\n"])) if layer == "text" else None,
                        draw(st.booleans()) and n == 1, draw(st.sampled_from([False, False, False, True])), draw(st.sampled_from(["", "", "", "C", "N", "S", "I", "CS", "CI", "NI"]))))
    who = st.integers(0, n - 1)
    size = st.one_of(st.integers(0, 12), st.integers(0, 60), st.sampled_from([0, 1, 8191, 8192, 8193, 20000]))
    off = st.one_of(st.integers(0, 40), st.sampled_from([100, 9000, 70000]))
    op = st.weighted((10, t(j("write"), who, size)), (2, t(j("writelines"), who, st.lists(st.integers(0, 9), 0, 4))), (4, t(j("flush"), who)), (5, t(j("seek"), who, off, st.sampled_from([0, 0, 0, 1, 2]))), (3, t(j("read"), who, st.integers(0, 30))),
                     (1, t(j("readline"), who)), (3, t(j("truncate"), who, st.one_of(st.just(None), off), st.booleans())), (2, t(j("tell"), who)), (2, t(j("size"), who)), (1, t(j("sync"), who)), (1, t(j("lock"), who)), (2, t(j("close"), who)), (2, t(j("reopen"), who)),
                     (4, t(j("x-append"), size)), (3, t(j("x-truncate"), off)), (3, t(j("x-overwrite"), off, st.integers(0, 20))), (1, t(j("rs-overwrite"), off, st.integers(0, 20))), (1, t(j("utility"), size)))
    return (streams, draw(st.sampled_from([None, b"", b"0123456789", ("P", "l", 3, 50), ("P", "l", 0, 9000)])), draw(st.lists(op, 3, 25)))


class S(object):
    pass


def open_append(rs, path, spec, env):
    layer, readable, how, ts, buffering, newline, locking, erase, flags = spec
    exists = os.path.exists(path)
    flags = flags.replace("C" if exists else "N", "")
    erase = erase and how == "adv" and "C" not in flags
    kw = dict(thread_safe=ts, locking=locking)
    kw["buffering"] = 0 if layer == "raw" else buffering
    if layer == "text":
        kw.update(encoding="utf-8", newline=newline)
        if buffering == 1:
            kw["buffering"] = 16
    elif kw["buffering"] == 1:
        kw["buffering"] = 2
    b = "" if layer == "text" else "b"
    if how == "adv":
        m = ("R" if readable else "") + "A" + ("E" if erase else "") + b.upper() + flags
        f = rs.rsopen(path, m, **kw)
    elif how == "std":
        f = rs.rsopen(path, "a" + ("+" if readable else "") + b, **kw)
    elif how == "fileno":
        fd = os.open(path, (os.O_RDWR if readable else os.O_WRONLY) | os.O_APPEND | os.O_CREAT)
        f = rs.rsopen(None, "a" + ("+" if readable else "") + b, fileno=fd, **kw)
    elif how == "opener":
        f = rs.rsopen(path, "a" + ("+" if readable else "") + b, opener=lambda p, flags: os.open(p, flags, 0o600), **kw)
    else:
        del kw["thread_safe"], kw["locking"]
        f = rs.BUILTIN_OPEN_FUNC_REPLACEMENT(path, "a" + ("+" if readable else "") + b, **kw)
    env.defer(f.close)
    s = S()
    s.f, s.spec, s.layer, s.readable, s.pending, s.newline, s.closed, s.erased = f, spec, layer, readable, b"", newline, False, erase
    s.locking = locking and how != "replacement"
    s.mixed = None
    return s


def model_run(case, env):
    specs, init, ops = case
    rs = rsfile()
    path = env.path()
    probe = None
    if init is not None:  # else, the first stream creates the file
        with open(path, "wb") as f:
            f.write(mk(init))
        probe = os.open(path, os.O_RDWR)
        env.defer(os.close, probe)
    model = mk(init or b"")

    def content():
        return os.pread(probe, 1 << 22, 0)

    def check(what, s=None, complete=False):
        """The file is the model, plus a prefix of what the stream had to push."""
        nonlocal model
        c = content()
        if c[:len(model)] != model:
            i = next((i for i, (x, y) in enumerate(zip(c, model)) if x != y), min(len(c), len(model)))
            raise Violation("overwritten", "%s: the file has %s at offset %d instead of %s (sizes %d, %d)" % (what, short(c[i:i + 40]), i, short(model[i:i + 40]), len(c), len(model)))
        extra = c[len(model):]
        if s is None:
            if extra:
                raise Violation("unexpected", "%s: unexpected data %s at the end" % (what, short(extra)))
            return
        if s.pending[:len(extra)] != extra:
            raise Violation("appended", "%s: %s was appended instead of (a prefix of) %s" % (what, short(extra), short(s.pending)))
        if complete and extra != s.pending:
            raise Violation("incomplete", "%s: only %s was appended, out of %s" % (what, short(extra), short(s.pending)))
        if extra:
            if s.displaced:
                env.nontrivial = True
            s.displaced = False
        s.pending = s.pending[len(extra):]
        model = c

    def start(spec):
        nonlocal model, probe
        s = open_append(rs, path, spec, env)
        s.displaced = False
        if probe is None:
            probe = os.open(path, os.O_RDWR)
            env.defer(os.close, probe)
        if s.erased:
            model = b""
        check("opening")
        p = s.f.tell()
        if p != len(model):
            raise Violation("initial-position", "opening %r: tell() gives %r, the file has %d bytes" % (spec, p, len(model)))
        return s

    streams = [start(spec) for spec in specs]
    counter = [0]

    def data(n):
        counter[0] += 1
        base = b"<%d:%d\n>" % (counter[0], n) * (n // 5 + 1)
        return base[:n]

    def encoded(s, d):
        if s.layer != "text":
            return d
        nl = {None: os.linesep, "": "\n", "\n": "\n", "\r\n": "\r\n"}[s.newline]
        return d.replace(b"\n", nl.encode())

    for op in ops:
        env.steps += 1
        kind = op[0]
        what = "%r" % (op,)
        if kind == "utility":
            d = data(op[1])
            if not any(s.locking and not s.closed for s in streams):
                rs.append_to_file(path, d, locking=False) if counter[0] % 2 else rs.append_to_file(path, d.decode(), locking=False, newline="")
                model += d
            check(what)
            continue
        if kind == "x-append":
            d = data(op[1])
            os.pwrite(probe, d, len(model))
            model += d
        elif kind == "x-truncate":
            os.ftruncate(probe, op[1])
            model = (model + b"\0" * (op[1] - len(model)))[:op[1]]
        elif kind in ("x-overwrite", "rs-overwrite"):
            d = data(op[2])
            if kind == "x-overwrite":
                os.pwrite(probe, d, op[1])
            else:
                with rs.rsopen(path, "WB", 0, locking=False, thread_safe=False) as g:
                    g.seek(op[1])
                    g.write(d)
                if any(s.locking and not s.closed for s in streams):
                    pass
            if d:
                model += b"\0" * (op[1] - len(model))
                model = model[:op[1]] + d + model[op[1] + len(d):]
        if kind.startswith(("x-", "rs-")):
            for s in streams:
                s.displaced = True
            check(what)
            continue
        s = streams[op[1]]
        f = s.f
        if kind == "reopen":
            if s.closed:
                streams[op[1]] = start(s.spec)
            continue
        if s.closed:
            if kind == "write":
                if not isinstance(call(f.write, "" if s.layer == "text" else b"x"), Raised):
                    raise Violation("closed", "write() on a closed stream succeeded")
                check(what)
            continue
        text = s.layer == "text"
        # text streams (like buffered ones in the stdlib) want a seek between reads and writes
        if kind in ("write", "writelines", "truncate") and s.mixed == "r" and text:
            f.seek(f.tell())
            s.mixed = None
        if kind in ("read", "readline"):
            if not s.readable:
                if not isinstance(call(f.read, 1), Raised):
                    raise Violation("readable", "read() on a write-only stream")
                check(what, s)
                continue
            where = model
            if s.mixed != "r":
                f.flush()
                check("flush before " + what, s, True)
                f.seek(0 if text else min(len(model), 7 * op[0].__len__()))
                s.mixed = "r"
                s.displaced = True
                pos = f.tell()
                if not text:
                    r = f.read(op[2]) if kind == "read" else f.readline()
                    want = model[pos:pos + op[2]] if kind == "read" else model[pos:].split(b"\n")[0] + (b"\n" if b"\n" in model[pos:] else b"")
                    if r != want:
                        raise Violation("read", "%s at %d gave %s instead of %s" % (what, pos, short(r), short(want)))
                    check(what, s)
                    continue
            call(f.read, op[2]) if kind == "read" else call(f.readline)  # (the text may be undecodable, after foreign modifications)
            s.displaced = True
            check(what, s)
            continue
        if kind == "write":
            d = data(op[2])
            s.pending += encoded(s, d)
            if f.tell() != len(model):
                s.displaced = True
            r = f.write(d.decode() if text else d)
            if r != len(d):
                raise Violation("result", "%s gave %r" % (what, r))
            check(what, s, s.layer == "raw")
            s.mixed = "w"
        elif kind == "writelines":
            ds = [data(n) for n in op[2]]
            s.pending += b"".join(encoded(s, d) for d in ds)
            f.writelines([d.decode() for d in ds] if text else ds)
            check(what, s, s.layer == "raw")
            s.mixed = "w"
        elif kind in ("flush", "sync", "size"):
            r = getattr(f, kind)()
            had = bool(s.pending)
            check(what, s, True)
            if kind == "size" and r != len(model):
                raise Violation("size", "size() gave %r instead of %d" % (r, len(model)))
            if had and s.mixed != "r" and not text and f.tell() != len(model):
                raise Violation("position", "after %s which appended data, tell() gives %r, the file has %d bytes" % (what, f.tell(), len(model)))
            s.mixed = s.mixed if not had else None
        elif kind == "seek":
            _, _, offset, whence = op
            if text and whence:
                offset = 0
            if text and whence == 0 and offset > len(model):
                offset = 0
            s.mixed = None
            if whence == 0 and text:
                offset = 0
            r = call(f.seek, offset, whence)
            if isinstance(r, Raised):
                if text and whence == 1:
                    f.seek(0)
                else:
                    raise Violation("seek", "%s gave %r" % (what, r))
            elif whence != 1:
                check(what, s, s.layer != "raw")
                want = offset if whence == 0 else len(model) + offset
                if r != want:
                    raise Violation("seek", "%s gave %r instead of %r" % (what, r, want))
            check(what, s, True)
            if f.tell() != len(model):
                s.displaced = True
        elif kind == "tell":
            f.tell()
            check(what, s)
        elif kind == "truncate":
            f.flush()
            check("flush before " + what, s, True)
            n = op[2]
            if n is None:
                n = f.tell()
                r = f.truncate(zero_fill=op[3])
            else:
                r = f.truncate(n, zero_fill=op[3])
            if r != n:
                raise Violation("truncate", "%s gave %r instead of %r" % (what, r, n))
            model = (model + b"\0" * (n - len(model)))[:n]
            check(what, s)
            for x in streams:
                x.displaced = True
            if s.readable and not text:
                f.seek(0, 1)
        elif kind == "lock":
            r = call(f.lock_file, timeout=0)
            check(what, s, not isinstance(r, Raised))
            if not isinstance(r, Raised):
                f.unlock_file()
            elif not s.locking:
                if not any(x.locking for x in streams):
                    raise Violation("lock", "%s gave %r" % (what, r))
            check(what, s)
        elif kind == "close":
            f.close()
            check(what, s, True)
            s.closed = True
    for s in streams:
        if not s.closed:
            s.f.close()
            check("final close", s, True)
    env.label(*("layer:" + s[0] for s in specs))
    env.label(*("how:" + s[2] for s in specs))


# ------------------------------------------------------------------------------------------------ concurrent appenders

@st.composite
def concurrent_strategy(draw):
    writers = draw(st.lists(st.tuples(st.sampled_from(["raw", "flush", "flush", "line", "shared", "utility"]), st.booleans(), st.sampled_from([12, 40, 300, 5000]), st.integers(5, 60), st.sampled_from(["process", "process", "thread"]), st.integers(0, 3)), 2, 4))
    return (writers, draw(st.sampled_from([0, 10, 5000])), draw(st.lists(st.sampled_from(["overwrite", "extend", "reader", "none"]), 1, 2)), draw(st.integers(0, 1000)))


def record(w, i, size):
    head = b"[%d.%d." % (w, i)
    n = size + (i * 7 + w * 3) % 11
    return head + b"abcdefghij"[i % 10:i % 10 + 1] * max(0, n - len(head) - 2) + b"]\n"


def writer(rs, path, w, spec, shared=None):
    how, readable, size, count, _, chatter = spec
    if how == "utility":
        for i in range(count):
            rs.append_to_file(path, record(w, i, size), locking=bool(chatter))
        return
    if how == "shared":
        f = shared
    else:
        kw = dict(locking=False, thread_safe=False)
        m = ("R" if readable else "") + "A"
        f = rs.rsopen(path, m, encoding="ascii", newline="\n", buffering=1, **kw) if how == "line" else rs.rsopen(path, m + "B", 0 if how == "raw" else 8192, **kw)
    for i in range(count):
        d = record(w, i, size)
        if chatter and i % (chatter + 1) == 0 and how != "shared":
            f.seek(0)
            if readable:
                f.read(5)
                f.seek(0)
        if how == "shared":
            with f.mutex:
                f.write(d)
                f.flush()
        else:
            f.write(d.decode() if how == "line" else d)
            if how == "flush":
                f.flush()
    if how != "shared":
        f.close()


def concurrent_run(case, env):
    writers, init, noise, seed = case
    rs = rsfile()
    path = env.path()
    base = b"#" * init + b"\n"
    with open(path, "wb") as f:
        f.write(base)
    shared = rs.rsopen(path, "AB", locking=False, thread_safe=True)
    env.defer(shared.close)
    done_r, done_w = os.pipe()
    gate_r, gate_w = os.pipe()
    pids = []
    for w, spec in enumerate(writers):
        if spec[4] == "process" and spec[0] != "shared":
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    from core import set_pdeathsig
                    import signal

                    set_pdeathsig()
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(25)
                    os.close(gate_w)
                    os.read(gate_r, 1)
                    writer(rs, path, w, spec)
                    code = 0
                except BaseException:
                    import traceback

                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids.append((pid, w))
    errors = []

    def guarded(*a):
        try:
            start.wait(20)
            writer(*a)
        except Exception as e:
            errors.append(Raised(e))

    start = threading.Event()
    threads = [threading.Thread(target=guarded, args=(rs, path, w, spec, shared), daemon=True) for w, spec in enumerate(writers) if not (spec[4] == "process" and spec[0] != "shared")]
    for t in threads:
        t.start()
    stop = threading.Event()

    def noisy():
        try:
            with rs.rsopen(path, "RWB", 0, locking=False, thread_safe=False) as g:
                i = 0
                while not stop.is_set() and i < 400:
                    for k in noise:
                        if k == "overwrite" and init:
                            g.seek(i % init)
                            g.write(b"#")
                        elif k == "reader":
                            g.seek(i)
                            g.read(100)
                            g.size()
                        elif k == "extend":
                            g.seek(0, 2)
                            g.tell()
                    i += 1
                    time.sleep(0)
        except Exception as e:
            errors.append(Raised(e))

    noise_thread = threading.Thread(target=noisy, daemon=True)
    noise_thread.start()
    start.set()
    os.close(gate_w)  # releases all processes
    os.close(gate_r)
    bad = []
    for pid, w in pids:
        _, status = os.waitpid(pid, 0)
        if status:
            bad.append((w, status))
    for t in threads:
        t.join(25)
        if t.is_alive():
            raise HarnessError("a writer thread is stuck")
    stop.set()
    noise_thread.join(20)
    os.close(done_r), os.close(done_w)
    shared.close()
    if bad or errors:
        raise Violation("failed", "writers failed: %r %r" % (bad, errors))
    c = read_file(path, 1 << 26)
    if c[:len(base)] != base:
        raise Violation("overwritten", "the initial content became %s" % short(c[:len(base)]))
    pos = len(base)
    nxt = [0] * len(writers)
    switches, last = 0, None
    while pos < len(c):
        end = c.find(b"\n", pos)
        line = c[pos:end + 1] if end >= 0 else c[pos:]
        try:
            w, i = map(int, line[1:].split(b".")[:2])
            ok = line == record(w, i, writers[w][2])
        except (ValueError, IndexError):
            ok = False
        if not ok:
            raise Violation("torn", "at offset %d there is %s, which isn't a whole record" % (pos, short(line)))
        if i != nxt[w]:
            raise Violation("order", "record %d of writer %d found instead of %d" % (i, w, nxt[w]))
        nxt[w] += 1
        switches += last is not None and last != w
        last = w
        pos += len(line)
    want = [spec[3] for spec in writers]
    if nxt != want:
        raise Violation("lost", "records found per writer: %r, written: %r" % (nxt, want))
    env.nontrivial = switches >= 2
    env.steps += sum(want)
    env.label("switches:%d" % min(3, switches), *("writer:%s/%s" % (s[0], s[4]) for s in writers))


def setup():
    rsfile()
    warnings.simplefilter("ignore")


PARTS = [Part("model", model_strategy, model_run, quick=30000, thorough=250000, setup=setup), Part("concurrent", concurrent_strategy, concurrent_run, quick=1200, thorough=10000, setup=setup, deterministic=False)]
