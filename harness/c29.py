"""C29: what is read under a lock is up to date, and read-modify-write sequences under locks never lose updates."""
import os
import threading
import time

import gen as st
from core import Part, Violation
from procs import Remote
from streams import Raised, call, rsfile, short

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated histories of several streams of a file (any layer, encoding and buffer size) and of foreign modifications against a model of the shared content; "
             "concurrent read-modify-write loops of threads and processes whose total must be exact")
RULE = ("'histories': cases are sequences of unlocked reads (filling read-ahead buffers, results not compared), foreign modifications of unlocked ranges, lock acquisitions and releases, and operations inside locked "
        "ranges, all compared with the model. 'counters': cases are configurations of processes and threads incrementing numbers stored in the file, under a lock each time; the sums must be exact. "
        "Non-trivial: a locked read without seek since another party modified the file; a counter case with at least two parties sharing a slot.")
ASSUMPTIONS = ["Every party follows the locking protocol (modifications only under an exclusive lock of the range, or while nobody locks it)."]

SIZE = 60  # units (characters or bytes)


@st.composite
def strategy(draw):
    width_enc = draw(st.sampled_from([1, 1, 1, 2, 4]))
    streams = draw(st.lists(st.tuples(st.sampled_from(["raw", "buffered", "buffered", "text", "text"]), st.sampled_from([None, None, 1, 3, 7, 16, 40]), st.booleans(), st.sampled_from(["RW", "RW", "RW", "R"])), 1, 3))
    n = len(streams)
    k = st.integers(0, n - 1)
    pos = st.integers(0, SIZE + 5)
    length = st.integers(1, 25)
    t, j = st.tuples, st.just
    op = st.weighted((4, t(j("peek"), k, pos, st.sampled_from(["read", "readline", "readall", "next"]), length)), (4, t(j("foreign"), pos, length)),
                     (6, t(j("lock"), k, st.weighted((1, j(None)), (1, pos)), st.weighted((2, j(None)), (3, length)), st.booleans(), st.sampled_from([0, 0, 0, 1]))),
                     (3, t(j("unlock"), st.integers(0, 3), st.sampled_from(["with", "unlock"]))),
                     (6, t(j("read"), st.integers(0, 3), st.integers(0, 24), st.integers(1, 25), st.sampled_from(["read", "read", "read1", "readinto", "chars"]), st.sampled_from([True, True, False]))),
                     (5, t(j("write"), st.integers(0, 3), st.integers(0, 24), length, st.booleans())), (1, t(j("truncate"), st.integers(0, 3), pos)), (1, t(j("size"), st.integers(0, 3))),
                     (2, t(j("sequential"), st.integers(0, 3), st.sampled_from([1, 2, 5]))))
    # the typical danger, which independent operations rarely form: read in advance, changed by somebody else, then locked and read on
    story = t(k, pos, st.sampled_from(["read", "readline", "read"]), st.integers(1, 12), st.integers(-3, 20), length, st.weighted((2, j(None)), (1, pos)), st.weighted((2, j(None)), (1, length)),
              st.booleans(), st.integers(0, 24), st.integers(1, 25), st.sampled_from(["read", "read", "read1", "readinto", "chars"]), st.sampled_from([True, True, False]), st.sampled_from(["with", "unlock"]))
    ops = []
    for item in draw(st.lists(st.weighted((2, t(j("op"), op)), (1, t(j("story"), story))), 3, 20)):
        if item[0] == "op":
            ops.append(item[1])
        else:
            i, p, how, n, delta, m, lp, ln, shared, ro, rn, rhow, seq, end = item[1]
            ops += [("peek", i, p, how, n), ("foreign", max(0, p + delta), m), ("lock", i, lp, ln, shared, 0), ("read", -1, ro, rn, rhow, seq)]
            if delta % 3:
                ops.append(("write", -1, ro, rn, seq))
            if m % 4:
                ops.append(("unlock", -1, end))
    return (width_enc, tuple(streams), ops)


class Stream(object):
    def __init__(self, f, layer, width, writable):
        self.f, self.layer, self.width, self.writable = f, layer, width, writable
        self.text = layer == "text"
        self.stale = False  # somebody else changed the file since this stream last read it
        self.iterating = False

    def seek(self, pos):
        self.stale = False
        return self.f.seek(pos * self.width)

    def tell(self):
        return self.f.tell()


def run(case, env):
    width, specs, ops = case
    rs = rsfile()
    encoding = {1: "latin-1", 2: "utf-16-le", 4: "utf-32-be"}[width]
    path = env.path("f")
    counter = [0]

    def units(n):
        counter[0] += 1
        s = ("%d,\n" % counter[0]) * n
        return s[:n].encode(encoding)

    model = bytearray(units(SIZE))
    with open(path, "wb") as g:
        g.write(model)
    probe = os.open(path, os.O_RDWR)  # kept open: closing it would drop the locks of the process
    streams = []
    for layer, buf, ts, access in specs:
        kw = dict(thread_safe=ts, locking=False)
        if layer == "raw":
            kw["buffering"] = 0
        elif buf is not None and (buf != 1):
            kw["buffering"] = buf
        if layer == "text":
            kw.update(encoding=encoding, newline="\n")
        f = rs.rsopen(path, access + ("T" if layer == "text" else "B"), **kw)
        streams.append(Stream(f, layer, width, "W" in access))
    locks = []  # (stream, start, end or None, shared, context)

    def overlaps(s1, e1, s2, e2):
        return (e2 is None or s1 < e2) and (e1 is None or s2 < e1)

    def disk():
        n = os.fstat(probe).st_size
        return os.pread(probe, n + 1, 0)

    def say(text):
        return "%s; streams %r, after %r" % (text, specs, done)

    done = []
    try:
        for op in ops:
            env.steps += 1
            kind = op[0]
            done.append(op)
            if kind == "peek":
                s = streams[op[1]]
                if any(l[0] is s for l in locks):
                    continue
                s.seek(op[2])
                if op[3] == "read":
                    call(s.f.read, op[4])
                elif op[3] == "readline":
                    call(s.f.readline)
                elif op[3] == "next":
                    call(next, s.f, None)
                    if s.text:
                        s.seek(op[2])
                        call(s.f.read, 1)
                else:
                    call(s.f.read) if s.layer != "raw" else call(s.f.readall)
            elif kind == "foreign":
                start, n = op[1], op[2]
                start = min(start, len(model) // width)
                if any(overlaps(start, start + n, a, b) for _, a, b, _, _ in locks):
                    continue
                d = units(n)
                os.pwrite(probe, d, start * width)
                model[start * width:start * width + len(d)] = d
                for s in streams:
                    s.stale = True
            elif kind == "lock":
                s = streams[op[1]]
                start, n, shared = op[2], op[3], op[4] or not s.writable
                if start is None:  # from the current position
                    start = s.tell() // width
                end = None if n is None else start + n
                if any(overlaps(start, end, l[1], l[2]) and (l[0] is s or not (shared and l[3])) for l in locks):
                    continue
                before = s.tell()
                off = start * width
                kw = dict(length=None if n is None else n * width, offset=off, shared=shared, timeout=0)
                if op[5] and not s.text:
                    kw.update(offset=off - before, whence=1)
                r = call(s.f.lock_file, **kw)
                if isinstance(r, Raised):
                    raise Violation("lock", say("lock_file(%r) raised %r" % (kw, r)))
                if s.tell() != before:
                    raise Violation("position", say("lock_file() moved the position from %d to %d" % (before, s.tell())))
                locks.append((s, start, end, shared, r))
            elif not locks:
                continue
            elif kind == "unlock":
                l = locks.pop(op[1] % len(locks))
                if op[2] == "with":
                    with l[4]:
                        pass
                else:
                    l[0].f.unlock_file(length=None if l[2] is None else (l[2] - l[1]) * width, offset=l[1] * width)
                part = slice(l[1] * width, None if l[2] is None else l[2] * width)
                d, want = disk()[part], bytes(model)[part]
                if d != want:
                    raise Violation("content", say("after the unlock the range contains %s instead of %s" % (short(d), short(want))))
            else:
                l = locks[op[1] % len(locks)]
                s, start, end, shared = l[:4]
                if kind == "read":
                    pos = start + op[2]
                    n = op[3]
                    if end is not None:
                        if pos >= end:
                            continue
                        n = min(n, end - pos)
                    if op[5]:  # from where the stream is, as when reading sequentially
                        here = s.tell()
                        if here % width or not (start <= here // width and (end is None or here // width + n <= end)):
                            s.seek(pos)
                        else:
                            pos = here // width
                    else:
                        s.seek(pos)
                    want = bytes(model[pos * width:(pos + n) * width])
                    how = op[4]
                    if how == "read1" and s.layer == "buffered":
                        d = s.f.read1(n * width)
                        ok = want.startswith(d) and (d or not want)
                    elif how == "readinto" and not s.text:
                        b = bytearray(n * width)
                        k = s.f.readinto(b)
                        d = bytes(b[:k])
                        ok = d == want
                    elif s.text:
                        d = s.f.read(n) if how != "chars" else "".join(s.f.read(1) for _ in range(n))
                        d = d.encode(encoding)
                        ok = d == want
                    else:
                        d = s.f.read(n * width)
                        ok = d == want
                    if not ok:
                        raise Violation("stale", say("stream %d (%s) reads %s at %d in its locked range, instead of %s" % (streams.index(s), s.layer, short(d), pos, short(want))))
                    if s.stale and want:
                        env.nontrivial = True
                        env.label("fresh:" + s.layer)
                    s.stale = False
                elif kind == "write":
                    if shared:
                        continue
                    pos = start + op[2]
                    n = op[3]
                    if end is not None:
                        if pos >= end:
                            continue
                        n = min(n, end - pos)
                    if end is not None or start > len(model) // width:  # others might see the end of file moving
                        n = min(n, len(model) // width - pos)
                        if n <= 0:
                            continue
                    if op[4]:
                        here = s.tell()
                        if here % width or not (start <= here // width and here // width + n <= (len(model) // width if end is None else min(end, len(model) // width))):
                            s.seek(pos)
                        else:
                            pos = here // width
                            s.seek(pos)
                    else:
                        s.seek(pos)
                    d = units(n)
                    s.f.write(d.decode(encoding) if s.text else d)
                    if len(model) < pos * width:
                        model.extend(b"\0" * (pos * width - len(model)))
                    model[pos * width:(pos + n) * width] = d
                    for o in streams:
                        if o is not s:
                            o.stale = True
                elif kind == "truncate":
                    if shared or end is not None or start or any(m[0] is not s for m in locks):
                        continue
                    s.f.truncate(op[2] * width)
                    s.seek(0)  # data read in advance isn't dropped by one's own truncation, as in the standard library
                    n = op[2] * width
                    if len(model) < n:
                        model.extend(b"\0" * (n - len(model)))
                    del model[n:]
                    for o in streams:
                        if o is not s:
                            o.stale = True
                elif kind == "size":
                    if end is None:
                        z = s.f.size()
                        if z != len(model) and not any(m[0] is not s for m in locks):
                            raise Violation("size", say("size() is %d under lock, instead of %d" % (z, len(model))))
                elif kind == "sequential":  # small reads in a row
                    pos = start
                    total = len(model) // width
                    last = total if end is None else min(end, total)
                    s.seek(pos)
                    while pos < last:
                        k = min(op[2], last - pos)
                        d = s.f.read(k if s.text else k * width)
                        d = d.encode(encoding) if s.text else d
                        want = bytes(model[pos * width:(pos + k) * width])
                        if d != want:
                            raise Violation("stale", say("stream %d (%s) reads %s at %d in its locked range, instead of %s" % (streams.index(s), s.layer, short(d), pos, short(want))))
                        pos += k
    finally:
        for s in streams:
            s.f.close()
        os.close(probe)
    with open(path, "rb") as g:
        d = g.read()
    if d != bytes(model):
        raise Violation("content", say("finally the file contains %s instead of %s" % (short(d), short(bytes(model)))))


# ------------------------------------------------------------ concurrent counters

DIGITS = 6


def increment_loop(rs, path, spec, rounds, nslots, seed, out):
    layer, buf, ts, style = spec
    import random

    rnd = random.Random(seed)
    text = layer == "text"
    kw = dict(thread_safe=ts)
    if layer == "raw":
        kw["buffering"] = 0
    elif buf is not None and buf != 1:
        kw["buffering"] = buf
    if text:
        kw.update(encoding="ascii", newline="\n")
    mode = "RW" + ("T" if text else "B")
    done = [0] * nslots
    f = None if style == "open" else rs.rsopen(path, mode, locking=False, **kw)

    def bump(f, k):
        f.seek(k * DIGITS)
        v = int(f.read(DIGITS))
        if rnd.random() < 0.3:
            time.sleep(0)
        f.seek(k * DIGITS)
        d = "%0*d" % (DIGITS, v + 1)
        n = f.write(d if text else d.encode())
        done[k] += 1

    for i in range(rounds):
        k = rnd.randrange(nslots)
        if style == "open":
            with rs.rsopen(path, mode, **kw) as g:
                bump(g, k)
        elif style == "whole":
            with f.lock_file():
                bump(f, k)
        elif style == "slot":
            with f.lock_file(length=DIGITS, offset=k * DIGITS):
                bump(f, k)
        elif style == "unlock":
            f.lock_file(length=DIGITS, offset=k * DIGITS)
            bump(f, k)
            f.unlock_file(length=DIGITS, offset=k * DIGITS)
        elif style == "timeout":
            while True:
                try:
                    c = f.lock_file(timeout=rnd.choice([0, 0.01, 1]), length=DIGITS, offset=k * DIGITS)
                    break
                except rs.LockingException:
                    time.sleep(0.001)
            with c:
                bump(f, k)
        elif style == "inherit":  # another stream around a duplicate descriptor comes and goes
            with f.lock_file(length=DIGITS, offset=k * DIGITS):
                g = rs.rsopen(mode="RB", fileno=os.dup(f.fileno()), buffering=0, locking=False)
                g.close()
                bump(f, k)
    if f is not None:
        f.close()
    out.append(done)


def party(rs, path, specs, rounds, nslots, seed):
    """Several threads of this process."""
    out, errors = [], []

    def go(spec, s):
        try:
            increment_loop(rs, path, spec, rounds, nslots, s, out)
        except BaseException as e:
            import traceback

            errors.append("%s" % traceback.format_exc()[-900:])

    threads = [threading.Thread(target=go, args=(spec, "%s/%d" % (seed, i)), daemon=True) for i, spec in enumerate(specs)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(60)
        if t.is_alive():
            errors.append("a thread is stuck")
    return out, errors


def _handler():
    rs = rsfile()
    rs.set_rsfile_options(default_spinlock_delay=0.002)

    def handle(req):
        return party(rs, *req)

    return handle


_remotes = []


def setup():
    rsfile()
    while len(_remotes) < 2:
        _remotes.append(Remote(_handler))


STYLE = st.sampled_from(["slot", "slot", "whole", "unlock", "timeout", "open", "open", "inherit"])
SPEC = st.tuples(st.sampled_from(["raw", "buffered", "buffered", "text"]), st.sampled_from([None, None, 1, 5, 12, 100]), st.booleans(), STYLE)


@st.composite
def counter_strategy(draw):
    return (draw(st.integers(1, 3)), tuple(draw(st.lists(SPEC, 1, 3))), tuple(draw(st.lists(SPEC, 0, 2))), tuple(draw(st.lists(SPEC, 0, 1))), draw(st.integers(2, 12)), draw(st.integers(0, 10 ** 6)))


def counter_run(case, env):
    nslots, mine, second, third, rounds, seed = case
    rs = rsfile()
    rs.set_rsfile_options(default_spinlock_delay=0.002)
    env.defer(lambda: rs.set_rsfile_options(default_spinlock_delay=0.1))
    setup()
    path = env.path("f")
    with open(path, "wb") as g:
        g.write(b"0" * DIGITS * nslots)
    used = []
    for remote, specs in zip(_remotes, (second, third)):
        if specs:
            remote.send((path, specs, rounds, nslots, "%d.%d" % (seed, len(used))))
            used.append(remote)
    results = [party(rs, path, mine, rounds, nslots, "%d.main" % seed)]
    results += [r.recv() for r in used]
    env.steps += rounds * (len(mine) + len(second) + len(third))
    errors = [e for r in results for e in r[1]]
    if errors:
        raise Violation("error", errors[0])
    total = [sum(d[k] for r in results for d in r[0]) for k in range(nslots)]
    with open(path, "rb") as g:
        c = g.read()
    if len(c) != DIGITS * nslots:
        raise Violation("content", "the file has %d bytes: %s" % (len(c), short(c)))
    got = [int(c[k * DIGITS:(k + 1) * DIGITS]) for k in range(nslots)]
    if got != total:
        raise Violation("lost-update", "increments made under locks: %r, final values: %r" % (total, got))
    env.nontrivial = len(mine) + len(second) + len(third) > 1
    env.label("parties:%d" % (len(mine) + len(second) + len(third)), "processes:%d" % (1 + len(used)))


PARTS = [Part("histories", strategy, run, quick=60000, thorough=600000),
         Part("counters", counter_strategy, counter_run, quick=1800, thorough=20000, deterministic=False, setup=setup, hang=90)]
