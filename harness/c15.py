"""C15: truncate() sets exactly the requested size on every layer (model-based, with 'native extension unsupported' faults)."""
import errno
import os

import gen as st
import syscalls
from core import Part, Violation
from streams import Raised, call, mk, read_file, rsfile, short

syscalls.install()

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated histories of pending writes/reads/seeks followed by truncations, against a byte-array model of the file"
RULE = ("Cases are (layer, buffer size, thread_safe, initial content, list of steps) where steps are writes (left pending), reads, seeks and truncations "
        "with generated sizes (0 to beyond 4 GiB) and argument styles; after each truncation the file bytes and size read through another descriptor, the "
        "returned value and tell() are compared with the model. Non-trivial: a truncation that changed the size of a file, with data pending or a non-null "
        "position.")
ASSUMPTIONS = ["/dev/shm and the temporary directory support sparse files beyond 4 GiB."]

B31, B32 = 1 << 31, 1 << 32


def data():
    return st.one_of(st.binary(max_size=12), st.tuples(st.just("P"), st.just("b"), st.integers(0, 3000), st.sampled_from([1, 7, 60, 300, 4096, 8193, 20000])))


def sizes():
    return st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(0, 9000),
                     st.sampled_from([0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 24576, B31 - 1, B31, B32 - 1, B32, B32 + 1, B32 + 9000, 3 * B32]),
                     st.tuples(st.sampled_from(["cur", "size"]), st.sampled_from([0, 0, 1, -1, 5, -5, 8192, 100])))


STYLES = ["plain", "kw", "zf_true", "zf_false", "zf_pos_true", "zf_pos_false", "none", "none_kw", "none_zf_false", "none_zf_true"]


def steps():
    t, j = st.tuples, st.just
    return st.lists(st.weighted(
        (5, t(j("trunc"), sizes(), st.sampled_from(STYLES))),
        (3, t(j("write"), data())),
        (2, t(j("read"), st.one_of(st.integers(0, 30), st.sampled_from([4096, 8193])))),
        (3, t(j("seek"), st.one_of(st.integers(0, 40), st.integers(0, 9000), st.sampled_from([B31, B32 + 3])))),
        (1, t(j("bad"), st.integers(-40, -1), st.sampled_from(STYLES[:6]))),
        (1, t(j("bad"), j(-B32), st.sampled_from(STYLES[:6]))),
        (1, t(j("flush"))),
    ), 1, 14)


STEPS = steps()


@st.composite
def strategy(draw):
    layer = draw(st.sampled_from(["raw", "buffered", "buffered", "text"]))
    access = draw(st.sampled_from(["RW", "RW", "W", "RA", "A", "R"]))
    buf = draw(st.sampled_from([None, -1, 2, 3, 7, 16, 64, 4096, 8192])) if layer != "raw" else 0
    return (layer, access, buf, draw(st.booleans()), draw(st.booleans()), draw(st.booleans()), draw(data()), draw(STEPS), draw(st.integers(0, 3)),
            draw(st.integers(0, 5)))


def ascii_of(b):
    return bytes(97 + (c % 26) for c in b)


def run(case, env):
    layer, access, buf, ts, locking, wrap, init, oplist, fin, chunks = case
    rs = rsfile()
    path = env.path("t")
    init = mk(init)
    if layer == "text":
        init = ascii_of(init)
    with open(path, "wb") as f:
        f.write(init)
    mode = access + ("N" if chunks % 2 else "") + ("T" if layer == "text" else "B")
    kw = {} if buf is None else dict(buffering=buf)
    if layer == "text":
        kw.update(encoding="ascii", newline="")
        if buf == 2:
            kw["buffering"] = 1
    f = rs.rsopen(path, mode, thread_safe=ts, locking=locking, **kw)
    env.defer(f.close)
    # "sparse model": (size, bytearray of the low part up to LIM)
    content = bytearray(init)
    size = len(init)
    pos = len(init) if "A" in access else 0
    LIM = 1 << 18
    interesting = False
    pending = False
    readable, writable, append = "R" in access, access != "R", "A" in access

    def check(what):
        if os.stat(path).st_size != size:
            raise Violation("size", "%s: file size is %d instead of %d" % (what, os.stat(path).st_size, size))
        fd = os.open(path, os.O_RDONLY)
        try:
            for start in sorted(set([0, max(0, size - 20000)] + [p for p in hot])):
                got = os.pread(fd, 70000, start)
                exp = expected(start, start + 70000)
                if got != exp:
                    i = next((k for k in range(min(len(got), len(exp))) if got[k] != exp[k]), min(len(got), len(exp)))
                    raise Violation("content", "%s: file content differs from offset %d: %s instead of %s" % (what, start + i, short(got[i:i + 20]), short(exp[i:i + 20])))
        finally:
            os.close(fd)

    far = {}  # offset -> byte written far away
    hot = set()

    def expected(a, b):
        b = min(b, size)
        if b <= a:
            return b""
        out = bytearray(b - a)
        low = bytes(content[a:min(b, len(content))])
        out[:len(low)] = low
        for o, c in far.items():
            if a <= o < b:
                out[o - a] = c
        return bytes(out)

    def put(at, d):
        nonlocal size
        if at + len(d) <= LIM:
            if len(content) < at:
                content.extend(b"\0" * (at - len(content)))
            content[at:at + len(d)] = d
        else:
            for k, c in enumerate(d):
                far[at + k] = c
            hot.add(at)
        size = max(size, at + len(d)) if d else size

    def cut(n):
        nonlocal size
        if n < len(content):
            del content[n:]
        for o in list(far):
            if o >= n:
                del far[o]
        size = n

    for op in oplist:
        env.steps += 1
        kind = op[0]
        if kind == "write":
            d = mk(op[1])
            if layer == "text":
                d = ascii_of(d)
            if not writable:
                continue
            if append and layer != "raw":
                f.flush()
                pos = size  # buffered data will go to the end anyway; keep the model simple
                f.seek(0, 2)
            r = call(f.write, d.decode("ascii") if layer == "text" else d)
            if isinstance(r, Raised):
                raise Violation("write", "write failed: %r" % r)
            if d or layer != "raw":
                if append:
                    pos = size
            if d:
                put(pos, d)
                pos += len(d)
            elif append and layer == "raw":
                pos = f.tell()
            pending = pending or layer != "raw" and bool(d)
        elif kind == "read":
            if not readable:
                continue
            if size > LIM:
                f.seek(0)
                pos = 0
            r = call(f.read, op[1])
            if isinstance(r, Raised):
                raise Violation("read", "read failed: %r" % r)
            exp = expected(pos, pos + op[1])
            if layer == "text":
                r = r.encode("ascii", "replace") if r else b""
            if r != exp:
                raise Violation("read", "read(%d) at %d gave %s instead of %s" % (op[1], pos, short(r), short(exp)))
            pos += len(r)
            if layer == "text":
                f.seek(f.tell())  # text streams need it between reads and writes
        elif kind == "seek":
            pos = op[1]
            f.seek(pos)
            pending = False
        elif kind == "flush":
            f.flush()
            pending = False
        elif kind == "bad":
            if layer == "text":
                pass
            before = call(f.tell)
            r = do_truncate(f, op[1], op[2])
            if not isinstance(r, Raised):
                raise Violation("negative", "truncate(%d) was accepted, returned %r" % (op[1], r))
            if not r.families & {"OSError", "ValueError"}:
                raise Violation("negative", "truncate(%d) raised %r" % (op[1], r))
            after = call(f.tell)
            if before != after:
                raise Violation("negative", "refused truncate() moved the stream from %r to %r" % (before, after))
            if writable:
                call(f.flush)
                check("after a refused truncate(%d)" % op[1])
        else:
            n, style = op[1], op[2]
            if isinstance(n, tuple):
                n = max(0, (pos if n[0] == "cur" else size) + n[1])
            if style.startswith("none"):
                n = pos
            if layer == "text" and style.startswith("none") and "zf" in style:
                pass
            if not writable:
                r = do_truncate(f, n, style)
                if not isinstance(r, Raised) or not r.families & {"OSError", "ValueError"}:
                    raise Violation("readonly", "truncate() on a read-only stream gave %r" % (r,))
                check("read-only truncate")
                continue
            old = size
            r = do_truncate(f, n, style)
            if isinstance(r, Raised):
                raise Violation("refused", "truncate(%r) [%s] raised %r (position %d, size %d)" % (n, style, r, pos, size))
            if n <= size:
                cut(n)
            else:
                size = n
                hot.add(max(0, n - 10))
                hot.add(old)
            if r != n:
                raise Violation("result", "truncate(%r) [%s] returned %r" % (n, style, r))
            check("after truncate(%r) [%s] from size %d" % (n, style, old))
            p = f.tell()
            if p != pos:
                raise Violation("position", "truncate(%r) [%s] moved the stream from %d to %r" % (n, style, pos, p))
            if old != n and (pending or pos):
                interesting = True
            env.label("grow" if n > old else "shrink" if n < old else "same")
            if n > B31:
                env.label("huge")
            pending = False
            # the buffered layers of the stdlib keep stale read-ahead data after a truncation: resynchronise
            f.seek(pos)
    f.close()
    check("after close")
    for style in STYLES[:3]:
        r = do_truncate(f, 1, style)
        if not isinstance(r, Raised) or "ValueError" not in r.families:
            raise Violation("closed", "truncate() on a closed stream gave %r" % (r,))
    check("after truncate() on the closed stream")
    env.label("layer:" + layer, "access:" + access)
    env.nontrivial = interesting


def do_truncate(f, n, style):
    if style == "plain":
        return call(f.truncate, n)
    if style == "kw":
        return call(f.truncate, size=n)
    if style == "zf_true":
        return call(f.truncate, n, zero_fill=True)
    if style == "zf_false":
        return call(f.truncate, n, zero_fill=False)
    if style == "zf_pos_true":
        return call(f.truncate, n, True)
    if style == "zf_pos_false":
        return call(f.truncate, n, False)
    if style == "none":
        return call(f.truncate)
    if style == "none_kw":
        return call(f.truncate, None)
    if style == "none_zf_false":
        return call(f.truncate, zero_fill=False)
    return call(f.truncate, zero_fill=True)


# ------------------------------------------------------------ part "fallback": the native call doesn't extend files


@st.composite
def fallback_strategy(draw):
    return (draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.sampled_from(["RW", "W", "RA"])), draw(st.booleans()), draw(data()), draw(st.integers(0, 60)),
            draw(st.one_of(st.integers(0, 100), st.sampled_from([8191, 8192, 8193, 16384, 20000, 40960]))), draw(st.sampled_from([1 << 30, 1, 1000, 8191])))


def fallback_run(case, env):
    """Where ftruncate() can't extend files (POSIX allows that), rsfile writes the zeros by itself."""
    layer, access, ts, init, pos, extra, limit = case
    rs = rsfile()
    path = env.path("t")
    init = ascii_of(mk(init))
    with open(path, "wb") as f:
        f.write(init)
    kw = dict(buffering=0) if layer == "raw" else {}
    f = rs.rsopen(path, access + ("T" if layer == "text" else "B"), thread_safe=ts, **kw)
    env.defer(f.close)
    size = len(init) + extra
    f.seek(pos)

    def before(name, args):
        if name == "ftruncate" and args[1] > os.fstat(args[0]).st_size:
            return syscalls.Override(None)
        if name == "write" and len(args[1]) > limit:
            return syscalls.Override(syscalls.REAL["write"](args[0], bytes(args[1])[:limit]))

    with syscalls.hooks(before):
        r = call(f.truncate, size)
    if r != size:
        raise Violation("fallback", "truncate(%d) gave %r where ftruncate() doesn't extend" % (size, r))
    if read_file(path) != init + b"\0" * extra:
        raise Violation("fallback", "wrong content after truncate(%d) where ftruncate() doesn't extend" % size)
    if f.tell() != pos:
        raise Violation("fallback", "position moved from %d to %r" % (pos, f.tell()))
    env.nontrivial = extra > 0


PARTS = [Part("model", strategy, run, quick=42000, thorough=400000),
         Part("fallback", fallback_strategy, fallback_run, quick=1800, thorough=20000)]
