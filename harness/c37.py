"""C37: buffers hold back at most their size, and spare the system calls they exist to spare."""
import os
import warnings

import gen as st
from core import Part, Violation
from streams import Raised, call, read_file, rsfile

ID = "C37"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated phases of small and big reads and writes through streams of all layers and buffer sizes, with the content of the file and the offset of the descriptor "
             "observed after each call, and the system calls counted by the kernel for each phase")
RULE = ("Cases are (layer, buffering, opening options, phases); a phase writes or reads sequentially from a position, in pieces of generated sizes and kinds. After each call the file must contain all "
        "that was written but the last bytes, at most the buffer size (none for raw streams, and after a line for line-buffered ones), and the descriptor must be at most one buffer ahead of the "
        "reader. After each phase the kernel's counts of read and write calls must be at most what the buffer size implies. Non-trivial: a phase of at least 4 pieces smaller than the buffer, of a buffered stream.")
ASSUMPTIONS = ["System calls are those counted by /proc/self/io (not compared where it is missing).", "Text layers may hold back or read in advance one more chunk of 8192 bytes."]

CHUNK = 8192
KB = {"raw": 0}


def sizes():
    return st.weighted((6, st.integers(0, 12)), (2, st.integers(0, 90)), (2, st.sampled_from([100, 127, 128, 129, 500, 1000])), (1, st.sampled_from([4095, 4096, 4097, 8191, 8192, 8193, 10000, 20000])))


def piece(write):
    if write:
        return st.tuples(st.sampled_from(["write", "write", "write", "write", "writelines", "line", "print", "tell", "flush"]), sizes())
    return st.tuples(st.sampled_from(["read", "read", "read", "readline", "next", "readinto", "read1", "peek", "tell"]), sizes())


PHASE = st.weighted((4, st.tuples(st.just("w"), st.integers(0, 3), st.lists(piece(True), 1, 40))), (4, st.tuples(st.just("r"), st.integers(0, 3), st.lists(piece(False), 1, 40))))
OPTIONS = st.tuples(st.sampled_from(["RW", "RW", "RA", "R", "W", "A"]), st.booleans(), st.booleans(), st.sampled_from(["path", "path", "fileno"]))


def strategy():
    return st.tuples(st.weighted((1, st.just("raw")), (4, st.just("buffered")), (3, st.just("text")), (1, st.just("line"))), st.one_of(st.just(-1), st.just(None), st.integers(2, 40), st.integers(2, 300), st.sampled_from([4096, 8192, 16384, 30000])),
                     OPTIONS, st.integers(0, 40), st.lists(PHASE, 1, 4), st.booleans())


class Counter(object):
    """Read and write calls of the process, according to the kernel."""

    def __init__(self):
        try:
            self.fd = os.open("/proc/self/io", os.O_RDONLY)
        except OSError:
            self.fd = None

    def get(self):
        if self.fd is None:
            return None
        d = dict(l.split(b": ") for l in os.pread(self.fd, 1000, 0).splitlines())
        return int(d[b"syscr"]), int(d[b"syscw"])

    def close(self):
        if self.fd is not None:
            os.close(self.fd)


def warmup():
    rs = rsfile()
    for kw in (dict(mode="RNT", encoding="latin-1"), dict(mode="RNB")):
        with rs.rsopen("/dev/null", **kw) as f:
            f.read(1)


def run(case, env):
    try:
        attempt(case, env, "a")
    except Violation as e:
        if e.key != "calls":
            raise
        attempt(case, env, "b")  # something else in the process might have read files (imports...)


def attempt(case, env, tag):
    layer, buffering, (access, ts, locking, origin), lines, phases, zero = case
    rs = rsfile()
    path = env.path(tag)
    content = bytearray()
    for i in range(lines * 30):
        content += b"%x" % (i * 7919) * (i % 5) + b"\n"
    if "R" in access and lines > 30:
        content += b"<end>" * 4000
    with open(path, "wb") as f:
        f.write(content)
    append = "A" in access
    text = layer in ("text", "line")
    kw = dict(buffering={"raw": 0, "line": 1}.get(layer, buffering), locking=locking, thread_safe=ts)
    if text:
        kw.update(encoding="latin-1", newline="\n")
    mode = access + ("T" if text else "B")
    block = os.stat(path).st_blksize
    if layer == "raw":
        low = high = 0
    elif layer == "line" or buffering in (-1, None):
        low, high = min(8192, block), max(8192, block)
    else:
        low = high = buffering
    high += CHUNK if text else 0
    fd = os.open(path, os.O_RDWR)
    env.defer(os.close, fd)
    if origin == "fileno":
        own = os.open(path, {"R": os.O_RDONLY, "W": os.O_WRONLY, "A": os.O_WRONLY}.get(access, os.O_RDWR) | (os.O_APPEND if append else 0))
        f = rs.rsopen(fileno=own, mode=mode, **kw)
    else:
        f = rs.rsopen(path, mode, **kw)
    env.defer(call, f.close)
    counter = Counter()
    env.defer(counter.close)

    def now():
        size = os.fstat(fd).st_size
        return os.pread(fd, size + 1, 0)

    serial = 0
    for phase, where, pieces in phases:
        if phase == "w" and access == "R" or phase == "r" and access in ("W", "A"):
            continue
        f.flush()
        if now() != bytes(content):
            raise Violation("flush", "flush() leaves %d bytes of %d unwritten, or wrong" % (len(content) - len(now()), len(content)))
        pos = len(content) * where // 3
        if text and "R" in access:
            f.seek(pos)
        else:
            f.seek(pos)
        what = "%s stream (buffering=%r, mode %s): " % (layer, buffering, mode)
        if phase == "w":
            if append:
                pos = len(content)
            base = bytes(content)
            done = bytearray()
            flushes = bigs = linecount = 0
            start = counter.get()
            for kind, n in pieces:
                serial += 1
                data = (b"%d," % serial * (n // 2 + 1))[:n]
                newline = False
                before = len(done)
                if kind == "tell":
                    call(f.tell)
                    flushes += text  # flushes to know the position
                    continue
                if kind == "flush":
                    f.flush()
                    flushes += 1
                elif kind == "writelines":
                    parts = [data[i:i + 5] for i in range(0, min(n, 60), 5)]
                    if layer == "raw":
                        flushes += len(parts)
                    f.writelines([p.decode("latin-1") for p in parts] if text else parts)
                    done += b"".join(parts)
                else:
                    if kind == "line":
                        data += b"\n"
                    if kind == "print" and text:
                        print(data.decode("latin-1"), file=f)
                        data += b"\n"
                        flushes += layer == "line"  # the data and its end
                    else:
                        r = f.write(data.decode("latin-1") if text else data)
                        if r != len(data):
                            raise Violation("result", what + "write of %d gives %r" % (len(data), r))
                    done += data
                    newline = b"\n" in data
                    bigs += len(data) >= low
                    linecount += newline
                current = now()
                k = len(done)
                hidden = None
                limit = high if layer != "raw" else 0
                if kind == "flush" or newline and layer == "line":
                    limit = 0
                # the longest part which reached the file
                end = max(len(base), pos + k)
                if current[:pos] != base[:pos] or len(current) > end:
                    raise Violation("elsewhere", what + "the file changed elsewhere than where data was written")
                j = 0
                body = current[pos:pos + k]
                if body == bytes(done):
                    j = k
                else:
                    lo, hi = 0, min(k, len(body))
                    while lo < hi:
                        mid = (lo + hi + 1) // 2
                        if body[:mid] == done[:mid]:
                            lo = mid
                        else:
                            hi = mid - 1
                    j = lo
                # what follows must be the former content: up to j bytes (those after it might match by chance)
                if j < k and not any(current == base[:pos] + bytes(done[:x]) + base[pos + x:] for x in range(j, max(-1, j - 64), -1)):
                    raise Violation("order", what + "after %s of %d bytes at %d, the file isn't made of the first bytes written" % (kind, k - before, pos + before))
                if j == k and current[pos + k:] != base[pos + k:]:
                    raise Violation("elsewhere", what + "the file changed after the data written")
                if k - j > limit:
                    raise Violation("held-back", what + "after %s of %d bytes, %d of the %d bytes written aren't in the file, at most %d should be held back" % (kind, k - before, k - j, k, limit))
            f.flush()
            content[pos:pos + len(done)] = done
            stop = counter.get()
            if start is not None:
                calls = stop[1] - start[1]
                if layer == "raw":
                    most = len(pieces) + flushes
                elif layer == "line":
                    most = len(done) // low + bigs + flushes + linecount + 2
                else:
                    most = len(done) // low + bigs + flushes + 2
                if calls > most:
                    raise Violation("calls", what + "%d write calls for %d bytes in %d pieces, at most %d should be needed" % (calls, len(done), len(pieces), most))
            small = sum(1 for k_, n in pieces if k_ not in ("tell", "flush") and 0 < n < low)
        else:
            bigs = eofs = ahead = 0
            start = counter.get()
            begin = pos
            for kind, n in pieces:
                if kind == "readinto" and text:
                    kind = "read"
                if kind in ("read1", "peek") and (text or layer == "raw"):
                    kind = "read"
                if layer == "raw" and kind in ("readline", "next"):
                    kind = "read"
                if kind == "tell":
                    call(f.tell)
                    continue
                if kind == "readline":
                    end = content.find(b"\n", pos, pos + n)
                    end = end + 1 if end >= 0 else min(len(content), pos + n)
                    r = f.readline(n)
                elif kind == "next":
                    end = content.find(b"\n", pos)
                    end = end + 1 if end >= 0 else len(content)
                    r = f.readline()
                elif kind == "readinto":
                    b = bytearray(n)
                    c = f.readinto(b)
                    end = min(len(content), pos + n)
                    r = bytes(b[:c])
                elif kind == "peek":
                    r = bytes(f.peek(n))
                    if r != bytes(content[pos:pos + len(r)]) or not r and pos < len(content):
                        raise Violation("result", what + "peek gives %r at %d" % (r[:50], pos))
                    eofs += pos + len(r) >= len(content)
                    continue
                elif kind == "read1":
                    r = f.read1(n)
                    end = pos + len(r)
                    if not r and n and pos < len(content) or len(r) > n:
                        raise Violation("result", what + "read1(%d) gives %d bytes at %d" % (n, len(r), pos))
                else:
                    end = min(len(content), pos + n)
                    r = f.read(n)
                r = r.encode("latin-1") if text else r
                if r != bytes(content[pos:end]):
                    raise Violation("result", what + "%s(%d) gives %d bytes at %d instead of %d, or others" % (kind, n, len(r), pos, end - pos))
                bigs += end - pos >= low
                eofs += end == len(content)
                pos = end
                offset = os.lseek(f.fileno(), 0, 1)
                if layer == "raw" and offset != pos:
                    raise Violation("ahead", what + "the descriptor is at %d instead of %d" % (offset, pos))
                ahead = max(ahead, offset - pos)
                if offset - pos > max(high, 0):
                    raise Violation("ahead", what + "after %s(%d), the descriptor is %d bytes ahead of the reader, at most %d are allowed" % (kind, n, offset - pos, high))
            stop = counter.get()
            if start is not None:
                calls = stop[0] - start[0] - 1
                if layer == "raw":
                    most = len(pieces)
                else:
                    most = (pos - begin + 2 * low) // low + 2 * bigs + 2 * eofs + 2
                    if text:
                        most += (pos - begin) // CHUNK + 2
                if calls > most:
                    raise Violation("calls", what + "%d read calls for %d bytes in %d pieces, at most %d should be needed" % (calls, pos - begin, len(pieces), most))
            small = sum(1 for k_, n in pieces if k_ in ("read", "readinto", "readline", "read1", "next") and 0 < n < low)
        env.steps += len(pieces)
        if small >= 4 and layer != "raw":
            env.nontrivial = True
        env.label("phase:" + phase, "layer:" + layer)
    r = call(f.close)
    if isinstance(r, Raised):
        raise Violation("close", "close() failed: %r" % (r,))
    if read_file(path) != bytes(content):
        raise Violation("close", "close() doesn't write all the data")


PARTS = [Part("phases", strategy, run, quick=16000, thorough=400000, setup=warmup)]
