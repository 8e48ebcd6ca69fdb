"""Lock histories: generator of operations, reference model of range locks, and executor of operations on real streams."""
import gc
import io
import os
import warnings

import gen as st
from core import HarnessError, Violation
from streams import Raised, call, rsfile

BIGS = [(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, 1 << 40, (1 << 62)]

LAYERS = [("raw", "RWB", 0), ("raw", "RWB", 0), ("buf", "RWB", -1), ("buf", "RWB", 16), ("text", "RWT", -1), ("rawr", "RB", 0), ("bufr", "RB", -1),
          ("textr", "RT", -1), ("raww", "WB", 0), ("bufw", "WB", -1), ("textw", "WT", -1), ("app", "RAB", -1), ("appraw", "AB", 0), ("std", "r+b", -1),
          ("stdr", "rb", -1), ("bufi", "RWIB", -1)]


def readable(mode):
    return "R" in mode or "r" in mode


def writable(mode):
    return "W" in mode or "A" in mode or "+" in mode


# ------------------------------------------------------------------------------------ generator

_off = st.weighted((8, st.integers(0, 12)), (1, st.sampled_from(BIGS)))
_len = st.weighted((2, st.just(None)), (1, st.just(0)), (8, st.integers(1, 8)), (1, st.sampled_from([1 << 31, 1 << 32, (1 << 40) - 1])))


@st.composite
def lock_args(draw):
    """(length, offset, whence, shared)"""
    whence = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
    if whence == 0:
        offset = draw(st.one_of(_off, _off, _off, st.just(None)))
    else:
        offset = draw(st.one_of(st.integers(0, 6), st.integers(-6, 6), st.just(None)))
    return (draw(_len), offset, whence, draw(st.sampled_from([None, True, True, False, False])))


@st.composite
def op_strategy(draw, nprocs, nslots, nfiles):
    p = draw(st.integers(0, nprocs - 1))
    slot = draw(st.integers(0, nslots - 1))
    kind = draw(_kind)
    if kind == "open":
        return (p, "open", slot, draw(st.integers(0, nfiles - 1)), draw(st.integers(0, 2)), draw(st.integers(0, len(LAYERS) - 1)),
                draw(st.booleans()), draw(st.sampled_from([False, False, False, True])))
    if kind == "dup":
        return (p, "dup", slot, draw(st.integers(0, nslots - 1)), draw(st.booleans()))
    if kind == "lock":
        return (p, "lock", slot) + draw(LOCK_ARGS) + (draw(st.sampled_from([0, 0, None])),)
    if kind == "wlock":
        return (p, "wlock", slot, draw(st.integers(1, 5)), draw(_len), draw(st.integers(0, 4)), draw(st.sampled_from([1, 2])), draw(st.sampled_from([None, False])))
    if kind == "unlock":
        return (p, "unlock", slot, draw(st.integers(0, 5)), draw(st.sampled_from([0, 0, 0, 1, 2])))
    if kind == "unlock_bad":
        return (p, "unlock_bad", slot, draw(_len), draw(st.integers(0, 12)))
    if kind == "seek":
        return (p, "seek", slot, draw(st.integers(0, 20)))
    if kind == "write":
        return (p, "write", slot, draw(st.integers(1, 5)))
    if kind == "read":
        return (p, "read", slot, draw(st.integers(0, 6)))
    return (p, kind, slot)


LOCK_ARGS = lock_args()
_kind = st.weighted((4, st.just("open")), (1, st.just("dup")), (9, st.just("lock")), (1, st.just("wlock")), (5, st.just("unlock")), (1, st.just("unlock_bad")),
                    (2, st.just("seek")), (1, st.just("write")), (1, st.just("read")), (2, st.just("close")), (1, st.just("del")))


def history(nprocs, nslots=4, nfiles=2, max_ops=25):
    opener = st.tuples(st.integers(0, nprocs - 1), st.just("open"), st.integers(0, nslots - 1), st.sampled_from([0, 0, 0, 1][:nfiles + 2] if nfiles > 1 else [0]),
                       st.integers(0, 2), st.integers(0, len(LAYERS) - 1), st.booleans(), st.sampled_from([False, False, False, False, True]))
    return st.tuples(st.lists(opener, 2, 6), st.lists(op_strategy(nprocs, nslots, nfiles), 3, max_ops)).map(lambda t: t[0] + t[1])


# ------------------------------------------------------------------------------------ files

INITIAL = [b"0123456789", b"abc"]


def make_files(d, nfiles=2):
    """Each file has three names: the path, a hard link and a symbolic link."""
    out = []
    for i in range(nfiles):
        p = os.path.join(d, "file%d" % i)
        with io.open(p, "wb") as f:
            f.write(INITIAL[i])
        os.link(p, p + ".hard")
        os.symlink(p, p + ".soft")
        out.append([p, p + ".hard", p + ".soft"])
    return out


# ------------------------------------------------------------------------------------ model


class Handle(object):
    def __init__(self, file, mode, layer, pos, append):
        self.file = file
        self.mode = mode
        self.layer = layer
        self.append = append
        self.r = readable(mode)
        self.w = writable(mode)
        self.offset_ref = [pos]  # shared by dup'ed descriptors


def overlap(s1, e1, s2, e2):
    return (e1 is None or s2 < e1) and (e2 is None or s1 < e2)


class Model(object):
    """Expected outcomes. locks: list of (proc, slot-key, file, shared, start, end)."""

    def __init__(self, nfiles=2):
        self.sizes = [len(INITIAL[i]) for i in range(nfiles)]
        self.handles = {}
        self.locks = []
        self.stats = dict(conflicts=0, granted=0, shared_pairs=0, released=0)

    def file_map(self, file):
        return [(s, e, "s" if sh else "x") for (p, k, f, sh, s, e) in self.locks if f == file]

    def check_lock(self, key, shared, start, end):
        """Set of acceptable outcome kinds: 'ok' | 'runtime' | 'locking'."""
        p, slot = key
        h = self.handles[key]
        out = set()
        for (p2, k2, f2, sh2, s2, e2) in self.locks:
            if f2 != h.file or not overlap(start, end, s2, e2):
                continue
            if p2 == p and k2 == key:
                out.add("runtime")
            elif not (shared and sh2):
                out.add("locking")
        if not out:
            return {"ok"}
        return out

    def range_of(self, h, length, offset, whence):
        base = 0 if whence == 0 else h.offset_ref[0] if whence == 1 else self.sizes[h.file]
        start = base + (offset or 0)
        return start, (start + length) if length else None


class Result(object):
    pass


class World(object):
    """Runs a history. `execute(proc, request)` runs a primitive request in a process and returns its outcome."""

    def __init__(self, execute, files, env, nfiles=2):
        self.x = execute
        self.files = files
        self.m = Model(nfiles)
        self.env = env
        self.trace = []

    def fail(self, key, msg):
        raise Violation(key, "%s\n  after: %s" % (msg, self.trace[-12:]))

    def step(self, op):
        p, kind, slot = op[0], op[1], op[2]
        m = self.m
        key = (p, slot)
        h = m.handles.get(key)
        self.trace.append(op)
        self.env.steps += 1
        if kind == "open":
            file, via, li, ts, locking = op[3:8]
            layer, mode, buffering = LAYERS[li]
            if h is not None:
                self.close(key)
            nh = Handle(file, mode, layer, m.sizes[file] if "A" in mode else 0, "A" in mode)
            m.handles[key] = nh
            expected = {"ok"}
            if locking:
                expected = m.check_lock(key, not nh.w, 0, None)
            r = self.x(p, ("open", slot, self.files[file][via], mode, buffering, ts, locking))
            self.judge(r, expected, "open with locking=%s" % locking)
            if isinstance(r, Raised):
                del m.handles[key]
            elif locking:
                m.locks.append((p, key, file, not nh.w, 0, None))
            return
        if kind == "dup":
            src = m.handles.get((p, op[3]))
            if src is None or op[3] == slot or src.layer.startswith(("text",)):
                return
            if h is not None:
                self.close(key)
            r = self.x(p, ("dup", slot, op[3], src.mode, op[4]))
            self.judge(r, {"ok"}, "dup")
            nh = Handle(src.file, src.mode, src.layer, 0, src.append)
            nh.offset_ref = src.offset_ref
            if src.append:
                nh.offset_ref[0] = m.sizes[src.file]
            m.handles[key] = nh
            return
        if h is None:
            return
        if kind == "close" or kind == "del":
            self.close(key, kind)
            return
        if kind == "seek":
            r = self.x(p, ("seek", slot, op[3]))
            self.judge(r, {"ok"}, "seek")
            h.offset_ref[0] = op[3]
        elif kind == "write":
            if not h.w:
                return
            r = self.x(p, ("write", slot, op[3]))
            self.judge(r, {"ok"}, "write")
            self.wrote(h, op[3])
        elif kind == "read":
            if not h.r:
                return
            r = self.x(p, ("read", slot, op[3]))
            self.judge(r, {"ok"}, "read")
            h.offset_ref[0] = max(h.offset_ref[0], min(h.offset_ref[0] + op[3], m.sizes[h.file]))
        elif kind == "lock":
            length, offset, whence, shared, timeout = op[3:8]
            self.lock(p, key, h, length, offset, whence, shared, timeout)
        elif kind == "wlock":
            if not h.w:
                return
            n, length, offset, whence, shared = op[3:8]
            r = self.x(p, ("write_noflush", slot, n))
            self.judge(r, {"ok"}, "write")
            self.wrote(h, n)
            self.lock(p, key, h, length, offset, whence, shared, 0)
        elif kind == "unlock":
            mine = [l for l in m.locks if l[1] == key]
            if not mine:
                return
            l = mine[op[3] % len(mine)]
            self.unlock(p, key, h, l, op[4])
        elif kind == "unlock_bad":
            length, offset = op[3], op[4]
            start, end = offset, (offset + length) if length else None
            if any(l[1] == key and l[4] == start and l[5] == end for l in m.locks):
                return
            r = self.x(p, ("unlock", slot, length, offset, 0))
            if any(l[0] == p and l[2] == h.file for l in m.locks):
                self.judge(r, {"runtime"}, "unlock of a range not held")
            elif isinstance(r, Raised) and "RuntimeError" not in r.families:
                self.fail("unlock-error", "unlock of a range not held raised %r" % r)
        else:
            raise AssertionError(kind)

    def wrote(self, h, n):
        m = self.m
        if h.append:
            m.sizes[h.file] += n
            h.offset_ref[0] = m.sizes[h.file]
        else:
            h.offset_ref[0] += n
            m.sizes[h.file] = max(m.sizes[h.file], h.offset_ref[0])

    def unlock(self, p, key, h, l, whence):
        m = self.m
        start, end = l[4], l[5]
        length = None if end is None else end - start
        base = 0 if whence == 0 else h.offset_ref[0] if whence == 1 else m.sizes[h.file]
        offset = start - base
        if offset < 0:
            offset, whence = start, 0
        r = self.x(p, ("unlock", key[1], length, offset, whence))
        self.judge(r, {"ok"}, "unlock of a held range [%s,%s)" % (start, end))
        m.locks.remove(l)
        m.stats["released"] += 1

    def lock(self, p, key, h, length, offset, whence, shared, timeout):
        m = self.m
        sh = shared if shared is not None else not h.w
        start, end = m.range_of(h, length, offset, whence)
        if (sh and not h.r) or (not sh and not h.w):
            expected = {"oserror"}
            timeout = 0
        elif start < 0:
            expected = {"value"}
            timeout = 0
        else:
            expected = m.check_lock(key, sh, start, end)
            if "locking" in expected:
                timeout = 0
        r = self.x(p, ("lock", key[1], timeout, length, offset, whence, shared))
        self.judge(r, expected, "lock [%s,%s) %s" % (start, end, "shared" if sh else "exclusive"))
        if expected == {"ok"}:
            if any(overlap(start, end, l[4], l[5]) and l[2] == h.file for l in m.locks):
                m.stats["shared_pairs"] += 1
            m.locks.append((p, key, h.file, sh, start, end))
            m.stats["granted"] += 1
        elif expected & {"runtime", "locking"}:
            m.stats["conflicts"] += 1

    def judge(self, r, expected, what):
        if isinstance(r, Raised):
            if r.text.startswith("LockingException"):
                got = "locking"
            elif "RuntimeError" in r.families and "NotImplementedError" not in r.families:
                got = "runtime"
            elif "OSError" in r.families:
                got = "oserror"
            elif "ValueError" in r.families:
                got = "value"
            else:
                got = "other"
        else:
            got = "ok"
        if got not in expected:
            self.fail("lock-outcome:%s-instead-of-%s" % (got, "/".join(sorted(expected))),
                      "%s: got %s (%r), expected %s" % (what, got, r, "/".join(sorted(expected))))

    def close(self, key, kind="close"):
        r = self.x(key[0], (kind, key[1]))
        self.judge(r, {"ok"}, kind)
        m = self.m
        m.stats["released"] += sum(l[1] == key for l in m.locks)
        m.locks = [l for l in m.locks if l[1] != key]
        del m.handles[key]

    def close_all(self):
        for key in list(self.m.handles):
            self.close(key)


# ------------------------------------------------------------------------------------ executor of primitive requests


class Executor(object):
    """Lives in the process that owns the streams."""

    def __init__(self):
        self.rs = rsfile()
        self.s = {}

    def __call__(self, req):
        return call(self._do, *req)

    def _do(self, kind, slot, *a):
        s = self.s
        if kind == "open":
            path, mode, buffering, ts, locking = a
            s[slot] = self.rs.rsopen(path, mode, buffering=buffering, thread_safe=ts, locking=locking, timeout=0)
        elif kind == "dup":
            src, mode, ts = a
            fd = os.dup(s[src].fileno())
            s[slot] = self.rs.rsopen(mode=mode, fileno=fd, buffering=0 if "B" in mode else -1, thread_safe=ts, locking=False) if mode.isupper() else \
                self.rs.rsopen(fd, mode, buffering=0, thread_safe=ts, locking=False)
            if "B" not in mode and "b" not in mode:
                s[slot].flush()
        elif kind == "close":
            s.pop(slot).close()
        elif kind == "del":
            f = s.pop(slot)
            del f
            gc.collect()
        elif kind == "seek":
            s[slot].seek(a[0])
        elif kind == "write" or kind == "write_noflush":
            f = s[slot]
            data = b"w" * a[0]
            f.write(data.decode() if hasattr(f, "encoding") else data)
            if kind == "write":
                f.flush()
        elif kind == "read":
            f = s[slot]
            f.read(a[0])
            if hasattr(f, "encoding"):
                f.seek(f.tell())
            else:
                f.seek(0, 1)
        elif kind == "lock":
            timeout, length, offset, whence, shared = a
            s[slot].lock_file(timeout=timeout, length=length, offset=offset, whence=whence, shared=shared)
        elif kind == "unlock":
            length, offset, whence = a
            s[slot].unlock_file(length=length, offset=offset, whence=whence)
        elif kind == "fds":
            from procs import fds
            return sorted(fds())
        elif kind == "tell":
            return s[slot].tell()
        else:
            raise HarnessError(kind)
        return None
