"""C35: repeating any history accumulates nothing in the process (memory, descriptors, threads, registry entries)."""
import gc
import io
import os
import sys
import threading
import time
import warnings

import gen as st
from core import Part, Violation
from streams import Raised, call, rsfile

ID = "C35"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing, metamorphic: each generated history is repeated dozens of times in the process, the number of allocated memory blocks, descriptors, "
             "and threads must not depend on the number of repetitions")
RULE = ("Cases are histories (opens of every kind, failing ones included, locks, blocked locks of other threads, unlocks, I/O, utilities, closes, abandonments, forks) executed "
        "over new files at each repetition, or on a stream kept open during all of them. After warm-up, three rounds of growing length are measured after a garbage collection; it is a leak when "
        "every round adds at least one memory block (or descriptor, or thread) per repetition. Non-trivial: at least 3 operations succeeded in each repetition, one of them on locks, opens or utilities.")
ASSUMPTIONS = ["sys.getallocatedblocks() counts all the small objects of the interpreter; bounded caches are absorbed by the warm-up and the threshold."]


def ops():
    t, j = st.tuples, st.just
    k = st.integers(0, 2)
    f = st.integers(0, 1)
    rng = st.tuples(st.one_of(st.just(None), st.integers(0, 20)), st.integers(0, 40))
    layer = st.sampled_from(["raw", "buffered", "text"])
    return st.weighted(
        (6, t(j("open"), k, f, layer, st.sampled_from(["RW", "R", "RA", "RWE"]), st.booleans(), st.booleans(), st.sampled_from(["path", "path", "fileno", "opener", "link", "borrowed"]))),
        (3, t(j("badopen"), f, st.sampled_from(["missing", "exists", "mode", "encoding", "dir", "locked", "badfd", "opener", "newline", "text0"]))),
        (5, t(j("lock"), k, rng, st.sampled_from([None, 0, 0]), st.booleans())), (2, t(j("relative"), k, st.integers(0, 3))), (4, t(j("unlock"), k, rng)), (2, t(j("unlockall"), k)), (2, t(j("with"), k, rng)),
        (2, t(j("write"), k, st.integers(0, 300))), (2, t(j("read"), k, st.integers(0, 300))), (1, t(j("bad"), k)), (1, t(j("info"), k)), (1, t(j("iterate"), k)),
        (5, t(j("close"), k)), (2, t(j("drop"), k)), (1, t(j("cycle"), k)), (1, t(j("detach"), k)),
        (2, t(j("utility"), f, st.sampled_from(["write", "append", "read", "missing", "exists", "locked"]))),
        (1, t(j("options"))), (2, t(j("waiter"), k, f, st.sampled_from(["timeout", "unlock", "close"]))), (1, t(j("replace"), f)), (1, t(j("patch"))))


OPS = st.lists(ops(), 2, 12)


@st.composite
def strategy(draw):
    return (draw(st.booleans()), draw(st.booleans()), draw(OPS))


class World(object):
    def __init__(self, env, rs, fresh):
        self.rs, self.fresh, self.dir = rs, fresh, env.dir
        self.n = 0
        self.kept, self.held, self.borrowed = {}, {}, []
        self.ok, self.important = 0, 0

    def files(self):
        # new inodes at each repetition: entries per file would accumulate
        paths = [os.path.join(self.dir, "f%d" % i) for i in range(2)]
        if self.fresh or not os.path.exists(paths[0]):
            for i, p in enumerate(paths):
                with open(p + ".new", "wb") as f:
                    f.write(b"some lines\nof text\n" * 20)
                os.rename(p + ".new", p)
                try:
                    os.unlink(p + ".link")
                except OSError:
                    pass
                os.link(p, p + ".link")
        return paths

    def open(self, p, layer, access, ts, locking, how):
        kw = dict(thread_safe=ts, locking=locking, timeout=0)
        if layer == "raw":
            kw["buffering"] = 0
        mode = access + ("T" if layer == "text" else "B")
        if how == "fileno":
            fd = os.open(p, os.O_RDWR)
            return self.rs.rsopen(mode=mode, fileno=fd, **kw)  # which closes it if the lock isn't granted
        if how == "borrowed":
            fd = os.open(p, os.O_RDWR)
            try:
                f = self.rs.rsopen(mode=mode, fileno=fd, closefd=False, **kw)
            except BaseException:
                os.close(fd)
                raise
            self.borrowed.append(fd)
            return f
        if how == "opener":
            return self.rs.rsopen(p, mode, opener=lambda name, flags: os.open(name, os.O_RDWR), **kw)
        return self.rs.rsopen(p + ".link" if how == "link" else p, mode, **kw)

    def bad(self, p, kind):
        rs = self.rs
        if kind == "missing":
            rs.rsopen(p + ".none", "RN")
        elif kind == "exists":
            rs.rsopen(p, "WC")
        elif kind == "mode":
            rs.rsopen(p, "RX")
        elif kind == "encoding":
            rs.rsopen(p, "RT", encoding="no-such-codec", timeout=0)
        elif kind == "dir":
            rs.rsopen(self.dir, "R")
        elif kind == "locked":
            with rs.rsopen(p, "RB", buffering=0, locking=False) as a, a.lock_file(shared=True, timeout=0):
                rs.rsopen(p, "RWB", timeout=0)
        elif kind == "badfd":
            rs.rsopen(mode="R", fileno=987654)
        elif kind == "opener":
            rs.rsopen(p, "R", opener=lambda n, f: -1)
        elif kind == "newline":
            rs.rsopen(p, "R", newline="xx", timeout=0)
        elif kind == "text0":
            rs.rsopen(p, "R", buffering=0, timeout=0)

    def repeat(self, oplist, keep):
        rs, paths = self.rs, self.files()
        streams = self.kept if keep else {}
        self.n += 1
        self.ok = self.important = 0
        for op in oplist:
            kind = op[0]
            if kind == "open":
                if op[1] in streams:
                    if keep:
                        continue
                    streams.pop(op[1]).close()
                r = call(self.open, paths[op[2]], *op[3:])
                if not isinstance(r, Raised):
                    streams[op[1]] = r
            elif kind == "badopen":
                r = call(self.bad, paths[op[1]], op[2])
                if not isinstance(r, Raised):
                    raise Violation("accepted", "%r succeeded" % (op,))
                r = None
            elif kind == "utility":
                r = call(self.utility, paths[op[1]], op[2])
            elif kind == "options":
                r = call(rs.set_rsfile_options, default_spinlock_delay=0.1)
                call(rs.set_rsfile_options, nothing=self.n)
            elif kind == "replace":
                os.unlink(paths[op[1]])
                with open(paths[op[1]], "wb") as f:
                    f.write(b"other lines\n" * 3)
                continue
            elif kind == "patch":
                r = call(self.patch)
            else:
                if not streams:
                    continue
                op = (kind, sorted(streams)[op[1] % len(streams)]) + op[2:]
                f = streams[op[1]]
                r = call(self.on_stream, f, op, streams, paths, keep)
                if isinstance(r, Raised) and "AssertionError" in r.families:
                    raise Violation("waiter", repr(r))
                f = None
            if not isinstance(r, Raised):
                self.ok += 1
                self.important += kind in ("open", "badopen", "lock", "unlock", "utility", "waiter", "with", "close")
            r = None
        for k in list(streams):
            if keep:
                call(streams[k].unlock_file)
                for r in self.held.pop(k, ()):
                    call(streams[k].unlock_file, *r)  # else ever different ranges would legitimately accumulate, with deferred descriptors
            else:
                streams.pop(k).close()
        self.held.clear()
        if not keep:
            for fd in self.borrowed:
                os.close(fd)
            del self.borrowed[:]

    def patch(self):
        class Mod(object):
            pass
        m = Mod()
        for a in dir(io):
            setattr(m, a, getattr(io, a))
        self.rs.monkey_patch_io_module(m)

    def utility(self, p, kind):
        rs = self.rs
        if kind == "write":
            rs.write_to_file(p, b"abc" * 10, timeout=0)
        elif kind == "append":
            rs.append_to_file(p, b"abc" * 10, timeout=0)
        elif kind == "read":
            return len(rs.read_from_file(p, binary=True, timeout=0))
        elif kind == "missing":
            rs.read_from_file(p + ".none", timeout=0)
        elif kind == "exists":
            rs.write_to_file(p, b"abc", must_create=True, timeout=0)
        elif kind == "locked":
            with rs.rsopen(p, "RB", buffering=0, locking=False) as a, a.lock_file(shared=True, timeout=0):
                rs.append_to_file(p, b"abc", timeout=0)

    def on_stream(self, f, op, streams, paths, keep):
        kind = op[0]
        if kind == "lock":
            (length, offset), shared = op[2], op[3] is None
            # other ranges at each repetition
            offset += self.n * 50 if op[4] else 0
            f.lock_file(0, length, offset, shared=shared)
            self.held.setdefault(op[1], []).append((length, offset))
        elif kind == "relative":
            f.seek(0)
            f.lock_file(timeout=0, length=3, offset=op[2], whence=2)
            f.unlock_file(3, op[2], 2)
        elif kind == "unlock":
            try:
                f.unlock_file(op[2][0], op[2][1])
            except RuntimeError:
                f.unlock_file(op[2][0], op[2][1] + self.n * 50)
        elif kind == "unlockall":
            f.unlock_file()
        elif kind == "with":
            with f.lock_file(timeout=0, length=op[2][0], offset=op[2][1]):
                pass
        elif kind == "write":
            f.seek(0)
            f.write(b"z" * op[2] if "b" in str(getattr(f, "mode", "")).lower() else "z" * op[2])
            f.flush()
        elif kind == "read":
            f.seek(0)
            f.read(op[2])
        elif kind == "bad":
            for g in (lambda: f.seek(-1), lambda: f.truncate(-1), lambda: f.read("x"), lambda: f.write(3.5), lambda: f.lock_file(timeout=0, length=-3), lambda: f.nothing):
                call(g)
        elif kind == "info":
            f.size(), f.times(), f.unique_id(), f.fileno(), f.tell(), repr(f), call(f.sync)
            f.seek(0)
        elif kind == "iterate":
            f.seek(0)
            for line in f:
                pass
            f.seek(0)
        elif keep:
            if kind == "close":
                f.unlock_file()
        elif kind == "close":
            f.close()
            streams.pop(op[1])
        elif kind == "drop":
            streams.pop(op[1])
        elif kind == "cycle":
            if self.borrowed:
                return  # it would be destroyed after the closing of its descriptor
            streams.pop(op[1]).itself = f
        elif kind == "detach":
            low = f.detach()
            streams[op[1]] = low
        elif kind == "waiter":
            self.waiter(f, paths[op[2]], op[3])

    def waiter(self, f, path, how):
        """Another thread waits for a lock (far beyond the other ranges), in vain or with success."""
        kw = dict(buffering=0, locking=False, thread_safe=False)
        h, g = self.rs.rsopen(path, "RWB", **kw), self.rs.rsopen(path, "RWB", **kw)
        results = []
        try:
            h.lock_file(0, 5, 1 << 40)

            def target():
                results.append(call(g.lock_file, 0.002 if how == "timeout" else None, 5, (1 << 40) + 2))

            th = threading.Thread(target=target)
            th.start()
            if how != "timeout":
                time.sleep(0.002)
                if how == "close":
                    h.close()
                else:
                    h.unlock_file(5, 1 << 40)
            th.join()
            if isinstance(results[0], Raised) != (how == "timeout"):
                raise AssertionError(repr(results))
        finally:
            results = None
            g.close()
            h.close()


def measure():
    gc.collect()
    return dict(blocks=sys.getallocatedblocks(), fds=len(os.listdir("/proc/self/fd")), threads=threading.active_count())


def run(case, env):
    fresh, keep, oplist = case
    rs = rsfile()
    saved = rs.get_rsfile_options()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = World(env, rs, fresh and not keep)
        rounds = [(6, 10, 14), (40, 60, 80), (300, 400, 500)]
        try:
            for _ in range(4):
                w.repeat(oplist, keep)
            ok, important = w.ok, w.important
            guilty = None
            for lengths in rounds:
                marks = [measure()]
                for n in lengths:
                    for _ in range(n):
                        w.repeat(oplist, keep)
                        env.steps += len(oplist)
                    marks.append(measure())
                guilty = None
                for what in ("fds", "threads", "blocks"):
                    growth = [b[what] - a[what] for a, b in zip(marks, marks[1:])]
                    limits = [n * (1 if what == "blocks" else 0.5) for n in lengths]
                    if all(g >= l for g, l in zip(growth, limits)):
                        guilty = (what, growth, lengths)
                        break
                if not guilty:
                    break
                env.label("suspicious")
            if guilty:
                raise Violation("leak", "%d, %d, %d repetitions of the history add %d, %d, %d %s" % (tuple(guilty[2]) + tuple(guilty[1]) + (guilty[0],)))
        finally:
            for k in list(w.kept):
                call(w.kept.pop(k).close)
            for fd in w.borrowed:
                os.close(fd)
            rs.set_rsfile_options(**saved)
    env.label("kept stream" if keep else "new files" if fresh else "same files")
    env.nontrivial = ok >= 3 and important >= 1


PARTS = [Part("repetitions", strategy, run, quick=3000, thorough=60000, hang=120)]
