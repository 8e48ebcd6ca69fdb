"""C36: streams may be destroyed at any moment, in the middle of the operations of other streams."""
import dis
import gc
import os
import sys
import threading
import time
import warnings

import gen as st
from core import Part, Violation
from procs import fds, lockmap, normalise, start_prober
from streams import Raised, call, read_file, rsfile

ID = "C36"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated operations during which other streams get destroyed at a generated instant, among all those where the interpreter may run the garbage collector "
             "(function entries, ends of calls, backward jumps), against a model of locks, descriptors and contents")
RULE = ("Cases are (operation, layers, streams to be destroyed with their locks and buffered data, way to destroy them, instant). A trace function destroys them at the n-th function entry, end of call or backward jump of the "
        "operation, n being drawn among all those counted in a first execution. Then results, kernel locks, locks known in the process, descriptors and contents are compared with those of the operation and of "
        "the destruction one after the other (in either order). Non-trivial: the destruction happened inside the operation, of at least one stream having a lock or buffered data.")
ASSUMPTIONS = ["CPython runs finalizers of collected cycles where it checks for pending work: function entries and ends of calls, and backward jumps.",
               "Instants inside the standard condition variables (threading.py) aren't injected."]

SIZE = 400


def layer():
    return st.sampled_from(["raw", "raw", "buffered", "text"])


def victim():
    rng = st.tuples(st.integers(0, 40), st.integers(0, 9), st.booleans())
    return st.tuples(st.integers(0, 3).map(lambda x: min(x, 1) and 1 - (x == 2)), layer(), st.booleans(), st.weighted((3, rng), (1, st.just(None))), st.booleans(),
                     st.sampled_from(["drop", "drop", "close", "context"]))


def operation():
    t, j = st.tuples, st.just
    rng = st.tuples(st.integers(0, 45), st.integers(0, 9), st.booleans())
    return st.weighted((6, t(j("lock"), rng)), (3, t(j("unlock"))), (2, t(j("with"), rng)), (3, t(j("close"))), (2, t(j("open"), st.integers(0, 1), layer(), st.booleans())),
                       (3, t(j("openlock"), layer(), st.booleans())), (1, t(j("drop"))), (1, t(j("badlock"))), (1, t(j("badopen"))),
                       (1, t(j("write"))), (1, t(j("read"))), (1, t(j("seek"))), (1, t(j("truncate"))), (1, t(j("info"))), (1, t(j("sync"))), (1, t(j("flush"))),
                       (2, t(j("append"))), (2, t(j("readfile"))), (1, t(j("detach"))))


OPERATION, VICTIMS = operation(), st.lists(victim(), 1, 3)


def strategy():
    return st.tuples(OPERATION, layer(), st.booleans(), VICTIMS, st.integers(0, 40000), st.booleans(), st.booleans())


def waiting_strategy():
    op = st.weighted((3, st.tuples(st.just("block"))), (3, OPERATION))
    return st.tuples(op, layer(), st.booleans(), VICTIMS, st.integers(0, 40000), st.just(True), st.just(False))


def overlap(a, b):
    return (a[1] is None or b[0] < a[1]) and (b[1] is None or a[0] < b[1])


def bounds(rng):
    return rng[0], (rng[0] + rng[1] if rng[1] else None), rng[2]


class Scene(object):
    """Two files, streams which stay (g: the acting one, h: another holder, q: an asker per file) and those to be destroyed."""

    def __init__(self, env, case, tag, waiting):
        op, glayer, ts, victims, n, glocked, quiet = case
        self.rs = rs = rsfile()
        self.env, self.op = env, op
        self.paths = [env.path(tag + "0"), env.path(tag + "1")]
        self.contents = []
        for i, p in enumerate(self.paths):
            with open(p, "wb") as f:
                f.write(bytes((97 + (i + k) % 26) for k in range(SIZE)))
            self.contents.append(bytearray(read_file(p)))
        self.q = [self.open(p, "raw", False) for p in self.paths]
        self.h = self.open(self.paths[0], "raw", False)
        quiet = quiet and op[0] not in ("badlock", "badopen")
        if not quiet:
            self.h.lock_file(timeout=0, length=5, offset=160)
        self.g = self.open(self.paths[0], glayer, ts)
        self.locks = [] if quiet else [(0, "h", 160, 165, False)]  # file, owner, start, end, shared
        self.glock = None
        if glocked:
            self.g.lock_file(timeout=0, length=5, offset=150)
            self.glock = (0, "g", 150, 155, False)
            self.locks.append(self.glock)
        self.victims, self.vlocks, self.keep = [], [], []
        self.vdata = 0
        for i, (file, vlayer, vts, lock, pending, how) in enumerate(victims):
            v = self.open(self.paths[file], vlayer, vts)
            held = None
            if lock is not None:
                s, e, shared = bounds(lock)
                clash = [l for l in self.locks + self.vlocks if l[0] == file and overlap((s, e), l[2:4]) and not (shared and l[4])]
                if not clash and how == "context":
                    held = self.suspended(v, lock)
                elif not clash:
                    v.lock_file(timeout=0, length=lock[1], offset=lock[0], shared=shared)
                if not clash:
                    self.vlocks.append((file, "v%d" % i, s, e, shared))
            if pending:
                pos = 200 + 20 * i
                v.seek(pos)
                data = b"<VICTIM %d>" % i
                v.write(data.decode() if vlayer == "text" else data)
                self.contents[file][pos:pos + len(data)] = data
                self.vdata += vlayer != "raw"
            self.victims.append((how, held, v))
            del v, held
        self.fired = 0
        self.failure = None

    def suspended(self, v, lock):
        """A generator stopped inside a with-statement on a lock: the lock will be released when it gets destroyed."""
        def gen():
            with v.lock_file(timeout=0, length=lock[1], offset=lock[0], shared=lock[2]):
                yield 1
        g = gen()
        next(g)
        return g

    def open(self, path, layer, ts, **kw):
        mode = "RWT" if layer == "text" else "RWB"
        args = dict(buffering=0 if layer == "raw" else -1, thread_safe=ts, locking=False)
        args.update(kw)
        if layer == "text":
            args.update(encoding="latin-1", newline="\n")
        return self.rs.rsopen(path, mode, **args)

    def destroy(self):
        try:
            while self.victims:
                how, held, v = self.victims.pop()
                if how == "close":
                    v.close()
                del held  # the generator first
                del v
        except BaseException as e:  # nothing may escape from destructions
            self.failure = repr(e)

    def act(self):
        """Executes the operation; returns its value."""
        op, g, rs = self.op, self.g, self.rs
        kind = op[0]
        if kind == "lock":
            return g.lock_file(timeout=0, length=op[1][1], offset=op[1][0], shared=op[1][2]) and "locked"
        if kind == "block":
            return g.lock_file(length=self.block[1], offset=self.block[0]) and "locked"
        if kind == "unlock":
            return g.unlock_file(length=5, offset=150) if self.glock else None
        if kind == "with":
            with g.lock_file(timeout=0, length=op[1][1], offset=op[1][0], shared=op[1][2]):
                return "ok"
        if kind == "close":
            return g.close()
        if kind == "drop":
            self.g = None
            del g
            return None
        if kind == "open":
            self.keep.append(self.open(self.paths[op[1]], op[2], op[3]))
            return "ok"
        if kind == "openlock":
            self.keep.append(self.open(self.paths[1], op[1], op[2], locking=True, timeout=0))
            return "ok"
        if kind == "badlock":
            return g.lock_file(timeout=0, length=1, offset=162)
        if kind == "badopen":
            return self.open(self.paths[0], "raw", False, locking=True, timeout=0)
        if kind == "write":
            g.seek(300)
            return g.write("G" * 7 if g.mode_is_text else b"G" * 7)
        if kind == "read":
            g.seek(390)
            return g.read(20)
        if kind == "seek":
            return g.seek(0, 2)
        if kind == "truncate":
            return g.truncate(SIZE)
        if kind == "info":
            return (g.size(), tuple(g.unique_id()), g.times() and 1)
        if kind == "sync":
            return g.sync()
        if kind == "flush":
            return g.flush()
        if kind == "append":
            return rs.append_to_file(self.paths[1], b"[APP]", timeout=0)
        if kind == "readfile":
            return rs.read_from_file(self.paths[1], binary=True, timeout=0) and "ok"
        if kind == "detach":
            if g.buffered:
                self.keep.append(g.detach())
                self.g = None
            return "ok"
        raise AssertionError(kind)


codes = {}
BREAKERS = {dis.opmap[x] for x in ("CALL", "CALL_FUNCTION_EX", "JUMP_BACKWARD", "CALL_KW") if x in dis.opmap}  # where CPython handles pending work


def execute(scene, n, waiting):
    """Runs the operation, destroying the streams at its n-th event; returns (number of events, those inside the package, outcome)."""
    count, inner, before = [0], [], {}

    def instant(frame):
        count[0] += 1
        if "rsfile" in frame.f_code.co_filename:
            inner.append(count[0])
        if count[0] == n:
            sys.settrace(None)
            scene.fired = 1
            scene.destroy()

    def trace(frame, event, arg):
        if frame.f_code.co_filename.endswith("threading.py") or frame.f_code.co_filename == __file__:
            return None
        if event == "call":
            if frame.f_code.co_name != "__init__":
                before.pop(frame.f_back, None)  # returns of functions written in python aren't such instants
            frame.f_trace_opcodes, frame.f_trace_lines = True, False
            instant(frame)
        elif event == "opcode":
            ops = codes.get(frame.f_code)
            if ops is None:
                ops = codes[frame.f_code] = frame.f_code.co_code
            if before.get(frame) in BREAKERS:
                instant(frame)
            before[frame] = ops[frame.f_lasti]
        elif event == "return":
            before.pop(frame, None)
        return trace

    old = sys.gettrace()
    try:
        sys.settrace(trace)
        try:
            r = scene.act()
        finally:
            sys.settrace(old)
    except Exception as e:
        r = Raised(e)
        del e
    before.clear()
    return count[0], inner, r


class Acting(object):
    """Adds to the acting stream what the scene needs to know."""

    def __init__(self, f, layer):
        self.__dict__.update(f=f, mode_is_text=layer == "text", buffered=layer != "raw")

    def __getattr__(self, name):
        return getattr(self.f, name)


def run(case, env, waiting=False):
    op, glayer, ts, victims, n, glocked, quiet = case
    rs = rsfile()
    inner = None
    gc.collect()
    start_prober()
    base = fds()
    # first execution: how many instants are there?
    if op[0] == "block":
        total = 60
    else:
        s = Scene(env, case, "dry", waiting)
        s.g = Acting(s.g, glayer)
        env.defer(finish, s)
        total, inner, _ = execute(s, -1, waiting)
        finish(s)
        del s
    gc.collect()
    if fds() != base:
        raise Violation("fds", "descriptors %r are left by %r" % (sorted(fds() - base), op))
    s = Scene(env, case, "f", waiting)
    s.g = Acting(s.g, glayer)
    env.defer(finish, s)
    thread = timer = None
    granted = []
    waited = None
    vlocks = list(s.vlocks)
    if waiting:
        # a thread waits for the lock of a stream to be destroyed
        mine = [l for l in vlocks if l[0] == 0]
        if not mine:
            return
        l = mine[0]
        if op[0] == "block":
            s.block = (l[2], 1)
            timer = threading.Thread(target=lambda: (time.sleep(0.15), s.fired or s.destroy()), daemon=True)
            timer.start()
        else:
            w = s.open(s.paths[0], "raw", False)
            s.keep.append(w)
            waited = (l[2], 1)

            def wait():
                w.lock_file(length=1, offset=waited[0])
                granted.append(1)

            if op[0] in ("lock", "with") and overlap((waited[0], waited[0] + 1), bounds(op[1])[:2]):
                return
            thread = threading.Thread(target=wait, daemon=True)
            thread.start()
            time.sleep(0.003)
            if granted:
                raise Violation("granted-too-early", "lock %r granted while a stream not yet destroyed holds %r" % (waited, l))
    at = 1 + n // 4 % max(total, 1)
    if n % 4 and inner:  # mostly those in the code of rsfile
        at = inner[n // 4 % len(inner)]
    if op[0] == "block":
        done = []
        holder = threading.Thread(target=lambda: done.append(execute(s, at, waiting)), daemon=True)
        holder.start()
        holder.join(20)
        if not done:
            raise Violation("lost-wakeup", "lock_file() is still blocked although the stream holding the conflicting lock was destroyed at instant %d" % at)
        r = done[0][-1]
        timer.join()
    else:
        r = execute(s, at, waiting)[-1]
    inside = s.fired
    s.destroy()
    gc.collect()
    if s.failure:
        raise Violation("destruction", "destroying streams at instant %d of %r failed: %s" % (at, op, s.failure))
    what = "streams %r destroyed at instant %d of %d of %r: " % (victims, at, total, op)
    # outcome
    kind = op[0]
    expected_locks = list(s.locks)
    refused = isinstance(r, Raised) and r.text.startswith("LockingException")
    vfile = 0
    may, must, asked = False, False, None
    if kind in ("lock", "with", "block"):
        asked = bounds(op[1]) if kind != "block" else (s.block[0], s.block[0] + 1, False)
        may = any(l[0] == 0 and overlap(asked[:2], l[2:4]) and not (asked[2] and l[4]) for l in vlocks)
        own = [l for l in s.locks if overlap(asked[:2], l[2:4])]
        must = any(l[1] == "h" for l in own)
        if s.glock in own:
            if not isinstance(r, Raised) or not (refused or "RuntimeError" in r.families):
                raise Violation("outcome", what + "it gave %r" % (r,))
            refused, must = True, True
        if kind == "block":
            may = False
    elif kind in ("openlock", "append", "readfile"):
        may = any(l[0] == 1 and (kind != "readfile" or not l[4]) for l in vlocks)
    elif kind in ("badlock", "badopen"):
        must = True
    if must:
        if not refused:
            raise Violation("outcome", what + "it must be refused but gave %r" % (r,))
    elif refused and may:
        pass
    elif isinstance(r, Raised):
        raise Violation("outcome", what + "it failed with %r" % (r,))
    done = not refused
    if done:
        if kind in ("lock", "block"):
            expected_locks.append((0, "g") + asked)
        elif kind in ("unlock", "close", "drop"):
            expected_locks = [l for l in expected_locks if l[1] != "g"]
        elif kind == "openlock":
            expected_locks.append((1, "k", 0, None, False))
        elif kind == "append":
            s.contents[1] += b"[APP]"
        elif kind == "write":
            s.contents[0][300:307] = b"G" * 7
            s.g.flush()
        elif kind == "read" and (r if glayer != "text" else r.encode("latin-1")) != bytes(s.contents[0][390:]):
            raise Violation("result", what + "read gave %r" % (r,))
        elif kind in ("seek", "truncate") and r != SIZE:
            raise Violation("result", what + "it gave %r" % (r,))
    if thread is not None:
        thread.join(15)
        if not granted:
            raise Violation("lost-wakeup", what + "a thread still waits for the lock which a destroyed stream had")
        expected_locks.append((0, "w", waited[0], waited[0] + 1, False))
    # locks: kernel, then the process itself
    for i, p in enumerate(s.paths):
        want = normalise([(l[2], l[3], "s" if l[4] else "x") for l in expected_locks if l[0] == i])
        got = lockmap(p)
        if got != want:
            raise Violation("kernel-map", what + "file %d is locked as %r instead of %r" % (i, got, want))
        q = s.q[i]
        for start in sorted({0, 30, 149, 152, 158, 162, 170} | {l[2] for l in vlocks if l[0] == i}):
            conflict = any(overlap((start, start + 1), (a, b)) for a, b, _ in want)
            r2 = call(q.lock_file, timeout=0, length=1, offset=start)
            if isinstance(r2, Raised) != conflict:
                raise Violation("registry", what + "another stream asking for byte %d of file %d gets %r, locks being %r" % (start, i, r2, want))
            if not isinstance(r2, Raised):
                q.unlock_file(length=1, offset=start)
    for i, p in enumerate(s.paths):
        c = read_file_quietly(s.q[i])
        if c != bytes(s.contents[i]):
            raise Violation("content", what + "file %d has %r instead of %r" % (i, c[140:], bytes(s.contents[i])[140:]))
    finish(s)
    gc.collect()
    for p in s.paths:
        if lockmap(p):
            raise Violation("residue", what + "locks %r are left once everything is closed" % (lockmap(p),))
    left = fds() - base
    if left:
        raise Violation("fds", what + "descriptors %r are left once everything is closed" % (sorted(left),))
    for p in s.paths:
        r = call(rs.rsopen, p, "RWB", buffering=0, locking=True, timeout=0)
        if isinstance(r, Raised):
            raise Violation("residue", what + "afterwards nobody can lock the file: %r" % (r,))
        r.close()
    env.steps += 3
    env.nontrivial = bool(inside and (vlocks or s.vdata))
    env.label("op:" + kind, "inside" if inside else "outside", *["how:" + v[5] for v in victims])


def read_file_quietly(q):
    q.seek(0)
    return q.read(5000)


def finish(s):
    for f in [s.g] + s.keep + [v[2] for v in s.victims] + [s.h] + s.q:
        if f is not None:
            call(f.close)
    s.victims.clear()
    s.g = None
    s.keep.clear()


def run_waiting(case, env):
    warnings.simplefilter("ignore")
    run(case, env, True)


PARTS = [Part("instants", strategy, run, quick=9000, thorough=150000, setup=start_prober),
         Part("waiting", waiting_strategy, run_waiting, quick=600, thorough=10000, setup=start_prober, deterministic=False, hang=60)]
