"""C09: scope of the locks, and data written before the unlock."""
import fcntl
import gc
import io
import os

import procs  # binds the real os functions
import syscalls

syscalls.install()

import gen as st
from core import HarnessError, Part, Violation
from lockworld import LAYERS, overlap, readable, writable
from procs import lockmap, normalise, start_prober
from streams import Raised, call, rsfile
from syscalls import REAL, hooks, unlock_request

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated nestings of lock contexts, operations and releases, against a model of held ranges (kernel lock map seen by another process) and of the file content at the instant of each unlock call"
RULE = ("Cases are sequences of lock contexts (any layer, range, whence), reads/writes/seeks/truncations inside, and exits (normal, by one of several exceptions, "
        "unlock_file, close, destruction) on up to 3 streams of one file. The kernel lock map is compared after each step with the model, and the file content is "
        "compared with everything written so far whenever a lock range is released. Non-trivial: an exit by exception, a position/size change inside a scope, "
        "other locks surviving a release, or unflushed data at release time.")
ASSUMPTIONS = ["Releases are observed through calls of fcntl.lockf/fcntl.fcntl/os.close; an implementation releasing otherwise would not be observed (only the lock map would)."]

EXCS = ["none", "none", "KeyError", "OSError", "StopIteration", "GeneratorExit", "KeyboardInterrupt", "SystemExit", "ValueError", "LockingException", "RuntimeError"]


@st.composite
def _lock(draw):
    whence = draw(st.sampled_from([0, 0, 0, 1, 2]))
    return ("lock", draw(st.integers(0, 2)), draw(st.sampled_from([None, 0, 1, 2, 3, 5])), draw(st.integers(0, 9) if whence == 0 else st.integers(-3, 4)), whence,
            draw(st.sampled_from([None, None, True, False])), draw(st.booleans()))


t, j = st.tuples, st.just
LOCK = _lock()
slot = st.integers(0, 2)
OP = st.weighted((7, LOCK), (5, t(j("exit"), st.integers(0, 5), st.sampled_from(EXCS))), (2, t(j("write"), slot, st.integers(1, 30))), (2, t(j("write"), slot, st.integers(1, 30))),
                 (2, t(j("seek"), slot, st.integers(0, 20))), (1, t(j("truncate"), slot, st.integers(0, 20))), (1, t(j("read"), slot, st.integers(0, 8))),
                 (2, t(j("unlock"), st.integers(0, 5), st.sampled_from([0, 0, 1, 2]))), (1, t(j("close"), slot, st.sampled_from(["close", "with", "with_exc", "del"]))), (1, t(j("enter"), st.integers(0, 5))))
OPEN = t(st.integers(0, len(LAYERS) - 1), st.booleans(), st.booleans())


def strategy():
    return t(st.lists(OPEN, 1, 3), st.lists(OP, 3, 22))


def make_exc(name, rs):
    import builtins

    if name == "LockingException":
        return rs.LockingException(1, "inside")
    return getattr(builtins, name)("inside")


class W(object):
    def __init__(self, env, rs, opens):
        self.env, self.rs = env, rs
        self.path = env.path("f")
        with io.open(self.path, "wb") as f:
            f.write(b"0123456789")
        self.content = bytearray(b"0123456789")
        self.probe = REAL["open"](self.path, os.O_RDONLY)
        env.defer(REAL["close"], self.probe)
        self.streams, self.locks, self.trace = {}, [], []
        self.info = {}
        self.pinned = set()
        self.inode = os.fstat(self.probe).st_ino
        self.fds = {}
        self.late = None
        self.n = 0
        env.defer(lambda: [call(f.close) for f in self.streams.values()])
        for i, (li, ts, locking) in enumerate(opens):
            layer, mode, buffering = LAYERS[li]
            f = rs.rsopen(self.path, mode, buffering=buffering, thread_safe=ts, locking=False, **({"encoding": "ascii", "newline": ""} if "T" in mode else {}))
            self.streams[i] = f
            self.info[i] = dict(r=readable(mode), w=writable(mode), app="A" in mode, text="T" in mode, pos=10 if "A" in mode else 0, raw=buffering == 0)
            self.fds[f.fileno()] = i

    def fail(self, key, msg):
        raise Violation(key, "%s\n  after %s" % (msg, self.trace[-14:]))

    def disk(self):
        size = os.fstat(self.probe).st_size
        return REAL["pread"](self.probe, size + 1, 0)

    def on_call(self, name, args):
        # at the instant of a release of ranges of the current stream
        if name == "close" and args and args[0] in self.fds:
            pass
        elif unlock_request(name, args) is None:
            return None
        else:
            fd = unlock_request(name, args)[0]
            try:
                if os.fstat(fd).st_ino != self.inode:
                    return None
            except OSError:
                return None
        if self.late is None and self.current is not None:
            got = self.disk()
            if got != bytes(self.content):
                self.late = (name, args, got)
        return None

    def release(self, slot, func):
        """Runs func, which must release locks of that stream."""
        self.current = slot
        self.late = None
        with hooks(before=self.on_call):
            r = func()
        if self.late is not None:
            self.fail("unlocked-before-written", "%s%r was called while the file contained %r; written so far: %r" % (self.late[0], self.late[1], self.late[2], bytes(self.content)))
        return r

    def flush_others(self, slot):
        """Only one stream has pending data at a time (their interleaving isn't the subject)."""
        for i, f in self.streams.items():
            if i != slot:
                f.flush()
                if self.info[i]["r"] and not self.info[i]["raw"]:
                    f.seek(self.info[i]["pos"])  # drops stale read buffers

    def check(self, what):
        got, want = lockmap(self.path), normalise([(l["start"], l["end"], "s" if l["shared"] else "x") for l in self.locks])
        if got != want:
            self.fail("lock-map", "after %s other processes see locks %r, expected %r" % (what, got, want))

    def step(self, op):
        env = self.env
        kind = op[0]
        self.trace.append(op)
        env.steps += 1
        if kind in ("exit", "unlock", "enter"):
            if not self.locks:
                return
            lock = self.locks[op[1] % len(self.locks)]
            i = lock["slot"]
            f = self.streams[i]
        else:
            i = op[1]
            if i not in self.streams:
                return
            f = self.streams[i]
        inf = self.info[i]
        self.flush_others(i)
        if kind == "lock":
            _, _, length, offset, whence, shared, enter = op
            if whence == 1:
                f.seek(inf["pos"])
            base = 0 if whence == 0 else inf["pos"] if whence == 1 else len(self.content)
            start = base + offset
            sh = (not inf["w"]) if shared is None else shared
            if start < 0 or (sh and not inf["r"]) or (not sh and not inf["w"]):
                return
            end = start + length if length else None
            if any(overlap(start, end, l["start"], l["end"]) and not (sh and l["shared"] and l["slot"] != i) for l in self.locks):
                return
            ctx = f.lock_file(timeout=0, length=length, offset=offset, whence=whence, shared=shared)
            if enter:
                ctx.__enter__()
            self.locks.append(dict(slot=i, start=start, end=end, shared=sh, ctx=ctx, entered=enter, pos=inf["pos"], size=len(self.content)))
        elif kind == "enter":
            if not lock["entered"]:
                lock["ctx"].__enter__()
                lock["entered"] = True
        elif kind == "exit":
            ctx = lock["ctx"]
            if not lock["entered"]:
                ctx.__enter__()
            if lock["pos"] != inf["pos"] or lock["size"] != len(self.content):
                env.nontrivial = True
                env.label("moved-inside")
            if op[2] == "none":
                r = self.release(i, lambda: call(ctx.__exit__, None, None, None))
                if isinstance(r, Raised):
                    self.fail("exit-failed", "leaving the lock context failed: %r" % r)
            else:
                exc = make_exc(op[2], self.rs)
                env.nontrivial = True
                env.label("exit:" + op[2])

                def leave():
                    try:
                        raise exc
                    except BaseException as e:
                        try:
                            return ("returned", ctx.__exit__(type(e), e, e.__traceback__))
                        except BaseException as e2:
                            return ("raised", e2)
                how, v = self.release(i, leave)
                exc.__traceback__ = None  # it references the stream
                exc.__context__ = None
                if (how == "returned" and v) or (how == "raised" and v is not exc and not (op[2] == "StopIteration" and isinstance(v, RuntimeError))):
                    self.fail("exception-changed", "the context exit by %s %s %r" % (op[2], how, v))
            self.locks.remove(lock)
        elif kind == "unlock":
            length = None if lock["end"] is None else lock["end"] - lock["start"]
            whence = op[2]
            base = [0, inf["pos"], len(self.content)][whence]
            if lock["start"] < base:  # unlock_file() takes no negative offset
                whence = base = 0
            r = self.release(i, lambda: call(f.unlock_file, length=length, offset=lock["start"] - base, whence=whence))
            if isinstance(r, Raised):
                self.fail("unlock-failed", repr(r))
            if lock["entered"]:
                KEEP.append(lock["ctx"])
                self.pinned.add(i)
            self.locks.remove(lock)
        elif kind == "write":
            if not inf["w"]:
                return
            data = (b"%d" % (self.n % 10)) * op[2]
            self.n += 1
            pos = len(self.content) if inf["app"] else inf["pos"]
            f.write(data.decode() if inf["text"] else data)
            if pos > len(self.content):
                self.content.extend(b"\0" * (pos - len(self.content)))
            self.content[pos:pos + len(data)] = data
            inf["pos"] = pos + len(data)
            if self.disk() != bytes(self.content) and any(l["slot"] == i for l in self.locks):
                env.nontrivial = True
                env.label("unflushed-in-scope")
        elif kind == "seek":
            f.seek(op[2])
            inf["pos"] = op[2]
        elif kind == "truncate":
            if not inf["w"]:
                return
            f.truncate(op[2])
            if op[2] < len(self.content):
                del self.content[op[2]:]
            else:
                self.content.extend(b"\0" * (op[2] - len(self.content)))
        elif kind == "read":
            if not inf["r"]:
                return
            d = f.read(op[2])
            inf["pos"] += len(d)
            if inf["text"]:
                f.seek(inf["pos"])  # in text mode, writing after reading needs it
        elif kind == "close":
            if any(l["slot"] == i for l in self.locks):
                env.label("close-with-locks:" + op[2])
            entered = [l["ctx"] for l in self.locks if l["slot"] == i and l["entered"]]
            if op[2] == "close":
                r = self.release(i, lambda: call(f.close))
            elif op[2] == "with":
                def fn():
                    with f:
                        pass
                r = self.release(i, lambda: call(fn))
            elif op[2] == "with_exc":
                def fn():
                    try:
                        with f:
                            raise KeyError("x")
                    except KeyError:
                        pass
                r = self.release(i, lambda: call(fn))
            else:
                if entered or i in self.pinned:
                    return  # the contexts keep the stream alive
                self.locks = [l for l in self.locks if l["slot"] != i]
                del self.streams[i]
                lock = None
                holder = [f]
                del f
                def fn():
                    holder.clear()
                    gc.collect()
                r = self.release(i, lambda: call(fn))
            if isinstance(r, Raised):
                self.fail("close-failed", repr(r))
            KEEP.extend(entered)
            self.locks = [l for l in self.locks if l["slot"] != i]
            self.streams.pop(i, None)
            if self.disk() != bytes(self.content):
                self.fail("close-lost-data", "after close the file contains %r instead of %r" % (self.disk(), bytes(self.content)))
        if len(self.locks):
            env.label("locked")
        self.check(op)


KEEP = []


def run(case, env):
    opens, ops = case
    rs = rsfile()
    del KEEP[:]
    w = W(env, rs, opens)
    for op in ops:
        before = len(w.locks)
        w.step(op)
        if w.locks and len(w.locks) < before:
            env.nontrivial = True
            env.label("others-survive")
    left = [l for l in w.locks]
    KEEP.extend(l["ctx"] for l in left if l["entered"])
    for f in list(w.streams.values()):
        f.close()
    w.locks = []
    w.check("closing all")
    if w.disk() != bytes(w.content):
        w.fail("final-content", "%r instead of %r" % (w.disk(), bytes(w.content)))


# ------------------------------------------------------------------------------------ plain nested with-statements


@st.composite
def nested_strategy(draw):
    n = draw(st.integers(1, 3))
    return (draw(st.integers(0, len(LAYERS) - 1)), draw(st.booleans()), [(draw(st.integers(0, 3)) + 4 * i, draw(st.integers(1, 4)), draw(st.sampled_from(EXCS[:2] + EXCS))) for i in range(n)],
            draw(st.integers(0, 2)))


def run_nested(case, env):
    """Real with-statements, exception travelling through several of them up to a given level."""
    li, ts, scopes, catch = case
    rs = rsfile()
    layer, mode, buffering = LAYERS[li]
    path = env.path("f")
    with io.open(path, "wb") as f:
        f.write(b"0123456789abcdef")
    f = rs.rsopen(path, mode, buffering=buffering, thread_safe=ts, locking=False)
    env.defer(f.close)
    kind = "x" if writable(mode) else "s"
    spans = [(s, s + l if s + l <= 4 * i + 4 else 4 * i + 4) for i, (s, l, e) in enumerate(scopes)]

    def expect(n, what):
        got, want = lockmap(path), normalise([(s, e, kind) for s, e in spans[:n]])
        if got != want:
            raise Violation("lock-map", "%s: %r instead of %r (spans %r)" % (what, got, want, spans))

    class Boom(BaseException):
        pass

    boom = Boom("x")

    def level(i):
        if i == len(scopes):
            if scopes[-1][2] != "none":
                env.nontrivial = True
                raise boom
            return
        s, e = spans[i]
        try:
            with f.lock_file(timeout=0, offset=s, length=e - s):
                expect(i + 1, "inside level %d" % i)
                if writable(mode):
                    f.write("zz" if "T" in mode else b"zz")
                else:
                    f.seek(3)
                level(i + 1)
                expect(i + 1, "back to level %d" % i)
        except Boom as exc:
            expect(i, "after exception through level %d" % i)
            if exc is not boom:
                raise Violation("exception-changed", repr(exc))
            if i > catch:
                raise
        expect(i, "after level %d" % i)

    try:
        level(0)
    except Boom:
        pass
    expect(0, "at the end")
    env.nontrivial = env.nontrivial or len(scopes) > 1


PARTS = [Part("scopes", strategy, run, quick=40000, thorough=400000, setup=start_prober, hang=40),
         Part("nested", nested_strategy, run_nested, quick=7500, thorough=40000, setup=start_prober)]
