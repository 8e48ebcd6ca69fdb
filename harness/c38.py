"""C38: an exception raised by a signal handler, at any instant of an operation, leaves everything consistent."""
import gc
import linecache
import sys
import threading

import c36
import gen as st
from c36 import BREAKERS, SIZE, Acting, Scene, bounds, codes, finish, overlap, read_file_quietly
from core import Part, Violation
from procs import fds, lockmap, normalise, start_prober
from streams import Raised, call

ID = "C38"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing (fault injection): generated operations, interrupted by an exception at a generated instant among all those where the interpreter may run signal handlers "
             "(function entries, ends of calls, backward jumps), against a model of locks, descriptors and contents")
RULE = ("Cases are (operation, layers, other streams with their locks and buffered data, instant). A trace function raises an exception which is no subclass of Exception (like KeyboardInterrupt) at the n-th function entry, end of call or "
        "backward jump of the operation, n being drawn among all those counted in a first execution. It must get out of the operation; then locks known by the kernel and by the process must agree, be those before or after the "
        "operation, other threads must be able to lock and unlock, the stream must still be usable and closable, contents be those before or after the operation, and no descriptor be left. Non-trivial: the exception was raised inside the code of rsfile.")
ASSUMPTIONS = ["CPython runs signal handlers where it checks for pending work: function entries and ends of calls, and backward jumps.",
               "Instants inside the standard condition variables (threading.py) aren't injected.",
               "When close() itself gets interrupted, only the locks and data of other streams are checked (see DESIGN.md)."]


class Interruption(BaseException):
    pass


class Stage(Scene):
    """Has more operations."""

    def act(self):
        kind = self.op[0]
        if kind == "resize":
            return self.g.truncate(self.op[1])
        if kind == "trylock":
            return self.g.lock_file(timeout=0.011, length=1, offset=162)
        if kind == "tryopen":
            return self.open(self.paths[0], "raw", False, locking=True, timeout=0.011)
        return super().act()


def other():
    rng = st.tuples(st.integers(0, 40), st.integers(0, 9), st.booleans())
    return st.tuples(st.integers(0, 3).map(lambda x: min(x, 1) and 1 - (x == 2)), c36.layer(), st.booleans(), st.weighted((3, rng), (1, st.just(None))), st.booleans(), st.sampled_from(["drop", "context"]))


def strategy():
    op = st.weighted((8, c36.OPERATION.map(lambda o: ("flush",) if o[0] in ("drop", "detach") else o)), (1, st.tuples(st.just("unlock"))),
                     (1, st.tuples(st.sampled_from(["trylock", "tryopen"]))), (1, st.tuples(st.just("resize"), st.sampled_from([250, 257, 303, 399, 401, 500, 5000]))))
    return st.tuples(op, c36.layer(), st.booleans(), st.lists(other(), 0, 2), st.integers(0, 40000), st.booleans(), st.booleans())


def execute(scene, n):
    """Runs the operation, interrupting it at its n-th instant; returns (number of instants, those inside the package, outcome, whether the instant was inside a close)."""
    count, inner, before, where = [0], [], {}, [None]

    def instant(frame):
        count[0] += 1
        if "rsfile" in frame.f_code.co_filename:
            inner.append(count[0])
        if count[0] == n:
            sys.settrace(None)
            names = []
            f = frame
            while f is not None and f.f_code.co_filename != __file__:
                names.append((f.f_code.co_name, "rsfile" in f.f_code.co_filename))
                f = f.f_back
            where[0] = names
            raise Interruption()

    def trace(frame, event, arg):
        if frame.f_code.co_filename.endswith("threading.py") or frame.f_code.co_filename in (__file__, c36.__file__):
            return None
        if event == "call":
            if frame.f_code.co_name != "__init__":
                before.pop(frame.f_back, None)  # returns of functions written in python aren't such instants
            frame.f_trace_opcodes, frame.f_trace_lines = True, False
            instant(frame)
        elif event == "opcode":
            ops = codes.get(frame.f_code)
            if ops is None:
                ops = codes[frame.f_code] = frame.f_code.co_code
            last, before[frame] = before.get(frame), ops[frame.f_lasti]
            if last in BREAKERS and "acquire(" not in linecache.getline(frame.f_code.co_filename, frame.f_lineno or 0):
                instant(frame)  # acquiring a mutex just before a try block is a widely accepted idiom
        elif event == "return":
            before.pop(frame, None)
        return trace

    old = sys.gettrace()
    try:
        sys.settrace(trace)
        try:
            r = scene.act()
        finally:
            sys.settrace(old)
    except Interruption as e:
        r = "INTERRUPTED"
        del e
    except Exception as e:
        r = Raised(e)
        del e
    before.clear()
    return count[0], inner, r, where[0]


def run(case, env):
    op, glayer, ts, others, n, glocked, quiet = case
    kind = op[0]
    if kind in ("trylock", "tryopen"):
        case = case[:-1] + (False,)  # the range must be locked
    gc.collect()
    start_prober()
    base = fds()
    s = Stage(env, case, "dry", False)
    s.g = Acting(s.g, glayer)
    env.defer(finish, s)
    total, inner, _, _ = execute(s, -1)
    finish(s)
    del s
    gc.collect()
    s = Stage(env, case, "f", False)
    s.g = g = Acting(s.g, glayer)
    env.defer(finish, s)
    locks, olocks = list(s.locks), list(s.vlocks)
    at = 1 + n // 4 % max(total, 1)
    if n % 4 and inner:  # mostly those in the code of rsfile
        at = inner[n // 4 % len(inner)]
    pos = 100
    g.seek(pos)
    _, _, r, where = execute(s, at)
    if where is None:
        env.nontrivial = False
        env.label("not-reached")
        return
    what = "%r interrupted at instant %d of %d (%s): " % (op, at, total, " < ".join(x for x, _ in where[:4]))
    in_init = any(x == "__init__" and package for x, package in where)  # the result of os.open() might be lost before being stored
    in_del = any(x == "__del__" for x, _ in where)
    in_close = kind == "close" or any(x == "close" and package for x, package in where) or in_del
    if r != "INTERRUPTED" and not in_del:
        raise Violation("swallowed", what + "the exception doesn't get out of the operation, which gives %r" % (r,))
    gc.collect()
    # what the locks may be now
    before = locks + olocks
    after = list(before)
    if kind in ("lock", "with"):
        asked = bounds(op[1])
        if not any(l[0] == 0 and overlap(asked[:2], l[2:4]) and (l[1] == "g" or not (asked[2] and l[4])) for l in before):
            after.append((0, "g") + asked)
    elif kind == "unlock" or kind == "close":
        after = [l for l in before if l[1] != "g"]
    maps = []
    for states in (before, after):
        maps.append([normalise([(l[2], l[3], "s" if l[4] else "x") for l in states if l[0] == i]) for i in (0, 1)])
    got = [lockmap(p) for p in s.paths]
    if not in_close:
        if got not in maps:
            raise Violation("kernel-map", what + "files are locked as %r instead of %r or %r" % (got, maps[0], maps[1]))
    if kind == "resize":
        size = s.q[0].size()
        if size not in (SIZE, op[1]):
            raise Violation("content", what + "the file has %d bytes" % size)
        s.contents[0] = (s.contents[0] + b"\0" * 5000)[:size]
    # other threads, and the process itself
    answers = []
    tolerated = None

    def asker():
        if ts and not g.f.closed:
            call(g.seekable)
        for i in (0, 1):
            for b in sorted({0, 30, 152, 158, 162, 170, 300} | {l[2] for l in before if l[0] == i}):
                x = call(s.q[i].lock_file, timeout=0, length=1, offset=b)
                answers.append((i, b, x if isinstance(x, Raised) else None))
                if not isinstance(x, Raised):
                    s.q[i].unlock_file(length=1, offset=b)

    def ask(state, title):
        del answers[:]
        t = threading.Thread(target=asker, daemon=True)
        t.start()
        t.join(15)
        if t.is_alive():
            raise Violation("stuck", what + title + "another thread can't use locks anymore")
        for i, b, x in answers:
            conflict = any(overlap((b, b + 1), (lo, hi)) for lo, hi, _ in state[i])
            if x is not None and not conflict and (in_close or i == 0 and tolerated and overlap((b, b + 1), tolerated[:2])):
                continue
            if (x is not None) != conflict:
                raise Violation("registry", what + title + "asking for byte %d of file %d gives %r, locks being %r" % (b, i, x, state[i]))

    if not in_close:
        tolerated = kind in ("lock", "with") and asked  # may stay registered without being really taken, until the stream is closed
        ask(got, "")
        tolerated = None
        if lockmap(s.paths[0]) != got[0] or lockmap(s.paths[1]) != got[1]:
            raise Violation("kernel-map", what + "then locks changed by themselves")
    # the stream itself must still be usable
    if kind in ("detach", "close") or in_close:
        pass
    else:
        x = call(g.tell)
        if x != pos and kind not in ("write", "read", "seek"):
            raise Violation("position", what + "then the stream is at %r instead of %d" % (x, pos))
        x = call(g.seek, 300)
        if x != 300:
            raise Violation("usable", what + "then seek() gives %r" % (x,))
        if kind == "write":
            x = call(g.flush)
            part = s.q[0]
            part.seek(0)
            content = part.read(5000)
            old = bytes(s.contents[0])
            if isinstance(x, Raised) or content[300:307] not in (old[300:307], b"G" * 7):
                raise Violation("content", what + "then flush() gives %r, and the file has %r" % (x, content[295:312]))
            s.contents[0][300:307] = b"H" * 7
        x = call(g.write, "H" * 7 if glayer == "text" else b"H" * 7)
        y = call(g.flush)
        if kind == "resize":
            s.contents[0] += b"\0" * (300 - len(s.contents[0]))
        s.contents[0][300:307] = b"H" * 7
        if x != 7 or isinstance(y, Raised):
            raise Violation("usable", what + "then write() gives %r, and flush() %r" % (x, y))
        call(g.seek, 285)
        x = call(g.read, 30)
        want = bytes(read_file_quietly(s.q[0]))[285:315]
        if isinstance(x, Raised) or (x.encode("latin-1") if glayer == "text" else x) != want:
            raise Violation("usable", what + "then read() gives %r instead of %r" % (x, want))
        if kind == "unlock" and s.glock and got == maps[0]:
            x = call(g.unlock_file, length=5, offset=150)
            if isinstance(x, Raised):
                raise Violation("usable", what + "then unlocking again gives %r" % (x,))
    # closing must work, and release all that the stream had
    for f in [g] + s.keep:
        x = call(f.close)
        if isinstance(x, Raised) and not in_close and kind != "detach":
            raise Violation("close", what + "then close() gives %r" % (x,))
        if isinstance(x, Raised):
            call(f.close)
    s.keep[:] = []
    gc.collect()
    left = [normalise([(l[2], l[3], "s" if l[4] else "x") for l in before if l[0] == i and l[1] != "g"]) for i in (0, 1)]
    got = [lockmap(p) for p in s.paths]
    if in_close:
        for i in (0, 1):
            for lo, hi, how in left[i]:
                if not any(a <= lo and (b is None or (hi is not None and hi <= b)) and k == how for a, b, k in got[i]):
                    raise Violation("kernel-map", what + "file %d is locked as %r, locks of other streams being %r" % (i, got[i], left[i]))
        ask(left, "once everything is closed, ")
    else:
        if got != left:
            raise Violation("kernel-map", what + "once the stream is closed, files are locked as %r instead of %r" % (got, left))
        ask(left, "once the stream is closed, ")
    for f in [v[2] for v in s.victims]:
        x = call(f.flush)
        if isinstance(x, Raised):
            raise Violation("others", what + "another stream can't be flushed: %r" % (x,))
    for i in (0, 1):
        c = bytes(read_file_quietly(s.q[i]))
        want = bytes(s.contents[i])
        if c != want and not (kind == "append" and i == 1 and c in (want + b"[APP]", want + b"[APP]" * 2)):
            raise Violation("content", what + "file %d has %r instead of %r" % (i, c[140:], want[140:]))
    finish(s)
    gc.collect()
    if not in_close:
        if len(fds() - base) > in_init:
            raise Violation("fds", what + "descriptors %r are left once everything is closed" % (sorted(fds() - base),))
        for p in s.paths:
            if lockmap(p):
                raise Violation("residue", what + "locks %r are left once everything is closed" % (lockmap(p),))
    env.steps += 2
    env.nontrivial = any(package for _, package in where[:1])
    env.label("op:" + kind, "layer:" + glayer, "closing" if in_close else "operating")


PARTS = [Part("instants", strategy, run, quick=9000, thorough=150000, setup=start_prober)]
