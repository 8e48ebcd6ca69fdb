"""C39: operations of two threads, on different streams of the same files, are equivalent to one after the other."""
import fcntl
import gc
import os
import sys
import threading

import c36
import gen as st
from c36 import BREAKERS, SIZE, Acting, Scene, bounds, codes, finish, overlap, read_file_quietly
from core import Part, Violation
from procs import Remote, fds, lockmap, start_prober
from streams import Raised, call

ID = "C39"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated pairs of operations by two threads, the second one being executed while the first one is paused at a generated instant, among all those where the interpreter "
             "may switch threads (function entries, ends of calls, backward jumps); metamorphic oracle: both sequential orders")
RULE = ("Cases are (two operations with their layers, other streams with their locks and buffered data, lock of another process, instants). Each pair is executed in both orders by a single thread, then with the second operation executed by a thread "
        "while the first one is paused at each of the given instants (until that thread ends or is blocked). Results, kernel locks, locks known in the process, contents must be those of one of the orders (a "
        "request may also be refused because of a lock temporarily taken by the other operation), and no descriptor be left. Part 'wakeup': one of the operations is a blocking lock request which the other one makes "
        "grantable; it must be granted. Non-trivial: the second operation ended during the pause, in the code of rsfile, and both operations concern the same file.")
ASSUMPTIONS = ["One preemption per pair of operations; each thread then runs as the machine schedules it."]

_holder = None


def _holder_handler():
    held = []

    def handle(path):
        while held:
            os.close(held.pop())
        if path:
            held.append(os.open(path, os.O_RDWR))
            try:
                fcntl.lockf(held[0], fcntl.LOCK_EX | fcntl.LOCK_NB, 2, 131)
            except OSError:
                pass  # another stream has that range
        return True
    return handle


def setup():
    global _holder
    start_prober()
    if _holder is None or _holder.ppid != os.getpid():
        _holder = Remote(_holder_handler)


FILE1 = {"append", "readfile", "openlock"}


def op():
    rng = st.tuples(st.weighted((3, st.integers(144, 178)), (1, st.integers(122, 146))), st.weighted((3, st.integers(1, 12)), (1, st.just(0))), st.booleans())
    return st.weighted((4, c36.OPERATION), (3, st.tuples(st.just("lock"), rng)), (1, st.tuples(st.just("with"), rng)), (2, st.tuples(st.sampled_from(["unlock", "unlock", "close", "drop"]))))


def other():
    rng = st.tuples(st.integers(0, 40), st.integers(0, 9), st.booleans())
    return st.tuples(st.integers(0, 3).map(lambda x: min(x, 1) and 1 - (x == 2)), c36.layer(), st.booleans(), st.weighted((3, rng), (1, st.just(None))), st.booleans(), st.just("drop"))


def strategy():
    near = st.tuples(st.integers(144, 154), st.integers(2, 12), st.booleans())
    release = st.tuples(st.sampled_from(["unlock", "unlock", "close", "drop"]))
    request = st.weighted((3, st.tuples(st.just("lock"), near)), (1, st.tuples(st.just("with"), near)))
    often, seldom = st.weighted((3, st.just(True)), (1, st.just(False))), st.weighted((1, st.just(True)), (3, st.just(False)))
    pair = st.weighted((2, st.tuples(op(), op(), often)), (1, st.tuples(release, request, st.just(True))), (1, st.tuples(request, release, st.just(True))))
    instants = st.lists(st.integers(0, 40000), 5, 7)
    rest = st.tuples(c36.layer(), c36.layer(), st.booleans(), st.booleans(), st.lists(other(), 0, 2), instants)
    return st.tuples(pair, rest, st.booleans(), often, seldom).map(lambda x: x[0][:2] + x[1] + (x[0][2],) + x[2:])


def wakeup_strategy():
    release = st.sampled_from(["unlock", "close", "drop", "with", "badlock-close"])
    return st.tuples(release, st.booleans(), c36.layer(), c36.layer(), st.booleans(), st.booleans(), st.integers(0, 4), st.integers(0, 200), st.booleans(), st.booleans())


class Actor(object):
    """Acts with its own stream on the files of a scene."""

    act = Scene.act
    open = Scene.open

    def __init__(self, scene, op, layer, ts, locked):
        self.rs, self.paths, self.op = scene.rs, scene.paths, op
        self.keep = []
        self.g = Acting(scene.open(scene.paths[0], layer, ts), layer)
        self.glock = None
        if locked:
            r = call(self.g.lock_file, timeout=0, length=5, offset=150 if locked == 1 else 170)
            self.glock = None if isinstance(r, Raised) else locked  # another stream might have locked it

    def run(self):
        if self.op[0] == "unlock" and self.glock == 2:
            return call(self.g.unlock_file, length=5, offset=170)
        return call(self.act)

    def finish(self):
        for f in [self.g] + self.keep:
            if f is not None:
                call(f.close)
        self.g = None
        del self.keep[:]


class Duo(object):
    def __init__(self, env, case, tag):
        opa, opb, la, lb, tsa, tsb, others, n, locka, lockb, quiet, external = case
        quiet = quiet and not {opa[0], opb[0]} & {"badlock", "badopen"}
        self.s = Scene(env, (opa, "raw", False, others, 0, False, quiet), tag, False)
        self.a = Actor(self.s, opa, la, tsa, locka and 1)
        self.b = Actor(self.s, opb, lb, tsb, lockb and 2)
        env.defer(self.finish)
        self.external = external
        if external:
            _holder.call(self.s.paths[0])  # another process locks some bytes

    def outcome(self, ra, rb):
        """Describes the final state."""
        s = self.s
        for f in (self.a.g, self.b.g):
            if f is not None:
                call(f.flush)
        maps = [lockmap(p) for p in s.paths]
        answers = []
        for i in (0, 1):
            for b in sorted({0, 5, 30, 48, 149, 150, 152, 154, 158, 162, 171, 174, 178, 190} | {l[2] for l in s.vlocks if l[0] == i}):
                r = call(s.q[i].lock_file, timeout=0, length=1, offset=b)
                answers.append((i, b, isinstance(r, Raised)))
                if not isinstance(r, Raised):
                    s.q[i].unlock_file(length=1, offset=b)
        contents = [bytes(read_file_quietly(s.q[i])) for i in (0, 1)]
        return (simplified(ra), simplified(rb), maps, answers, contents)

    external = False

    def finish(self):
        self.a.finish()
        self.b.finish()
        finish(self.s)
        if self.external:
            self.external = False
            _holder.call(None)


def transient(op, external):
    """Tells if the operation may prevent another one, even though it leaves no lock."""
    return op[0] in ("with", "append", "readfile") or external and op[0] == "lock"  # it might be refused by the other process


def simplified(r):
    if isinstance(r, Raised):
        return r.text.split("(")[0]
    if isinstance(r, tuple):
        return r[0]
    return r


def paused(actor, n, pause):
    """Runs the operation, calling pause() at its n-th instant; returns (number of instants, those inside the package, outcome, place of the pause)."""
    count, inner, before, where = [0], [], {}, [None]

    def instant(frame):
        count[0] += 1
        package = "rsfile" in frame.f_code.co_filename
        if package:
            inner.append(count[0])
        if count[0] == n:
            sys.settrace(None)
            where[0] = package, "%s:%s" % (frame.f_code.co_name, frame.f_back and frame.f_back.f_code.co_name)
            pause()

    def trace(frame, event, arg):
        if frame.f_code.co_filename in (__file__, c36.__file__):
            return None
        if event == "call":
            if frame.f_code.co_name != "__init__":
                before.pop(frame.f_back, None)  # returns of functions written in python aren't such instants
            frame.f_trace_opcodes, frame.f_trace_lines = True, False
            instant(frame)
        elif event == "opcode":
            ops = codes.get(frame.f_code)
            if ops is None:
                ops = codes[frame.f_code] = frame.f_code.co_code
            last, before[frame] = before.get(frame), ops[frame.f_lasti]
            if last in BREAKERS:
                instant(frame)
        elif event == "return":
            before.pop(frame, None)
        return trace

    sys.settrace(trace)
    try:
        r = actor.run()
    finally:
        sys.settrace(None)
    before.clear()
    return count[0], inner, r, where[0]


def run(case, env):
    opa, opb, la, lb, tsa, tsb, others, n, locka, lockb, quiet, external = case
    gc.collect()
    start_prober()
    base = fds()
    # both orders, one after the other
    d = Duo(env, case, "ab")
    total, inner, ra, _ = paused(d.a, -1, None)
    rb = d.b.run()
    allowed = [d.outcome(ra, rb)]
    d.finish()
    d = Duo(env, case, "ba")
    rb = d.b.run()
    ra = d.a.run()
    allowed.append(d.outcome(ra, rb))
    d.finish()
    if transient(opa, external):
        d = Duo(env, case, "a")
        ra = d.a.run()
        allowed.append(d.outcome(ra, "refused"))
        d.finish()
    if transient(opb, external):
        d = Duo(env, case, "b")
        rb = d.b.run()
        allowed.append(d.outcome("refused", rb))
        d.finish()
    # interleaved, at several instants
    done = set()
    for k, x in enumerate(n):
        at = 1 + x // 4 % max(total, 1)
        if x % 4 and inner:  # mostly those in the code of rsfile
            at = inner[x // 4 % len(inner)]
        if at not in done:
            done.add(at)
            interleaved(case, env, allowed, total, at, "i%d" % k, base)


def interleaved(case, env, allowed, total, at, tag, base):
    opa, opb, la, lb, tsa, tsb, others, n, locka, lockb, quiet, external = case
    d = Duo(env, case, tag)
    rb = []
    ended = []
    thread = threading.Thread(target=lambda: (rb.append(d.b.run()), ended.append(1)), daemon=True)

    def pause():
        thread.start()
        thread.join(0.004)
        ended.append(not thread.is_alive())

    _, _, ra, where = paused(d.a, at, pause)
    if where is None:
        d.finish()
        return
    thread.join(15)
    what = "%r paused at instant %d of %d (%s) during %r: " % (opa, at, total, where[1], opb)
    if thread.is_alive():
        raise Violation("deadlock", what + "the second one never ends")
    rb = rb[0]
    during = ended[0] == 1 and ended[1] is True
    got = d.outcome(ra, rb)
    ok = got in allowed
    if not ok:
        for who, e in ((1, opa), (0, opb)):
            if transient(e, external) and got[who] == "LockingException":
                forms = [x for x in allowed if x[who] == "refused"]
                ok = ok or any(got[1 - who] == x[1 - who] and got[2:] == x[2:] for x in forms)
    if not ok:
        names = ["result", "result", "kernel-map", "registry", "content"]
        best = max(allowed[:2], key=lambda x: sum(p == q for p, q in zip(x, got)))
        k = [i for i in range(5) if best[i] != got[i]][0]
        raise Violation(names[k], what + "it gives %r, which is neither %r nor %r (results %r)" % (got[k] if k != 3 else [x for x, y in zip(got[3], best[3]) if x != y], allowed[0][k], allowed[1][k], got[:2]))
    d.finish()
    gc.collect()
    left = fds() - base
    if left:
        raise Violation("fds", what + "descriptors %r are left once everything is closed" % (sorted(left),))
    for p in d.s.paths:
        if lockmap(p):
            raise Violation("residue", what + "locks %r are left once everything is closed" % (lockmap(p),))
    env.steps += 2
    env.nontrivial = env.nontrivial or bool(during and where[0] and (opa[0] in FILE1) == (opb[0] in FILE1))
    env.label("first:" + opa[0], "second:" + opb[0], "ended" if during else "blocked")


def run_wakeup(case, env):
    """A request of one thread waits for a lock which the other one releases; either of them gets paused."""
    release, waiter_paused, la, lb, tsa, tsb, start, at, shared, others = case
    gc.collect()
    start_prober()
    base = fds()
    s = Scene(env, (("block",), "raw", False, [], 0, False, False), "w", False)
    env.defer(finish, s)
    holder = Actor(s, ("unlock",), la, tsa, 0)
    waiter = Actor(s, ("block",), lb, tsb, 0)
    env.defer(holder.finish)
    env.defer(waiter.finish)
    if release == "with":
        context = holder.g.lock_file(timeout=0, length=5, offset=150)
    else:
        holder.g.lock_file(timeout=0, length=5, offset=150)
    second = None
    if others:  # another thread waits too
        second = Actor(s, ("block",), "raw", False, 0)
        env.defer(second.finish)

    def let():
        if release == "unlock":
            holder.g.unlock_file(length=5, offset=150)
        elif release == "with":
            with context:
                pass
        elif release in ("close", "badlock-close"):
            if release != "close":
                call(holder.g.lock_file, timeout=0, length=1, offset=162)
            holder.g.close()
        else:
            holder.g = None
        return "released"

    def want(actor, off, length=1):
        return actor.g.lock_file(length=length, offset=off, shared=shared) and "granted"

    holder.run = lambda: call(let)
    waiter.run = lambda: call(want, waiter, 149 + start)
    threads, results = [], {}

    once = threading.Lock()

    def begin_holder():
        if once.acquire(blocking=False):
            begin("holder", holder.run).join(0.004)

    def begin(name, f):
        t = threading.Thread(target=lambda: results.__setitem__(name, f()), daemon=True)
        threads.append(t)
        t.start()
        return t

    if second is not None:
        begin("second", lambda: call(want, second, 154))
    where = None
    if waiter_paused:
        def main():
            r = paused(waiter, 1 + at % 90, begin_holder)
            if r[3]:
                results["where"] = r[3]
            return r[2]
        t = begin("waiter", main)
        t.join(0.02)
        begin_holder()  # the waiter is probably blocked already
    else:
        r = paused(holder, 1 + at % 70, lambda: (begin("waiter", waiter.run), threads[-1].join(0.004)))
        results["holder"] = r[2]
        where = r[3]
        if where is None:
            begin("waiter", waiter.run)
    for t in threads:
        t.join(20)
    for t in list(threads):
        t.join(20)
    where = where or results.get("where")
    what = "%s, %s paused at instant %d (%s): " % (release, "request" if waiter_paused else "release", at, where and where[1])
    if any(t.is_alive() for t in threads):
        raise Violation("lost-wakeup", what + "a lock request still waits although nothing conflicts anymore; done: %r" % results)
    if results.get("holder") != "released" or results.get("waiter") != "granted" or second is not None and results.get("second") != "granted":
        raise Violation("result", what + "results are %r" % results)
    mode = "s" if shared else "x"
    holder.finish()
    waiter.finish()
    if second is not None:
        second.finish()
    finish(s)
    gc.collect()
    if fds() != base:
        raise Violation("fds", what + "descriptors %r are left" % (sorted(fds() - base),))
    env.nontrivial = bool(where and where[0])
    env.label("release:" + release, "waiter-paused" if waiter_paused else "holder-paused", "reached" if where else "not-reached")


PARTS = [Part("pairs", strategy, run, quick=3000, thorough=60000, setup=setup, deterministic=False, hang=60),
         Part("wakeup", wakeup_strategy, run_wakeup, quick=2500, thorough=40000, setup=setup, deterministic=False, hang=60)]
