"""C14: inheritable thread-safe streams are atomic across forked processes."""
import mmap
import os
import pickle
import select
import signal
import sys
import threading
import time

import gen as st
from c13 import Tracker, do_call, open_tracked, untrack
from core import HarnessError, Part, Violation, set_pdeathsig
from procs import _recv, _send
from streams import Raised, call, rsfile, short

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing: generated programs run by several forked processes (and threads of theirs) on one inherited stream with generated pauses, the oracle being a shared-memory "
             "occupancy record of the stream (no two processes inside at once) and a grammar of the final content")
RULE = ("Cases are (layer, mode, mutex kind, one program per process). Programs mix single calls, write+flush, and blocks under the stream's mutex; every message is unique and must be found exactly once, "
        "contiguous, blocks included, counters incremented under the mutex must be exact, and occupancy never exceeds one process. Non-trivial: at least two processes entered the stream.")
ASSUMPTIONS = ["Processes are forked from the one which opened the stream, on Linux.", "No process dies while holding the mutex."]


class SharedTracker(Tracker):
    """Occupancy of the stream by processes, in shared memory: one 4-byte counter of current entries per process, then one of all entries."""

    def __init__(self, pauses):
        Tracker.__init__(self, None, pauses)
        self.mem = mmap.mmap(-1, 4096)
        self.me = 0

    def enter(self, name):
        # each process only writes its own cells; threads of a process are serialised by self.guard
        with self.guard:
            self.inside[threading.get_ident()] = self.inside.get(threading.get_ident(), 0) + 1
            busy = [t for t, d in self.inside.items() if d and t != threading.get_ident()]
            first = sum(self.inside.values()) == 1
            self.mem[self.me * 2] = 1
            self.mem[self.me * 2 + 1] = 1
            others = [i for i in range(16) if i != self.me and self.mem[i * 2]]
            if others:
                self.problems.append(("overlap", "%s() entered by process %d while process %r is inside" % (name, self.me, others)))
            if busy:
                self.problems.append(("overlap", "%s() entered while another thread of the process is inside" % name))
            pause = self.pauses.pop() if self.pauses and first else None
        if pause:
            time.sleep(pause)

    def leave(self):
        with self.guard:
            self.inside[threading.get_ident()] -= 1
            if not sum(self.inside.values()):
                self.mem[self.me * 2] = 0

    def entered(self):
        return sum(self.mem[i * 2 + 1] for i in range(16))


@st.composite
def strategy(draw):
    t, j = st.tuples, st.just
    size = st.sampled_from([1, 2, 10, 100, 1000, 3000])
    what = draw(st.sampled_from(["messages", "messages", "counter", "calls"]))
    if what == "messages":
        op = st.weighted((4, t(j("msg"), size)), (2, t(j("block"), st.lists(size, 1, 3))), (1, t(j("lines"), st.lists(size, 1, 3))))
    elif what == "counter":
        op = st.weighted((4, t(j("inc"), st.integers(1, 3))), (1, t(j("twice"), st.integers(1, 2))))
    else:
        op = st.weighted((3, t(j("call"), st.sampled_from(["tell", "size", "flush", "write", "read", "seek", "sync", "truncate", "readline", "times"]))), (1, t(j("next"))), (1, t(j("lockctx"), st.integers(0, 50))))
    nproc = draw(st.integers(2, 4))
    progs = [draw(st.lists(st.lists(op, 1, 6), 1, 2)) for i in range(nproc)]  # each process: one or two threads
    parent = draw(st.booleans())
    return (what, draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.sampled_from(["RWI", "RWI", "RAI", "RWEI"])), draw(st.sampled_from([None, None, None, "RLock", "Lock"])),
            draw(st.sampled_from([None, 16, 500])), progs, parent, draw(st.lists(st.sampled_from([0, 1, 5, 20]), 0, 8)), draw(st.booleans()))


def run(case, env):
    what, layer, mode, kind, buf, progs, parent, pauses, used_before = case
    if what == "counter" and "A" in mode:
        mode = "RWI"
    text = layer == "text"
    path = env.path("f")
    header = "%08d" % 0 if what == "counter" else ""
    tracker = SharedTracker([x / 10000.0 for x in pauses])
    kw = dict(locking=False)
    if layer != "raw" and buf:
        kw["buffering"] = buf
    if text:
        kw.update(encoding="ascii", newline="\n")
    import multiprocessing

    ctx = multiprocessing.get_context("fork")
    mutex = {None: None, "RLock": ctx.RLock, "Lock": ctx.Lock}[kind]
    if mutex is not None:
        mutex = mutex()
    with open(path, "w") as g:
        g.write(header)
    if what == "counter":
        mode = "RWI"
    f, created = open_tracked(tracker, path, layer, mode, mutex=mutex, **kw)
    env.defer(untrack, created)
    if used_before:
        f.tell()
        f.flush()
    if kind == "Lock":  # not re-entrant
        progs = [[[op for op in th if op[0] not in ("block", "inc", "twice")] for th in pr] for pr in progs]

    def conv(s):
        return s if text else s.encode("ascii")

    def message(p, th, k, n):
        return "<%d.%d.%d:%s>" % (p, th, k, chr(97 + p * 2 + th) * n)


    def thread_main(p, th, ops):
        for k, op in enumerate(ops):
            kindop = op[0]
            if kindop == "msg":
                if layer == "raw":
                    f.write(conv(message(p, th, k, op[1])))
                else:
                    # the buffer is private to the process (its threads share it), the flush is one more call
                    with f.mutex if kind != "Lock" else _Nothing():
                        if kind == "Lock":
                            f.writelines([conv(message(p, th, k, op[1]))])
                            f.flush()
                        else:
                            f.write(conv(message(p, th, k, op[1])))
                            f.flush()
            elif kindop == "lines":
                if layer == "raw":
                    f.write(conv(message(p, th, k, op[1][0])))
                else:
                    f.write(conv(message(p, th, k, op[1][0])))
                    f.flush()
            elif kindop == "block":
                with f.mutex:
                    for i, n in enumerate(op[1]):
                        f.write(conv("[%d.%d.%d.%d/%d:%s]" % (p, th, k, i, len(op[1]), chr(97 + p * 2 + th) * n)))
                        if i % 2:
                            f.flush()
                    f.flush()
            elif kindop in ("inc", "twice"):
                for i in range(op[1]):
                    with f.mutex:
                        for z in range(2 if kindop == "twice" else 1):
                            f.seek(0)
                            v = int(f.read(8))
                            f.seek(0)
                            f.write(conv("%08d" % (v + 1)))
                        f.flush()
            elif kindop == "call":
                n = op[1]
                do_call(f, n, {"write": ("w",), "seek": (0,), "read": (3,)}.get(n, ()), text)
            elif kindop == "next":
                call(next, f)
            elif kindop == "lockctx":
                r = call(f.lock_file, 0, 3, op[1])
                if not isinstance(r, Raised):
                    call(r.__enter__)
                    call(r.__exit__, None, None, None)

    def process_main(p, prog):
        tracker.me = p
        errors = []

        def main(th, ops):
            try:
                thread_main(p, th, ops)
            except BaseException as e:
                import traceback

                errors.append(traceback.format_exc()[-1500:])

        if len(prog) == 1:
            main(0, prog[0])
        else:
            ths = [threading.Thread(target=main, args=(i, ops)) for i, ops in enumerate(prog)]
            [t.start() for t in ths]
            [t.join() for t in ths]
        return errors, tracker.problems[:3]

    env.steps += sum(len(th) for pr in progs for th in pr)
    go_r, go_w = os.pipe()
    children = []
    start = 1 if parent else 0
    for p in range(start, len(progs)):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                set_pdeathsig()
                os.close(go_w)
                os.close(r)
                os.read(go_r, 1)  # EOF: everybody is ready
                _send(w, process_main(p, progs[p]))
            finally:
                os._exit(0)
        os.close(w)
        children.append((p, pid, r))

    def cleanup():
        for p, pid, r in children:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            os.close(r)
        os.close(go_r)

    env.defer(cleanup)
    os.close(go_w)
    reports = []
    if parent:
        reports.append((0, process_main(0, progs[0])))
    deadline = time.monotonic() + 40
    for p, pid, r in children:
        if not select.select([r], [], [], max(0.01, deadline - time.monotonic()))[0]:
            raise Violation("deadlock", "process %d is blocked" % p)
        try:
            reports.append((p, _recv(r)))
        except EOFError:
            raise HarnessError("child died")
    for p, (errors, problems) in reports:
        for key, text_ in problems:
            raise Violation(key, text_)
        for e in errors:
            raise Violation("exception", "process %d: %s" % (p, e))
    env.nontrivial = tracker.entered() > 1
    env.label("what:" + what, "layer:" + layer, "mutex:%s" % kind)
    with open(path, "rb") as g:
        content = g.read().decode("ascii", "replace")
    if what == "counter":
        n = sum(op[1] * (2 if op[0] == "twice" else 1) for pr in progs for th in pr for op in th)
        if content != "%08d" % n:
            raise Violation("atomicity", "%s after %d increments" % (short(content), n))
    elif what == "messages":
        expected = {}
        for p, pr in enumerate(progs):
            for th, ops in enumerate(pr):
                for k, op in enumerate(ops):
                    if op[0] == "msg":
                        expected[message(p, th, k, op[1])] = 1
                    elif op[0] == "lines":
                        expected[message(p, th, k, op[1][0])] = 1
                    else:
                        expected["".join("[%d.%d.%d.%d/%d:%s]" % (p, th, k, i, len(op[1]), chr(97 + p * 2 + th) * n) for i, n in enumerate(op[1]))] = 1
        pos = 0
        while pos < len(content):
            hit = [m for m in expected if content.startswith(m, pos)]
            if not hit:
                raise Violation("torn", "unexpected data at %d: %s" % (pos, short(content[pos:pos + 60])))
            del expected[hit[0]]
            pos += len(hit[0])
        if expected:
            raise Violation("lost", "missing: %s" % short([m[:40] for m in expected]))


class _Nothing(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


PARTS = [Part("processes", strategy, run, quick=3800, thorough=50000, deterministic=False, hang=90)]
