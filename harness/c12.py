"""C12: forked children don't inherit locks and don't disturb the parent's."""
import gc
import os
import select
import signal
import warnings

import gen as st
from core import HarnessError, Part, Violation
from lockworld import Executor, Handle, World, history, make_files, op_strategy
from procs import Remote, lockmap_fd, normalise
from streams import Raised, call, rsfile

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "model-based testing: generated histories over a tree of forked processes sharing inherited streams, against a per-process range-lock model and the kernel lock map seen by a third process"
RULE = ("Histories of open/lock/unlock/read/write/close operations interleaved with forks (up to 4 processes, nested) and child exits; children use inherited and new streams. "
        "Outcomes and the kernel lock map after every step are compared with the model where a fork copies handles but no lock. Non-trivial: a fork while locks are held, followed "
        "by at least one operation of the child on an inherited stream of a locked file. Another part forks while other threads of the process are working "
        "(locking, opening, waiting): the child's requests have their normal outcome within 15 s, and the threads of the parent go on; non-trivial: a thread was inside rsfile.")
ASSUMPTIONS = ["Forks happen while no other thread of the process is inside a call on a stream which the child then uses."]


class ForkExecutor(Executor):
    def __init__(self, streams=None):
        Executor.__init__(self)
        if streams is not None:
            self.s = streams
        self.children = {}

    def __call__(self, req):
        if req[0] == "relay":
            _, path, inner = req
            if not path:
                return self(inner)
            return self.children[path[0]].call(("relay", path[1:], inner))
        if req[0] == "fork":
            streams = self.s
            self.children[req[1]] = Remote(lambda: ForkExecutor(streams))
            return None
        if req[0] == "die":
            child = self.children.pop(req[1])
            if req[2] == "kill":
                child.kill()
            else:
                if req[2] == "drop":
                    child.call(("relay", (), ("drop",)))
                elif req[2] == "closeall":
                    child.call(("relay", (), ("closeall",)))
                child.send(("__exit__",))
                os.close(child.w)
                os.close(child.r)
                os.waitpid(child.pid, 0)
            return None
        if req[0] == "drop":
            self.s.clear()
            gc.collect()
            return None
        if req[0] == "closeall":
            for f in self.s.values():
                call(f.close)
            self.s.clear()
            return None
        if req[0] == "filefds":
            out = []
            for n in os.listdir("/proc/self/fd"):
                try:
                    out.append((int(n), os.readlink("/proc/self/fd/" + n)))
                except OSError:
                    pass
            return [fd for fd, l in out if "/file" in l]
        return Executor.__call__(self, req)


OPS = op_strategy(4, 4, 2)
HIST0 = history(1, nslots=4, nfiles=2, max_ops=8)


@st.composite
def strategy(draw):
    pre = draw(HIST0)
    ops = draw(st.lists(OP, 2, 22))
    ops.insert(draw(st.integers(0, 2)), (0, "fork", 0))
    return (pre, ops)


OP = st.weighted((12, OPS), (4, st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3]), st.just("fork"), st.just(0))),
                 (1, st.tuples(st.integers(1, 3), st.just("die"), st.sampled_from(["kill", "exit", "drop", "closeall"]))),
                 (2, st.tuples(st.integers(0, 3), st.just("steal"), st.integers(0, 9))),
                 (2, st.tuples(st.integers(0, 3), st.just("unlock_other"), st.integers(0, 9))))


def run(case, env):
    pre, ops = case
    rsfile()
    files = make_files(env.dir)
    root = Remote(lambda: ForkExecutor())
    env.defer(root.kill)
    probes = [os.open(f[0], os.O_RDWR) for f in files]
    for fd in probes:
        env.defer(os.close, fd)
    paths = {0: ()}

    def x(p, req):
        return root.call(("relay", paths[p], req))

    w = World(x, files, env)
    m = w.m

    def check(what):
        for i, fd in enumerate(probes):
            got, want = lockmap_fd(fd), normalise(m.file_map(i))
            if got != want:
                w.fail("kernel-map", "after %r, file %d: other processes see locks %r, but held locks are %r" % (what, i, got, m.locks))

    nxt = [1]
    state = dict(forked_with_locks=False)

    def do(op):
        p, kind = op[0], op[1]
        if p not in paths:
            return
        if kind == "fork":
            n = nxt[0]
            if n > 3:
                return
            w.trace.append(op)
            nxt[0] += 1
            x(p, ("fork", n))
            paths[n] = paths[p] + (n,)
            for (q, slot), h in list(m.handles.items()):
                if q == p:
                    c = Handle(h.file, h.mode, h.layer, 0, h.append)
                    c.offset_ref = h.offset_ref
                    m.handles[(n, slot)] = c
            if any(l[0] == p for l in m.locks):
                state["forked_with_locks"] = True
                env.label("fork-with-locks")
        elif kind == "die":
            if any(q != p and paths[q][:len(paths[p])] == paths[p] for q in paths):
                return  # has children
            w.trace.append(op)
            parent = [q for q in paths if paths[q] == paths[p][:-1]][0]
            x(parent, ("die", p, op[2]))
            env.label("die:" + op[2])
            del paths[p]
            m.locks = [l for l in m.locks if l[0] != p]
            for k in [k for k in m.handles if k[0] == p]:
                del m.handles[k]
        elif kind == "steal":
            # through any stream of that process, the very range locked by another process
            others = [l for l in m.locks if l[0] != p]
            if not others:
                return
            l = others[op[2] % len(others)]
            for key, h in m.handles.items():
                if key[0] == p and h.file == l[2]:
                    w.trace.append(op)
                    length = None if l[5] is None else l[5] - l[4]
                    if state["forked_with_locks"]:
                        env.nontrivial = True
                        env.label("steal")
                    w.lock(p, key, h, length, l[4], 0, None if op[2] % 2 else (not h.w), 0)
                    break
        elif kind == "unlock_other":
            others = [l for l in m.locks if l[0] != p]
            if not others:
                return
            l = others[op[2] % len(others)]
            for key, h in m.handles.items():
                if key[0] == p and h.file == l[2] and not any(q[1] == key and q[4:] == l[4:] for q in m.locks):
                    length = None if l[5] is None else l[5] - l[4]
                    env.label("unlock-other")
                    w.step((p, "unlock_bad", key[1], length, l[4]))
                    break
        else:
            h = m.handles.get((p, op[2]))
            if p and h and state["forked_with_locks"] and any(l[2] == h.file for l in m.locks):
                env.nontrivial = True
            w.step(op)
        check(op)

    for op in pre:
        do(op)
    for op in ops:
        do(op)
    # at the end: each process, in turn, closes all its streams; a child then has no descriptor of the files left but those pending at the fork
    env.label("procs:%d" % len(paths))
    for p in sorted(paths, key=lambda q: (len(paths[q]), q)):
        for key in [k for k in m.handles if k[0] == p]:
            w.close(key)
        check(("close all", p))
    for i, fd in enumerate(probes):
        got = lockmap_fd(fd)
        if got:
            w.fail("residue", "locks left at the end %r" % (got,))
    # every process can now take any lock
    for p in paths:
        r = x(p, ("open", 90, files[0][0], "RWB", 0, False, True))
        if isinstance(r, Raised):
            w.fail("not-released", "process %r can't lock a file which nobody locks anymore: %r" % (p, r))
        r = x(p, ("close", 90))


# ------------------------------------------------------------------------------------ fork while parent threads wait for locks


class WaitExecutor(object):
    """Root process: thread T holds/awaits locks; forks a child meanwhile."""

    def __call__(self, req):
        return call(self._do, *req)

    def _do(self, path, layer, ts, child_first, waiters):
        import threading
        import time

        rs = rsfile()
        mode, buffering = layer
        holder = rs.rsopen(path, mode, buffering=buffering, thread_safe=ts, locking=False)
        holder.lock_file(timeout=0)
        got = []

        def wait(i):
            f = rs.rsopen(path, mode, buffering=buffering, thread_safe=ts, locking=False)
            with f.lock_file():
                got.append(i)
            f.close()

        threads = [threading.Thread(target=wait, args=(i,)) for i in range(waiters)]
        for th in threads:
            th.start()
        time.sleep(0.01 if waiters else 0)

        def child():
            def h(req):
                return call(self._child, rs, holder, path, mode, buffering, ts, req)
            return h

        c = Remote(child)
        out = []
        try:
            if child_first:
                out.append(("child while parent holds", c.call("try")))
                out.append(("child closes inherited", c.call("close")))
                out.append(("child new stream while parent holds", c.call("new")))
            holder.unlock_file()
            for th in threads:
                th.join(15)
            out.append(("waiters", sorted(got)))
            r = None
            t0 = time.monotonic()
            while time.monotonic() - t0 < 10:
                r = c.call("new")
                if not isinstance(r, Raised):
                    break
                time.sleep(0.002)
            out.append(("child after release", r))
            holder.close()
        finally:
            c.kill()
        return out

    def _child(self, rs, holder, path, mode, buffering, ts, req):
        if req == "try":
            holder.lock_file(timeout=0)
        elif req == "close":
            holder.close()
        else:
            rs.rsopen(path, mode, buffering=buffering, thread_safe=ts, locking=True, timeout=0).close()
        return "ok"


def wait_strategy():
    return st.tuples(st.sampled_from([("RWB", 0), ("RWB", -1), ("RWIB", -1), ("RWT", -1)]), st.booleans(), st.booleans(), st.integers(0, 3))


def run_wait(case, env):
    layer, ts, child_first, waiters = case
    rsfile()
    path = env.path("f")
    with open(path, "wb") as f:
        f.write(b"0123")
    root = Remote(WaitExecutor)
    env.defer(root.kill)
    out = root.call((path, layer, ts, child_first, waiters))
    if isinstance(out, Raised):
        raise Violation("error", repr(out))
    env.nontrivial = True
    env.steps += 5
    d = dict(out)
    for k in ("child while parent holds", "child new stream while parent holds"):
        if k in d and not (isinstance(d[k], Raised) and d[k].text.startswith("LockingException")):
            raise Violation("inherited-lock", "%s: %r" % (k, d[k]))
    if d.get("child closes inherited", "ok") != "ok":
        raise Violation("child-close", repr(d))
    if d["waiters"] != list(range(waiters)):
        raise Violation("waiters-lost", "threads of the parent waiting for the lock: %r of %d served" % (d["waiters"], waiters))
    if d["child after release"] != "ok":
        raise Violation("not-released", repr(d))


# ------------------------------------------------------------------------------------ fork while other threads are inside rsfile


class ThreadsExecutor(object):
    """Root process: threads loop on operations of rsfile while the main one forks."""

    def __call__(self, req):
        return call(self._do, *req)

    def _do(self, paths, activities, layer, ts, forks, interval):
        import sys
        import threading
        import time

        rs = rsfile()
        warnings.simplefilter("ignore")  # Python 3.12 deprecates forks in multithreaded processes
        sys.setswitchinterval(interval)
        mode, buffering = layer
        holder = rs.rsopen(paths[0], mode, buffering=buffering, thread_safe=ts, locking=False)
        self.keep = holder  # its lock is observed afterwards
        holder.lock_file(timeout=0, length=10, offset=100)
        busy, done, errors, stop = [False] * len(activities), [0] * len(activities), [], []

        def loop(i, kind):
            try:
                if kind == "wait":
                    g = rs.rsopen(paths[0], "RWB", buffering=0, locking=False)
                elif kind != "open":
                    g = rs.rsopen(paths[0], "RWB", buffering=0, locking=False, thread_safe=False)
                while not stop:
                    busy[i] = True
                    if kind == "lock":
                        g.lock_file(timeout=0, length=3, offset=5 * i)
                        g.unlock_file(length=3, offset=5 * i)
                    elif kind == "with":
                        with g.lock_file(length=3, offset=5 * i):
                            g.seek(5 * i)
                            g.read(2)
                    elif kind == "open":
                        rs.rsopen(paths[2] + str(i), "RWB", buffering=0, locking=True, timeout=0).close()
                    elif kind == "wait":  # conflicts with holder
                        try:
                            g.lock_file(timeout=0.001, length=1, offset=103)
                            errors.append("range locked by the main thread granted to a thread")
                        except rs.LockingException:
                            pass
                    busy[i] = False
                    done[i] += 1
            except Exception as e:
                errors.append("%s: %r" % (kind, e))

        threads = [threading.Thread(target=loop, args=(i, k), daemon=True) for i, k in enumerate(activities)]
        for th in threads:
            th.start()
        t0 = time.monotonic()
        while not all(done) and not errors and time.monotonic() - t0 < 10:
            time.sleep(0.0005)
        out, inside = [], 0
        for delay, acts in forks:
            time.sleep(delay / 1e6)
            r, w = os.pipe()
            inside += any(busy)
            pid = os.fork()
            if pid == 0:
                try:
                    for a in acts:
                        os.write(w, ("%s\n" % self._child(rs, a, holder, paths)).encode())
                finally:
                    os._exit(0)
            os.close(w)
            got, deadline = b"", time.monotonic() + 15
            while True:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([r], [], [], left)[0]:
                    os.kill(pid, signal.SIGKILL)
                    got += b"HANG\n"
                    break
                d = os.read(r, 1000)
                if not d:
                    break
                got += d
            os.close(r)
            os.waitpid(pid, 0)
            out.append(got.decode().split("\n")[:-1])
            if "HANG" in out[-1]:
                break
        before = list(done)
        t0 = time.monotonic()
        while not errors and any(a == b for a, b in zip(before, done)) and time.monotonic() - t0 < 15:
            time.sleep(0.001)
        progress = all(a != b for a, b in zip(before, done))
        stop.append(1)
        for th in threads:
            th.join(15)
        alive = sum(th.is_alive() for th in threads)
        return dict(out=out, errors=errors, progress=progress and not alive, inside=inside)

    def _child(self, rs, act, holder, paths):
        import threading

        def go():
            if act == "other":
                rs.rsopen(paths[1], "RWB", locking=True, timeout=0).close()
            elif act == "free":
                g = rs.rsopen(paths[0], "RWB", locking=False)
                with g.lock_file(timeout=0, length=5, offset=300):
                    pass
                g.close()
            elif act == "inherited-free":
                holder.lock_file(timeout=0, length=5, offset=400)
                holder.unlock_file(length=5, offset=400)
            elif act == "inherited-held":
                holder.lock_file(timeout=0, length=5, offset=102)
            elif act == "new-held":
                rs.rsopen(paths[0], "RWB", locking=True, timeout=0)
            elif act == "close":
                holder.close()
            elif act == "append":
                rs.append_to_file(paths[1], b"x")
            elif act == "threads":  # waits and wakeups work in the child too
                a, b = [rs.rsopen(paths[1], "RWB", buffering=0, locking=False) for _ in "ab"]
                ctx = a.lock_file()
                got = []
                th = threading.Thread(target=lambda: got.append(b.lock_file()))
                th.start()
                th.join(0.002)
                if got:
                    raise AssertionError("lock granted twice")
                with ctx:
                    pass
                th.join(10)
                if not got:
                    raise AssertionError("waiting thread not awoken")
                b.close()
                a.close()

        r = call(go)
        return act + " " + ("ok" if not isinstance(r, Raised) else "refused" if r.text.startswith("LockingException") else r.text)


CHILD_EXPECTED = {"inherited-held": "refused", "new-held": "refused"}


def threads_strategy():
    acts = st.lists(st.sampled_from(["other", "free", "inherited-free", "inherited-held", "new-held", "close", "append", "threads"]), 1, 4)
    return st.tuples(st.lists(st.sampled_from(["lock", "lock", "with", "open", "wait"]), 1, 4), st.sampled_from([("RWB", 0), ("RWB", -1), ("RWIB", -1), ("RWT", -1)]), st.booleans(),
                     st.lists(st.tuples(st.integers(0, 600), acts), 1, 8), st.sampled_from([0.005, 0.0001, 0.000005]))


def run_threads(case, env):
    activities, layer, ts, forks, interval = case
    rsfile()
    paths = [env.path("f"), env.path("g"), env.path("h")]
    for p in paths[:2]:
        with open(p, "wb") as f:
            f.write(b"0123" * 200)
    probe = os.open(paths[0], os.O_RDWR)
    env.defer(os.close, probe)
    root = Remote(ThreadsExecutor)
    env.defer(root.kill)
    out = root.call((paths, activities, layer, ts, forks, interval))
    if isinstance(out, Raised):
        raise Violation("error", repr(out))
    closed = False
    for (delay, acts), got in zip(forks, out["out"]):
        closed = False
        for a, g in zip(acts, got + ["HANG"] * (len(acts) - len(got))):
            want = a + " " + CHILD_EXPECTED.get(a, "ok")
            if closed and a.startswith("inherited"):
                continue
            closed = closed or a == "close"
            if g != want:
                raise Violation("child", "forked while other threads were using rsfile, a child doing %r gave %r instead of %r" % (acts, g, want))
    if out["errors"]:
        raise Violation("parent", "threads of the parent failed: %r" % out["errors"][:3])
    if not out["progress"]:
        raise Violation("parent", "threads of the parent are stuck after the forks")
    held = lockmap_fd(probe)
    if held != [(100, 110, "x")]:
        raise Violation("parent-lock", "the parent's lock on 100-110 is %r after the forks" % (held,))
    env.nontrivial = out["inside"] > 0
    env.steps += len(forks) * 3
    env.label(*["activity:" + a for a in activities])


PARTS = [Part("history", strategy, run, quick=4000, thorough=80000, hang=40),
         Part("waiters", wait_strategy, run_wait, quick=240, thorough=4000, hang=60, deterministic=False),
         Part("threads", threads_strategy, run_threads, quick=400, thorough=6000, hang=150, deterministic=False)]
