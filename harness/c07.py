"""C07: blocked lock requests are granted after release, never before, whatever the kind of release."""
import gc
import io
import os
import time
import weakref

import gen as st
from actors import ActorProcess, poll
from core import HarnessError, Part, Violation
from lockworld import overlap
from streams import Raised, rsfile

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = ("stateful property-based testing: generated schedules of blocking lock requests and releases by threads of several processes, "
             "checked step by step against the set of conflicting holders; randomised counter/journal stress")
RULE = ("Cases are schedules over 1-3 processes x 1-3 threads: blocking lock_file/rsopen requests and releases (unlock_file, lock context exit with or "
        "without exception, close, stream context exit, destruction, SIGKILL or exit of the process); grants are reported asynchronously and each must be "
        "compatible with all current holders, and be reported when its last conflict is gone. Non-trivial: at least one request blocked then granted.")
ASSUMPTIONS = ["A request not granted within 20 s after all its conflicts disappeared is considered lost; an actually slower grant would be a false alarm, "
               "normal grants take milliseconds.",
               "A blocked request may make other conflicting requests of its own process wait (they needn't overtake it)."]

GRANT_LIMIT = 20.0
RELEASES = ["unlock", "exit", "exit_exc", "close", "with", "del"]
LAYERS = [("RWB", 0), ("RWB", -1), ("RWT", -1), ("RAB", 0), ("r+b", -1)]


class Handler(object):
    def __init__(self):
        self.rs = rsfile()
        self.rs.set_rsfile_options(default_spinlock_delay=0.004)
        self.s = {}
        self.ctx = {}

    def __call__(self, i, req):
        kind = req[0]
        s = self.s
        if kind == "open":
            _, path, mode, buffering, ts = req
            s[i] = self.rs.rsopen(path, mode, buffering=buffering, thread_safe=ts, locking=False)
        elif kind == "openlock":
            _, path, mode, buffering, ts = req
            s[i] = self.rs.rsopen(path, mode, buffering=buffering, thread_safe=ts, locking=True)
            self.ctx[i] = None
            return "granted"
        elif kind == "lock":
            _, start, length, shared = req
            self.ctx[i] = s[i].lock_file(length=length, offset=start, shared=shared)
            return "granted"  # the context is only entered if it's to be exited
        elif kind == "release":
            _, how, start, length = req
            ctx = self.ctx.pop(i)
            if how in ("exit", "exit_exc") and ctx is None:
                how = "unlock"
            if how == "unlock":
                s[i].unlock_file(length=length, offset=start)
            elif how == "exit":
                ctx.__enter__()
                ctx.__exit__(None, None, None)
            elif how == "exit_exc":
                try:
                    with ctx:
                        raise KeyError("inside")
                except KeyError:
                    pass
            elif how == "close":
                s.pop(i).close()
            elif how == "with":
                with s.pop(i):
                    pass
            elif how == "del":
                f = s.pop(i)
                del ctx
                ref = weakref.ref(f)
                del f
                collect(ref)
            return "released"
        elif kind == "nop":
            return "nop"
        return None


def collect(ref):
    """gc.collect() does nothing when another thread is already collecting."""
    for _ in range(20000):
        gc.collect()
        if ref() is None:
            return
        time.sleep(0.0005)
    raise HarnessError("stream never collected")


@st.composite
def strategy(draw):
    nproc = draw(st.sampled_from([1, 1, 2, 2, 3]))
    nact = draw(st.integers(2 if nproc == 1 else 1, 4 if nproc == 1 else 3))
    steps = draw(st.lists(step(nproc, nact), 4, 16))
    return (nproc, nact, steps)


@st.composite
def _step(draw, nproc, nact):
    p, a = draw(st.integers(0, nproc - 1)), draw(st.integers(0, nact - 1))
    kind = draw(_kinds)
    if kind == "req":
        return ("req", p, a, draw(st.integers(0, 2)), draw(st.integers(0, len(LAYERS) - 1)), draw(st.booleans()), draw(_range), draw(st.sampled_from([False, False, True])))
    if kind == "rel":
        return ("rel", p, a, draw(st.sampled_from(RELEASES)))
    return ("die", p, draw(st.sampled_from(["kill", "exit"])))


_range = st.weighted((3, st.just("open")), (3, st.just((0, None))), (4, st.tuples(st.integers(0, 6), st.integers(1, 6))), (1, st.tuples(st.integers(0, 6), st.just(None))))
_kinds = st.weighted((10, st.just("req")), (8, st.just("rel")), (1, st.just("die")))


def step(nproc, nact):
    return _step(nproc, nact)


class Sched(object):
    def __init__(self, case, env):
        self.nproc, self.nact, self.steps = case
        self.env = env
        self.path = env.path("f")
        with io.open(self.path, "wb") as f:
            f.write(b"0123456789")
        os.link(self.path, self.path + ".hard")
        os.symlink(self.path, self.path + ".soft")
        self.paths = [self.path, self.path + ".hard", self.path + ".soft"]
        self.procs = []
        for _ in range(self.nproc):
            p = ActorProcess(Handler, self.nact)
            env.defer(p.kill)
            self.procs.append(p)
        self.state = {}  # (p, a) -> dict(state='idle'|'waiting'|'holding', start, end, shared)
        self.open = {}
        self.trace = []
        self.blocked = 0

    def fail(self, key, msg):
        raise Violation(key, "%s\n  after %s" % (msg, self.trace[-14:]))

    def conflicts(self, k, others):
        me = self.state[k]
        return [o for o in others if o != k and overlap(me["start"], me["end"], self.state[o]["start"], self.state[o]["end"])
                and not (me["shared"] and self.state[o]["shared"])]

    def by(self, st_):
        return [k for k, v in self.state.items() if v["state"] == st_]

    def absorb(self, timeout):
        got = poll(self.procs, timeout)
        for p, a, rep in got:
            k = (p, a)
            v = self.state.get(k)
            if v is None or v["state"] not in ("waiting", "releasing"):
                raise HarnessError("unexpected reply %r from %r" % (rep, k))
            if isinstance(rep, Raised):
                self.fail("lock-error", "%s of %r failed with %r" % (v["state"], k, rep))
            self.trace.append((rep, k))
            if v["state"] == "waiting":
                c = self.conflicts(k, self.by("holding"))
                if c:
                    self.fail("overlapping-grants", "lock %r of %r granted while %r hold conflicting locks" % (v, k, [(o, self.state[o]) for o in c]))
                v["state"] = "holding"
                if v.get("was_blocked"):
                    self.env.nontrivial = True
                    self.env.label("granted-after-wait")
            else:
                del self.state[k]
        return got

    def component_ok(self, k, eligible):
        """All waiters of the same process transitively conflicting with k are eligible."""
        todo, seen = [k], {k}
        waiting = [o for o in self.by("waiting") if o[0] == k[0]]
        while todo:
            x = todo.pop()
            for o in self.conflicts(x, waiting):
                if o not in seen:
                    if o not in eligible:
                        return False
                    seen.add(o)
                    todo.append(o)
        return True

    def settle(self):
        """Waits until every grant which must happen has happened."""
        deadline = time.monotonic() + GRANT_LIMIT
        while True:
            waiting = self.by("waiting")
            releasing = self.by("releasing")
            if not waiting and not releasing:
                return
            holding = self.by("holding")
            eligible = {k for k in waiting if not self.conflicts(k, holding + releasing)}
            must = releasing + [k for k in eligible if self.component_ok(k, eligible)]
            got = self.absorb(max(0.0, deadline - time.monotonic()) if must else 0.0015)
            if got:
                deadline = time.monotonic() + GRANT_LIMIT
                continue
            if not must:
                for k in waiting:
                    self.state[k]["was_blocked"] = True
                return
            if time.monotonic() >= deadline:
                self.fail("never-granted" if not releasing else "release-blocked",
                          "%r got no answer within %.0f s though no conflicting lock is held (holders: %r, waiters: %r)" %
                          (must, GRANT_LIMIT, [(k, self.state[k]) for k in holding], [(k, self.state[k]) for k in waiting]))

    def sync_call(self, k, req):
        """A call which can't block: nothing is awaited of this actor."""
        self.procs[k[0]].send(k[1], req)
        limit = time.monotonic() + GRANT_LIMIT
        while time.monotonic() < limit:
            for p, a, rep in poll(self.procs, 1.0):
                if (p, a) == k:
                    return rep
                self.feed(p, a, rep)
        self.fail("open-blocked", "%r of %r didn't return" % (req, k))

    def feed(self, p, a, rep):
        k = (p, a)
        v = self.state.get(k)
        if v is None or v["state"] != "waiting":
            raise HarnessError("unexpected reply %r from %r" % (rep, k))
        if isinstance(rep, Raised):
            self.fail("lock-error", "blocking lock of %r failed with %r" % (k, rep))
        self.trace.append((rep, k))
        c = self.conflicts(k, self.by("holding"))
        if c:
            self.fail("overlapping-grants", "lock %r of %r granted while %r hold conflicting locks" % (v, k, [(o, self.state[o]) for o in c]))
        v["state"] = "holding"
        if v.get("was_blocked"):
            self.env.nontrivial = True

    def do(self, op):
        env = self.env
        if op[0] == "die":
            p = op[1]
            if self.procs[p].dead or sum(not x.dead for x in self.procs) == 1:
                return
            self.trace.append(op)
            self.procs[p].kill(op[2])
            for k in [k for k in self.state if k[0] == p]:
                if self.state[k]["state"] == "holding":
                    env.label("release:" + op[2])
                del self.state[k]
            for k in [k for k in self.open if k[0] == p]:
                del self.open[k]
            return self.settle()
        p, a = op[1], op[2]
        k = (p, a)
        if self.procs[p].dead:
            return
        if op[0] == "req":
            if k in self.state:
                return
            self.trace.append(op)
            via, layer, ts, rng, shared = op[3:]
            mode, buffering = LAYERS[layer]
            env.steps += 1
            if rng == "open" and k not in self.open:
                self.state[k] = dict(state="waiting", start=0, end=None, shared=False, length=None)
                self.procs[p].send(a, ("openlock", self.paths[via], mode, buffering, ts))
                self.open[k] = True
            else:
                if k not in self.open:
                    r = self.sync_call(k, ("open", self.paths[via], mode, buffering, ts))
                    if isinstance(r, Raised):
                        self.fail("open-failed", repr(r))
                    self.open[k] = True
                start, length = (0, None) if rng == "open" else rng
                self.state[k] = dict(state="waiting", start=start, end=None if length is None else start + length, shared=shared, length=length)
                self.procs[p].send(a, ("lock", start, length, shared))
            self.settle()
        elif op[0] == "rel":
            v = self.state.get(k)
            if v is None or v["state"] != "holding":
                return
            self.release(k, op[3])

    def release(self, k, how):
        v = self.state[k]
        self.trace.append(("rel", k, how))
        self.env.steps += 1
        self.env.label("release:" + how)
        # from now on the lock may vanish at any instant
        v["state"] = "releasing"
        if how in ("close", "with", "del"):
            self.open.pop(k, None)
        self.procs[k[0]].send(k[1], ("release", how, v["start"], v["length"]))
        self.settle()


def run(case, env):
    s = Sched(case, env)
    for op in s.steps:
        s.do(op)
    # drain: everyone must get its lock eventually
    n = 0
    while s.state:
        holding = s.by("holding")
        if not holding:
            raise HarnessError("stuck model %r" % s.state)
        n += 1
        s.release(holding[n % len(holding)], RELEASES[n % len(RELEASES)])
    env.label("procs:%d" % s.nproc)


# ------------------------------------------------------------------------------------ stress


@st.composite
def stress_strategy(draw):
    return (draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.integers(2, 12)),
            [draw(st.tuples(st.sampled_from(["persist", "persist", "reopen", "openlock", "openclose"]), st.sampled_from(RELEASES), st.integers(0, len(LAYERS) - 1),
                            st.integers(0, 2), st.booleans())) for _ in range(4)],
            draw(st.sampled_from([None, 0, 3])))


def stress_worker(rs, paths, plan, niter, tag, extra):
    """Each iteration: under the exclusive lock of [0, None) increments the counter stored in the file."""
    how, release, layer, via, ts = plan
    mode, buffering = LAYERS[layer]
    path = paths[via]
    keep = None
    mode = "RWB"
    buffering = 0 if layer % 2 else -1
    for it in range(niter):
        if how == "openlock":
            f = rs.rsopen(path, mode, buffering=buffering, thread_safe=ts)
            ctx = None
        else:
            if keep is None or how in ("reopen", "openclose"):
                keep = rs.rsopen(path, mode, buffering=buffering, thread_safe=ts, locking=False)
            f = keep
            if how == "openclose":  # closing another descriptor of the file must not endanger locks
                rs.rsopen(path, "RB", locking=False).close()
            ctx = f.lock_file()
        f.seek(0)
        v = int(f.read(8))
        f.seek(8)
        flag = f.read(1)
        f.seek(8)
        f.write(b"B")  # busy flag: another holder inside the section would see it
        f.flush()
        if flag != b".":
            return ("overlap", tag, it)
        if extra and it % extra == 0:
            time.sleep(0.0005)
        f.seek(0)
        f.write(b"%08d." % (v + 1))
        if ctx is None and release in ("exit", "exit_exc"):
            release_ = "close"
        else:
            release_ = release
        if release_ == "exit":
            with ctx:
                pass
        elif release_ == "exit_exc":
            try:
                with ctx:
                    raise KeyError("x")
            except KeyError:
                pass
        elif release_ == "unlock":
            f.flush()
            f.unlock_file()
        elif release_ == "close":
            f.close()
            keep = None
        elif release_ == "with":
            with f:
                pass
            keep = None
        else:
            f.flush()
            ref = weakref.ref(f)
            ctx = keep = f = None
            collect(ref)
        if how in ("reopen", "openlock", "openclose"):
            if how == "openlock" and release_ == "unlock":
                f.close()
            elif release_ in ("exit", "exit_exc", "unlock") and keep is not None:
                keep.close()
                keep = None
    return ("ok",)


class StressHandler(object):
    def __init__(self):
        self.rs = rsfile()
        self.rs.set_rsfile_options(default_spinlock_delay=0.002)

    def __call__(self, i, req):
        return stress_worker(self.rs, *req)


def run_stress(case, env):
    nproc, nthreads, niter, plans, extra = case
    path = env.path("f")
    with io.open(path, "wb") as f:
        f.write(b"00000000.")
    os.link(path, path + ".hard")
    os.symlink(path, path + ".soft")
    paths = [path, path + ".hard", path + ".soft"]
    procs = []
    for p in range(nproc):
        procs.append(ActorProcess(StressHandler, nthreads))
        env.defer(procs[-1].kill)
    n = 0
    for p in range(nproc):
        for a in range(nthreads):
            procs[p].send(a, (paths, plans[(p + a) % 4], niter, (p, a), extra))
            n += 1
    env.steps += n * niter
    limit = time.monotonic() + 60
    done = 0
    while done < n:
        got = poll(procs, max(0.0, limit - time.monotonic()))
        if not got:
            raise Violation("starved", "%d of %d workers never finished their blocking locks within 60 s" % (n - done, n))
        for p, a, rep in got:
            done += 1
            if isinstance(rep, Raised):
                raise Violation("worker-error", "worker %r failed: %r" % ((p, a), rep))
            if rep[0] == "overlap":
                raise Violation("critical-sections-overlap", "two holders of the exclusive lock at once (worker %r, iteration %d)" % rep[1:])
    with io.open(path, "rb") as f:
        data = f.read()
    if data != b"%08d." % (n * niter):
        raise Violation("lost-update", "counter is %r after %d locked increments" % (data, n * niter))
    env.nontrivial = n > 1
    env.label("stress-procs:%d" % nproc)


PARTS = [
    Part("schedule", strategy, run, quick=2400, thorough=60000, hang=90, cap=60),
    Part("stress", stress_strategy, run_stress, quick=200, thorough=6000, hang=120, deterministic=False, cap=60),
]
