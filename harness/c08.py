"""C08: lock timeouts, enforced timeout option, no residue of failed attempts."""
import io
import os
import threading
import time

import gen as st
from core import HarnessError, Part, Violation
from lockworld import LAYERS, Model, Handle, make_files, overlap, readable, writable
from procs import Remote, lockmap, normalise, start_prober
from streams import Raised, call, rsfile

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated lock states, attempts with timeouts and timed releases, against a range-lock model and bounds on elapsed time; model-based testing of options"
RULE = ("Cases are (existing locks of the same process and of another one, attempt through lock_file or rsopen on any layer with a timeout, spin delay, enforced "
        "option, moment of release of the conflicts, adjustment of the system clock - simulated through time.time() - during the attempt); outcome, elapsed time and the lock map before/after are checked. Non-trivial: the attempt conflicts.")
ASSUMPTIONS = ["Lower time bounds are checked on every run (5 ms tolerance); upper bounds (timeout + delay + 25% of the timeout but at most 0.2 s + 0.2 s) must be exceeded in 5 consecutive runs of the case to be reported.",
               "Options are set before the streams get created."]


class Peer(object):
    """Another process holding locks."""

    def __init__(self):
        self.rs = rsfile()
        self.s = {}

    def __call__(self, req):
        return call(self._do, *req)

    def _do(self, kind, *a):
        if kind == "lock":
            slot, path, start, length, shared = a
            if slot not in self.s:
                self.s[slot] = self.rs.rsopen(path, "RWB", buffering=0, locking=False)
            self.s[slot].lock_file(timeout=0, offset=start, length=length, shared=shared)
        elif kind == "release":
            delay, slots = a
            time.sleep(delay)
            t = time.monotonic()
            for s in slots:
                self.s.pop(s).close()
            return t
        return None


_rng = st.weighted((2, st.just((0, None))), (6, st.tuples(st.integers(0, 10), st.integers(1, 6))), (1, st.tuples(st.integers(0, 10), st.just(None))),
                   (1, st.sampled_from([(1 << 32, 5), ((1 << 31) - 2, 4)])))


@st.composite
def strategy(draw):
    holders = draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 2), _rng, st.booleans()), 1, 4))
    entry = draw(st.sampled_from(["lock_file", "lock_file", "lock_file", "rsopen"]))
    return (holders, entry, draw(st.integers(0, len(LAYERS) - 1)), draw(st.booleans()), draw(_rng), draw(st.sampled_from([None, True, False])),
            draw(st.weighted((50, st.sampled_from([0, 0, 0.0, 0.001, 0.02, 0.02, 0.06, 0.15, 0.4, "block", "enforced", "enforced", "long"])), (1, st.just(1.5)))),
            draw(st.sampled_from([0.001, 0.001, 0.01, 0.05])), draw(st.sampled_from([0.005, 0.02, 0.06])),
            draw(st.weighted((6, st.just(0)), (1, st.sampled_from([3600, -3600, 1, -1])))))


def adjust_clock(jump):
    """As if the system clock was adjusted 2 ms from now."""
    real, start = time.time, time.monotonic()
    time.time = lambda: real() + (jump if time.monotonic() > start + 0.002 else 0)

    def restore():
        time.time = real
    return restore


def run(case, env):
    holders, entry, li, ts, rng, shared, timeout, spin, release_at, jump = case
    layer, mode, buffering = LAYERS[li]
    rs = rsfile()
    rel = timeout in ("block", "long") or (timeout == "enforced" and release_at == 0.005)
    for attempt in range(5):
        slow = run_once(rs, env, attempt, holders, entry, mode, buffering, ts, rng, shared, timeout, spin, release_at, rel, jump)
        if slow is None:
            return
        time.sleep(0.05 * (attempt + 1))
    raise Violation("too-slow", slow)


def run_once(rs, env, attempt, holders, entry, mode, buffering, ts, rng, shared, timeout, spin, release_at, rel, jump):
    path = env.path("f%d" % attempt)
    with io.open(path, "wb") as f:
        f.write(b"0123456789")
    peer = Remote(Peer)
    env.defer(peer.kill)
    old = rs.get_rsfile_options()
    env.defer(lambda: rs.set_rsfile_options(**old))
    enforced = 0.08 if timeout == "enforced" else None
    mine = {}
    env.defer(lambda: [f.close() for f in mine.values()])
    if timeout in (0, 0.0):
        spin = 0.6  # any sleep would show
    rs.set_rsfile_options(enforced_locking_timeout_value=enforced, default_spinlock_delay=spin)

    m = Model(1)
    r_, w_ = readable(mode), writable(mode)
    me = (0, 99)
    m.handles[me] = Handle(0, mode, "", 0, False)
    stream = None
    if entry == "lock_file":
        stream = rs.rsopen(path, mode, buffering=buffering, thread_safe=ts, locking=False)
        env.defer(lambda: stream.close())
    for (who, slot, (start, length), sh) in holders:
        end = None if length is None else start + length
        key = (who, slot)
        if who == 0 and slot == 2 and stream is None:
            continue
        own = who == 0 and slot == 2
        if own:  # through the stream of the attempt itself
            key = me
            if (sh and not r_) or (not sh and not w_):
                continue
        m.handles.setdefault(key, Handle(0, "RWB", "", 0, False))
        if m.check_lock(key, sh, start, end) != {"ok"}:
            continue
        if who == 1:
            r = peer.call(("lock", slot, path, start, length, sh))
        elif own:
            r = call(stream.lock_file, timeout=0, offset=start, length=length, shared=sh)
        else:
            if slot not in mine:
                mine[slot] = rs.rsopen(path, "RWB", buffering=0, locking=False)
            r = call(mine[slot].lock_file, timeout=0, offset=start, length=length, shared=sh)
        if isinstance(r, Raised):
            raise Violation("setup-lock", "a lock without any conflict was refused: %r" % r)
        m.locks.append((who, key, 0, sh, start, end))

    start, length = rng
    if entry == "rsopen":
        start, length, sh = 0, None, not w_
    else:
        sh = (not w_) if shared is None else shared
        if (sh and not r_) or (not sh and not w_):
            sh = not w_
    end = None if length is None else start + length
    expected = m.check_lock(me, sh, start, end)
    conflicts = [l for l in m.locks if l[1] != me and overlap(start, end, l[4], l[5]) and not (l[3] and sh)]
    before = (normalise(m.file_map(0)))
    seen = lockmap(path)
    if seen != before:
        raise Violation("setup-map", "lock map %r, expected %r" % (seen, before))
    t_arg = {"block": None, "enforced": None, "long": 20}.get(timeout, timeout)
    releaser = None
    released = {}
    if expected == {"locking"}:
        env.nontrivial = True
        if rel:
            env.label("released-in-time")
            by_peer = sorted({l[1][1] for l in conflicts if l[0] == 1})
            by_me = sorted({l[1][1] for l in conflicts if l[0] == 0})
            if by_peer:
                peer.send(("release", release_at, by_peer))
            if by_me:
                def work():
                    time.sleep(release_at)
                    released["me"] = time.monotonic()
                    for s in by_me:
                        mine[s].close()
                releaser = threading.Thread(target=work)
        else:
            env.label("kept")
    elif "runtime" in expected and timeout in ("block", "long"):
        t_arg = 0 if len(expected) > 1 else t_arg

    restore = adjust_clock(jump)
    env.defer(restore)
    t0 = time.monotonic()
    if releaser:
        releaser.start()
    if entry == "rsopen":
        res = call(rs.rsopen, path, mode, buffering=buffering, thread_safe=ts, locking=True, timeout=t_arg)
        if not isinstance(res, Raised):
            stream = res
            env.defer(lambda: stream.close())
    else:
        res = call(stream.lock_file, timeout=t_arg, offset=start, length=length, shared=sh)
    elapsed = time.monotonic() - t0
    restore()
    if jump:
        env.label("clock-adjusted")
    env.steps += 1 + len(m.locks)
    if releaser:
        releaser.join()
    if peer.busy:
        released["peer"] = peer.recv()
    env.label("timeout:%s" % timeout, entry)

    got = "ok" if not isinstance(res, Raised) else "locking" if res.text.startswith("LockingException") else "runtime" if "RuntimeError" in res.families else "other"
    what = "%s(timeout=%r, offset=%r, length=%r, shared=%r, mode=%s) with locks %r" % (entry, t_arg, start, length, sh, mode, m.locks)
    slow = None
    limit = None
    if expected == {"ok"}:
        want = {"ok"}
        limit = 0.3
    elif expected == {"locking"}:
        if rel:
            want = {"ok"}
            limit = release_at + spin + 0.5
        elif enforced is not None:
            want = {"runtime"}
            if elapsed < enforced - 0.005:
                raise Violation("too-early", "%s failed after %.3f s, enforced timeout is %s" % (what, elapsed, enforced))
            limit = enforced * 1.25 + spin + 0.2
        else:
            want = {"locking"}
            if got == "locking" and elapsed < t_arg - 0.005:
                raise Violation("too-early", "%s failed after %.3f s" % (what, elapsed))
            limit = t_arg + min(t_arg * 0.25, 0.2) + 0.2 + (spin if t_arg else 0)
    else:
        want = expected
        if enforced is not None and "locking" in want:
            want = want | {"runtime"}
    if got not in want:
        raise Violation("outcome:%s-instead-of-%s" % (got, "/".join(sorted(want))), "%s gave %r after %.3f s" % (what, res, elapsed))
    if rel and expected == {"locking"} and got == "ok":
        last = max(released.values())
        if t0 + elapsed < last - 0.001:
            raise Violation("granted-before-release", what)
        m.locks = [l for l in m.locks if l not in conflicts and l[1] not in {c[1] for c in conflicts}]
    if limit is not None and elapsed > limit:
        slow = "%s took %.3f s (limit %.3f)" % (what, elapsed, limit)

    # no trace of a failure, exactly the new lock otherwise
    if got == "ok":
        m.locks.append((0, me, 0, sh, start, end))
    want_map = normalise(m.file_map(0))
    seen = lockmap(path)
    if seen != want_map:
        raise Violation("residue" if got != "ok" else "map", "after %s -> %s: other processes see locks %r, expected %r" % (what, got, seen, want_map))
    if got != "ok":
        # once the conflicting holders are gone, the range can be taken at once by another stream, and then by that one
        for s in list(mine):
            mine.pop(s).close()
        peer.kill()
        m.locks = [l for l in m.locks if l[1] == me]
        other = rs.rsopen(path, "RWB", buffering=0, locking=False)
        env.defer(other.close)
        if not any(overlap(start, end, l[4], l[5]) for l in m.locks):
            r = call(other.lock_file, timeout=0, offset=start, length=length, shared=False)
            if isinstance(r, Raised):
                raise Violation("residue-lock", "after %s failed and the holders left, the range can't be locked: %r" % (what, r))
            other.unlock_file(offset=start, length=length)
            if stream is not None:
                r = call(stream.lock_file, timeout=0, offset=start, length=length, shared=sh)
                if isinstance(r, Raised):
                    raise Violation("residue-lock", "after %s failed and the holders left, retrying fails: %r" % (what, r))
                stream.unlock_file(offset=start, length=length)
        want_map = normalise(m.file_map(0))
        seen = lockmap(path)
        if seen != want_map:
            raise Violation("residue", "finally, lock map is %r instead of %r" % (seen, want_map))
    if stream is not None:
        stream.close()
    env.close_ = None
    return slow


# ------------------------------------------------------------------------------------ options

NAMES = ["enforced_locking_timeout_value", "default_spinlock_delay", "unknown", "max_input_load_bytes", "default_spinlock_delay_", "mutex"]


@st.composite
def options_strategy(draw):
    return draw(st.lists(st.tuples(st.sampled_from(["set", "set", "set", "get", "mutate"]),
                                   st.lists(st.tuples(st.sampled_from(NAMES[:2] * 2 + NAMES), st.sampled_from([None, 0.01, 1, 5.5])), 0, 3)), 1, 8))


def run_options(case, env):
    rs = rsfile()
    base = rs.get_rsfile_options()
    env.defer(lambda: rs.set_rsfile_options(**base))
    model = dict(base)
    if not {"enforced_locking_timeout_value", "default_spinlock_delay"} <= set(base):
        raise Violation("options-missing", repr(base))
    for kind, items in case:
        kw = dict(items)
        env.steps += 1
        if kind == "set":
            r = call(rs.set_rsfile_options, **kw)
            bad = [k for k in kw if k not in base]
            if bad:
                env.nontrivial = True
                if not (isinstance(r, Raised) and "ValueError" in r.families):
                    raise Violation("unknown-option-accepted", "%r -> %r" % (kw, r))
            else:
                if isinstance(r, Raised):
                    raise Violation("option-refused", "%r -> %r" % (kw, r))
                model.update(kw)
        got = rs.get_rsfile_options()
        if got != model:
            raise Violation("options-state", "after %s %r options are %r, expected %r" % (kind, kw, got, model))
        if kind == "mutate":
            got.update(kw)
            got.pop("default_spinlock_delay", None)


PARTS = [Part("attempts", strategy, run, quick=1600, thorough=40000, setup=start_prober, hang=60, cap=60),
         Part("options", options_strategy, run_options, quick=2000, thorough=20000)]
