"""C10: opening with locking never touches a file it failed to lock."""
import io
import os
import threading
import time

import procs  # binds the real os functions first
import syscalls

syscalls.install()

import gen as st
from core import HarnessError, Part, Violation
from lockworld import Model, Handle, overlap, readable, writable
from procs import Remote, lockmap, normalise, start_prober
from streams import Raised, call, mk, read_file, rsfile
from syscalls import REAL, hooks

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated openings against generated lock states, with inspection of the file and of the kernel lock map at each system call of the opening"
RULE = ("Cases are (initial content or missing file, locks held by the same and by another process, mode, locking, timeout, moment of release, layer, path or link, "
        "trailing construction error); content, size, lock map and descriptors are compared before/after, and at every system call of the opening a changed file "
        "implies that its whole-file lock is already held. Non-trivial: a conflicting lock exists or a truncation happens under locking.")
ASSUMPTIONS = ["System calls are observed by replacing the os/fcntl functions of the process."]

STD = ["r", "rb", "r+", "rb+", "w", "wb", "w+", "wb+", "a", "ab", "a+b", "x", "xb+"]
ADV = ["RB", "RNB", "WB", "WEB", "RWB", "RWEB", "RWE", "WE", "WNEB", "A", "AB", "AEB", "RAEB", "RWNE", "WCB", "WCEB", "RWEIB", "WESB", "RT", "WET", "RWB+", "WE-B"]
_rng = st.weighted((2, st.just((0, None))), (5, st.tuples(st.integers(0, 10), st.integers(1, 6))), (1, st.just((5000, 3))), (1, st.just((1 << 33, 3))))


@st.composite
def strategy(draw):
    return (draw(st.sampled_from([None, b"", b"0123456789", b"0123456789", b"0123456789", ("P", "b", 3, 5000)])),
            draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1), _rng, st.booleans()), 0, 3)),
            draw(st.sampled_from(STD + ADV)), draw(st.sampled_from([True, True, True, False])),
            draw(st.sampled_from([0, 0, 0, 0.01, 0.03, "release", "block"])),
            draw(st.sampled_from([None, -1, 0, 16])), draw(st.booleans()), draw(st.integers(0, 2)),
            draw(st.sampled_from(["path", "path", "path", "path", "fileno", "opener"])),
            draw(st.sampled_from([None, None, None, None, "encoding", "unbuffered-text", "newline"])),
            draw(st.sampled_from(["unlock", "close", "with", "del"])))


class Peer(object):
    def __init__(self):
        self.rs = rsfile()
        self.s = {}

    def __call__(self, req):
        return call(self._do, *req)

    def _do(self, kind, *a):
        if kind == "lock":
            slot, path, start, length, shared = a
            if slot not in self.s:
                self.s[slot] = self.rs.rsopen(path, "RWNB", buffering=0, locking=False)
            self.s[slot].lock_file(timeout=0, offset=start, length=length, shared=shared)
        elif kind == "release":
            delay, slots = a
            time.sleep(delay)
            f = self.s[slots[0]]
            f.seek(0)
            data = f.readall()
            for s in slots:
                self.s.pop(s).close()
            return data
        return None


def truncating(mode):
    return ("w" in mode) or ("E" in mode and "C" not in mode and "-" not in mode)


def creating(mode):
    return "x" in mode or "C" in mode or "-" in mode


def must_exist(mode):
    if mode[0].islower():
        return "r" in mode
    return "N" in mode or "+" in mode


def run(case, env):
    init, holders, mode, locking, timeout, buffering, ts, via, how, late_error, ending = case
    rs = rsfile()
    path = env.path("f")
    text = "b" not in mode and "B" not in mode
    data = None if init is None else mk(init)
    m = Model(1)
    m.handles[(0, 99)] = Handle(0, mode, "", 0, False)
    r_, w_ = readable(mode), writable(mode) or "w" in mode or "a" in mode or "x" in mode
    probe = None
    peer = None
    mine = {}
    env.defer(lambda: [f.close() for f in mine.values()])
    names = [path, path + ".hard", path + ".soft"]
    if data is None:
        holders = []
        how = "path" if how == "fileno" else how
        if via == 1:
            via = 0
        os.symlink(path, names[2])
    else:
        with io.open(path, "wb") as f:
            f.write(data)
        os.link(path, names[1])
        os.symlink(path, names[2])
    exists = data is not None
    for (who, slot, (start, length), sh) in holders:
        end = None if length is None else start + length
        key = (who, slot)
        m.handles.setdefault(key, Handle(0, "RWB", "", 0, False))
        if m.check_lock(key, sh, start, end) != {"ok"}:
            continue
        if who == 1:
            if peer is None:
                peer = Remote(Peer)
                env.defer(peer.kill)
            r = peer.call(("lock", slot, path, start, length, sh))
        else:
            if slot not in mine:
                mine[slot] = rs.rsopen(path, "RWNB", buffering=0, locking=False)
            r = call(mine[slot].lock_file, timeout=0, offset=start, length=length, shared=sh)
        if isinstance(r, Raised):
            raise Violation("setup-lock", repr(r))
        m.locks.append((who, key, 0, sh, start, end))
    sh = not w_
    conflict = locking and m.check_lock((0, 99), sh, 0, None) != {"ok"}
    conflicts = [l for l in m.locks if not (l[3] and sh)]
    trunc = truncating(mode) and how == "path"

    # what should happen
    error = None  # errors independent of locks, before anything
    if how == "path" and ((creating(mode) and (exists or via == 2)) or (must_exist(mode) and not exists)):
        error = "oserror"
    wrong_std = late_error is not None
    kw = {}
    if buffering is not None:
        kw["buffering"] = buffering
    if text and kw.get("buffering") == 0:
        kw["buffering"] = -1
    late = None
    if late_error and text:
        late = late_error
        if late == "encoding":
            kw["encoding"] = "no-such-encoding"
        elif late == "newline":
            kw["newline"] = "bad"
        else:
            kw["buffering"] = 0
    fd = None
    if how == "fileno":
        fd = REAL["open"](path, os.O_RDWR)
        if mode[0].islower():
            args = dict(name=fd, mode=mode)
        else:
            args = dict(fileno=fd, mode=mode)
    elif how == "opener":
        args = dict(name=names[via], mode=mode, opener=lambda n, fl: os.open(n, os.O_RDWR | os.O_CREAT, 0o666))
    else:
        args = dict(name=names[via], mode=mode)
    t_arg = 5 if timeout == "release" else None if timeout == "block" else timeout
    release = timeout in ("release", "block")
    if exists:
        probe = REAL["open"](path, os.O_RDONLY)
        env.defer(REAL["close"], probe)
    before_stat = os.fstat(probe) if exists else None
    before_map = lockmap(path) if exists else []
    if before_map != normalise(m.file_map(0)):
        raise Violation("setup-map", "%r vs %r" % (before_map, m.locks))
    bad, seen = [], []
    own = (0, None, "s" if sh else "x")

    def after(name, a, res, exc):
        if not exists or bad or seen or not locking or how != "path":
            return
        now = REAL["fstat"](probe)
        if now.st_size != before_stat.st_size or now.st_mtime_ns != before_stat.st_mtime_ns:
            with hooks():
                held = lockmap(path)
            if held != [(0, None, "x")] or normalise(m.file_map(0)) == [(0, None, "x")]:
                bad.append((name, a, held))
            else:
                seen.append(1)  # locked when first modified

    content_at_release = {}
    thread = None
    if conflict and release and error is None:
        by_peer = sorted({l[1][1] for l in conflicts if l[0] == 1})
        by_me = sorted({l[1][1] for l in conflicts if l[0] == 0})
        if by_peer:
            peer.send(("release", 0.01, by_peer))
        if by_me:
            def work():
                time.sleep(0.01)
                content_at_release["me"] = REAL["pread"](probe, 10000, 0)
                for s in by_me:
                    mine[s].close()
            thread = threading.Thread(target=work)
            thread.start()
    old = rs.get_rsfile_options()
    rs.set_rsfile_options(default_spinlock_delay=0.004)
    env.defer(lambda: rs.set_rsfile_options(**old))
    fds_before = procs.fds()
    watch = hooks(after=after) if not (conflict and release) else hooks()
    with watch:
        f = call(rs.rsopen, locking=locking, timeout=t_arg, thread_safe=ts, **args, **kw)
    if thread:
        thread.join()
    if peer is not None and peer.busy:
        content_at_release["peer"] = peer.recv()
    env.steps += 1 + len(m.locks)
    what = "rsopen(%r, locking=%r, timeout=%r, %r) with locks %r" % (args, locking, t_arg, kw, m.locks)
    for k, v in content_at_release.items():
        if v != data:
            raise Violation("touched-before-lock", "%s: content was %r when the conflicting lock was released, instead of %r" % (what, v, data))
    if conflict and release and error is None:
        gone = {c[1] for c in conflicts}
        m.locks = [l for l in m.locks if l[1] not in gone]
        conflict = False
        env.nontrivial = True
        env.label("released")
        fds_before = None
    if bad:
        raise Violation("changed-before-lock", "%s: file changed by %s%r while the lock map was %r" % ((what,) + bad[0]))
    ok = not isinstance(f, Raised)
    if conflict:
        env.nontrivial = True
    if trunc and locking and exists:
        env.nontrivial = True
        env.label("truncation")

    must_fail = error is not None or conflict or late is not None
    if ok == must_fail:
        if ok:
            env.defer(f.close)
        raise Violation("opened" if ok else "refused", "%s -> %r, expected %s" % (what, f, "failure" if must_fail else "success"))
    if not ok:
        env.label("fail:" + ("error" if error else "late" if late else "conflict"))
        if conflict and error is None and late != "unbuffered-text" and late != "newline" and late != "encoding":
            if not f.text.startswith("LockingException"):
                raise Violation("wrong-error", "%s -> %r" % (what, f))
            kind = "LockingException"
        untouched = error is not None or conflict
        if untouched and exists:
            if read_content(probe) != data:
                raise Violation("content-touched", "%s failed (%r) but the content is now %r" % (what, f, read_content(probe)[:100]))
            s = os.fstat(probe)
            if s.st_mtime_ns != before_stat.st_mtime_ns or s.st_size != before_stat.st_size:
                raise Violation("file-touched", "%s failed (%r) but mtime/size changed" % (what, f))
        if exists:
            want = normalise(m.file_map(0))
            got = lockmap(path)
            if got != want:
                raise Violation("lock-residue", "%s failed (%r): locks %r, expected %r" % (what, f, got, want))
        now = procs.fds()
        if fds_before is not None:
            extra = now - fds_before
            missing = fds_before - now
            if extra - ({x for x in extra if mine and same_file(x, path)} if m.locks else set()):
                raise Violation("fd-leak", "%s failed (%r): leaked %r" % (what, f, extra))
            if missing - {fd}:
                raise Violation("fd-closed", "%s failed (%r): lost descriptors %r" % (what, f, missing))
            if extra and not any(l[0] == 0 for l in m.locks):
                raise Violation("fd-leak", "%s failed (%r): leaked %r" % (what, f, extra))
        if fd is not None:
            try:
                REAL["close"](fd)
            except OSError:
                pass
        return
    # success
    env.label("ok")
    env.defer(lambda: hold[0].close())
    hold = [f]
    want_content = b"" if trunc or data is None else data
    got = read_content(probe) if exists else None
    if exists and got != want_content:
        raise Violation("content", "%s: content is %r instead of %r" % (what, got[:100], want_content[:100]))
    base = list(m.file_map(0))
    want = normalise(base + ([(0, None, "s" if sh else "x")] if locking else []))
    got = lockmap(path)
    if got != want:
        raise Violation("lock-map", "%s: locks %r, expected %r" % (what, got, want))
    # the lock survives some activity, then goes away
    if w_:
        f.write("ab" if text else b"ab")
        f.flush()
    if r_ and not text:
        f.seek(0)
        f.read(3)
    got = lockmap(path)
    if got != want:
        raise Violation("lock-map", "%s: after some I/O locks %r, expected %r" % (what, got, want))
    if ending == "unlock" and locking:
        r = call(f.unlock_file)
        if isinstance(r, Raised):
            raise Violation("unlock", "%s then unlock_file() -> %r" % (what, r))
    elif ending == "with":
        with f:
            pass
    elif ending == "del":
        hold[:] = [open(os.devnull)]
        del f
        import gc
        gc.collect()
    else:
        f.close()
    got, want = lockmap(path), normalise(base)
    if got != want:
        raise Violation("lock-map-after", "%s then %s: locks %r, expected %r" % (what, ending, got, want))
    hold[0].close()


def read_content(fd):
    return REAL["pread"](fd, 20000, 0)


def same_file(fd, path):
    try:
        return os.path.samestat(os.fstat(fd), os.stat(path))
    except OSError:
        return False


PARTS = [Part("open", strategy, run, quick=15600, thorough=300000, setup=start_prober, hang=60)]
