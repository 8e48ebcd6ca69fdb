"""C04: wrapping existing descriptors."""
from refio import ref as _pyio
import errno
import fcntl
import gc
import io
import os
import warnings

import gen as st
from c01 import compare_run, content, ops
from c03 import EQUIV
from core import Part, Violation
from procs import lockmap, start_prober
from streams import Driver, Raised, call, mk, read_file, rsfile, same_outcome, short

ID = "C04"
LEVEL = "exploration"
RULE = ("Cases are (way of wrapping, descriptor number/flags/position, initial content, mode, wrapper options, closefd, operations) drawn by a "
        "structured generator; the descriptor and file are inspected around construction and close, operations are compared with the "
        "stdlib stream wrapping an identical descriptor. Non-trivial: non-zero position, truncating or append mode, descriptor 0, closefd "
        "false, failing construction or several wrappers.")
ASSUMPTIONS = ["Standard library io.open/_pyio.open wrapping the same kind of descriptor is the reference."]

ADV = {"rb": ["RB", "RNB", "RIB"], "rb+": ["RWB", "RWNB", "RWSB"], "wb": ["WEB", "WB", "WCB"], "wb+": ["RWEB", "RWEIB"], "ab": ["AB", "WAB", "ANB"], "ab+": ["RAB"],
       "xb": ["WCB"], "xb+": ["RWCB"],
       "r": ["RN", "R"], "w": ["WE", "W"], "a": ["A"], "r+": ["RWN"], "w+": ["RWET"], "a+": ["RAT"]}
MODES = sorted(ADV)
OPS = {raw: st.lists(ops(raw), 0, 12) for raw in (False, True)}
INIT = content()


@st.composite
def case_strategy(draw):
    how = draw(st.sampled_from(["fileno", "handle", "name", "opener", "opener_flags"]))
    mode = draw(st.sampled_from(MODES))
    binary = "b" in mode
    buffering = draw(st.sampled_from([None, -1, 0, 0, 5, 64, 4096] if binary else [None, -1, 1, 7, 4096]))
    return (how, draw(st.sampled_from(["natural", "natural", "zero", "high"])), mode, draw(st.integers(0, 3)), buffering,
            draw(st.sampled_from(["rw", "rw", "exact", "rw_append"])),
            draw(st.one_of(st.integers(0, 60), st.sampled_from([0, 0, 4096, 9000, 1 << 31, (1 << 32) + 7]))),
            draw(INIT), draw(st.booleans()), draw(st.booleans()), draw(st.booleans()),
            draw(OPS[buffering == 0]) if binary else draw(TOPS), draw(st.sampled_from(["close", "close", "with", "del", "double"])))


def t_ops():
    t, j = st.tuples, st.just
    return st.lists(st.one_of(t(j("twrite"), st.text("ab\né", 0, 9)), t(j("read"), st.integers(0, 9)), t(j("readline")), t(j("ttell")), t(j("seek"), j(0), st.sampled_from([0, 1, 2])),
                              t(j("flush")), t(j("truncate")), t(j("disk")), t(j("fileno"))), 0, 10)


TOPS = t_ops()


def acc_flags(mode):
    if "+" in mode:
        return os.O_RDWR
    return os.O_RDONLY if "r" in mode else os.O_WRONLY


def fd_state(fd):
    s = os.fstat(fd)
    return dict(ino=s.st_ino, size=s.st_size, mtime=s.st_mtime_ns, pos=os.lseek(fd, 0, 1), fl=fcntl.fcntl(fd, fcntl.F_GETFL), fdfl=fcntl.fcntl(fd, fcntl.F_GETFD))


def is_open(fd):
    try:
        os.fstat(fd)
        return True
    except OSError:
        return False


def run(case, env):
    how, number, mode, advi, buffering, flags_kind, pos, init, ts, lk, closefd, oplist, ending = case
    rs = rsfile()
    opener_based = how.startswith("opener")
    hold = []
    env.defer(lambda: [call(x.close) for x in hold])
    p1, p2 = env.path("a"), env.path("b")
    data = mk(init)
    for p in (p1, p2):
        with io.open(p, "wb") as f:
            f.write(data)
    flags = {"rw": os.O_RDWR, "exact": acc_flags(mode), "rw_append": os.O_RDWR | os.O_APPEND}[flags_kind]
    if how == "handle" and mode.startswith("x"):
        pass
    mode1 = mode if advi == 0 or how == "name" else ADV[mode][advi % len(ADV[mode])]
    kw = {} if buffering is None else dict(buffering=buffering)
    env.label("how:" + how, "num:" + number, "flags:" + flags_kind)

    if opener_based:
        closefd = True
        exclusive = mode.startswith("x")
        if exclusive:
            os.unlink(p1)
            os.unlink(p2)
        calls = {}

        def make_opener(key):
            def opener(name, fl):
                calls.setdefault(key, []).append((name, fl))
                if how == "opener_flags" and isinstance(fl, int):
                    return os.open(name, fl, 0o666)
                return os.open(name, os.O_RDWR | os.O_CREAT, 0o666)
            return opener

        if mode1 != mode:
            mode1 = EQUIV[mode.replace("b", "")] + ("B" if "b" in mode else "")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f2 = call(_pyio.open, p2, mode, opener=make_opener(2), **kw)
            io.open(p2 + "x", mode, opener=lambda n, fl: calls.setdefault(3, []).append((n, fl)) or os.open(n, os.O_RDWR | os.O_CREAT, 0o666), **kw).close()
            f1 = call(rs.rsopen, p1, mode1, opener=make_opener(1), thread_safe=ts, locking=lk, **kw)
        hold += [x for x in (f1, f2) if not isinstance(x, Raised)]
        if isinstance(f1, Raised) or isinstance(f2, Raised):
            raise Violation("opener", "rsopen with opener gave %r, stdlib %r" % (f1, f2))
        if len(calls[1]) != 1:
            raise Violation("opener-calls", "opener called %d times" % len(calls[1]))
        name, fl = calls[1][0]
        if name != p1 or not isinstance(fl, int) or isinstance(fl, bool):
            raise Violation("opener-args", "opener called with %r" % (calls[1],))
        if fl != calls[3][0][1]:
            raise Violation("opener-args", "mode %r: opener got flags %#o, io.open gives %#o" % (mode1, fl, calls[3][0][1]))
        fd1 = f1.fileno()
        env.nontrivial = True
    else:
        fd1, fd2 = os.open(p1, flags), os.open(p2, flags)
        env.defer(lambda: is_open(fd2) and os.close(fd2))
        if number == "zero":
            saved = os.dup(0)
            os.dup2(fd1, 0)
            os.close(fd1)
            fd1 = 0
            env.defer(os.close, saved)
            env.defer(os.dup2, saved, 0)
        elif number == "high":
            n = fcntl.fcntl(fd1, fcntl.F_DUPFD, 200)
            os.close(fd1)
            fd1 = n
        if number != "zero":
            env.defer(lambda: is_open(fd1) and os.close(fd1))
        os.lseek(fd1, pos, 0)
        os.lseek(fd2, pos, 0)
        if flags_kind == "rw_append" or pos % 2:
            os.set_inheritable(fd1, True)
            os.set_inheritable(fd2, True)
        before = fd_state(fd1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f2 = call(_pyio.open, fd2, mode, closefd=closefd, **kw)
            if how == "name":
                f1 = call(rs.rsopen, fd1, mode1, thread_safe=ts, locking=lk, closefd=closefd, **kw)
            else:
                f1 = call(rs.rsopen, mode=mode1, thread_safe=ts, locking=lk, closefd=closefd, **{how: fd1}, **kw)
        hold += [x for x in (f1, f2) if not isinstance(x, Raised)]
        if isinstance(f1, Raised) or isinstance(f2, Raised):
            raise Violation("wrap", "wrapping %s gave %r, stdlib %r" % (how, f1, f2))
        m = lockmap(p1)
        want_map = [(0, None, "x" if f1.writable() else "s")] if lk else []
        if m != want_map:
            raise Violation("locks", "after wrapping with locking=%s the lock map is %r" % (lk, m))
        state = fd_state(fd1)
        want = dict(before)
        if "a" in mode:
            want["pos"] = len(data)
        if state != want:
            diff = {k: (want[k], state[k]) for k in want if want[k] != state[k]}
            raise Violation("altered:" + sorted(diff)[0], "wrapping a descriptor with %r changed it (expected, found): %r" % (mode1, diff))
        if read_file(p1) != data:
            raise Violation("altered:content", "wrapping a descriptor with mode %r changed the file content" % mode1)
        facts = [("fileno()", f1.fileno(), fd1), ("handle()", f1.handle(), fd1), ("name", f1.name, fd1), ("origin", f1.origin, "handle" if how == "handle" else "fileno"),
                 ("closefd", f1.closefd, closefd), ("closed", f1.closed, False), ("readable", f1.readable(), f2.readable()), ("writable", f1.writable(), f2.writable())]
        for n, got, w in facts:
            if got != w:
                raise Violation("attribute:" + n, "%s is %r, expected %r" % (n, got, w))
        env.nontrivial = pos > 0 or "w" in mode or "a" in mode or fd1 == 0 or not closefd

    d1, d2 = Driver(f1, p1), Driver(f2, p2)
    compare_run(env, d1, d2, [op for op in oplist if op != ("attr", "mode")])

    # closing
    already = f1.closed
    if ending == "del" and not already:
        if f1.writable():
            f1.flush()
        f2.close()
        hold.clear()
        del f1, d1.f
        gc.collect()
    else:
        if ending == "with" and not already:
            with f1:
                pass
            f2.close()
        else:
            r1, r2 = call(f1.close), call(f2.close)
            if not same_outcome(r1, r2):
                raise Violation("close", "close gave %r, stdlib %r" % (r1, r2))
        if not f1.closed:
            raise Violation("close", "stream not marked closed")
    if closefd:
        if is_open(fd1) and not (fd1 == 0 and opener_based):
            raise Violation("not-closed", "descriptor %d still open after closing a closefd=True stream (%s)" % (fd1, ending))
    else:
        if not is_open(fd1):
            raise Violation("closed-foreign", "descriptor %d closed although closefd=False (%s)" % (fd1, ending))
        s = fd_state(fd1)
        s2 = fd_state(fd2)
        if s["pos"] != s2["pos"] or s["size"] != s2["size"] or s["fl"] != before["fl"] or s["fdfl"] != before["fdfl"]:
            raise Violation("state-after-close", "descriptor state %r, with stdlib %r" % (s, s2))
        if os.lseek(fd1, 0, 0) != 0:
            raise Violation("state-after-close", "descriptor unusable")
    if lockmap(p1) != []:
        raise Violation("locks", "locks left after close: %r" % lockmap(p1))
    c1, c2 = read_file(p1), read_file(p2)
    if c1 != c2:
        raise Violation("content", "final content %s, stdlib %s" % (short(c1), short(c2)))
    # a second close must not touch a recycled descriptor number
    if ending == "double" and closefd:
        new = os.open(p2, os.O_RDONLY)
        dup = fd1
        if new != fd1:
            os.dup2(new, fd1)
        try:
            call(f1.close)
            call(f1.close)
            if not is_open(dup):
                raise Violation("double-close", "a second close() closed a recycled descriptor")
        finally:
            if new != fd1:
                os.close(new)
            if fd1 != 0:
                os.close(fd1)


# ---------------------------------------------------------------------------------------- failing constructions


@st.composite
def bad_strategy(draw):
    return (draw(st.sampled_from(["directory", "closed", "negative", "huge", "badmode", "badencoding", "two", "closefd_path", "opener_bad", "opener_raises", "badargs_opener"])),
            draw(st.sampled_from(["fileno", "handle", "name"])), draw(st.sampled_from(["r", "rb", "w", "wb", "r+b", "ab"])), draw(st.booleans()), draw(st.booleans()))


def run_bad(case, env):
    what, how, mode, closefd, ts = case
    rs = rsfile()
    env.nontrivial = True
    env.label("bad:" + what)
    p = env.path("a")
    with io.open(p, "wb") as f:
        f.write(b"untouched")

    def wrap(fd, mode=mode, **kw):
        if how == "name":
            return call(rs.rsopen, fd, mode, closefd=closefd, thread_safe=ts, locking=False, **kw)
        return call(rs.rsopen, mode=mode, closefd=closefd, thread_safe=ts, locking=False, **{how: fd}, **kw)

    def must_fail(r, *families):
        gc.collect()
        if not isinstance(r, Raised):
            r.close()
            raise Violation("bad-accepted", "%s accepted" % what)
        if not r.families & set(families):
            raise Violation("bad-error", "%s raised %r" % (what, r))

    if what == "directory":
        fd = os.open(env.dir, os.O_RDONLY)
        try:
            r = wrap(fd)
            must_fail(r, "OSError")
            if r.errno != errno.EISDIR:
                raise Violation("bad-error", "directory: %r" % r)
            del r
            gc.collect()
            if not is_open(fd):
                raise Violation("closed-foreign", "refusing to wrap a directory closed the caller's descriptor")
        finally:
            if is_open(fd):
                os.close(fd)
    elif what == "closed":
        fd = os.open(p, os.O_RDWR)
        os.close(fd)
        r = wrap(fd)
        must_fail(r, "OSError")
        if r.errno != errno.EBADF:
            raise Violation("bad-error", "closed descriptor: %r" % r)
    elif what == "negative":
        must_fail(wrap(-1), "ValueError", "TypeError")
    elif what == "huge":
        must_fail(wrap(1 << 40), "ValueError", "TypeError", "OverflowError", "OSError")
    elif what == "badmode":
        fd = os.open(p, os.O_RDWR)
        must_fail(wrap(fd, mode="zz"), "ValueError")
        if not is_open(fd) or os.lseek(fd, 0, 1) != 0:
            raise Violation("closed-foreign", "an invalid mode closed the descriptor")
        os.close(fd)
    elif what == "badencoding":
        fd, fd2 = os.open(p, os.O_RDWR), os.open(p, os.O_RDWR)
        r = wrap(fd, mode="r", encoding="nosuchcodec")
        must_fail(r, "LookupError")
        r2 = call(_pyio.open, fd2, "r", encoding="nosuchcodec", closefd=closefd)
        del r, r2
        gc.collect()
        a, b = is_open(fd), is_open(fd2)
        for x in (fd, fd2):
            if is_open(x):
                os.close(x)
        if a != b:
            raise Violation("failed-wrap-close", "after a failed wrap the descriptor is %s, with stdlib %s" % (a, b))
    elif what == "two":
        fd = os.open(p, os.O_RDWR)
        if how == "name":
            must_fail(call(rs.rsopen, fd, mode, fileno=fd), "ValueError")
        else:
            must_fail(call(rs.rsopen, p, mode, **{how: fd}), "ValueError")
        must_fail(call(rs.rsopen, mode=mode, fileno=fd, handle=fd), "ValueError")
        must_fail(call(rs.rsopen, fd, mode, opener=lambda n, f: os.dup(fd)), "ValueError")
        if not is_open(fd):
            raise Violation("closed-foreign", "conflicting targets closed the descriptor")
        os.close(fd)
    elif what == "closefd_path":
        must_fail(call(rs.rsopen, p, mode, closefd=False), "ValueError")
    elif what == "opener_bad":
        must_fail(call(rs.rsopen, p, mode, opener=lambda n, f: -1), "ValueError", "OSError")
    elif what == "opener_raises":
        def op(n, f):
            raise KeyError("boom")
        must_fail(call(rs.rsopen, p, mode, opener=op), "LookupError")
    elif what == "badargs_opener":
        opened = []
        r = call(rs.rsopen, p, mode.replace("b", "") + "b", encoding="utf8", opener=lambda n, f: opened.append(os.open(p, os.O_RDWR)) or opened[-1])
        must_fail(r, "ValueError")
        leaked = [x for x in opened if is_open(x)]
        for x in leaked:
            os.close(x)
        if leaked:
            raise Violation("leak", "invalid arguments leaked the opener's descriptor")
    if read_file(p) != b"untouched":
        raise Violation("altered:content", "%s changed the file" % what)


# ---------------------------------------------------------------------------------------- several wrappers of one descriptor


@st.composite
def multi_strategy(draw):
    n = draw(st.integers(2, 4))
    ops_ = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["read", "write", "seek", "tell", "close", "del", "size", "open"]), st.integers(0, 30)), 3, 20))
    return (n, draw(st.binary(0, 60)), ops_, draw(st.booleans()))


def run_multi(case, env):
    """Several unbuffered closefd=False wrappers of one descriptor behave like os.* calls on this descriptor."""
    n, data, oplist, ts = case
    rs = rsfile()
    p1, p2 = env.path("a"), env.path("b")
    for p in (p1, p2):
        with io.open(p, "wb") as f:
            f.write(data)
    fd1, fd2 = os.open(p1, os.O_RDWR), os.open(p2, os.O_RDWR)
    env.defer(lambda: is_open(fd1) and os.close(fd1))
    env.defer(os.close, fd2)

    def mkone(i):
        return rs.rsopen(mode="RWB", buffering=0, closefd=False, thread_safe=ts, locking=False, **({"fileno": fd1} if i % 2 else {"handle": fd1}))

    w = [mkone(i) for i in range(n)]
    closed_some = False
    for i, op, arg in oplist:
        env.steps += 1
        f = w[i]
        if f is None or f.closed:
            if op in ("open", "read", "write"):
                f = w[i] = mkone(i)
            else:
                continue
        if op == "read":
            got, want = f.read(arg), os.read(fd2, arg)
        elif op == "write":
            got, want = f.write(b"w" * arg), os.write(fd2, b"w" * arg)
        elif op == "seek":
            got, want = f.seek(arg), os.lseek(fd2, arg, 0)
        elif op == "tell":
            got, want = f.tell(), os.lseek(fd2, 0, 1)
        elif op == "size":
            got, want = f.size(), os.fstat(fd2).st_size
        elif op == "close":
            f.close()
            closed_some = True
            got, want = f.closed, True
        elif op == "del":
            w[i] = None
            del f
            gc.collect()
            closed_some = True
            got = want = 0
        else:
            continue
        if got != want:
            raise Violation("multi", "%s on wrapper %d gave %r, os gives %r" % (op, i, got, want))
        if not is_open(fd1):
            raise Violation("closed-foreign", "%s of a closefd=False wrapper closed the shared descriptor" % op)
    env.nontrivial = closed_some and len(oplist) > 4
    if read_file(p1) != read_file(p2):
        raise Violation("content", "content differs")


PARTS = [
    Part("wrap", case_strategy, run, quick=18000, thorough=300000, setup=start_prober),
    Part("bad", bad_strategy, run_bad, quick=2700, thorough=20000),
    Part("multi", multi_strategy, run_multi, quick=5400, thorough=50000),
]
