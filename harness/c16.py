"""C16: extension methods report the truth and do not disturb the stream (metamorphic: same history with and without them)."""
import os
import warnings

import gen as st
from core import Part, Violation
from streams import BIG, Driver, Raised, call, mk, mktext, read_file, rsfile, same_outcome, short
import c01

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "property-based testing, metamorphic: the same generated operation history is run on two identical files, with generated calls of extension methods inserted in the second run only"
RULE = ("Cases are (layer, mode, options, content, history, insertions). Both runs must give the same results, positions and final content; and each inserted "
        "call must report what an independent os.stat()/fstat() reports, with size() covering data still buffered. Non-trivial: at least 2 extension calls "
        "inserted strictly inside a history with at least 3 successful operations, including a write or read.")
ASSUMPTIONS = ["Results which are documented to depend on the buffering state (peek, read1, disk content before a flush) are not compared."]


def ext():
    t, j = st.tuples, st.just
    rng = st.tuples(st.one_of(st.just(None), st.integers(0, 20)), st.one_of(st.just(None), st.integers(0, 30)), st.sampled_from([0, 0, 0, 1, 2]))
    return st.weighted((4, t(j("size"))), (2, t(j("times"))), (1, t(j("ids"))), (1, t(j("sync"), st.sampled_from([(), (True,), (False,), (True, False), (False, False)]))),
                       (3, t(j("lock"), rng)), (3, t(j("unlock"), rng)), (2, t(j("withlock"), rng)), (1, t(j("unlockall"))))


def bops():
    t, j = st.tuples, st.just
    w, n, p = c01.wdata(), c01.count(), st.one_of(st.integers(0, 80), st.integers(0, 9000))
    return st.weighted(
        (3, t(j("read"), n)), (1, t(j("read"))), (2, t(j("readline"))), (1, t(j("next"))),
        (1, t(j("iter"), st.integers(1, 4))), (5, t(j("write"), w)), (1, t(j("writelines"), st.lists(w, max_size=3))), (3, t(j("seek"), p)),
        (1, t(j("seek"), st.integers(0, 20), st.sampled_from([1, 2]))), (2, t(j("tell"))), (1, t(j("truncate"))), (1, t(j("truncate"), p)), (1, t(j("flush"))),
        (1, t(j("attr"), st.sampled_from(["closed", "readable", "writable", "seekable"]))))


def tops():
    t, j = st.tuples, st.just
    txt = st.tuples(j("P"), st.sampled_from("aulwn"), st.integers(0, 60), st.one_of(st.integers(0, 40), st.sampled_from([0, 200, 3000, 9000])))
    return st.weighted(
        (3, t(j("read"), st.integers(0, 30))), (1, t(j("read"), st.sampled_from([-1, 2000, 5000]))), (3, t(j("readline"))), (1, t(j("readline"), st.integers(0, 20))), (2, t(j("next"))),
        (1, t(j("iter"), st.integers(1, 4))), (5, t(j("twrite"), txt)), (1, t(j("twritelines"), st.lists(txt, max_size=3))), (2, t(j("tseek"), st.integers(0, 9))),
        (1, t(j("seek"), st.just(0), st.sampled_from([0, 2]))), (3, t(j("ttell"))), (1, t(j("truncate"), st.integers(0, 30))), (1, t(j("flush"))))


BOPS, TOPS, EXT = st.lists(bops(), 1, 18), st.lists(tops(), 1, 18), ext()
INSERT = st.lists(st.tuples(st.integers(0, 18), EXT), 1, 10)
INIT = c01.content()


@st.composite
def strategy(draw):
    layer = draw(st.sampled_from(["raw", "buffered", "buffered", "text", "text"]))
    access = draw(st.sampled_from(["RW", "RW", "RW", "W", "R", "RA", "A"]))
    opts = dict(thread_safe=draw(st.booleans()), locking=draw(st.booleans()))
    buf = 0 if layer == "raw" else draw(st.sampled_from([None, 1, 3, 16, 64, 4096]))
    if layer == "text":
        init = ("P", draw(st.sampled_from("aulwn")), draw(st.integers(0, 60)), draw(st.sampled_from([0, 10, 70, 300, 2500, 9000])))
        enc = draw(st.sampled_from(["utf-8", "utf-8", "latin-1", "ascii", "utf-16", "utf-8-sig", "utf-32-le", "shift_jis"]))
        if enc in ("utf-16", "utf-8-sig") and access not in ("R", "W"):
            enc = "utf-8"  # a single BOM can't survive arbitrary seeks between reads and writes
        nl = draw(st.sampled_from([None, "", "\n", "\r\n", "\r"]))
        return (layer, access, sorted(opts.items()), buf, (enc, nl), init, draw(TOPS), draw(INSERT))
    return (layer, access, sorted(opts.items()), buf, None, draw(INIT), draw(BOPS), draw(INSERT))


def normalise_before(f, op, last, text, append):
    """Mixing reads and writes on text streams requires a seek, and truncations leave read-ahead data: sync both runs identically."""
    if text and op[0] in ("twrite", "twritelines", "truncate") and last == "r":
        r = call(lambda: f.seek(f.tell()))
        if isinstance(r, Raised):
            call(f.seek, 0, 2)
    if text and op[0] in READS and last == "w":
        f.seek(f.tell())


def normalise_after(f, op, text, append):
    if op[0] in ("truncate",):
        r = call(lambda: f.seek(f.tell()))
        if isinstance(r, Raised):
            call(f.seek, 0, 2)
    if append and op[0] in ("write", "writelines", "twrite", "twritelines"):
        call(f.flush)
        if text:
            call(f.seek, 0, 2)


READS = ("read", "readline", "next", "iter")


class Ext(object):
    def __init__(self, f, path, env):
        self.f, self.path, self.env = f, path, env
        st_ = os.stat(path)
        self.uid = (st_.st_dev, st_.st_ino)
        self.fd = f.fileno()
        self.ranges = set()

    def do(self, e, buffered):
        f, path = self.f, self.path
        kind = e[0]
        self.env.label("ext:" + kind)
        if kind == "size":
            r = f.size()
            disk = os.stat(path).st_size
            if r != disk:
                raise Violation("size", "size() returned %r, file has %d bytes" % (r, disk))
        elif kind == "times":
            a = os.stat(path)
            r = f.times()
            b = os.stat(path)
            if not (a.st_atime <= r.access_time <= b.st_atime and a.st_mtime <= r.modification_time <= b.st_mtime):
                raise Violation("times", "times() returned %r, file has %r/%r" % (r, b.st_atime, b.st_mtime))
        elif kind == "ids":
            if tuple(f.unique_id()) != self.uid:
                raise Violation("unique_id", "unique_id() is %r instead of %r" % (f.unique_id(), self.uid))
            if f.fileno() != self.fd or f.handle() != self.fd:
                raise Violation("fileno", "fileno() / handle() changed: %r %r %r" % (self.fd, f.fileno(), f.handle()))
            if not os.path.samestat(os.fstat(f.fileno()), os.stat(path)):
                raise Violation("fileno", "fileno() isn't a descriptor of the file")
            if f.origin != "path" or f.name != path:
                raise Violation("origin", "origin %r name %r" % (f.origin, f.name))
        elif kind == "sync":
            r = call(f.sync, *e[1])
            if isinstance(r, Raised):
                raise Violation("sync", "sync%r raised %r" % (e[1], r))
        elif kind in ("lock", "withlock"):
            length, offset, whence = e[1]
            r = call(f.lock_file, timeout=0, length=length, offset=offset, whence=whence)
            if isinstance(r, Raised):
                if not r.families & {"RuntimeError", "OSError", "ValueError"}:
                    raise Violation("lock", "lock_file() raised %r" % r)
            elif kind == "withlock":
                with r:
                    pass
        elif kind == "unlock":
            length, offset, whence = e[1]
            r = call(f.unlock_file, length, offset or 0, whence)
            if isinstance(r, Raised) and not r.families & {"RuntimeError", "OSError", "ValueError"}:
                raise Violation("unlock", "unlock_file() raised %r" % r)
        elif kind == "unlockall":
            call(f.unlock_file)


def open_one(rs, layer, access, opts, buf, enc, path):
    kw = dict(opts)
    if buf is not None:
        kw["buffering"] = buf
    if layer == "text":
        kw.update(encoding=enc[0], newline=enc[1], errors="replace")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return rs.rsopen(path, access + ("T" if layer == "text" else "B"), **kw)


def run(case, env):
    layer, access, opts, buf, enc, init, oplist, insert = case
    rs = rsfile()
    text, append = layer == "text", "A" in access
    data = mktext(init).encode(enc[0], "replace") if text else mk(init)
    drivers = []
    for name in "ab":
        p = env.path(name)
        with open(p, "wb") as f:
            f.write(data)
        s = open_one(rs, layer, access, opts, buf, enc, p)
        env.defer(s.close)
        drivers.append(Driver(s, p))
    d1, d2 = drivers
    e = Ext(d2.f, d2.path, env)
    compare_tell = not text or (enc[0] in ("utf-8", "latin-1", "ascii", "utf-32-le") and enc[1] == "\n")
    by_index = {}
    for i, x in insert:
        by_index.setdefault(i, []).append(x)
    ok, inside, last, iterating = 0, 0, None, False
    for i, op in enumerate(oplist):
        if text and iterating and op[0] == "flush":
            continue  # in the stdlib, flush() enables tell() in the middle of an iteration, with wrong results
        for x in by_index.get(i, ()):
            if i:
                inside += 1
            env.steps += 1
            if x[0] == "size" and "R" != access:
                e.do(x, layer != "raw")
                # data still buffered would show up in the file only now
                before = os.stat(d2.path).st_size
                if not iterating:
                    call(d2.f.flush)
                    if os.stat(d2.path).st_size != before:
                        raise Violation("size", "size() ignored buffered data: %d, %d after flush()" % (before, os.stat(d2.path).st_size))
            else:
                e.do(x, layer != "raw")
        for d in drivers:
            normalise_before(d.f, op, last, text, append)
        big = max(d1.size_hint(), d2.size_hint()) > BIG
        r1, r2 = d1.do(op, big), d2.do(op, big)
        env.steps += 1
        same = same_outcome(r2, r1)
        if not same and op[0] in ("ttell", "tseek") and not compare_tell and not isinstance(r1, Raised) and not isinstance(r2, Raised):
            same = True
        if not same and text and iterating and op[0] == "ttell" and isinstance(r1, Raised) and "OSError" in r1.families:
            same = any(x[0] in ("lock", "unlock", "withlock", "unlockall") for k in range(i + 1) for x in by_index.get(k, ()))  # a granted lock resynchronised the stream
            if same and not isinstance(r2, Raised):
                d2.cookies.pop()
        if not same:
            raise Violation("disturbed", "op %r gives %s without the inserted calls, %s with them" % (op, short(r1), short(r2)))
        if not isinstance(r1, Raised):
            ok += 1
        for d in drivers:
            normalise_after(d.f, op, text, append)
        last = "r" if op[0] in READS else "w" if op[0] in ("twrite", "twritelines") else last if op[0] in ("ttell", "flush") else None
        if text:
            if op[0] in ("next", "iter"):
                iterating = True
            elif op[0] in ("seek", "tseek", "flush", "truncate", "twrite", "twritelines"):
                iterating = False
        if not text and not isinstance(r1, Raised) and op[0] not in ("attr",):
            p1, p2 = call(d1.f.tell), call(d2.f.tell)
            if not same_outcome(p2, p1):
                raise Violation("position", "after %r tell() is %r without the inserted calls, %r with them" % (op, p1, p2))
    for k in range(len(oplist), 20):
        for x in by_index.get(k, ()):
            e.do(x, layer != "raw")
    for d in drivers:
        r = call(d.f.close)
        if isinstance(r, Raised):
            raise Violation("close", repr(r))
    c1, c2 = read_file(d1.path), read_file(d2.path)
    if c1 != c2:
        raise Violation("content", "final content: %s without the inserted calls, %s with them" % (short(c1), short(c2)))
    env.label("layer:" + layer, "access:" + access)
    env.nontrivial = inside >= 2 and ok >= 3


# ------------------------------------------------------------ part "attributes": wrapped descriptors, special files


@st.composite
def attr_strategy(draw):
    return (draw(st.sampled_from(["path", "fileno", "handle", "name", "opener"])), draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.booleans()),
            draw(st.sampled_from(["RW", "R", "W", "RA"])), draw(st.integers(0, 5000)), draw(st.integers(0, 1 << 33)), draw(st.integers(0, 1 << 33)), draw(st.booleans()))


def attr_run(case, env):
    how, layer, ts, access, size, atime, mtime, closefd = case
    rs = rsfile()
    path = env.path()
    with open(path, "wb") as f:
        f.truncate(size)
    os.utime(path, ns=(atime * 10**9 // 2, mtime * 10**9 // 2))
    mode = access + ("T" if layer == "text" else "B")
    kw = dict(thread_safe=ts)
    if layer == "raw":
        kw["buffering"] = 0
    fd = None
    if how == "path":
        f = rs.rsopen(path, mode, **kw)
    elif how == "opener":
        f = rs.rsopen(path, mode, opener=lambda n, fl: os.open(n, fl), **kw)
    else:
        fd = os.open(path, os.O_RDWR)
        if how == "name":
            f = rs.rsopen(fd, mode.lower().replace("rw", "r+").replace("ra", "a+"), closefd=closefd, **kw)
        else:
            f = rs.rsopen(mode=mode, closefd=closefd, **{how: fd}, **kw)
        if not closefd:
            env.defer(os.close, fd)
    env.defer(f.close)
    s = os.stat(path)
    obs = dict(size=f.size(), uid=tuple(f.unique_id()), fileno=f.fileno(), handle=f.handle(), origin=f.origin)
    if obs["size"] != size:
        raise Violation("size", "%r instead of %d" % (obs["size"], size))
    if obs["uid"] != (s.st_dev, s.st_ino):
        raise Violation("unique_id", repr(obs["uid"]))
    if f.uid() != f.unique_id():
        raise Violation("unique_id", "uid() differs from unique_id()")
    t = f.times()
    if (t.access_time, t.modification_time) != (s.st_atime, s.st_mtime):
        raise Violation("times", "%r instead of %r" % (t, (s.st_atime, s.st_mtime)))
    if obs["origin"] != {"path": "path", "handle": "handle"}.get(how, "fileno"):
        raise Violation("origin", "%s -> %r" % (how, obs["origin"]))
    if fd is not None and (obs["fileno"] != fd or obs["handle"] != fd or f.name != fd):
        raise Violation("fileno", "fileno %r handle %r name %r instead of %d" % (obs["fileno"], obs["handle"], f.name, fd))
    if f.handle() != f.fileno():
        raise Violation("fileno", "on unix handles are descriptors")
    env.nontrivial = True


PARTS = [Part("metamorphic", strategy, run, quick=57200, thorough=300000),
         Part("attributes", attr_strategy, attr_run, quick=3500, thorough=30000)]
