"""C25: drop-in replacements of open() and of the io classes keep the standard behaviour."""
import copy
import fcntl
import gc
import io
import os
import pathlib
import pickle
import signal
import struct
import sys
import traceback
import types
import warnings

import c01
import c02
import gen as st
import procs
from c01 import compare_run
from c02 import encode_init
from core import HarnessError, Part, Violation, set_pdeathsig
from refio import ref
from streams import BIG, Driver, Raised, call, mk, read_file, rsfile, same_outcome, short

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: differential between the replaced open()/io classes (on a patched module, or on really patched io, _pyio, _io, builtins in a forked child) and the original ones, arguments and operations generated"
RULE = ("Part 'open': generated arguments (paths of all kinds, descriptors, path objects, undecodable names, directories, modes valid or not, buffering, text options, closefd, opener; positional or keyword) given to the replacement open() "
        "and to io.open() and _pyio.open(), comparing acceptance, attributes, a history of operations, content, permissions, descriptor flags, with a whole-file lock held elsewhere and none taken. Part 'classes': the "
        "replacement FileIO / Buffered* / TextIOWrapper against the original ones over the same kinds of raw streams. Part 'patched': a forked child really patches the modules, then runs histories and standard "
        "library programs (pathlib, tempfile, zipfile, gzip, csv, subprocess, fileinput...), against an unpatched one. Non-trivial: an accepted call followed by at least 3 successful operations, or a refused one.")
ASSUMPTIONS = ["When io.open() and _pyio.open() disagree about a call, either behaviour is accepted.", "Arguments which are accepted only by rsfile (advanced modes, locking...) and booleans given as integers are out of the comparison."]

F_OFD_GETLK, F_OFD_SETLK = 36, 37
IO_ORIG = dict(FileIO=io.FileIO, BufferedReader=io.BufferedReader, BufferedWriter=io.BufferedWriter, BufferedRandom=io.BufferedRandom, TextIOWrapper=io.TextIOWrapper, open=io.open)

MODES = ["r", "w", "a", "x", "r+", "w+", "a+", "x+", "rb", "wb", "ab", "xb", "rb+", "wb+", "ab+", "xb+", "r+b", "br", "rt", "wt", "at", "w+t", "rb", "wb", "r+b"]
BAD_MODES = ["", "b", "t", "+", "rw", "ra", "rr", "r++", "rbt", "wbt", "rU", "U", "z", "r z", "bb", "xw", "r\0", "rbb", "+b", "tb", "wa+"]


def patched_namespace():
    rs = rsfile()
    m = types.ModuleType("patched_io")
    for k, v in IO_ORIG.items():
        setattr(m, k, v)
    rs.monkey_patch_io_module(m)
    return m


def patched_builtin():
    import builtins

    rs = rsfile()
    saved = builtins.open
    try:
        rs.monkey_patch_open_builtin()
        return builtins.open
    finally:
        builtins.open = saved


_cache = {}


def patched(how):
    if how not in _cache:
        _cache["module"] = patched_namespace()
        _cache["builtin"] = types.SimpleNamespace(open=patched_builtin())
    return _cache[how]


# ------------------------------------------------------------------------------------------------ open

@st.composite
def open_strategy(draw):
    target = draw(st.sampled_from(["file"] * 10 + ["missing"] * 5 + ["bytes", "pathlike", "bytespathlike", "fd", "fd", "fd", "badfd", "negfd", "dir", "dirfd", "nodir", "symlink", "dangling", "empty", "nul", "float", "none", "undecodable",
                                                         "undecodablebytes", "rofile", "list", "opener", "opener", "opener-bad", "opener-neg", "opener-raise", "fd-opener", "fifo-fd"]))
    mode = draw(st.one_of(st.sampled_from(MODES), st.sampled_from(MODES), st.sampled_from(MODES), st.sampled_from(BAD_MODES), st.sampled_from([None, 5, b"r"])) if draw(st.integers(0, 4)) == 0 else st.sampled_from(MODES))
    binary = isinstance(mode, str) and "b" in mode
    buffering = draw(st.sampled_from([-1, -1, -1, 0, 1, 2, 16, 300, 8192, -7])) if draw(st.integers(0, 9)) else draw(st.sampled_from(["8", 1.5, 2.0, b"1"]))
    if not binary and buffering == 0 and draw(st.integers(0, 3)):
        buffering = -1
    text = {}
    if not binary or draw(st.integers(0, 9)) == 0:
        if draw(st.booleans()):
            text["encoding"] = draw(st.sampled_from([None, "utf-8", "utf-16", "latin-1", "ascii", "utf-8-sig", "nosuchcodec", 5, b"utf-8"]) if draw(st.integers(0, 3)) == 0 else st.sampled_from(["utf-8", "utf-16", "latin-1", "ascii"]))
        if draw(st.integers(0, 3)) == 0:
            text["errors"] = draw(st.sampled_from([None, "strict", "ignore", "replace", "surrogateescape", "backslashreplace", 7]))
        if draw(st.integers(0, 2)) == 0:
            text["newline"] = draw(st.sampled_from([None, "", "\n", "\r", "\r\n", "bad", 3]) if draw(st.integers(0, 4)) == 0 else st.sampled_from([None, "", "\n", "\r", "\r\n"]))
    closefd = draw(st.sampled_from([None, None, None, None, True, False, 0, 1]))
    init = draw(c01.INIT if binary else c02.INITIAL)
    raw = binary and buffering == 0
    oplist = draw(c01.OPS[raw][1] if binary else c02.OPS[0]) + draw(c01.TAIL if binary else c02.LATE)
    return (draw(st.sampled_from(["module", "builtin"])), target, mode, buffering, sorted(text.items()), closefd, draw(st.integers(0, 3)), draw(st.sampled_from([0o022, 0o077, 0o027, 0])), draw(st.integers(0, 20)), init, oplist)


class PathLike(object):
    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


def build(target, d, init, enc, offset, mode):
    """Prepares the directory d; returns (first argument, path or None, fds to close, opener kwargs, log)."""
    path = os.path.join(d, "f.txt")
    log = []
    kw = {}
    fds = []
    content = encode_init(init, enc if isinstance(enc, str) else None)
    if target not in ("missing", "nodir", "dir", "dirfd", "dangling", "empty", "nul") and not (isinstance(mode, str) and "x" in mode and offset % 4):
        with io.open(path, "wb") as f:
            f.write(content)
    arg = path
    if target == "bytes":
        arg = os.fsencode(path)
    elif target == "pathlike":
        arg = pathlib.Path(path)
    elif target == "bytespathlike":
        arg = PathLike(os.fsencode(path))
    elif target in ("fd", "fd-opener"):
        arg = os.open(path, os.O_RDWR | os.O_CREAT | os.O_CLOEXEC)
        os.lseek(arg, offset, 0)
        fds.append(arg)
        if target == "fd-opener":
            kw["opener"] = lambda p, f: log.append("called")
    elif target == "fifo-fd":
        r, w = os.pipe()
        os.write(w, b"pipe data\nof two lines\n")
        readable = not isinstance(mode, str) or "r" in mode or "+" in mode
        arg = r if readable else w
        if readable:
            os.close(w)
            fds.append(r)
        else:
            fds += [r, w]
    elif target == "badfd":
        arg = 987
    elif target == "negfd":
        arg = -1 - offset
    elif target == "dir":
        os.mkdir(path)
    elif target == "dirfd":
        os.mkdir(path)
        arg = os.open(path, os.O_RDONLY)
        fds.append(arg)
    elif target == "nodir":
        arg = path = os.path.join(d, "nodir", "f")
    elif target in ("symlink", "dangling"):
        arg = path + ".lnk"
        os.symlink(path, arg)
    elif target == "empty":
        arg, path = "", None
    elif target == "nul":
        arg, path = path + "\0x", None
    elif target == "float":
        arg, path = 1.5, None
    elif target == "none":
        arg, path = None, None
    elif target == "list":
        arg, path = [path], None
    elif target in ("undecodable", "undecodablebytes"):
        new = os.path.join(os.fsencode(d), b"caf\xe9\xff.txt")
        if os.path.exists(path):
            os.rename(path, new)
        path = os.fsdecode(new)
        arg = new if target == "undecodablebytes" else path
    elif target == "rofile":
        if os.path.exists(path):
            os.chmod(path, 0o444)
    elif target.startswith("opener"):
        def opener(p, flags):
            log.append((p == arg, flags))
            if target == "opener-bad":
                return None
            if target == "opener-neg":
                return -1
            if target == "opener-raise":
                raise KeyError("opener")
            fd = os.open(p, flags, 0o640)
            return fd

        kw["opener"] = opener
    return arg, path, fds, kw, log


def locks_seen(path):
    """Whether a lock is held on the file, seen through an open file description of ours."""
    fd = os.open(path, os.O_RDONLY)
    try:
        data = fcntl.fcntl(fd, F_OFD_GETLK, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0))
        return struct.unpack("hhqqi4x", data)[0] != fcntl.F_UNLCK
    finally:
        os.close(fd)


def attributes(f, text, raw_names=True):
    out = {}
    for a in ("closed", "mode", "readable", "writable", "seekable", "isatty") + (("encoding", "errors", "line_buffering", "newlines", "write_through") if text else ()):
        v = call(getattr, f, a)
        if callable(v):
            v = call(v)
        out[a] = v if not isinstance(v, Raised) else sorted(v.families)
    return out


def open_run(case, env):
    how, target, mode, buffering, text, closefd, style, umask, offset, init, oplist = case
    text = dict(text)
    if target.startswith("opener") and text.get("newline") == 3:
        del text["newline"]  # io.open() checks it before calling the opener, _pyio.open() after
    oplist = [op for op in oplist if op[0] not in ("attr", "fileno", "raw_tell", "bufattr")]
    opens = {"new": patched(how).open, "c": io.open, "py": ref.open}
    res = {}
    before = procs.fds()
    for who in ("new", "c", "py"):
        d = env.path(who)
        os.mkdir(d)
        arg, path, fds, extra, log = build(target, d, init, text.get("encoding"), offset, mode)
        kw = dict(text)
        kw.update(extra)
        args = [arg]
        if closefd is not None:
            kw["closefd"] = closefd
        if style == 0 and not set(kw) - {"encoding", "errors", "newline", "closefd"}:
            args += [mode, buffering] + [kw.get("encoding"), kw.get("errors"), kw.get("newline")] + ([closefd] if closefd is not None else [])
            kw = {}
        elif style == 1:
            kw.update(mode=mode, buffering=buffering)
        elif style == 2:
            kw.update(file=args.pop(), mode=mode, buffering=buffering)
        else:
            args += [mode, buffering]
        existed = path is not None and os.path.lexists(path)
        holder = None
        regular = existed and os.path.isfile(path)
        if regular:
            holder = os.open(path, os.O_RDWR)
            fcntl.fcntl(holder, F_OFD_SETLK, struct.pack("hhqqi4x", fcntl.F_WRLCK, 0, 0, 0, 0))
        old = os.umask(umask)
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                f = call(opens[who], *args, **kw)
        finally:
            os.umask(old)
            if holder is not None:
                os.close(holder)
        if not isinstance(f, Raised):
            env.defer(f.close)
        for fd in fds:
            env.defer(lambda fd=fd: os.close(fd))
        res[who] = types.SimpleNamespace(f=f, path=path, fds=fds, log=log, arg=arg, warned={w.category.__name__ for w in caught} & {"RuntimeWarning", "UserWarning"})
    new, c, py = res["new"], res["c"], res["py"]
    say = lambda text_: "%r: %s" % (case[:9], text_)
    env.label("target:" + target)

    def accepted(a, b):
        if isinstance(a, Raised) and isinstance(b, Raised):
            return same_outcome(a, b)
        return isinstance(a, Raised) == isinstance(b, Raised)

    if not (accepted(new.f, c.f) or accepted(new.f, py.f)):
        raise Violation("acceptance", say("replacement gave %r, io.open %r, _pyio.open %r" % (new.f, c.f, py.f)))
    if not accepted(c.f, py.f):
        env.label("stdlib-disagree")

    def state(x):
        if x.path is None:
            return None
        try:
            s = os.stat(x.path)
        except OSError as e:
            return e.errno
        return (s.st_mode, s.st_size, None if not os.path.isfile(x.path) else read_file(x.path))

    candidates = [x for x in (py, c) if accepted(new.f, x.f)]
    same = [x for x in candidates if x.log == new.log and state(x) == state(new)]
    r = (same or candidates)[0]
    if new.log != r.log:
        raise Violation("opener", say("opener called with %r instead of %r" % (new.log, r.log)))
    if state(new) != state(r):
        raise Violation("created", say("path state %s instead of %s" % (short(state(new)), short(state(r)))))
    if isinstance(new.f, Raised):
        env.nontrivial = True
        env.label("refused")
        for x in res.values():
            for fd in x.fds:
                ok = call(os.fstat, fd)
                if isinstance(ok, Raised) and x is new and not isinstance(call(os.fstat, py.fds[0]), Raised):
                    raise Violation("descriptor", say("refused open closed the descriptor"))
        return
    is_text = not (isinstance(mode, str) and "b" in mode)
    if not isinstance(new.f, Raised) and new.warned not in [x.warned for x in candidates]:
        raise Violation("warnings", say("it warns with %r instead of %r" % (sorted(new.warned), sorted(r.warned))))
    a, b = attributes(new.f, is_text), attributes(r.f, is_text)
    if a != b:
        raise Violation("attributes", say("%r instead of %r" % (a, b)))
    if target not in ("opener",) and (type(new.f.name) is not type(r.f.name) or isinstance(new.f.name, int) == False and os.path.basename(new.f.name) != os.path.basename(r.f.name)):
        raise Violation("name", say("name %r, stdlib %r" % (new.f.name, r.f.name)))
    if isinstance(new.f.name, int) and new.f.name != new.f.fileno() or new.f.fileno() < 0:
        raise Violation("name", say("name %r, fileno %r" % (new.f.name, new.f.fileno())))
    if os.get_inheritable(new.f.fileno()) != os.get_inheritable(r.f.fileno()):
        raise Violation("inheritable", say("%r" % os.get_inheritable(new.f.fileno())))
    fl = [fcntl.fcntl(x.f.fileno(), fcntl.F_GETFL) & (os.O_ACCMODE | os.O_APPEND | os.O_SYNC | os.O_NONBLOCK) for x in (new, r)]
    if fl[0] != fl[1]:
        raise Violation("flags", say("%o instead of %o" % tuple(fl)))
    names = ("BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper")
    mine = [n for n in names if isinstance(new.f, patched("module").__dict__[n])]
    theirs = [[n for n in names if isinstance(x.f, o[n])] for x, o in ((c, IO_ORIG), (py, ref.__dict__)) if not isinstance(x.f, Raised)]
    if mine not in theirs:
        raise Violation("class", say("instance of %r, standard streams: %r" % (mine, theirs)))
    for x in (new, r):
        if not isinstance(x.f, (io.IOBase, ref.IOBase)):
            raise Violation("class", say("not an IOBase"))
    seekable = r.f.seekable()
    ok, kinds = 0, set()
    if seekable and not (target == "fd" and is_text):
        d1, d2 = Driver(new.f, new.path), Driver(r.f, r.path)
        d1.path, d2.path = new.path, r.path
        ok, kinds = compare_run(env, d1, d2, oplist, check_pos=not is_text)
        if not new.f.closed and locks_seen(new.path):
            raise Violation("locking", say("the file is locked"))
    elif seekable is False and target == "fifo-fd" and r.f.readable():
        x, y = call(new.f.read), call(r.f.read)
        if not same_outcome(x, y):
            raise Violation("pipe", say("read %r instead of %r" % (x, y)))
    x, y = call(new.f.close), call(r.f.close)
    if not same_outcome(x, y):
        raise Violation("close", say("close() gave %r instead of %r" % (x, y)))
    if state(new) != state(r):
        raise Violation("content", say("final state %s instead of %s" % (short(state(new)), short(state(r)))))
    for fd, fd2 in zip(new.fds, r.fds):
        x, y = isinstance(call(os.fstat, fd), Raised), isinstance(call(os.fstat, fd2), Raised)
        if x != y:
            raise Violation("closefd", say("descriptor closed: %r, with stdlib: %r" % (x, y)))
    env.nontrivial = ok >= 3
    if ok >= 3:
        env.label("history")


# ------------------------------------------------------------------------------------------------ classes

@st.composite
def classes_strategy(draw):
    kind = draw(st.sampled_from(["FileIO", "FileIO", "BufferedReader", "BufferedWriter", "BufferedRandom", "TextIOWrapper", "TextIOWrapper"]))
    below = draw(st.sampled_from(["patched", "patched", "c", "bytesio"]))
    fmode = draw(st.sampled_from(["r", "rb", "w", "wb", "a", "ab", "x", "xb", "r+", "rb+", "w+", "a+", "x+b", "rt", "", "rw", "z", "+", "b", "rU"] if kind == "FileIO" else ["r+"]))
    size = draw(st.sampled_from([None, None, 1, 3, 16, 100, 8192, 0, -1]))
    text = dict(draw(st.sampled_from([(), (), (("encoding", "utf-8"),), (("encoding", "utf-16"),), (("newline", ""),), (("newline", "\r\n"), ("encoding", "latin-1")), (("line_buffering", True),), (("write_through", True),),
                                      (("errors", "ignore"), ("encoding", "ascii")), (("errors", "nosuch"),), (("encoding", "nosuch"),), (("newline", "x"),)])))
    positional = draw(st.booleans())
    target = draw(st.sampled_from(["path", "path", "path", "bytes", "pathlike", "fd", "badfd", "dir", "missing", "opener", "undecodable"])) if kind == "FileIO" else "path"
    closefd = draw(st.sampled_from([None, None, None, True, False]))
    init = draw(c02.INITIAL if kind == "TextIOWrapper" else c01.INIT)
    ops = draw(c02.OPS[0] if kind == "TextIOWrapper" else c01.OPS[kind == "FileIO"][1]) + draw(c02.LATE if kind == "TextIOWrapper" else c01.TAIL)
    return (kind, below, fmode, size, sorted(text.items()), positional, target, closefd, draw(st.integers(0, 12)), init, ops)


def classes_run(case, env):
    kind, below, fmode, size, text, positional, target, closefd, offset, init, oplist = case
    oplist = [op for op in oplist if op[0] not in ("attr", "fileno", "raw_tell", "bufattr")]
    text = dict(text)
    ns = {"new": patched("module").__dict__, "c": IO_ORIG, "py": ref.__dict__}
    res = {}
    for who in ("new", "c", "py"):
        d = env.path(who)
        os.mkdir(d)
        m = ns[who]
        path = os.path.join(d, "f")
        log = []
        fds = []
        content = encode_init(init, text.get("encoding", "utf-8"))
        if target not in ("missing", "dir", "undecodable") and "x" not in fmode:
            with io.open(path, "wb") as f:
                f.write(content)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "FileIO":
                arg, kw = path, {}
                if target == "bytes":
                    arg = os.fsencode(path)
                elif target == "pathlike":
                    arg = pathlib.Path(path)
                elif target == "fd":
                    arg = os.open(path, os.O_RDWR | os.O_CREAT)
                    os.lseek(arg, offset, 0)
                    fds.append(arg)
                    env.defer(lambda fd=arg: os.close(fd))
                elif target == "badfd":
                    arg = 987
                elif target == "dir":
                    os.mkdir(path)
                elif target == "undecodable":
                    arg = path = os.fsdecode(os.path.join(os.fsencode(d), b"\xe9"))
                elif target == "opener":
                    def opener(p, flags, log=log, path=path):
                        log.append((p == path, flags))
                        return os.open(p, flags, 0o600)

                    kw["opener"] = opener
                if closefd is not None:
                    kw["closefd"] = closefd
                if positional:
                    f = call(m["FileIO"], arg, fmode, **kw)
                else:
                    f = call(m["FileIO"], file=arg, mode=fmode, **kw)
            else:
                if below == "bytesio":
                    raw = io.BytesIO(content)
                else:
                    raw = call((m if below == "patched" else IO_ORIG)["FileIO"], path, "r+")
                    if isinstance(raw, Raised):
                        raise Violation("rawopen", "%s: %r" % (who, raw))
                env.defer(raw.close)
                if kind == "TextIOWrapper":
                    if below != "bytesio":
                        raw = m["BufferedRandom"](raw)
                    f = call(m[kind], raw, **text) if not positional else call(m[kind], raw, *[text.get(k) for k in ("encoding", "errors", "newline")], **{k: v for k, v in text.items() if k in ("line_buffering", "write_through")})
                else:
                    sz = [] if size is None else [size]
                    f = call(m[kind], raw, *sz) if positional or not sz else call(m[kind], raw, buffer_size=size)
        if not isinstance(f, Raised):
            env.defer(f.close)
        x = types.SimpleNamespace(f=f, path=path, fds=fds, log=log, raw=None if kind == "FileIO" else raw)
        res[who] = x
    new, c, py = res["new"], res["c"], res["py"]
    say = lambda t: "%r: %s" % (case[:9], t)
    env.label("class:" + kind, "below:" + below)

    def accepted(a, b):
        if isinstance(a, Raised) and isinstance(b, Raised):
            return same_outcome(a, b)
        return isinstance(a, Raised) == isinstance(b, Raised)

    if not (accepted(new.f, c.f) or accepted(new.f, py.f)):
        raise Violation("acceptance", say("replacement gave %r, io %r, _pyio %r" % (new.f, c.f, py.f)))
    r = py if accepted(new.f, py.f) else c
    if new.log != r.log:
        raise Violation("opener", say("%r instead of %r" % (new.log, r.log)))

    def state(x):
        if below == "bytesio" and x.raw is not None:
            return call(x.raw.getvalue) if not x.raw.closed else None
        try:
            s = os.stat(x.path)
        except OSError as e:
            return e.errno
        return (s.st_mode, s.st_size, None if not os.path.isfile(x.path) else read_file(x.path))

    if state(new) != state(r):
        raise Violation("created", say("state %s instead of %s" % (short(state(new)), short(state(r)))))
    if isinstance(new.f, Raised):
        env.nontrivial = True
        env.label("refused")
        return
    if not isinstance(r.f, (ref.IOBase, io.IOBase)):
        raise HarnessError("reference isn't a stream")
    is_text = kind == "TextIOWrapper"
    a, b = attributes(new.f, is_text), attributes(r.f, is_text)
    for k in ("mode",) if kind != "FileIO" else ():
        a.pop(k), b.pop(k)
    if a != b:
        raise Violation("attributes", say("%r instead of %r" % (a, b)))
    if kind == "FileIO" and new.f.closefd != r.f.closefd:
        raise Violation("closefd", say("closefd %r" % new.f.closefd))
    d1, d2 = Driver(new.f, new.path), Driver(r.f, r.path)
    if below == "bytesio":
        oplist = [op for op in oplist if op[0] != "disk" and not (op[0] in ("seek", "truncate") and len(op) > 1 and isinstance(op[1], int) and abs(op[1]) > 10 ** 6)]
        # relative seeks on top of BytesIO clip instead of failing
        oplist = [op for op in oplist if not (op[0] == "seek" and len(op) > 2 and op[2])]
    ok, kinds = compare_run(env, d1, d2, oplist, check_pos=not is_text)
    if kind == "FileIO" and not new.f.closed and locks_seen(new.path):
        raise Violation("locking", say("the file is locked"))
    if below == "bytesio" and not new.f.closed:
        x, y = call(new.f.flush), call(r.f.flush)
        if not same_outcome(x, y) or state(new) != state(r):
            raise Violation("content", say("after flush: %s instead of %s" % (short(state(new)), short(state(r)))))
    x, y = call(new.f.close), call(r.f.close)
    if not same_outcome(x, y):
        raise Violation("close", say("close() gave %r instead of %r" % (x, y)))
    if state(new) != state(r):
        raise Violation("content", say("final state %s instead of %s" % (short(state(new)), short(state(r)))))
    for fd, fd2 in zip(new.fds, r.fds):
        x, y = isinstance(call(os.fstat, fd), Raised), isinstance(call(os.fstat, fd2), Raised)
        if x != y:
            raise Violation("closefd", say("descriptor closed: %r, with stdlib: %r" % (x, y)))
    env.nontrivial = ok >= 3


# ------------------------------------------------------------------------------------------------ patched (forked)

def in_child(func, timeout=25):
    """Runs func() in a forked child, returns what it returned or raises what it raised (Violation only)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            set_pdeathsig()
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            try:
                out = ("ok", func())
            except Violation as v:
                out = ("violation", (v.key, v.message))
            except BaseException as e:
                out = ("error", (traceback.format_exc()[-2500:], "rsfile" in traceback.format_exc()))
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Violation("child-died", "child ended with status %r" % status)
    kind, value = pickle.loads(data)
    if kind == "violation":
        raise Violation(*value)
    if kind == "error":
        if value[1]:
            raise Violation("unexpected-exception", value[0])
        raise HarnessError(value[0])
    return value


def patch_all(which):
    import _io
    import _pyio

    rs = rsfile()
    for name in which:
        if name == "builtins":
            rs.monkey_patch_open_builtin()
        else:
            rs.monkey_patch_io_module({"io": io, "_pyio": _pyio, "_io": _io}[name])


PATCHES = [("io",), ("_pyio",), ("builtins",), ("io", "builtins"), ("_pyio", "io"), ("_io", "io", "_pyio", "builtins")]
PROGRAMS = ["pathlib", "tempfile", "zip", "gzip", "csv", "subprocess", "fileinput", "shutil", "json", "pickle", "makefile", "with", "dbm", "configparser", "tokenize", "mailbox", "iowrap", "openfd", "logging", "wave", "lines"]


@st.composite
def patched_strategy(draw):
    which = draw(st.sampled_from(PATCHES))
    if draw(st.integers(0, 2)) == 0:
        progs = [(draw(st.sampled_from(PROGRAMS)), draw(st.integers(0, 9)), draw(st.text(["a", "b\n", "é", " ", "line\r\n", "x" * 40, "日"], 0, 12)), draw(st.binary(0, 40))) for _ in range(draw(st.integers(1, 5)))]
        return ("programs", which, progs)
    return ("history", which, draw(c01.case_strategy()) if draw(st.booleans()) else draw(c02.case_strategy()))


def programs(progs, d):
    """Uses of the standard library which open files; returns what they produced."""
    import configparser, csv, fileinput, gzip, json, logging, mailbox, shutil, socket, subprocess, tempfile, tokenize, wave, zipfile
    import builtins

    out = []
    tempfile.tempdir = d
    for i, (name, n, text, data) in enumerate(progs):
        p = os.path.join(d, "p%d" % i)

        def body():
            if name == "pathlib":
                q = pathlib.Path(p)
                r = [q.write_text(text, encoding="utf-8"), q.read_bytes(), q.write_bytes(data), q.read_bytes(), q.stat().st_mode]
                with q.open("a+") as f:
                    f.write("end")
                    f.seek(0)
                    r.append(call(f.read))
                q.touch()
                return r
            if name == "tempfile":
                r = []
                with tempfile.TemporaryFile("w+", encoding="utf-8") as f:
                    f.write(text)
                    f.seek(0)
                    r.append(f.read())
                with tempfile.NamedTemporaryFile(delete=bool(n % 2), dir=d) as f:
                    f.write(data)
                    f.flush()
                    r.append((read_file(f.name), os.stat(f.name).st_mode))
                with tempfile.SpooledTemporaryFile(max_size=10, mode="w+b") as f:
                    f.write(data)
                    f.write(b"more than ten bytes")
                    f.seek(n)
                    r.append(f.read())
                return r
            if name == "zip":
                with zipfile.ZipFile(p, "w") as z:
                    z.writestr(zipfile.ZipInfo("a"), data)
                    with z.open(zipfile.ZipInfo("b"), "w") as g:
                        g.write(text.encode())
                with zipfile.ZipFile(p, "a") as z:
                    z.writestr(zipfile.ZipInfo("c"), b"c" * n)
                with zipfile.ZipFile(p) as z:
                    with z.open("b") as g:
                        lines = list(io.TextIOWrapper(g, "utf-8"))
                    return [z.read("a"), z.namelist(), lines, z.testzip()]
            if name == "gzip":
                with gzip.open(p, "wt", encoding="utf-8", newline="") as f:
                    f.write(text)
                with gzip.open(p, "ab") as f:
                    f.write(data)
                with gzip.open(p) as f:
                    return [f.readline(), f.read(n), f.read()]
            if name == "csv":
                with builtins.open(p, "w", newline="") as f:
                    csv.writer(f).writerows([[text, "b"], ["c,d", str(n)]])
                with builtins.open(p, newline="") as f:
                    return list(csv.reader(f))
            if name == "subprocess":
                r = subprocess.run(["cat"], input=data, stdout=subprocess.PIPE)
                s = subprocess.run(["tr", "a", "b"], input=text, stdout=subprocess.PIPE, text=True, encoding="utf-8")
                q = subprocess.Popen(["head", "-c", "5"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0 if n % 2 else -1)
                q.stdin.write(b"0123456789")
                q.stdin.close()
                got = q.stdout.read()
                q.stdout.close()
                q.wait()
                return [r.stdout, s.stdout, got, q.returncode]
            if name == "fileinput":
                with io.open(p, "w", encoding="utf-8") as f:
                    f.write(text + "\nlast\n")
                with fileinput.input([p], encoding="utf-8") as f:
                    lines = [(l, f.filelineno()) for l in f]
                with fileinput.input([p], inplace=True, encoding="utf-8") as f:
                    for l in f:
                        print(l.rstrip("\n") + "!")
                return [lines, read_file(p)]
            if name == "shutil":
                with io.open(p, "wb") as f:
                    f.write(data * n)
                shutil.copyfile(p, p + ".c")
                shutil.copy(p, p + ".d")
                with io.open(p, "rb") as a, io.open(p + ".e", "wb") as b:
                    shutil.copyfileobj(a, b, n + 1)
                return [read_file(p + x) for x in (".c", ".d", ".e")] + [os.stat(p + ".c").st_mode]
            if name == "json":
                with builtins.open(p, "w", encoding="utf-8") as f:
                    json.dump({"k": text, "n": [n] * n}, f)
                with builtins.open(p, encoding="utf-8") as f:
                    return [json.load(f), read_file(p)]
            if name == "pickle":
                with builtins.open(p, "wb") as f:
                    pickle.dump([text, data], f)
                    pickle.dump(n, f)
                with builtins.open(p, "rb") as f:
                    return [pickle.load(f), pickle.load(f), f.read()]
            if name == "makefile":
                a, b = socket.socketpair()
                with a, b:
                    with a.makefile("wb", buffering=16) as w, b.makefile("rb") as r:
                        w.write(data + b"\nsecond\n")
                        w.flush()
                        a.shutdown(socket.SHUT_WR)
                        return [r.readline(), r.read()]
            if name == "with":
                try:
                    with builtins.open(p, "x") as f:
                        f.write(text)
                        raise KeyError
                except KeyError:
                    pass
                return [f.closed, read_file(p), call(builtins.open, p, "x").__class__.__name__]
            if name == "configparser":
                c = configparser.ConfigParser(interpolation=None)
                c["s"] = {"k": "v%d" % n}
                with builtins.open(p, "w") as f:
                    c.write(f)
                c2 = configparser.ConfigParser()
                c2.read([p, p + "missing"])
                return dict(c2["s"])
            if name == "tokenize":
                with io.open(p, "wb") as f:
                    f.write(b"# coding: latin-1\nx = '\xe9'\n")
                with tokenize.open(p) as f:
                    return [f.encoding, f.read()]
            if name == "mailbox":
                m = mailbox.mbox(p)
                m.add(mailbox.mboxMessage("From: a\n\n%s" % "body " * n))
                m.flush()
                m.close()
                return len(mailbox.mbox(p))
            if name == "iowrap":
                b = io.BytesIO()
                t = io.TextIOWrapper(b, encoding="utf-16", newline="\r\n")
                t.write(text)
                t.flush()
                v = b.getvalue()
                t.seek(0)
                r = [v, t.read()]
                x = t.detach()
                return r + [x is b]
            if name == "openfd":
                fd = os.open(p, os.O_RDWR | os.O_CREAT, 0o600)
                f = builtins.open(fd, "wb", closefd=False)
                f.write(data)
                f.close()
                os.lseek(fd, 0, 0)
                g = os.fdopen(fd, "r", encoding="latin-1")
                with g:
                    return [g.read(), g.fileno() == fd]
            if name == "logging":
                h = logging.FileHandler(p, encoding="utf-8", delay=bool(n % 2))
                h.emit(logging.makeLogRecord({"msg": text}))
                h.close()
                return read_file(p)
            if name == "wave":
                with wave.open(p, "wb") as w:
                    w.setnchannels(1)
                    w.setsampwidth(1)
                    w.setframerate(8000)
                    w.writeframes(data)
                with wave.open(p, "rb") as w:
                    return [w.readframes(n), w.getnframes(), w.tell()]
            if name == "lines":
                with builtins.open(p, "w", encoding="utf-8", newline="\n") as f:
                    print(text, n, file=f)
                    f.writelines([text, "\n"])
                with builtins.open(p, encoding="utf-8") as f:
                    return [next(f), list(f), f.newlines]
            return None

        try:
            out.append((name, repr(body()).replace(d, "DIR")))
        except Exception as e:
            out.append((name, "raised " + type(e).__name__, traceback.format_exc()[-600:].replace(d, "DIR")))
    listing = []
    for root, _, files in os.walk(d):
        for f in sorted(files):
            q = os.path.join(root, f)
            if not f.startswith("tmp"):
                listing.append((f, oct(os.stat(q).st_mode), read_file(q) if not f.startswith("p") or not any(x[0] in ("gzip", "mailbox", "zip") for x in progs) else None))
    return out, sorted(listing, key=repr)


def patched_run(case, env):
    kind, which, rest = case
    rsfile()
    if kind == "programs":
        d1, d2 = env.path("one"), env.path("two")
        os.mkdir(d1)
        os.mkdir(d2)
        os.umask(0o022)

        def child(d, patch):
            if patch:
                patch_all(which)
            return programs(rest, d)

        want = in_child(lambda: child(d2, False))
        got = in_child(lambda: child(d1, True))
        for a, b in zip(got[0], want[0]):
            if a[:2] != b[:2]:
                raise Violation("program", "%s with patches %r gave %s instead of %s %s" % (b[0], which, short(a[1], 600), short(b[1], 600), a[2:]))
        if got[1] != want[1]:
            raise Violation("program-files", "patches %r: files %s instead of %s" % (which, short(got[1], 900), short(want[1], 900)))
        env.nontrivial = True
        env.label("programs", *("prog:" + p[0] for p in rest))
        return
    text = len(rest) == 8
    if text:
        mode, buffering, enc, errors, newline, opts, init, oplist = rest
        kw = dict(encoding=enc, errors=errors, newline=newline)
    else:
        mode, buffering, opts, init, oplist = rest
        kw, enc = {}, None
    if buffering is not None:
        kw["buffering"] = buffering
    oplist = [op for op in oplist if op[0] not in ("attr", "fileno", "raw_tell", "bufattr")]
    p1, p2 = env.path("a"), env.path("b")
    if "x" not in mode:
        for p in (p1, p2):
            with io.open(p, "wb") as f:
                f.write(encode_init(init, enc) if text else mk(init))

    def child():
        import builtins

        patch_all(which)
        opener = {"builtins": builtins, "io": io, "_pyio": sys.modules["_pyio"], "_io": sys.modules["_io"]}[which[0]].open
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f2 = call(ref.open, p2, mode, **kw)
            f1 = call(opener, p1, mode, **kw)
        if isinstance(f1, Raised) or isinstance(f2, Raised):
            if not (isinstance(f1, Raised) and isinstance(f2, Raised) and same_outcome(f1, f2)):
                raise Violation("open", "patched %r gave %r, stdlib %r" % (which, f1, f2))
            return 0, [], {}
        e = types.SimpleNamespace(steps=0, labels=[], label=lambda *a: None)
        ok, kinds = compare_run(e, Driver(f1, p1), Driver(f2, p2), oplist, check_pos=not text)
        c01.finish(e, Driver(f1, p1), Driver(f2, p2))
        return ok, sorted(kinds), e.steps

    ok, kinds, steps = in_child(child)
    env.nontrivial = ok >= 3
    env.steps += steps or 0
    env.label("patched-history", "patch:" + "+".join(which))


def setup():
    patched("module")
    import configparser, csv, fileinput, gzip, json, logging, mailbox, shutil, socket, subprocess, tempfile, tokenize, wave, zipfile  # noqa


def copies_strategy():
    op = st.tuples(st.sampled_from(["read", "write", "seek", "next", "flush"]), st.integers(0, 40))
    return st.tuples(st.sampled_from(["raw", "buffered", "text"]), st.sampled_from(["RW", "R", "W", "RA"]), st.booleans(), st.sampled_from(["no", "lock", "iplock"]), st.lists(op, 0, 5),
                     st.lists(st.sampled_from(["copy", "deepcopy"] + ["pickle%d" % i for i in range(6)] + ["reduce", "part"]), 1, 2), st.lists(op, 0, 5))


def copies_run(case, env):
    """Streams can't be copied nor pickled, and attempts to do so don't impact them."""
    layer, access, ts, locking, before, attempts, after = case
    rs = rsfile()
    p1, p2 = env.path("a"), env.path("b")
    content = b"line of text\n" * 20
    for p in (p1, p2):
        with io.open(p, "wb") as f:
            f.write(content)

    def make(p):
        text = layer == "text"
        kw = dict(encoding="latin-1", newline="\n") if text else {}
        mode = access + ("I" if locking == "iplock" else "") + ("T" if text else "B")
        f = rs.rsopen(p, mode, buffering=0 if layer == "raw" else -1, thread_safe=ts, locking=locking != "no", **kw)
        env.defer(call, f.close)
        return f

    def do(f, op):
        kind, n = op
        if kind == "read":
            return call(f.read, n)
        if kind == "write":
            data = "w%d" % n
            return call(f.write, data if layer == "text" else data.encode())
        if kind == "seek":
            return call(f.seek, n)
        if kind == "next":
            return call(f.readline)
        return call(f.flush)

    f1, f2 = make(p1), make(p2)
    for op in before:
        r1, r2 = do(f1, op), do(f2, op)
    for a in attempts:
        target = f1
        if a == "part" and layer != "raw":
            target, a = (f1.buffer if layer == "text" else f1.raw), "copy"
        if a in ("copy", "part"):
            r = call(copy.copy, target)
        elif a == "deepcopy":
            r = call(copy.deepcopy, [target])
        elif a == "reduce":
            r = call(lambda: target.__reduce_ex__(2))
        else:
            r = call(pickle.dumps, target, int(a[6:]))
        if not isinstance(r, Raised):
            del r
            raise Violation("copied", "%s of a %s stream (thread_safe=%r) is accepted" % (a, layer, ts))
        if "TypeError" not in r.families:
            raise Violation("copied", "%s of a %s stream (thread_safe=%r) gives %r instead of a TypeError" % (a, layer, ts, r))
        del r
        gc.collect()
    if f1.closed:
        raise Violation("closed", "the stream got closed by the attempt to copy it")
    ok = 0
    for op in list(after) + [("flush", 0), ("seek", 0), ("read", 1000)]:
        r1, r2 = do(f1, op), do(f2, op)
        if not same_outcome(r1, r2):
            raise Violation("outcome", "after the attempt to copy the stream, %r gives %s instead of %s" % (op, short(r1), short(r2)))
        ok += not isinstance(r1, Raised)
        env.steps += 1
    r = call(f1.close), call(f2.close)
    if not same_outcome(*r) or read_file(p1) != read_file(p2):
        raise Violation("content", "after the attempt to copy the stream, close() gives %r, content %s instead of %s" % (r[0], short(read_file(p1)), short(read_file(p2))))
    env.nontrivial = len(before) + len(after) >= 2 and ok >= 2
    env.label("layer:" + layer, *attempts)


PARTS = [Part("open", open_strategy, open_run, quick=24000, thorough=250000, setup=setup),
         Part("classes", classes_strategy, classes_run, quick=16000, thorough=150000, setup=setup),
         Part("patched", patched_strategy, patched_run, quick=4000, thorough=40000, setup=setup),
         Part("copies", copies_strategy, copies_run, quick=3000, thorough=30000)]
