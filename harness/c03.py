"""C03: every mode string is rejected or has exactly its documented effects (reference model of the mode language)."""
import errno
import fcntl
import io
import itertools
import os
import stat
import warnings

import gen as st
from core import Part, Violation
from streams import Raised, call, rsfile, short

ID = "C03"
LEVEL = "exploration"
RULE = ("Finite enumeration of every subset of the standard and advanced flags (canonical order) over every pre-existing file state, plus "
        "random mode strings (shuffled, repeated, mixed-case, unknown flags) with random permissions, umask, buffering, path type; each "
        "open is compared with a reference model of the mode language (validity, errno, creation, truncation, permissions, descriptor flags, "
        "readability/writability/append, text/binary, first write's effect). Non-trivial: the mode is valid and the file state pre-exists or "
        "the open must be refused because of it.")
ASSUMPTIONS = ["Linux open(2) semantics of O_CREAT/O_EXCL/O_APPEND and umask are the trusted base."]

OLD = b"previous content\nof the file\n"
STATES = ["absent", "empty", "full", "link", "dangling", "dir", "noparent", "hard"]
STD = "xarw+bt"
ADV = "RAWCNSIEBT+-"


def model(mode):
    """None if the mode string is invalid, else a dict of its documented meaning."""
    if not mode or len(set(mode)) != len(mode):
        return None
    if set(mode) <= set(STD):
        if sum(c in mode for c in "xarw") != 1 or ("b" in mode and "t" in mode):
            return None
        plus = "+" in mode
        return dict(read="r" in mode or plus, write=plus or "r" not in mode, append="a" in mode, create="x" in mode, exist="r" in mode,
                    trunc="w" in mode, sync=False, inherit=False, binary="b" in mode)
    if set(mode) <= set(ADV):
        read, append = "R" in mode, "A" in mode
        write = append or "W" in mode
        create, exist = "C" in mode or "-" in mode, "N" in mode or "+" in mode
        if not (read or write) or (create and exist) or ("B" in mode and "T" in mode):
            return None
        trunc = "E" in mode and not create
        if trunc and not write:
            return None
        return dict(read=read, write=write, append=append, create=create, exist=exist, trunc=trunc, sync="S" in mode, inherit="I" in mode,
                    binary="B" in mode)
    return None


EQUIV = {"r": "RN", "r+": "RWN", "w": "WE", "w+": "RWE", "a": "A", "a+": "RA", "x": "WC", "x+": "RWC"}


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                data = os.readlink(p)
            elif stat.S_ISREG(s.st_mode):
                if s.st_mode & 0o400:
                    with io.open(p, "rb") as f:
                        data = f.read()
                else:
                    data = s.st_size
            else:
                data = None
            out[os.path.relpath(p, d)] = (s.st_mode, s.st_ino, s.st_nlink, s.st_size, s.st_mtime_ns if not stat.S_ISDIR(s.st_mode) else 0, data)
    return out


class PL(object):
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def setup_state(env, state):
    d = env.dir
    path = os.path.join(d, "target-é")
    real = path
    if state == "noparent":
        path = real = os.path.join(d, "missing", "f")
    elif state == "dir":
        os.mkdir(path)
    elif state in ("full", "empty", "hard"):
        with io.open(path, "wb") as f:
            f.write(b"" if state == "empty" else OLD)
        os.chmod(path, 0o640)
        if state == "hard":
            os.link(path, os.path.join(d, "other"))
    elif state == "link":
        real = os.path.join(d, "real")
        with io.open(real, "wb") as f:
            f.write(OLD)
        os.chmod(real, 0o604)
        os.symlink("real", path)
    elif state == "dangling":
        real = os.path.join(d, "real")
        os.symlink("real", path)
    return path, real


def expected_error(m, state):
    if state == "noparent":
        return errno.ENOENT
    if state == "dir":
        return errno.EEXIST if m["create"] else errno.EISDIR
    if state in ("full", "empty", "link", "hard"):
        return errno.EEXIST if m["create"] else None
    if state == "dangling" and m["create"]:
        return errno.EEXIST
    if m["exist"]:
        return errno.ENOENT
    return None


def check_open(env, mode, state, perms, umask, buffering, thread_safe, locking, pathkind, tag=""):
    rs = rsfile()
    m = model(mode)
    path, real = setup_state(env, state)
    arg = {"str": path, "bytes": os.fsencode(path), "pathlike": PL(path), "pathlike_b": PL(os.fsencode(path)),
           "rel": os.path.relpath(path)}[pathkind]
    before = snapshot(env.dir)
    fds = sorted(os.listdir("/proc/self/fd"))
    old_umask = os.umask(umask)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kw = {} if buffering is None else dict(buffering=buffering)
            if perms is not None:
                kw["permissions"] = perms
            f = call(rs.rsopen, arg, mode, thread_safe=thread_safe, locking=locking, timeout=0, **kw)
    finally:
        os.umask(old_umask)
    if not isinstance(f, Raised):
        env.defer(f.close)

    what = "%sopen(%s, %r)" % (tag, state, mode)
    if m is None:
        if not isinstance(f, Raised):
            raise Violation("accepted-invalid-mode", "%s succeeded but this mode is invalid" % what)
        if "ValueError" not in f.families:
            raise Violation("wrong-error", "%s raised %r instead of ValueError" % (what, f))
        if snapshot(env.dir) != before:
            raise Violation("invalid-mode-side-effect", "%s was refused but changed the filesystem" % what)
        env.label("invalid")
        return None
    if not m["binary"] and buffering == 0:
        if not isinstance(f, Raised) or not f.families & {"ValueError", "OSError"}:
            raise Violation("unbuffered-text", "%s with buffering=0 gave %r" % (what, f))
        return None
    err = expected_error(m, state)
    if err is not None:
        if not isinstance(f, Raised):
            raise Violation("open-should-fail", "%s succeeded, expected %s" % (what, errno.errorcode[err]))
        if f.errno != err:
            raise Violation("wrong-error", "%s raised %r, expected %s" % (what, f, errno.errorcode[err]))
        if snapshot(env.dir) != before:
            raise Violation("refused-open-side-effect", "%s failed but changed the filesystem" % what)
        if sorted(os.listdir("/proc/self/fd")) != fds:
            raise Violation("leak", "%s failed and leaked descriptors" % what)
        env.label("refused:" + errno.errorcode[err])
        env.nontrivial = True
        return None
    if isinstance(f, Raised):
        raise Violation("open-failed", "%s raised %r" % (what, f))
    existed = state in ("full", "empty", "link", "hard")
    env.nontrivial = existed or m["create"]
    env.label("ok:" + state)

    # access and nature
    fd = f.fileno()
    fl = fcntl.fcntl(fd, fcntl.F_GETFL)
    acc = {(True, True): os.O_RDWR, (True, False): os.O_RDONLY, (False, True): os.O_WRONLY}[(m["read"], m["write"])]
    facts = [
        ("readable()", f.readable(), m["read"]), ("writable()", f.writable(), m["write"]), ("seekable()", f.seekable(), True),
        ("access mode", fl & os.O_ACCMODE, acc), ("O_APPEND", bool(fl & os.O_APPEND), m["append"]),
        ("O_SYNC", fl & os.O_SYNC == os.O_SYNC, m["sync"]), ("inheritable", os.get_inheritable(fd), m["inherit"]),
        ("closed", f.closed, False),
        ("name", f.name, os.fspath(arg)), ("origin", f.origin, "path"),
        ("text nature", hasattr(f, "encoding"), not m["binary"]),
    ]
    if not m["binary"]:
        facts.append(("mode", f.mode, mode))
    elif not (m["create"] and not m["write"]):
        facts.append(("mode", f.mode, ("xb" if m["create"] else "ab" if m["append"] else "wb" if not m["read"] else "rb") +
                      ("+" if m["read"] and m["write"] else "")))
    s = os.stat(real)
    old = b"" if state == "empty" else OLD
    if existed:
        facts.append(("size after open", s.st_size, 0 if m["trunc"] else len(old)))
        facts.append(("permissions of existing file", stat.S_IMODE(s.st_mode), before[os.path.relpath(real, env.dir)][0] & 0o7777))
        facts.append(("inode", s.st_ino, before[os.path.relpath(real, env.dir)][1]))
    else:
        p = 0o777 if perms is None else perms
        facts.append(("permissions of new file", oct(stat.S_IMODE(s.st_mode)), oct(p & ~umask & 0o7777)))
        facts.append(("size of new file", s.st_size, 0))
        old = b""
    if m["trunc"]:
        old = b""
    facts.append(("fd identity", os.path.samestat(os.fstat(fd), s), True))
    facts.append(("initial position", f.tell(), len(old) if m["append"] else 0))
    for name, got, want in facts:
        if got != want:
            raise Violation("fact:" + name.split(" of ")[0].split("(")[0].replace(" ", "-"), "%s: %s is %r, documented %r" % (what, name, got, want))

    # behaviour
    empty = b"" if m["binary"] else ""
    data = b"NEW" if m["binary"] else "NEW"
    if m["read"]:
        got = f.read()
        want = b"" if m["append"] else old
        want = want if m["binary"] else want.decode()
        if got != want:
            raise Violation("read", "%s: read() gave %s, expected %s" % (what, short(got), short(want)))
        f.seek(0)
        got = f.read(5)
        if got != (old[:5] if m["binary"] else old[:5].decode()):
            raise Violation("read", "%s: read(5) at 0 gave %r" % (what, got))
        f.seek(0)
    else:
        r = call(f.read, 1)
        if not (isinstance(r, Raised) and "OSError" in r.families):
            raise Violation("readability", "%s: read() on a non-readable stream gave %r" % (what, r))
    if m["write"]:
        f.seek(2)
        r = call(f.write, data)
        if r != 3:
            raise Violation("write", "%s: write gave %r" % (what, r))
        want = old + b"NEW" if m["append"] else old[:2].ljust(2, b"\0") + b"NEW" + old[5:]
    else:
        r = call(f.write, data)
        if not (isinstance(r, Raised) and "OSError" in r.families):
            raise Violation("writability", "%s: write() on a non-writable stream gave %r" % (what, r))
        r = call(f.truncate, 0)
        if not (isinstance(r, Raised) and "OSError" in r.families):
            raise Violation("writability", "%s: truncate() on a non-writable stream gave %r" % (what, r))
        want = old
    f.close()
    os.chmod(real, 0o600)
    with io.open(real, "rb") as g:
        got = g.read()
    if got != want:
        raise Violation("content", "%s: final content %s, expected %s" % (what, short(got), short(want)))
    if state == "link" and not os.path.islink(path):
        raise Violation("content", "%s replaced the symlink" % what)
    return m


def run(case, env):
    mode, state, perms, umask, buffering, thread_safe, locking, pathkind = case
    cwd = os.getcwd()
    try:
        check_open(env, mode, state, perms, umask, buffering, thread_safe, locking, pathkind)
    finally:
        os.chdir(cwd)


def enumerate_cases(tier):
    for flags in (STD, ADV):
        for k in range(len(flags) + 1):
            for combo in itertools.combinations(flags, k):
                mode = "".join(combo)
                valid = model(mode) is not None
                for state in (STATES if valid else ("absent", "full")):
                    yield (mode, state, None, 0o022, None if "S" not in mode else -1, False, False, "str")


@st.composite
def case_strategy(draw):
    kind = draw(st.integers(0, 5))
    if kind <= 1:  # valid-looking advanced mode in random order
        flags = [draw(st.sampled_from(["R", "W", "A", "RW", "RA", "WA", "RWA"]))]
        for opt in (["C", "N", "-", "+", "", ""], ["S", "", ""], ["I", ""], ["E", ""], ["B", "T", "", "B"]):
            flags.append(draw(st.sampled_from(opt)))
        mode = "".join(draw(st.permutations("".join(flags))))
    elif kind == 2:
        mode = "".join(draw(st.permutations(draw(st.sampled_from("rwax")) + draw(st.sampled_from(["", "+"])) + draw(st.sampled_from(["", "b", "t"])))))
    elif kind == 3:
        mode = draw(st.text("RAWCNSIEBT+-", 0, 6))
    elif kind == 4:
        mode = draw(st.text("rwax+bt", 0, 4))
    else:
        mode = draw(st.text("RAWCNSIEBT+-rwax+btUuzZ \0é1_", 0, 5))
    return (mode, draw(st.sampled_from(STATES)), draw(st.one_of(st.just(None), st.integers(0, 0o777), st.sampled_from([0o777, 0o600, 0o444, 0, 0o222, 0o1644, 0o2750, 0o4755, 0o7777]))),
            draw(st.sampled_from([0, 0o022, 0o077, 0o027, 0o777, 0o133])), draw(st.sampled_from([None, -1, 0, 1, 2, 8192])),
            draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from(["str", "bytes", "pathlike", "pathlike_b", "rel"])))


@st.composite
def equiv_strategy(draw):
    std = draw(st.sampled_from(sorted(EQUIV)))
    nature = draw(st.sampled_from(["b", "", "t"]))
    return (std, nature, draw(st.sampled_from(STATES)), draw(st.sampled_from([None, 0, 16])), draw(st.booleans()), draw(st.booleans()))


def run_equiv(case, env):
    """A standard mode and its documented advanced equivalent are indistinguishable (both against the model and attribute by attribute)."""
    std, nature, state, buffering, ts, lk = case
    adv = EQUIV[std] + nature.upper()
    std = std + nature
    if nature != "b" and buffering == 0:
        buffering = None
    a, b = model(std), model(adv)
    assert a == b, (std, adv)
    check_open(env, std, state, 0o640, 0o022, buffering, ts, lk, "str", "standard ")
    env2 = type(env)(env.root)
    try:
        check_open(env2, adv, state, 0o640, 0o022, buffering, ts, lk, "str", "advanced ")
    finally:
        env2.close()


PARTS = [
    Part("enumeration", None, run, quick=1, enumerate_cases=enumerate_cases, deterministic=True),
    Part("random-modes", case_strategy, run, quick=20000, thorough=300000),
    Part("std-adv-equivalence", equiv_strategy, run_equiv, quick=2500, thorough=20000),
]
