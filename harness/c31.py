"""C31: any file name denotes the same file, or fails in the same way, as for the operating system."""
import errno
import io
import os
import pathlib
import stat

import gen as st
from core import Part, Violation
from streams import Raised, call, rsfile, same_outcome, short

ID = "C31"
LEVEL = "exploration"
TECHNIQUE = ("differential property-based testing: generated names (bytes of any value, links, loops, relative parts, excessive lengths, path-like objects) opened through every API in one of two identical directory "
             "trees, the standard io.open() being used in the other; outcomes, resulting trees and the identity of the opened file are compared")
RULE = ("Cases are (names of the existing entries, type of the name argument, name to open, API and mode, operation). Compared: success or kind of error and errno, content of both trees afterwards, device and inode "
        "of the opened file against stat(), 'name' attribute. Non-trivial: a name which isn't plain ASCII letters and digits, a link, or a failing access.")
ASSUMPTIONS = ["The file system accepts any byte but '/' and NUL in names (tmpfs, ext4, overlayfs)."]

SPECIAL = [b"", b".", b"..", b" ", b"~", b"$HOME", b"%s", b"%", b"*", b"?", b"-", b"0", b"1", b"con", b"a:b", b"a\\b", b"\n", b"a\nb", b"\t", b"'", b'"', b"{}", b"\xff", b"\xff\xfe", b"\xc3\xa9",
           b"e\xcc\x81", b"\xc3", b"\xed\xb2\x80", b"\xf0\x9f\x98\x80", b"x" * 255, b"x" * 256, b"\xe2\x82\xac" * 85, b"\x01", b"\x7f", b"a.", b"a ", b" a", b".hidden", b"..a", b"file:", b"file://a", b"C:", b"nul", b"\xe2\x80\xae", b"A", b"a"]


def component():
    return st.one_of(st.sampled_from(SPECIAL), st.sampled_from([b"a", b"A", b"f", b"d", b"e"]), st.lists(st.integers(1, 255), 1, 6).map(lambda l: bytes(l).replace(b"/", b"_")))


NAMES = [b"f0", b"d0"]


@st.composite
def strategy(draw):
    t, j = st.tuples, st.just
    entries = draw(st.lists(t(st.sampled_from(["file", "file", "dir", "link", "hard", "loop", "nested"]), component(), st.integers(0, 5)), 1, 5))
    n = len(entries)
    part = st.weighted((5, t(j("entry"), st.integers(0, n - 1))), (1, t(j("new"), component())), (2, t(j("dot"), st.sampled_from([b".", b"..", b"..", b"", b"./.", b"//", b"../.."]))))
    parts = draw(st.weighted((4, st.lists(part, 1, 1)), (3, st.lists(part, 1, 4))))
    prefix = draw(st.weighted((4, j("rel")), (2, j("abs")), (1, j("dotrel")), (1, j("doubleslash")), (1, j("long"))))
    suffix = draw(st.weighted((8, j(b"")), (1, j(b"/")), (1, j(b"/.")), (1, j(b"//")), (1, j(b"\0")), (1, j(b"\0x"))))
    kind = draw(st.sampled_from(["str", "str", "bytes", "bytes", "Path", "pathlike-str", "pathlike-bytes", "strsub", "bytessub"]))
    api = draw(st.sampled_from(["rsopen", "rsopen", "rsopen", "RSFileIO", "rsopen-adv", "read_from_file", "write_to_file", "append_to_file", "opener"]))
    return (entries, parts, prefix, suffix, kind, api, draw(st.sampled_from(["r", "r", "w", "a", "x", "r+", "w+", "a+", "x+"])), draw(st.sampled_from(["raw", "buffered", "text"])), draw(st.booleans()), draw(st.booleans()))


class StrSub(str):
    pass


class BytesSub(bytes):
    pass


class Like(object):
    def __init__(self, value):
        self.value = value

    def __fspath__(self):
        return self.value

    def __repr__(self):
        return "Like(%r)" % self.value


DEPTH = b"/p/q/r/s/t/u"


def inside(base, top, name):
    """Does that name stay below the scratch directory, be it resolved properly or lexically?"""
    if b"\0" in name:
        name = name.split(b"\0")[0]
    p = os.path.join(top, name)
    if name.count(b"..") > 4:
        return False
    return all((x + b"/").startswith(base + b"/") for x in (os.path.realpath(p), os.path.normpath(p), os.path.normpath(os.path.dirname(p) or p), os.path.realpath(os.path.dirname(p) or p)))


def build(entries, base):
    """In the current directory; gives the names of the entries."""
    names = []
    top = os.getcwdb()
    for i, (kind, name, k) in enumerate(entries):
        target = names[k % len(names)] if names else b"missing"
        if kind == "nested" and names:
            name = target + b"/" + name
        if len(name) < 1000 and not inside(base, top, name):
            name = b"n%d" % i
        try:
            if kind in ("file", "nested"):
                fd = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o644)
                os.write(fd, b"content %d" % i)
                os.close(fd)
            elif kind == "dir":
                os.mkdir(name)
            elif kind == "link":
                os.symlink(target, name)
            elif kind == "hard":
                os.link(target, name)
            elif kind == "loop":
                os.symlink(name, name)
        except (OSError, ValueError):
            pass
        names.append(name)
    return names


def tree(top):
    out = {}

    def walk(d, rel):
        for n in os.listdir(d):
            p, r = d + b"/" + n, rel + b"/" + n
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                out[r] = ("link", os.readlink(p))
            elif stat.S_ISDIR(s.st_mode):
                out[r] = ("dir",)
                walk(p, r)
            else:
                with open(p, "rb") as g:
                    out[r] = ("file", g.read(), s.st_nlink)

    walk(top, b"")
    return out


def adapt(kind, b):
    if kind == "bytes":
        return b
    if kind == "pathlike-bytes":
        return Like(b)
    if kind == "bytessub":
        return BytesSub(b)
    s = os.fsdecode(b)
    if kind == "str":
        return s
    if kind == "strsub":
        return StrSub(s)
    if kind == "pathlike-str":
        return Like(s)
    return pathlib.Path(s)


def run(case, env):
    entries, parts, prefix, suffix, kind, api, mode, layer, locking, ts = case
    rs = rsfile()
    bases = [os.fsencode(os.path.realpath(env.dir)) + b"/t1", os.fsencode(os.path.realpath(env.dir)) + b"/t2"]
    tops = [b + DEPTH for b in bases]
    home = os.environ.get("HOME")
    env.defer(lambda: os.environ.update(HOME=home) if home is not None else os.environ.pop("HOME", None))
    os.environ["HOME"] = os.fsdecode(bases[0])
    cwd = os.open(".", os.O_RDONLY)

    def back():
        os.fchdir(cwd)
        os.close(cwd)

    env.defer(back)
    text = layer == "text" and api not in ("RSFileIO",)
    outcomes = []
    args = []
    for i, top in enumerate(tops):
        os.makedirs(top)
        os.chdir(top)
        names = build(entries, bases[i])
        comps = []
        for p in parts:
            comps.append(names[p[1] % len(names)] if p[0] == "entry" else p[1])
        rel = b"/".join(comps)
        if prefix == "abs":
            name = top + b"/" + rel
        elif prefix == "dotrel":
            name = b"./" + rel
        elif prefix == "doubleslash":
            name = b"//" + top + b"//" + rel
        elif prefix == "long":
            name = b"./" * 2040 + rel
        else:
            name = rel
            if rel.startswith(b"/"):
                name = b"." + rel  # stays below the scratch directory
        if prefix != "long" and b".." in name and not inside(bases[i], top, name):
            name = b"f"
        elif prefix == "long" and b".." in name:
            name = b"./" * 2040 + b"f"
        name += suffix
        args.append(adapt(kind, name))
    a1, a2 = args
    data = "new data"

    def options():
        kw = {}
        if layer == "raw":
            kw["buffering"] = 0
        if text:
            kw["encoding"] = "ascii"
        return kw

    util = api.endswith("_from_file") or api.endswith("_to_file")
    smode = mode if not util else {"read_from_file": "r", "write_to_file": "w", "append_to_file": "a"}[api]
    m = smode + ("" if text else "b")
    
    def use(f):
        """A little work with the open stream."""
        out = []
        if f.readable() and not text:
            out.append(f.read(100))
        elif f.readable():
            out.append(f.read())
        if f.writable():
            f.seek(0, 2)
            out.append(f.write(data if text else data.encode()))
        return out

    def reference():
        os.chdir(tops[1])
        with io.open(a2, m, **options()) as f:
            identity = os.fstat(f.fileno())
            n = f.name
            return use(f), n, (identity.st_dev, identity.st_ino)

    def tested():
        os.chdir(tops[0])
        if util:
            kw = options()
            kw["locking"] = locking
            if api == "read_from_file":
                return [rs.read_from_file(a1, binary=not text, **kw)], a1, None
            return [(rs.write_to_file if api == "write_to_file" else rs.append_to_file)(a1, data if text else data.encode(), **kw)], a1, None
        if api == "RSFileIO":
            adv = {"r": dict(read=True), "w": dict(write=True), "a": dict(write=True, append=True), "x": dict(write=True, must_create=True), "r+": dict(read=True, write=True, must_not_create=True),
                   "w+": dict(read=True, write=True), "a+": dict(read=True, write=True, append=True), "x+": dict(read=True, write=True, must_create=True)}[mode]
            if mode == "r":
                adv["must_not_create"] = True
            f = rs.RSFileIO(os.fspath(a1), **adv)
            if mode in ("w", "w+"):
                f.truncate(0)
        elif api == "rsopen-adv":
            adv = {"r": "RN", "w": "WE", "a": "A", "x": "WC", "r+": "RWN", "w+": "RWE", "a+": "RA", "x+": "RWC"}[mode]
            f = rs.rsopen(a1, adv + ("T" if text else "B"), locking=locking, thread_safe=ts, **options())
        elif api == "opener":
            f = rs.rsopen(a1, m, locking=locking, thread_safe=ts, opener=lambda p, fl: os.open(p, fl, 0o666), **options())
        else:
            f = rs.rsopen(a1, m, locking=locking, thread_safe=ts, **options())
        with f:
            s = os.fstat(f.fileno())
            return use(f), f.name, (s.st_dev, s.st_ino)

    if api == "RSFileIO" and text:
        return
    r2 = call(reference)
    id2 = r2[2] if not isinstance(r2, Raised) else None
    r1 = call(tested)
    env.steps += 1
    what = "%s of %r, mode %s (%s)" % (api, a1, m, layer)
    f1, f2 = isinstance(r1, Raised), isinstance(r2, Raised)
    if f1 != f2:
        raise Violation("outcome", "%s: %s, whereas io.open() in an identical directory gave %s" % (what, short(repr(r1)), short(repr(r2))))
    if f1:
        if not (r1.families & r2.families) or ("OSError" in r2.families and r1.errno != r2.errno):
            raise Violation("error", "%s: %r, whereas io.open() in an identical directory gave %r" % (what, r1, r2))
    else:
        if not util:
            if r1[0] != r2[0]:
                raise Violation("data", "%s: the stream gave %s instead of %s" % (what, short(repr(r1[0])), short(repr(r2[0]))))
            name = r1[1]
            if name is not a1 and not (type(name) is type(a1) and name == a1) and not (name == os.fspath(a1)):
                raise Violation("name", "%s: its name is %r" % (what, name))
            os.chdir(tops[0])
            s = os.stat(a1)
            if (s.st_dev, s.st_ino) != r1[2]:
                raise Violation("identity", "%s: another file has been opened" % what)
        elif api == "read_from_file" and r1[0] != r2[0]:
            raise Violation("data", "%s: gave %s instead of %s" % (what, short(repr(r1[0])), short(repr(r2[0]))))
    t1, t2 = tree(bases[0]), tree(bases[1])
    if t1 != t2:
        d1 = {k: v for k, v in t1.items() if t2.get(k) != v}
        d2 = {k: v for k, v in t2.items() if t1.get(k) != v}
        raise Violation("tree", "%s: afterwards the directory has %s where io.open() leads to %s" % (what, short(repr(d1)), short(repr(d2))))
    plain = all(c.isalnum() and c.isascii() for c in comps) and not suffix
    env.nontrivial = f1 or not plain
    env.label("api:" + api, "fails:%s" % (r1.errno if f1 else None), "type:" + kind)


PARTS = [Part("names", strategy, run, quick=32000, thorough=300000)]
