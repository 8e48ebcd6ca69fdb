"""C18: file utilities round-trip any content (histories of utility calls against a model of the files, made with the stdlib)."""
import array
import io
import os
import pathlib

import procs  # binds the real os functions first
import syscalls

syscalls.install()

import gen as st
from core import Part, Violation
from procs import fds, lockmap, start_prober
from streams import Raised, call, mk, mktext, read_file, rsfile, short

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "property-based testing, stateful: generated histories of utility calls on several files, against a model whose bytes are produced by the standard library"
RULE = ("Cases are histories of write_to_file / append_to_file / read_from_file calls with generated data, encodings, newlines, error handlers, bufferings, flags, sync, "
        "locking, timeouts and kinds of paths, possibly while another stream holds a lock, or with short raw writes; after each call all files, descriptors and locks are compared with the model. "
        "Non-trivial: at least 2 successful writes of non-empty data and a read or refused call.")
ASSUMPTIONS = ["The stdlib's io.open() on a shadow file tells the bytes of encoded text."]

NAMES = ["a", "b", "c"]


def texts():
    return st.one_of(st.text(["a", "b", "é", "日", "\n", "\r", "\r\n", " ", "\x00", "\U0001F600", "€"], 0, 10),
                     st.tuples(st.just("T"), st.sampled_from("aulwn"), st.integers(0, 60), st.sampled_from([1, 50, 300, 8192, 8193, 30000])))


def datas():
    return st.one_of(st.binary(max_size=20), st.tuples(st.just("P"), st.sampled_from("lb"), st.integers(0, 3000), st.sampled_from([0, 1, 100, 4096, 8191, 8192, 8193, 70000, 300000])))


@st.composite
def call_strategy(draw):
    kind = draw(st.sampled_from(["write", "write", "append", "append", "read", "read", "hold", "unhold"]))
    name = draw(st.sampled_from(NAMES))
    if kind in ("hold", "unhold"):
        return (kind, name, draw(st.booleans()))
    kw = {}
    text = draw(st.booleans())
    b = draw(st.sampled_from([None, None, -1, 0, 1, 2, 7, 64, 4096, 8192, 100000]))
    if b is not None and not (b == 0 and text) and not (b == 1 and not text):
        kw["buffering"] = b
    if text:
        e = draw(st.sampled_from([None, "utf-8", "utf-8", "utf-16", "latin-1", "ascii", "utf-8-sig", "utf-32", "shift_jis"]))
        if e:
            kw["encoding"] = e
        er = draw(st.sampled_from([None, None, "strict", "ignore", "replace", "surrogateescape"] + (["xmlcharrefreplace"] if kind != "read" else [])))
        if er:
            kw["errors"] = er
        nl = draw(st.sampled_from([0, 0, None, "", "\n", "\r", "\r\n"]))
        if nl != 0:
            kw["newline"] = nl
    lk = draw(st.sampled_from([None, True, True, False]))
    if lk is not None:
        kw["locking"] = lk
    kw["timeout"] = draw(st.sampled_from([0, 0, 0.001]))
    path = draw(st.sampled_from(["str", "str", "bytes", "path", "link", "hard"]))
    if kind == "read":
        if draw(st.booleans()) or not text:
            kw["binary"] = not text
        return (kind, name, path, sorted(kw.items(), key=lambda x: x[0]), None, None)
    for k, kinds in (("sync", None), ("must_not_create", None)) + ((("must_create", None),) if kind == "write" else ()):
        v = draw(st.sampled_from([None, None, False, True]))
        if v is not None:
            kw[k] = v
    data = draw(texts()) if text else draw(datas())
    dk = draw(st.sampled_from(["bytes", "bytes", "bytearray", "memoryview", "array", "array_H"]))
    return (kind, name, path, sorted(kw.items(), key=lambda x: x[0]), data, None if text else dk)


CALLS = st.lists(call_strategy(), 2, 12)


@st.composite
def strategy(draw):
    return (draw(st.sampled_from([None, None, None, 1, 7, 1000, 4096])), draw(st.lists(st.tuples(st.sampled_from(NAMES), datas()), 0, 2)), draw(CALLS))


def to_data(data, dk):
    if dk is None:
        return mktext(data)
    d = mk(data)
    if dk == "bytearray":
        return bytearray(d)
    if dk == "memoryview":
        return memoryview(d)
    if dk == "array":
        return array.array("B", d)
    if dk == "array_H":
        return array.array("H", d[:len(d) // 2 * 2])
    return d


def run(case, env):
    limit, initial, calls = case
    rs = rsfile()
    model = {}
    for n, d in initial:
        with io.open(env.path(n), "wb") as f:
            f.write(mk(d))
        model[n] = mk(d)
    for n in NAMES:
        os.symlink(n, env.path("l" + n))
    shadow = env.path("shadow")
    holders = {}
    env.defer(lambda: [f.close() for f, _ in holders.values()])
    base = fds()
    wrote = reads = refused = 0
    rec = []

    def before(name, args):
        if limit and name == "write" and len(args[1]) > limit:
            return syscalls.Override(syscalls.REAL["write"](args[0], bytes(args[1])[:max(limit, len(args[1]) // 10)]))

    for c in calls:
        env.steps += 1
        kind, name = c[0], c[1]
        if kind == "hold":
            if name in holders or name not in model:
                continue
            f = rs.rsopen(env.path(name), "RWNB", buffering=0, locking=False)
            f.lock_file(timeout=0, shared=c[2])
            holders[name] = (f, c[2])
            continue
        if kind == "unhold":
            if name in holders:
                holders.pop(name)[0].close()
            continue
        _, _, pk, kw, data, dk = c
        kw = dict(kw)
        path = env.path(name)
        if pk == "link":
            path = env.path("l" + name)
        elif pk == "hard" and name in model and not kw.get("must_create"):
            path = env.path("hard")
            if os.path.lexists(path):
                os.unlink(path)
            os.link(env.path(name), path)
        elif pk == "bytes":
            path = os.fsencode(path)
        elif pk == "path":
            path = pathlib.Path(path)
        held = name in holders
        conflict = kw.get("locking", True) and held and (kind != "read" or not holders[name][1])
        old = model.get(name)
        if kind == "read":
            r = call(rs.read_from_file, path, **kw)
            if old is None:
                expect("missing", r, {"OSError"}, "read_from_file on a missing file")
                refused += 1
            elif conflict:
                expect("locked", r, {"OSError"}, "read_from_file on a locked file")
                refused += 1
            else:
                if kw.get("binary"):
                    exp = old
                else:
                    with io.open(shadow, "wb") as f:
                        f.write(old)
                    exp = call(lambda: io.open(shadow, "r", encoding=kw.get("encoding"), errors=kw.get("errors"), newline=kw.get("newline")).read())
                if isinstance(exp, Raised):
                    expect("decoding", r, exp.families, "read_from_file on undecodable data")
                elif type(r) is not type(exp) or r != exp:
                    raise Violation("read", "read_from_file(%r) gave %s instead of %s" % (kw, short(r), short(exp)))
                reads += 1
        else:
            payload = to_data(data, dk)
            func = rs.write_to_file if kind == "write" else rs.append_to_file
            with syscalls.hooks(before):
                r = call(func, path, payload, **kw)
            bad = None
            dangling = pk == "link" and old is None
            if kw.get("must_create") and kw.get("must_not_create"):
                bad = {"ValueError"}
            elif kw.get("must_create") and (old is not None or pk == "link"):
                bad = {"OSError"}
            elif kw.get("must_not_create") and old is None:
                bad = {"OSError"}
            elif conflict:
                bad = {"OSError"}
            if bad:
                expect("refused", r, bad, "%s(%r) [file %s]" % (kind, kw, "exists" if old is not None else "missing"))
                refused += 1
            else:
                if dk is None:
                    with io.open(shadow, "wb") as f:
                        f.write((old or b"") if kind == "append" else b"")

                    def ref():
                        with io.open(shadow, "a" if kind == "append" else "w", encoding=kw.get("encoding"), errors=kw.get("errors"), newline=kw.get("newline")) as f:
                            f.write(payload)
                    exp = call(ref)
                    new = read_file(shadow)
                else:
                    exp, new = None, (old or b"" if kind == "append" else b"") + memoryview(payload).tobytes()
                if isinstance(exp, Raised):
                    expect("encoding", r, exp.families, "%s of unencodable text" % kind)
                    if kind == "append" and old is not None and read_file(env.path(name)) != old:
                        raise Violation("append", "failed append_to_file changed the file")
                    model[name] = read_file(env.path(name)) if os.path.exists(env.path(name)) else None
                    if model[name] is None:
                        del model[name]
                else:
                    if r is not None:
                        raise Violation("write", "%s_to_file(%r) gave %r" % (kind, kw, r))
                    model[name] = new
                    if len(payload):
                        wrote += 1
            env.label("%s:%s" % (kind, "text" if dk is None else "binary"))
        for n in NAMES:
            p = env.path(n)
            exists = os.path.exists(p)
            if exists != (n in model):
                raise Violation("existence", "file %s %s after %s(%r)" % (n, "exists" if exists else "doesn't exist", kind, kw))
            if exists and read_file(p) != model[n]:
                raise Violation("content", "file %s is %s instead of %s after %s(%r)" % (n, short(read_file(p)), short(model[n]), kind, kw))
        if not held:
            f = env.path(name)
            if os.path.exists(f) and lockmap(f):
                raise Violation("lock", "%r still locked after %s(%r)" % (lockmap(f), kind, kw))
        if not holders and fds() != base:
            raise Violation("descriptor", "descriptors %r leaked (or closed) by %s(%r)" % (sorted(fds() ^ base), kind, kw))
    for f, _ in holders.values():
        f.close()
    holders.clear()
    if fds() != base:
        raise Violation("descriptor", "descriptors %r leaked" % (sorted(fds() ^ base),))
    env.nontrivial = wrote >= 2 and (reads or refused) > 0
    if limit:
        env.label("short-writes")


def expect(key, r, families, what):
    if not isinstance(r, Raised) or not r.families & set(families):
        raise Violation(key, "%s gave %s, expected %s" % (what, short(r), sorted(families)))


# ------------------------------------------------------------ part "places": directories, missing parents, special names


@st.composite
def places_strategy(draw):
    return (draw(st.sampled_from(["dir", "noparent", "fileparent", "nul", "empty", "surrogate", "newline", "unicode", "long", "none"])),
            draw(st.sampled_from(["read", "write", "append"])), draw(st.booleans()), draw(st.booleans()))


def places_run(case, env):
    where, kind, binary, as_bytes = case
    rs = rsfile()
    d = env.dir
    os.mkdir(os.path.join(d, "dir"))
    with io.open(os.path.join(d, "plain"), "wb") as f:
        f.write(b"x")
    path = {"dir": "dir", "noparent": "no/f", "fileparent": "plain/f", "nul": "a\0b", "surrogate": "f\udcff", "newline": "a\nb", "unicode": "日é\U0001F600", "long": "n" * 255, "none": "zz"}
    p = "" if where == "empty" else os.path.join(d, path[where])
    if as_bytes:
        p = os.fsencode(p)
    base, listing = fds(), sorted(os.listdir(d))
    data = b"data" if binary else "data"
    if kind == "read":
        r = call(rs.read_from_file, p, binary=binary)
    else:
        r = call(rs.write_to_file if kind == "write" else rs.append_to_file, p, data)
    ok = where in ("surrogate", "newline", "unicode", "long", "none") and kind != "read"
    if ok:
        if r is not None:
            raise Violation("place", "%s on %r gave %r" % (kind, p, r))
        if read_file(p) != b"data":
            raise Violation("place", "wrong content")
        if call(rs.read_from_file, p, binary=binary) != data:
            raise Violation("place", "no round-trip")
    else:
        expect("place", r, {"OSError", "ValueError"}, "%s on %r" % (kind, p))
        if sorted(os.listdir(d)) != listing:
            raise Violation("place", "refused call changed the directory")
    if fds() != base:
        raise Violation("descriptor", "descriptors %r leaked" % (sorted(fds() ^ base),))
    env.nontrivial = True


PARTS = [Part("histories", strategy, run, quick=12600, thorough=200000, setup=start_prober),
         Part("places", places_strategy, places_run, quick=400, thorough=2000)]
