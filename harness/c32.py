"""C32: standard library modules work on rsfile streams as they do on standard ones."""
import array
import bz2
import codecs
import configparser
import contextlib
import csv
import email
import email.generator
import email.message
import email.parser
import fileinput
import functools
import gzip
import hashlib
import io
import itertools
import json
import logging
import lzma
import marshal
import mmap
import os
import pickle
import plistlib
import pprint
import select
import shlex
import shutil
import socket
import subprocess
import sys
import tarfile
import tokenize
import wave
import zipfile
from xml.etree import ElementTree

import gen as st
from core import Part, Violation
from streams import Raised, call, rsfile, same_outcome, short

ID = "C32"
LEVEL = "exploration"
TECHNIQUE = "differential property-based testing: generated sequences of uses of a stream by standard library modules (serialisation, compression, archives, text tools, wrappers, processes) on an rsfile stream and on a standard one; results, positions and final contents are compared"
RULE = ("Cases are (mode, layer, options, previous content, sequence of uses with generated data). Each use hands the stream over to a module of the standard library: pickle, marshal, array, gzip, bz2, lzma, zipfile, tarfile, wave, plistlib, "
        "ElementTree, email, hashlib, shutil, mmap, subprocess, socket, select, codecs, io wrappers, csv, json, print, configparser, logging, fileinput, shlex, pprint, tokenize, redirections. Compared: the result or the "
        "family of the error of each use, the position after it, the final content. Non-trivial: at least two successful uses.")
ASSUMPTIONS = ["Standard modules only use the documented interface of file objects."]


def values():
    leaf = st.one_of(st.just(None), st.booleans(), st.integers(-2 ** 40, 2 ** 40), st.sampled_from(["", "a", "é\n", "x" * 300, "1,2", '"', "\u20ac"]), st.sampled_from([0.5, -1e300]))
    return st.one_of(leaf, st.lists(leaf, 0, 5), st.lists(st.lists(leaf, 0, 3), 0, 3))


def chunks():
    return st.lists(st.one_of(st.integers(0, 50), st.sampled_from([0, 1, 8191, 8192, 20000])), 0, 4)


def blob(n):
    return (b"%d\n" % n * (n // 2 + 1))[:n]


t, j = st.tuples, st.just
pos = st.integers(0, 200)
BIN = ["pickle", "unpickle", "marshal", "array", "gzip", "bz2", "lzma", "zip", "zip-append", "tar", "tar-stream", "wave", "plist", "etree", "email", "digest", "copy-in", "copy-out", "mmap", "process-in", "process-out", "socket",
       "select", "codecs", "textwrapper", "buffered", "tokenize", "sendfile", "lines", "map", "dup"]
TEXT = ["csv", "csv-dict", "json", "print", "config", "logging", "redirect", "stdin", "shlex", "pprint", "lines", "islice", "sorted", "email", "traceback", "copy-in", "copy-out", "etree", "enumerate", "stdout", "json-load"]


@st.composite
def strategy(draw):
    text = draw(st.booleans())
    use = t(st.sampled_from(TEXT if text else BIN), st.lists(values(), 0, 3), chunks(), st.sampled_from(["keep", "keep", "start", "end"]))
    return (text, draw(st.sampled_from(["w+", "w+", "r+", "w", "r", "x+"])), draw(st.sampled_from(["raw", "default", "default", "small"])), draw(st.booleans()), draw(st.booleans()),
            draw(st.sampled_from([b"", b"abc\ndef,1\n", b"[section]\nkey = value\n", b"x" * 9000 + b"\n", pickle.dumps([1, 2]), gzip.compress(b"hello" * 50, mtime=0), b'{"a": [1, 2]}'])),
            draw(st.lists(use, 1, 6)))


# every use gets the stream, the values and the chunk sizes, and gives something comparable


def u_pickle(f, vals, sizes):
    p = pickle.Pickler(f, len(sizes) + 1)
    for v in vals:
        p.dump(v)


def u_unpickle(f, vals, sizes):
    p0 = f.tell()
    pickle.dump(vals, f)
    f.seek(p0)
    return pickle.load(f)


def u_marshal(f, vals, sizes):
    p0 = f.tell()
    marshal.dump(vals, f)
    f.seek(p0)
    return marshal.load(f)


def u_array(f, vals, sizes):
    p0 = f.tell()
    a = array.array("i", sizes)
    a.tofile(f)
    f.seek(p0)
    b = array.array("i")
    b.fromfile(f, len(a))
    try:
        b.fromfile(f, 10 ** 4)
    except EOFError:
        b.append(-1)
    return b.tolist()


def u_gzip(f, vals, sizes):
    p0 = f.tell()
    with gzip.GzipFile(fileobj=f, mode="wb", mtime=0) as g:
        for n in sizes:
            g.write(blob(n))
    f.seek(p0)
    with gzip.GzipFile(fileobj=f, mode="rb") as g:
        a = g.read(10)
        g.seek(3)
        return a, g.read(), g.tell()


def u_bz2(f, vals, sizes):
    p0 = f.tell()
    with bz2.BZ2File(f, "wb") as g:
        for n in sizes:
            g.write(blob(n))
    f.seek(p0)
    with bz2.BZ2File(f, "rb") as g:
        return g.readline(), g.read()


def u_lzma(f, vals, sizes):
    p0 = f.tell()
    with lzma.LZMAFile(f, "wb") as g:
        for n in sizes:
            g.write(blob(n))
    f.seek(p0)
    with lzma.LZMAFile(f, "rb") as g:
        return g.readline(), g.read()


def members(z):
    return [(i.filename, i.file_size, i.CRC, z.read(i)) for i in z.infolist()]


def u_zip(f, vals, sizes, mode="w"):
    with zipfile.ZipFile(f, mode, zipfile.ZIP_DEFLATED if len(sizes) % 2 else zipfile.ZIP_STORED) as z:
        for i, n in enumerate(sizes):
            z.writestr(zipfile.ZipInfo("n%d" % i, (1999, 1, 1, 0, 0, 0)), blob(n))
        with z.open(zipfile.ZipInfo("streamed", (1999, 1, 1, 0, 0, 0)), "w") as g:
            g.write(b"abc" * 100)
    with zipfile.ZipFile(f) as z:
        return members(z), z.testzip()


def u_tar(f, vals, sizes, kind=""):
    p0 = f.tell()
    with tarfile.open(fileobj=f, mode="w" + kind) as a:
        for i, n in enumerate(sizes):
            info = tarfile.TarInfo("n%d" % i)
            info.size = n
            a.addfile(info, io.BytesIO(blob(n)))
    end = f.tell()
    f.seek(p0)
    with tarfile.open(fileobj=f, mode="r" + (kind or ":")) as a:
        return end, [(m.name, m.size, a.extractfile(m).read()) for m in a]


def u_wave(f, vals, sizes):
    p0 = f.tell()
    with wave.open(f, "wb") as w:
        w.setnchannels(1)
        w.setsampwidth(2)
        w.setframerate(8000)
        for n in sizes:
            w.writeframes(blob(n // 2 * 2))
    f.seek(p0)
    with wave.open(f, "rb") as w:
        return w.getnframes(), w.readframes(10)


def jsonable(vals):
    return [v for v in vals]


def u_plist(f, vals, sizes):
    p0 = f.tell()
    plistlib.dump({"a": sizes, "b": blob(len(sizes) * 10)}, f, fmt=plistlib.FMT_BINARY if len(sizes) % 2 else plistlib.FMT_XML)
    f.seek(p0)
    if p0 == 0:
        return plistlib.load(f)


def u_etree(f, vals, sizes):
    p0 = f.tell()
    root = ElementTree.Element("root")
    for n in sizes:
        ElementTree.SubElement(root, "e", n=str(n)).text = "é" + str(n)
    ElementTree.ElementTree(root).write(f, encoding="unicode" if isinstance(f.read(0) if f.readable() else "", str) else "utf-8")
    f.seek(p0)
    return [e.attrib for e in ElementTree.parse(f).getroot()] if p0 == 0 and root is not None else None


def u_email(f, vals, sizes):
    m = email.message.Message()
    m["Subject"] = "test %d" % len(sizes)
    m.set_payload("\n".join(map(str, sizes)))
    p0 = f.tell()
    text = isinstance(f.read(0), str)
    (email.generator.Generator if text else email.generator.BytesGenerator)(f).flatten(m)
    f.seek(p0)
    x = (email.parser.Parser if text else email.parser.BytesParser)().parse(f)
    return x["Subject"], len(x.get_payload())


def u_digest(f, vals, sizes):
    return hashlib.file_digest(f, "md5").hexdigest()


def u_copy_in(f, vals, sizes):
    for n in sizes:
        try:
            shutil.copyfileobj(io.BytesIO(blob(n)), f, 1000)
        except TypeError:
            shutil.copyfileobj(io.StringIO(blob(n).decode()), f, 1000)


def u_copy_out(f, vals, sizes):
    d = f.read(0)
    out = io.StringIO() if isinstance(d, str) else io.BytesIO()
    shutil.copyfileobj(f, out, max(1, (sizes or [16384])[0]))
    return out.getvalue()


def u_mmap(f, vals, sizes):
    f.write(b"mapped")
    f.flush()
    with mmap.mmap(f.fileno(), 0) as m:
        m[0:2] = b"MM"
        return len(m), m[:20]


def u_process_in(f, vals, sizes):
    f.flush()
    os.lseek(f.fileno(), 0, 0)
    return subprocess.run(["cat"], stdin=f, stdout=subprocess.PIPE).stdout


def u_process_out(f, vals, sizes):
    f.flush()
    f.seek(0, 2)
    subprocess.run(["printf", "from a process"], stdout=f)
    f.seek(0, 2)
    return f.tell()


def u_socket(f, vals, sizes):
    f.flush()
    a, b = socket.socketpair()
    with a, b:
        f.seek(0)
        n = a.sendfile(f, 0, 500)
        got = b""
        while len(got) < n:
            got += b.recv(1000)
        return n, got


def u_select(f, vals, sizes):
    r, w, x = select.select([f], [f], [], 0)
    return [y is f for y in r], [y is f for y in w], select.poll().register(f)


def u_codecs(f, vals, sizes):
    p0 = f.tell()
    codecs.getwriter("utf-16")(f).write("é%d" % len(sizes))
    f.seek(p0)
    return codecs.getreader("utf-16")(f).read()


def u_textwrapper(f, vals, sizes):
    w = io.TextIOWrapper(f, encoding="latin-1", newline="")
    try:
        p0 = w.tell()
        w.write("é%r\n" % (sizes,))
        w.flush()
        w.seek(p0)
        return w.readline()
    finally:
        w.detach()


def u_buffered(f, vals, sizes):
    w = io.BufferedRandom(f)
    try:
        p0 = w.tell()
        w.write(b"%r\n" % len(sizes))
        w.seek(p0)
        return w.readline(), w.peek(1)[:1]
    finally:
        w.detach()


def u_tokenize(f, vals, sizes):
    p0 = f.tell()
    f.write(b"a = %d\n" % len(sizes))
    f.seek(p0)
    return [(x.type, x.string) for x in itertools.islice(tokenize.tokenize(f.readline), 6)]


def u_sendfile(f, vals, sizes):
    f.flush()
    r, w = os.pipe()
    try:
        n = os.sendfile(w, f.fileno(), 0, 300)
        return n, os.read(r, 1000) if n else b""
    finally:
        os.close(r)
        os.close(w)


def u_map(f, vals, sizes):
    f.seek(0)
    return list(map(len, f))


def u_dup(f, vals, sizes):
    f.flush()
    with io.open(os.dup(f.fileno()), "rb") as g:
        g.seek(0)
        d = g.read(50)
    f.seek(0, 2)
    return d


def u_lines(f, vals, sizes):
    f.seek(0)
    return f.readlines()


def u_islice(f, vals, sizes):
    f.seek(0)
    return list(itertools.islice(f, 2))


def u_sorted(f, vals, sizes):
    f.seek(0)
    return sorted(f)


def u_enumerate(f, vals, sizes):
    f.seek(0)
    return [(i, l) for i, l in enumerate(f, 1)], dict(enumerate(f))


def u_csv(f, vals, sizes):
    p0 = f.tell()
    w = csv.writer(f)
    for v in vals:
        w.writerow(v if isinstance(v, list) else [v])
    f.seek(p0)
    return list(csv.reader(f))


def u_csv_dict(f, vals, sizes):
    p0 = f.tell()
    w = csv.DictWriter(f, ["a", "b"])
    w.writeheader()
    for v in vals:
        w.writerow({"a": v, "b": len(sizes)})
    f.seek(p0)
    return [dict(r) for r in csv.DictReader(f)]


def u_json(f, vals, sizes):
    p0 = f.tell()
    json.dump(vals, f, ensure_ascii=bool(len(sizes) % 2), indent=len(sizes))
    end = f.tell()
    f.seek(p0)
    return f.read() and end


def u_json_load(f, vals, sizes):
    f.seek(0)
    return json.load(f)


def u_print(f, vals, sizes):
    print(*vals, file=f, sep="|", end="!\n", flush=bool(len(sizes) % 2))


def u_config(f, vals, sizes):
    p0 = f.tell()
    c = configparser.ConfigParser()
    c["s%d" % len(sizes)] = {"k%d" % n: str(n) for n in sizes}
    c.write(f)
    f.seek(p0)
    d = configparser.ConfigParser()
    d.read_file(f)
    return {s: dict(d[s]) for s in d.sections()}


def u_logging(f, vals, sizes):
    h = logging.StreamHandler(f)
    h.handleError = lambda record: (_ for _ in ()).throw(sys.exc_info()[1])
    for v in vals:
        h.handle(logging.LogRecord("n", 20, "p", 1, "message %r", (v,), None))
    h.flush()


def u_redirect(f, vals, sizes):
    with contextlib.redirect_stdout(f):
        for v in vals:
            print(v)
        sys.stdout.write("x")


def u_stdout(f, vals, sizes):
    old = sys.stdout
    sys.stdout = f
    try:
        print("some text", end="")
        pprint.pprint(vals)
    finally:
        sys.stdout = old


def u_stdin(f, vals, sizes):
    f.seek(0)
    old = sys.stdin
    sys.stdin = f
    try:
        out = []
        for _ in range(3):
            try:
                out.append(input())
            except EOFError:
                out.append(None)
        return out
    finally:
        sys.stdin = old


def u_shlex(f, vals, sizes):
    f.seek(0)
    return list(itertools.islice(shlex.shlex(f), 10))


def u_pprint(f, vals, sizes):
    pprint.pprint(vals, stream=f, width=20)


def u_traceback(f, vals, sizes):
    import traceback

    try:
        raise KeyError(repr(vals))
    except KeyError as e:
        traceback.print_exception(type(e), e, None, file=f)


USES = {k: globals().get("u_" + k.replace("-", "_")) for k in BIN + TEXT}
USES["zip-append"] = lambda f, v, s: u_zip(f, v, s, "a")
USES["tar-stream"] = lambda f, v, s: u_tar(f, v, s, "|")


READAHEAD = ("textwrapper", "buffered", "gzip", "bz2", "lzma", "codecs", "islice", "zip", "zip-append", "tar", "tar-stream", "etree", "email")


def play(opener, path, case):
    text, mode, layer, ts, locking, content, uses = case
    if mode != "x+":
        with io.open(path, "wb") as g:
            g.write(content)
    out = []
    kw = {}
    if layer == "raw" and not text:
        kw["buffering"] = 0
    elif layer == "small":
        kw["buffering"] = 1 if text else 7
    if text:
        kw.update(encoding="utf-8", newline="\n")
    f = opener(path, mode + ("" if text else "b"), **kw)
    try:
        for name, vals, sizes, where in uses:
            if where != "keep":
                call(f.seek, 0, 0 if where == "start" else 2)
            r = call(USES[name], f, vals, sizes)
            if name in READAHEAD or isinstance(r, Raised):
                call(f.seek, 0, 2)  # the amount of data read in advance isn't specified
            call(f.flush)
            p = call(f.tell)
            if isinstance(p, Raised):
                f.seek(0, 2)
                p = None
            out.append((name, r, p))
            if f.closed:
                break
            call(f.seek, p or 0)  # forgets what was read in advance
    finally:
        try:
            f.close()
        except (OSError, ValueError):
            pass
    with io.open(path, "rb") as g:
        return out, g.read()


def run(case, env):
    rs = rsfile()
    text, mode, layer, ts, locking, content, uses = case
    os.mkdir(env.path("std"))
    os.mkdir(env.path("rs"))
    want, wc = play(io.open, env.path("std/f"), case)
    got, gc = play(functools.partial(rs.rsopen, thread_safe=ts, locking=locking), env.path("rs/f"), case)
    env.steps += len(uses)
    good = 0
    for (n1, r1, p1), (n2, r2, p2) in zip(got, want):
        if isinstance(r1, Raised) != isinstance(r2, Raised) or isinstance(r1, Raised) and not (r1.families & r2.families) or not isinstance(r1, Raised) and r1 != r2:
            raise Violation("result", "%s on a stream in mode %s%s (%s, thread-safe: %s) gave %s instead of %s" % (n1, mode, "" if text else "b", layer, ts, short(repr(r1), 400), short(repr(r2), 400)))
        if p1 != p2:
            raise Violation("position", "after %s, the position is %r instead of %r (mode %s, %s)" % (n1, p1, p2, mode, layer))
        if not isinstance(r1, Raised):
            good += 1
            env.label("ok:" + n1)
    if len(got) != len(want):
        raise Violation("closed", "uses %r, instead of %r" % ([g[0] for g in got], [w[0] for w in want]))
    if gc != wc:
        raise Violation("content", "the file contains %s instead of %s" % (short(gc), short(wc)))
    env.nontrivial = good >= 2


# ------------------------------------------------------------ fileinput with an opening hook


@st.composite
def fileinput_strategy(draw):
    return (draw(st.lists(st.lists(st.sampled_from(["a\n", "b\n", "long line %d\n" % 10 ** 20, "last"]), 0, 4), 1, 3)), draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 4)))


def fileinput_run(case, env):
    files, ts, locking, skip = case
    rs = rsfile()
    paths = []
    for i, lines in enumerate(files):
        p = env.path("f%d" % i)
        with io.open(p, "w") as g:
            g.write("".join(lines))
        paths.append(p)

    def go(opener):
        out = []
        with fileinput.FileInput(paths, openhook=opener) as f:
            for line in f:
                out.append((f.filename(), f.lineno(), f.filelineno(), f.isfirstline(), line))
                if len(out) == skip:
                    f.nextfile()
        return out

    a, b = go(lambda p, m: rs.rsopen(p, m, thread_safe=ts, locking=locking)), go(lambda p, m: io.open(p, m))
    if a != b:
        raise Violation("fileinput", "%s instead of %s" % (short(repr(a)), short(repr(b))))
    env.steps += 1
    env.nontrivial = len(a) > 1


PARTS = [Part("uses", strategy, run, quick=24000, thorough=200000), Part("fileinput", fileinput_strategy, fileinput_run, quick=3200, thorough=20000)]
