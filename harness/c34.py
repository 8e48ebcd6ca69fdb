"""C34: after a flush, other users of the same descriptor (or of the file) continue exactly where the stream is."""
import os
import subprocess
import warnings

import gen as st
from core import Part, Violation
from streams import mk, read_file, rsfile, short

ID = "C34"
LEVEL = "exploration"
TECHNIQUE = ("property-based testing, model-based: generated sequences of turns taken on one open file description by streams of several layers, duplicated descriptors, "
             "os functions and subprocesses, against a model with one content and one offset")
RULE = ("Cases are (creation mode, layers of the streams sharing the description, initial content, turns); a turn is a burst of operations of one participant, ended by a "
        "handover (flush, close, detach, nothing for os functions). After each turn the file content and the offset of the description must be those of the model, and "
        "the reads of each participant must give the model's bytes. Non-trivial: at least 3 turns by at least 2 different participants, which wrote or moved.")
ASSUMPTIONS = ["A participant takes its turn only after the previous one handed the description over; mid-turn positions of append streams are not compared.",
               "Text streams only write or reposition themselves at the start or the end: their decoders read in advance."]


def data():
    return st.weighted((5, st.binary(0, 12)), (3, st.tuples(st.just("P"), st.just("l"), st.integers(0, 200), st.sampled_from([1, 5, 16, 30, 100, 4095, 4096, 4097, 9000, 20000]))))


def bops():
    t, j = st.tuples, st.just
    return st.weighted((5, t(j("write"), data())), (1, t(j("writelines"), st.lists(data(), max_size=3))), (3, t(j("read"), st.integers(0, 40))), (1, t(j("read"), st.sampled_from([-1, 4096, 10000]))),
                       (1, t(j("readline"))), (1, t(j("readinto"), st.integers(0, 40))), (1, t(j("peek"))), (3, t(j("seek"), st.integers(0, 60))), (1, t(j("seek"), st.integers(0, 30000))),
                       (2, t(j("seekend"), st.integers(0, 5))), (1, t(j("seekcur"), st.integers(-5, 5))), (1, t(j("tell"))), (1, t(j("truncate"), st.one_of(st.just(None), st.integers(0, 60), st.integers(0, 9000)))),
                       (1, t(j("flush"))), (1, t(j("size"))), (1, t(j("sync"))))


def turn():
    t, j = st.tuples, st.just
    burst = st.lists(bops(), 1, 5)
    return st.weighted(
        (8, t(j("stream"), st.integers(0, 3), burst, st.sampled_from(["flush", "flush", "flush", "sync", "close", "detach", "lock"]))),
        (2, t(j("oswrite"), data())), (2, t(j("osread"), st.integers(0, 40))), (2, t(j("lseek"), st.integers(0, 80))), (1, t(j("pwrite"), data(), st.integers(0, 50))),
        (1, t(j("ftruncate"), st.integers(0, 100))), (1, t(j("bypath"), data())))


TURN = turn()
PROC = st.one_of(st.tuples(st.just("cat"), data()), st.tuples(st.just("dd"), st.integers(1, 40)))
LAYERS = ["raw", "buffered", "buffered", "text"]


def strategy_for(procs):
    @st.composite
    def strategy(draw):
        access = draw(st.sampled_from(["RW", "RW", "RW", "W", "RA", "A", "R"]))
        streams = tuple((draw(st.sampled_from(LAYERS)), draw(st.booleans()), draw(st.sampled_from([None, None, 1, 7, 64, 5000])), draw(st.booleans())) for _ in range(draw(st.integers(1, 3))))
        turns = draw(st.lists(TURN, 2, 9))
        if procs:
            for _ in range(draw(st.integers(1, 2))):
                turns.insert(draw(st.integers(0, len(turns))), ("proc", draw(PROC), draw(st.integers(0, 3))))
        return (access, streams, draw(data()), tuple(turns))
    return strategy


class Model(object):
    def __init__(self, content, append):
        self.c, self.pos, self.append = bytearray(content), 0, append

    def write(self, d):
        if not d:
            return
        if self.append:
            self.pos = len(self.c)
        if self.pos > len(self.c):
            self.c += bytes(self.pos - len(self.c))
        self.c[self.pos:self.pos + len(d)] = d
        self.pos += len(d)

    def read(self, n):
        d = bytes(self.c[self.pos:] if n < 0 else self.c[self.pos:self.pos + n])
        self.pos += len(d)
        return d

    def truncate(self, n):
        if n <= len(self.c):
            del self.c[n:]
        else:
            self.c += bytes(n - len(self.c))


class World(object):
    def __init__(self, case, env):
        self.env = env
        access, self.specs, init, _ = case
        self.rs = rsfile()
        self.path = env.path()
        init = mk(init)
        with open(self.path, "wb") as f:
            f.write(init)
        self.readable, self.writable, append = "R" in access, access != "R", "A" in access
        flags = {(True, True): os.O_RDWR, (True, False): os.O_RDONLY, (False, True): os.O_WRONLY}[self.readable, self.writable]
        self.fd = os.open(self.path, flags | (os.O_APPEND if append else 0))
        env.defer(os.close, self.fd)
        self.access = access
        self.model = Model(init, append)
        self.streams = {}
        self.users = []
        self.active = 0

    def stream(self, k):
        k %= len(self.specs)
        if k not in self.streams:
            layer, ts, buf, dup = self.specs[k]
            kw = dict(thread_safe=ts, locking=False)
            if layer == "raw":
                kw["buffering"] = 0
            elif buf is not None:
                kw["buffering"] = buf
            if layer == "text":
                kw.update(encoding="latin-1", newline="\n")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                f = self.rs.rsopen(mode=self.access + ("T" if layer == "text" else "B"), fileno=os.dup(self.fd) if dup else self.fd, closefd=dup, **kw)
            self.env.defer(f.close)
            if self.model.append and os.lseek(self.fd, 0, 1) == len(self.model.c):
                self.model.pos = len(self.model.c)  # wrapping in append mode moves to the end
            self.streams[k] = f
        return k, self.specs[k][0], self.streams[k]

    def check(self, what, position=True):
        c = read_file(self.path)
        if c != bytes(self.model.c):
            i = next((i for i in range(min(len(c), len(self.model.c))) if c[i] != self.model.c[i]), min(len(c), len(self.model.c)))
            raise Violation("content", "after %s the file has %d bytes instead of %d, first difference at %d" % (what, len(c), len(self.model.c), i))
        p = os.lseek(self.fd, 0, 1)
        if position and p != self.model.pos:
            raise Violation("position", "after %s the descriptor is at %d instead of %d" % (what, p, self.model.pos))

    def expect(self, what, got, expected):
        if got != expected:
            raise Violation("result", "%s gave %s instead of %s" % (what, short(got), short(expected)))

    def op(self, f, layer, op):
        m, kind, text = self.model, op[0], layer == "text"
        conv = (lambda d: d.decode("latin-1")) if text else (lambda d: d)
        if kind in ("write", "writelines"):
            if not self.writable:
                return
            items = [op[1]] if kind == "write" else op[1]
            items = [mk(x) for x in items]
            if kind == "write":
                n = f.write(conv(items[0]))
                self.expect("write()", n, len(items[0]))
            else:
                f.writelines([conv(x) for x in items])
            for x in items:
                m.write(x)
            self.active += 1
            if layer == "raw":
                self.check("an unbuffered write")
            if text and self.model.append:
                return
        elif kind in ("read", "readline", "readinto", "peek"):
            if not self.readable or text:
                return
            if m.append:
                f.flush()  # the position after buffered appends is undefined before a flush
            if kind == "read":
                self.expect("read(%d)" % op[1], f.read(op[1]), m.read(op[1]))
            elif kind == "readline":
                i = m.c.find(b"\n", m.pos)
                self.expect("readline()", f.readline(), m.read(-1 if i < 0 else i + 1 - m.pos))
            elif kind == "readinto":
                b = bytearray(op[1])
                n = f.readinto(b)
                self.expect("readinto()", bytes(b[:n]), m.read(op[1]))
            elif layer == "buffered":
                d = f.peek(3)
                if not bytes(m.c[m.pos:]).startswith(d) or (not d and m.pos < len(m.c)):
                    raise Violation("result", "peek() gave %s at %d" % (short(d), m.pos))
            return True
        elif kind in ("seek", "seekend", "seekcur"):
            if kind == "seek" and not (text and op[1] % 2):
                p = 0 if text else op[1]
                self.expect("seek(%d)" % p, f.seek(p), p)
                m.pos = p
            elif kind == "seekend" or text:
                self.expect("seek(0, 2)", f.seek(0, 2), len(m.c))
                m.pos = len(m.c)
                if kind == "seekend" and not text and op[1]:
                    m.pos += op[1]
                    self.expect("seek(%d, 2)" % op[1], f.seek(op[1], 2), m.pos)
            else:
                if m.append:
                    f.flush()
                p = m.pos + op[1]
                if p < 0:
                    return None
                self.expect("seek(%d, 1)" % op[1], f.seek(op[1], 1), p)
                m.pos = p
            self.active += 1
            return False
        elif kind == "tell":
            if not text and not m.append:
                self.expect("tell()", f.tell(), m.pos)
        elif kind == "truncate":
            if self.writable:
                if m.append:
                    f.flush()
                n = m.pos if op[1] is None else op[1]
                self.expect("truncate(%r)" % op[1], f.truncate(op[1]), n)
                m.truncate(n)
                if not text:
                    f.seek(m.pos)  # forgets what was read in advance before the truncation
                self.check("truncate()", position=not text)
        elif kind == "flush":
            f.flush()
            self.check("flush()", position=not self.ahead)
        elif kind == "size":
            self.expect("size()", f.size(), len(m.c))
            self.check("size()", position=False)
        elif kind == "sync":
            f.sync()
            self.check("sync()", position=False)
        return None

    def take(self, t, env):
        kind, m = t[0], self.model
        if kind == "stream":
            k, layer, f = self.stream(t[1])
            self.users.append(k)
            self.ahead = False
            for op in t[2]:
                r = self.op(f, layer, op)
                env.steps += 1
                if r is not None and layer != "raw":
                    self.ahead = r
                elif op[0] in ("write", "writelines", "truncate") and self.writable and not (op[0] == "write" and not mk(op[1])) and op != ("writelines", ()):
                    self.ahead = self.ahead and not any(mk(x) for x in (op[1] if op[0] == "writelines" else [op[1]])) if op[0] != "truncate" else False
            end = t[3]
            env.label("layer:" + layer, "end:" + end)
            if self.ahead:
                # documented, but not done (see the part "read_ahead"): repositioned explicitly
                f.seek(f.tell())
                self.expect("tell() after reads", f.tell(), m.pos)
            if end == "sync" and self.writable:
                f.sync()
            elif end == "lock":
                f.lock_file(timeout=0)
                f.unlock_file()
            elif end == "close":
                f.close()
                del self.streams[k]
            elif end == "detach" and layer != "raw" and not self.specs[k][1]:
                low = f.detach()
                del self.streams[k]
                if layer == "text":
                    low.flush()
                if not m.append:
                    self.expect("tell() of the detached stream", low.tell(), m.pos)
                env.defer(low.close)
            else:
                f.flush()
                if not m.append or layer == "raw":
                    if layer != "text":
                        self.expect("tell()", f.tell(), m.pos)
            self.check("turn ended by " + end)
            return
        env.label("turn:" + kind)
        self.users.append(kind)
        if kind == "oswrite":
            if self.writable:
                d = mk(t[1])
                os.write(self.fd, d)
                m.write(d)
                self.active += 1
        elif kind == "osread":
            if self.readable:
                self.expect("os.read()", os.read(self.fd, t[1]), m.read(t[1]))
        elif kind == "lseek":
            m.pos = os.lseek(self.fd, t[1], 0)
            self.active += 1
        elif kind == "pwrite":
            if self.writable and not m.append:
                d = mk(t[1])
                os.pwrite(self.fd, d, t[2])
                pos, m.pos = m.pos, t[2]
                m.write(d)
                m.pos = pos
        elif kind == "ftruncate":
            if self.writable:
                os.ftruncate(self.fd, t[1])
                m.truncate(t[1])
        elif kind == "bypath":
            d = mk(t[1])
            with open(self.path, "ab") as f:
                f.write(d)
            m.c += d
        elif kind == "proc":
            what, arg = t[1]
            if self.streams:
                k = sorted(self.streams)[t[2] % len(self.streams)]
                target = self.streams[k]
            else:
                target = self.fd
            if what == "cat" and self.writable:
                d = mk(arg)
                subprocess.run(["cat"], input=d, stdout=target, check=True)
                m.write(d)
                self.active += 1
            elif what == "dd" and self.readable:
                out = subprocess.run(["dd", "bs=%d" % arg, "count=1", "status=none"], stdin=target, stdout=subprocess.PIPE, check=True).stdout
                self.expect("a subprocess reading the stream", out, m.read(arg))
        self.check(kind)


def run(case, env):
    w = World(case, env)
    turns = 0
    for t in case[3]:
        w.take(t, env)
        turns += 1
    for k in list(w.streams):
        w.streams.pop(k).close()
    w.check("the end")
    env.label("access:" + case[0])
    env.nontrivial = turns >= 3 and len(set(map(str, w.users))) >= 2 and w.active >= 1


# ------------------------------------------------------------ part "read_ahead"


@st.composite
def ahead_strategy(draw):
    return (draw(st.sampled_from(["R", "RW"])), draw(st.sampled_from([None, 16, 64, 4096])), draw(st.integers(1, 9000)),
            draw(st.lists(st.one_of(st.integers(0, 30), st.integers(0, 5000)), 1, 4)), draw(st.sampled_from(["flush", "seek", "truncate"])))


def ahead_run(case, env):
    access, buf, size, reads, how = case
    if how == "truncate" and access == "R":
        how = "flush"
    rs = rsfile()
    path = env.path()
    content = mk(("P", "l", 0, size))
    with open(path, "wb") as f:
        f.write(content)
    f = rs.rsopen(path, access + "B", **({} if buf is None else dict(buffering=buf)))
    env.defer(f.close)
    pos = 0
    for n in reads:
        d = f.read(n)
        if d != content[pos:pos + n]:
            raise Violation("result", "read(%d) at %d gave %s" % (n, pos, short(d)))
        pos += len(d)
    if f.tell() != pos:
        raise Violation("tell", "tell() is %d instead of %d" % (f.tell(), pos))
    env.nontrivial = pos < size and sum(reads) > 0
    env.label("how:" + how)
    if how == "seek":
        f.seek(pos)
    elif how == "truncate":
        f.truncate(pos)
        f.seek(0, 1)
    f.flush()
    real = os.lseek(f.fileno(), 0, 1)
    if real != pos:
        key = "flush-after-buffered-read" if how == "flush" and pos < real <= size else "position"
        raise Violation(key, "after %s flush() the descriptor is at %d while tell() is %d" % (how, real, f.tell()))


PARTS = [Part("handover", strategy_for(False), run, quick=40000, thorough=600000),
         Part("subprocesses", strategy_for(True), run, quick=1600, thorough=30000),
         Part("read_ahead", ahead_strategy, ahead_run, quick=4000, thorough=40000)]
