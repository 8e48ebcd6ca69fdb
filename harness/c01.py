"""C01: binary streams == stdlib on any history (differential testing against _pyio/io)."""
from refio import ref as _pyio
import io
import os
import warnings

import gen as st
from core import Part, Violation
from streams import BIG, BYTES_KINDS, Driver, Raised, call, mk, read_file, rsfile, same_outcome, short

ID = "C01"
LEVEL = "exploration"
RULE = ("Cases are (mode, buffering, wrapper options, initial content, operation list) drawn by a seeded structured generator and run on an "
        "rsfile stream and on a stdlib stream over two identical files, comparing every outcome, tell() and the disk "
        "bytes. Non-trivial: at least 3 operations, with a write, truncate or seek mixed with other operations and at "
        "least 3 operations that succeeded.")
ASSUMPTIONS = ["The stdlib stream (pure Python _pyio.open, whose buffered layers follow io.open) is the reference."]

STD_MODES = ["rb", "rb+", "wb", "wb+", "ab", "ab+", "xb", "xb+", "r+b", "br"]
ADV = {"rb": "RNB", "rb+": "RWNB", "r+b": "RWNB", "br": "RNB", "wb": "WEB", "wb+": "RWEB", "ab": "AB", "ab+": "RAB", "xb": "WCB",
       "xb+": "RWCB"}

B31, B32 = 1 << 31, 1 << 32


def content():
    return st.one_of(
        st.binary(max_size=40),
        st.tuples(st.just("P"), st.sampled_from("lb"), st.integers(0, 3000), st.sampled_from([0, 1, 10, 60, 300, 4095, 4096, 4097, 8191,
                                                                                            8192, 8193, 9000, 20000, 70000])),
        st.tuples(st.just("P"), st.sampled_from("lb"), st.integers(0, 3000), st.integers(0, 200)),
    )


def wdata():
    return st.one_of(
        st.binary(max_size=12),
        st.tuples(st.just("P"), st.sampled_from("lb"), st.integers(0, 3000), st.integers(0, 70)),
        st.tuples(st.just("P"), st.sampled_from("lb"), st.integers(0, 3000), st.sampled_from([4095, 4096, 5000, 8192, 8193, 16385, 66000])),
    )


def count():
    return st.one_of(st.integers(0, 20), st.integers(0, 20), st.sampled_from([-1, 0, 1, 64, 100, 4095, 4096, 4097, 8191, 8192, 8193, 20000]))


def position():
    return st.one_of(st.integers(0, 80), st.integers(0, 80), st.sampled_from([0, 4096, 8192, 10000]),
                     st.sampled_from([0, 1, 4095, 8193, B31 - 1, B31, B32 - 2, B32 + 5, 3 * B32]))


def ops(raw):
    kinds = list(BYTES_KINDS) + (["array_H", "view_I", "ctypes_int"] if raw else [])
    kind = st.sampled_from(kinds)
    rkind = st.sampled_from(["bytearray", "bytearray", "memoryview", "array", "array_H", "ctypes", "readonly"])
    t = st.tuples
    j = st.just
    reads = [
        t(j("read"), count()), t(j("read"), count()), t(j("read")), t(j("read_none")), t(j("read"), st.sampled_from([-2, -5, -8192, -B31, -B32])), t(j("readinto"), st.integers(0, 60), rkind),
        t(j("readinto"), st.sampled_from([0, 4096, 8192, 9000]), rkind),
        t(j("readline")), t(j("readline"), count()), t(j("readlines")), t(j("readlines"), count()), t(j("next")),
        t(j("iter"), st.integers(1, 5)),
    ]
    if raw:
        reads += [t(j("readall"))]
    else:
        reads += [t(j("read1"), count()), t(j("peek"), count()), t(j("readinto1"), st.integers(0, 60), rkind), t(j("raw_tell"))]
    writes = [t(j("write"), wdata(), kind), t(j("write"), wdata(), kind), t(j("write"), wdata(), kind), t(j("write"), wdata()),
              t(j("writelines"), st.lists(wdata(), max_size=3), kind), t(j("writegen"), st.lists(wdata(), max_size=3))]
    moves = [t(j("seek"), position()), t(j("seek"), position()), t(j("seek"), position()), t(j("seek"), st.integers(-40, 40), st.sampled_from([1, 2])),
             t(j("seek"), st.sampled_from([-B31, -B32, -5000, B32, B31]), st.sampled_from([0, 1, 2])), t(j("tell")), t(j("tell")),
             t(j("seek"), st.integers(0, 5), st.sampled_from([-1, 3, 5, 7])),
             t(j("truncate")), t(j("truncate"), position()), t(j("truncate"), position()), t(j("truncate_none")),
             t(j("truncate"), st.sampled_from([-1, -100])), t(j("flush")), t(j("flush"))]
    attr = [t(j("attr"), st.sampled_from(["mode", "closed", "readable", "writable", "seekable", "isatty"])), t(j("fileno")), t(j("enter")), t(j("disk"))]
    return st.weighted((4, st.one_of(reads)), (4, st.one_of(writes)), (4, st.one_of(moves)), (1, st.one_of(attr)))


def late_ops():
    t, j = st.tuples, st.just
    return st.lists(st.one_of(t(j("close")), t(j("with")), t(j("read"), st.integers(-1, 5)), t(j("write"), st.binary(max_size=3)), t(j("tell")),
                              t(j("seek"), st.integers(0, 5)), t(j("truncate"), st.integers(0, 5)), t(j("flush")), t(j("readline")), t(j("next")),
                              t(j("attr"), st.sampled_from(["closed", "readable", "writable", "seekable", "isatty"])), t(j("fileno")), t(j("enter")),
                              t(j("readinto"), st.integers(0, 4), st.just("bytearray")), t(j("writelines"), st.lists(st.binary(max_size=3), max_size=2)),
                              t(j("disk"))), max_size=6)


OPS = {raw: [st.lists(ops(raw), 1, n) for n in (25, 12, 50)] for raw in (False, True)}
TAIL = st.one_of(st.just([]), st.just([]), late_ops())
INIT = content()


@st.composite
def case_strategy(draw):
    mode = draw(st.sampled_from(STD_MODES))
    buffering = draw(st.sampled_from([None, -1, 0, 0, 0, 1, 2, 3, 5, 7, 16, 31, 64, 300, 4096, 8192, 10000]))
    raw = buffering == 0
    init = draw(INIT)
    body = draw(OPS[raw][draw(st.integers(0, 2))])
    tail = draw(TAIL)
    opts = dict(thread_safe=draw(st.booleans()), locking=draw(st.booleans()), adv=draw(st.booleans()), pos=draw(st.booleans()))
    return (mode, buffering, sorted(opts.items()), init, body + tail)


WRITES = {"write", "writelines", "writegen", "truncate", "truncate_none", "seek"}


def compare_run(env, d1, d2, oplist, after=None, check_pos=True):
    """d1: rsfile driver, d2: reference driver."""
    done, kinds, ok = [], set(), 0
    for op in oplist:
        big = max(d1.size_hint(), d2.size_hint()) > BIG
        r2 = d2.do(op, big)
        r1 = d1.do(op, big)
        done.append(op)
        env.steps += 1
        if not same_outcome(r1, r2):
            raise Violation("outcome", "op %r after %d ops: rsfile gave %s, stdlib gave %s" % (op, len(done) - 1, short(r1), short(r2)))
        if not isinstance(r1, Raised):
            ok += 1
            kinds.add(op[0])
        else:
            env.label("raised:" + sorted(r1.families)[0])
        if check_pos and op[0] in ("write", "truncate", "seek", "read", "readline", "twrite", "tseek"):
            p1, p2 = call(d1.f.tell), call(d2.f.tell)
            if not same_outcome(p1, p2):
                raise Violation("position", "after %r tell() is %r, stdlib has %r" % (op, p1, p2))
        if after:
            after(op, d1, d2)
    return ok, kinds


def finish(env, d1, d2):
    r2, r1 = call(d2.f.close), call(d1.f.close)
    if not same_outcome(r1, r2):
        raise Violation("close", "close(): rsfile %r, stdlib %r" % (r1, r2))
    if not d1.f.closed:
        raise Violation("close", "stream not closed after close()")
    c1, c2 = read_file(d1.path), read_file(d2.path)
    if c1 != c2:
        raise Violation("content", "final content differs: rsfile %s, stdlib %s" % (short(c1), short(c2)))


def run(case, env):
    mode, buffering, opts, init, oplist = case
    opts = dict(opts)
    rs = rsfile()
    p1, p2 = env.path("a"), env.path("b")
    if "x" not in mode:
        for p in (p1, p2):
            with io.open(p, "wb") as f:
                f.write(mk(init))
    kw = {} if buffering is None else dict(buffering=buffering)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f2 = _pyio.open(p2, mode, **kw)
        env.defer(f2.close)
        f1 = rs.rsopen(p1, ADV[mode] if opts["adv"] else mode, thread_safe=opts["thread_safe"], locking=opts["locking"], **kw)
        env.defer(f1.close)
    d1, d2 = Driver(f1, p1), Driver(f2, p2)
    env.label("mode:" + mode, "buf:%s" % ("raw" if buffering == 0 else "small" if buffering and 0 < buffering < 4096 else "big"))
    for a in ("mode", "closed"):
        if getattr(f1, a) != getattr(f2, a):
            raise Violation("attribute", "%s is %r, stdlib has %r" % (a, getattr(f1, a), getattr(f2, a)))
    if f1.name != p1:
        raise Violation("attribute", "name is %r" % (f1.name,))
    ok, kinds = compare_run(env, d1, d2, oplist, check_pos=opts["pos"])
    finish(env, d1, d2)
    env.nontrivial = len(oplist) >= 3 and ok >= 3 and bool(kinds & WRITES) and len(kinds) >= 2
    for k in kinds:
        env.label("op:" + k)


PARTS = [Part("differential", case_strategy, run, quick=40000, thorough=600000)]
