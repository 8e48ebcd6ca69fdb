"""C02: text streams == stdlib on any history (differential testing against _pyio.open)."""
from refio import ref as _pyio
import io
import warnings

import gen as st
from c01 import compare_run, finish
from core import Part, Violation
from streams import BIG, Driver, Raised, call, mk, mktext, read_file, rsfile, same_outcome, short

ID = "C02"
LEVEL = "exploration"
RULE = ("Cases are (mode, buffering, encoding, errors, newline, wrapper options, initial bytes, operation list) drawn by a seeded "
        "structured generator, run on an rsfile text stream and on a stdlib one over identical files, comparing every "
        "outcome and the disk bytes. Non-trivial: at least 3 successful operations of 2 kinds, with a read or write of text.")
ASSUMPTIONS = ["The stdlib stream (pure Python _pyio.open) is the reference."]

MODES = ["r", "r+", "w", "w+", "a", "a+", "x", "x+", "rt", "wt+", "r+t"]
ADV = {"r": "RN", "r+": "RWN", "w": "WE", "w+": "RWE", "a": "A", "a+": "RA", "x": "WC", "x+": "RWC", "rt": "RNT", "wt+": "RWET", "r+t": "RWNT"}
ENCODINGS = ["utf-8", "utf-8", None, "utf-8-sig", "utf-16", "utf-16-le", "utf-32", "latin-1", "ascii", "cp1252", "shift_jis", "gb18030", "utf-7",
             "euc_jp", "big5hkscs", "utf-8", "utf-8", "utf-16", "nosuchcodec"]
ERRORS = [None, None, None, "strict", None, "xmlcharrefreplace", "ignore", "replace", "ignore", "replace", "surrogateescape", "backslashreplace", "nosuchhandler"]
NEWLINES = [None, None, "", "\n", "\r", "\r\n", "", "\n", None, None, "\r\n", "\r", "bad"]

ALPHABET = ["a", "b", "z", " ", "\n", "\r", "\r\n", "\n\n", "é", "ß", "日", "本", "€", "\U0001F600", "\x00", "\x1a", "\ud800", "\xa5", "\u2028", "\ufeff"]


def texts():
    return st.weighted(
        (3, st.text(ALPHABET, 0, 12)),
        (2, st.tuples(st.just("T"), st.sampled_from("auuwln"), st.integers(0, 60), st.integers(0, 80))),
        (1, st.tuples(st.just("T"), st.sampled_from("auuwln"), st.integers(0, 60), st.sampled_from([2047, 2048, 4097, 8192, 8193, 9000]))),
    )


def t_ops():
    t, j = st.tuples, st.just
    n = st.weighted((4, st.integers(0, 12)), (2, st.integers(0, 90)), (1, st.sampled_from([-1, 2047, 2048, 2049, 8192, 10000])))
    reads = [t(j("read"), n), t(j("read"), n), t(j("read")), t(j("read_none")), t(j("readline")), t(j("readline")), t(j("readline"), n), t(j("readlines")),
             t(j("readlines"), n), t(j("next")), t(j("iter"), st.integers(1, 5))]
    writes = [t(j("twrite"), texts())] * 5 + [t(j("twritelines"), st.lists(texts(), 0, 3))]
    moves = [t(j("ttell"))] * 3 + [t(j("tseek"), st.integers(0, 9))] * 3 + [
        t(j("seek"), j(0), j(0)), t(j("seek"), j(0), j(1)), t(j("seek"), j(0), j(2)), t(j("seek"), st.integers(0, 30)), t(j("seek"), st.integers(-3, 3), st.sampled_from([0, 1, 2, 3])),
        t(j("truncate")), t(j("truncate"), st.integers(0, 60)), t(j("truncate"), st.sampled_from([0, -1, 4096, 9000])), t(j("flush")), t(j("flush"))]
    attr = [t(j("attr"), st.sampled_from(["mode", "closed", "readable", "writable", "seekable", "isatty", "encoding", "errors", "newlines", "line_buffering", "write_through"])),
            t(j("bufattr"), st.sampled_from(["tell", "mode", "closed"])), t(j("fileno")), t(j("enter")), t(j("disk")), t(j("disk")),
            t(j("write"), st.binary(0, 5)),
            t(j("reconfigure"), st.sampled_from([(("line_buffering", True),), (("write_through", True),), (("errors", "replace"),), (("newline", "\r\n"),), (("newline", ""),),
                                                 (("encoding", "latin-1"),), (("line_buffering", False), ("write_through", False)), ()]))]
    return st.weighted((4, st.one_of(reads)), (4, st.one_of(writes)), (4, st.one_of(moves)), (2, st.one_of(attr)))


def late():
    t, j = st.tuples, st.just
    return st.lists(st.one_of(t(j("close")), t(j("close")), t(j("with")), t(j("read"), st.integers(-1, 5)), t(j("twrite"), st.text("ab\n", 0, 4)), t(j("ttell")), t(j("seek"), j(0)),
                              t(j("truncate"), st.integers(0, 5)), t(j("flush")), t(j("readline")), t(j("next")), t(j("enter")), t(j("disk")),
                              t(j("attr"), st.sampled_from(["closed", "readable", "writable", "seekable", "isatty", "encoding"]))), 0, 6)


def initial():
    return st.weighted(
        (3, st.binary(0, 30)),
        (4, texts().map(lambda x: ("text", x))),
        (1, st.tuples(st.just("P"), st.just("l"), st.integers(0, 3000), st.sampled_from([100, 2048, 4096, 8192, 9000, 30000]))),
    )


OPS = [st.lists(t_ops(), 1, n) for n in (12, 25, 40)]
LATE = st.one_of(st.just([]), st.just([]), late())
INITIAL = initial()


@st.composite
def case_strategy(draw):
    mode = draw(st.sampled_from(MODES))
    buffering = draw(st.sampled_from([None, -1, -1, 1, 1, 2, 3, 7, 16, 64, 4096, 10000, 0]))
    enc = draw(st.sampled_from(ENCODINGS))
    errors = draw(st.sampled_from(ERRORS))
    newline = draw(st.sampled_from(NEWLINES))
    init = draw(INITIAL)
    opts = dict(thread_safe=draw(st.booleans()), locking=draw(st.booleans()), adv=draw(st.booleans()))
    ops = draw(OPS[draw(st.integers(0, 2))]) + draw(LATE)
    return (mode, buffering, enc, errors, newline, sorted(opts.items()), init, ops)


def encode_init(init, enc):
    if isinstance(init, tuple) and init[0] == "text":
        try:
            return mktext(init[1]).encode(enc or "utf-8", "replace")
        except (LookupError, UnicodeError):
            return mktext(init[1]).encode("utf-8", "replace")
    return mk(init)


def run(case, env):
    mode, buffering, enc, errors, newline, opts, init, oplist = case
    opts = dict(opts)
    rs = rsfile()
    p1, p2 = env.path("a"), env.path("b")
    if "x" not in mode:
        for p in (p1, p2):
            with io.open(p, "wb") as f:
                f.write(encode_init(init, enc))
    kw = dict(encoding=enc, errors=errors, newline=newline)
    if buffering is not None:
        kw["buffering"] = buffering
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f2 = call(_pyio.open, p2, mode, **kw)
        f1 = call(rs.rsopen, p1, ADV[mode] if opts["adv"] else mode, thread_safe=opts["thread_safe"], locking=opts["locking"], **kw)
    for f in (f1, f2):
        if not isinstance(f, Raised):
            env.defer(f.close)
    if isinstance(f1, Raised) or isinstance(f2, Raised):
        if not (isinstance(f1, Raised) and isinstance(f2, Raised) and same_outcome(f1, f2)):
            raise Violation("open", "open: rsfile %r, stdlib %r" % (f1, f2))
        env.label("open-refused")
        c1, c2 = call(read_file, p1), call(read_file, p2)
        if not same_outcome(c1, c2):
            raise Violation("content", "after a refused open: rsfile %s, stdlib %s" % (short(c1), short(c2)))
        return
    d1, d2 = Driver(f1, p1), Driver(f2, p2)
    env.label("mode:" + mode, "enc:%s" % enc, "newline:%r" % newline, "buf:%s" % ("line" if buffering == 1 else "other"))
    for a in ("encoding", "errors", "line_buffering", "newlines", "write_through"):
        if getattr(f1, a) != getattr(f2, a):
            raise Violation("attribute", "%s is %r, stdlib has %r" % (a, getattr(f1, a), getattr(f2, a)))
    expected_mode = ADV[mode] if opts["adv"] else mode
    if f1.mode != expected_mode or f1.name != p1:
        raise Violation("attribute", "mode %r name %r" % (f1.mode, f1.name))

    line_buffered = buffering == 1
    wrote = [False]

    def after(op, a, b):
        if op[0] == "twrite":
            wrote[0] = True
            if line_buffered:
                x, y = read_file(p1), read_file(p2)
                if x != y:
                    raise Violation("line-buffering", "after line-buffered %r disk has %s, stdlib %s" % (op, short(x), short(y)))

    if opts["adv"]:
        oplist = [op for op in oplist if op != ("attr", "mode")]
    ok, kinds = compare_run(env, d1, d2, oplist, after=after, check_pos=False)
    finish(env, d1, d2)
    env.nontrivial = ok >= 3 and len(kinds) >= 2 and bool(kinds & {"read", "readline", "next", "iter", "twrite", "twritelines", "readlines"})
    for k in kinds:
        env.label("op:" + k)


PARTS = [Part("differential", case_strategy, run, quick=65000, thorough=900000)]
