"""C23: Windows conversion helpers are exact inverses over their whole domain."""
import ctypes
import math
from fractions import Fraction

import gen as st
from core import Part, Violation
from streams import Raised, call, rsfile

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: round-trip, reference-model (ctypes integers, exact rationals) and monotonicity laws over generated and enumerated integers and timestamps"
RULE = ("Part 'words': every pair of values of 8-bit words is enumerated and 16/32/64-bit ones are generated around all boundaries; part 'times': timestamps and FILETIMEs over the whole range against exact "
        "rational arithmetic; part 'errors': Windows codes 0..70000 enumerated and random 32-bit ones against the table of the C runtime. Non-trivial: any in-range value.")
ASSUMPTIONS = ["Windows error 232 (added later to the C runtime's table) is not judged."]

EPOCH = 116444736000000000  # 1601-01-01 to 1970-01-01, in 100 ns ticks
assert EPOCH == (369 * 365 + 89) * 86400 * 10 ** 7


def utils():
    rsfile()
    from rsfile.rsbackend import _utilities

    return _utilities


def near(bits):
    lim = 2 ** bits
    return st.weighted((3, st.integers(0, lim - 1)), (2, st.integers(0, 20)), (2, st.integers(0, 20).map(lambda x: lim - 1 - x)), (2, st.integers(0, 20).map(lambda x: lim // 2 - 10 + x)),
                       (1, st.integers(0, bits - 1).map(lambda x: 2 ** x)), (1, st.integers(0, bits - 1).map(lambda x: 2 ** x - 1)))


@st.composite
def words_strategy(draw):
    size = draw(st.sampled_from([32, 32, 32, 16, 64, 8]))
    return (size, draw(near(size)), draw(near(size)), draw(near(2 * size)), draw(st.integers(1, 2 ** 40)))


def words_enum(tier):
    return [(8, a, b, a * 256 + b, 1 + a) for a in range(256) for b in range(256)] if tier == "thorough" else [(8, a, b, a * 256 + b, 1 + a) for a in range(256) for b in range(a % 7, 256, 7)]


CT = {8: (ctypes.c_int8, ctypes.c_uint8), 16: (ctypes.c_int16, ctypes.c_uint16), 32: (ctypes.c_int32, ctypes.c_uint32), 64: (ctypes.c_int64, ctypes.c_uint64)}


def words_run(case, env):
    size, low, high, whole, neg = case
    u = utils()
    kw = {} if size == 32 else dict(dwordsize=size)
    wkw = {} if size == 32 else dict(wordsize=size)
    lim = 2 ** size
    r = u.pyint_to_double_dwords(whole, **kw)
    if tuple(r) != (whole % lim, whole // lim):
        raise Violation("split", "pyint_to_double_dwords(%d, %r) = %r" % (whole, kw, r))
    if u.double_dwords_to_pyint(*r, **kw) != whole:
        raise Violation("recombine", "%d -> %r -> %r" % (whole, r, u.double_dwords_to_pyint(*r, **kw)))
    v = u.double_dwords_to_pyint(low, high, **kw)
    if v != low + high * lim:
        raise Violation("recombine", "double_dwords_to_pyint(%d, %d, %r) = %r" % (low, high, kw, v))
    if tuple(u.pyint_to_double_dwords(v, **kw)) != (low, high):
        raise Violation("split", "(%d, %d) -> %d -> %r" % (low, high, v, u.pyint_to_double_dwords(v, **kw)))
    for a, b in ((low - lim, high), (low, high - lim), (low - lim, high - lim)):  # the words may be signed integers
        v = u.double_dwords_to_pyint(a, b, **kw)
        if v != a + b * lim:
            raise Violation("recombine", "double_dwords_to_pyint(%d, %d, %r) = %r" % (a, b, kw, v))
    e = call(u.pyint_to_double_dwords, -neg, **kw)
    if not isinstance(e, Raised) or "ValueError" not in e.families:
        raise Violation("negative", "pyint_to_double_dwords(%d) gave %r" % (-neg, e))
    signed, unsigned = CT[size]
    s = u.unsigned_to_signed(low, **wkw)
    if s != signed(low).value:
        raise Violation("sign", "unsigned_to_signed(%d, %r) = %r" % (low, wkw, s))
    if u.signed_to_unsigned(s, **wkw) != low:
        raise Violation("sign", "signed_to_unsigned(%d, %r) = %r" % (s, wkw, u.signed_to_unsigned(s, **wkw)))
    s2 = signed(high).value
    if u.signed_to_unsigned(s2, **wkw) != unsigned(s2).value or u.unsigned_to_signed(u.signed_to_unsigned(s2, **wkw), **wkw) != s2:
        raise Violation("sign", "signed value %d isn't preserved" % s2)
    for val in r:
        if not 0 <= val < lim:
            raise Violation("range", "word %r out of range" % val)
    env.nontrivial = True
    env.steps += 1


@st.composite
def times_strategy(draw):
    ticks = draw(st.one_of(near(63), near(32), st.integers(EPOCH - 10 ** 9, EPOCH + 10 ** 9), st.integers(EPOCH, EPOCH + 4 * 10 ** 16), st.just(EPOCH), st.just(0)))
    sec = draw(st.one_of(st.integers(-11644473600, 0), st.integers(0, 2 ** 33), st.integers(0, 200000000000), st.sampled_from([0, 1, -1, -11644473600, 2 ** 31, 2 ** 31 - 1, 2 ** 32])))
    frac = draw(st.one_of(st.integers(0, 10 ** 7 - 1).map(lambda x: x / 1e7), st.integers(0, 10 ** 9).map(lambda x: x / 1e9), st.just(0.0), st.just(0.5), st.just(0.1)))
    return (ticks, sec, frac, draw(st.one_of(st.integers(0, 3), near(62))), draw(st.one_of(st.integers(0, 10), st.integers(0, 10 ** 10))))


def times_run(case, env):
    u = utils()
    ticks, sec, frac, delta, dsec = case
    to_t = lambda v: u.win32_filetime_to_python_timestamp(v & 0xFFFFFFFF, v >> 32)

    def to_v(t):
        low, high = u.python_timestamp_to_win32_filetime(t)
        if not (0 <= low < 2 ** 32 and 0 <= high < 2 ** 32):
            raise Violation("range", "FILETIME (%r, %r) of timestamp %r" % (low, high, t))
        return low + (high << 32)

    # FILETIME -> timestamp: correctly rounded but for a few units in the last place
    t = to_t(ticks)
    exact = Fraction(ticks - EPOCH, 10 ** 7)
    if abs(Fraction(t) - exact) > 4 * Fraction(math.ulp(t)):
        raise Violation("to-timestamp", "FILETIME %d is %r instead of %r" % (ticks, t, float(exact)))
    # and back
    back = to_v(t)
    tolerance = 1 + 4 * Fraction(math.ulp(t)) * 10 ** 7 + 2 * Fraction(math.ulp(float(ticks)))
    if abs(back - ticks) > tolerance:
        raise Violation("round-trip", "FILETIME %d -> %r -> %d" % (ticks, t, back))
    # timestamp -> FILETIME
    for x in (sec, sec + frac):
        if x < -11644473600:
            continue
        v = to_v(x)
        exact = Fraction(x) * 10 ** 7 + EPOCH
        tol = 1 + (0 if isinstance(x, int) else 2 * Fraction(math.ulp(float(exact))) + 4 * Fraction(math.ulp(x)) * 10 ** 7)
        if isinstance(x, int) and abs(v - exact) >= 1 or abs(v - exact) > tol:
            raise Violation("to-filetime", "timestamp %r is FILETIME %d instead of %d" % (x, v, exact))
        y = to_t(v)
        if abs(Fraction(y) - Fraction(x)) > tol / 10 ** 7 + 4 * Fraction(math.ulp(float(y))):
            raise Violation("round-trip", "timestamp %r -> %d -> %r" % (x, v, y))
        if to_v(x + dsec) < v:
            raise Violation("monotonic", "timestamps %r and %r" % (x, x + dsec))
    if ticks + delta < 2 ** 63 and to_t(ticks + delta) < t:
        raise Violation("monotonic", "FILETIMEs %d and %d" % (ticks, ticks + delta))
    env.nontrivial = True
    env.steps += 1


MAP = {2: [2, 3, 15, 18, 53, 67, 161, 206], 7: [10], 8: [11] + list(range(188, 203)), 9: [6, 114, 130], 10: [128, 129], 11: [89, 164, 215], 12: [7, 8, 9, 1816],
       13: [5, 16] + list(range(19, 37)) + [65, 82, 83, 108, 132, 158, 167], 17: [80, 183], 18: [17], 24: [4], 28: [112], 32: [109], 41: [145]}
ERRORS = {w: e for e, ws in MAP.items() for w in ws}


def errors_run(case, env):
    u = utils()
    for code in range(case[0], case[1]):
        if code == 232:
            continue
        r = u.winerror_to_errno(code)
        if r != ERRORS.get(code, 22) or type(r) is not int:
            raise Violation("errno", "Windows error %d is mapped to %r instead of %d" % (code, r, ERRORS.get(code, 22)))
    env.nontrivial = True
    env.steps += case[1] - case[0]


@st.composite
def errors_strategy(draw):
    a = draw(st.one_of(near(32), st.integers(-2 ** 31, 0)))
    return (a, a + 5)


PARTS = [Part("words", words_strategy, words_run, quick=75000, thorough=2000000, enumerate_cases=words_enum),
         Part("times", times_strategy, times_run, quick=60000, thorough=1500000),
         Part("errors", errors_strategy, errors_run, quick=7500, thorough=200000, enumerate_cases=lambda tier: [(a, a + 50) for a in range(-500, 70000, 50)])]
