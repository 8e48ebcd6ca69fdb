"""C33: global options."""
import fcntl
import os
import threading
import time

import gen as st
from core import Part, Violation
from procs import Remote
from streams import Raised, call, rsfile, short

ID = "C33"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated histories of option changes (valid, partly invalid, through several threads) against a dictionary model, each followed by contended lock requests whose errors and durations must agree with the options in force"
RULE = ("Cases are sequences of set_rsfile_options() calls (known and unknown names mixed, any order), get_rsfile_options() calls whose result is tampered with, and lock requests of new streams (lock_file, rsopen, utilities; "
        "against another process or another stream; with or without their own timeout). Non-trivial: a refused change, or a request failing because of an option.")
ASSUMPTIONS = ["Only streams created after an option change are checked.", "A machine slower than 5 s for a request would be reported."]

DEFAULTS = dict(enforced_locking_timeout_value=None, default_spinlock_delay=0.1)
UNKNOWN = ["max_input_load_bytes", "timeout", "enforced_locking_timeout", "ENFORCED_LOCKING_TIMEOUT_VALUE", "", "mutex", "default_spinlock_delay_", "__class__"]


@st.composite
def strategy(draw):
    t, j = st.tuples, st.just
    item = st.one_of(t(j("enforced_locking_timeout_value"), st.sampled_from([None, 0, 0.0, 0.02, 0.05, 1])), t(j("default_spinlock_delay"), st.sampled_from([0.001, 0.01, 0.03, 0])),
                     t(st.sampled_from(UNKNOWN), st.sampled_from([None, 1])))
    known = st.one_of(t(j("enforced_locking_timeout_value"), st.sampled_from([None, 0, 0.0, 0.02, 0.05])), t(j("default_spinlock_delay"), st.sampled_from([0.001, 0.01, 0.03, 0])))
    op = st.weighted((3, t(j("set"), st.lists(item, 0, 4), st.booleans())), (4, t(j("set"), st.lists(known, 1, 2), st.booleans())), (2, t(j("get"), st.sampled_from(["default_spinlock_delay", "new", "enforced_locking_timeout_value"]))),
                     (4, t(j("lock"), st.sampled_from(["lock_file", "rsopen", "read_from_file", "write_to_file", "append_to_file"]), st.sampled_from(["raw", "buffered", "text"]), st.sampled_from(["process", "stream"]),
                           st.sampled_from([None, None, 0, 0.03]))))
    return draw(st.lists(op, 2, 9))


def _holder():
    held = []

    def handle(path):
        if path is None:
            os.close(held.pop())
        else:
            held.append(os.open(path, os.O_RDWR))
            fcntl.lockf(held[-1], fcntl.LOCK_EX)

    return handle


_remote = None


def setup():
    global _remote
    if _remote is None:
        _remote = Remote(_holder)


def run(case, env):
    rs = rsfile()
    setup()
    rs.set_rsfile_options(**DEFAULTS)
    env.defer(lambda: rs.set_rsfile_options(**DEFAULTS))
    model = dict(DEFAULTS)
    path = env.path("f")
    with open(path, "wb") as g:
        g.write(b"content")

    def check(where):
        got = rs.get_rsfile_options()
        if got != model or any(type(got[k]) is not type(model[k]) for k in got):
            raise Violation("value", "%s the options are %r instead of %r" % (where, got, model))

    check("initially")
    for op in case:
        env.steps += 1
        if op[0] == "set":
            opts = dict(op[1])

            if op[2]:  # from another thread: options are global
                out = []
                th = threading.Thread(target=lambda: out.append(call(rs.set_rsfile_options, **opts)))
                th.start()
                th.join()
                r = out[0]
            else:
                r = call(rs.set_rsfile_options, **opts)
            if set(opts) <= set(DEFAULTS):
                if isinstance(r, Raised):
                    raise Violation("refused", "set_rsfile_options(**%r) raised %r" % (opts, r))
                model.update(opts)
            else:
                if not isinstance(r, Raised) or "ValueError" not in r.families:
                    raise Violation("accepted", "set_rsfile_options(**%r) gave %r instead of ValueError" % (opts, r))
                env.nontrivial = True
            check("after set_rsfile_options(**%r)" % opts)
        elif op[0] == "get":
            d = rs.get_rsfile_options()
            d[op[1]] = 12345
            check("after the modification of a dictionary given by get_rsfile_options(),")
        else:
            api, layer, holder, timeout = op[1:]
            enforced, spin = model["enforced_locking_timeout_value"], model["default_spinlock_delay"]
            if timeout is None and (enforced is None or enforced > 0.5):
                continue
            f = other = None
            text = layer == "text"
            kw = {} if layer != "raw" else dict(buffering=0)
            try:
                if api == "lock_file":
                    f = rs.rsopen(path, "RW" + ("T" if text else "B"), locking=False, **kw)
                if holder == "process":
                    _remote.call(path)
                else:
                    other = rs.rsopen(path, "RWB", buffering=0, timeout=0)
                t0 = time.monotonic()
                if api == "lock_file":
                    r = call(f.lock_file, timeout=timeout)
                elif api == "rsopen":
                    r = call(rs.rsopen, path, "RW" + ("T" if text else "B"), timeout=timeout, **kw)
                elif api == "read_from_file":
                    r = call(rs.read_from_file, path, not text, timeout=timeout, **kw)
                else:
                    r = call(getattr(rs, api), path, "data" if text else b"data", timeout=timeout, **kw)
                elapsed = time.monotonic() - t0
            finally:
                if f is not None:
                    f.close()
                if other is not None:
                    other.close()
                elif holder == "process":
                    _remote.call(None)
            what = "%s (%s) of a file locked by another %s, timeout %r, options %r" % (api, layer, holder, timeout, model)
            if not isinstance(r, Raised):
                raise Violation("granted", "%s: gave %r" % (what, r))
            limit = enforced if timeout is None else timeout
            if timeout is None:
                ok = r.text.startswith("RuntimeError") and "OSError" not in r.families
            else:
                ok = r.text.startswith("LockingException") and "OSError" in r.families
            if not ok:
                raise Violation("error", "%s: raised %r" % (what, r))
            if elapsed < limit - 0.005:
                raise Violation("early", "%s: failed after %.4f s" % (what, elapsed))
            if elapsed > limit + spin + 5:
                raise Violation("late", "%s: failed after %.4f s" % (what, elapsed))
            env.nontrivial = True
            env.label("api:" + api, "own-timeout:%s" % (timeout is not None))


PARTS = [Part("options", strategy, run, quick=3000, thorough=60000, setup=setup)]
