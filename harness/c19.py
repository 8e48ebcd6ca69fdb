"""C19: concurrent locked utilities behave as if executed one at a time (generated programs for threads and processes)."""
import os
import pickle
import signal
import sys
import threading
import time
import traceback

import gen as st
from core import HarnessError, Part, Violation, set_pdeathsig
from streams import rsfile

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "property-based testing: generated concurrent programs of utility calls, judged by necessary conditions of linearizability over timestamped self-describing payloads"
RULE = ("Cases are (initial file state, programs of several threads in several forked processes, payload sizes, buffer sizes, text (with encodings emitting a signature or not) or binary, flags, thread switch interval); every value read "
        "and the final content must parse into whole payloads and be explained by an order compatible with the calls' start/end times. Non-trivial: at least 2 writers overlapping in time "
        "with a reader or another writer in another thread or process.")
ASSUMPTIONS = ["A new file appears empty before its creator locks it: calls which require an existing file may meanwhile succeed on it, the creator then fails if data were written.",
               "CLOCK_MONOTONIC is common to all processes.", "Schedules are those the machine produces (with small switch intervals), they are not enumerated."]


@st.composite
def strategy(draw):
    sizes = st.sampled_from([0, 1, 10, 100, 3000, 9000, 20000])
    bufs = st.sampled_from([None, None, 16, 500, 0, 8192])
    patience = st.sampled_from([None, None, None, None, 0, 0.005])
    op = st.weighted((2, st.tuples(st.sampled_from(["w", "w", "c", "c", "wn"]), sizes, bufs, patience)), (1, st.tuples(st.just("an"), sizes, bufs, patience)), (4, st.tuples(st.just("a"), sizes, bufs, patience)), (4, st.tuples(st.just("r"), st.just(0), bufs, patience)))
    prog = st.lists(op, 1, 6)
    nproc = draw(st.sampled_from([1, 2, 2, 3]))
    progs = [[draw(prog) for _ in range(draw(st.sampled_from([1, 2, 2, 3])))] for _ in range(nproc)]
    return (draw(st.sampled_from(["missing", "missing", "present", "present"])), draw(st.sampled_from([True, True, False, "utf-16", "utf-8-sig"])), draw(st.sampled_from([1e-6, 1e-5, 0.005])), draw(st.booleans()),
            draw(st.sampled_from([None, None, 30])), progs)


def payload(ident, size):
    kind, p, t, k = ident
    head = "<%s.%d.%d.%d:%d|" % (kind, p, t, k, size)
    body = ("%s%d%d%d-" % (kind, p, t, k)) * (size // 5 + 1)
    return head + body[:size] + ">"


def parse(text):
    """-> list of idents, or None if anything is torn or mixed."""
    out, i = [], 0
    while i < len(text):
        j = text.find("|", i, i + 60)
        if text[i] != "<" or j < 0:
            return None
        try:
            ident, size = text[i + 1:j].split(":")
            kind, p, t, k = ident.split(".")
            ident = (kind, int(p), int(t), int(k))
            size = int(size)
        except ValueError:
            return None
        p = payload(ident, size)
        if text[i:i + len(p)] != p:
            return None
        out.append(ident)
        i += len(p)
    return out


def codec(binary):
    return binary if isinstance(binary, str) else "ascii"


def worker(rs, path, p, t, prog, binary, timeout, go, log):
    go.wait()
    encoding, binary = codec(binary), binary is True
    for k, (kind, size, buf, patience) in enumerate(prog):
        ident = (kind, p, t, k)  # w: write, c: write with must_create, a: append, *n: with must_not_create, r: read
        if buf == 0 and not binary:
            buf = None
        kw = {} if binary else dict(encoding=encoding)
        kw.update(buffering=buf, timeout=timeout if patience is None else patience)
        data = payload(ident, size)
        if binary:
            data = data.encode("ascii")
        t0 = time.monotonic()
        try:
            if kind[0] in "wc":
                rs.write_to_file(path, data, must_create=kind == "c", must_not_create=kind == "wn", **kw)
                res = None
            elif kind[0] == "a":
                rs.append_to_file(path, data, must_not_create=kind == "an", **kw)
                res = None
            else:
                res = rs.read_from_file(path, binary=binary, **kw)
                if binary:
                    res = res.decode("latin-1")
        except FileNotFoundError:
            res = ("missing",)
        except FileExistsError:
            res = ("exists",)
        except rs.LockingException:
            res = ("locked", traceback.format_exc()[-800:]) if patience is None else ("refused",)
        except Exception:
            res = ("error", traceback.format_exc()[-1500:])
        log.append((ident, t0, time.monotonic(), res))


def run(case, env):
    state, binary, interval, barrier, timeout, progs = case
    rs = rsfile()
    path = env.path("f")
    init = ("w", 99, 0, 0)
    if state == "present":
        with open(path, "w", encoding=codec(binary)) as f:
            f.write(payload(init, 5000))
    r_go, w_go = os.pipe()
    children = []
    for p, threads in enumerate(progs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                set_pdeathsig()
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.close(w_go)
                sys.setswitchinterval(interval)
                go, log = threading.Event(), []
                ths = [threading.Thread(target=worker, args=(rs, path, p, t, prog, binary, timeout, go, log), daemon=True) for t, prog in enumerate(threads)]
                for th in ths:
                    th.start()
                os.read(r_go, 1)
                go.set()
                for th in ths:
                    th.join()
                data = pickle.dumps(log)
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        children.append((pid, r))
    os.close(r_go)
    os.close(w_go)  # go!
    log = []
    try:
        for pid, r in children:
            data = b""
            while True:
                c = os.read(r, 1 << 20)
                if not c:
                    break
                data += c
            log += pickle.loads(data) if data else []
    finally:
        for pid, r in children:
            os.close(r)
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
    if len(log) != sum(len(prog) for threads in progs for prog in threads):
        raise HarnessError("worker process died: %d results" % len(log))
    env.steps += len(log)
    span = {i: (t0, t1) for i, t0, t1, _ in log}
    if state == "present":
        span[init] = (-2, -1)
    for i, t0, t1, res in log:
        if isinstance(res, tuple) and res[0] in ("error", "locked"):
            raise Violation("error", "%r failed: %s" % (i, res[1]))
        if res == ("missing",) and (i[0] not in ("r", "wn", "an") or state == "present"):
            raise Violation("error", "%r didn't find the file" % (i,))
        if res == ("missing",) and any(o[0][0] in ("w", "c", "a") and o[3] is None and o[2] < t0 for o in log):
            raise Violation("error", "%r didn't find the file, already created" % (i,))
        if res == ("exists",) and (i[0] != "c" or state == "missing" and not any(o[0] != i and o[0][0] != "r" and o[1] < t1 for o in log)):
            raise Violation("error", "%r found a file which nobody created" % (i,))
        if i[0] == "c" and res is None and (state == "present" or any(o[0] != i and o[3] is None and o[0][0] != "r" and (o[2] < t0 or o[0][0] == "c") for o in log)):
            raise Violation("created-twice", "%r succeeded although the file already existed" % (i,))
        if i[0][0] in "wca" and isinstance(res, tuple):
            env.label("%s:%s" % (i[0], res[0]))
    refused = [x for x in log if x[3] == ("refused",)]
    for i, t0, t1, _ in refused:
        env.label("refused:" + i[0])
        if not any(o[0] != i and o[1] < t1 and o[2] > t0 and (i[0] != "r" or o[0][0] != "r") for o in log):
            raise Violation("refused", "%r was refused although no conflicting call was in progress" % (i,))
    for i, t0, t1, res in log:
        if i[0] != "r" and res is not None:
            del span[i]  # its data must not be found anywhere
    log = [x for x in log if x[3] is None or x[0][0] == "r" and x[3] != ("refused",)]
    writes = [i for i in span if i[0][0] in "wc"]
    appends = [i for i in span if i[0][0] == "a"]

    def explain(text, start, end, what):
        if text is None:  # missing file
            for i in writes + appends:
                if span[i][1] < start:
                    raise Violation("stale", "%s: no file although %r was complete" % (what, i))
            return
        seq = parse(text)
        if seq is None:
            raise Violation("torn", "%s: torn or mixed content %r... (%d characters)" % (what, text[:300], len(text)))
        if len(set(seq)) != len(seq):
            raise Violation("duplicate", "%s: duplicated payloads in %r" % (what, seq))
        if any(i not in span for i in seq):
            raise Violation("torn", "%s: unknown payload in %r" % (what, seq))
        base = None
        if seq and seq[0][0][0] in "wc":
            base, tail = seq[0], seq[1:]
        else:
            tail = seq
            if seq and any(c[0] == "c" for c in writes):
                raise Violation("order", "%s: %r without the data of the call which created the file" % (what, seq))
            if state == "present":
                raise Violation("torn", "%s: content without its first payload %r" % (what, seq))
        if any(i[0][0] != "a" for i in tail):
            raise Violation("torn", "%s: written payload in the middle of %r" % (what, seq))
        bspan = span[base] if base else (-4, -3)
        for i in seq:
            if span[i][0] > end:
                raise Violation("order", "%s: contains %r, which started later" % (what, i))
        for w in writes:
            if w != base and w != init and span[w][1] < start and bspan[1] < span[w][0]:
                raise Violation("stale", "%s: based on %r although %r came after it" % (what, base, w))
        for a in appends:
            if a in tail:
                if span[a][1] < bspan[0]:
                    raise Violation("order", "%s: %r survived the later %r" % (what, a, base))
            elif span[a][1] < start and bspan[1] < span[a][0]:
                raise Violation("lost", "%s: %r lost (based on %r)" % (what, a, base))
        for x in range(len(tail)):
            for y in range(x):
                if span[tail[x]][1] < span[tail[y]][0]:
                    raise Violation("order", "%s: %r before %r" % (what, tail[y], tail[x]))

    for i, t0, t1, res in log:
        if i[0] == "r":
            explain(None if isinstance(res, tuple) else res, t0, t1, "value read by %r" % (i,))
    final = None
    if os.path.exists(path):
        with open(path, "rb") as f:
            final = f.read().decode(codec(binary), "replace")
    explain(final, 1e18, 1e19, "final content")
    over = 0
    for a in log:
        for b in log:
            if a[0][0][0] in "wca" and a[0][1:3] != b[0][1:3] and a[1] < b[2] and b[1] < a[2]:
                over += 1
    env.nontrivial = over >= 2
    env.label("procs:%d" % len(progs))


PARTS = [Part("programs", strategy, run, quick=1400, thorough=60000, hang=60, deterministic=False)]
