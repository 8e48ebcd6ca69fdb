"""C06: inter-process view of the locks."""
import gen as st
from core import Part, Violation
from lockworld import Executor, World, history, make_files
from procs import Remote, lockmap_fd, normalise
from streams import Raised, rsfile
import os

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "model-based testing: multi-process lock histories against a range-lock model and the kernel lock table probed from another process"
RULE = ("Histories of open/dup/lock/unlock/seek/write/close operations over 1 to 3 forked processes, 4 stream slots each, 2 files with hard links and "
        "symlinks; after every operation the kernel lock map of each file, seen from another process, must equal the union of the modelled locks. "
        "Non-trivial: some lock released while another lock is held on the same file, or a conflict between two processes.")
ASSUMPTIONS = ["The observing process never opens the files from within a lock-holding process, and the kernel's F_GETLK is trusted."]

HIST = {n: history(n, nslots=4, nfiles=2, max_ops=25) for n in (1, 2, 3)}


@st.composite
def strategy(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    return (n, draw(HIST[n]))


def run(case, env):
    n, ops = case
    rsfile()
    files = make_files(env.dir)
    workers = []
    for _ in range(n):
        w = Remote(Executor)
        env.defer(w.kill)
        workers.append(w)
    probes = [os.open(f[0], os.O_RDWR) for f in files]
    for fd in probes:
        env.defer(os.close, fd)

    w = World(lambda p, req: workers[p].call(req), files, env)
    interesting = False

    def check():
        for i, fd in enumerate(probes):
            got, want = lockmap_fd(fd), normalise(w.m.file_map(i))
            if got != want:
                held = [(l[0], l[1][1], "s" if l[3] else "x", l[4], l[5]) for l in w.m.locks if l[2] == i]
                lost = "lost" if len(got) < len(want) or not got else "map"
                w.fail("kernel-map", "file %d: other processes see locks %r, but held locks are %r (process, slot, kind, start, end)" % (i, got, held))

    for op in ops:
        before = len(w.m.locks)
        w.step(op)
        check()
        if len(w.m.locks) < before and w.m.locks:
            interesting = True
    s = w.m.stats
    env.nontrivial = interesting or s["conflicts"] > 0
    env.label("procs:%d" % n)
    for k, v in s.items():
        if v:
            env.label(k)
    if interesting:
        env.label("release-while-held")
    w.close_all()
    check()


PARTS = [Part("history", strategy, run, quick=5000, thorough=150000)]
