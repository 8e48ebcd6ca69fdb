"""C05: intra-process lock model."""
import gc

import gen as st
from core import Part, Violation
from lockworld import Executor, World, history, make_files
from procs import lockmap, start_prober
from streams import rsfile

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "model-based testing: generated lock/unlock/close histories in one process against a reference model of range locks"
RULE = ("Histories of open/dup/lock/unlock/seek/write/close operations over 4 stream slots and 2 files (opened through path, hard link, symlink, "
        "dup'ed descriptor) in one process; each outcome is compared with a range-lock model. Non-trivial: at least one granted lock and one "
        "refused conflict or one pair of overlapping shared locks.")
ASSUMPTIONS = ["When a request overlaps both a lock of the same handle and a conflicting one of another handle, RuntimeError and LockingException are both accepted.",
               "Unlocking a range of a file on which the process holds no lock at all is left unspecified (None or RuntimeError)."]


@st.composite
def strategy(draw):
    return draw(HIST)


HIST = history(1, nslots=5, nfiles=2, max_ops=30)


def run(case, env):
    files = make_files(env.dir)
    ex = Executor()
    env.defer(lambda: [f.close() for f in ex.s.values()])
    w = World(lambda p, req: ex(req), files, env)
    for op in case:
        w.step(op)
    s = w.m.stats
    env.nontrivial = s["granted"] > 0 and (s["conflicts"] > 0 or s["shared_pairs"] > 0)
    for k, v in s.items():
        if v:
            env.label(k)
    w.close_all()
    for f in range(2):
        m = lockmap(files[f][0])
        if m:
            raise Violation("residue", "locks left after closing everything: %r" % m)


PARTS = [Part("history", strategy, run, quick=24000, thorough=600000, setup=start_prober)]
