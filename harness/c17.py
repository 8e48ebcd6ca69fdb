"""C17: unique_id() identifies files (model of a namespace with hard links, symlinks, renames, deletions)."""
import os

import gen as st
import syscalls
from core import Part, Violation
from streams import Raised, call, rsfile

syscalls.install()

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "property-based testing, stateful: generated namespace/open/close histories against a model mapping names to abstract files"
RULE = ("Cases are histories of file creations, links, symlinks, renames, deletions, opens (by path, bytes path, descriptor, duplicated descriptor) and closes, in directories of "
        "two filesystems; part 'virtual' also remaps device and inode numbers (collisions, 64-bit values) under the code. After each step all live streams are "
        "compared pairwise. Non-trivial: at least 3 streams opened, with one equal pair and one distinct pair.")
ASSUMPTIONS = ["Virtual device/inode numbers are injected through os.fstat()."]

NAMES = ["a", "b", "c", "d", "e", "s/a", "s/b", "o/a", "o/b"]


def ops():
    t, j = st.tuples, st.just
    n = st.sampled_from(NAMES)
    return st.lists(st.weighted(
        (3, t(j("create"), n)), (3, t(j("link"), n, n)), (2, t(j("symlink"), n, n)), (3, t(j("rename"), n, n)), (3, t(j("unlink"), n)),
        (9, t(j("open"), n, st.sampled_from(["R", "RW", "W", "RA", "RWE", "A"]), st.sampled_from(["raw", "buffered", "text"]), st.booleans(), st.booleans(),
             st.sampled_from(["str", "str", "bytes", "fd", "dup", "opener"]))),
        (3, t(j("close"), st.integers(0, 9))), (2, t(j("write"), st.integers(0, 9))), (1, t(j("truncate"), st.integers(0, 9))), (1, t(j("gc")))), 3, 30)


OPS = ops()


@st.composite
def strategy(draw):
    return (None, draw(OPS))


@st.composite
def virtual_strategy(draw):
    big = [1, 2, 3, 0, (1 << 32), (1 << 32) + 1, (1 << 63) + 1, (1 << 64) - 1]
    pool = st.lists(st.tuples(st.sampled_from(big[:5] + [(1 << 63)]), st.sampled_from(big)), 12, 12)
    return (draw(pool), draw(OPS))


class ModelFile(object):
    pass


def run(case, env):
    virt, oplist = case
    rs = rsfile()
    roots = {"": env.dir, "s": os.path.join(env.dir, "s"), "o": None}
    os.mkdir(roots["s"])
    other = [b for b in ("/tmp", "/var/tmp", "/dev/shm") if os.path.isdir(b) and os.access(b, os.W_OK) and os.stat(b).st_dev != os.stat(env.dir).st_dev]
    import shutil
    import tempfile
    if other:
        o = tempfile.mkdtemp(prefix="rsverif", dir=other[0])
        env.defer(shutil.rmtree, o, True)
    else:
        o = os.path.join(env.dir, "o")
        os.mkdir(o)
    roots["o"] = o

    def P(name):
        d, _, n = name.rpartition("/")
        return os.path.join(roots[d], n)

    names = {}  # name -> ModelFile or ("sym", target name)

    def resolve(name):
        for _ in range(10):
            v = names.get(name)
            if isinstance(v, tuple):
                name = v[1]
            else:
                return name, v
        return None, None

    mapping, pool = {}, []
    if virt:
        seen = set()
        for v in virt:  # distinct pairs
            while v in seen:
                v = (v[0], v[1] + 1)
            seen.add(v)
            pool.append(v)

    def after(name, args, res, exc):
        pass

    def before(name, args):
        if name == "fstat" and pool:
            r = syscalls.REAL["fstat"](*args)
            key = (r.st_dev, r.st_ino)
            if key in mapping:
                v = mapping[key]
                lst = list(r)
                lst[1], lst[2] = v[1], v[0]
                return syscalls.Override(os.stat_result(lst, dict(st_blksize=r.st_blksize, st_blocks=r.st_blocks, st_rdev=r.st_rdev, st_atime=r.st_atime, st_mtime=r.st_mtime,
                                                                  st_ctime=r.st_ctime, st_atime_ns=r.st_atime_ns, st_mtime_ns=r.st_mtime_ns, st_ctime_ns=r.st_ctime_ns)))

    def adopt(path, reuse_model):
        if virt:
            r = os.stat(path)
            key = (r.st_dev, r.st_ino)
            if key not in mapping or not reuse_model:
                if not pool_left:
                    return False
                mapping[key] = pool_left.pop(0)
        return True

    pool_left = list(pool)
    live = []  # (stream, model file, uid)
    opened = eq = neq = 0

    def used(mf):
        return any(m is mf for _, m, _ in live) or any(v is mf for v in names.values())

    with syscalls.hooks(before if virt else None):
        for op in oplist:
            env.steps += 1
            k = op[0]
            if k == "create":
                n = op[1]
                if n in names:
                    continue
                if virt and not pool_left:
                    continue
                fd = syscalls.REAL["open"](P(n), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
                syscalls.REAL["close"](fd)
                names[n] = ModelFile()
                adopt(P(n), False)
            elif k == "link":
                src, mf = resolve(op[1])
                if mf is None or op[2] in names:
                    continue
                try:
                    os.link(P(src), P(op[2]))
                except OSError:
                    continue
                names[op[2]] = mf
            elif k == "symlink":
                if op[2] in names or op[1] == op[2]:
                    continue
                os.symlink(P(op[1]), P(op[2]))
                names[op[2]] = ("sym", op[1])
            elif k == "rename":
                if op[1] not in names or op[1] == op[2]:
                    continue
                a, b = names[op[1]], names.get(op[2])
                if a is b and a is not None and not isinstance(a, tuple):
                    continue
                try:
                    os.rename(P(op[1]), P(op[2]))
                except OSError:
                    continue
                del names[op[1]]
                names[op[2]] = a
            elif k == "unlink":
                if op[1] not in names:
                    continue
                os.unlink(P(op[1]))
                del names[op[1]]
            elif k == "open":
                _, n, mode, layer, ts, locking, how = op
                final, mf = resolve(n)
                if final is None or len(live) > 11:
                    continue
                if mf is None:
                    if "N" in mode or mode == "R" and how in ("fd", "dup") or virt:
                        continue
                kw = dict(thread_safe=ts, locking=False)
                if layer == "raw":
                    kw["buffering"] = 0
                mode += "T" if layer == "text" else "B"
                path = P(n)
                if how == "bytes":
                    path = os.fsencode(path)
                if how in ("fd", "dup", "opener"):
                    fl = os.O_CREAT | (os.O_RDWR if "R" in mode and ("W" in mode or "A" in mode) else os.O_RDONLY if mode[0] == "R" else os.O_WRONLY)
                    if how == "opener":
                        f = call(rs.rsopen, path, mode, opener=lambda p, flags: os.open(p, flags), **kw)
                    else:
                        fd = os.open(path, fl)
                        if how == "dup":
                            fd2 = os.dup(fd)
                            os.close(fd)
                            fd = fd2
                        f = call(rs.rsopen, mode=mode, fileno=fd, **kw)
                else:
                    f = call(rs.rsopen, path, mode, **kw)
                if isinstance(f, Raised):
                    raise Violation("open", "opening %r failed: %r" % (op, f))
                env.defer(f.close)
                if mf is None:
                    mf = names[final] = ModelFile()
                opened += 1
                env.label("how:" + how)
                live.append((f, mf, f.unique_id()))
            elif k == "close":
                if live:
                    f, mf, uid = live.pop(op[1] % len(live))
                    f.close()
                    r = call(f.unique_id)
                    if not isinstance(r, Raised) or "ValueError" not in r.families:
                        raise Violation("closed", "unique_id() on a closed stream gave %r" % (r,))
            elif k == "write" and live:
                f, mf, uid = live[op[1] % len(live)]
                if f.writable():
                    call(f.write, "x" if hasattr(f, "encoding") else b"x")
            elif k == "truncate" and live:
                f, mf, uid = live[op[1] % len(live)]
                if f.writable():
                    call(f.truncate, 0)
            ids = []
            for f, mf, uid in live:
                u = f.unique_id()
                if u != uid:
                    raise Violation("unstable", "unique_id() changed from %r to %r after %r" % (uid, u, op))
                if f.uid() != u:
                    raise Violation("unstable", "uid() differs from unique_id()")
                hash(u)
                ids.append(u)
            for i in range(len(live)):
                for j in range(i):
                    same = live[i][1] is live[j][1]
                    if same != (ids[i] == ids[j]):
                        raise Violation("identity", "streams on %s have unique_id %r and %r after %r" % ("the same file" if same else "different files", ids[i], ids[j], op))
                    if same:
                        eq += 1
                    else:
                        neq += 1
        for f, mf, uid in live:
            f.close()
    env.nontrivial = opened >= 3 and eq > 0 and neq > 0


PARTS = [Part("namespace", strategy, run, quick=27000, thorough=200000),
         Part("virtual", virtual_strategy, run, quick=15000, thorough=100000)]
