"""Interposition on the os/fcntl functions, installed before rsfile gets imported (it binds them at import).

S.before(name, args) may return a replacement value wrapped in Override, or raise; S.after(name, args, result, exc) observes.
"""
import fcntl
import functools
import os
import sys
import threading

OS_NAMES = ["open", "close", "read", "write", "lseek", "ftruncate", "fsync", "fdatasync", "fstat", "pread", "pwrite", "readv", "writev", "preadv", "pwritev",
            "truncate", "posix_fallocate", "sync", "dup", "dup2", "lockf", "set_inheritable", "isatty", "set_blocking", "readinto", "sendfile", "copy_file_range"]
FCNTL_NAMES = ["lockf", "fcntl", "flock", "ioctl"]


class Override(object):
    def __init__(self, value):
        self.value = value


class _S(object):
    before = None
    after = None
    installed = False


S = _S()
REAL = {}


def _wrap(name, real):
    @functools.wraps(real)
    def f(*args, **kw):
        b = S.before
        if b is None and S.after is None:
            return real(*args, **kw)
        res, exc = None, None
        try:
            if b is not None:
                o = b(name, args)
                if o is not None:
                    res = o.value
                    return res
            res = real(*args, **kw)
            return res
        except BaseException as e:
            exc = e
            raise
        finally:
            if S.after is not None:
                S.after(name, args, res, exc)
            exc = None  # no reference cycle with this frame
    return f


def install():
    if S.installed:
        return
    for m in sys.modules:
        if m == "rsfile" or m.startswith("rsfile."):
            raise RuntimeError("rsfile is already imported")
    S.installed = True
    for mod, names, prefix in ((os, OS_NAMES, ""), (fcntl, FCNTL_NAMES, "")):
        for n in names:
            if hasattr(mod, n):
                key = n if mod is os else "fcntl." + n
                REAL[key] = getattr(mod, n)
                setattr(mod, n, _wrap(key, REAL[key]))


class hooks(object):
    """Context manager setting the hooks."""

    def __init__(self, before=None, after=None):
        self.b, self.a = before, after

    def __enter__(self):
        self.old = S.before, S.after
        S.before, S.after = self.b, self.a

    def __exit__(self, *a):
        S.before, S.after = self.old


def unlock_request(name, args):
    """(fd, start, length) if this call releases a POSIX lock, else None."""
    if name == "fcntl.lockf" or name == "lockf":
        if name == "fcntl.lockf" and args[1] & fcntl.LOCK_UN:
            return (args[0], args[3] if len(args) > 3 else 0, args[2] if len(args) > 2 else 0)
        if name == "lockf" and args[1] == os.F_ULOCK:
            return (args[0], None, args[2])
    if name == "fcntl.fcntl" and args[1] in (fcntl.F_SETLK, fcntl.F_SETLKW, getattr(fcntl, "F_OFD_SETLK", 37), 38) and len(args) > 2 and isinstance(args[2], bytes):
        import struct

        t, w, s, l, p = struct.unpack("hhqqi4x", args[2][:32].ljust(32, b"\0"))
        if t == fcntl.F_UNLCK:
            return (args[0], s, l)
    return None
