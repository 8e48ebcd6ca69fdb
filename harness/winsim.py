"""A simulated Win32 file API and C runtime, in memory, on which the Windows backend of rsfile can be loaded and run.

The kernel part (`Sim`) follows the documentation of the Win32 API: files made of pages whose bytes are undefined (garbage)
until written, handles with an access mask and a file pointer, byte-range locks owned by handles, error codes.  Two front
ends give it the shapes of pywin32 (modules win32file, win32con, win32api, pywintypes, msvcrt) and of ctypes (kernel32).
"""
import builtins
import ctypes
import ctypes.wintypes
import errno
import importlib
import os
import stat
import sys
import types

from core import HarnessError

GENERIC_READ, GENERIC_WRITE = 0x80000000, 0x40000000
CREATE_NEW, CREATE_ALWAYS, OPEN_EXISTING, OPEN_ALWAYS, TRUNCATE_EXISTING = 1, 2, 3, 4, 5
ATTR_READONLY, ATTR_NORMAL = 1, 128
WRITE_THROUGH = 0x80000000
CONSTANTS = dict(
    GENERIC_READ=GENERIC_READ, GENERIC_WRITE=GENERIC_WRITE, FILE_SHARE_READ=1, FILE_SHARE_WRITE=2, FILE_SHARE_DELETE=4,
    CREATE_NEW=1, CREATE_ALWAYS=2, OPEN_EXISTING=3, OPEN_ALWAYS=4, TRUNCATE_EXISTING=5,
    FILE_ATTRIBUTE_READONLY=1, FILE_ATTRIBUTE_NORMAL=128, FILE_ATTRIBUTE_HIDDEN=2, FILE_FLAG_WRITE_THROUGH=WRITE_THROUGH,
    FILE_FLAG_OVERLAPPED=0x40000000, FILE_FLAG_BACKUP_SEMANTICS=0x02000000,
    FILE_BEGIN=0, FILE_CURRENT=1, FILE_END=2, LOCKFILE_FAIL_IMMEDIATELY=1, LOCKFILE_EXCLUSIVE_LOCK=2,
    FILE_TYPE_DISK=1, FILE_TYPE_CHAR=2, FILE_TYPE_PIPE=3, DUPLICATE_SAME_ACCESS=2, INVALID_HANDLE_VALUE=-1)

# Windows error code -> errno, as in the C runtime (only codes which this simulation or the fault injection uses)
ERRNO = {2: 2, 3: 2, 4: 24, 5: 13, 6: 9, 8: 12, 15: 2, 16: 13, 17: 18, 19: 13, 32: 13, 33: 13, 80: 17, 82: 13, 109: 32, 112: 28, 114: 9,
         145: 41, 158: 13, 167: 13, 183: 17, 206: 2, 1816: 12}
PAGE = 1 << 16
GARBAGE = bytes((i * 131 + 57) % 255 + 1 for i in range(PAGE))  # never zero
MAX64 = 2 ** 64


def winerrno(code):
    return ERRNO.get(code, 22)


class WinFail(Exception):
    def __init__(self, code):
        self.code = code


class Node(object):
    def __init__(self, serial, index):
        self.pages = {}
        self.size = 0
        self.serial, self.index = serial, index
        self.atime = self.mtime = self.ctime = 1.5e9
        self.readonly = False
        self.directory = False
        self.unsynced = 0

    def page(self, i):
        if i not in self.pages:
            self.pages[i] = bytearray(GARBAGE)
        return self.pages[i]

    def read(self, pos, n):
        n = max(0, min(n, self.size - pos))
        out = bytearray()
        while n:
            i, o = divmod(pos, PAGE)
            chunk = min(n, PAGE - o)
            out += self.pages.get(i, GARBAGE)[o:o + chunk]
            pos += chunk
            n -= chunk
        return bytes(out)

    def write(self, pos, data):
        if pos > self.size:
            self.resize(pos)  # intervening bytes are undefined
        end = pos + len(data)
        done = 0
        while done < len(data):
            i, o = divmod(pos + done, PAGE)
            chunk = min(len(data) - done, PAGE - o)
            self.page(i)[o:o + chunk] = data[done:done + chunk]
            done += chunk
        self.size = max(self.size, end)

    def resize(self, size):
        if size < self.size:
            # bytes beyond the end of file become undefined again
            last, o = divmod(size, PAGE)
            for i in [i for i in self.pages if i > last]:
                del self.pages[i]
            if last in self.pages:
                self.pages[last][o:] = GARBAGE[o:]
        self.size = size


class Handle(object):
    def __init__(self, value, node, access, inherit, flags, share):
        self.value, self.node, self.access, self.inherit, self.flags, self.share = value, node, access, inherit, flags, share
        self.pos = 0


class Sim(object):
    """The kernel."""

    counter = 0x44

    def __init__(self, salt=0):
        self.files = {}  # path -> Node
        self.handles = {}  # value -> Handle
        self.fds = {}  # C runtime descriptor -> handle value
        self.locks = []  # (node, handle value, start, end, exclusive)
        self.first_handle = self.next_handle = Sim.counter  # values are never used again, so that late closings are recognised
        self.next_fd = 100003
        self.next_node = 1
        self.anomalies = []  # closings of dead handles, and so on
        self.creates = []  # arguments of the CreateFile calls
        self.faults = {}  # (function name) -> list of error codes / ("short", n)
        self.calls = []
        self.flushes = 0
        self.lasterror = 0
        self.blocked = 0

    # -- helpers
    def fault(self, name):
        self.calls.append(name)
        plan = self.faults.get(name)
        if plan:
            item = plan.pop(0)
            if isinstance(item, int) and item:
                raise WinFail(item)
            return item
        return None

    def add_file(self, path, content=b"", index=None, serial=0x1234, **kw):
        if index is None:
            index = self.next_node << 20
            self.next_node += 1
        n = Node(serial, index)
        n.write(0, content)
        for k, v in kw.items():
            setattr(n, k, v)
        self.files[path] = n
        return n

    def h(self, value):
        if isinstance(value, bool) or not isinstance(value, int) or value not in self.handles:
            raise WinFail(6)
        return self.handles[value]

    def new_handle(self, node, access, inherit=False, flags=128, share=7):
        value = self.next_handle
        self.next_handle += 4
        Sim.counter = self.next_handle
        self.handles[value] = Handle(value, node, access, inherit, flags, share)
        return value

    # -- API
    def CreateFile(self, path, access, share, inherit, disposition, flags):
        self.creates.append(dict(path=path, access=access, share=share, inherit=bool(inherit), disposition=disposition, flags=flags))
        self.fault("CreateFile")
        node = self.files.get(path)
        if not path:
            raise WinFail(3)
        if node is not None and node.directory:
            raise WinFail(5)
        if disposition == CREATE_NEW:
            if node is not None:
                raise WinFail(80)
        elif disposition in (OPEN_EXISTING, TRUNCATE_EXISTING):
            if node is None:
                raise WinFail(2)
        elif disposition not in (CREATE_ALWAYS, OPEN_ALWAYS):
            raise WinFail(87)
        if node is not None and node.readonly and access & GENERIC_WRITE:
            raise WinFail(5)
        if node is None:
            node = self.add_file(path)
            node.readonly = bool(flags & ATTR_READONLY)
        elif disposition in (CREATE_ALWAYS, TRUNCATE_EXISTING):
            node.resize(0)
        return self.new_handle(node, access, inherit, flags, share)

    def CloseHandle(self, value):
        self.fault("CloseHandle")
        if value not in self.handles:
            if not isinstance(value, int) or value >= self.first_handle:
                self.anomalies.append("CloseHandle(%r) on a dead handle" % (value,))
            raise WinFail(6)
        self.locks = [l for l in self.locks if l[1] != value]
        del self.handles[value]

    def FlushFileBuffers(self, value):
        h = self.h(value)
        self.fault("FlushFileBuffers")
        if not h.access & GENERIC_WRITE:
            raise WinFail(5)
        h.node.unsynced = 0
        self.flushes += 1

    def GetFileInformationByHandle(self, value):
        h = self.h(value)
        self.fault("GetFileInformationByHandle")
        return h.node

    def GetFileSize(self, value):
        h = self.h(value)
        self.fault("GetFileSize")
        return h.node.size

    def SetFilePointer(self, value, offset, method):
        h = self.h(value)
        self.fault("SetFilePointer")
        if method not in (0, 1, 2):
            raise WinFail(87)
        if not -2 ** 63 <= offset < 2 ** 63:
            raise OverflowError(offset)
        pos = offset + (0, h.pos, h.node.size)[method]
        if pos < 0:
            raise WinFail(131)
        if pos >= 2 ** 63:
            raise WinFail(87)
        h.pos = pos
        return pos

    def SetEndOfFile(self, value):
        h = self.h(value)
        self.fault("SetEndOfFile")
        if not h.access & GENERIC_WRITE:
            raise WinFail(5)
        h.node.resize(h.pos)
        h.node.unsynced += 1

    def denied(self, h, start, length, write):
        for node, owner, s, e, exclusive in self.locks:
            if node is h.node and s < start + length and start < e:
                if write and not exclusive or exclusive and owner != h.value:
                    return True
        return False

    def WriteFile(self, value, data):
        h = self.h(value)
        short = self.fault("WriteFile")
        if not h.access & GENERIC_WRITE:
            raise WinFail(5)
        data = bytes(data)
        if short and data:
            data = data[:max(1, len(data) * short[1] // 8)]
        if data:
            if self.denied(h, h.pos, len(data), True):
                raise WinFail(33)
            h.node.write(h.pos, data)
            h.node.unsynced += 1
            h.pos += len(data)
        return len(data)

    def ReadFile(self, value, n):
        h = self.h(value)
        short = self.fault("ReadFile")
        if not h.access & GENERIC_READ:
            raise WinFail(5)
        if n < 0:
            raise WinFail(87)
        if short and n:
            n = max(1, n * short[1] // 8)
        if n and self.denied(h, h.pos, n, False):
            raise WinFail(33)
        data = h.node.read(h.pos, n)
        h.pos += len(data)
        return data

    def LockFileEx(self, value, flags, low, high, offset_low, offset_high):
        h = self.h(value)
        self.fault("LockFileEx")
        start = offset_low | offset_high << 32
        length = low | high << 32
        if not h.access & (GENERIC_READ | GENERIC_WRITE):
            raise WinFail(5)
        exclusive = bool(flags & 2)
        end = min(start + length, MAX64)
        for node, owner, s, e, x in self.locks:
            if node is h.node and s < end and start < e and (x or exclusive):
                if not flags & 1:
                    # would block forever, in this single-threaded world
                    self.blocked += 1
                    raise HarnessError("LockFileEx would block forever")
                raise WinFail(33)
        self.locks.append((h.node, value, start, end, exclusive))

    def UnlockFileEx(self, value, low, high, offset_low, offset_high):
        h = self.h(value)
        self.fault("UnlockFileEx")
        start = offset_low | offset_high << 32
        end = min(start + (low | high << 32), MAX64)
        for i, (node, owner, s, e, x) in enumerate(self.locks):
            if owner == value and s == start and e == end:
                del self.locks[i]
                return
        self.anomalies.append("UnlockFileEx on a range which isn't locked")
        raise WinFail(158)

    # -- C runtime
    def open_osfhandle(self, value, flags):
        value = int(value)
        if value not in self.handles:
            raise OSError(errno.EBADF, "Bad file descriptor")
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = value
        return fd

    def get_osfhandle(self, fd):
        if fd not in self.fds:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return self.fds[fd]

    def crt_close(self, fd):
        value = self.fds.pop(fd)
        if value not in self.handles:
            self.anomalies.append("close of a descriptor whose handle is dead")
            raise OSError(errno.EBADF, "Bad file descriptor")
        try:
            self.CloseHandle(value)
        except WinFail as e:
            raise OSError(winerrno(e.code), "close")

    def crt_stat(self, fd):
        value = self.fds[fd]
        if value not in self.handles:
            raise OSError(errno.EBADF, "Bad file descriptor")
        n = self.handles[value].node
        return types.SimpleNamespace(st_mode=stat.S_IFREG | 0o666, st_size=n.size, st_atime=n.atime, st_mtime=n.mtime, st_ctime=n.ctime,
                                     st_atime_ns=int(n.atime * 10 ** 9), st_mtime_ns=int(n.mtime * 10 ** 9), st_ctime_ns=int(n.ctime * 10 ** 9),
                                     st_dev=n.serial, st_ino=n.index, st_nlink=1)

    def crt_write(self, fd, data):
        try:
            return self.WriteFile(self.get_osfhandle(fd), data)
        except WinFail as e:
            raise OSError(winerrno(e.code), "write")


class World(object):
    """Holder of the current simulation, so that the fake modules can be loaded once."""

    def __init__(self):
        self.sim = Sim()


W = World()


# ------------------------------------------------------------------------------------------- pywin32 shapes

class PyError(Exception):
    """pywintypes.error"""

    def __init__(self, winerror, funcname=None, strerror=None):
        Exception.__init__(self, winerror, funcname, strerror)
        self.winerror, self.funcname, self.strerror = winerror, funcname, strerror


def pycall(func, *args):
    try:
        return getattr(W.sim, func)(*args)
    except WinFail as e:
        W.sim.lasterror = e.code
        raise PyError(e.code, func, "simulated error %d" % e.code)


class PyHANDLE(object):
    def __init__(self, value):
        self.handle = value
        self.sim = W.sim

    def __int__(self):
        return self.handle

    __index__ = __int__

    def Detach(self):
        value, self.handle = self.handle, 0
        return value

    def Close(self):
        value, self.handle = self.handle, 0
        if value:
            self.sim.CloseHandle(value)

    def __del__(self):
        try:
            self.Close()
        except Exception:
            pass


class PyOVERLAPPED(object):
    def __init__(self):
        self.__dict__.update(Offset=0, OffsetHigh=0, hEvent=0, Internal=0, InternalHigh=0, object=None, dword=0)

    def __setattr__(self, name, value):
        if name not in self.__dict__:
            raise AttributeError(name)
        if name in ("Offset", "OffsetHigh") and not -2 ** 31 <= value < 2 ** 32:
            raise OverflowError(value)
        self.__dict__[name] = value


class PySECURITY_ATTRIBUTES(object):
    def __init__(self):
        self.__dict__.update(bInheritHandle=False, SECURITY_DESCRIPTOR=None, lpSecurityDescriptor=None, nLength=24)

    def __setattr__(self, name, value):
        if name not in self.__dict__:
            raise AttributeError(name)
        self.__dict__[name] = value


def dword(x, signed_only=False):
    if not isinstance(x, int):
        raise TypeError("an integer is required")
    if signed_only and not -2 ** 31 <= x < 2 ** 31 or not -2 ** 31 <= x < 2 ** 32:
        raise OverflowError("signed integer is out of range")
    return x & 0xFFFFFFFF


def pyhandle(h):
    return h.handle if isinstance(h, PyHANDLE) else h


def py_create_file(path, access, share, attributes, disposition, flags, template=None):
    if not isinstance(path, str):
        raise TypeError("The object is not a PyUnicode object")
    return PyHANDLE(pycall("CreateFile", path, dword(access), dword(share), bool(attributes and attributes.bInheritHandle), disposition, dword(flags)))


def py_info(h):
    n = pycall("GetFileInformationByHandle", pyhandle(h))
    bad_time = object()  # PyTime instances, which rsfile doesn't want
    return (0, bad_time, bad_time, bad_time, n.serial, 0, 0, 1, n.index >> 32, n.index & 0xFFFFFFFF)


def py_set_end(h):
    try:
        W.sim.SetEndOfFile(pyhandle(h))
    except WinFail as e:
        W.sim.lasterror = e.code
        return 0
    return 1


def py_read(h, n, overlapped=None):
    if not isinstance(n, int):
        data = pycall("ReadFile", pyhandle(h), len(n))
        n[:len(data)] = data
        return (0, n)
    return (0, pycall("ReadFile", pyhandle(h), n))


def make_pywin32():
    mods = {}
    for name in ("win32con", "win32file", "win32api", "pywintypes", "msvcrt"):
        mods[name] = types.ModuleType(name)
    mods["win32con"].__dict__.update(CONSTANTS)
    mods["win32file"].__dict__.update(CONSTANTS)
    mods["win32file"].__dict__.update(
        CreateFile=py_create_file, CreateFileW=py_create_file,
        CloseHandle=lambda h: h.Close() if isinstance(h, PyHANDLE) else pycall("CloseHandle", h),
        FlushFileBuffers=lambda h: pycall("FlushFileBuffers", pyhandle(h)),
        GetFileInformationByHandle=py_info,
        GetFileSize=lambda h: pycall("GetFileSize", pyhandle(h)),
        GetFileType=lambda h: 1 if pyhandle(h) in W.sim.handles else 0,
        SetFilePointer=lambda h, offset, method: pycall("SetFilePointer", pyhandle(h), offset, method),
        SetEndOfFile=py_set_end,
        WriteFile=lambda h, data, overlapped=None: (0, pycall("WriteFile", pyhandle(h), data)),
        ReadFile=py_read,
        LockFileEx=lambda h, flags, low, high, o: pycall("LockFileEx", pyhandle(h), flags, dword(low, True), dword(high, True), dword(o.Offset), dword(o.OffsetHigh)),
        UnlockFileEx=lambda h, low, high, o: pycall("UnlockFileEx", pyhandle(h), dword(low, True), dword(high, True), dword(o.Offset), dword(o.OffsetHigh)),
        OVERLAPPED=PyOVERLAPPED, SECURITY_ATTRIBUTES=PySECURITY_ATTRIBUTES, error=PyError)
    mods["win32api"].__dict__.update(error=PyError, GetLastError=lambda: W.sim.lasterror, CloseHandle=mods["win32file"].CloseHandle,
                                     FormatMessage=lambda code: "simulated error %d" % code)
    mods["pywintypes"].__dict__.update(error=PyError, OVERLAPPED=PyOVERLAPPED, SECURITY_ATTRIBUTES=PySECURITY_ATTRIBUTES, HANDLE=PyHANDLE)
    return mods


def make_msvcrt():
    m = types.ModuleType("msvcrt")
    m.open_osfhandle = lambda h, flags: W.sim.open_osfhandle(h, flags)
    get = lambda fd: W.sim.get_osfhandle(fd)
    m.get_osfhandle = get
    m.setmode = lambda fd, flags: 0x8000
    return m


# ------------------------------------------------------------------------------------------- ctypes shapes

def ctypes_functions():
    wt = ctypes.wintypes

    def create(path, access, share, attributes, disposition, flags, template):
        inherit = bool(attributes) and bool(attributes.contents.bInheritHandle)
        try:
            if isinstance(path, bytes):
                path = path.decode("utf-8", "surrogateescape")
            return W.sim.CreateFile(path, access, share, inherit, disposition, flags)
        except WinFail as e:
            W.sim.lasterror = e.code
            return 2 ** 64 - 1

    def boolean(func):
        def wrapper(*args):
            try:
                func(*args)
                return 1
            except WinFail as e:
                W.sim.lasterror = e.code
                return 0

        return wrapper

    def info(h, out):
        n = W.sim.GetFileInformationByHandle(h)
        o = out.contents
        o.dwFileAttributes = 128
        for field, t in (("ftCreationTime", n.ctime), ("ftLastAccessTime", n.atime), ("ftLastWriteTime", n.mtime)):
            ticks = int(round(t * 10 ** 7)) + 116444736000000000
            setattr(o, field, wt.FILETIME(ticks & 0xFFFFFFFF, ticks >> 32))
        o.dwVolumeSerialNumber = n.serial
        o.nFileSizeLow, o.nFileSizeHigh = n.size & 0xFFFFFFFF, n.size >> 32
        o.nFileIndexLow, o.nFileIndexHigh = n.index & 0xFFFFFFFF, n.index >> 32
        o.nNumberOfLinks = 1

    def size_ex(h, out):
        out.contents.value = W.sim.GetFileSize(h)

    def pointer_ex(h, offset, out, method):
        r = W.sim.SetFilePointer(h, offset, method)
        if out:
            out.contents.value = r

    def write(h, address, n, out, overlapped):
        out.contents.value = 0
        out.contents.value = W.sim.WriteFile(h, ctypes.string_at(address, n) if n else b"")

    def read(h, address, n, out, overlapped):
        out.contents.value = 0
        data = W.sim.ReadFile(h, n)
        if data:
            ctypes.memmove(address, data, len(data))
        out.contents.value = len(data)

    def lock(h, flags, reserved, low, high, o):
        if reserved:
            raise WinFail(87)
        W.sim.LockFileEx(h, flags, low, high, o.contents.Offset, o.contents.OffsetHigh)

    def unlock(h, reserved, low, high, o):
        if reserved:
            raise WinFail(87)
        W.sim.UnlockFileEx(h, low, high, o.contents.Offset, o.contents.OffsetHigh)

    return dict(
        CreateFileW=create, CreateFileA=create, CloseHandle=boolean(lambda h: W.sim.CloseHandle(h)),
        FlushFileBuffers=boolean(lambda h: W.sim.FlushFileBuffers(h)), GetFileInformationByHandle=boolean(info), GetFileSizeEx=boolean(size_ex),
        SetFilePointerEx=boolean(pointer_ex), SetEndOfFile=boolean(lambda h: W.sim.SetEndOfFile(h)), WriteFile=boolean(write), ReadFile=boolean(read),
        LockFileEx=boolean(lock), UnlockFileEx=boolean(unlock), GetLastError=lambda: W.sim.lasterror)


class FakeFunc(object):
    """A foreign function: arguments go through real ctypes conversions, according to its declared prototype."""

    def __init__(self, name, impl):
        self.name, self.impl = name, impl
        self.restype, self.argtypes = ctypes.c_int, None
        self._proto = None

    def __call__(self, *args):
        if self.impl is None:
            raise HarnessError("function %s isn't simulated" % self.name)
        if self.argtypes is None:
            return self.impl(*args)
        key = (self.restype, tuple(self.argtypes))
        if self._proto is None or self._proto[0] != key:
            trouble = []

            def target(*a):
                try:
                    return self.impl(*a)
                except BaseException as e:
                    trouble.append(e)
                    return 0

            self._proto = (key, ctypes.CFUNCTYPE(self.restype, *self.argtypes)(target), trouble)
        r = self._proto[1](*args)
        if self._proto[2]:
            raise self._proto[2].pop()
        return r


class FakeDLL(object):
    def __init__(self, funcs):
        self._funcs = funcs
        self._made = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name not in self._made:
            self._made[name] = FakeFunc(name, self._funcs.get(name))
        return self._made[name]


def win_error(code=None, descr=None):
    if code is None:
        code = W.sim.lasterror
    e = OSError(winerrno(code), descr or "simulated error %d" % code)
    e.winerror = code
    return e


# ------------------------------------------------------------------------------------------- loading

_loaded = {}
_patched = []


def patch_os():
    """Makes the os functions know the simulated descriptors (everything else goes to the real functions)."""
    if _patched:
        return
    _patched.append(True)

    def route(name, fake):
        real = getattr(os, name)

        def wrapper(fd, *args, **kwargs):
            if isinstance(fd, int) and fd in W.sim.fds:
                return fake(fd, *args, **kwargs)
            if isinstance(fd, int) and (fd >= 100000 or fd == 0):
                raise OSError(errno.EBADF, "Bad file descriptor")
            return real(fd, *args, **kwargs)

        setattr(os, name, wrapper)

    route("close", lambda fd: W.sim.crt_close(fd))
    route("fstat", lambda fd: W.sim.crt_stat(fd))
    route("get_blocking", lambda fd: True)
    route("set_blocking", lambda fd, value: None)
    route("isatty", lambda fd: False)
    route("write", lambda fd, data: W.sim.crt_write(fd, data))
    route("get_inheritable", lambda fd: W.sim.handles[W.sim.get_osfhandle(fd)].inherit)


def load(backend):
    """Returns the rsfile package loaded as on Windows, with the given backend ("pywin32" or "ctypes")."""
    import _pyio, array, functools, io, locale, multiprocessing, shutil, tempfile, threading, traceback  # noqa: with the real platform

    from core import import_repo

    import_repo()
    patch_os()
    fakes = dict(make_pywin32() if backend == "pywin32" else {}, msvcrt=_loaded.setdefault("msvcrt", make_msvcrt()))
    for name in [m for m in sys.modules if m == "rsfile" or m.startswith("rsfile.")] + ["win32con", "win32file", "win32api", "pywintypes"]:
        sys.modules.pop(name, None)
    if backend in _loaded:
        sys.modules.update(_loaded[backend])
        return sys.modules["rsfile"]
    for name in ("win32con", "win32file", "win32api", "pywintypes"):
        if name not in fakes:
            fakes[name] = None  # ImportError
    sys.modules.update(fakes)
    wt = ctypes.wintypes
    wt.DWORD, wt.LONG, wt.ULONG, wt.BOOL = ctypes.c_uint32, ctypes.c_int32, ctypes.c_uint32, ctypes.c_int

    class FILETIME(ctypes.Structure):
        _fields_ = [("dwLowDateTime", ctypes.c_uint32), ("dwHighDateTime", ctypes.c_uint32)]

    wt.FILETIME = FILETIME
    real_cdll = ctypes.CDLL
    kernel32 = FakeDLL(ctypes_functions())
    crt = FakeDLL({})
    real_platform = sys.platform
    builtins.WindowsError = OSError
    ctypes.WinError = win_error
    ctypes.GetLastError = lambda: W.sim.lasterror
    ctypes.WINFUNCTYPE = ctypes.CFUNCTYPE
    ctypes.WinDLL = lambda name, *a, **k: kernel32
    try:
        ctypes.CDLL = lambda name, *a, **k: crt if name == "msvcrt" else real_cdll(name, *a, **k)
        sys.platform = "win32"
        m = importlib.import_module("rsfile")
        importlib.import_module("rsfile.rsfileio_windows")
    finally:
        sys.platform = real_platform
        ctypes.CDLL = real_cdll
    _loaded[backend] = {name: mod for name, mod in sys.modules.items() if name == "rsfile" or name.startswith("rsfile.") or name in fakes}
    return m
